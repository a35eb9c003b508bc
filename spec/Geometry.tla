------------------------------ MODULE Geometry ------------------------------
(* Positions and directions of the scene, in integer arithmetic (TLC has 32    *)
(* bit integers and no others): distances are compared through two-digit       *)
(* squares, directions in 14 bit fixed point with a table of sines.            *)
EXTENDS Bytes

One == 16384
SinTable == <<
  0, 286, 572, 857, 1143, 1428, 1713, 1997, 2280, 2563, 2845, 3126, 3406, 3686, 3964, 4240, 4516, 4790, 5063, 5334,
  5604, 5872, 6138, 6402, 6664, 6924, 7182, 7438, 7692, 7943, 8192, 8438, 8682, 8923, 9162, 9397, 9630, 9860, 10087,
  10311, 10531, 10749, 10963, 11174, 11381, 11585, 11786, 11982, 12176, 12365, 12551, 12733, 12911, 13085, 13255,
  13421, 13583, 13741, 13894, 14044, 14189, 14330, 14466, 14598, 14726, 14849, 14968, 15082, 15191, 15296, 15396,
  15491, 15582, 15668, 15749, 15826, 15897, 15964, 16026, 16083, 16135, 16182, 16225, 16262, 16294, 16322, 16344,
  16362, 16374, 16382, 16384 >>
(* Sine and cosine of whole degrees. *)
Sin(d) == LET a == d % 360 IN
          CASE a <= 90 -> SinTable[a + 1]
            [] a > 90 /\ a <= 180 -> SinTable[(180 - a) + 1]
            [] a > 180 /\ a <= 270 -> 0 - SinTable[(a - 180) + 1]
            [] OTHER -> 0 - SinTable[(360 - a) + 1]
Cos(d) == Sin(d + 90)

Abs(n) == IF n < 0 THEN 0 - n ELSE n
(* Division rounding to nearest. *)
Near(n, d) == (n + (d \div 2)) \div d

Vec(x, y, z) == [x |-> x, y |-> y, z |-> z]
Size(v) == Max2(Abs(v.x), Max2(Abs(v.y), Abs(v.z)))
(* The vector in the same direction of size 8192 to 16384. *)
RECURSIVE Scaled(_)
Scaled(v) ==
  CASE Size(v) = 0 -> v
    [] Size(v) < 8192 -> Scaled(Vec(2 * v.x, 2 * v.y, 2 * v.z))
    [] Size(v) > 2 * One -> LET k == 4 IN Vec(Near(v.x, k), Near(v.y, k), Near(v.z, k))
    [] Size(v) > One -> Vec(Near(v.x, 2), Near(v.y, 2), Near(v.z, 2))
    [] OTHER -> v

RotY(v, d) == Vec(Near(v.x * Cos(d) + v.z * Sin(d), One), v.y, Near(v.z * Cos(d) - v.x * Sin(d), One))
RotX(v, d) == Vec(v.x, Near(v.y * Cos(d) - v.z * Sin(d), One), Near(v.y * Sin(d) + v.z * Cos(d), One))
RotZ(v, d) == Vec(Near(v.x * Cos(d) - v.y * Sin(d), One), Near(v.x * Sin(d) + v.y * Cos(d), One), v.z)
(* A vector as seen by an observer with an orientation: yaw, then pitch, roll. *)
Seen(v, p) == RotZ(RotX(RotY(v, p.yaw), p.pitch), p.roll)

----------------------------------------------------------------------------
(* Squares of up to 18 bit numbers as <<n \div 65536, n % 65536>>.             *)
Norm(n) == <<n[1] + (n[2] \div 65536), n[2] % 65536>>
Square(x) == LET a == x \div 256
                 b == x % 256
             IN Norm(<<a * a, 512 * a * b + b * b>>)
Sum(m, n) == Norm(<<m[1] + n[1], m[2] + n[2]>>)
Leq(m, n) == m[1] < n[1] \/ (m[1] = n[1] /\ m[2] <= n[2])

Delta(p, q) == Vec(q.x - p.x, q.y - p.y, q.z - p.z)
MaxDistance == 65535
(* d is the length of v to one unit, no more than MaxDistance. *)
GoodDistance(v, d) ==
  LET s == Sum(Sum(Square(Abs(v.x)), Square(Abs(v.y))), Square(Abs(v.z))) IN
  /\ d >= 0 /\ d <= MaxDistance
  /\ Leq(Square(Max2(0, d - 1)), s)
  /\ d >= MaxDistance - 1 \/ Leq(s, Square(d + 1))

RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF lo >= hi THEN lo
                   ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)

(* (u, w) points a degrees from the axis of w towards that of u, to about one   *)
(* degree (the tangent of which is 1/57).                                       *)
Points(u, w, a) ==
  LET cross == u * Cos(a) - w * Sin(a)
      dot == u * Sin(a) + w * Cos(a)
  IN dot > 0 /\ (Abs(cross) \div 1024) * 56 <= (dot \div 1024)

(* Azimuth and elevation of q as seen from p; the azimuth of a direction close *)
(* to the vertical, and any direction to the same place, are left open.        *)
GoodDirection(p, q, az, el) ==
  LET s == Seen(Scaled(Delta(p, q)), p)
      h == Root(s.x * s.x + s.z * s.z, 0, 32768)
  IN /\ az \in -180..180 /\ el \in -90..90
     /\ Size(Delta(p, q)) > 0 =>
          /\ h >= 1024 => Points(s.x, s.z, az)
          /\ Points(s.y, h, el)

GoodMeasure(p, q, m) == GoodDistance(Delta(p, q), m.d) /\ GoodDirection(p, q, m.az, m.el)

(* Two orientations are the same: up to rounding, and to full turns; with the   *)
(* pitch at or beyond the vertical the angles are not unique.                   *)
Axes == { Vec(One, 0, 0), Vec(0, One, 0), Vec(0, 0, One) }
Close(v, w) == Abs(v.x - w.x) <= 500 /\ Abs(v.y - w.y) <= 500 /\ Abs(v.z - w.z) <= 500
SameOrientation(p, o) ==
  /\ o.yaw \in -360..360 /\ o.pitch \in -90..90 /\ o.roll \in -360..360
  /\ IF Abs(p.pitch) < 90
     THEN (o.yaw - p.yaw) % 360 = 0 /\ o.pitch = p.pitch /\ (o.roll - p.roll) % 360 = 0
     ELSE \A v \in Axes : Close(Seen(v, p), Seen(v, o))
SamePosition(p, o) == o.x = p.x /\ o.y = p.y /\ o.z = p.z /\ SameOrientation(p, o)
=============================================================================
