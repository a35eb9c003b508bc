----------------------------- MODULE GeometryMC -----------------------------
(* The geometry of Geometry.tla examined on a grid: what it accepts is a         *)
(* narrow range of values, the same distances in both directions, and the        *)
(* values one expects of simple cases.                                           *)
EXTENDS Geometry

CONSTANT Big

Coords == IF Big THEN {0 - 65535, 0 - 300, 0, 7, 300, 65535} ELSE {0 - 300, 0, 7, 65535}
Angles == IF Big THEN {0 - 100, 0, 45, 77, 181, 270} ELSE {0, 45, 261}
Pitches == IF Big THEN {0 - 128, 0 - 60, 0, 30, 90} ELSE {0, 30, 90}

P(x, y, z, yaw, pitch, roll) == [x |-> x, y |-> y, z |-> z, yaw |-> yaw, pitch |-> pitch, roll |-> roll]

VARIABLES p, q, step
vars == <<p, q, step>>
O == P(0, 0, 0, 0, 0, 0)
Init == p = O /\ q = P(1, 0, 0, 0, 0, 0) /\ step = 0
Next == \/ /\ step = 0 /\ step' = 1 /\ UNCHANGED q
           /\ p' \in { P(0, 0, 0, a, b, c) : a \in Angles, b \in Pitches, c \in Angles }
        \/ /\ step = 1 /\ step' = 2 /\ UNCHANGED p
           /\ q' \in { P(x, y, z, 0, 0, 0) : x \in Coords, y \in Coords, z \in Coords } \ {O}
Spec == Init /\ [][Next]_vars

Azimuths(a, b) == LET s == Seen(Scaled(Delta(a, b)), a)  h == Root(s.x * s.x + s.z * s.z, 0, 32768) IN
                  IF h < 1024 THEN -180..180 ELSE { az \in -180..180 : Points(s.x, s.z, az) }
Elevations(a, b) == LET s == Seen(Scaled(Delta(a, b)), a)  h == Root(s.x * s.x + s.z * s.z, 0, 32768) IN
                    { el \in -90..90 : Points(s.y, h, el) }
(* Angles near each other, on the circle. *)
Arc(S) == \A a, b \in S : LET d == (a - b) % 360 IN d <= 3 \/ d >= 357
Narrow == /\ Elevations(p, q) # {} /\ Arc(Elevations(p, q))
          /\ Azimuths(p, q) # {} /\ (Cardinality(Azimuths(p, q)) = 361 \/ Arc(Azimuths(p, q)))
(* The numbers around the length of v, by bisection. *)
RECURSIVE Around(_, _, _)
Around(v, lo, hi) ==
  IF hi - lo < 8 THEN (Max2(0, lo - 5))..(hi + 5)
  ELSE LET m == (lo + hi) \div 2
           s == Sum(Sum(Square(Abs(v.x)), Square(Abs(v.y))), Square(Abs(v.z)))
       IN IF Leq(Square(m), s) THEN Around(v, m, hi) ELSE Around(v, lo, m)
(* The length of a vector is one of at most three neighbouring numbers. *)
Approx == LET v == Delta(p, q)  m == Size(v) IN { d \in Around(v, Min2(m, MaxDistance - 10), Min2(2 * m, MaxDistance)) : GoodDistance(v, d) }
Distance == /\ Approx # {} /\ (Cardinality(Approx) <= 3 \/ \A d \in Approx : d >= MaxDistance - 1 \/ d + 1 \in Approx)
            /\ \A d \in Approx : GoodDistance(Delta(q, p), d)
(* Turning the observer to the left moves everything to the right. *)
Turned == (p.pitch = 0 /\ p.roll = 0) =>
   LET straight == P(0, 0, 0, 0, 0, 0) IN
   Cardinality(Azimuths(p, q)) < 361 =>
     \E a \in Azimuths(straight, q), b \in Azimuths(p, q) : (b - a - p.yaw) % 360 = 0
(* A full turn changes nothing. *)
FullTurn == LET r == [p EXCEPT !.yaw = @ + 360, !.roll = @ - 720] IN
   /\ Azimuths(r, q) = Azimuths(p, q) /\ Elevations(r, q) = Elevations(p, q) /\ (Abs(p.pitch) <= 90 => SameOrientation(r, p))
(* Different orientations are told apart. *)
Distinct == LET r == [p EXCEPT !.yaw = @ + 15] IN Abs(p.pitch) < 90 => ~SameOrientation(p, [r EXCEPT !.yaw = @ % 180, !.roll = @ % 180])

(* The cases of the unit tests. *)
ASSUME GoodMeasure(O, P(10, 0, 10, 0, 0, 0), [d |-> 14, az |-> 45, el |-> 0])
ASSUME GoodMeasure(O, P(0 - 10, 0, 0 - 10, 0, 0, 0), [d |-> 14, az |-> 0 - 135, el |-> 0])
ASSUME GoodMeasure(O, P(0, 10, 0 - 10, 0, 0, 0), [d |-> 14, az |-> 180, el |-> 45])
ASSUME GoodMeasure(P(0, 0, 0, 45, 0, 0), P(0, 0, 10, 0, 0, 0), [d |-> 10, az |-> 45, el |-> 0])
ASSUME GoodMeasure(P(0, 0, 0, 0, 45, 0), P(0, 0, 10, 0, 0, 0), [d |-> 10, az |-> 0, el |-> 0 - 45])
ASSUME GoodMeasure(P(0, 0, 0, 90, 0, 0), P(10, 10, 10, 0, 0, 0), [d |-> 17, az |-> 135, el |-> 35])
ASSUME GoodMeasure(P(0, 0, 0, 0, 0, 90), P(10, 10, 10, 0, 0, 0), [d |-> 17, az |-> 0 - 45, el |-> 35])
ASSUME GoodMeasure(P(0, 0, 0, 0 - 45, 35, 42), P(10, 10, 10, 0, 0, 0), [d |-> 17, az |-> 0, el |-> 0])
ASSUME ~GoodMeasure(O, P(10, 0, 10, 0, 0, 0), [d |-> 14, az |-> 0 - 45, el |-> 0])
ASSUME ~GoodMeasure(O, P(10, 0, 10, 0, 0, 0), [d |-> 14, az |-> 43, el |-> 0])
ASSUME ~GoodMeasure(O, P(10, 0, 10, 0, 0, 0), [d |-> 14, az |-> 45, el |-> 2])
ASSUME ~GoodMeasure(O, P(10, 0, 10, 0, 0, 0), [d |-> 20, az |-> 45, el |-> 0])
ASSUME ~GoodMeasure(P(0, 0, 0, 45, 0, 0), P(0, 0, 10, 0, 0, 0), [d |-> 10, az |-> 0 - 45, el |-> 0])
=============================================================================
