-------------------------------- MODULE Scene --------------------------------
(* The scene server (pica-http): the emulator of Pica.tla, with a position for  *)
(* every device and anchor, HTTP requests to look at the scene and to change    *)
(* it, and an event stream that reports the changes.                            *)
(*                                                                              *)
(* A scene state is [p, pos, ev, rsp, late]: the emulator, the positions by      *)
(* handle, the events and responses produced, and requests that may still be    *)
(* under way although nobody waits for them.  Addresses in requests are the text   *)
(* of the request, as a sequence of character codes.                            *)
EXTENDS Pica, Geometry

Origin == [x |-> 0, y |-> 0, z |-> 0, yaw |-> 0, pitch |-> 0, roll |-> 0]

SceneInit(salt) == [p |-> InitState(salt), pos |-> [h \in {} |-> Origin], ev |-> <<>>, rsp |-> <<>>, late |-> <<>>]

----------------------------------------------------------------------------
(* Addresses as text: hexadecimal, colons (plain or escaped) being ignored. *)
RECURSIVE NoColons(_, _)
NoColons(t, acc) ==
  CASE t = <<>> -> acc
    [] t[1] = 58 -> NoColons(Tail(t), acc)
    [] OTHER -> NoColons(Tail(t), Append(acc, t[1]))
RECURSIVE NoEscapes(_, _)
NoEscapes(t, acc) ==
  CASE t = <<>> -> acc
    [] Len(t) >= 3 /\ SubSeq(t, 1, Min2(3, Len(t))) = <<37, 51, 65>> -> NoEscapes(Drop(t, 3), acc)
    [] OTHER -> NoEscapes(Tail(t), Append(acc, t[1]))
HexDigit(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 0 - 1
(* The address a text stands for, <<>> if none. *)
Address(text) ==
  LET t == NoEscapes(NoColons(text, <<>>), <<>>) IN
  IF Len(t) \notin {4, 16} \/ \E i \in DOMAIN t : HexDigit(t[i]) < 0 THEN <<>>
  ELSE [i \in 1..(Len(t) \div 2) |-> 16 * HexDigit(t[2 * i - 1]) + HexDigit(t[2 * i])]
(* How an address is written: upper case, colons between the octets. *)
HexChar(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Text(mac) == Flat([i \in DOMAIN mac |-> (IF i = 1 THEN <<>> ELSE <<58>>) \o <<HexChar(mac[i] \div 16), HexChar(mac[i] % 16)>>])

(* A body: [kind] "none", "bad", or "pos" with the six numbers. *)
WellFormed(b) ==
  CASE b.kind = "none" -> TRUE
    [] b.kind = "bad" -> FALSE
    [] OTHER -> /\ \A n \in {b.x, b.y, b.z, b.yaw, b.roll} : n \in (0 - 32768)..32767
                /\ b.pitch \in (0 - 128)..127
PositionOf(b) == IF b.kind = "none" THEN Origin
                 ELSE [x |-> b.x, y |-> b.y, z |-> b.z, yaw |-> b.yaw, pitch |-> b.pitch, roll |-> b.roll]

----------------------------------------------------------------------------
(* What is in the scene: [h, cat, mac]. *)
Things(s) ==
  { [h |-> h, cat |-> "Uci", mac |-> s.p.devs[h].mac] : h \in DOMAIN s.p.devs }
  \union { [h |-> s.p.anch[m], cat |-> "Anchor", mac |-> m] : m \in DOMAIN s.p.anch }
Full(s, t) == [cat |-> t.cat, mac |-> t.mac, pos |-> s.pos[t.h]]

Tell(s, e) == [s EXCEPT !.ev = Append(@, e)]
Answered(s, lane, status) == [s EXCEPT !.rsp = Append(@, [lane |-> lane, status |-> status, list |-> {}, isList |-> FALSE])]

(* The emulator has moved on to p: its events become those of the scene. *)
RECURSIVE Follow(_, _)
Follow(s, evs) ==
  IF evs = <<>> THEN s
  ELSE LET e == evs[1] IN
    Follow(IF e[1] = 1
           THEN Tell([s EXCEPT !.pos = (e[2] :> Origin) @@ @], [k |-> "added", cat |-> "Uci", mac |-> e[3], pos |-> Origin])
           ELSE Tell([s EXCEPT !.pos = Without(@, e[2])], [k |-> "removed", cat |-> "Uci", mac |-> e[3]]),
           Tail(evs))
Lift(s, p) == Follow([s EXCEPT !.p = [p EXCEPT !.ev = <<>>]], p.ev)

----------------------------------------------------------------------------
(* Requests.  near(mac1, mac2) is the measured value from one to the other,     *)
(* where it is known: [ok, rng, azi, ele].                                      *)

SetPosition(s, lane, mac, pos, near(_, _)) ==
  LET me == { t \in Things(s) : t.mac = mac } IN
  IF me = {} THEN Answered(s, lane, 404)
  ELSE
  LET t == CHOOSE x \in me : TRUE
      s1 == [s EXCEPT !.pos[t.h] = pos]
      others == Things(s) \ {t}
      both == { <<t, o>> : o \in others } \union { <<o, t>> : o \in others }
      known == { x \in both : near(x[1].mac, x[2].mac).ok }
      geo == [y \in { <<x[1].h, x[2].h>> : x \in known } |->
                LET x == CHOOSE z \in known : y = <<z[1].h, z[2].h>> IN near(x[1].mac, x[2].mac)]
      s2 == Tell(s1, [k |-> "updated", cat |-> t.cat, mac |-> mac, pos |-> pos])
      s3 == IF others = {} THEN s2
            ELSE Tell(s2, [k |-> "near", cat |-> t.cat, mac |-> mac, pos |-> pos, others |-> { Full(s1, o) : o \in others }])
      (* The measured values that are not known have changed, too. *)
      kept == [y \in { z \in DOMAIN s.p.geo : t.h \notin {z[1], z[2]} } |-> s.p.geo[y]]
  IN Answered([s3 EXCEPT !.p.geo = geo @@ kept], lane, 200)

MakeAnchor(s, lane, mac, pos) ==
  LET p == CreateAnchor(s.p, mac)
      ok == p.rep[Len(p.rep)][1] = 1
      q == [p EXCEPT !.rep = s.p.rep]
  IN IF ~ok THEN Answered(s, lane, 409)
     ELSE Answered(Tell([s EXCEPT !.p = q, !.pos = (p.anch[mac] :> pos) @@ @],
                        [k |-> "added", cat |-> "Anchor", mac |-> mac, pos |-> pos]), lane, 200)

RemoveAnchor(s, lane, mac) ==
  IF mac \notin DOMAIN s.p.anch THEN Answered(s, lane, 404)
  ELSE LET p == [DestroyAnchor(s.p, mac) EXCEPT !.rep = s.p.rep] IN
       Answered(Tell([s EXCEPT !.p = p, !.pos = Without(@, s.p.anch[mac])], [k |-> "removed", cat |-> "Anchor", mac |-> mac]), lane, 200)

GetState(s, lane) ==
  [s EXCEPT !.rsp = Append(@, [lane |-> lane, status |-> 200, list |-> { Full(s, t) : t \in Things(s) }, isList |-> TRUE])]

(* A request: operation, form of the path, address text and body. *)
WithAddress == {"set-position", "init-uci-device", "create-anchor", "destroy-anchor"}
Static == {"/", "/openapi", "/openapi.yaml", "/src/components/Map.js", "/src/components/DeviceInfo.js", "/src/components/Orientation.js"}
(* Leading slashes and queries do not matter; missing or further parts do. *)
Routed(r) == r.form \in {"plain", "slashes", "query"}

Request(s, r, near(_, _)) ==
  CASE r.op \in Static -> Answered(s, r.c, IF r.form \in {"plain", "query"} THEN 200 ELSE 404)
    [] r.op = "get-state" /\ Routed(r) -> GetState(s, r.c)
    [] r.op \in WithAddress /\ Routed(r) ->
         LET mac == Address(r.addr) IN
         CASE mac = <<>> -> Answered(s, r.c, 406)
           [] mac # <<>> /\ r.op = "destroy-anchor" -> RemoveAnchor(s, r.c, mac)
           [] mac # <<>> /\ r.op # "destroy-anchor" /\ ~WellFormed(r.body) -> Answered(s, r.c, 406)
           [] mac # <<>> /\ r.op = "create-anchor" /\ WellFormed(r.body) -> MakeAnchor(s, r.c, mac, PositionOf(r.body))
           [] OTHER -> SetPosition(s, r.c, mac, PositionOf(r.body), near)
    [] OTHER -> Answered(s, r.c, 404)
=============================================================================
