------------------------------- MODULE SceneMC -------------------------------
(* Exhaustive exploration of a small scene: hosts coming and going, and every   *)
(* request of a repertoire in every reachable state.  The properties say what   *)
(* clients of the HTTP interface can rely on (C19, C20).                        *)
EXTENDS Scene, Json, TLCExt

CONSTANTS Emitting, MaxHandle, MaxThings

VARIABLES st, lab
vars == <<st, lab>>

None == [kind |-> "none"]
Pos(x, y, z, yaw, pitch, roll) == [kind |-> "pos", x |-> x, y |-> y, z |-> z, yaw |-> yaw, pitch |-> pitch, roll |-> roll]
Bad == [kind |-> "bad"]
Bodies == { None, Pos(10, 0 - 20, 30, 45, 0, 0 - 90) } \union (IF Emitting THEN {Bad} ELSE { Bad, Pos(0, 0, 0, 0, 128, 0), Pos(32767, 0 - 32768, 1, 400, 0 - 128, 7) })

A(t) == t
Addr0 == <<48, 48, 48, 48>>
Addr1 == <<48, 48, 48, 49>>
AddrB == <<49, 50, 58, 97, 66>>
Addr8 == <<48, 49, 37, 51, 65, 48, 50, 48, 51, 48, 52, 48, 53, 48, 54, 48, 55, 48, 56>>
NoAddr == <<122, 122>>
Addresses == IF Emitting THEN { Addr0, Addr1, AddrB, NoAddr } ELSE { Addr0, Addr1, AddrB, Addr8, NoAddr }

Req(op, addr, body, form) == [k |-> "http", c |-> 0, op |-> op, addr |-> addr, body |-> body, form |-> form]
Repertoire ==
  { Req("get-state", <<>>, None, "plain") }
  \union { Req(op, a, b, "plain") : op \in {"set-position", "create-anchor"}, a \in Addresses, b \in Bodies }
  \union { Req("destroy-anchor", a, None, "plain") : a \in Addresses }
  \union { Req("init-uci-device", Addr0, b, "plain") : b \in Bodies }
  \union { Req("set-position", Addr0, None, f) : f \in {"tail", "less", "slashes", "query"} }
  \union { Req("/openapi", <<>>, None, "plain") }

Blank(s) == [s EXCEPT !.ev = <<>>, !.rsp = <<>>, !.p.out = <<>>, !.p.why = ""]
View == [Blank(st) EXCEPT !.p.conns = <<>>]

NotKnown(m1, m2) == [ok |-> FALSE, rng |-> 0, azi |-> 0, ele |-> 0]

Init == st = SceneInit(0 - 1) /\ lab = [k |-> "init"]
        /\ (Emitting => PrintT("@SETUP " \o ToJson([s |-> TLCFP(View)])))
Ask == \E r \in Repertoire :
         /\ (r.op = "create-anchor") => st.p.ctr < MaxHandle
         /\ st' = Request(Blank(st), r, NotKnown)
         /\ lab' = r
Plug == /\ st.p.ctr < MaxHandle
        /\ st' = Lift(Blank(st), Connect(st.p))
        /\ lab' = [k |-> "conn", h |-> CHOOSE h \in DOMAIN st'.p.devs : h \notin DOMAIN st.p.devs]
Unplug == \E h \in DOMAIN st.p.devs :
         /\ st' = Lift(Blank(st), Disconnect(st.p, h))
         /\ lab' = [k |-> "leave", h |-> h]
Next == Ask \/ Plug \/ Unplug
Spec == Init /\ [][Next]_vars
Small == Cardinality(Things(st)) <= MaxThings
Edges == Emitting => PrintT("@EDGE " \o ToJson([s |-> TLCFP(View), a |-> lab', d |-> TLCFP(View')]))

----------------------------------------------------------------------------
Shown(s) == { Full(s, t) : t \in Things(s) }

(* C16, C19: one thing at an address. *)
OneEach == \A a, b \in Things(st) : a.mac = b.mac => a = b
(* Everything has a position, and nothing else has. *)
Placed == DOMAIN st.pos = { t.h : t \in Things(st) }

(* C20: the events are the changes. *)
Is(x, e) == x.cat = e.cat /\ x.mac = e.mac
RECURSIVE Apply(_, _)
Apply(shown, evs) ==
  IF evs = <<>> THEN shown
  ELSE LET e == evs[1] IN
       Apply(CASE e.k = "added" -> shown \union { [cat |-> e.cat, mac |-> e.mac, pos |-> e.pos] }
               [] e.k = "removed" -> { x \in shown : ~Is(x, e) }
               [] e.k = "updated" -> { x \in shown : ~Is(x, e) } \union { [cat |-> e.cat, mac |-> e.mac, pos |-> e.pos] }
               [] OTHER -> shown, Tail(evs))
Replay == [][Apply(Shown(st), st'.ev) = Shown(st')]_vars
OneEvent ==
  [][LET n == [i \in DOMAIN st'.ev |-> st'.ev[i].k] IN
     /\ Len(SeqFilter(n, LAMBDA k : k # "near")) <= 1
     /\ (Shown(st) # Shown(st')) => n # <<>>
     /\ \A i \in DOMAIN n :
          /\ n[i] = "added" => ~\E x \in Shown(st) : x.mac = st'.ev[i].mac
          /\ n[i] \in {"removed", "updated"} => \E x \in Shown(st) : Is(x, st'.ev[i])
          /\ n[i] = "near" => /\ i > 1 /\ n[i - 1] = "updated" /\ Is(st'.ev[i - 1], st'.ev[i])
                              /\ st'.ev[i].others = { x \in Shown(st') : ~Is(x, st'.ev[i]) }
     /\ (n # <<>> /\ n[Len(n)] = "updated") => Cardinality(Shown(st')) = 1]_vars

(* C19: the responses. *)
IsReq == lab'.k = "http"
TheRsp == st'.rsp[1]
Known(s) == { x.mac : x \in Shown(s) }
AnchorsOf(s) == { x.mac : x \in { y \in Shown(s) : y.cat = "Anchor" } }
Responses ==
  [][IsReq =>
      /\ Len(st'.rsp) = 1
      /\ TheRsp.status # 200 => Blank(st') = Blank(st) /\ st'.ev = <<>>
      /\ TheRsp.isList = (lab'.op = "get-state")
      /\ TheRsp.isList => TheRsp.list = Shown(st) /\ Blank(st') = Blank(st) /\ st'.ev = <<>>
      /\ lab'.form \in {"tail", "less"} => TheRsp.status = 404
      /\ (Routed(lab') /\ lab'.op \in WithAddress) =>
           LET m == Address(lab'.addr)
               good == m # <<>> /\ (lab'.op # "destroy-anchor" => WellFormed(lab'.body))
           IN TheRsp.status = (CASE ~good -> 406
                [] good /\ lab'.op = "create-anchor" -> IF m \in Known(st) THEN 409 ELSE 200
                [] good /\ lab'.op = "destroy-anchor" -> IF m \in AnchorsOf(st) THEN 200 ELSE 404
                [] OTHER -> IF m \in Known(st) THEN 200 ELSE 404)]_vars
(* A successful request changes only the thing it names. *)
OnlyNamed ==
  [][/\ IsReq => \A x \in Shown(st) \ Shown(st') : x.mac = Address(lab'.addr)
     /\ IsReq => \A x \in Shown(st') \ Shown(st) : x.mac = Address(lab'.addr) /\ x.pos = PositionOf(lab'.body)
     /\ lab'.k = "conn" => \A x \in Shown(st') \ Shown(st) : x.cat = "Uci" /\ x.pos = Origin
     /\ lab'.k = "conn" => Shown(st) \subseteq Shown(st') /\ Cardinality(Shown(st')) = Cardinality(Shown(st)) + 1
     /\ lab'.k = "leave" => Shown(st') \subseteq Shown(st) /\ Cardinality(Shown(st')) = Cardinality(Shown(st)) - 1]_vars
=============================================================================
