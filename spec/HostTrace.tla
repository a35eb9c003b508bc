----------------------------- MODULE HostTrace -----------------------------
(* Trace validation for the Python host library: one TLC step per recorded     *)
(* step (a few operations).                                                     *)
EXTENDS HostLib, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, sts, verdict
T == Traces[tr]

MsgOf(p) == [h |-> SubSeq(p, 1, 4), b |-> Drop(p, 4)]
Want(a) == [m |-> a.m, cls |-> a.cls, p |-> IF a.m = "value" THEN MsgOf(a.p) ELSE [h |-> <<0, 0, 0, 0>>, b |-> <<>>]]

(* x: [s: the library, w: the bytes it sends, peer: the other end receives,     *)
(* half: it has stopped sending, sent: outcomes of sending].                    *)
Sending(x, a) ==
  LET m == MsgOf(a.p)
      can == CanSend(m)
      y == [x EXCEPT !.sent = Append(@, <<a.id, IF can THEN "sent" ELSE "error">>)]
  IN IF ~can \/ ~x.peer THEN {y}
     ELSE {[y EXCEPT !.w = @ \o Header(m) \o m.b]} \union (IF x.half THEN {y} ELSE {})
With(x, s) == [x EXCEPT !.s = s]
Op(x, a) ==
  CASE a.k = "feed" -> { With(x, Feed(x.s, Flat(a.cs))) }
    [] a.k = "more" -> { [x EXCEPT !.more = @ \o a.b] }
    [] a.k = "eof" -> { [x EXCEPT !.s = Ended(@), !.half = TRUE] }
    [] a.k = "rst" -> { [x EXCEPT !.s = Ended(@), !.peer = FALSE] }
    [] a.k = "disc" -> { [x EXCEPT !.s = Ended(@), !.peer = FALSE, !.bye = TRUE] }
    [] a.k = "pass" -> { With(x, Pass(x.s, a.ms)) }
    [] a.k = "expect" -> { With(x, Expect(x.s, a.id, a.q, Want(a), a.ms)) }
    [] OTHER -> Sending(x, a)
(* What has been sent but not looked at meets what happens at the same moment. *)
Race(x, a) ==
  IF x.more = <<>> \/ a.k = "more" THEN {x}
  ELSE LET y == [x EXCEPT !.more = <<>>]
           fed == With(y, Feed(y.s, x.more))
       IN {fed} \union (CASE a.k = "pass" -> { With(y, Feed(Expire(y.s, y.s.now + 10), x.more)) }
                          [] a.k = "disc" -> { y }
                          [] OTHER -> {})
RECURSIVE Ops(_, _, _)
Ops(X, as, i) == IF i > Len(as) THEN X
                 ELSE Ops(UNION { Op(y, as[i]) : y \in UNION { Race(x, as[i]) : x \in X } }, as, i + 1)

Blank(x) == [x EXCEPT !.s.res = <<>>, !.w = <<>>, !.sent = <<>>]
Obs(r) == <<r.id, r.r, r.cls, r.f, r.pl>>
Expected(x) == { Obs(x.s.res[i]) : i \in DOMAIN x.s.res } \union { <<x.sent[i][1], x.sent[i][2], "", <<>>, <<>> >> : i \in DOMAIN x.sent }
Observed(step) == { step.res[i] : i \in DOMAIN step.res }
Wrong(x, step) ==
  (IF step.dead THEN {"dead"} ELSE {})
  \union (IF Expected(x) # Observed(step) \/ Cardinality(Observed(step)) # Len(step.res) THEN {"results"} ELSE {})
  \union (IF x.peer /\ x.w # step.w THEN {"sent"} ELSE {})
  \union (IF step.up # 2 /\ ((step.up = 1) # x.s.up) THEN {"reader"} ELSE {})
  \union (IF x.bye /\ ~step.gone THEN {"disconnect"} ELSE {})
  \union (IF x.peer /\ ~x.half /\ step.gone THEN {"gone"} ELSE {})

HostTraceInit == /\ tr \in DOMAIN Traces /\ l = 1 /\ verdict = "running"
                 /\ sts = { [s |-> HostInit, w |-> <<>>, sent |-> <<>>, more |-> <<>>, peer |-> TRUE, half |-> FALSE, bye |-> FALSE] }
HostTraceNext ==
  /\ verdict = "running" /\ UNCHANGED tr
  /\ \E step \in {T.steps[l]} : \E ends \in {Ops(sts, step.a, 1)} :
     LET last == l = Len(T.steps)
     (* (The sets are bound by quantifiers so that TLC evaluates them once.) *)
     IN \E good \in {{ x \in ends : Wrong(x, step) = {} }} :
        IF good # {}
        THEN /\ sts' = { Blank(x) : x \in good } /\ l' = l + 1
             /\ verdict' = IF last THEN "ok" ELSE "running"
             /\ last => PrintT("@OK " \o ToJson([id |-> T.id, steps |-> l]))
        ELSE /\ sts' = {} /\ l' = l /\ verdict' = "bad"
             /\ LET x == CHOOSE x \in ends : TRUE IN
                PrintT("@BAD " \o ToJson([id |-> T.id, step |-> l, wrong |-> Wrong(x, step), exp |-> Expected(x), obs |-> step.res, w |-> x.w]))
HostTraceSpec == HostTraceInit /\ [][HostTraceNext]_<<tr, l, sts, verdict>>
=============================================================================
