------------------------------- MODULE HostMC -------------------------------
(* Exhaustive exploration of the host library: every cut of a short byte        *)
(* stream, every end of it, expectations of all kinds at any moment.  What was   *)
(* sent is remembered apart; the properties compare what is delivered with it    *)
(* (C23).                                                                        *)
EXTENDS HostLib, Json, TLCExt

CONSTANTS Emitting, MaxSent, MaxExpect

VARIABLES s, sent, wire, got, lab, n
vars == <<s, sent, wire, got, lab, n>>

Msg(h, b) == [h |-> h, b |-> b]
ResetOk == Msg(<<64, 0, 0, 1>>, <<0>>)
ResetFail == Msg(<<64, 0, 0, 1>>, <<2>>)
Ready == Msg(<<96, 1, 0, 1>>, <<1>>)
Odd == Msg(<<78, 5, 0, 2>>, <<7, 8>>)
NoGroup == Msg(<<71, 0, 0, 0>>, <<>>)
Rcv(x) == Msg(<<2, 0, 18, 0>>, <<1, 0, 0, 0>> \o <<0>> \o <<2, 0, 0, 0, 0, 0, 0, 0>> \o <<5, 0>> \o <<1, 0, x>>)
ShortData == Msg(<<2, 0, 2, 0>>, <<3, 4>>)

(* Segments of a message: at most two. *)
Whole(m) == Header(m) \o m.b
Split(m, i) == LET a == Msg([m.h EXCEPT ![1] = @ + 16], SubSeq(m.b, 1, i))
                   b == Msg(m.h, Drop(m.b, i))
               IN Whole(a) \o Whole(b)
Forms(m) == {Whole(m)} \union (IF IsData(m) THEN {} ELSE { Split(m, i) : i \in 0..Len(m.b) })
(* Only the length of the last segment is in the header of the message. *)
Norm2(m) == [m EXCEPT !.h = SubSeq(@, 1, 2)]
Messages == IF Emitting THEN {ResetOk, Ready, Rcv(1)} ELSE {ResetOk, Odd, NoGroup, Rcv(1), ShortData}

ByType(c) == [m |-> "type", cls |-> c, p |-> ResetOk]
ByValue(m) == [m |-> "value", cls |-> "", p |-> m]
Wants(q) == IF q = "c" THEN { ByType("CoreDeviceResetRsp"), ByType("ControlPacket"), ByValue(ResetOk), ByValue(ResetFail) }
            ELSE { ByType("DataMessageRcv"), ByValue(Rcv(1)), ByValue(Rcv(2)) }

Take1(t) == /\ s' = [t EXCEPT !.res = <<>>]
            /\ got' = got \o t.res
(* The controller sends. *)
Send == /\ Len(sent) < MaxSent /\ s.up
        /\ \E m \in Messages : \E f \in Forms(m) :
             /\ sent' = Append(sent, m) /\ wire' = wire \o f /\ lab' = [k |-> "msg", b |-> f]
        /\ UNCHANGED <<s, got, n>>
(* Some of it arrives; close to the end of the stream in any piece, else only in large ones. *)
Arrive == /\ s.up /\ wire # <<>>
          /\ \E i \in 1..Len(wire) :
               /\ i <= 6 \/ i >= Len(wire) - 1
               /\ wire' = Drop(wire, i)
               /\ Take1(Feed(s, SubSeq(wire, 1, i)))
               /\ lab' = [k |-> "feed", b |-> SubSeq(wire, 1, i)]
          /\ UNCHANGED <<sent, n>>
Finish == /\ s.up
          /\ Take1(Ended(s)) /\ lab' = [k |-> "eof"]
          /\ UNCHANGED <<sent, wire, n>>
Wish == /\ n < MaxExpect
        /\ \E q \in {"c", "d"} : \E w \in Wants(q) : \E ms \in {100, 200} :
             /\ Take1(Expect(s, n, q, w, ms))
             /\ lab' = [k |-> "expect", id |-> n, q |-> q, want |-> w, ms |-> ms]
        /\ n' = n + 1
        /\ UNCHANGED <<sent, wire>>
Wait == /\ s.wait # <<>>
        /\ Take1(Pass(s, 100)) /\ lab' = [k |-> "pass", ms |-> 100]
        /\ UNCHANGED <<sent, wire, n>>
(* Time matters only relative to the deadlines. *)
View == <<[s EXCEPT !.now = 0, !.wait = [i \in DOMAIN @ |-> [@[i] EXCEPT !.till = @ - s.now]]], sent, wire, got, n>>
ViewE == <<[s EXCEPT !.now = 0, !.wait = [i \in DOMAIN @ |-> [@[i] EXCEPT !.till = @ - s.now, !.id = 0]]], Len(sent), wire, n>>
Init == s = HostInit /\ sent = <<>> /\ wire = <<>> /\ got = <<>> /\ lab = [k |-> "init"] /\ n = 0
        /\ (Emitting => PrintT("@SETUP " \o ToJson([s |-> TLCFP(ViewE)])))
Next == Send \/ Arrive \/ Finish \/ Wish \/ Wait
Spec == Init /\ [][Next]_vars
Edges == Emitting => PrintT("@EDGE " \o ToJson([s |-> TLCFP(ViewE), a |-> lab', d |-> TLCFP(ViewE')]))

----------------------------------------------------------------------------
OfKind(ms, q) == SeqFilter(ms, LAMBDA m : IsData(m) = (q = "d"))
Taken(q) == OfKind(Flat([i \in DOMAIN got |-> got[i].m]), q)
Same(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Norm2(a[i]) = Norm2(b[i])
(* Nothing is lost, repeated, reordered or invented. *)
Intact == \A q \in {"c", "d"} :
            LET have == Taken(q) \o (IF q = "c" THEN s.c ELSE s.d)
                all == OfKind(sent, q)
            IN /\ Len(have) <= Len(all)
               /\ Same(have, SubSeq(all, 1, Len(have)))
(* Everything that has arrived is there. *)
Prompt == (s.up /\ wire = <<>>) => \A q \in {"c", "d"} : Len(Taken(q)) + Len(IF q = "c" THEN s.c ELSE s.d) = Len(OfKind(sent, q))
(* Nobody waits for what is there; everybody gets one result at most. *)
Waiting == /\ \A i \in DOMAIN s.wait : (IF s.wait[i].q = "c" THEN s.c ELSE s.d) = <<>> /\ s.wait[i].till > s.now
           /\ Cardinality({ got[i].id : i \in DOMAIN got } \union { s.wait[i].id : i \in DOMAIN s.wait }) = Len(got) + Len(s.wait)
           /\ Len(got) + Len(s.wait) = n
(* A result is good only for the message that was expected. *)
Verdicts == \A i \in DOMAIN got :
              /\ (got[i].r = "timeout") = (got[i].m = <<>>)
              /\ got[i].r = "ok" => got[i].cls = ClassOfMsg(got[i].m[1]).cls
Judged ==
  [][\A i \in DOMAIN got' : i \notin DOMAIN got =>
       LET r == got'[i]
           w == IF lab'.k = "expect" /\ lab'.id = r.id THEN lab'.want
                ELSE s.wait[CHOOSE j \in DOMAIN s.wait : s.wait[j].id = r.id].want
           m == r.m[1]
       IN r.r # "timeout" =>
            (r.r = "ok") = (CASE w = ByType("CoreDeviceResetRsp") -> Norm2(m).h = <<64, 0>> /\ Len(m.b) = 1
                              [] w = ByType("ControlPacket") -> Norm2(m) # Norm2(NoGroup)
                              [] w = ByType("DataMessageRcv") -> Len(m.b) = 18
                              [] OTHER -> Norm2(m) = Norm2(w.p))]_vars
(* Nothing comes after the end. *)
TheEnd == [][(~s.up) => (~s'.up /\ Taken("c")' \o s'.c = Taken("c") \o s.c /\ Taken("d")' \o s'.d = Taken("d") \o s.d)]_vars
=============================================================================
