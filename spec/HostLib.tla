------------------------------ MODULE HostLib ------------------------------
(* The Python host library: the reader, which turns the byte stream from the    *)
(* controller into messages, and the expectations, which take them.             *)
EXTENDS HostMsg

(* buf: bytes received and not yet part of a message or segment; acc: the       *)
(* bodies of the segments so far; c, d: control messages and data packets not   *)
(* yet taken; wait: expectations not yet met [id, q, want, till]; res: results  *)
(* of this step; up: the reader runs; now: time.                                *)
HostInit == [buf |-> <<>>, acc |-> <<>>, c |-> <<>>, d |-> <<>>, wait |-> <<>>, res |-> <<>>, up |-> TRUE, now |-> 0]

PayloadLength(h) == IF h[1] \div 32 = 0 THEN h[3] + 256 * h[4] ELSE h[4]
NotLast(h) == (h[1] \div 16) % 2 = 1

(* Everything that can be read from the buffer is read. *)
RECURSIVE Read(_)
Read(s) ==
  IF Len(s.buf) < 4 \/ Len(s.buf) < 4 + PayloadLength(s.buf) THEN s
  ELSE LET h == SubSeq(s.buf, 1, 4)
           n == PayloadLength(h)
           body == s.acc \o Sub(s.buf, 5, n)
           t == [s EXCEPT !.buf = Drop(@, 4 + n)]
       IN IF NotLast(h) THEN Read([t EXCEPT !.acc = body])
          ELSE IF h[1] \div 32 = 0 THEN Read([t EXCEPT !.acc = <<>>, !.d = Append(@, [h |-> h, b |-> body])])
          ELSE Read([t EXCEPT !.acc = <<>>, !.c = Append(@, [h |-> h, b |-> body])])

(* An expectation judges a message. *)
Meets(want, m) ==
  IF want.m = "type" THEN want.cls \in Classes(m)
  ELSE /\ ClassOfMsg(want.p).cls = ClassOfMsg(m).cls
       /\ Fields(ClassOfMsg(m), m) = Fields(ClassOfMsg(want.p), want.p)
       /\ m.h[1] = want.p.h[1]
Outcome(w, m) ==
  LET c == ClassOfMsg(m) IN
  IF c.cls # "" /\ Meets(w.want, m)
  THEN [id |-> w.id, r |-> "ok", cls |-> c.cls, f |-> Fields(c, m), pl |-> IF c.f = <<Body>> THEN m.b ELSE <<>>, m |-> <<m>>]
  ELSE [id |-> w.id, r |-> "value", cls |-> "", f |-> <<>>, pl |-> <<>>, m |-> <<m>>]

(* Messages go to the expectations of their kind in the order in which these    *)
(* were made.                                                                   *)
RECURSIVE Give(_)
Give(s) ==
  LET can == { i \in DOMAIN s.wait : IF s.wait[i].q = "c" THEN s.c # <<>> ELSE s.d # <<>> } IN
  IF can = {} THEN s
  ELSE LET i == SetMin(can)
           w == s.wait[i]
           m == IF w.q = "c" THEN s.c[1] ELSE s.d[1]
           t == [s EXCEPT !.wait = DropAt(@, i), !.res = Append(@, Outcome(w, m))]
       IN Give(IF w.q = "c" THEN [t EXCEPT !.c = Tail(@)] ELSE [t EXCEPT !.d = Tail(@)])

Feed(s, b) == IF s.up THEN Give(Read([s EXCEPT !.buf = @ \o b])) ELSE s
(* The connection ends: what is incomplete is lost, what is complete is not.    *)
Ended(s) == [s EXCEPT !.up = FALSE, !.buf = <<>>, !.acc = <<>>]
Expect(s, id, q, want, ms) == Give([s EXCEPT !.wait = Append(@, [id |-> id, q |-> q, want |-> want, till |-> s.now + ms])])
(* Time passes; what was waited for did not come. *)
Timeout(w) == [id |-> w.id, r |-> "timeout", cls |-> "", f |-> <<>>, pl |-> <<>>, m |-> <<>>]
RECURSIVE Expire(_, _)
Expire(s, t) ==
  LET due == { i \in DOMAIN s.wait : s.wait[i].till <= t } IN
  IF due = {} THEN s
  ELSE LET i == CHOOSE i \in due : \A j \in due : s.wait[i].till < s.wait[j].till \/ (s.wait[i].till = s.wait[j].till /\ i <= j) IN
       Expire([s EXCEPT !.wait = DropAt(@, i), !.res = Append(@, Timeout(s.wait[i]))], t)
Pass(s, ms) == [Expire(s, s.now + ms) EXCEPT !.now = @ + ms]

----------------------------------------------------------------------------
(* Sending: the bytes of a message, with its length in the header. *)
Header(m) == LET n == Len(m.b) IN
  IF IsData(m) THEN <<m.h[1], 0, n % 256, n \div 256>> ELSE <<m.h[1], m.h[2], 0, n>>
CanSend(m) == Len(m.b) <= (IF IsData(m) THEN 65535 ELSE 255)
=============================================================================
