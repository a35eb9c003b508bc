------------------------------ MODULE PicaTrace ------------------------------
(* Trace validation: recorded executions of the real code (harness/picadrv)    *)
(* replayed through the transitions of Pica.tla.  One TLC step per recorded    *)
(* step.  A recorded step is a set of inputs given at one instant followed by  *)
(* the passage of `ms` milliseconds; it is explained if some order of handling *)
(* the inputs makes the specification send what the code sent.  All traces of  *)
(* the file are validated in one run; a step that cannot be explained is       *)
(* printed with the difference and ends its trace.                             *)
EXTENDS Pica, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

(* tr: the trace, l: its next step, sts: the states that explain it so far,    *)
(* caps: what is known of the capture file of each device.                     *)
VARIABLES tr, l, sts, caps, verdict
vars == <<tr, l, sts, caps, verdict>>

LastOf(s) == s[Len(s)]

----------------------------------------------------------------------------
(* Inputs of a step.  What reaches the emulator through one connection keeps   *)
(* its order, and so does what is put directly in its queue.                   *)

RECURSIVE Churn(_, _)
Churn(st, n) ==
  IF n = 0 THEN [st EXCEPT !.out = <<>>, !.ev = <<>>, !.conns = SubSeq(@, 1, Len(@))]
  ELSE LET s1 == Connect(st) IN
       Churn([Disconnect(s1, LastOf(s1.conns)) EXCEPT !.conns = st.conns, !.out = <<>>, !.ev = <<>>], n - 1)

Handle(st, c) == st.conns[c + 1]

(* All possible effects of one input. *)
Input(st, a) ==
  CASE a.k = "conn" -> {Connect(st)}
    [] a.k \in {"tx", "raw"} /\ Traces[tr].tcp -> Octets(st, Handle(st, a.c), a.p)
    [] a.k = "tx" -> Packet(st, Handle(st, a.c), a.p)
    [] a.k = "eof" -> {Disconnect(st, Handle(st, a.c))}
    [] a.k = "qpkt" -> {Message(st, a.c, Parse(a.p))}
    [] a.k = "qrng" -> {Rounds(st, a.c, a.s, Max2(1, a.n))}
    [] a.k = "qstp" -> {InBandStop(st, a.p, a.s)}
    [] a.k = "qdis" -> {Disconnect(st, a.c)}
    [] a.k = "anc" -> {CreateAnchor(st, a.p)}
    [] a.k = "ancx" -> {[CreateAnchor(st, a.p) EXCEPT !.rep = st.rep]}
    [] a.k = "and" -> {DestroyAnchor(st, a.p)}
    [] a.k = "hold" -> {[st EXCEPT !.slow = @ \union {a.c}]}
    [] a.k = "flow" -> {[st EXCEPT !.slow = @ \ {a.c}]}
    [] a.k = "churn" -> {Advance(Churn(st, a.n), st.now + 10)}
    [] OTHER -> {st}

(* Breaking a connection is a fact of its own, before anything else happens. *)
RECURSIVE CutAll(_, _, _)
CutAll(st, acts, i) ==
  IF i > Len(acts) THEN st
  ELSE CutAll(IF acts[i].k = "brk" THEN Cut(st, Handle(st, acts[i].c)) ELSE st, acts, i + 1)

LaneOf(a) == IF a.k \in {"tx", "raw", "eof"} THEN a.c ELSE 0 - 1
Lanes(acts) ==
  LET use == SeqFilter(acts, LAMBDA a : a.k # "brk")
      ids == { LaneOf(use[i]) : i \in DOMAIN use }
  IN [x \in ids |-> SeqFilter(use, LAMBDA a : LaneOf(a) = x)]

(* The states after all inputs are handled, whatever the order across lanes;   *)
(* in-band stops under way are one more lane.                                  *)
RECURSIVE Outcomes(_, _)
Outcomes(st, lanes) ==
  LET ready == { x \in DOMAIN lanes : lanes[x] # <<>> /\ (x < 0 \/ x < Len(st.conns)) }
      stop == IF st.pend = <<>> THEN {}
              ELSE { InBandStop([st EXCEPT !.pend = Tail(@)], st.pend[1].mac, st.pend[1].sid) }
  IN IF ready = {} /\ stop = {} THEN {st}
     ELSE UNION { Outcomes(s, lanes) : s \in stop }
          \union UNION { UNION { Outcomes(s, [lanes EXCEPT ![x] = Tail(@)]) : s \in Input(st, lanes[x][1]) } : x \in ready }

Ends(st, step) ==
  { Advance(Reap(s), s.now + step.ms) : s \in Outcomes(CutAll(st, step.a, 1), Lanes(step.a)) }

----------------------------------------------------------------------------
(* Observed packets of one connection put together: [h1, h2, pl, bad] in order *)
(* of completion, `bad` listing broken framing rules.                          *)
MaxSegment(p) == IF Mt(p) = mtData THEN 1024 ELSE 255
LengthOf(p) == IF Mt(p) = mtData THEN p[3] + 256 * p[4] ELSE p[4]
FramingFaults(p, acc) ==
  (IF Len(p) < 4 THEN {"short"} ELSE
     (IF LengthOf(p) # Len(p) - 4 THEN {"length"} ELSE {})
     \union (IF Len(p) - 4 > MaxSegment(p) THEN {"size"} ELSE {})
     \union (IF acc # <<>> /\ (acc[1] # p[1] - 16 * Pbf(p) \/ acc[2] # p[2]) THEN {"interleaved"} ELSE {})
     \union (IF Mt(p) # mtData /\ p[3] # 0 THEN {"header"} ELSE {}))

RECURSIVE JoinFrom(_, _, _, _, _)
JoinFrom(ps, i, acc, bad, res) ==
  IF i > Len(ps)
  THEN IF acc = <<>> THEN res
       ELSE Append(res, [h1 |-> acc[1], h2 |-> acc[2], pl |-> acc[3], bad |-> bad \union {"unfinished"}])
  ELSE LET p == ps[i]
           b == bad \union FramingFaults(p, acc)
           all == (IF acc = <<>> THEN <<>> ELSE acc[3]) \o Drop(p, 4)
           h1 == p[1] - 16 * Pbf(p)
       IN IF "short" \in b THEN JoinFrom(ps, i + 1, <<>>, {}, Append(res, [h1 |-> 0, h2 |-> 0, pl |-> p, bad |-> b]))
          ELSE IF Pbf(p) = 1 THEN JoinFrom(ps, i + 1, <<h1, p[2], all>>, b, res)
          ELSE JoinFrom(ps, i + 1, <<>>, {}, Append(res, [h1 |-> h1, h2 |-> p[2], pl |-> all, bad |-> b]))
Join(ps) == JoinFrom(ps, 1, <<>>, {}, <<>>)

(* The class of an observed message. *)
ClassOf(m) ==
  CASE m.h1 \div 32 = mtRsp -> "rsp"
    [] m.h1 = 96 /\ m.h2 = 1 /\ m.pl = <<dsError>> -> "err"
    [] m.h1 = 96 /\ m.h2 = 1 -> "dst"
    [] m.h1 = 97 /\ m.h2 = 2 -> "sst"
    [] m.h1 = 97 /\ m.h2 = 7 -> "mcn"
    [] m.h1 = 98 /\ m.h2 = 0 -> "sin"
    [] m.h1 = 98 /\ m.h2 = 4 -> "dcr"
    [] m.h1 = 98 /\ m.h2 = 5 -> "dts"
    [] m.h1 = 2 /\ m.h2 = 0 -> "drv"
    [] OTHER -> "other"

Direct == {"rsp", "err", "dcr", "dts"}

(* Messages that keep their order among themselves. *)
GroupOf(cls, m) ==
  CASE cls \in Direct -> <<"direct">>
    [] cls = "sst" -> <<"sst", Sub(m.pl, 1, Min2(4, Len(m.pl)))>>
    [] cls = "sin" -> <<"sin", Sub(m.pl, 5, Min2(4, Max2(0, Len(m.pl) - 4)))>>
    [] cls = "drv" -> <<"drv", Sub(m.pl, 1, Min2(13, Len(m.pl)))>>
    [] OTHER -> <<cls>>

(* Does the observed message o say what the expected message e says? *)
SinHeader == 25
SameMsg(e, o) ==
  IF e.cls # "sin" THEN e.m.h1 = o.h1 /\ e.m.h2 = o.h2 /\ e.m.pl = o.pl
  ELSE /\ e.m.h1 = o.h1 /\ e.m.h2 = o.h2
       /\ Len(o.pl) = SinHeader + BlockSize * Len(e.m.blocks)
       /\ SubSeq(o.pl, 1, SinHeader) = e.m.pl
       /\ BagOf([i \in 1..Len(e.m.blocks) |-> Sub(o.pl, SinHeader + 1 + (i - 1) * BlockSize, BlockSize)])
            = BagOf(e.m.blocks)
(* What about them differs. *)
DiffKind(e, o) ==
  CASE e.m.h1 # o.h1 \/ e.m.h2 # o.h2 -> "header"
    [] e.cls = "sin" ->
         (IF Len(o.pl) >= SinHeader /\ SubSeq(o.pl, 1, 8) # SubSeq(e.m.pl, 1, 8) THEN "seq" ELSE "blocks")
    [] OTHER -> "payload"

Clip(b) == IF Len(b) > 64 THEN SubSeq(b, 1, 64) ELSE b
Report(h, cls, kind, why, e, o) ==
  [h |-> h, cls |-> cls, kind |-> kind, why |-> why, exp |-> e, obs |-> o]

(* Differences between the expected messages E and the observed ones O of a    *)
(* device; `gone`: it was disconnected during the step, so that the last       *)
(* messages may not have made it out.                                          *)
GroupDiff(h, g, E, O, gone) ==
  LET n == Min2(Len(E), Len(O))
      bad == { i \in 1..n : ~SameMsg(E[i], O[i].m) }
      i0 == SetMin(bad)
  IN IF bad # {}
     THEN << Report(h, E[i0].cls, DiffKind(E[i0], O[i0].m), E[i0].why,
                    <<E[i0].m.h1, E[i0].m.h2, Clip(E[i0].m.pl)>>, <<O[i0].m.h1, O[i0].m.h2, Clip(O[i0].m.pl)>>) >>
     ELSE IF Len(O) > n
     THEN << Report(h, O[n + 1].cls, "extra", "", <<>>, <<O[n + 1].m.h1, O[n + 1].m.h2, Clip(O[n + 1].m.pl)>>) >>
     ELSE IF Len(E) > n /\ ~gone
     THEN << Report(h, E[n + 1].cls, "missing", E[n + 1].why, <<E[n + 1].m.h1, E[n + 1].m.h2, Clip(E[n + 1].m.pl)>>, <<>>) >>
     ELSE <<>>

CmdWhys == DOMAIN RspTo
Late == {"sst", "dst", "mcn"}

(* A notification caused by a command comes after the command's response. *)
(* E, O: all the messages of the device in their order. *)
CountDirect(s, i) == Cardinality({ j \in 1..(i - 1) : s[j].cls \in Direct })
OrderDiff(h, E, O) ==
  LET nth(s, i) == Cardinality({ j \in 1..i : s[j].g = s[i].g })
      early == { i \in DOMAIN E : E[i].cls \in Late /\ E[i].why \in CmdWhys /\
                   \E k \in DOMAIN O : O[k].g = E[i].g /\ nth(O, k) = nth(E, i)
                                       /\ CountDirect(O, k) < CountDirect(E, i) }
  IN IF early = {} THEN <<>>
     ELSE LET i == SetMin(early) IN << Report(h, E[i].cls, "early", E[i].why, <<E[i].m.h1, E[i].m.h2, Clip(E[i].m.pl)>>, <<>>) >>

DeviceDiff(h, out, packets, gone) ==
  LET E == [i \in DOMAIN out |-> [cls |-> out[i].cls, m |-> out[i].m, why |-> out[i].why, g |-> GroupOf(out[i].cls, out[i].m)]]
      J == Join(packets)
      O == [i \in DOMAIN J |-> [m |-> J[i], cls |-> ClassOf(J[i]), g |-> GroupOf(ClassOf(J[i]), J[i])]]
      faults == UNION { J[i].bad : i \in DOMAIN J } \ (IF gone THEN {"unfinished"} ELSE {})
      fd == IF faults = {} THEN <<>>
            ELSE LET i == SetMin({ j \in DOMAIN J : J[j].bad # {} })
                 IN << Report(h, O[i].cls, "framing", "", <<>>, <<J[i].h1, J[i].h2, Clip(J[i].pl)>>) >>
      gs == { E[i].g : i \in DOMAIN E } \union { O[i].g : i \in DOMAIN O }
      RECURSIVE All(_, _)
      All(S, acc) == IF S = {} THEN acc
                     ELSE LET g == CHOOSE x \in S : TRUE IN
                          All(S \ {g}, acc \o GroupDiff(h, g, SeqFilter(E, LAMBDA x : x.g = g),
                                                        SeqFilter(O, LAMBDA x : x.g = g), gone))
      d == fd \o All(gs, <<>>)
  IN IF d = <<>> THEN OrderDiff(h, E, O) ELSE d

(* The packets an octet stream consists of; what is left over at the end is     *)
(* given as a (malformed) packet of its own.                                    *)
RECURSIVE SplitFrom(_, _)
SplitFrom(b, acc) ==
  IF b = <<>> THEN acc
  ELSE LET n == HeadPacket(b) IN IF n = 0 THEN Append(acc, b) ELSE SplitFrom(Drop(b, n), Append(acc, SubSeq(b, 1, n)))
Split(b) == SplitFrom(b, <<>>)

PacketsOf(step, c) ==
  LET own == SeqFilter(step.o, LAMBDA x : x[1] = c - 1) IN
  IF Traces[tr].tcp THEN Split(Flat([i \in DOMAIN own |-> own[i][2]])) ELSE [i \in DOMAIN own |-> own[i][2]]

RECURSIVE ConnDiffs(_, _, _, _)
ConnDiffs(st, step, c, acc) ==
  IF c > Len(st.conns) THEN acc
  ELSE LET h == st.conns[c]
           out == SeqFilter(st.out, LAMBDA x : x.h = h)
           ps == PacketsOf(step, c)
       IN ConnDiffs(st, step, c + 1,
            acc \o (IF (out = <<>> \/ c - 1 \in st.slow) /\ ps = <<>> THEN <<>> ELSE DeviceDiff(h, out, ps, h \notin DOMAIN st.devs)))

----------------------------------------------------------------------------
(* Packet captures: pcapng files, checked octet by octet. *)

PcapHeader ==
  <<10, 13, 13, 10>> \o LE32(28) \o <<77, 60, 43, 26>> \o <<1, 0, 0, 0>> \o [i \in 1..8 |-> 255] \o LE32(28)
  \o LE32(1) \o LE32(20) \o <<37, 1, 0, 0>> \o LE32(0) \o LE32(20)

(* The value of a little-endian length; absurd ones are all alike. *)
Num(b) == IF b[4] > 0 \/ b[3] > 15 THEN 1048576 ELSE b[1] + 256 * b[2] + 65536 * b[3]

(* Reads enhanced packet blocks: [ok, recs]; a record is [ts, p].  The data is  *)
(* padded to a multiple of four and may be followed by the end of the options.  *)
RECURSIVE Blocks(_, _)
Blocks(b, acc) ==
  IF b = <<>> THEN [ok |-> TRUE, recs |-> acc]
  ELSE IF Len(b) < 32 THEN [ok |-> FALSE, recs |-> acc]
  ELSE LET total == Num(Sub(b, 5, 4))
           len == Num(Sub(b, 21, 4))
           pad == total - 32 - len
       IN IF /\ Sub(b, 1, 4) = LE32(6) /\ total >= 32 /\ total <= Len(b) /\ total % 4 = 0
             /\ Sub(b, 9, 4) = LE32(0) /\ Sub(b, 21, 4) = Sub(b, 25, 4)
             /\ pad >= 0 /\ pad < 8 /\ (pad < 4 \/ (pad - 4 = (4 - (len % 4)) % 4))
             /\ Sub(b, total - 3, 4) = Sub(b, 5, 4)
             /\ Sub(b, 29 + len, pad) = Zeros(pad)
          THEN Blocks(Drop(b, total),
                      Append(acc, [ts |-> <<b[16], b[15], b[14], b[13], b[20], b[19], b[18], b[17]>>, p |-> Sub(b, 29, len)]))
          ELSE [ok |-> FALSE, recs |-> acc]

(* Numbers as eight octets, most significant first. *)
RECURSIVE LeqBytes(_, _)
LeqBytes(x, y) == IF x = <<>> THEN TRUE ELSE x[1] < y[1] \/ (x[1] = y[1] /\ LeqBytes(Tail(x), Tail(y)))
Time64(us) == <<0, 0, 0, 0, (us \div 16777216) % 256, (us \div 65536) % 256, (us \div 256) % 256, us % 256>>

(* Is recs an interleaving of R (read) and W (written)?  A response does not     *)
(* come before the command it answers.                                          *)
Responses(ps, n) == Cardinality({ i \in 1..n : Mt(ps[i]) = mtRsp /\ Pbf(ps[i]) = 0 })
Commands(ps, n) == Cardinality({ i \in 1..n : Mt(ps[i]) = mtCmd /\ Pbf(ps[i]) = 0 })
RECURSIVE Weaves(_, _, _, _, _)
Weaves(recs, R, W, k, i) ==
  LET j == k - i IN
  IF k = Len(recs) THEN i = Len(R) /\ j = Len(W)
  ELSE \/ i < Len(R) /\ recs[k + 1].p = R[i + 1] /\ Weaves(recs, R, W, k + 1, i + 1)
       \/ /\ j < Len(W) /\ recs[k + 1].p = W[j + 1]
          /\ (Mt(W[j + 1]) = mtRsp) => (Responses(W, j + 1) <= Commands(R, i))
          /\ Weaves(recs, R, W, k + 1, i)

(* The packets read from connection c in a step, given the octets left over. *)
ReadOf(step, c, buf) ==
  LET own == SeqFilter(step.a, LAMBDA a : a.k \in {"tx", "raw"} /\ a.c = c - 1)
      bs == [i \in DOMAIN own |-> own[i].p]
  IN IF ~Traces[tr].tcp THEN bs
     ELSE LET sp == Split(buf \o Flat(bs)) IN
          SeqFilter(sp, LAMBDA p : HeadPacket(p) = Len(p))

NoCapture == [new |-> FALSE, ok |-> TRUE, recs |-> <<>>, last |-> Zeros(8), from |-> 0, to |-> 0]
(* What the capture file of h says after a step. *)
Capture(step, h) ==
  LET own == SeqFilter(step.f, LAMBDA x : x[1] = h)
      bytes == Flat([i \in DOMAIN own |-> own[i][2]])
      known == h \in DOMAIN caps
      n == Len(PcapHeader)
      good == known \/ Sub(bytes, 1, Min2(n, Len(bytes))) = PcapHeader
      bl == Blocks(IF known THEN bytes ELSE Drop(bytes, n), <<>>)
      old == IF known THEN caps[h] ELSE [NoCapture EXCEPT !.from = step.u[1], !.to = step.u[2]]
  IN [old EXCEPT !.new = ~known, !.ok = good /\ bl.ok, !.recs = bl.recs,
                 !.last = IF bl.recs = <<>> THEN @ ELSE LastOf(bl.recs).ts]
Captured(step) == { step.f[i][1] : i \in DOMAIN step.f }
NextCaps(step) == [h \in Captured(step) \union DOMAIN caps |->
                     IF h \in Captured(step) THEN Capture(step, h) ELSE [caps[h] EXCEPT !.recs = <<>>, !.new = FALSE]]

(* Timestamps do not decrease and are the microseconds since the connection was made. *)
GoodTimes(step, old, cap) ==
  LET ts == [i \in DOMAIN cap.recs |-> cap.recs[i].ts] IN
  /\ \A i \in DOMAIN ts : LeqBytes(IF i = 1 THEN old ELSE ts[i - 1], ts[i])
  /\ \A i \in DOMAIN ts : /\ LeqBytes(ts[i], Time64(step.u[2] - cap.from))
                           /\ LeqBytes(Time64(Max2(0, step.u[1] - cap.to - 1)), ts[i])

(* before: a state in which the step began; after: one in which it ended. *)
CaptureDiffs(before, after, step) ==
  IF Traces[tr].cap # "on" THEN (IF step.f = <<>> THEN <<>> ELSE << Report(0 - 1, "cap", "file", "", <<>>, <<>>) >>)
  ELSE
  LET now == NextCaps(step)
      stray == Captured(step) \ { after.conns[i] : i \in DOMAIN after.conns }
      missing == { i \in DOMAIN after.conns : after.conns[i] \notin DOMAIN now }
      one(c) ==
        LET h == after.conns[c]
            cap == now[h]
            old == IF h \in DOMAIN caps THEN caps[h].last ELSE Zeros(8)
            was == c <= Len(before.conns) /\ h \in DOMAIN before.devs
            R == IF was \/ c > Len(before.conns) THEN ReadOf(step, c, IF was THEN before.conn[h].buf ELSE <<>>) ELSE <<>>
            lost(a) == a.c = c - 1 /\ (a.k = "brk" \/ (a.k = "eof" /\ a.n = 1))
            cut == (was /\ before.conn[h].link # "up") \/ \E i \in DOMAIN step.a : lost(step.a[i])
        IN IF ~cap.ok THEN << Report(h, "cap", "format", "", <<>>, <<>>) >>
           ELSE IF ~GoodTimes(step, old, cap) THEN << Report(h, "cap", "time", "", <<>>, cap.recs[1].ts) >>
           ELSE IF ~cut /\ ~Weaves(cap.recs, R, PacketsOf(step, c), 0, 0)
           THEN << Report(h, "cap", "records", "", <<>>, IF cap.recs = <<>> THEN <<>> ELSE Clip(cap.recs[1].p)) >>
           ELSE <<>>
      RECURSIVE Go(_, _)
      Go(c, acc) == IF c > Len(after.conns) THEN acc ELSE Go(c + 1, acc \o one(c))
  IN IF stray # {} \/ missing # {} THEN << Report(0 - 1, "cap", "file", "", <<>>, <<>>) >> ELSE Go(1, <<>>)

----------------------------------------------------------------------------
(* Everything that differs between the specification's step and the real one. *)
Differences(st, step, dead) ==
  (IF dead THEN << Report(0 - 1, "dead", "dead", "", <<>>, <<>>) >> ELSE <<>>)
  \o (IF BagOf(st.ev) = BagOf(step.e) THEN <<>> ELSE << Report(0 - 1, "event", "event", "", st.ev, step.e) >>)
  \o (IF st.rep = step.r THEN <<>> ELSE << Report(0 - 1, "reply", "reply", "", st.rep, step.r) >>)
  \o (IF \E i \in DOMAIN step.o : step.o[i][1] >= Len(st.conns) THEN << Report(0 - 1, "other", "extra", "", <<>>, <<>>) >> ELSE <<>>)
  \o ConnDiffs(st, step, 1, <<>>)

(* What a host that does not read has not got yet stays. *)
Clean(st) == [st EXCEPT !.out = IF st.slow = {} THEN <<>> ELSE SeqFilter(@, LAMBDA x : \E c \in st.slow : st.conns[c + 1] = x.h), !.ev = <<>>, !.rep = <<>>, !.why = ""]

----------------------------------------------------------------------------
TraceInit ==
  /\ tr \in DOMAIN Traces
  /\ l = 1
  /\ sts = {InitState(Traces[tr].salt)}
  /\ caps = [h \in {} |-> NoCapture]
  /\ verdict = "running"

Whys(step) == { IF step.a[i].k \in {"tx", "qpkt"} THEN Parse(step.a[i].p).k ELSE step.a[i].k
                : i \in { j \in DOMAIN step.a : step.a[j].k \notin {"tx", "qpkt"} \/ Len(step.a[j].p) >= 4 } }

(* The devices that were given something to do. *)
Actors(st, step) == { IF step.a[i].k \in {"tx", "raw", "eof", "brk"} THEN Handle(st, step.a[i].c) ELSE step.a[i].c
                      : i \in { j \in DOMAIN step.a : \/ step.a[j].k \in {"qpkt", "qrng", "qdis"}
                                                      \/ step.a[j].k \in {"tx", "raw", "eof", "brk"} /\ step.a[j].c < Len(st.conns) } }

TraceNext ==
  /\ verdict = "running"
  /\ UNCHANGED tr
  /\ \E T \in {Traces[tr]} : \E step \in {T.steps[l]} :
     LET last == l = Len(T.steps)
         dead == T.dead /\ last
         first == CHOOSE st \in sts : TRUE
         Diff(s) == Differences(s, step, dead) \o (IF T.cap = "" THEN <<>> ELSE CaptureDiffs(first, s, step))
     (* (The sets are bound by quantifiers so that TLC evaluates them once.) *)
     IN \E judged \in {{ <<s, Diff(s)>> : s \in UNION { Ends(st, step) : st \in sts } }} :
        \E good \in {{ Clean(z[1]) : z \in { y \in judged : y[2] = <<>> } }} :
        IF good # {}
        THEN /\ sts' = good
             /\ caps' = IF T.cap = "" THEN caps ELSE NextCaps(step)
             /\ l' = l + 1
             /\ verdict' = IF last THEN "ok" ELSE "running"
             /\ last => PrintT("@OK " \o ToJson([id |-> T.id, steps |-> l]))
        ELSE /\ sts' = {}
             /\ UNCHANGED caps
             /\ l' = l
             /\ verdict' = "bad"
             /\ \E end \in {CHOOSE y \in judged : \A z \in judged : Len(y[2]) <= Len(z[2])} :
                PrintT("@BAD " \o ToJson([id |-> T.id, step |-> l, whys |-> Whys(step), actors |-> Actors(end[1], step),
                         diffs |-> end[2]]))

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == <<tr, l, verdict>>
=============================================================================
