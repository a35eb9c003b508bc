----------------------------- MODULE SceneTrace -----------------------------
(* Trace validation for the real servers (pica-http, pica): real processes,    *)
(* real threads, real sockets and real time.  One TLC step per recorded step,  *)
(* as in PicaTrace.tla, from which the judgement of the UCI packets is taken;  *)
(* responses and events of the HTTP interface are judged here.                 *)
(*                                                                             *)
(* A recorded step is a sequence of phases (act field g): the inputs of one    *)
(* phase are all handled before those of the next.  Within a phase, inputs of  *)
(* different connections may be handled in any order.  As time is real,        *)
(* ranging rounds may happen at any moment; there are as many as there are     *)
(* session information notifications.                                          *)
EXTENDS PicaTrace, Scene

T == Traces[tr]

----------------------------------------------------------------------------
(* Measured values reported in a step: the last ones for the pair. *)
EventsOf(step) == IF step.v = <<>> THEN <<>> ELSE step.v[1][2]
NearOf(step, m1, m2) ==
  LET es == EventsOf(step)
      is == { i \in DOMAIN es : es[i].n = "neighbor-updated" /\ es[i].mac = Text(m1) /\ es[i].mac2 = Text(m2) }
  IN IF is = {} THEN [ok |-> FALSE, rng |-> 0, azi |-> 0, ele |-> 0]
     ELSE LET e == es[CHOOSE i \in is : \A j \in is : j <= i] IN [ok |-> TRUE, rng |-> e.d, azi |-> e.az, ele |-> e.el]

(* What a round tells about the measured values.  Those of a pair whose position *)
(* changed unobserved are only known to be right for the positions; and while a  *)
(* request to move something is under way (alts: the measured values after each),*)
(* some values of a round may be old and some new.                              *)
Signed16(b) == LET n == b[1] + 256 * b[2] IN IF n >= 32768 THEN n - 65536 ELSE n
MacIn(p, o, sid) ==
  IF o \in DOMAIN p.devs
  THEN IF HasSess(p, o, sid) /\ pDevMac \in DOMAIN Sess(p, o, sid).cfg THEN Sess(p, o, sid).cfg[pDevMac] ELSE <<>>
  ELSE LET ms == { m \in DOMAIN p.anch : p.anch[m] = o } IN IF ms = {} THEN <<>> ELSE CHOOSE m \in ms : TRUE
Learn(s, a, alts) ==
  LET p == s.p
      w == IF a.o.pl[16] = 1 THEN 8 ELSE 2
      n == (Len(a.o.pl) - SinHeader) \div BlockSize
      block(i) == Sub(a.o.pl, SinHeader + 1 + (i - 1) * BlockSize, BlockSize)
      others == (DOMAIN s.pos) \ {a.h}
      at(o) == LET m == MacIn(p, o, a.s)
                   is == { i \in 1..n : m # <<>> /\ SubSeq(block(i), 1, w) = m \o Zeros(w - Len(m)) }
               IN IF Len(m) > w \/ is = {} THEN 0 ELSE SetMin(is)
      seen == { o \in others : at(o) # 0 }
      known(y) == { g[y] : g \in { z \in ({p.geo} \union alts) : y \in DOMAIN z } }
      there(o) == LET b == block(at(o)) IN [ok |-> TRUE, rng |-> b[w + 3] + 256 * b[w + 4], azi |-> Signed16(Sub(b, w + 5, 2)), ele |-> Signed16(Sub(b, w + 8, 2))]
      back(o) == LET b == block(at(o)) IN [there(o) EXCEPT !.azi = Signed16(Sub(b, w + 11, 2)), !.ele = Signed16(Sub(b, w + 14, 2))]
      val(v) == [d |-> v.rng, az |-> v.azi, el |-> v.ele]
      (* A value for the pair, if what was seen explains one. *)
      forth(o) == LET y == <<a.h, o>> v == there(o) IN
                  IF v \in known(y) \/ (y \notin DOMAIN p.geo /\ GoodMeasure(s.pos[a.h], s.pos[o], val(v))) THEN {v} ELSE {}
      hither(o) == LET y == <<o, a.h>> v == back(o) IN
                   { x \in known(y) : x.azi = v.azi /\ x.ele = v.ele }
                   \union (IF y \notin DOMAIN p.geo /\ GoodMeasure(s.pos[o], s.pos[a.h], val(v)) THEN {v} ELSE {})
      new == [y \in { <<a.h, o>> : o \in { x \in seen : forth(x) # {} } } |-> CHOOSE v \in forth(y[2]) : TRUE]
             @@ [y \in { <<o, a.h>> : o \in { x \in seen : hither(x) # {} } } |-> CHOOSE v \in hither(y[1]) : TRUE]
  IN new @@ p.geo

(* Effects of one input. *)
SceneInput(s, step, a) ==
  CASE a.k = "http" -> LET near(m1, m2) == NearOf(step, m1, m2) IN {Request(s, a, near)}
    [] a.k = "round" -> {Lift(s, Round(s.p, a.h, a.s))}
    [] a.k = "inband" -> {Lift(s, InBandStop([s.p EXCEPT !.pend = Tail(@)], s.p.pend[1].mac, s.p.pend[1].sid))}
    [] a.k = "drop" -> {[s EXCEPT !.late = Append(@, [a |-> a, age |-> 0])]}
    [] a.k \in {"sub", "unsub"} -> {s}
    [] OTHER -> { Lift(s, p) : p \in Input(s.p, a) }

(* A request whose client has gone away before the response: it is done by the  *)
(* end of the next step, or not at all.                                         *)
Dropped(s, step) ==
  UNION { LET rest == [s EXCEPT !.late = SubSeq(@, 1, i - 1) \o Drop(@, i)]
              near(m1, m2) == NearOf(step, m1, m2)
          IN { [Request(rest, s.late[i].a, near) EXCEPT !.rsp = s.rsp] } \union (IF s.late[i].age > 0 THEN {rest} ELSE {})
          : i \in DOMAIN s.late }

(* The rounds that were seen: [k, h, s] in order, by connection. *)
SceneLane(a) == CASE a.k \in {"http", "drop"} -> 1000 + a.c
                  [] a.k \in {"tx", "raw", "eof"} -> a.c
                  [] OTHER -> 0 - 1
LanesOf(acts) ==
  LET ids == { SceneLane(acts[i]) : i \in DOMAIN acts } IN
  [x \in ids |-> SeqFilter(acts, LAMBDA a : SceneLane(a) = x)]
Phases(step) == { step.a[i].g : i \in DOMAIN step.a }

RoundsSeen(s, step) ==
  LET seen(c) == SeqFilter(Join(PacketsOf(step, c)), LAMBDA m : ClassOf(m) = "sin" /\ Len(m.pl) >= SinHeader) IN
  [c \in 1..Len(s.p.conns) |-> LET m == seen(c) IN [i \in DOMAIN m |-> [k |-> "round", h |-> s.p.conns[c], s |-> SubSeq(m[i].pl, 5, 8), o |-> m[i]]]]

(* The outputs of different devices have no order among them. *)
RECURSIVE ByDevice(_, _, _)
ByDevice(out, h, acc) ==
  IF out = <<>> THEN acc
  ELSE LET mine == SeqFilter(out, LAMBDA x : x.h = h)
           rest == SeqFilter(out, LAMBDA x : x.h # h)
       IN IF rest = <<>> THEN acc \o mine
          ELSE ByDevice(rest, SetMin({ rest[i].h : i \in DOMAIN rest }), acc \o mine)
Canon(s) == IF s.p.out = <<>> THEN s
            ELSE [s EXCEPT !.p.out = ByDevice(@, SetMin({ s.p.out[i].h : i \in DOMAIN s.p.out }), <<>>)]

(* A state on the way: [s, g, lanes, rounds]. *)
Moves(x, step) ==
  LET s == x.s
      ready == { l0 \in DOMAIN x.lanes : x.lanes[l0] # <<>> }
      acts == UNION { { [x EXCEPT !.s = Canon(s1), !.lanes[l0] = Tail(@)] : s1 \in SceneInput(s, step, x.lanes[l0][1]) } : l0 \in ready }
      live == { c \in DOMAIN x.rounds : x.rounds[c] # <<>> /\ HasSess(s.p, x.rounds[c][1].h, x.rounds[c][1].s)
                                        /\ Sess(s.p, x.rounds[c][1].h, x.rounds[c][1].s).state = ssActive }
      near(m1, m2) == NearOf(step, m1, m2)
      moves(l0) == l0 >= 1000 /\ x.lanes[l0] # <<>> /\ x.lanes[l0][1].k = "http" /\ x.lanes[l0][1].op = "set-position"
      moving == { Request(s, x.lanes[l0][1], near).p.geo : l0 \in { y \in DOMAIN x.lanes : moves(y) } }
      (* A round is only taken if it explains what was seen next. *)
      fits(c, s1) == LET r == x.rounds[c][1]
                         mine == SeqFilter(s1.p.out, LAMBDA y : y.h = r.h /\ y.cls = "sin" /\ SubSeq(y.m.pl, 5, 8) = r.s)
                     IN IF mine = <<>> THEN 0
                        ELSE IF SameMsg(LastOf(mine), r.o) THEN 2
                        ELSE IF LastOf(mine).m.pl = SubSeq(r.o.pl, 1, SinHeader) THEN 1 ELSE 0
      round(c) == LET r == x.rounds[c][1]
                      s1 == Lift(s, Round(s.p, r.h, r.s))
                      (* Only the measured values do not fit. *)
                      s2 == Lift(s, Round([s.p EXCEPT !.geo = Learn(s, r, moving)], r.h, r.s))
                  IN CASE fits(c, s1) = 2 -> {s1}
                       [] fits(c, s1) = 1 /\ s.p.salt < 0 -> IF fits(c, s2) = 2 THEN {s2} ELSE {}
                       [] OTHER -> {}
      rounds == UNION { { [x EXCEPT !.s = Canon(s1), !.rounds[c] = Tail(@)] : s1 \in round(c) } : c \in live }
      stops == IF s.p.pend = <<>> THEN {} ELSE { [x EXCEPT !.s = Canon(s1)] : s1 \in SceneInput(s, step, [k |-> "inband"]) }
      left == { g \in Phases(step) : g > x.g }
      next == IF ready # {} \/ left = {} THEN {}
              ELSE LET g == SetMin(left) IN
                   { [x EXCEPT !.g = g, !.lanes = LanesOf(SeqFilter(step.a, LAMBDA a : a.g = g))] }
      drops == { [x EXCEPT !.s = s1] : s1 \in Dropped(s, step) }
  IN acts \union rounds \union stops \union drops \union next

Done(x, step) == (\A l0 \in DOMAIN x.lanes : x.lanes[l0] = <<>>) /\ (\A g \in Phases(step) : g <= x.g)
                 /\ \A i \in DOMAIN x.s.late : x.s.late[i].age = 0

RECURSIVE Explore(_, _, _)
Explore(front, step, res) ==
  IF front = {} THEN res
  ELSE Explore(UNION { Moves(x, step) : x \in front }, step, res \union { x \in front : Done(x, step) })

(* The states the step may end in.  The rounds that no moment explains are left *)
(* out (and found missing below).                                               *)
SceneEnds(s, step) ==
  LET xs == Explore({[s |-> s, g |-> 0, lanes |-> [i \in {} |-> <<>>], rounds |-> RoundsSeen(s, step)]}, step, {}) IN
  { [s1 EXCEPT !.p = Reap(@)] : s1 \in { x.s : x \in xs } }

----------------------------------------------------------------------------
(* Responses *)

EntryIs(e, o) == o.cat = e.cat /\ o.mac = Text(e.mac) /\ SamePosition(e.pos, o)
ListIs(E, O) == /\ Cardinality(E) = Len(O)
                /\ \A e \in E : Cardinality({ i \in DOMAIN O : EntryIs(e, O[i]) }) = 1
RspIs(e, o) == /\ e.status = o[2]
               /\ o[3] = e.isList
               /\ e.isList => ListIs(e.list, o[4])
ResponseDiffs(s, step) ==
  LET lanes == { s.rsp[i].lane : i \in DOMAIN s.rsp } \union { step.h[i][1] : i \in DOMAIN step.h }
      bad(x) == LET E == SeqFilter(s.rsp, LAMBDA r : r.lane = x)
                    O == SeqFilter(step.h, LAMBDA r : r[1] = x)
                IN IF Len(E) # Len(O) THEN {0} ELSE { i \in DOMAIN E : ~RspIs(E[i], O[i]) }
      wrong == { x \in lanes : bad(x) # {} }
  IN IF wrong = {} THEN <<>>
     ELSE LET x == SetMin(wrong)
              i == SetMin(bad(x))
              E == SeqFilter(s.rsp, LAMBDA r : r.lane = x)
              O == SeqFilter(step.h, LAMBDA r : r[1] = x)
          IN IF i = 0 THEN << Report(0 - 1, "http", "count", "", <<Len(E)>>, <<Len(O)>>) >>
             ELSE << Report(0 - 1, "http", IF E[i].status # O[i][2] THEN "status" ELSE "list", "", <<E[i].status>>, <<O[i][2]>>) >>

----------------------------------------------------------------------------
(* Events *)

Place(o) == [x |-> o.x, y |-> o.y, z |-> o.z, yaw |-> o.yaw, pitch |-> o.pitch, roll |-> o.roll]
PairIs(a, b, o) == o.n = "neighbor-updated" /\ o.cat = a.cat /\ o.mac = Text(a.mac) /\ o.cat2 = b.cat /\ o.mac2 = Text(b.mac)

(* Position in O after event e, starting at j: <<j, "">> or <<j, what is wrong>>. *)
MatchOne(e, O, j) ==
  LET named(n) == O[j].n = n /\ O[j].cat = e.cat /\ O[j].mac = Text(e.mac)
      near == 2 * Cardinality(e.others)
      chunk == SubSeq(O, j, Min2(Len(O), j + near - 1))
      me == [cat |-> e.cat, mac |-> e.mac, pos |-> e.pos]
      is(a, b) == { i \in DOMAIN chunk : PairIs(a, b, chunk[i]) }
      val(a, b) == LET o == chunk[CHOOSE i \in is(a, b) : TRUE] IN [d |-> o.d, az |-> o.az, el |-> o.el]
  IN CASE j > Len(O) -> <<j, "missing">>
       [] j <= Len(O) /\ e.k = "removed" -> IF named("device-removed") THEN <<j + 1, "">> ELSE <<j, "wrong">>
       [] j <= Len(O) /\ e.k = "added" ->
            IF named("device-added") /\ SamePosition(e.pos, Place(O[j])) THEN <<j + 1, "">> ELSE <<j, "wrong">>
       [] j <= Len(O) /\ e.k = "updated" ->
            IF named("device-updated") /\ SamePosition(e.pos, Place(O[j])) THEN <<j + 1, "">> ELSE <<j, "wrong">>
       [] OTHER ->
            IF Len(chunk) < near THEN <<j, "missing">>
            ELSE IF \E o \in e.others : Cardinality(is(me, o)) # 1 \/ Cardinality(is(o, me)) # 1 THEN <<j, "wrong">>
            ELSE IF \E o \in e.others : \/ ~GoodMeasure(me.pos, o.pos, val(me, o)) \/ ~GoodMeasure(o.pos, me.pos, val(o, me))
                                        \/ val(me, o).d # val(o, me).d
            THEN <<j, "values">>
            ELSE <<j + near, "">>

RECURSIVE MatchAll(_, _, _, _)
MatchAll(E, i, O, j) ==
  IF i > Len(E) THEN IF j <= Len(O) THEN <<j, "extra">> ELSE <<j, "">>
  ELSE LET m == MatchOne(IF E[i].k = "near" THEN E[i] ELSE E[i] @@ [others |-> {}], O, j) IN
       IF m[2] # "" THEN m ELSE MatchAll(E, i + 1, O, m[1])

(* Every subscriber gets the same events. *)
RECURSIVE EventDiffs(_, _, _)
EventDiffs(s, step, i) ==
  IF i > Len(step.v) THEN <<>>
  ELSE LET r == MatchAll(s.ev, 1, step.v[i][2], 1) IN
       IF r[2] # "" THEN << Report(step.v[i][1], "sse", r[2], "", <<Len(s.ev)>>, <<r[1], Len(step.v[i][2])>>) >>
       ELSE EventDiffs(s, step, i + 1)

SceneDiffs(before, s, step, dead) ==
  (IF step.late = <<>> THEN <<>> ELSE << Report(0 - 1, "late", step.late[1], "", <<>>, <<>>) >>)
  \o (IF dead THEN << Report(0 - 1, "dead", "dead", "", <<>>, <<>>) >> ELSE <<>>)
  \o ResponseDiffs(s, step)
  \o EventDiffs(s, step, 1)
  \o (IF \E i \in DOMAIN step.o : step.o[i][1] >= Len(s.p.conns) THEN << Report(0 - 1, "other", "extra", "", <<>>, <<>>) >> ELSE <<>>)
  \o ConnDiffs(s.p, step, 1, <<>>)
  \o (IF T.cap = "" THEN <<>> ELSE CaptureDiffs(before.p, s.p, step))

CleanScene(s) == [s EXCEPT !.p = Clean(@), !.ev = <<>>, !.rsp = <<>>, !.late = [i \in DOMAIN @ |-> [@[i] EXCEPT !.age = 1]]]

----------------------------------------------------------------------------
SceneTraceInit ==
  /\ tr \in DOMAIN Traces
  /\ l = 1
  /\ sts = {SceneInit(Traces[tr].salt)}
  /\ caps = [h \in {} |-> NoCapture]
  /\ verdict = "running"

SceneTraceNext ==
  /\ verdict = "running"
  /\ UNCHANGED tr
  /\ \E step \in {T.steps[l]} :
     LET last == l = Len(T.steps)
         dead == T.dead /\ last
         first == CHOOSE s \in sts : TRUE
     (* (The sets are bound by quantifiers so that TLC evaluates them once.) *)
     IN \E judged \in {{ <<s, SceneDiffs(first, s, step, dead)>> : s \in UNION { SceneEnds(x, step) : x \in sts } }} :
        \E good \in {{ CleanScene(z[1]) : z \in { y \in judged : y[2] = <<>> } }} :
        IF good # {}
        THEN /\ sts' = good
             /\ caps' = IF T.cap = "" THEN caps ELSE NextCaps(step)
             /\ l' = l + 1
             /\ verdict' = IF last THEN "ok" ELSE "running"
             /\ last => PrintT("@OK " \o ToJson([id |-> T.id, steps |-> l]))
        ELSE /\ sts' = {}
             /\ UNCHANGED caps
             /\ l' = l
             /\ verdict' = "bad"
             (* Of the possible ends, the one that comes closest. *)
             /\ \E end \in {CHOOSE y \in judged : \A z \in judged : Len(y[2]) <= Len(z[2])} :
                PrintT("@BAD " \o ToJson([id |-> T.id, step |-> l, whys |-> Whys(step), actors |-> Actors(end[1].p, step),
                         diffs |-> end[2]]))

SceneTraceSpec == SceneTraceInit /\ [][SceneTraceNext]_vars
=============================================================================
