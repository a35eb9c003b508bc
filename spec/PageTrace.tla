------------------------------ MODULE PageTrace ------------------------------
(* Judges recordings of the real page (as the real server serves it) against the *)
(* specification: after every act, what is shown is what Page.tla says, wherever *)
(* it says something: once the page has all that was sent, and from then on after *)
(* each further event.  On the way there the page may show anything, but must not *)
(* fail.                                                                        *)
(*                                                                              *)
(* A step: [a: the act, st: the scene of the server after it, left: events not yet *)
(* handed to the page, asks: state requests without answer, errs: uncaught errors, *)
(* marks: where the markers are, sel: the markers drawn as selected, panel, posts:  *)
(* set-position requests sent].                                                 *)
EXTENDS Page, Integers, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, s, verdict
T == Traces[tr]

(* link: the stream is open.  sure: model is what the page has to show.  waived: a  *)
(* state request failed since the stream opened.  drag: "" or what the held button  *)
(* moves.  moved: since it was pressed.  slid: a slider was moved and not released.  *)
(* last, must: neighbours' values that were delivered, those that have to be shown. *)
Start == [link |-> FALSE, loaded |-> FALSE, sure |-> FALSE, waived |-> FALSE, model |-> {}, sel |-> "", drag |-> "", moved |-> FALSE,
          slid |-> FALSE, lost |-> FALSE, last |-> {}, must |-> {}]
ToSet2(q) == { q[i] : i \in DOMAIN q }
Scene(step) == { [mac |-> x.mac, p |-> [x |-> x.x, y |-> x.y, z |-> x.z, yaw |-> x.yaw, pitch |-> x.pitch, roll |-> x.roll]] : x \in ToSet2(step.st) }
At(model, m) == (CHOOSE x \in model : x.mac = m).p
Put(model, m, p) == Others(model, m) \union {[mac |-> m, p |-> p]}
Abs(n) == IF n < 0 THEN 0 - n ELSE n
Sign(n) == IF n < 0 THEN 0 - 1 ELSE IF n > 0 THEN 1 ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* Where the marker of something at p is. *)
Projected(p) == << p.y - p.x, p.z - p.y >>
(* As many markers at every place as things. *)
MarksAre(model, marks) ==
  /\ Len(marks) = Cardinality(model)
  /\ \A x \in model : Cardinality({ i \in DOMAIN marks : marks[i] = Projected(x.p) }) = Cardinality({ y \in model : Projected(y.p) = Projected(x.p) })

----------------------------------------------------------------------------
(* What the act and the events make of the state. *)

Gone(t, m) == [t EXCEPT !.last = { y \in @ : y.of # m /\ y.mac # m }, !.must = { y \in @ : y.of # m /\ y.mac # m },
                        !.sel = IF @ = m THEN "" ELSE @, !.lost = @ \/ (t.sel = m /\ t.drag # "")]
Near(t, e) ==
  LET v == [of |-> e.mac, mac |-> e.mac2, d |-> e.d, az |-> e.az, el |-> e.el]
      rest(q) == { y \in q : y.of # e.mac \/ y.mac # e.mac2 }
  IN [t EXCEPT !.last = rest(@) \union {v}, !.must = IF t.sure THEN rest(@) \union {v} ELSE rest(@)]
Event(t, e) ==
  LET t1 == [t EXCEPT !.model = Apply(@, e)] IN
  CASE e.n = "device-removed" -> Gone(t1, e.mac)
    [] e.n = "neighbor-updated" -> Near(t1, e)
    [] OTHER -> t1
InRange(v, lo, hi) == Max2(lo, Min2(hi, v))
Now(t, step) ==
  LET a == step.a IN
  CASE a.k = "load" -> [t EXCEPT !.loaded = TRUE]
    [] a.k = "open" -> [t EXCEPT !.link = TRUE, !.sure = FALSE, !.waived = FALSE, !.must = {}]
    [] a.k \in {"break", "restart"} -> [t EXCEPT !.link = FALSE, !.sure = FALSE]
    [] a.k = "fail" -> [t EXCEPT !.waived = TRUE]
    [] a.k = "event" -> Event(t, a.e)
    [] a.k = "press" -> [t EXCEPT !.sel = step.panel.mac, !.drag = "floor", !.moved = FALSE, !.lost = FALSE]
    [] a.k = "grip" -> [t EXCEPT !.drag = "height", !.moved = FALSE, !.lost = FALSE]
    [] a.k = "empty" -> [t EXCEPT !.sel = ""]
    [] a.k = "release" -> [t EXCEPT !.drag = "", !.moved = FALSE]
    [] a.k = "slide" -> [t EXCEPT !.slid = TRUE]
    [] a.k = "change" -> [t EXCEPT !.slid = FALSE]
    [] OTHER -> t
(* The user's own changes show at once. *)
Own(t, step) == IF step.a.k \in {"move", "slide"} /\ step.panel.on /\ Has(t.model, step.panel.mac)
                THEN [t EXCEPT !.model = Put(@, step.panel.mac, step.panel.p), !.moved = TRUE] ELSE [t EXCEPT !.moved = @ \/ step.a.k = "move"]
(* All that was sent has arrived: the page shows the scene. *)
Settles(t, step) == t.link /\ t.loaded /\ ~t.waived /\ step.left = 0 /\ step.asks = 0 /\ t.drag = "" /\ ~t.slid
Known(t, step) ==
  IF Settles(t, step)
  THEN [t EXCEPT !.sure = TRUE, !.model = Scene(step), !.sel = IF t.sure \/ step.panel.on THEN @ ELSE ""]
  ELSE [t EXCEPT !.sure = @ /\ step.asks = 0]
(* A request for the state while the page follows the stream may change anything. *)
After(t, step) == Known(Own(Now(t, step), step), step)

----------------------------------------------------------------------------
(* What is wrong with a step. *)
Same(p, q) == p.x = q.x /\ p.y = q.y /\ p.z = q.z /\ p.yaw = q.yaw /\ p.pitch = q.pitch /\ p.roll = q.roll

(* A drag on the floor takes the marker to the pointer and keeps its height; the   *)
(* handle changes the height alone, in the direction of the pointer, but not below  *)
(* the floor; a slider changes its angle alone.                                 *)
Edge == 560
MovedTo(p, q, a) ==
  LET x == p.y - a.x
      z == p.y + a.y
  IN [q EXCEPT !.x = p.x, !.z = p.z] = p /\ q.x = InRange(x, 0 - Edge, Edge) /\ q.z = InRange(z, 0 - Edge, Edge)
Lifted(p, q, a) == /\ [q EXCEPT !.y = p.y] = p
                   /\ q.y >= 0
                   /\ (p.y >= 0) => Sign(q.y - p.y) = (IF p.y = 0 /\ a.dy > 0 THEN 0 ELSE 0 - Sign(a.dy))
Slid(p, q, a) == q = [p EXCEPT ![a.which] = a.v]
OwnWrong(t, step) ==
  LET a == step.a
      p == At(t.model, t.sel)
      q == step.panel.p
      known == t.sure /\ t.sel # "" /\ Has(t.model, t.sel) /\ step.panel.on /\ step.panel.mac = t.sel
  IN IF ~known THEN FALSE
     ELSE CASE a.k = "move" -> IF t.lost \/ t.drag = "" THEN q # p
                               ELSE IF t.drag = "floor" THEN ~MovedTo(p, q, a) ELSE ~Lifted(p, q, a)
            [] a.k = "slide" -> ~Slid(p, q, a)
            [] OTHER -> FALSE

(* set-position requests: one when the button is released after a move, or a slider *)
(* (clicking may send one, too), with what is shown. *)
PostsWrong(t, step) ==
  LET n == Len(step.posts)
      a == step.a
      (* Whatever is dragged may have gone away. *)
      loose == t.lost \/ t.sel = "" \/ ~t.sure
      least == IF (a.k = "change" \/ (a.k = "release" /\ t.moved)) /\ ~loose THEN 1 ELSE 0
      most == IF a.k \in {"change", "release", "empty"} THEN 1 ELSE 0
      shown(q) == q.ok /\ q.mac = step.panel.mac /\ Same(q.p, step.panel.p)
  IN n < least \/ n > most \/ (~loose /\ step.panel.on /\ \E i \in DOMAIN step.posts : ~shown(step.posts[i]))

Bar(v, most) == IF v < 0 - most THEN 0 - most ELSE IF v > most THEN most ELSE v
(* The panel: the thing's position, orientation (thrice), neighbours. *)
PanelWrong(t, step) ==
  LET q == step.panel
      near == ToSet2(q.near)
      mine(z) == { [mac |-> y.mac, d |-> y.d, az |-> y.az, el |-> y.el] : y \in { x \in z : x.of = t.sel } }
      rows == { [mac |-> y.mac, d |-> y.d, az |-> y.az, el |-> y.el] : y \in near }
  IN IF t.sel = "" THEN IF q.on THEN "selection" ELSE ""
     ELSE IF ~q.on THEN IF t.sel = "" THEN "" ELSE "unselected"
     ELSE IF q.mac # t.sel \/ ~Has(t.model, q.mac) THEN "selected"
     ELSE IF ~Same(q.p, At(t.model, q.mac)) THEN "position"
     ELSE IF q.face # << q.p.yaw, q.p.pitch, q.p.roll >> THEN "face"
     ELSE IF q.bars # << q.p.yaw, q.p.pitch, q.p.roll >> THEN "sliders"
     ELSE IF Len(q.near) # Cardinality({ y.mac : y \in near }) THEN "neighbour twice"
     ELSE IF \E y \in near : y.face # << 0 - y.az, y.el, 0 >> THEN "neighbour face"
     ELSE IF ~(mine(t.must) \subseteq rows) THEN "neighbour missing"
     ELSE IF ~(rows \subseteq mine(t.last)) \/ \E y \in rows : ~Has(t.model, y.mac) THEN "neighbour wrong"
     ELSE ""
(* The selected marker is drawn as such, and has the handle. *)
MarkedWrong(t, step) ==
  IF ~step.panel.on THEN step.sel # <<>>
  ELSE \/ Len(step.sel) # 1
       \/ step.sel[1] \notin DOMAIN step.marks \/ step.marks[step.sel[1]] # Projected(step.panel.p)
       \/ (step.a.k = "press" /\ step.sel # <<step.a.at>>)

(* t: the state before, u: after. *)
Wrong(t, u, step) ==
  IF step.errs # <<>> THEN "error"
  ELSE IF PostsWrong(t, step) THEN "request"
  ELSE IF OwnWrong(t, step) THEN "moved"
  ELSE IF step.a.k = "press" /\ ~step.panel.on THEN "unselected"
  ELSE IF ~u.sure THEN ""
  ELSE IF ~MarksAre(u.model, step.marks) THEN "markers"
  ELSE IF PanelWrong(u, step) # "" THEN PanelWrong(u, step)
  ELSE IF MarkedWrong(u, step) THEN "highlight"
  ELSE ""

----------------------------------------------------------------------------
Init == tr \in DOMAIN Traces /\ l = 1 /\ s = Start /\ verdict = "running"
Next ==
  /\ verdict = "running"
  /\ UNCHANGED tr
  /\ \E step \in {T.steps[l]} :
     \E u \in {After(s, step)} :
     \E w \in {Wrong(s, u, step)} :
       IF w = ""
       THEN /\ s' = u /\ l' = l + 1
            /\ verdict' = IF l = Len(T.steps) THEN "ok" ELSE "running"
            /\ (l = Len(T.steps)) => PrintT("@OK " \o ToJson([id |-> T.id, steps |-> l]))
       ELSE /\ s' = s /\ l' = l /\ verdict' = "bad"
            /\ PrintT("@BAD " \o ToJson([id |-> T.id, step |-> l, what |-> w, act |-> step.a, errs |-> step.errs,
                       exp |-> [sel |-> u.sel, model |-> u.model], obs |-> [panel |-> step.panel, marks |-> step.marks, posts |-> step.posts]]))
Spec == Init /\ [][Next]_<<tr, l, s, verdict>>
=============================================================================
