-------------------------------- MODULE Page --------------------------------
(* The web page of pica-http: how it comes by the scene it shows (C25).         *)
(*                                                                              *)
(* The server answers a request for its state with the scene of that moment and  *)
(* sends every later change over an event stream.  Both travel on connections of *)
(* their own: a state may be older or newer than the events that arrive around   *)
(* it.  A page that asks for the state once its event stream is open, holds back *)
(* the events until the state is there, and then applies them to it, shows the   *)
(* scene whatever the order, as applying a change again does no harm.            *)
EXTENDS Naturals, Sequences, FiniteSets

(* A thing that is shown: [mac, p].  An event: [n, mac, p] with n the name that   *)
(* the server gives it; others carry more.                                      *)
Others(shown, m) == { x \in shown : x.mac # m }
Has(shown, m) == \E x \in shown : x.mac = m
Apply(shown, e) ==
  CASE e.n = "device-added" -> Others(shown, e.mac) \union {[mac |-> e.mac, p |-> e.p]}
    [] e.n = "device-removed" -> Others(shown, e.mac)
    [] e.n = "device-updated" /\ Has(shown, e.mac) -> Others(shown, e.mac) \union {[mac |-> e.mac, p |-> e.p]}
    [] OTHER -> shown
RECURSIVE ApplyAll(_, _)
ApplyAll(shown, es) == IF es = <<>> THEN shown ELSE ApplyAll(Apply(shown, es[1]), Tail(es))

----------------------------------------------------------------------------
(* The page: what it shows, whether that follows the stream, the events that wait *)
(* for the state, the thing that is selected ("" for none).                      *)
BlankPage == [shown |-> {}, ready |-> FALSE, held |-> <<>>, sel |-> ""]
Keep(pg) == IF Has(pg.shown, pg.sel) THEN pg ELSE [pg EXCEPT !.sel = ""]
Opened(pg) == [pg EXCEPT !.ready = FALSE, !.held = <<>>]
Told(pg, e) == IF pg.ready THEN Keep([pg EXCEPT !.shown = Apply(@, e)]) ELSE [pg EXCEPT !.held = Append(@, e)]
Answered(pg, shown) == Keep([pg EXCEPT !.shown = ApplyAll(shown, pg.held), !.held = <<>>, !.ready = TRUE])
Selected(pg, m) == [pg EXCEPT !.sel = m]
=============================================================================
