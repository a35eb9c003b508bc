------------------------------- MODULE PageMC -------------------------------
(* Exhaustive exploration of the page and the server: every order in which       *)
(* states, events, failures and reconnections may reach the page.                *)
EXTENDS Page, TLC, Json, TLCExt

CONSTANTS Emitting, Macs, Places, MaxQueue, MaxAsks

VARIABLES srv, link, queue, asks, loaded, failed, pg, lab
vars == <<srv, link, queue, asks, loaded, failed, pg, lab>>
View == <<srv, link, queue, asks, loaded, failed, pg>>

(* The stream: "down", "coming" (the server has subscribed the page, which does   *)
(* not know yet) or "open".  A request: [snap, of the present stream?].          *)
Init == /\ srv = {} /\ link = "down" /\ queue = <<>> /\ asks = <<>> /\ loaded = FALSE /\ failed = FALSE
        /\ pg = BlankPage /\ lab = [k |-> "init"]
        /\ (Emitting => PrintT("@SETUP " \o ToJson([s |-> TLCFP(View)])))

Change(e) == /\ srv' = Apply(srv, e)
             /\ queue' = IF link = "down" THEN queue ELSE Append(queue, e)
             /\ lab' = [k |-> "srv", n |-> e.n, mac |-> e.mac, p |-> e.p]
             /\ UNCHANGED <<link, asks, loaded, failed, pg>>
Server == /\ Len(queue) + Len(pg.held) < MaxQueue
          /\ \E m \in Macs :
               \/ \E p \in Places : /\ Has(srv, m) /\ [mac |-> m, p |-> p] \notin srv
                                    /\ Change([n |-> "device-updated", mac |-> m, p |-> p])
               \/ ~Has(srv, m) /\ \E p \in Places : Change([n |-> "device-added", mac |-> m, p |-> p])
               \/ Has(srv, m) /\ Change([n |-> "device-removed", mac |-> m, p |-> CHOOSE p \in Places : TRUE])
Load == /\ ~loaded /\ loaded' = TRUE /\ lab' = [k |-> "load"]
        /\ UNCHANGED <<srv, link, queue, asks, failed, pg>>
Connect == /\ link = "down" /\ link' = "coming" /\ lab' = [k |-> "connect"]
           /\ UNCHANGED <<srv, queue, asks, loaded, failed, pg>>
Ask(old) == Append([i \in DOMAIN old |-> [old[i] EXCEPT !.live = FALSE]], [snap |-> {}, served |-> FALSE, live |-> TRUE])
Open == /\ link = "coming" /\ Len(asks) < MaxAsks
        /\ link' = "open" /\ pg' = Opened(pg) /\ failed' = FALSE /\ lab' = [k |-> "deliver"]
        /\ asks' = Ask(asks)
        /\ UNCHANGED <<srv, queue, loaded>>
Deliver == /\ link = "open" /\ queue # <<>>
           /\ queue' = Tail(queue) /\ pg' = Told(pg, queue[1]) /\ lab' = [k |-> "deliver"]
           /\ UNCHANGED <<srv, link, asks, loaded, failed>>
Nth(i, Which(_)) == Cardinality({ j \in 1..(i - 1) : Which(asks[j]) })
Serve == \E i \in DOMAIN asks :
           /\ ~asks[i].served
           /\ asks' = [asks EXCEPT ![i].snap = srv, ![i].served = TRUE]
           /\ lab' = [k |-> "serve", i |-> Nth(i, LAMBDA a : ~a.served)]
           /\ UNCHANGED <<srv, link, queue, loaded, failed, pg>>
Without(i) == SubSeq(asks, 1, i - 1) \o SubSeq(asks, i + 1, Len(asks))
Reply == \E i \in DOMAIN asks :
           /\ asks[i].served
           /\ asks' = Without(i)
           /\ pg' = IF asks[i].live THEN Answered(pg, asks[i].snap) ELSE pg
           /\ lab' = [k |-> "reply", i |-> Nth(i, LAMBDA a : a.served)]
           /\ UNCHANGED <<srv, link, queue, loaded, failed>>
Fail == \E i \in DOMAIN asks :
           /\ asks' = Without(i)
           /\ failed' = (failed \/ asks[i].live)
           /\ lab' = [k |-> "fail", i |-> i - 1]
           /\ UNCHANGED <<srv, link, queue, loaded, pg>>
Break == /\ link # "down" /\ link' = "down" /\ queue' = <<>> /\ lab' = [k |-> "break"]
         /\ UNCHANGED <<srv, asks, loaded, failed, pg>>
Restart == /\ srv # {} /\ srv' = {} /\ link' = "down" /\ queue' = <<>> /\ asks' = <<>> /\ lab' = [k |-> "restart"]
           /\ failed' = (failed \/ \E i \in DOMAIN asks : asks[i].live)
           /\ UNCHANGED <<loaded, pg>>
(* (Left out of the tours.) *)
Click == ~Emitting /\ \E x \in pg.shown : /\ pg.sel # x.mac /\ pg' = Selected(pg, x.mac) /\ lab' = [k |-> "click", mac |-> x.mac]
                             /\ UNCHANGED <<srv, link, queue, asks, loaded, failed>>
Next == Server \/ Load \/ Connect \/ Open \/ Deliver \/ Serve \/ Reply \/ Fail \/ Break \/ Restart \/ Click
Spec == Init /\ [][Next]_vars
Edges == Emitting => PrintT("@EDGE " \o ToJson([s |-> TLCFP(View), a |-> lab', d |-> TLCFP(View')]))

----------------------------------------------------------------------------
Unique == \A x, y \in pg.shown : x.mac = y.mac => x = y
(* Once everything has arrived, the page shows the scene. *)
Settled == link = "open" /\ queue = <<>> /\ asks = <<>> /\ ~failed
ShowsScene == Settled => pg.ready /\ pg.shown = srv
(* Before that, what it shows is the scene as of the last event. *)
Follows == (link = "open" /\ asks = <<>> /\ ~failed) => ApplyAll(pg.shown, queue) = srv
(* And the thing selected is shown. *)
SelectionShown == pg.sel = "" \/ Has(pg.shown, pg.sel)
=============================================================================
