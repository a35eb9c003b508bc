------------------------------- MODULE PicaMC -------------------------------
(* Exhaustive exploration of small instances of Pica.tla.  Every command of a   *)
(* finite repertoire, in every reachable state, in every order, with the        *)
(* ranging rounds and in-band stops happening at any moment.  The properties    *)
(* are stated on the transitions, in terms of what hosts can observe.           *)
EXTENDS Pica, Json, TLCExt

CONSTANTS Scenario, Emitting

VARIABLES st, lab
vars == <<st, lab>>

Sid(n) == LE32(n)
S1 == Sid(1)  S2 == Sid(257)
M(h) == MacOf(h)
FarMac == <<250, 250>>

----------------------------------------------------------------------------
(* Parameter lists *)
T(id, v) == [id |-> id, v |-> v]
Full(role, type, mac, dst, multi, extra) ==
  << T(pDeviceType, <<type>>), T(pRru, <<2>>), T(pRole, <<role>>), T(pSchedule, <<1>>), T(pMultiNode, <<multi>>),
     T(pDevMac, mac), T(pNumCtl, <<Len(dst)>>), T(pDstMac, Flat(dst)), T(pDuration, <<0, 0, 0, 48>>) >> \o extra

Controller(h, dst) == Full(1, 1, M(h), dst, 1, <<>>)
Controlee(h, dst) == Full(0, 0, M(h), dst, 1, <<>>)

Cset(sid, tlvs) == [k |-> "setapp", sid |-> sid, tlvs |-> tlvs]
Cget(sid, ids) == [k |-> "getapp", sid |-> sid, ids |-> ids]
Cinit(sid, t) == [k |-> "init", sid |-> sid, type |-> t]
Cof(k, sid) == [k |-> k, sid |-> sid]
Cmc(sid, act, addrs) ==
  [k |-> "mcast", sid |-> sid, act |-> act, body |-> <<Len(addrs)>> \o Flat([i \in DOMAIN addrs |-> addrs[i] \o Zeros(EntrySize(act) - 2)])]
Csnd(sid, data) == [k |-> "dsnd", sid |-> sid, seq |-> 7, data |-> data]
C0(k) == [k |-> k]

Queries(sids) == {C0("count")} \union UNION { {Cof("state", s), Cof("rcount", s)} : s \in sids }

----------------------------------------------------------------------------
(* Repertoires: commands of device h, and which of the other actions happen. *)
Repertoire(h) ==
  CASE Scenario = "sessions" ->
         { C0("reset"), C0("devinfo"), [k |-> "setcore", tlvs |-> <<T(1, <<0>>)>>], [k |-> "getcore", ids |-> <<0, 1>>],
           [k |-> "bad", gid |-> 1, oid |-> 9], [k |-> "unserved", gid |-> 9, oid |-> 1], [k |-> "nogroup", gid |-> 5, oid |-> 1],
           C0("count") }
         \union UNION { { Cinit(s, 0), Cof("deinit", s), Cof("start", s), Cof("stop", s), Cof("state", s), Cof("rcount", s),
                          Cset(s, Controller(h, <<M(1)>>)), Cset(s, <<T(pDuration, <<0, 0, 0, 49>>)>>),
                          Cmc(s, 1, <<M(1)>>) } : s \in IF Emitting THEN {S1} ELSE {S1, S2} }
         \union (IF Emitting THEN { Cinit(S2, 0), Cof("deinit", S2), Cof("state", S2), Cof("stop", S2) } ELSE {})
    [] Scenario = "types" ->
         { C0("reset"), Cof("deinit", S1), Cset(S1, Controller(h, <<M(1)>>)), Cset(S1, <<>>), Cset(S1, <<T(pAoaResultReq, <<1>>)>>),
           Cof("start", S1), Cof("stop", S1), Cof("state", S1), Cmc(S1, 0, <<FarMac>>), Csnd(S1, <<1>>), [k |-> "drcv", sid |-> S1],
           Cget(S1, <<pDstMac>>) } \union { Cinit(S1, t) : t \in SessionTypes }
    [] Scenario = "ranging" ->
         { Cinit(S1, 1), Cof("deinit", S1), Cof("start", S1), Cof("stop", S1), Cof("rcount", S1), C0("reset") }
         \union (IF h = 0 THEN { Cset(S1, Controller(h, <<M(1), FarMac>>)), Csnd(S1, <<1>>) }
                 ELSE { Cset(S1, Controlee(h, <<M(0)>>)), Cset(S1, Full(1, 0, M(h), <<M(0)>>, 0, <<>>)) })
    [] Scenario = "mcast" ->
         IF h = 0 THEN { Cmc(S1, 0, <<M(1)>>), Cmc(S1, 0, <<M(1), FarMac>>), Cmc(S1, 1, <<M(1)>>), Cmc(S1, 1, <<FarMac, M(1)>>),
                         Cmc(S1, 1, <<M(1), M(1)>>), Cmc(S1, 2, <<M(1)>>), Cmc(S1, 3, <<FarMac>>), [Cmc(S1, 0, <<M(1)>>) EXCEPT !.body = Append(@, 0)],
                         Cof("start", S1), Cof("stop", S1), Cget(S1, <<pNumCtl, pDstMac>>), Cof("state", S1),
                         Cset(S1, <<T(pAttempts, <<0>>)>>), Cset(S1, <<T(pAttempts, <<3>>)>>), Cset(S1, <<T(pStsConfig, <<4>>)>>) }
         ELSE { Cof("start", S1), Cof("stop", S1), Cof("state", S1) }
    [] Scenario = "inband" ->
         IF h = 0 THEN { Cmc(S1, 1, <<M(1)>>), Cmc(S1, 1, <<M(1), M(2)>>), Cmc(S1, 0, <<M(1), M(2)>>), Cof("start", S1), Cof("stop", S1) }
         ELSE { Cof("start", S1), Cof("stop", S1) } \union (IF h = 1 THEN { Cof("start", S2), Cof("stop", S2) } ELSE {})
    [] Scenario = "config" ->
         { Cinit(S1, 0), Cof("deinit", S1), Cof("start", S1), Cof("stop", S1),
           Cset(S1, Controller(h, <<M(1)>>)), Cset(S1, SubSeq(Controller(h, <<M(1)>>), 1, 4)),
           Cset(S1, <<T(pDuration, <<1, 0, 0, 48>>)>>), Cset(S1, <<T(pDuration, <<2, 0, 0, 48>>), T(pMultiNode, <<9>>)>>),
           Cset(S1, <<T(pAoaResultReq, <<2>>)>>), Cset(S1, <<T(pNtfConfig, <<2>>), T(pAoaResultReq, <<0>>)>>),
           Cset(S1, <<T(pNumCtl, <<2>>), T(pDstMac, <<1, 2, 3, 4>>)>>), Cset(S1, <<T(pMacMode, <<2>>), T(pDevMac, <<1, 2, 3, 4, 5, 6, 7, 8>>)>>),
           Cset(S1, <<T(pDevMac, <<9, 9>>)>>), Cset(S1, <<T(99, <<1>>)>>), Cset(S1, Append(Controller(h, <<M(1)>>), T(pMacMode, <<1>>))),
           Cset(S1, <<>>),
           Cget(S1, <<pDuration, pNtfConfig, pAoaResultReq>>), Cget(S1, <<pNumCtl, pDstMac, pMacMode>>), Cget(S1, <<pDevMac>>), Cget(S1, <<99>>) }
    [] Scenario = "scene" -> { C0("reset"), C0("devinfo") }
    [] Scenario = "data" ->
         IF h = 0 THEN { Csnd(S1, <<>>), Csnd(S1, <<1>>), Csnd(S1, <<2, 3>>), Cof("start", S1), Cof("stop", S1), Cof("deinit", S1),
                         Cinit(S1, 1), Cset(S1, Controller(h, <<M(1)>>)), Csnd(S2, <<4>>) }
         ELSE { Cof("start", S1), Cof("stop", S1) } \union (IF Emitting THEN {} ELSE { Csnd(S1, <<9>>) })
    [] OTHER -> {}

(* Initial states: the given number of devices, some sessions already set up. *)
RECURSIVE Do(_, _)
Do(s, cmds) == IF cmds = <<>> THEN s ELSE Do(Drain(Message(s, cmds[1][1], cmds[1][2])), Tail(cmds))
RECURSIVE Plug(_, _)
Plug(s, n) == IF n = 0 THEN s ELSE Plug(Connect(s), n - 1)
Ready(h, sid, t, tlvs) == << <<h, Cinit(sid, t)>>, <<h, Cset(sid, tlvs)>> >>
Setup ==
  CASE Scenario \in {"sessions", "scene"} -> [n |-> 1, cmds |-> <<>>]
    [] Scenario \in {"types", "config"} -> [n |-> 1, cmds |-> << <<0, C0("reset")>> >>]
    [] Scenario = "ranging" -> [n |-> 2, cmds |-> << <<0, C0("reset")>>, <<1, C0("reset")>> >>]
    [] Scenario = "mcast" ->
         [n |-> 2, cmds |-> << <<0, C0("reset")>>, <<1, C0("reset")>> >>
             \o Ready(0, S1, 0, Controller(0, << <<1, 1>>, <<1, 2>>, <<1, 3>>, <<1, 4>>, <<1, 5>>, <<1, 6>>, M(1) >>))
             \o Ready(1, S1, 0, Controlee(1, <<M(0)>>))]
    [] Scenario = "inband" ->
         [n |-> 3, cmds |-> << <<0, C0("reset")>>, <<1, C0("reset")>>, <<2, C0("reset")>> >>
             \o Ready(0, S1, 0, Controller(0, <<M(1), M(2)>>)) \o Ready(1, S1, 0, Controlee(1, <<M(0)>>))
             \o Ready(1, S2, 0, Controlee(1, <<M(0)>>))
             \o Ready(2, S1, 0, Controlee(IF Emitting THEN 1 ELSE 2, <<M(0)>>))]
    [] Scenario = "data" ->
         [n |-> 3, cmds |-> << <<0, C0("reset")>>, <<1, C0("reset")>>, <<2, C0("reset")>> >>
             \o Ready(0, S1, 1, Controller(0, <<M(1)>>)) \o Ready(1, S1, 1, Controlee(1, <<M(0)>>))
             \o Ready(2, S1, 1, Controlee(2, <<M(0)>>))]

MaxConns == IF Scenario = "scene" THEN 4 ELSE IF Scenario = "ranging" THEN 2 ELSE Setup.n
AnchorMacs == CASE Scenario = "scene" -> { M(1), M(2), FarMac } [] Scenario = "ranging" -> {FarMac} [] OTHER -> {}
Leaving == Scenario \in {"scene", "ranging"}
MaxHandle == IF Scenario = "scene" THEN 5 ELSE 3

Blank(s) == [s EXCEPT !.out = <<>>, !.ev = <<>>, !.rep = <<>>, !.why = ""]
Stripped(s) == [s EXCEPT !.conns = <<>>]

(* Timing plays no role here, and the order of the connections neither. *)
Timeless(s) == [s EXCEPT !.devs = [h \in DOMAIN s.devs |-> [s.devs[h] EXCEPT !.sess =
                 [x \in DOMAIN s.devs[h].sess |-> [s.devs[h].sess[x] EXCEPT !.due = 0, !.per = 0]]]]]
View == Timeless(Blank([st EXCEPT !.conns = <<>>]))

Init == /\ st = Blank(Do(Plug(InitState(0), Setup.n), Setup.cmds))
        /\ lab = [k |-> "init"]
        /\ Emitting => PrintT("@SETUP " \o ToJson([n |-> Setup.n, cmds |-> Setup.cmds, s |-> TLCFP(View)]))

(* The queue of the emulator is strictly served in order, but the moment an     *)
(* in-band stop gets into the queue is not determined (for the tours it is      *)
(* served at once, as it is when nothing else happens in the meantime).         *)
Cmd(h) == \E c \in Repertoire(h) :
            /\ st' = IF Emitting THEN Drain(Message(Blank(st), h, c)) ELSE Message(Blank(st), h, c)
            /\ lab' = [k |-> "cmd", h |-> h, c |-> c]
Stop == /\ st.pend # <<>>
        /\ LET p == st.pend[1] IN st' = InBandStop([Blank(st) EXCEPT !.pend = Tail(@)], p.mac, p.sid)
        /\ lab' = [k |-> "stop"]
(* A round falls due, or fell due before the session was stopped or ended. *)
Tick(h) == \E sid \in {S1, S2} :
            /\ Scenario \notin {"scene", "config"}
            /\ HasSess(st, h, sid) => Sess(st, h, sid).seq < (IF Emitting THEN 1 ELSE 2)
            /\ st' = Round(Blank(st), h, sid)
            /\ lab' = [k |-> "tick", h |-> h, sid |-> sid]
Plug1 == /\ Scenario = "scene" /\ Cardinality(DOMAIN st.devs) < 3 /\ st.ctr < MaxHandle
         /\ st' = Connect(Blank(st))
         /\ lab' = [k |-> "conn"]
Unplug(h) == /\ Leaving
             /\ st' = Disconnect(Blank(st), h)
             /\ lab' = [k |-> "leave", h |-> h]
Anchor == \E m \in AnchorMacs :
            \/ /\ st.ctr < MaxHandle
               /\ st' = CreateAnchor(Blank(st), m)
               /\ lab' = [k |-> "anc", m |-> m]
            \/ /\ st' = DestroyAnchor(Blank(st), m)
               /\ lab' = [k |-> "and", m |-> m]

Next == \/ \E h \in DOMAIN st.devs : Cmd(h) \/ Tick(h) \/ Unplug(h)
        \/ Stop \/ Plug1 \/ Anchor

Spec == Init /\ [][Next]_vars

Small == Len(st.pend) <= 2 /\ \A h \in DOMAIN st.devs : \A s \in DOMAIN st.devs[h].sess : Len(st.devs[h].sess[s].data) <= IF Emitting THEN 1 ELSE 3
(* Written out for the transition tours. *)
Edges == Emitting => PrintT("@EDGE " \o ToJson([s |-> TLCFP(View), a |-> lab', d |-> TLCFP(View')]))

----------------------------------------------------------------------------
(* Properties.  They refer to st, st' and what is sent in between (st'.out). *)

Out == st'.out
To(h) == SeqFilter(Out, LAMBDA o : o.h = h)
OfClass(s, cls) == SeqFilter(s, LAMBDA o : o.cls = cls)
IsCmd == lab'.k = "cmd"
IsControl == IsCmd /\ lab'.c.k \notin {"dsnd", "drcv"}
Me == lab'.h
Kept(h) == h \in DOMAIN st.devs /\ h \in DOMAIN st'.devs
Sessions(s, h) == s.devs[h].sess
StatusOf == OfClass(To(Me), "rsp")[1].m.pl[1]

(* C02 *)
OneResponse ==
  [][IsControl =>
       /\ \A h \in DOMAIN st.devs \ {Me} : OfClass(To(h), "rsp") = <<>>
       /\ IF st.devs[Me].rst \/ lab'.c.k \in {"reset", "nogroup"}
          THEN /\ Len(OfClass(To(Me), "rsp")) = 1 /\ To(Me)[1].cls = "rsp"
               /\ LET m == To(Me)[1].m IN
                  m.h1 \div 32 = mtRsp /\ <<m.h1 % 32, m.h2>> =
                    (IF lab'.c.k \in DOMAIN RspTo THEN RspTo[lab'.c.k] ELSE <<lab'.c.gid, lab'.c.oid>>)
          ELSE OfClass(To(Me), "rsp") = <<>>]_vars
NoUnaskedResponse == [][~IsControl => OfClass(Out, "rsp") = <<>>]_vars

(* C03 *)
Gate ==
  [][IsControl /\ ~st.devs[Me].rst /\ lab'.c.k \notin {"reset", "nogroup"} =>
       /\ Blank(st') = Blank(st)
       /\ Len(Out) = 1 /\ Out[1].h = Me /\ Out[1].m = DeviceNtf(dsError)]_vars
ResetFresh ==
  [][IsCmd /\ lab'.c.k = "reset" =>
       /\ st'.devs[Me] = [NewDevice(st.devs[Me].mac) EXCEPT !.rst = TRUE]
       /\ StatusOf = sOk
       /\ LET n == OfClass(To(Me), "dst") IN Len(n) = 1 /\ n[1].m = DeviceNtf(dsReady)
       /\ \A s \in DOMAIN Sessions(st, Me) :
            \E i \in DOMAIN Out : Out[i].h = Me /\ Out[i].m = StatusNtf(s, ssDeinit, rCommand)
       /\ \A h \in DOMAIN st.devs \ {Me} : st'.devs[h] = st.devs[h]]_vars

(* C04 *)
Became(h, s, a, b) ==
  Kept(h) /\ s \in DOMAIN Sessions(st, h) /\ s \in DOMAIN Sessions(st', h)
  /\ Sessions(st, h)[s].state = a /\ Sessions(st', h)[s].state = b
CmdIs(h, k, s) == IsCmd /\ Me = h /\ lab'.c.k = k /\ lab'.c.sid = s
StateMachine ==
  [][\A h \in DOMAIN st.devs : Kept(h) =>
      /\ \A s \in DOMAIN Sessions(st, h) \intersect DOMAIN Sessions(st', h) :
           LET a == Sessions(st, h)[s].state  b == Sessions(st', h)[s].state IN
           a # b => \/ a = ssInit /\ b = ssIdle /\ CmdIs(h, "setapp", s)
                    \/ a = ssIdle /\ b = ssActive /\ CmdIs(h, "start", s)
                    \/ a = ssActive /\ b = ssIdle /\ (CmdIs(h, "stop", s) \/ CmdIs(h, "mcast", s) \/ lab'.k = "stop")
      /\ \A s \in DOMAIN Sessions(st, h) \ DOMAIN Sessions(st', h) :
           CmdIs(h, "deinit", s) \/ (IsCmd /\ Me = h /\ lab'.c.k = "reset")
      /\ \A s \in DOMAIN Sessions(st', h) \ DOMAIN Sessions(st, h) :
           CmdIs(h, "init", s) /\ Sessions(st', h)[s] = NewSession(lab'.c.type)]_vars
Refusals ==
  [][IsCmd /\ lab'.c.k \in {"deinit", "setapp", "getapp", "state", "mcast", "start", "stop", "rcount"} /\ st.devs[Me].rst =>
       IF lab'.c.sid \notin DOMAIN Sessions(st, Me)
       THEN StatusOf = sNotExist /\ Blank(st') = Blank(st)
       ELSE LET a == Sessions(st, Me)[lab'.c.sid].state IN
            /\ lab'.c.k = "start" => (StatusOf = IF a = ssIdle THEN sOk ELSE sNotConfigured)
            /\ lab'.c.k = "stop" => (StatusOf = IF a = ssActive THEN sOk ELSE sActive)
            /\ lab'.c.k = "state" => (StatusOf = sOk /\ To(Me)[1].m.pl[2] = a)
            /\ StatusOf # sOk /\ lab'.c.k # "mcast" => Blank(st') = Blank(st)]_vars

(* C05 *)
Table ==
  [][IsCmd /\ st.devs[Me].rst =>
       /\ lab'.c.k = "init" =>
            IF lab'.c.sid \in DOMAIN Sessions(st, Me)
            THEN StatusOf = sDuplicate /\ Blank(st') = Blank(st)
            ELSE StatusOf = sOk /\ DOMAIN Sessions(st', Me) = DOMAIN Sessions(st, Me) \union {lab'.c.sid}
       /\ lab'.c.k = "deinit" /\ lab'.c.sid \in DOMAIN Sessions(st, Me) =>
            StatusOf = sOk /\ Sessions(st', Me) = Without(Sessions(st, Me), lab'.c.sid)
       /\ lab'.c.k = "count" => To(Me)[1].m.pl = <<sOk, Cardinality(DOMAIN Sessions(st, Me))>>]_vars

(* C06 *)
OneNotification ==
  [][\A h \in DOMAIN st'.devs : Kept(h) =>
      LET n == OfClass(To(h), "sst")
          old == Sessions(st, h)  new == Sessions(st', h)
          reason == CASE lab'.k = "stop" -> rInBand
                      [] IsCmd /\ lab'.c.k = "mcast" -> rNoControlee
                      [] OTHER -> rCommand
          expected == { StatusNtf(s, new[s].state, reason) : s \in { x \in DOMAIN new : x \notin DOMAIN old \/ old[x].state # new[x].state } }
                      \union { StatusNtf(s, ssDeinit, rCommand) : s \in DOMAIN old \ DOMAIN new }
      IN { n[i].m : i \in DOMAIN n } = expected /\ Len(n) = Cardinality(expected)]_vars

(* C07 *)
DeviceState == \A h \in DOMAIN st.devs :
  st.devs[h].state = IF ActiveSessions(st.devs[h]) = {} THEN dsReady ELSE dsActive
DeviceNotified ==
  [][\A h \in DOMAIN st'.devs :
      LET n == OfClass(To(h), "dst")
          due == ~Kept(h) \/ (IsCmd /\ Me = h /\ lab'.c.k = "reset") \/ st.devs[h].state # st'.devs[h].state
      IN IF due THEN Len(n) = 1 /\ n[1].m = DeviceNtf(st'.devs[h].state) ELSE n = <<>>]_vars

(* C08 *)
AllOrNothing ==
  [][IsCmd /\ lab'.c.k = "setapp" /\ HasSess(st, Me, lab'.c.sid) =>
      LET s == Sess(st, Me, lab'.c.sid)
          all == SetAll(s.cfg, lab'.c.tlvs)
          apply == /\ s.type \in {0, 1} /\ s.state \in {ssInit, ssActive}
                   /\ all.bad = <<>> /\ Complete(all.cfg)
                   /\ ~(s.state = ssActive /\ \E i \in DOMAIN lab'.c.tlvs : lab'.c.tlvs[i].id = pAoaResultReq)
      IN /\ apply = (StatusOf = sOk)
         /\ Sess(st', Me, lab'.c.sid).cfg = IF apply THEN all.cfg ELSE s.cfg
         /\ Sess(st', Me, lab'.c.sid).state = IF apply /\ s.state = ssInit THEN ssIdle ELSE s.state]_vars
(* A configuration changes only by these two commands on the very session. *)
ConfigStable ==
  [][\A h \in DOMAIN st.devs : Kept(h) => \A s \in DOMAIN Sessions(st, h) \intersect DOMAIN Sessions(st', h) :
       Sessions(st, h)[s].cfg # Sessions(st', h)[s].cfg => CmdIs(h, "setapp", s) \/ CmdIs(h, "mcast", s)]_vars

(* C09 *)
ReadsBack ==
  [][IsCmd /\ lab'.c.k = "getapp" /\ HasSess(st, Me, lab'.c.sid) =>
      LET s == Sess(st, Me, lab'.c.sid)
          can == \A i \in DOMAIN lab'.c.ids : lab'.c.ids[i] \in Supported /\ IsSet(s.cfg, lab'.c.ids[i])
          pl == To(Me)[1].m.pl
      IN /\ Blank(st') = Blank(st)
         /\ IF can
            THEN LET r == TlvsFrom(pl, 3, pl[2], <<>>) IN
                 /\ pl[1] = sOk /\ r.ok /\ Len(r.t) = Len(lab'.c.ids)
                 /\ \A i \in DOMAIN r.t : r.t[i].id = lab'.c.ids[i]
                      /\ (r.t[i].id # pDstMac => r.t[i].v = Get(s.cfg, r.t[i].id))
                      /\ (r.t[i].id = pDstMac => r.t[i].v = Flat(DstList(s.cfg)))
            ELSE pl = <<sFailed, 0>>]_vars

(* C10 *)
Rounds10 ==
  [][\A h \in DOMAIN st'.devs : Kept(h) =>
      LET n == OfClass(To(h), "sin") IN
      /\ n # <<>> => /\ lab'.k = "tick" /\ lab'.h = h /\ Len(n) = 1
                     /\ Sess(st, h, lab'.sid).state = ssActive
                     /\ SubSeq(n[1].m.pl, 1, 8) = LE32(Sess(st, h, lab'.sid).seq) \o lab'.sid
      /\ \A s \in DOMAIN Sessions(st, h) \intersect DOMAIN Sessions(st', h) :
           Sessions(st', h)[s].seq = Sessions(st, h)[s].seq + (IF n # <<>> /\ lab'.sid = s THEN 1 ELSE 0)
      /\ lab'.k = "tick" /\ lab'.h = h /\ HasSess(st, h, lab'.sid) /\ Sess(st, h, lab'.sid).state = ssActive
           /\ Get1(Sess(st, h, lab'.sid).cfg, pNtfConfig) # 0 => n # <<>>]_vars
StaleRound ==
  [][lab'.k = "tick" /\ (HasSess(st, lab'.h, lab'.sid) => Sess(st, lab'.h, lab'.sid).state # ssActive)
       => Blank(st') = Blank(st) /\ Out = <<>>]_vars

(* C11 *)
AddressOf(s, h, sid) == s.devs[h].sess[sid].cfg[pDevMac]
Measured ==
  [][\A i \in DOMAIN Out : Out[i].cls = "sin" =>
      LET h == lab'.h  sid == lab'.sid
          s == Sess(st, h, sid)
          anchors == { m \in DOMAIN st.anch : InSeq(m, DstList(s.cfg)) }
          peers == { o \in DOMAIN st.devs : /\ o # h /\ HasSess(st, o, sid)
                       /\ LET p == Sess(st, o, sid) IN
                          /\ p.state = ssActive
                          /\ Get1(p.cfg, pRole) # Get1(s.cfg, pRole)
                          /\ Get1(p.cfg, pDeviceType) # Get1(s.cfg, pDeviceType)
                          /\ InSeq(AddressOf(st, o, sid), DstList(s.cfg))
                          /\ InSeq(AddressOf(st, h, sid), DstList(p.cfg)) }
          got == { SubSeq(Out[i].m.blocks[j], 1, 2) : j \in DOMAIN Out[i].m.blocks }
      IN /\ got = anchors \union { AddressOf(st, o, sid) : o \in peers }
         /\ Len(Out[i].m.blocks) = Cardinality(anchors) + Cardinality(peers)]_vars

(* C12 *)
Delivery ==
  [][LET d == OfClass(Out, "drv") IN
     /\ d # <<>> => lab'.k = "tick"
     /\ lab'.k = "tick" /\ HasSess(st, lab'.h, lab'.sid) /\ Sess(st, lab'.h, lab'.sid).state = ssActive =>
          LET s == Sess(st, lab'.h, lab'.sid)
              rcv == IF s.type = 1 /\ Get1(s.cfg, pRole) = 1
                     THEN { o \in DOMAIN st.devs : o # lab'.h /\ HasSess(st, o, lab'.sid) /\ Sess(st, o, lab'.sid).state = ssActive
                              /\ Sess(st, o, lab'.sid).type = 1 /\ Get1(Sess(st, o, lab'.sid).cfg, pRole) = 0 }
                     ELSE {}
          IN /\ { d[i].h : i \in DOMAIN d } = rcv /\ Len(d) = Cardinality(rcv)
             /\ \A i \in DOMAIN d : d[i].m.pl = lab'.sid \o <<0>> \o (s.cfg[pDevMac] \o Zeros(6)) \o <<1, 0>> \o LE16(Len(s.data)) \o s.data
             /\ Sess(st', lab'.h, lab'.sid).data = <<>>]_vars
Acknowledged ==
  [][IsCmd /\ lab'.c.k = "dsnd" =>
      /\ Len(Out) = 1 /\ Out[1].h = Me
      /\ IF HasSess(st, Me, lab'.c.sid) /\ Sess(st, Me, lab'.c.sid).type = 1
         THEN /\ Out[1].m = CreditNtf(lab'.c.sid)
              /\ Sess(st', Me, lab'.c.sid).data = Sess(st, Me, lab'.c.sid).data \o lab'.c.data
         ELSE /\ Out[1].cls = "dts" /\ Blank(st') = Blank(st)]_vars

(* C13 *)
Lists == \A h \in DOMAIN st.devs : \A s \in DOMAIN st.devs[h].sess :
  LET cfg == st.devs[h].sess[s].cfg IN
  Scenario \in {"mcast", "inband"} => /\ Get1(cfg, pNumCtl) = Len(DstList(cfg))
                          /\ Len(DstList(cfg)) <= MaxControlees
                          /\ Cardinality({ DstList(cfg)[i] : i \in DOMAIN DstList(cfg) }) = Len(DstList(cfg))
EmptyStops ==
  [][IsCmd /\ lab'.c.k = "mcast" /\ HasSess(st, Me, lab'.c.sid) =>
      LET s == Sess(st, Me, lab'.c.sid)  t == Sess(st', Me, lab'.c.sid)
          n == OfClass(To(Me), "mcn")
      IN /\ DstList(t.cfg) = <<>> /\ s.state = ssActive => t.state = ssIdle
         /\ (n # <<>>) = (s.state = ssActive /\ lab'.c.act = 1 /\ StatusOf \notin {sRejected, sSyntax})
         /\ StatusOf \in {sRejected, sSyntax} => Blank(st') = Blank(st)
         /\ (s.state \notin {ssActive, ssIdle}) => StatusOf = sRejected]_vars

(* C14 *)
StopsOnly ==
  [][lab'.k = "stop" =>
      LET p == st.pend[1] IN
      \A h \in DOMAIN st.devs : \A s \in DOMAIN Sessions(st, h) :
        LET hit == s = p.sid /\ Sessions(st, h)[s].state = ssActive /\ AddressOf(st, h, s) = p.mac IN
        Sessions(st', h)[s] = IF hit THEN [Sessions(st, h)[s] EXCEPT !.state = ssIdle] ELSE Sessions(st, h)[s]]_vars
StopsAsked ==
  [][(Len(st'.pend) > Len(st.pend)) =>
      IsCmd /\ lab'.c.k = "mcast" /\ lab'.c.act = 1 /\ Get1(Sess(st, Me, lab'.c.sid).cfg, pAttempts) # 0
      /\ \A i \in (Len(st.pend) + 1)..Len(st'.pend) :
           /\ st'.pend[i].sid = lab'.c.sid
           /\ InSeq(st'.pend[i].mac, DstList(Sess(st, Me, lab'.c.sid).cfg))
           /\ ~InSeq(st'.pend[i].mac, DstList(Sess(st', Me, lab'.c.sid).cfg))]_vars

(* C16 *)
Addresses ==
  /\ \A a, b \in DOMAIN st.devs : a # b => st.devs[a].mac # st.devs[b].mac
  /\ \A a \in DOMAIN st.devs : st.devs[a].mac \notin DOMAIN st.anch
  /\ \A a \in DOMAIN st.devs : a < st.ctr
  /\ \A m \in DOMAIN st.anch : st.anch[m] < st.ctr /\ st.anch[m] \notin DOMAIN st.devs
  /\ \A m, n \in DOMAIN st.anch : m # n => st.anch[m] # st.anch[n]
FreshHandles ==
  [][/\ \A h \in DOMAIN st'.devs \ DOMAIN st.devs : h >= st.ctr
     /\ \A m \in DOMAIN st'.anch : (m \notin DOMAIN st.anch \/ st'.anch[m] # st.anch[m]) => st'.anch[m] >= st.ctr
     /\ st'.ctr >= st.ctr]_vars
AnchorReplies ==
  [][/\ lab'.k = "anc" =>
          IF AddressUsed(st, lab'.m) THEN st'.rep = <<<<0, 0>>>> /\ Blank(st') = Blank(st)
          ELSE lab'.m \in DOMAIN st'.anch /\ st'.rep = << <<1, st'.anch[lab'.m]>> >>
     /\ lab'.k = "and" =>
          IF lab'.m \in DOMAIN st.anch THEN lab'.m \notin DOMAIN st'.anch /\ st'.rep = << <<1, st.anch[lab'.m]>> >>
          ELSE st'.rep = <<<<2, 0>>>> /\ Blank(st') = Blank(st)]_vars

(* C17 *)
Announced ==
  [][LET came == DOMAIN st'.devs \ DOMAIN st.devs
         went == DOMAIN st.devs \ DOMAIN st'.devs
     IN /\ { st'.ev[i] : i \in DOMAIN st'.ev } =
             { <<1, h, st'.devs[h].mac>> : h \in came } \union { <<0, h, st.devs[h].mac>> : h \in went }
        /\ Len(st'.ev) = Cardinality(came) + Cardinality(went)
        /\ lab'.k = "leave" => \A h \in DOMAIN st.devs \ {lab'.h} : st'.devs[h] = st.devs[h]
        /\ \A h \in came : ~st'.devs[h].rst /\ st'.devs[h].sess = NoSessions]_vars

(* C22 *)
CoreConfig ==
  [][IsCmd /\ st.devs[Me].rst /\ lab'.c.k \in {"getcore", "setcore", "devinfo"} =>
      /\ lab'.c.k = "getcore" => To(Me)[1].m.pl = <<0, 2, 0, 1, st.devs[Me].state, 1, 1, st.devs[Me].lpm>>
      /\ lab'.c.k = "setcore" =>
           IF st.devs[Me].state = dsActive THEN StatusOf = sRejected /\ Blank(st') = Blank(st)
           ELSE StatusOf = sOk /\ st'.devs[Me].lpm = 0
      /\ lab'.c.k # "setcore" => Blank(st') = Blank(st)]_vars

(* C24 *)
Isolated ==
  [][/\ IsCmd => \A h \in DOMAIN st.devs \ {Me} : st'.devs[h] = st.devs[h] /\ To(h) = <<>>
     /\ lab'.k = "tick" => /\ \A h \in DOMAIN st.devs \ {lab'.h} : st'.devs[h] = st.devs[h]
                           /\ \A i \in DOMAIN Out : Out[i].h # lab'.h => Out[i].cls = "drv"
     /\ lab'.k = "stop" => \A i \in DOMAIN Out : Out[i].cls \in {"sst", "dst"}]_vars

(* C01: every command has an effect the specification defines (the evaluation   *)
(* of Next would fail otherwise), and nobody but the one who leaves is removed. *)
OnlyLeaversLeave == [][\A h \in DOMAIN st.devs : h \notin DOMAIN st'.devs => lab'.k = "leave" /\ lab'.h = h]_vars
=============================================================================
