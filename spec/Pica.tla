-------------------------------- MODULE Pica --------------------------------
(* The pica UWB emulator: state, transitions, and what each transition sends.  *)
(*                                                                             *)
(* The transition functions are pure (state -> state); the packets, events and *)
(* replies a transition produces are appended to st.out / st.ev / st.rep.      *)
(* PicaMC.tla turns them into a next-state relation and checks the properties  *)
(* exhaustively; PicaTrace.tla replays recorded executions of the real code    *)
(* through the very same functions.                                            *)
EXTENDS UciMsg

(* Session states *)
ssInit == 0  ssDeinit == 1  ssActive == 2  ssIdle == 3
(* Device states *)
dsReady == 1  dsActive == 2  dsError == 255
(* Reasons *)
rCommand == 0  rInBand == 5  rNoControlee == 51

MaxSessions == 255
MaxControlees == 8
MaxData == 65535

(* Session: type, state, notifications sent, parameters, pending data, ranging  *)
(* period and time of the next round (meaningful while ACTIVE).                 *)
NewSession(type) ==
  [type |-> type, state |-> ssInit, seq |-> 0, cfg |-> NoCfg, data |-> <<>>, per |-> 0, due |-> 0]

NoSessions == [x \in {} |-> <<>>]

(* Device: reset seen, device state, low power mode, own address, sessions.     *)
NewDevice(mac) ==
  [rst |-> FALSE, state |-> dsReady, lpm |-> 1, mac |-> mac, sess |-> NoSessions]

(* Connection of a device.  rd: the control message being reassembled (empty    *)
(* between messages).  buf: octets read that do not make up a packet yet.       *)
(* link: "up"; "cut" when the host no longer receives, which the emulator only  *)
(* finds out when it next writes ("lost").                                      *)
NewConn == [rd |-> <<>>, buf |-> <<>>, link |-> "up"]

(* The whole system.                                                            *)
(*   ctr         next handle               now    time in milliseconds          *)
(*   devs, conn  devices and their connections, by handle                       *)
(*   conns       handles in the order of the connections                        *)
(*   anch        handle of each anchor, by address                              *)
(*   pend        in-band stops on their way to the controlees                   *)
(*   why         what is being processed (labels the outputs)                   *)
(*   slow            connections whose host does not read for now               *)
(*   out, ev, rep    packets, events and anchor replies produced                *)
(*   salt, geo   the ranging estimator (see Est)                                *)
InitState(salt) ==
  [ctr |-> 0, now |-> 0, salt |-> salt, geo |-> [x \in {} |-> <<>>], devs |-> [h \in {} |-> <<>>], conn |-> [h \in {} |-> <<>>],
   conns |-> <<>>, anch |-> [m \in {} |-> 0], pend |-> <<>>, why |-> "",
   slow |-> {}, out |-> <<>>, ev |-> <<>>, rep |-> <<>>]

Emit(st, h, cls, msg) ==
  CASE h \notin DOMAIN st.devs -> st
    [] st.conn[h].link = "up" ->
         [st EXCEPT !.out = Append(@, [h |-> h, cls |-> cls, m |-> msg, why |-> st.why])]
    [] OTHER -> [st EXCEPT !.conn[h].link = "lost"]
Event(st, up, h, mac) == [st EXCEPT !.ev = Append(@, <<up, h, mac>>)]
Reply(st, r) == [st EXCEPT !.rep = Append(@, r)]

HasSess(st, h, sid) == h \in DOMAIN st.devs /\ sid \in DOMAIN st.devs[h].sess
Sess(st, h, sid) == st.devs[h].sess[sid]
ActiveSessions(d) == { s \in DOMAIN d.sess : d.sess[s].state = ssActive }

(* The MAC address that goes with a handle. *)
MacOf(h) == << (h \div 256) % 256, h % 256 >>
AddressUsed(st, mac) == mac \in DOMAIN st.anch \/ \E h \in DOMAIN st.devs : st.devs[h].mac = mac

----------------------------------------------------------------------------
(* State changes with their notifications *)

SetSess(st, h, sid, new, reason) ==
  IF Sess(st, h, sid).state = new THEN st
  ELSE Emit([st EXCEPT !.devs[h].sess[sid].state = new], h, "sst", StatusNtf(sid, new, reason))

(* The device is ACTIVE iff it has an active session; tell the host of a change. *)
SyncDevice(st, h) ==
  LET want == IF ActiveSessions(st.devs[h]) = {} THEN dsReady ELSE dsActive IN
  IF st.devs[h].state = want THEN st
  ELSE Emit([st EXCEPT !.devs[h].state = want], h, "dst", DeviceNtf(want))

(* A session ends: reported as DEINIT, and gone. *)
EndSession(st, h, sid) ==
  LET s1 == Emit(st, h, "sst", StatusNtf(sid, ssDeinit, rCommand)) IN
  SyncDevice([s1 EXCEPT !.devs[h].sess = Without(@, sid)], h)

RECURSIVE EndAll(_, _, _)
EndAll(st, h, sids) ==
  IF sids = {} THEN st
  ELSE LET s == CHOOSE x \in sids : TRUE IN
       EndAll(Emit(st, h, "sst", StatusNtf(s, ssDeinit, rCommand)), h, sids \ {s})

----------------------------------------------------------------------------
(* Commands.  Each answers exactly once, before any notification. *)

Ans(st, h, k, pl) == Emit(st, h, "rsp", Answer(k, pl))

(* The READY notification of a reset is sent even if the device was READY. *)
Reset(st, h) ==
  LET d == st.devs[h]
      s1 == Ans(st, h, "reset", <<sOk>>)
      s2 == EndAll(s1, h, DOMAIN d.sess)
      s3 == [s2 EXCEPT !.devs[h] = [NewDevice(d.mac) EXCEPT !.rst = TRUE]]
  IN Emit(s3, h, "dst", DeviceNtf(dsReady))

SetCore(st, h, c) ==
  IF st.devs[h].state # dsReady THEN Ans(st, h, "setcore", <<sRejected, 0>>)
  ELSE
  LET RECURSIVE Go(_, _, _)
      Go(i, lpm, bad) ==
        IF i > Len(c.tlvs) THEN [lpm |-> lpm, bad |-> bad]
        ELSE LET t == c.tlvs[i] IN
          CASE t.id = 0 -> Go(i + 1, lpm, Append(bad, <<0, sReadOnly>>))
            [] t.id = 1 -> Go(i + 1, IF t.v = <<>> \/ t.v[1] # 0 THEN 1 ELSE 0, bad)
            [] OTHER -> Go(i + 1, lpm, Append(bad, <<t.id, sInvalidParam>>))
      r == Go(1, st.devs[h].lpm, <<>>)
  IN Ans([st EXCEPT !.devs[h].lpm = r.lpm], h, "setcore",
         <<IF r.bad = <<>> THEN sOk ELSE sInvalidParam, Len(r.bad)>> \o Flat(r.bad))

GetCore(st, h, c) ==
  LET unknown == SeqFilter(c.ids, LAMBDA i : i > 1)
      val(i) == IF i = 0 THEN st.devs[h].state ELSE st.devs[h].lpm
  IN IF unknown # <<>>
     THEN Ans(st, h, "getcore", <<sInvalidParam, Len(unknown)>> \o Flat([i \in DOMAIN unknown |-> <<unknown[i], 0>>]))
     ELSE Ans(st, h, "getcore", <<sOk, Len(c.ids)>> \o Flat([i \in DOMAIN c.ids |-> <<c.ids[i], 1, val(c.ids[i])>>]))

SessInit(st, h, c) ==
  LET ss == st.devs[h].sess IN
  IF Cardinality(DOMAIN ss) >= MaxSessions THEN Ans(st, h, "init", <<sMaxSessions>>)
  ELSE IF c.sid \in DOMAIN ss THEN Ans(st, h, "init", <<sDuplicate>>)
  ELSE LET s1 == Ans(st, h, "init", <<sOk>>) IN
       Emit([s1 EXCEPT !.devs[h].sess = (c.sid :> NewSession(c.type)) @@ @],
            h, "sst", StatusNtf(c.sid, ssInit, rCommand))

SessDeinit(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "deinit", <<sNotExist>>)
  ELSE EndSession(Ans(st, h, "deinit", <<sOk>>), h, c.sid)

SessCount(st, h) == Ans(st, h, "count", <<sOk, Cardinality(DOMAIN st.devs[h].sess)>>)

SessState(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "state", <<sNotExist, ssInit>>)
  ELSE Ans(st, h, "state", <<sOk, Sess(st, h, c.sid).state>>)

SetApp(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "setapp", <<sNotExist, 0>>)
  ELSE
  LET s == Sess(st, h, c.sid)
      r == SetAll(s.cfg, c.tlvs)
  IN CASE s.type \notin {0, 1} -> Ans(st, h, "setapp", <<sRejected, 0>>)
       [] s.state = ssActive /\ \E i \in DOMAIN c.tlvs : c.tlvs[i].id = pAoaResultReq ->
            Ans(st, h, "setapp", <<sActive, 0>>)
       [] s.state \notin {ssInit, ssActive} -> Ans(st, h, "setapp", <<sRejected, 0>>)
       [] ~Complete(r.cfg) -> Ans(st, h, "setapp", <<sRejected, 0>>)
       [] r.bad # <<>> ->
            Ans(st, h, "setapp", <<sInvalidParam, Len(r.bad)>>
                \o Flat([i \in DOMAIN r.bad |-> <<r.bad[i], sInvalidParam>>]))
       [] OTHER ->
            LET s1 == Ans([st EXCEPT !.devs[h].sess[c.sid].cfg = r.cfg], h, "setapp", <<sOk, 0>>) IN
            IF s.state = ssInit THEN SetSess(s1, h, c.sid, ssIdle, rCommand) ELSE s1

GetApp(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "getapp", <<sNotExist, 0>>)
  ELSE
  LET cfg == Sess(st, h, c.sid).cfg IN
  IF \E i \in DOMAIN c.ids : c.ids[i] \notin Supported \/ ~IsSet(cfg, c.ids[i])
  THEN Ans(st, h, "getapp", <<sFailed, 0>>)
  ELSE LET tlv(i) == LET v == ReadBack(cfg, c.ids[i]) IN <<c.ids[i], Len(v)>> \o v
       IN Ans(st, h, "getapp", <<sOk, Len(c.ids)>> \o Flat([i \in DOMAIN c.ids |-> tlv(i)]))

(* Controlee list update: entries processed in order. *)
Mcast(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "mcast", <<sNotExist, 0>>)
  ELSE
  LET s == Sess(st, h, c.sid)
      list == Controlees(c.act, c.body)
      keyless == c.act \in {2, 3} /\ Get1(s.cfg, pStsConfig) # 4
      RECURSIVE Add(_, _, _, _)
      Add(i, dst, status, rsp) ==
        IF i > Len(list) THEN [dst |-> dst, status |-> status, rsp |-> rsp, gone |-> <<>>]
        ELSE LET a == list[i] IN
          CASE keyless -> Add(i + 1, dst, sFailed, rsp)
            [] ~keyless /\ InSeq(a, dst) -> Add(i + 1, dst, sFailed, Append(rsp, a \o <<8>>))
            [] ~keyless /\ ~InSeq(a, dst) /\ Len(dst) >= MaxControlees ->
                 Add(i + 1, dst, sListFull, Append(rsp, a \o <<1>>))
            [] OTHER -> Add(i + 1, Append(dst, a), status, Append(rsp, a \o <<0>>))
      RECURSIVE Rem(_, _, _, _, _)
      Rem(i, dst, status, rsp, gone) ==
        IF i > Len(list) THEN [dst |-> dst, status |-> status, rsp |-> rsp, gone |-> gone]
        ELSE LET a == list[i] IN
          IF ~InSeq(a, dst) THEN Rem(i + 1, dst, sFailed, Append(rsp, a \o <<7>>), gone)
          ELSE Rem(i + 1, SeqFilter(dst, LAMBDA x : x # a), status, Append(rsp, a \o <<0>>), Append(gone, a))
      r == IF c.act = 1 THEN Rem(1, DstList(s.cfg), sOk, <<>>, <<>>)
           ELSE Add(1, DstList(s.cfg), sOk, <<>>)
      cfg == (pDstMac :> r.dst) @@ (pNumCtl :> <<Len(r.dst)>>) @@ s.cfg
      s1 == Ans([st EXCEPT !.devs[h].sess[c.sid].cfg = cfg], h, "mcast",
                <<r.status, Len(r.rsp)>> \o Flat(r.rsp))
      s2 == IF c.act = 1 /\ s.state = ssActive
            THEN Emit(s1, h, "mcn", Ntf(gConfig, 7, c.sid \o <<Len(r.gone)>>
                      \o Flat([i \in DOMAIN r.gone |-> r.gone[i] \o <<0>>])))
            ELSE s1
      s3 == IF Get1(s.cfg, pAttempts) = 0 THEN s2
            ELSE [s2 EXCEPT !.pend = @ \o [i \in DOMAIN r.gone |-> [mac |-> r.gone[i], sid |-> c.sid]]]
  IN CASE s.state \notin {ssActive, ssIdle} \/ Get1(s.cfg, pDeviceType) # 1 \/ Get1(s.cfg, pMultiNode) # 1 ->
            Ans(st, h, "mcast", <<sRejected, 0>>)
       [] ~WellFormedList(c.act, c.body) -> Ans(st, h, "mcast", <<sSyntax, 0>>)
       [] r.dst = <<>> -> SyncDevice(SetSess(s3, h, c.sid, ssIdle, rNoControlee), h)
       [] OTHER -> s3

SessStart(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "start", <<sNotExist>>)
  ELSE LET s == Sess(st, h, c.sid) IN
  IF s.state # ssIdle THEN Ans(st, h, "start", <<sNotConfigured>>)
  ELSE LET per == DurMs(s.cfg)
           s1 == Ans([st EXCEPT !.devs[h].sess[c.sid] = [@ EXCEPT !.per = per, !.due = st.now + per]],
                     h, "start", <<sOk>>)
       IN SyncDevice(SetSess(s1, h, c.sid, ssActive, rCommand), h)

SessStop(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "stop", <<sNotExist>>)
  ELSE IF Sess(st, h, c.sid).state # ssActive THEN Ans(st, h, "stop", <<sActive>>)
  ELSE SyncDevice(SetSess(Ans(st, h, "stop", <<sOk>>), h, c.sid, ssIdle, rCommand), h)

RngCount(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Ans(st, h, "rcount", <<sNotExist>> \o LE32(0))
  ELSE Ans(st, h, "rcount", <<sOk>> \o LE32(Sess(st, h, c.sid).seq))

(* Data from a host: acknowledged with a credit, or refused; no reset needed. *)
DataSnd(st, h, c) ==
  IF ~HasSess(st, h, c.sid) THEN Emit(st, h, "dts", TransferNtf(c.sid, 0, 4))
  ELSE IF Sess(st, h, c.sid).type # 1 THEN Emit(st, h, "dts", TransferNtf(c.sid, c.seq, 5))
  ELSE Emit([st EXCEPT !.devs[h].sess[c.sid].data = @ \o c.data], h, "dcr", CreditNtf(c.sid))

(* The body of a command of a host whose device has been reset. *)
Serve(st, h, c) ==
  CASE c.k = "devinfo" -> Ans(st, h, "devinfo", DeviceInfo)
    [] c.k = "caps" -> Ans(st, h, "caps", CapsInfo)
    [] c.k = "setcore" -> SetCore(st, h, c)
    [] c.k = "getcore" -> GetCore(st, h, c)
    [] c.k = "init" -> SessInit(st, h, c)
    [] c.k = "deinit" -> SessDeinit(st, h, c)
    [] c.k = "count" -> SessCount(st, h)
    [] c.k = "state" -> SessState(st, h, c)
    [] c.k = "setapp" -> SetApp(st, h, c)
    [] c.k = "getapp" -> GetApp(st, h, c)
    [] c.k = "mcast" -> Mcast(st, h, c)
    [] c.k = "start" -> SessStart(st, h, c)
    [] c.k = "stop" -> SessStop(st, h, c)
    [] c.k = "rcount" -> RngCount(st, h, c)
    [] c.k = "power" -> Ans(st, h, "power", <<0>> \o Zeros(16))
    [] c.k = "country" -> Ans(st, h, "country", <<0>>)
    [] c.k = "unserved" -> Emit(st, h, "rsp", Rsp(c.gid, c.oid, <<sUnknownGid>>))

(* A message of the host of device h, decoded.  The reset gate is here: a reset *)
(* (even a malformed one) passes it, and so does a command of an unknown group, *)
(* which is refused before it is looked at.                                     *)
Message(st0, h, c) ==
  LET st == [st0 EXCEPT !.why = c.k] IN
  CASE h \notin DOMAIN st.devs -> st
    [] c.k = "ignore" -> st
    [] c.k = "dsnd" -> DataSnd(st, h, c)
    [] c.k = "drcv" -> Emit(st, h, "dts", TransferNtf(c.sid, 0, 7))
    [] c.k = "nogroup" -> Emit(st, h, "rsp", Rsp(c.gid, c.oid, <<sUnknownGid>>))
    [] c.k = "reset" -> Reset(st, h)
    [] ~st.devs[h].rst /\ ~(c.k = "bad" /\ c.gid = gCore /\ c.oid = 0) ->
         Emit(st, h, "err", DeviceNtf(dsError))
    [] c.k = "bad" -> Emit(st, h, "rsp", Rsp(c.gid, c.oid, <<sUnknownOid>>))
    [] OTHER -> Serve(st, h, c)

----------------------------------------------------------------------------
(* In-band stop of the controlees with an address, for a session id. *)
StopsAt(st, mac, sid) ==
  { h \in DOMAIN st.devs : HasSess(st, h, sid) /\ Sess(st, h, sid).state = ssActive
      /\ pDevMac \in DOMAIN Sess(st, h, sid).cfg /\ Sess(st, h, sid).cfg[pDevMac] = mac }
RECURSIVE StopEach(_, _, _)
StopEach(st, hs, sid) ==
  IF hs = {} THEN st
  ELSE LET h == CHOOSE x \in hs : TRUE IN
       StopEach(SyncDevice(SetSess(st, h, sid, ssIdle, rInBand), h), hs \ {h}, sid)
InBandStop(st, mac, sid) == StopEach([st EXCEPT !.why = "inband"], StopsAt(st, mac, sid), sid)

RECURSIVE Drain(_)
Drain(st) ==
  IF st.pend = <<>> THEN st
  ELSE LET p == st.pend[1] IN Drain(InBandStop([st EXCEPT !.pend = Tail(@)], p.mac, p.sid))

----------------------------------------------------------------------------
(* Ranging *)

(* The estimator of the test driver (harness/src/main.rs, struct Est): a fixed  *)
(* function of the two handles, without value for some pairs.  With a negative  *)
(* salt the values come from the positions in the scene, see Scene.tla.         *)
Est(st, l, r) ==
  CASE st.salt < 0 -> IF <<l, r>> \in DOMAIN st.geo THEN st.geo[<<l, r>>] ELSE [ok |-> TRUE, rng |-> 0, azi |-> 0, ele |-> 0]
    [] st.salt = 0 -> [ok |-> TRUE, rng |-> 0, azi |-> 0, ele |-> 0]
    [] OTHER ->
       LET x == l * 7 + r * 13 + st.salt * 31 IN
       IF x % 11 = 3 THEN [ok |-> FALSE, rng |-> 0, azi |-> 0, ele |-> 0]
       ELSE [ok |-> TRUE, rng |-> (x * 257) % 65536, azi |-> ((x * 37) % 361) - 180, ele |-> ((x * 17) % 181) - 90]

Measurable(st, h, other) == Est(st, h, other).ok /\ Est(st, other, h).ok
Measure(st, h, other, mac) == [mac |-> mac, l |-> Est(st, h, other), r |-> Est(st, other, h)]

(* Devices eligible for two-way ranging with session sid of h. *)
Peers(st, h, sid) ==
  { o \in DOMAIN st.devs \ {h} :
      /\ HasSess(st, o, sid) /\ Sess(st, o, sid).state = ssActive
      /\ Compatible(Sess(st, o, sid).cfg, Sess(st, h, sid).cfg)
      /\ Measurable(st, h, o) }

SetToSeq(S) == LET RECURSIVE G(_, _)
                   G(T, acc) == IF T = {} THEN acc
                                ELSE LET x == SetMin(T) IN G(T \ {x}, Append(acc, x))
               IN G(S, <<>>)

Measurements(st, h, sid) ==
  LET s == Sess(st, h, sid)
      near == SeqFilter(DstList(s.cfg), LAMBDA m : m \in DOMAIN st.anch /\ Measurable(st, h, st.anch[m]))
      ps == SetToSeq(Peers(st, h, sid))
  IN [i \in DOMAIN near |-> Measure(st, h, st.anch[near[i]], near[i])]
     \o [i \in DOMAIN ps |-> Measure(st, h, ps[i], Sess(st, ps[i], sid).cfg[pDevMac])]

(* Receivers of in-band data: role decides, the address does not. *)
Receivers(st, h, sid) ==
  LET s == Sess(st, h, sid) IN
  IF s.type # 1 \/ Get1(s.cfg, pRole) # 1 THEN {}
  ELSE { o \in DOMAIN st.devs \ {h} :
           HasSess(st, o, sid) /\ Sess(st, o, sid).state = ssActive
           /\ Sess(st, o, sid).type = 1 /\ Get1(Sess(st, o, sid).cfg, pRole) = 0 }

DataChunks(data) ==
  LET n == Max2(1, (Len(data) + MaxData - 1) \div MaxData) IN
  [i \in 1..n |-> SubSeq(data, (i - 1) * MaxData + 1, Min2(i * MaxData, Len(data)))]

RECURSIVE Deliver(_, _, _, _, _)
Deliver(st, hs, sid, src, chunks) ==
  IF hs = {} THEN st
  ELSE LET o == CHOOSE x \in hs : TRUE
           RECURSIVE Each(_, _)
           Each(s, i) == IF i > Len(chunks) THEN s
                         ELSE Each(Emit(s, o, "drv", DataRcv(sid, src, chunks[i])), i + 1)
       IN Deliver(Each(st, 1), hs \ {o}, sid, src, chunks)

(* One ranging round; nothing happens unless the session is ACTIVE. *)
Round(st0, h, sid) ==
  IF ~HasSess(st0, h, sid) \/ Sess(st0, h, sid).state # ssActive THEN st0
  ELSE
  LET st == [st0 EXCEPT !.why = "round"]
      s == Sess(st, h, sid)
      ms == Measurements(st, h, sid)
      ext == \E i \in DOMAIN ms : Len(ms[i].mac) = 8
      s1 == Deliver(st, Receivers(st, h, sid), sid, s.cfg[pDevMac], DataChunks(s.data))
      s2 == [s1 EXCEPT !.devs[h].sess[sid].data = <<>>]
      info == [h1 |-> mtNtf * 32 + gControl, h2 |-> 0, pl |-> InfoHeader(s.seq, sid, ext, Len(ms)),
               blocks |-> [i \in DOMAIN ms |-> Block(ext, ms[i])]]
  IN IF Get1(s.cfg, pNtfConfig) = 0 THEN s2
     ELSE Emit([s2 EXCEPT !.devs[h].sess[sid].seq = @ + 1], h, "sin", info)

----------------------------------------------------------------------------
(* Connections and anchors *)

RECURSIVE FreeHandle(_, _)
FreeHandle(st, h) == IF AddressUsed(st, MacOf(h)) THEN FreeHandle(st, h + 1) ELSE h

Connect(st) ==
  LET h == FreeHandle(st, st.ctr)
      s1 == [st EXCEPT !.ctr = h + 1, !.devs = (h :> NewDevice(MacOf(h))) @@ @,
                       !.conn = (h :> NewConn) @@ @, !.conns = Append(@, h), !.why = "conn"]
  IN Emit(Event(s1, 1, h, MacOf(h)), h, "dst", DeviceNtf(dsReady))

(* The device is removed with everything it has. *)
Disconnect(st, h) ==
  IF h \notin DOMAIN st.devs THEN st
  ELSE Event([st EXCEPT !.devs = Without(@, h), !.conn = Without(@, h)], 0, h, st.devs[h].mac)

(* The host stops receiving. *)
Cut(st, h) == IF h \notin DOMAIN st.devs THEN st ELSE [st EXCEPT !.conn[h].link = "cut"]

(* Devices whose connection was found broken are removed. *)
RECURSIVE ReapFrom(_, _)
ReapFrom(st, hs) == IF hs = {} THEN st
                    ELSE LET h == SetMin(hs) IN ReapFrom(Disconnect(st, h), hs \ {h})
Reap(st) == ReapFrom(st, { h \in DOMAIN st.devs : st.conn[h].link = "lost" })

(* A packet is read from the connection of device h.  Segments of a control     *)
(* message are put together; data packets pass by them.  A packet of no known   *)
(* message type may end the connection.                                         *)
Packet(st, h, p) ==
  IF h \notin DOMAIN st.devs THEN {st}
  ELSE CASE Mt(p) > 3 -> {st, Disconnect(st, h)}
    [] Mt(p) = mtData -> {Message(st, h, Parse(p))}
    [] OTHER ->
         LET rd == IF st.conn[h].rd = <<>> THEN p ELSE st.conn[h].rd \o Drop(p, 4) IN
         IF Pbf(p) = 1 THEN {[st EXCEPT !.conn[h].rd = rd]}
         ELSE {Message([st EXCEPT !.conn[h].rd = <<>>], h, Parse(rd))}

(* The length of the packet at the head of an octet stream, as announced by its *)
(* header; 0 if there is no complete packet.                                    *)
PacketLen(b) == 4 + (IF Mt(b) = mtData THEN b[3] + 256 * b[4] ELSE b[4])
HeadPacket(b) == IF Len(b) < 4 THEN 0 ELSE IF Len(b) < PacketLen(b) THEN 0 ELSE PacketLen(b)

(* Octets arrive on a connection, cut in any way. *)
RECURSIVE Stream(_, _)
Stream(st, h) ==
  IF h \notin DOMAIN st.devs THEN {st}
  ELSE LET b == st.conn[h].buf
           n == HeadPacket(b)
       IN IF n = 0 THEN {st}
          ELSE UNION { Stream(s, h) : s \in Packet([st EXCEPT !.conn[h].buf = Drop(b, n)], h, SubSeq(b, 1, n)) }
Octets(st, h, bytes) ==
  IF h \notin DOMAIN st.devs THEN {st} ELSE Stream([st EXCEPT !.conn[h].buf = @ \o bytes], h)

CreateAnchor(st, mac) ==
  IF AddressUsed(st, mac) THEN Reply(st, <<0, 0>>)
  ELSE Reply([st EXCEPT !.ctr = @ + 1, !.anch = (mac :> st.ctr) @@ @], <<1, st.ctr>>)

DestroyAnchor(st, mac) ==
  IF mac \notin DOMAIN st.anch THEN Reply(st, <<2, 0>>)
  ELSE Reply([st EXCEPT !.anch = Without(@, mac)], <<1, st.anch[mac]>>)

----------------------------------------------------------------------------
(* Time *)

(* n rounds in a row. *)
RECURSIVE Rounds(_, _, _, _)
Rounds(st, h, sid, n) == IF n = 0 THEN st ELSE Rounds(Round(st, h, sid), h, sid, n - 1)

(* Time passes up to `t`: every round that falls due runs, in due order.  A      *)
(* connection found broken ends after the rounds of the same moment.           *)
DueBy(st, t) ==
  UNION { LET ss == st.devs[h].sess IN
          { <<ss[s].due, h, s>> : s \in { x \in DOMAIN ss : ss[x].state = ssActive /\ ss[x].due <= t } }
        : h \in DOMAIN st.devs }
RECURSIVE Advance(_, _)
Advance(st, t) ==
  LET due == DueBy(st, t) IN
  IF due = {} THEN [st EXCEPT !.now = t]
  ELSE LET first == SetMin({ d[1] : d \in due })
           d == CHOOSE x \in due : x[1] = first
           s0 == Round([st EXCEPT !.now = first], d[2], d[3])
           s1 == IF \E x \in due : x[1] = first /\ x # d THEN s0 ELSE Reap(s0)
       IN Advance(IF d[2] \in DOMAIN s1.devs
                  THEN [s1 EXCEPT !.devs[d[2]].sess[d[3]].due = @ + s1.devs[d[2]].sess[d[3]].per] ELSE s1, t)

=============================================================================
