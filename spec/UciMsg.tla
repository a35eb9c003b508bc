------------------------------- MODULE UciMsg -------------------------------
(* Wire format: decoding of what a host sends, encoding of what it receives.  *)
EXTENDS UciCfg

mtData == 0  mtCmd == 1  mtRsp == 2  mtNtf == 3
gCore == 0   gConfig == 1  gControl == 2  gAndroid == 12

(* Status codes, [UCI] 8.5 *)
sOk == 0  sRejected == 1  sFailed == 2  sSyntax == 3  sInvalidParam == 4
sUnknownGid == 7  sUnknownOid == 8  sReadOnly == 9
sNotExist == 17  sDuplicate == 18  sActive == 19  sMaxSessions == 20
sNotConfigured == 21  sListFull == 23

KnownGroups == {0, 1, 2, 3, 9, 10, 11, 12, 13, 14, 15}
ServedGroups == {gCore, gConfig, gControl, gAndroid}
SessionTypes == {0, 1, 2, 3, 4, 5, 160, 208}

Mt(p) == p[1] \div 32
Pbf(p) == (p[1] \div 16) % 2
Gid(p) == p[1] % 16
Oid(p) == p[2] % 64

----------------------------------------------------------------------------
(* Decoding *)

(* <<id, len, value...>>* : n times, no more and no less. *)
RECURSIVE TlvsFrom(_, _, _, _)
TlvsFrom(b, i, n, acc) ==
  IF n = 0 THEN [ok |-> i = Len(b) + 1, t |-> acc]
  ELSE IF i + 1 > Len(b) THEN [ok |-> FALSE, t |-> <<>>]
  ELSE LET l == b[i + 1] IN
       IF i + 1 + l > Len(b) THEN [ok |-> FALSE, t |-> <<>>]
       ELSE TlvsFrom(b, i + 2 + l, n - 1, Append(acc, [id |-> b[i], v |-> Sub(b, i + 2, l)]))

Malformed(p) == [k |-> "bad", gid |-> Gid(p), oid |-> Oid(p)]

ParseCore(p, b) ==
  CASE Oid(p) = 0 /\ b = <<0>> -> [k |-> "reset"]
    [] Oid(p) = 2 /\ b = <<>> -> [k |-> "devinfo"]
    [] Oid(p) = 3 /\ b = <<>> -> [k |-> "caps"]
    [] Oid(p) = 4 /\ Len(b) >= 1 ->
         LET r == TlvsFrom(b, 2, b[1], <<>>) IN
         IF ~r.ok THEN Malformed(p) ELSE [k |-> "setcore", tlvs |-> r.t]
    [] Oid(p) = 5 /\ Len(b) >= 1 /\ Len(b) = 1 + b[1] -> [k |-> "getcore", ids |-> Drop(b, 1)]
    [] OTHER -> Malformed(p)

ParseConfig(p, b) ==
  CASE Oid(p) = 0 /\ Len(b) = 5 /\ b[5] \in SessionTypes ->
         [k |-> "init", sid |-> Sub(b, 1, 4), type |-> b[5]]
    [] Oid(p) = 1 /\ Len(b) = 4 -> [k |-> "deinit", sid |-> b]
    [] Oid(p) = 3 /\ Len(b) >= 5 ->
         LET r == TlvsFrom(b, 6, b[5], <<>>) IN
         IF ~r.ok \/ \E i \in DOMAIN r.t : r.t[i].id \in NoParameter THEN Malformed(p)
         ELSE [k |-> "setapp", sid |-> Sub(b, 1, 4), tlvs |-> r.t]
    [] Oid(p) = 4 /\ Len(b) >= 5 /\ Len(b) = 5 + b[5]
         /\ \A i \in 6..Len(b) : b[i] \notin NoParameter ->
         [k |-> "getapp", sid |-> Sub(b, 1, 4), ids |-> Drop(b, 5)]
    [] Oid(p) = 5 /\ b = <<>> -> [k |-> "count"]
    [] Oid(p) = 6 /\ Len(b) = 4 -> [k |-> "state", sid |-> b]
    [] Oid(p) = 7 /\ Len(b) >= 5 /\ b[5] \in 0..3 ->
         [k |-> "mcast", sid |-> Sub(b, 1, 4), act |-> b[5], body |-> Drop(b, 5)]
    [] OTHER -> Malformed(p)

ParseControl(p, b) ==
  CASE Oid(p) = 0 /\ Len(b) = 4 -> [k |-> "start", sid |-> b]
    [] Oid(p) = 1 /\ Len(b) = 4 -> [k |-> "stop", sid |-> b]
    [] Oid(p) = 3 /\ Len(b) = 4 -> [k |-> "rcount", sid |-> b]
    [] OTHER -> Malformed(p)

ParseAndroid(p, b) ==
  CASE Oid(p) = 0 /\ b = <<>> -> [k |-> "power"]
    [] Oid(p) = 1 /\ Len(b) = 2 -> [k |-> "country", cc |-> b]
    [] OTHER -> Malformed(p)

ParseCmd(p) ==
  LET b == Drop(p, 4) IN
  CASE Gid(p) \notin KnownGroups -> [k |-> "nogroup", gid |-> Gid(p), oid |-> Oid(p)]
    [] Gid(p) = gCore -> ParseCore(p, b)
    [] Gid(p) = gConfig -> ParseConfig(p, b)
    [] Gid(p) = gControl -> ParseControl(p, b)
    [] Gid(p) = gAndroid -> ParseAndroid(p, b)
    [] OTHER -> [k |-> "unserved", gid |-> Gid(p), oid |-> Oid(p)]

ParseData(p) ==
  LET b == Drop(p, 4) IN
  CASE p[1] % 16 = 1 /\ Len(b) >= 16 /\ Len(b) = 16 + Val16(Sub(b, 15, 2)) ->
         [k |-> "dsnd", sid |-> Sub(b, 1, 4), seq |-> b[13], data |-> Drop(b, 16)]
    [] p[1] % 16 = 2 /\ Len(b) >= 17 /\ Len(b) = 17 + Val16(Sub(b, 16, 2)) ->
         [k |-> "drcv", sid |-> Sub(b, 1, 4)]
    [] OTHER -> [k |-> "ignore"]

(* A (complete, reassembled) packet of a host. *)
Parse(p) ==
  CASE Mt(p) = mtData -> ParseData(p)
    [] Mt(p) = mtCmd -> ParseCmd(p)
    [] OTHER -> [k |-> "ignore"]

(* The addresses of the controlees listed in the body of a list update. *)
EntrySize(act) == CASE act \in {0, 1} -> 6 [] act = 2 -> 22 [] OTHER -> 38
WellFormedList(act, body) == Len(body) >= 1 /\ Len(body) = 1 + body[1] * EntrySize(act)
Controlees(act, body) ==
  IF ~WellFormedList(act, body) THEN <<>>
  ELSE [i \in 1..body[1] |-> Sub(body, 2 + (i - 1) * EntrySize(act), 2)]

----------------------------------------------------------------------------
(* Encoding of complete (unsegmented) messages; octets 3 and 4 of the header   *)
(* hold the length and are filled in per segment.                              *)

(* A message to a host: first two header octets and the payload. *)
Msg(mt, gid, oid, pl) == [h1 |-> mt * 32 + gid, h2 |-> oid, pl |-> pl]
Rsp(gid, oid, pl) == Msg(mtRsp, gid, oid, pl)
Ntf(gid, oid, pl) == Msg(mtNtf, gid, oid, pl)
DataMsg(dpf, pl) == Msg(mtData, dpf, 0, pl)

(* The group and opcode of the answer to each command. *)
RspTo ==
  [reset |-> <<0, 0>>, devinfo |-> <<0, 2>>, caps |-> <<0, 3>>, setcore |-> <<0, 4>>,
   getcore |-> <<0, 5>>, init |-> <<1, 0>>, deinit |-> <<1, 1>>, setapp |-> <<1, 3>>,
   getapp |-> <<1, 4>>, count |-> <<1, 5>>, state |-> <<1, 6>>, mcast |-> <<1, 7>>,
   start |-> <<2, 0>>, stop |-> <<2, 1>>, rcount |-> <<2, 3>>, power |-> <<12, 0>>,
   country |-> <<12, 1>>]

Answer(k, pl) == Rsp(RspTo[k][1], RspTo[k][2], pl)

(* Fixed answers: [UCI] versions, and the capability list. *)
DeviceInfo == <<0>> \o LE16(2) \o LE16(12289) \o LE16(12289) \o LE16(4097) \o <<0>>

Caps == <<
  << 0, <<1, 1, 1, 3>> >>, << 1, <<1, 1, 1, 3>> >>, << 2, <<3>> >>, << 3, <<31>> >>,
  << 4, <<31>> >>, << 5, <<255>> >>, << 6, <<1>> >>, << 7, <<1>> >>, << 8, <<0>> >>,
  << 9, <<1>> >>, << 10, <<1>> >>, << 11, <<255>> >>, << 12, <<255>> >>, << 13, <<255>> >>,
  << 14, <<255>> >>, << 15, <<255>> >>, << 16, <<255>> >>, << 227, <<1>> >>, << 17, <<1>> >>,
  << 164, <<1, 0>> >>, << 165, <<0>> >>, << 166, <<0>> >>, << 167, <<0, 0, 0, 0>> >>,
  << 160, <<255>> >>, << 161, <<255, 255, 255, 255>> >>, << 163, <<255>> >>, << 162, <<255>> >> >>
CapsInfo == <<0, Len(Caps)>> \o Flat([i \in DOMAIN Caps |-> <<Caps[i][1], Len(Caps[i][2])>> \o Caps[i][2]])

StatusNtf(sid, state, reason) == Ntf(gConfig, 2, sid \o <<state, reason>>)
DeviceNtf(state) == Ntf(gCore, 1, <<state>>)
CreditNtf(sid) == Ntf(gControl, 4, sid \o <<1>>)
(* token, sequence number, status, tx_count *)
TransferNtf(sid, seq, status) == Ntf(gControl, 5, sid \o <<seq, status, 1>>)
DataRcv(sid, src, data) ==
  DataMsg(2, sid \o <<0>> \o (src \o Zeros(8 - Len(src))) \o LE16(1) \o LE16(Len(data)) \o data)

(* A ranging measurement m = [mac, l, r] with l, r = [rng, azi, ele]. *)
Block(ext, m) ==
  (IF ext THEN m.mac \o Zeros(8 - Len(m.mac)) ELSE m.mac) \o <<0, 0>> \o LE16(m.l.rng)
  \o LE16S(m.l.azi) \o <<100>> \o LE16S(m.l.ele) \o <<100>>
  \o LE16S(m.r.azi) \o <<100>> \o LE16S(m.r.ele) \o <<100>>
  \o <<0, 255>> \o Zeros(IF ext THEN 5 ELSE 11)
BlockSize == 31
InfoHeader(seq, sid, ext, n) ==
  LE32(seq) \o sid \o <<0>> \o Zeros(4) \o <<1, 0, IF ext THEN 1 ELSE 0>> \o Zeros(8) \o <<n>>
=============================================================================
