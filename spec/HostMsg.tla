------------------------------ MODULE HostMsg ------------------------------
(* The messages the Python host library knows: class, header and layout.  A    *)
(* message is [h |-> 4 header bytes, b |-> body].  Field values are byte        *)
(* strings: integers little endian, padded to 8 bytes.                          *)
EXTENDS Bytes

Pad8(b) == b \o Zeros(8 - Len(b))

U(n, w) == [n |-> n, k |-> "u", w |-> w, v |-> 0, i |-> ""]
Is(n, w, v) == [n |-> n, k |-> "is", w |-> w, v |-> v, i |-> ""]
Upto(n, v) == [n |-> n, k |-> "upto", w |-> 1, v |-> v, i |-> ""]
Fix(n, w) == [n |-> n, k |-> "fix", w |-> w, v |-> 0, i |-> ""]
Rest(n) == [n |-> n, k |-> "rest", w |-> 0, v |-> 0, i |-> ""]
Len16(n) == [n |-> n, k |-> "len16", w |-> 0, v |-> 0, i |-> ""]
List(n, i) == [n |-> n, k |-> "list", w |-> 0, v |-> 0, i |-> i]
Skip(w) == [n |-> "", k |-> "skip", w |-> w, v |-> 0, i |-> ""]
Body == [n |-> "", k |-> "body", w |-> 0, v |-> 0, i |-> ""]

C(cls, mt, g, o, f) == [cls |-> cls, mt |-> mt, g |-> g, o |-> o, f |-> f]
Token == U("session_token", 4)
Status == U("status", 1)
Sin(tail) == <<U("sequence_number", 4), Token, U("rcr_indicator", 1), U("current_ranging_interval", 4)>> \o tail
Control == <<
  C("CoreDeviceResetCmd", 1, 0, 0, <<U("reset_config", 1)>>),
  C("CoreDeviceResetRsp", 2, 0, 0, <<Status>>),
  C("CoreDeviceStatusNtf", 3, 0, 1, <<U("device_state", 1)>>),
  C("CoreGetDeviceInfoCmd", 1, 0, 2, <<>>),
  C("CoreGetDeviceInfoRsp", 2, 0, 2, <<Status, U("uci_version", 2), U("mac_version", 2), U("phy_version", 2), U("uci_test_version", 2), List("vendor_spec_info", "byte")>>),
  C("CoreGetCapsInfoCmd", 1, 0, 3, <<>>),
  C("CoreGetCapsInfoRsp", 2, 0, 3, <<Status, List("tlvs", "tlv")>>),
  C("CoreSetConfigCmd", 1, 0, 4, <<List("parameters", "tlv")>>),
  C("CoreSetConfigRsp", 2, 0, 4, <<Status, List("parameters", "pair")>>),
  C("CoreGetConfigCmd", 1, 0, 5, <<List("parameter_ids", "id")>>),
  C("CoreGetConfigRsp", 2, 0, 5, <<Status, List("parameters", "tlv")>>),
  C("CoreGenericErrorNtf", 3, 0, 7, <<Status>>),
  C("SessionInitCmd", 1, 1, 0, <<U("session_id", 4), U("session_type", 1)>>),
  C("SessionInitRsp_V2", 2, 1, 0, <<Status, U("session_handle", 4)>>),
  C("SessionInitRsp", 2, 1, 0, <<Status>>),
  C("SessionDeinitCmd", 1, 1, 1, <<Token>>),
  C("SessionDeinitRsp", 2, 1, 1, <<Status>>),
  C("SessionStatusNtf", 3, 1, 2, <<Token, U("session_state", 1), U("reason_code", 1)>>),
  C("SessionSetAppConfigCmd", 1, 1, 3, <<Token, List("tlvs", "tlv")>>),
  C("SessionSetAppConfigRsp", 2, 1, 3, <<Status, List("cfg_status", "pair")>>),
  C("SessionGetAppConfigCmd", 1, 1, 4, <<Token, List("app_cfg", "id")>>),
  C("SessionGetAppConfigRsp", 2, 1, 4, <<Status, List("tlvs", "tlv")>>),
  C("SessionGetCountCmd", 1, 1, 5, <<>>),
  C("SessionGetCountRsp", 2, 1, 5, <<Status, U("session_count", 1)>>),
  C("SessionGetStateCmd", 1, 1, 6, <<Token>>),
  C("SessionGetStateRsp", 2, 1, 6, <<Status, U("session_state", 1)>>),
  C("SessionUpdateControllerMulticastListCmd", 1, 1, 7, <<Token, U("action", 1), Body>>),
  C("SessionUpdateControllerMulticastListRsp", 2, 1, 7, <<Status>>),
  C("SessionUpdateControllerMulticastListNtf", 3, 1, 7, <<Token, List("controlee_status", "macstatus")>>),
  C("SessionStartCmd", 1, 2, 0, <<U("session_id", 4)>>),
  C("SessionStartRsp", 2, 2, 0, <<Status>>),
  C("ShortMacTwoWaySessionInfoNtf", 3, 2, 0, Sin(<<Is("ranging_measurement_type", 1, 1), Skip(1), Is("mac_address_indicator", 1, 0), Skip(8), List("two_way_ranging_measurements", "short"), Rest("vendor_data")>>)),
  C("ExtendedMacTwoWaySessionInfoNtf", 3, 2, 0, Sin(<<Is("ranging_measurement_type", 1, 1), Skip(1), Is("mac_address_indicator", 1, 1), Skip(8), List("two_way_ranging_measurements", "extended"), Rest("vendor_data")>>)),
  C("SessionInfoNtf", 3, 2, 0, Sin(<<Upto("ranging_measurement_type", 3), Skip(1), Upto("mac_address_indicator", 1), Skip(8), Body>>)),
  C("SessionStopCmd", 1, 2, 1, <<U("session_id", 4)>>),
  C("SessionStopRsp", 2, 2, 1, <<Status>>),
  C("SessionGetRangingCountCmd", 1, 2, 3, <<U("session_id", 4)>>),
  C("SessionGetRangingCountRsp", 2, 2, 3, <<Status, U("count", 4)>>),
  C("SessionDataCreditNtf", 3, 2, 4, <<Token, U("credit_availability", 1)>>),
  C("SessionDataTransferStatusNtf", 3, 2, 5, <<Token, U("uci_sequence_number", 1), Status, U("tx_count", 1)>>),
  C("AndroidGetPowerStatsCmd", 1, 12, 0, <<>>),
  C("AndroidGetPowerStatsRsp", 2, 12, 0, <<[Status EXCEPT !.n = "stats"], U("", 4), U("", 4), U("", 4), U("", 4)>>),
  C("AndroidSetCountryCodeCmd", 1, 12, 1, <<Fix("country_code", 2)>>),
  C("AndroidSetCountryCodeRsp", 2, 12, 1, <<Status>>)
>>
Data == <<
  C("DataMessageSnd", 0, 1, 0, <<U("session_handle", 4), U("destination_address", 8), U("data_sequence_number", 2), Len16("application_data")>>),
  C("DataMessageRcv", 0, 2, 0, <<U("session_handle", 4), Status, U("source_address", 8), U("data_sequence_number", 2), Len16("application_data")>>)
>>

----------------------------------------------------------------------------
(* Decoding: [ok, v: the fields, rest]. *)
Fail == [ok |-> FALSE, v |-> <<>>, rest |-> <<>>]
Got(v, rest) == [ok |-> TRUE, v |-> v, rest |-> rest]

Widths(i) == IF i = "short" THEN <<2, 1, 1, 2, 2, 1, 2, 1, 2, 1, 2, 1, 1, 1>> ELSE <<8, 1, 1, 2, 2, 1, 2, 1, 2, 1, 2, 1, 1, 1>>
RECURSIVE Cut(_, _)
Cut(b, ws) == IF ws = <<>> THEN <<>> ELSE Pad8(SubSeq(b, 1, ws[1])) \o Cut(Drop(b, ws[1]), Tail(ws))
ItemSize(i, b) ==
  CASE i \in {"byte", "id"} -> 1
    [] i = "pair" -> 2
    [] i = "tlv" -> IF Len(b) < 2 THEN 2 ELSE 2 + b[2]
    [] i = "macstatus" -> 3
    [] OTHER -> 31
Item(i, b) ==
  CASE i = "byte" -> b
    [] i = "id" -> Pad8(b)
    [] i = "pair" -> Pad8(<<b[1]>>) \o Pad8(<<b[2]>>)
    [] i = "tlv" -> Pad8(<<b[1]>>) \o Tail(b)
    [] i = "macstatus" -> <<2, b[1], b[2]>> \o Pad8(<<b[3]>>)
    [] OTHER -> Cut(b, Widths(i))
RECURSIVE Items(_, _, _, _)
Items(i, n, b, acc) ==
  IF n = 0 THEN Got(acc, b)
  ELSE LET w == ItemSize(i, b) IN
       IF Len(b) < w THEN Fail ELSE Items(i, n - 1, Drop(b, w), acc \o Item(i, SubSeq(b, 1, w)))

Take(f, b) ==
  CASE f.k \in {"u", "is", "upto", "fix", "skip"} ->
         IF Len(b) < f.w \/ (f.k = "is" /\ b[1] # f.v) \/ (f.k = "upto" /\ b[1] > f.v) THEN Fail
         ELSE Got(IF f.k = "fix" THEN SubSeq(b, 1, f.w) ELSE Pad8(SubSeq(b, 1, f.w)), Drop(b, f.w))
    [] f.k \in {"rest", "body"} -> Got(b, <<>>)
    [] f.k = "len16" -> IF Len(b) < 2 \/ Len(b) < 2 + Val16(SubSeq(b, 1, 2)) THEN Fail
                        ELSE Got(Sub(b, 3, Val16(SubSeq(b, 1, 2))), Drop(b, 2 + Val16(SubSeq(b, 1, 2))))
    [] OTHER -> IF b = <<>> THEN Fail ELSE Items(f.i, b[1], Tail(b), <<>>)
(* Fields without a name continue the one before. *)
RECURSIVE Decode(_, _, _)
Decode(fs, b, acc) ==
  IF fs = <<>> THEN Got(acc, b)
  ELSE LET t == Take(fs[1], b)
           more == IF fs[1].k \in {"skip", "body"} THEN acc
                   ELSE IF fs[1].n = "" THEN [acc EXCEPT ![Len(acc)] = <<@[1], @[2] \o t.v>>]
                   ELSE Append(acc, <<fs[1].n, t.v>>)
       IN IF ~t.ok THEN Fail ELSE Decode(Tail(fs), t.rest, more)

Fits(c, m) == /\ c.mt = m.h[1] \div 32 /\ c.g = m.h[1] % 16 /\ (c.mt = 0 \/ c.o = m.h[2] % 64)
              /\ LET t == Decode(c.f, m.b, <<>>) IN t.ok /\ t.rest = <<>>
Fields(c, m) == Decode(c.f, m.b, <<>>).v
First(T, m) == LET is == { i \in DOMAIN T : Fits(T[i], m) } IN IF is = {} THEN 0 ELSE SetMin(is)
Plain(cls) == [cls |-> cls, mt |-> 0, g |-> 0, o |-> 0, f |-> <<Body>>]
(* The class of a control message or data packet. *)
GroupName == [g \in {0, 1, 2, 12} |-> CASE g = 0 -> "CorePacket" [] g = 1 -> "SessionConfigPacket" [] g = 2 -> "SessionControlPacket" [] OTHER -> "AndroidPacket"]
Opcodes == [g \in {0, 1, 2, 12} |-> CASE g = 0 -> {0, 1, 2, 3, 4, 5, 7, 8} [] g = 1 -> (0..9) \union {11} [] g = 2 -> {0, 1, 3, 4, 5} [] OTHER -> {0, 1, 2}]
Groups == {0, 1, 2, 3, 9, 10, 11, 12, 13, 14, 15}
IsData(m) == m.h[1] \div 32 = 0
(* No class at all: the message cannot be parsed. *)
NoClass == Plain("")
ClassOfMsg(m) ==
  IF IsData(m)
  THEN IF m.h[1] % 16 \notin {1, 2} THEN NoClass
       ELSE LET i == First(Data, m) IN IF i = 0 THEN Plain("DataPacket") ELSE Data[i]
  ELSE LET g == m.h[1] % 16
           i == First(Control, m)
       IN IF i # 0 THEN Control[i]
          ELSE IF g \notin Groups THEN NoClass
          ELSE IF g \in DOMAIN GroupName /\ m.h[2] % 64 \in Opcodes[g] THEN Plain(GroupName[g])
          ELSE Plain("ControlPacket")
(* The classes a message is an instance of. *)
Classes(m) == LET c == ClassOfMsg(m).cls IN
  IF IsData(m) THEN {c, "DataPacket"}
  ELSE {c, "ControlPacket"}
       \union (IF c # "ControlPacket" /\ m.h[1] % 16 \in DOMAIN GroupName THEN {GroupName[m.h[1] % 16]} ELSE {})
       \union (IF c \in {"ShortMacTwoWaySessionInfoNtf", "ExtendedMacTwoWaySessionInfoNtf"} THEN {"SessionInfoNtf"} ELSE {})
=============================================================================
