------------------------------- MODULE UciCfg -------------------------------
(* APP configuration parameters: [UCI] Table 45.  A configuration is a function *)
(* from the parameters that were set to their stored value (a byte string, or   *)
(* for DST_MAC_ADDRESS a sequence of addresses); everything else has the        *)
(* default of this table.                                                       *)
EXTENDS Bytes

pDeviceType == 0        pRru == 1             pStsConfig == 2      pMultiNode == 3
pNumCtl == 5            pDevMac == 6          pDstMac == 7         pDuration == 9
pAoaResultReq == 13     pNtfConfig == 14      pRole == 17          pSchedule == 34
pMacMode == 38          pUwbInitTime == 43    pAttempts == 47      pSubKey == 70
pSessionKey == 69

(* Parameters with an enumerated one-octet value. *)
EnumValues ==
  (0 :> {0, 1}) @@ (1 :> 1..8) @@ (2 :> 0..4) @@ (3 :> {0, 1})
  @@ (4 :> {5, 6, 8, 9, 10, 12, 13, 14}) @@ (11 :> {0, 1}) @@ (13 :> 0..3) @@ (14 :> 0..7)
  @@ (17 :> {0, 1, 5, 6, 7, 8}) @@ (18 :> {0, 1, 3}) @@ (19 :> {0, 1}) @@ (22 :> 0..3)
  @@ (23 :> {0, 1}) @@ (24 :> {0}) @@ (26 :> {1}) @@ (31 :> 0..2) @@ (34 :> {0, 1})
  @@ (35 :> {0, 1}) @@ (38 :> {0, 1, 2}) @@ (44 :> {0, 1}) @@ (49 :> {0, 1}) @@ (53 :> 0..2)
  @@ (71 :> {0, 1})

(* Parameters with an arbitrary value of a fixed size. *)
FixedSize ==
  (5 :> 1) @@ (8 :> 2) @@ (9 :> 4) @@ (10 :> 4) @@ (12 :> 1) @@ (15 :> 2) @@ (16 :> 2)
  @@ (20 :> 1) @@ (21 :> 1) @@ (25 :> 1) @@ (27 :> 1) @@ (29 :> 8) @@ (32 :> 2) @@ (33 :> 1)
  @@ (36 :> 1) @@ (37 :> 1) @@ (39 :> 2) @@ (40 :> 6) @@ (41 :> 1) @@ (42 :> 2) @@ (45 :> 1)
  @@ (46 :> 1) @@ (47 :> 1) @@ (48 :> 4) @@ (50 :> 2) @@ (58 :> 1) @@ (59 :> 2) @@ (60 :> 1)
  @@ (72 :> 9) @@ (76 :> 1)

(* Parameters with a rule of their own. *)
Special == {pDevMac, pDstMac, pUwbInitTime, pSessionKey, pSubKey}

Supported == DOMAIN EnumValues \union DOMAIN FixedSize \union Special

(* Identifiers that are no parameter at all: a command using one is malformed. *)
NoParameter == {28, 30, 51, 52} \union 54..57

(* Mandatory parameters have no default. *)
Unset == {pDeviceType, pRru, pMultiNode, pDevMac, pRole, pSchedule}
Mandatory == {pRru, pMultiNode, pDevMac, pRole, pSchedule}

Defaults ==
  (2 :> <<0>>) @@ (4 :> <<9>>) @@ (5 :> <<1>>) @@ (7 :> <<>>) @@ (8 :> LE16(2400))
  @@ (9 :> LE32(200)) @@ (10 :> LE32(0)) @@ (11 :> <<0>>) @@ (12 :> <<6>>) @@ (13 :> <<1>>)
  @@ (14 :> <<1>>) @@ (15 :> LE16(0)) @@ (16 :> LE16(20000)) @@ (18 :> <<3>>) @@ (19 :> <<0>>)
  @@ (20 :> <<10>>) @@ (21 :> <<2>>) @@ (22 :> <<0>>) @@ (23 :> <<1>>) @@ (24 :> <<0>>)
  @@ (25 :> <<0>>) @@ (26 :> <<1>>) @@ (27 :> <<25>>) @@ (29 :> Zeros(8)) @@ (31 :> <<0>>)
  @@ (32 :> <<24, 5>>) @@ (33 :> <<0>>) @@ (35 :> <<0>>) @@ (36 :> <<0>>) @@ (37 :> <<50>>)
  @@ (38 :> <<0>>) @@ (39 :> LE16(0)) @@ (40 :> Zeros(6)) @@ (41 :> <<1>>) @@ (42 :> LE16(0))
  @@ (43 :> Zeros(8)) @@ (44 :> <<0>>) @@ (45 :> <<0>>) @@ (46 :> <<1>>) @@ (47 :> <<1>>)
  @@ (48 :> LE32(0)) @@ (49 :> <<0>>) @@ (50 :> LE16(0)) @@ (53 :> <<1>>) @@ (58 :> <<4>>)
  @@ (59 :> LE16(0)) @@ (60 :> <<1>>) @@ (69 :> <<>>) @@ (70 :> <<>>) @@ (71 :> <<0>>)
  @@ (72 :> Zeros(9)) @@ (76 :> <<0>>)

ASSUME DOMAIN Defaults \union Unset = Supported /\ DOMAIN Defaults \intersect Unset = {}

NoCfg == [x \in {} |-> <<>>]
IsSet(cfg, id) == id \in DOMAIN cfg \/ id \in DOMAIN Defaults
Get(cfg, id) == IF id \in DOMAIN cfg THEN cfg[id] ELSE Defaults[id]
(* One-octet value, -1 when not set. *)
Get1(cfg, id) == IF IsSet(cfg, id) THEN Get(cfg, id)[1] ELSE 0 - 1
DstList(cfg) == Get(cfg, pDstMac)

MacSize(mode) == CASE mode = 0 -> 2 [] mode = 2 -> 8 [] OTHER -> 0

Chunks(v, n) == [i \in 1..(Len(v) \div n) |-> Sub(v, (i - 1) * n + 1, n)]

(* Is `v` a well-formed value for parameter `id`, given what is already set? *)
Valid(cfg, id, v) ==
  CASE id \in DOMAIN EnumValues -> Len(v) = 1 /\ v[1] \in EnumValues[id]
    [] id \in DOMAIN FixedSize -> Len(v) = FixedSize[id]
    [] id = pDevMac -> LET n == MacSize(Get1(cfg, pMacMode)) IN n # 0 /\ Len(v) = n
    [] id = pDstMac -> LET n == MacSize(Get1(cfg, pMacMode)) IN n # 0 /\ Len(v) = n * Get1(cfg, pNumCtl)
    [] id = pUwbInitTime -> Len(v) \in {4, 8}
    [] id = pSessionKey -> TRUE
    [] id = pSubKey -> Len(v) \in {16, 32}
    [] OTHER -> FALSE

Stored(cfg, id, v) ==
  CASE id = pDstMac -> Chunks(v, MacSize(Get1(cfg, pMacMode)))
    [] id = pUwbInitTime -> v \o Zeros(8 - Len(v))
    [] OTHER -> v

(* What a read returns for a parameter that has a value. *)
ReadBack(cfg, id) == IF id = pDstMac THEN Flat(Get(cfg, id)) ELSE Get(cfg, id)

RECURSIVE SetFrom(_, _, _, _)
SetFrom(cfg, tlvs, i, bad) ==
  IF i > Len(tlvs) THEN [cfg |-> cfg, bad |-> bad]
  ELSE LET id == tlvs[i].id  v == tlvs[i].v IN
       IF Valid(cfg, id, v) THEN SetFrom((id :> Stored(cfg, id, v)) @@ cfg, tlvs, i + 1, bad)
       ELSE SetFrom(cfg, tlvs, i + 1, Append(bad, id))
(* All parameters applied in order, the invalid ones skipped and collected. *)
SetAll(cfg, tlvs) == SetFrom(cfg, tlvs, 1, <<>>)

Complete(cfg) == \A id \in Mandatory : IsSet(cfg, id)

(* Milliseconds, saturated to what TLC can count (the sessions never get there). *)
DurMs(cfg) == LET b == Get(cfg, pDuration) IN
  IF b[4] >= 32 THEN 536870912 ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]

(* Two configurations of the same session id match for two-way ranging. *)
Compatible(a, b) ==
  /\ Get1(a, pRole) # Get1(b, pRole)
  /\ Get1(a, pDeviceType) # Get1(b, pDeviceType)
  /\ InSeq(a[pDevMac], DstList(b))
  /\ InSeq(b[pDevMac], DstList(a))
=============================================================================
