---------------------------------- MODULE Gate ----------------------------------
(***************************************************************************)
(* The front door: what the type octet does, for every PDU type, every      *)
(* code, every header with other fields of any value, and every length of   *)
(* what has arrived up to the end of the header (C08, C09).                 *)
(***************************************************************************)
EXTENDS Api, Values, TLC, Integers

CONSTANT Seeds
VARIABLES t, s, msg, code, got
vars == <<t, s, msg, code, got>>
Whole == [msg EXCEPT ![3] = code]
Init == t \in PduNames /\ s \in Seeds /\ msg = <<>> /\ code = -1 /\ got = 0
Make == msg = <<>> /\ msg' \in {EncPdu(t, FillHeader(t, s), FillBody(t, 1, s))} /\ UNCHANGED <<t, s, code, got>>
Next == \/ Make
        \/ msg # <<>> /\ code = -1 /\ code' \in 0..255 /\ got' = 0 /\ UNCHANGED <<t, s, msg>>
        \/ msg # <<>> /\ code = -1 /\ code' = Pdus[t].type /\ got' \in 1..13 /\ UNCHANGED <<t, s, msg>>
Spec == Init /\ [][Next]_vars

HeaderAnd(bs) == [bs EXCEPT ![1] = (s * 37) % 256, ![2] = 255 - s, ![4] = (s * 91) % 256, ![9] = s % 256, ![10] = (s * 7) % 256, ![12] = 99]
Doors ==
  (code >= 0 /\ got = 0) =>
    \E bs \in {HeaderAnd(Whole)} :
       /\ (DecPdu(t, bs, 0).res = "ok") = (code = Pdus[t].type)
       /\ (code # Pdus[t].type => DecPdu(t, bs, 0).res = "type")
       /\ PeekType(bs) = <<EnumNorm("PduType", <<code>>)>>
       /\ PeekType(bs) = <<DecRecord(HeaderLayout, bs, 0).v[hType]>>
       /\ (code \notin EnumCodeSet["PduType"] => PeekType(bs) = <<<<0>>>>)
       /\ \E h \in {DecRecord(HeaderLayout, bs, 0).v} :
            (DecodeWithHeader(t, h, SubSeq(bs, 13, Len(bs))).res = "ok") = (code = Pdus[t].type)
Short ==
  got > 0 => \E bs \in {SubSeq(Whole, 1, got - 1)} :
     /\ (PeekType(bs) = <<>>) = (got - 1 < HeaderSize)
     /\ (got - 1 < HeaderSize => DecPdu(t, bs, 0).res = "short")
(* types and their codes are one to one, and none is the code of unknown types *)
ASSUME \A a, b \in PduNames : Pdus[a].type = Pdus[b].type => a = b
ASSUME \A a \in PduNames : Pdus[a].type # 0 /\ Pdus[a].type \in EnumCodeSet["PduType"] /\ Pdus[a].family \in EnumCodeSet["ProtocolFamily"]
=============================================================================
