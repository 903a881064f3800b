--------------------------------- MODULE Reading ---------------------------------
(***************************************************************************)
(* A message of some PDU type, damaged on its way: octets are overwritten,  *)
(* the end is lost, or others follow; then it is read.                      *)
(*   TwoWays   reading it whole, and reading the header first and then the  *)
(*             body with it, come to the same (C22)                         *)
(*   Whatever  what was read depends on the octets taken up and on nothing  *)
(*             behind them, and with one octet less there is no PDU (C23,   *)
(*             C10, C14)                                                    *)
(*   Settles   what was read, written again, reads as the same: every       *)
(*             accepted message has one canonical form (C15, C23)           *)
(***************************************************************************)
EXTENDS Api, Values, Utf8, TLC, Integers

CONSTANTS Lens, Seeds, Hits, Octets, Ends,
          Every     \* only every so manyth octet is hit

VARIABLES t, s, nl, bs, left
vars == <<t, s, nl, bs, left>>

Init == t \in PduNames /\ s \in Seeds /\ nl \in Lens /\ bs = <<>> /\ left = -1

Send == left = -1 /\ bs' \in {EncPdu(t, FillHeader(t, s), FillBody(t, nl, s))} /\ left' = Hits /\ UNCHANGED <<t, s, nl>>
Hit == left > 0 /\ \E k \in 1..Len(bs), x \in Octets : (k + Pdus[t].type) % Every = 0 /\ bs[k] # x /\ bs' = [bs EXCEPT ![k] = x] /\ left' = left - 1 /\ UNCHANGED <<t, s, nl>>
Cut == left > 0 /\ \E n \in Ends : n < Len(bs) /\ bs' = SubSeq(bs, 1, Len(bs) - n) /\ left' = 0 /\ UNCHANGED <<t, s, nl>>
More == left > 0 /\ \E n \in Ends : bs' = bs \o [k \in 1..n |-> (170 + k) % 256] /\ left' = 0 /\ UNCHANGED <<t, s, nl>>
Next == Send \/ Hit \/ Cut \/ More
Spec == Init /\ [][Next]_vars

TwoWays ==
  (left >= 0 /\ Len(bs) >= HeaderSize) =>
    \E d \in {DecPdu(t, bs, 0)}, h \in {DecRecord(HeaderLayout, bs, 0).v} :
    \E b \in {DecodeWithHeader(t, h, SubSeq(bs, 13, Len(bs)))} :
       b.res = d.res /\ (d.res = "ok" => b.v = d.v /\ h = d.h)

Whatever ==
  left >= 0 =>
    \E d \in {DecPdu(t, bs, 0)} :
       d.res = "ok" => /\ d.p <= Len(bs)
                       /\ DecPdu(t, SubSeq(bs, 1, d.p), 0) = d
                       /\ DecPdu(t, SubSeq(bs, 1, d.p - 1), 0).res = "short"

(* Text that is no UTF-8 is not spoken of here. *)
Settles ==
  left >= 0 =>
    \E d \in {DecPdu(t, bs, 0)} :
       d.res = "ok" => \E w \in {EncPdu(t, d.h, d.v)} :
         \E e \in {DecPdu(t, w, 0)} :
            /\ e.res = "ok" /\ e.p = Len(w) /\ Len(w) = d.p
            /\ e.v = d.v /\ e.h = Stamp(t, d.h, Len(w))
            /\ EncPdu(t, e.h, e.v) = w
=============================================================================
