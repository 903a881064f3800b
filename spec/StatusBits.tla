------------------------------- MODULE StatusBits -------------------------------
(***************************************************************************)
(* The PDU status octet (IEEE 1278.1-2012, 6.2.67): where each sub-field    *)
(* lies.  Bit 0 is the least significant.  The three two-bit indicators     *)
(* that share bits 4-5 and the one-bit ones in the same place belong to     *)
(* different PDU families and are alternative readings of the same bits.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

SubFields == <<
  [n |-> "tei",    at |-> 0, w |-> 1, max |-> 1],
  [n |-> "lvc",    at |-> 1, w |-> 2, max |-> 3],
  [n |-> "cei",    at |-> 3, w |-> 1, max |-> 1],
  [n |-> "dti",    at |-> 4, w |-> 2, max |-> 2],
  [n |-> "rai",    at |-> 4, w |-> 2, max |-> 2],
  [n |-> "iai",    at |-> 4, w |-> 2, max |-> 2],
  [n |-> "fti",    at |-> 4, w |-> 1, max |-> 1],
  [n |-> "ism",    at |-> 4, w |-> 1, max |-> 1],
  [n |-> "aii",    at |-> 5, w |-> 1, max |-> 1],
  [n |-> "bit4_5", at |-> 4, w |-> 2, max |-> 3] >>
SubFieldNames == {SubFields[i].n : i \in 1..Len(SubFields)}
SubField(n) == SubFields[CHOOSE i \in 1..Len(SubFields) : SubFields[i].n = n]

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
(* The bits of a sub-field as a number. *)
Raw(b, f) == (b \div P2[f.at + 1]) % P2[f.w + 1]
(* Reading: a value no enumerator has reads as the default, 0. *)
Get(b, n) == LET f == SubField(n) r == Raw(b, f) IN IF r > f.max THEN 0 ELSE r
(* Writing: replaces the bits of the sub-field and no others. *)
Put(b, n, a) == LET f == SubField(n) IN b - Raw(b, f) * P2[f.at + 1] + a * P2[f.at + 1]
Arguments(n) == 0..SubField(n).max
=============================================================================
