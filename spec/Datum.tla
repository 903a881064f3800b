---------------------------------- MODULE Datum ----------------------------------
(***************************************************************************)
(* A variable datum of any length in bits between two other things in a     *)
(* message (C19): the decoder, one octet at a time, ends at the 64-bit      *)
(* boundary whatever follows.                                               *)
(***************************************************************************)
EXTENDS Values, TLC, Integers

CONSTANTS MaxBits, Followers

VARIABLES bits, behind, stage
vars == <<bits, behind, stage>>
Init == bits = 0 /\ behind \in Followers /\ stage = "pick"
Longer == bits < MaxBits /\ bits' = bits + 1 /\ UNCHANGED <<behind, stage>>
Spec == Init /\ [][Longer]_vars

NOctets == (bits + 7) \div 8
Value == <<<<1, 2, 3, 4>>, Nat4(bits), [i \in 1..NOctets |-> (255 - i) % 256]>>
Enc == EncType("VariableDatumRecord", Value)
Aligned == Len(Enc) % 8 = 0 /\ Len(Enc) = SizeType("VariableDatumRecord", Value)
Header == SubSeq(Enc, 1, 8) = <<1, 2, 3, 4>> \o Nat4(bits)
Data == SubSeq(Enc, 9, 8 + NOctets) = Value[3]
ZeroPad == \A i \in (9 + NOctets)..Len(Enc) : Enc[i] = 0
Tight == Len(Enc) - (8 + NOctets) < 8
Back ==
  LET bs == Enc \o [i \in 1..behind |-> 170]
      d == DecType("VariableDatumRecord", bs, 0)
  IN d.ok /\ d.v = Value /\ d.p = Len(Enc)
(* two of them in a row: the second starts where the first ends *)
Twice ==
  LET d == DecList("VariableDatumRecord", 2, Enc \o Enc \o [i \in 1..behind |-> 85], 0)
  IN d.ok /\ d.v = <<Value, Value>> /\ d.p = 2 * Len(Enc)
Cut == \A k \in {0, 7, 8, Len(Enc) - 1} : k < Len(Enc) => ~DecType("VariableDatumRecord", SubSeq(Enc, 1, k), 0).ok
=============================================================================
