-------------------------------- MODULE AllDatum --------------------------------
(***************************************************************************)
(* Datum.tla goes through numbers of bits one by one; here the arithmetic   *)
(* is checked for all of them at once, with Apalache: a datum of any number *)
(* of bits, behind any number of whole records, ends on the 64-bit boundary *)
(* and takes no octet more than it must (C19); the sum of octets that ends  *)
(* up in the header's length is what the parts take (C01).                  *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  bits,
  \* @type: Int;
  at,
  \* @type: Int;
  total

NOctets(b) == (b + 7) \div 8
Padding(b) == (8 - (NOctets(b) % 8)) % 8
Takes(b) == 8 + NOctets(b) + Padding(b)

Init == bits \in Nat /\ at = 0 /\ total = 0
(* one record more, of any size *)
Next == at' = at + Takes(bits) /\ total' = total + 8 + NOctets(bits) + Padding(bits) /\ bits' \in Nat

Inv ==
  /\ bits >= 0 /\ at >= 0
  /\ at % 8 = 0 /\ total = at
  /\ NOctets(bits) * 8 >= bits /\ NOctets(bits) * 8 < bits + 8
  /\ Padding(bits) \in 0..7
  /\ Takes(bits) % 8 = 0 /\ Takes(bits) * 8 < bits + 64 + 64
(* for the inductive step *)
IndInit == bits \in Nat /\ at \in Nat /\ total \in Nat /\ Inv
Empty == FALSE      \* to see that IndInit is not
=============================================================================
