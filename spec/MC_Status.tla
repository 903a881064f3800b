-------------------------------- MODULE MC_Status --------------------------------
(***************************************************************************)
(* The PDU status octet under any sequence of settings, and on its way      *)
(* through a header (C13).  All 256 values, all sub-fields, all arguments.  *)
(***************************************************************************)
EXTENDS StatusBits, Integers, FiniteSets

VARIABLES b, prev, f, a
vars == <<b, prev, f, a>>
Init == b \in 0..255 /\ prev = b /\ f = "" /\ a = 0
Set == \E n \in SubFieldNames : \E x \in Arguments(n) : f' = n /\ a' = x /\ prev' = b /\ b' = Put(b, n, x)
Next == Set
Spec == Init /\ [][Next]_vars
View == b

BitAt(x, i) == (x \div P2[i + 1]) % 2
Range == b \in 0..255
(* setting changes its own bits and no other, and reads back *)
OwnBits == [][/\ \A i \in 0..7 : (i < SubField(f').at \/ i >= SubField(f').at + SubField(f').w) => BitAt(b', i) = BitAt(b, i)
              /\ Get(b', f') = a'
              /\ Put(b', f', a') = b'
              /\ \A g \in SubFieldNames :
                   LET x == SubField(g) y == SubField(f') IN
                   (x.at + x.w <= y.at \/ y.at + y.w <= x.at) => Get(b', g) = Get(b, g)]_vars
(* the octet is the sum of disjoint sub-fields and its reserved bits *)
Whole == b = Raw(b, SubField("tei")) + 2 * Raw(b, SubField("lvc")) + 8 * Raw(b, SubField("cei"))
              + 16 * Raw(b, SubField("bit4_5")) + 64 * (b \div 64)
(* the alternative readings of bits 4 and 5 agree *)
SameBits == /\ Raw(b, SubField("dti")) = Raw(b, SubField("bit4_5"))
            /\ Raw(b, SubField("rai")) = Raw(b, SubField("bit4_5"))
            /\ Raw(b, SubField("iai")) = Raw(b, SubField("bit4_5"))
            /\ Get(b, "fti") = Get(b, "bit4_5") % 2 /\ Get(b, "ism") = Get(b, "fti")
            /\ Get(b, "aii") = Get(b, "bit4_5") \div 2
=============================================================================
