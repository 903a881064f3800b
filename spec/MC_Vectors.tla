------------------------------- MODULE MC_Vectors -------------------------------
(* The identities that define the vector operations (C18), for all triples of *)
(* small vectors; Trace.tla compares the library with the very same operators. *)
EXTENDS VectorOps
CONSTANT Range, Third
SmallRange == {-2, -1, 0, 1, 3}
Basis == {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<1, -2, 3>>}
VARIABLES a, b
V == {<<x, y, z>> : x \in Range, y \in Range, z \in Range}
Init == a \in V /\ b = <<>>
Next == b = <<>> /\ b' \in V /\ a' = a
Spec == Init /\ [][Next]_<<a, b>>
Neg(x) == <<-x[1], -x[2], -x[3]>>
Zero == <<0, 0, 0>>
Identities ==
  b # <<>> =>
  /\ VAdd(a, b) = VAdd(b, a) /\ VSub(a, b) = Neg(VSub(b, a)) /\ VAdd(VSub(a, b), b) = a
  /\ VDot(a, b) = VDot(b, a) /\ VCross(a, b) = Neg(VCross(b, a)) /\ VCross(a, a) = Zero
  /\ VDot(VCross(a, b), a) = 0 /\ VDot(VCross(a, b), b) = 0
  /\ VSquare(VCross(a, b)) = VSquare(a) * VSquare(b) - VDot(a, b) * VDot(a, b)
  /\ \A k \in Range : VMul(a, k) = VAdd(VMul(a, k - 1), a) /\ VCross(VMul(a, k), b) = VMul(VCross(a, b), k)
                      /\ VDot(VMul(a, k), b) = k * VDot(a, b)
  /\ (VSquare(a) = 0) = (a = Zero)
  \* component k of a sum, and the components besides k of a cross product, are
  \* as if component k of the operands were anything at all (and conversely)
  /\ \A k \in 1..3 : \A x \in Range :
       LET a1 == [a EXCEPT ![k] = x] b1 == [b EXCEPT ![k] = x] IN
       /\ Besides(VAdd(a1, b1), k) = Besides(VAdd(a, b), k) /\ Besides(VSub(a1, b), k) = Besides(VSub(a, b), k)
       /\ Besides(VMul(a1, x), k) = Besides(VMul(a, x), k)
       /\ VCross(a1, b1)[k] = VCross(a, b)[k]
  /\ \A c \in Third :
       /\ VDot(a, VAdd(b, c)) = VDot(a, b) + VDot(a, c)
       /\ VCross(a, VAdd(b, c)) = VAdd(VCross(a, b), VCross(a, c))
       /\ VDot(a, VCross(b, c)) = VDot(b, VCross(c, a))
       /\ VCross(a, VCross(b, c)) = VSub(VMul(b, VDot(a, c)), VMul(c, VDot(a, b)))
=============================================================================
