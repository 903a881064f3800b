------------------------------- MODULE VectorOps -------------------------------
(* The vector operations, on integers. *)
EXTENDS Integers, Sequences
VAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
VSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
VMul(a, c) == <<a[1] * c, a[2] * c, a[3] * c>>
VDot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
VCross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
(* What is left of a vector without its component k, in cyclic order. *)
Besides(a, k) == <<a[(k % 3) + 1], a[((k + 1) % 3) + 1]>>
VSquare(a) == VDot(a, a)
=============================================================================
