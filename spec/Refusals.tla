--------------------------------- MODULE Refusals ---------------------------------
(***************************************************************************)
(* What a refusal says (C25): its kind and, for sizes, two numbers.         *)
(***************************************************************************)
EXTENDS Wire

(* a PDU of so many octets *)
TooLarge(size) == <<"size", size, MaxPduSize, TRUE>>
(* a message of which only k octets arrived: more was asked for than there  *)
(* was, and there was no more than had arrived                              *)
TooShort(k, w) == w[1] = "short" /\ w[2] > w[3] /\ w[3] <= k
=============================================================================
