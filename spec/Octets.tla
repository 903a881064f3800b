-------------------------------- MODULE Octets --------------------------------
(***************************************************************************)
(* Octets and octet strings.  TLC's integers have 32 bits, so scalars wider *)
(* than 16 bits never become integers in this specification: a scalar is    *)
(* the tuple of its octets in network (big-endian) order, which is also     *)
(* exactly what the standard puts on the wire.                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Octet == 0..255

Zeros(n) == [i \in 1..n |-> 0]

(* A count or length read from a message: exact below 2^30, and 2^30 (more  *)
(* than any buffer holds) for anything larger.                              *)
Huge == 1073741824
RECURSIVE ToNat(_)
ToNat(bs) ==
  LET n == Len(bs) IN
  CASE n = 0 -> 0
    [] n = 1 -> bs[1]
    [] n = 2 -> bs[1] * 256 + bs[2]
    [] n = 4 -> IF bs[1] >= 64 THEN Huge
                ELSE ((bs[1] * 256 + bs[2]) * 256 + bs[3]) * 256 + bs[4]
    [] OTHER -> IF bs[1] = 0 THEN ToNat(SubSeq(bs, 2, n)) ELSE Huge

Nat1(n) == <<n % 256>>
Nat2(n) == <<(n \div 256) % 256, n % 256>>
Nat4(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
NatW(n, w) == CASE w = 1 -> Nat1(n) [] w = 2 -> Nat2(n) [] w = 4 -> Nat4(n)
                [] OTHER -> Zeros(w - 4) \o Nat4(n)

SatMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a > Huge \div b THEN Huge ELSE a * b

(* Bits of an octet, least significant first: Bit(o, 0) is the unit bit.    *)
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(o, i) == (o \div Pow2[i + 1]) % 2

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
