-------------------------------- MODULE MC_Enums --------------------------------
(* Laws every enumeration table obeys (C12), and the enumerator decoded from  *)
(* every 8-bit and 16-bit code (and, for wider ones, from the codes, their    *)
(* neighbours and single bits).                                               *)
EXTENDS Enums, TLC, Integers
CONSTANT High      \* the high octets tried with wide codes
VARIABLES e, hi
Codes(x) == EnumTable[x].codes
Init == e \in EnumNames /\ hi = -1
(* one block of 256 codes after the other *)
Blocks == IF EnumWidth(e) = 1 THEN {0} ELSE High
AllOctets == 0..255
Next == hi = -1 /\ hi' \in Blocks /\ e' = e
Spec == Init /\ [][Next]_<<e, hi>>

Table ==
  LET t == EnumTable[e] n == Len(t.codes) IN
  hi = -1 =>
  /\ t.w \in {1, 2, 4} /\ Len(t.names) = n
  /\ \A i \in 1..(n - 1) : t.codes[i] < t.codes[i + 1]
  /\ \A i \in 1..n : t.codes[i] >= 0 /\ (t.w = 1 => t.codes[i] < 256) /\ (t.w = 2 => t.codes[i] < 65536)
  /\ Cardinality({t.names[i] : i \in 1..n}) = n
  /\ (EnumIsFlags(e) => n = 0 /\ Len(t.bnames) = Len(t.bits) /\ t.d = 0 /\ Cardinality({t.bits[i] : i \in 1..Len(t.bits)}) = Len(t.bits)
                        /\ \A i \in 1..Len(t.bits) : t.bits[i] < 8 * t.w)
  /\ (~EnumIsFlags(e) => t.d \in EnumCodeSet[e])
  /\ EnumNorm(e, NatW(t.d, t.w)) = NatW(t.d, t.w)

Octets_(c) ==
  LET w == EnumWidth(e) IN
  IF w = 1 THEN {<<c>>} ELSE IF w = 2 THEN {<<hi, c>>}
  ELSE {<<0, 0, hi, c>>, <<hi, c, 0, 0>>, <<hi, 0, 0, c>>, <<128, hi, c, 255>>}
Total ==
  hi >= 0 => \A c \in 0..255 : \A bs \in Octets_(c) :
     LET r == EnumNorm(e, bs) IN
     /\ Len(r) = EnumWidth(e)
     /\ EnumNorm(e, r) = r
     /\ (EnumKnown(e, bs) => r = bs)
     /\ (~EnumKnown(e, bs) => r = NatW(EnumTable[e].d, EnumWidth(e)))
=============================================================================
