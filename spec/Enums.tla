-------------------------------- MODULE Enums --------------------------------
(***************************************************************************)
(* The enumerations: enums.json holds, for each of the library's            *)
(* enumerations, its width in octets, its default code, its codes in        *)
(* increasing order with the enumerators' names, and for flag sets the      *)
(* positions of the defined bits (codes is empty then).                     *)
(***************************************************************************)
EXTENDS Octets, Json, FiniteSets

EnumTable == JsonDeserialize("enums.json")
EnumNames == DOMAIN EnumTable

EnumWidth(e) == EnumTable[e].w
EnumIsFlags(e) == EnumTable[e].bits # <<>>

(* Code sets, computed once. *)
EnumCodeSet == [e \in EnumNames |-> {EnumTable[e].codes[i] : i \in 1..Len(EnumTable[e].codes)}]
EnumBitSet  == [e \in EnumNames |-> {EnumTable[e].bits[i] : i \in 1..Len(EnumTable[e].bits)}]

(* Bits set in a big-endian octet string, numbered from the least significant. *)
BitsOf(bs) == {8 * (Len(bs) - i) + b : i \in 1..Len(bs), b \in 0..7} \cap
              {j \in 0..(8 * Len(bs) - 1) : Bit(bs[Len(bs) - (j \div 8)], j % 8) = 1}

(* Is this octet string a code that enumeration e defines? *)
EnumKnown(e, bs) ==
  IF EnumIsFlags(e) THEN BitsOf(bs) \subseteq EnumBitSet[e]
  ELSE ToNat(bs) \in EnumCodeSet[e]

(* The octets the enumerator decoded from bs has: bs itself for a defined   *)
(* code, those of the default for any other.                                *)
EnumNorm(e, bs) ==
  IF EnumKnown(e, bs) THEN bs ELSE NatW(EnumTable[e].d, Len(bs))

(* The enumerator's name for a code, as the library prints it. *)
EnumNameOf(e, code) ==
  EnumTable[e].names[CHOOSE i \in 1..Len(EnumTable[e].codes) : EnumTable[e].codes[i] = code]
=============================================================================
