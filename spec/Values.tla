--------------------------------- MODULE Values ---------------------------------
(***************************************************************************)
(* Values to check theorems with: for every type, and for a list length n  *)
(* and a seed s, a value whose lists have n elements (and whose counts say *)
(* so), whose optional blocks are present iff n > 0, and whose leaves are  *)
(* all different where the seed is (they are zeros and defaults for seed   *)
(* 0).                                                                      *)
(***************************************************************************)
EXTENDS Wire

(* An octet for place i under seed s. *)
Pattern(s, i) == IF s = 0 THEN 0 ELSE IF s = 1 THEN 255 ELSE (s * 89 + i * 31 + ((s * i) % 7)) % 256
FillOctets(s, n) == [i \in 1..n |-> Pattern(s, i)]
FillText(s, n) == IF s = 0 THEN <<>> ELSE [i \in 1..((s * 5) % (n + 1)) |-> 65 + ((s + i) % 26)]
FillEnum(e, s, w) ==
  IF s = 0 THEN NatW(EnumTable[e].d, w)
  ELSE IF EnumIsFlags(e)
       THEN [k \in 1..w |-> LET j == (w - k) * 8 IN
               ((IF j \in EnumBitSet[e] THEN 1 ELSE 0) + (IF j + 2 \in EnumBitSet[e] THEN 4 ELSE 0)
                + (IF s % 2 = 1 /\ j + 1 \in EnumBitSet[e] THEN 2 ELSE 0))]
  ELSE NatW(EnumTable[e].codes[((s * 7) % Len(EnumTable[e].codes)) + 1], w)

(* The value vs with the count that expression c stands for made n. *)
SetCount(fs, vs, c, n, s) ==
  LET at == IndexOf(fs, c[2])
      w == TypeWidth(FieldOf(fs, c[2]).t)
  IN CASE c[1] = "f" -> [vs EXCEPT ![at] = NatW(n, w)]
       [] c[1] = "sub" -> LET rf == Records[FieldOf(fs, c[2]).t] IN
                          [vs EXCEPT ![at][IndexOf(rf, c[3])] = NatW(n, TypeWidth(FieldOf(rf, c[3]).t))]
       [] c[1] = "bits" -> [vs EXCEPT ![at] = NatW(8 * n - (IF n = 0 THEN 0 ELSE s % 8), w)]
       [] c[1] = "div8" -> [vs EXCEPT ![at] = NatW(8 * n + (s % 8), w)]
       [] c[1] = "mul" -> [vs EXCEPT ![at] = NatW(n, w), ![IndexOf(fs, c[3])] = NatW(1, TypeWidth(FieldOf(fs, c[3]).t))]

RECURSIVE Fill(_, _, _), FillFields(_, _, _, _, _)
FillField(f, n, s) ==
  CASE f.k = "one" -> Fill(f.t, n, s)
    [] f.k = "wide" -> FillEnum(f.t, s, f.c)
    [] f.k = "fixed" -> FillOctets(s, f.c)
    [] f.k = "data" -> FillOctets(s, n)
    [] f.k = "rest" -> <<>>
    [] f.k = "list" -> [i \in 1..n |-> Fill(f.t, (n + i) % (n + 1), IF s < 2 THEN s ELSE s + i)]
    [] f.k = "opt" -> IF n = 0 THEN <<>> ELSE <<FillOctets(s, 3 * n)>>
    [] f.k = "sized" -> FillOctets(s, 2 * n)
    [] f.k = "ulist" -> <<>>
    [] f.k = "text" -> FillText(s, f.c)
FillFields(fs, i, vs, n, s) ==
  IF i > Len(fs) THEN vs
  ELSE LET f == fs[i] IN
       IF ~HasValue(f) THEN FillFields(fs, i + 1, vs, n, s)
       ELSE LET v == FillField(f, n, IF s < 2 THEN s ELSE s + 3 * i)
                us == Append(vs, v)
            IN FillFields(fs, i + 1,
                 CASE f.k \in {"list", "data"} -> SetCount(fs, us, f.c, Len(v), s)
                   [] f.k = "opt" -> [us EXCEPT ![IndexOf(fs, f.l)] = NatW(IF v = <<>> THEN 0 ELSE Len(v[1]), Len(us[IndexOf(fs, f.l)]))]
                   [] f.k = "sized" -> [us EXCEPT ![IndexOf(fs, f.l)] = NatW(Len(v), Len(us[IndexOf(fs, f.l)]))]
                   [] OTHER -> us, n, s)
Fill(t, n, s) ==
  IF IsRec(t) THEN FillFields(Records[t], 1, <<>>, n, s)
  ELSE IF IsEnum(t) THEN FillEnum(t, s, EnumWidth(t))
  ELSE FillOctets(s, TypeWidth(t))

FillBody(p, n, s) == FillFields(PduFields(p), 1, <<>>, n, s)
FillHeader(p, s) ==
  [FillFields(HeadOf[p].fields, 1, <<>>, 0, s) EXCEPT ![HeadOf[p].type] = Nat1(Pdus[p].type)]
=============================================================================
