--------------------------------- MODULE Wire ---------------------------------
(***************************************************************************)
(* The meaning of the layout tables: what octets a value is, and what value *)
(* octets are.                                                              *)
(*                                                                         *)
(* Values.  A primitive or an enumeration is the tuple of its octets; a     *)
(* record is the tuple of the values of its fields (padding has none); a    *)
(* list is the tuple of its elements; data and text are tuples of octets;   *)
(* an optional block is <<>> (absent) or <<octets>>.                        *)
(***************************************************************************)
EXTENDS Layouts, Enums

RecordType == [PduHeader |-> HeaderLayout]

IsPrim(t) == t \in PrimNames
IsRec(t)  == t \in RecordNames
IsEnum(t) == t \in EnumNames

TypeWidth(t) == IF IsPrim(t) THEN PrimWidth[t] ELSE EnumWidth(t)

HasValue(f) == f.k \notin {"pad", "align"}

(* Position, among the values of a record, of the field named n. *)
RECURSIVE ValueIndex(_, _, _, _)
ValueIndex(fs, n, i, j) ==
  IF HasValue(fs[i]) THEN IF fs[i].n = n THEN j ELSE ValueIndex(fs, n, i + 1, j + 1)
  ELSE ValueIndex(fs, n, i + 1, j)
IndexOf(fs, n) == ValueIndex(fs, n, 1, 1)

FieldOf(fs, n) == fs[CHOOSE i \in 1..Len(fs) : HasValue(fs[i]) /\ fs[i].n = n]

(* The number of elements (or octets) a count expression stands for, given  *)
(* the values of the fields read so far.                                    *)
CountOf(fs, c, vs) ==
  CASE c[1] = "f"    -> ToNat(vs[IndexOf(fs, c[2])])
    [] c[1] = "sub"  -> ToNat(vs[IndexOf(fs, c[2])][IndexOf(Records[FieldOf(fs, c[2]).t], c[3])])
    [] c[1] = "bits" -> (ToNat(vs[IndexOf(fs, c[2])]) + 7) \div 8
    [] c[1] = "div8" -> ToNat(vs[IndexOf(fs, c[2])]) \div 8
    [] c[1] = "mul"  -> SatMul(ToNat(vs[IndexOf(fs, c[2])]), ToNat(vs[IndexOf(fs, c[3])]))

(* Text in a fixed field: as many whole characters as fit (UTF-8: an octet  *)
(* in 128..191 continues a character), then zeros.                          *)
RECURSIVE CutAt(_, _)
CutAt(bs, n) == IF n = 0 \/ n >= Len(bs) \/ bs[n + 1] \notin 128..191 THEN n ELSE CutAt(bs, n - 1)
TextOctets(bs, w) ==
  LET n == IF Len(bs) <= w THEN Len(bs) ELSE CutAt(bs, w)
  IN SubSeq(bs, 1, n) \o Zeros(w - n)
RECURSIVE TrimZeros(_)
TrimZeros(bs) == IF bs # <<>> /\ bs[Len(bs)] = 0 THEN TrimZeros(SubSeq(bs, 1, Len(bs) - 1)) ELSE bs
(* Does an octet string hold no NUL at its end and only 7-bit characters?   *)
PlainText(bs) == (\A i \in 1..Len(bs) : bs[i] \in 1..127)

------------------------------------------------------------------------------
(* Encoding: the octets of a value.                                         *)
RECURSIVE EncType(_, _), EncFields(_, _, _, _, _), EncRange(_, _, _, _)

(* Elements a to b of a list (halved, so that long lists stay cheap). *)
EncRange(t, vs, a, b) ==
  IF b < a THEN <<>>
  ELSE IF a = b THEN EncType(t, vs[a])
  ELSE LET m == (a + b) \div 2 IN EncRange(t, vs, a, m) \o EncRange(t, vs, m + 1, b)
EncAll(t, vs) == EncRange(t, vs, 1, Len(vs))

(* One field; off is the offset from the start of the record. *)
EncField(f, v, off) ==
  CASE f.k = "one"   -> EncType(f.t, v)
    [] f.k = "wide"  -> v
    [] f.k = "fixed" -> v
    [] f.k = "data"  -> v
    [] f.k = "rest"  -> v
    [] f.k = "sized" -> v
    [] f.k = "list"  -> EncAll(f.t, v)
    [] f.k = "opt"   -> IF v = <<>> THEN <<>> ELSE v[1]
    [] f.k = "ulist" ->
         (CASE f.e = "one" -> EncAll(f.t, v)
           [] f.e = "opt" -> EncAll(f.t, SelectSeq([i \in 1..Len(v) |-> IF v[i] = <<>> THEN <<>> ELSE v[i][1]],
                                                   LAMBDA x : x # <<>>))
           [] f.e = "optlist" ->
                FlattenSeq([i \in 1..Len(v) |-> IF v[i] = <<>> THEN <<>> ELSE EncAll(f.t, v[i][1])]))
    [] f.k = "text"  -> TextOctets(v, f.c)
    [] f.k = "pad"   -> Zeros(f.c)
    [] f.k = "align" -> Zeros((f.c - (off % f.c)) % f.c)

EncFields(fs, vs, i, j, out) ==
  IF i > Len(fs) THEN out
  ELSE LET f == fs[i]
           o == EncField(f, IF HasValue(f) THEN vs[j] ELSE <<>>, Len(out))
       IN EncFields(fs, vs, i + 1, IF HasValue(f) THEN j + 1 ELSE j, out \o o)

EncRecord(fs, vs) == EncFields(fs, vs, 1, 1, <<>>)

(* A gridded-data record value is <<variant name, values>>. *)
IsVariant(t) == t \in {"GridAxisDescriptor", "GridDataRecord"}

EncType(t, v) ==
  IF IsRec(t) THEN EncRecord(Records[t], v)
  ELSE IF IsVariant(t) THEN EncRecord(Records[v[1]], v[2])
  ELSE v

------------------------------------------------------------------------------
(* Sizes, by arithmetic.  A type without lists, data or options has one     *)
(* size, whatever the value: StaticSize; 0 for the others (no type is       *)
(* empty).  MC_Wire.tla checks that SizeType is the number of octets.       *)
RECURSIVE StaticOf(_), StaticSum(_, _, _)
StaticSum(fs, i, n) ==
  IF i > Len(fs) THEN n
  ELSE LET f == fs[i] IN
       CASE f.k = "one" -> (LET w == StaticOf(f.t) IN IF w = 0 THEN 0 ELSE StaticSum(fs, i + 1, n + w))
         [] f.k \in {"wide", "fixed", "text", "pad"} -> StaticSum(fs, i + 1, n + f.c)
         [] f.k = "align" -> StaticSum(fs, i + 1, n + ((f.c - (n % f.c)) % f.c))
         [] OTHER -> 0
StaticOf(t) ==
  IF IsRec(t) THEN StaticSum(Records[t], 1, 0)
  ELSE IF IsPrim(t) \/ IsEnum(t) THEN TypeWidth(t) ELSE 0
StaticSize == [t \in RecordNames \cup PrimNames \cup EnumNames |-> StaticOf(t)]

RECURSIVE SizeType(_, _), SizeFields(_, _, _, _, _), SizeRange(_, _, _, _)
SizeRange(t, vs, a, b) ==
  IF b < a THEN 0
  ELSE IF a = b THEN SizeType(t, vs[a])
  ELSE LET m == (a + b) \div 2 IN SizeRange(t, vs, a, m) + SizeRange(t, vs, m + 1, b)
SizeAll(t, vs) ==
  IF ~IsVariant(t) /\ StaticSize[t] # 0 THEN Len(vs) * StaticSize[t] ELSE SizeRange(t, vs, 1, Len(vs))

SizeField(f, v, off) ==
  CASE f.k = "one" -> SizeType(f.t, v)
    [] f.k \in {"data", "rest", "sized"} -> Len(v)
    [] f.k = "list" -> SizeAll(f.t, v)
    [] f.k = "opt" -> IF v = <<>> THEN 0 ELSE Len(v[1])
    [] f.k = "ulist" -> (CASE f.e = "one" -> SizeAll(f.t, v)
                           [] OTHER -> Len(EncField(f, v, off)))
    [] f.k \in {"wide", "fixed", "text", "pad"} -> f.c
    [] f.k = "align" -> (f.c - (off % f.c)) % f.c
SizeFields(fs, vs, i, j, n) ==
  IF i > Len(fs) THEN n
  ELSE LET f == fs[i]
           k == SizeField(f, IF HasValue(f) THEN vs[j] ELSE <<>>, n)
       IN SizeFields(fs, vs, i + 1, IF HasValue(f) THEN j + 1 ELSE j, n + k)
SizeType(t, v) ==
  IF IsVariant(t) THEN SizeFields(Records[v[1]], v[2], 1, 1, 0)
  ELSE IF StaticSize[t] # 0 THEN StaticSize[t]
  ELSE SizeFields(Records[t], v, 1, 1, 0)

------------------------------------------------------------------------------
(* Decoding: the value at position p (octets bs[p+1], bs[p+2], ...) and the *)
(* position behind it; ok is FALSE if the octets run out first.             *)
Fail == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Got(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

Take(bs, p, n) == IF n > Len(bs) - p THEN Fail ELSE Got(SubSeq(bs, p + 1, p + n), p + n)

RECURSIVE DecType(_, _, _), DecFields(_, _, _, _, _, _), DecList(_, _, _, _)

(* n elements one after the other (the list is halved: every element takes  *)
(* at least one octet, so an absurd n fails as soon as the octets end).     *)
DecList(t, n, bs, p) ==
  IF n = 0 THEN Got(<<>>, p)
  ELSE IF n = 1 THEN LET r == DecType(t, bs, p) IN IF r.ok THEN Got(<<r.v>>, r.p) ELSE Fail
  ELSE IF n > Len(bs) - p THEN Fail
  ELSE LET a == DecList(t, n \div 2, bs, p) IN
       IF ~a.ok THEN Fail
       ELSE LET b == DecList(t, n - (n \div 2), bs, a.p) IN
            IF b.ok THEN Got(a.v \o b.v, b.p) ELSE Fail

DecField(fs, f, vs, bs, p, start) ==
  CASE f.k = "one"   -> DecType(f.t, bs, p)
    [] f.k = "wide"  -> LET r == Take(bs, p, f.c) IN IF r.ok THEN Got(EnumNorm(f.t, r.v), r.p) ELSE Fail
    [] f.k = "fixed" -> Take(bs, p, f.c)
    [] f.k = "data"  -> Take(bs, p, CountOf(fs, f.c, vs))
    [] f.k = "rest"  -> Take(bs, p, Len(bs) - p)
    [] f.k = "list"  -> DecList(f.t, CountOf(fs, f.c, vs), bs, p)
    [] f.k = "opt"   -> LET n == ToNat(vs[IndexOf(fs, f.l)])
                            r == Take(bs, p, n)
                        IN IF n = 0 THEN Got(<<>>, p) ELSE IF r.ok THEN Got(<<r.v>>, r.p) ELSE Fail
    [] f.k = "sized" -> Take(bs, p, ToNat(vs[IndexOf(fs, f.l)]))
    [] f.k = "ulist" -> Got(<<>>, p)
    [] f.k = "text"  -> LET r == Take(bs, p, f.c) IN IF r.ok THEN Got(TrimZeros(r.v), r.p) ELSE Fail
    [] f.k = "pad"   -> Take(bs, p, f.c)
    [] f.k = "align" -> Take(bs, p, (f.c - ((p - start) % f.c)) % f.c)

DecFields(fs, i, vs, bs, p, start) ==
  IF i > Len(fs) THEN Got(vs, p)
  ELSE LET r == DecField(fs, fs[i], vs, bs, p, start)
       IN IF r.ok THEN DecFields(fs, i + 1, IF HasValue(fs[i]) THEN Append(vs, r.v) ELSE vs, bs, r.p, start)
          ELSE Fail

DecRecord(fs, bs, p) == DecFields(fs, 1, <<>>, bs, p, p)

DecType(t, bs, p) ==
  IF IsRec(t) THEN DecRecord(Records[t], bs, p)
  ELSE LET r == Take(bs, p, TypeWidth(t))
       IN IF r.ok /\ IsEnum(t) THEN Got(EnumNorm(t, r.v), r.p) ELSE r

------------------------------------------------------------------------------
(* PDUs.  A value of the library's header is the tuple of its seven fields  *)
(* (version, exercise, type, family, timestamp, length, status).            *)
HeaderSize == 12
MaxPduSize == 8192

hVersion == 1  hExercise == 2  hType == 3  hFamily == 4
hTime == 5     hLength == 6    hStatus == 7

PduFields(t) == Pdus[t].fields

(* Length fields that serialization derives from optional and sized parts.  *)
OptFields(fs) == {i \in 1..Len(fs) : fs[i].k = "opt"}
RECURSIVE SetDerived(_, _, _)
SetDerived(fs, vs, i) ==
  IF i > Len(fs) THEN vs
  ELSE IF fs[i].k \in {"opt", "sized"}
       THEN LET b == vs[IndexOf(fs, fs[i].n)]
                n == IF fs[i].k = "sized" THEN Len(b) ELSE IF b = <<>> THEN 0 ELSE Len(b[1])
                w == TypeWidth(FieldOf(fs, fs[i].l).t)
            IN SetDerived(fs, [vs EXCEPT ![IndexOf(fs, fs[i].l)] = NatW(n, w)], i + 1)
       ELSE SetDerived(fs, vs, i + 1)
Derive(t, body) == SetDerived(PduFields(t), body, 1)

EncBody(t, body) == EncRecord(PduFields(t), body)
EncHeader(t, h) == EncRecord(HeadOf[t].fields, h)

(* Encoded size of a PDU; serialization and length queries agree on it.     *)
SizeOf(t, body) == HeadOf[t].size + SizeFields(PduFields(t), body, 1, 1, 0)

(* The header a PDU has after it was serialized. *)
Stamp(t, h, size) ==
  LET d == HeadOf[t]
      g == [h EXCEPT ![d.type] = Nat1(Pdus[t].type), ![d.length] = Nat2(size)]
  IN IF d.family = 0 THEN g ELSE [g EXCEPT ![d.family] = Nat1(Pdus[t].family)]

(* Serialization: the octets it appends. *)
EncPdu(t, h, body) ==
  LET b == EncBody(t, Derive(t, body))
  IN EncHeader(t, Stamp(t, h, HeadOf[t].size + Len(b))) \o b

(* Decoding as type t from position p: a value, "type" for a header of      *)
(* another type, "short" if the octets run out.                             *)
DecBody(t, bs, p) == DecRecord(PduFields(t), bs, p)
DecPdu(t, bs, p) ==
  LET h == DecRecord(HeadOf[t].fields, bs, p) IN
  IF ~h.ok THEN [res |-> "short", h |-> <<>>, v |-> <<>>, p |-> 0]
  ELSE IF h.v[HeadOf[t].type] # Nat1(Pdus[t].type) THEN [res |-> "type", h |-> <<>>, v |-> <<>>, p |-> 0]
  ELSE LET b == DecBody(t, bs, h.p) IN
       IF b.ok THEN [res |-> "ok", h |-> h.v, v |-> b.v, p |-> b.p]
       ELSE [res |-> "short", h |-> <<>>, v |-> <<>>, p |-> 0]

(* Peeking at the type of a buffer: <<>> for less than a header. *)
PeekType(bs) == IF Len(bs) < HeaderSize THEN <<>> ELSE <<EnumNorm("PduType", <<bs[3]>>)>>

(* What survives an encoding: text is cut to its field, an empty optional   *)
(* block is an absent one.                                                  *)
RECURSIVE Canon(_, _), CanonRec(_, _)
CanonField(f, v) ==
  CASE f.k = "one"  -> Canon(f.t, v)
    [] f.k = "list" -> [i \in 1..Len(v) |-> Canon(f.t, v[i])]
    [] f.k = "text" -> TrimZeros(TextOctets(v, f.c))
    [] f.k = "opt"  -> IF v = <<<<>>>> THEN <<>> ELSE v
    [] OTHER -> v
ValueFields(fs) == SelectSeq(fs, HasValue)
CanonRec(fs, vs) == LET ff == ValueFields(fs) IN [i \in 1..Len(vs) |-> CanonField(ff[i], vs[i])]
Canon(t, v) == IF IsRec(t) THEN CanonRec(Records[t], v) ELSE v
CanonHeader(t, h) == CanonRec(HeadOf[t].fields, h)
CanonBody(t, body) == CanonRec(PduFields(t), Derive(t, body))
=============================================================================
