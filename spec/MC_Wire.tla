-------------------------------- MODULE MC_Wire --------------------------------
(***************************************************************************)
(* A message on its way.  A sender encodes a value of some PDU or record    *)
(* type; the octets arrive one after the other, then some of what follows  *)
(* them; at every moment a receiver tries to decode what has arrived.       *)
(* Checked for every type of the layout table:                              *)
(*   Size       the size computed is the number of octets (C01, C07)        *)
(*   Early      what has not arrived as a whole is "short" (C10)            *)
(*   Arrived    the whole decodes to the canonical value (C05, C06, C07),   *)
(*              and what follows is left alone (C07, C14)                   *)
(*   Fixpoint   what was decoded encodes to the same octets (C15)           *)
(*   Places     a field's value changes octets of its own place only (C03)  *)
(*   Foreign    decoding as any other type is refused (C08)                 *)
(***************************************************************************)
EXTENDS Values, TLC, Integers

CONSTANTS Lens,     \* list lengths
          Seeds,
          Trail,    \* octets that may follow
          Deliver,  \* octet by octet?
          What      \* "pdu", "user", "own", "record" or "both"

VARIABLES kind, name, nl, sd, bs, got
vars == <<kind, name, nl, sd, bs, got>>

ToTheEnd == {"GridAxisDescriptor#1", "GridDataRecord#0", "GridDataRecord#1"}

ValueOf(k, t, len, x) == IF k = "pdu" THEN FillBody(t, len, x) ELSE Fill(t, len, x)
Message(k, t, len, x) ==
  IF k = "pdu" THEN EncPdu(t, FillHeader(t, x), FillBody(t, len, x)) ELSE EncType(t, Fill(t, len, x))

Init ==
  \E k \in (IF What = "both" THEN {"pdu", "record"} ELSE IF What \in {"user", "own"} THEN {"pdu"} ELSE {What}) :
  \E t \in (IF What = "user" THEN UserNames ELSE IF What = "own" THEN OwnNames ELSE IF k = "pdu" THEN PduNames ELSE RecordNames) :
  \E len \in Lens : \E x \in Seeds :
    /\ kind = k /\ name = t /\ nl = len /\ sd = x /\ bs = <<>> /\ got = -1

Send ==
  /\ got = -1
  /\ bs' \in {Message(kind, name, nl, sd)}
  /\ got' = IF Deliver THEN 0 ELSE Len(bs')
  /\ UNCHANGED <<kind, name, nl, sd>>
Arrive == got >= 0 /\ got < Len(bs) + Trail /\ got' = got + 1 /\ UNCHANGED <<kind, name, nl, sd, bs>>
Spec == Init /\ [][Send \/ Arrive]_vars

(* What has arrived; what follows the message is not zero. *)
Arrived == IF got <= Len(bs) THEN SubSeq(bs, 1, got) ELSE bs \o [i \in 1..(got - Len(bs)) |-> (170 + i) % 256]

Res(k, t, o) ==
  IF k = "pdu" THEN LET d == DecPdu(t, o, 0) IN [ok |-> d.res = "ok", why |-> d.res, h |-> d.h, v |-> d.v, p |-> d.p]
  ELSE LET d == DecType(t, o, 0) IN [ok |-> d.ok, why |-> IF d.ok THEN "ok" ELSE "short", h |-> <<>>, v |-> d.v, p |-> d.p]
CanonOf(k, t, v) == IF k = "pdu" THEN CanonBody(t, v) ELSE CanonRec(Records[t], v)

Size == got = Len(bs) => Len(bs) = IF kind = "pdu" THEN SizeOf(name, ValueOf(kind, name, nl, sd)) ELSE SizeType(name, ValueOf(kind, name, nl, sd))

Delivered ==
  got >= 0 =>
  LET r == Res(kind, name, Arrived)
      v == ValueOf(kind, name, nl, sd)
  IN IF got < Len(bs) THEN ~r.ok /\ r.why = "short"
     ELSE /\ r.ok
          /\ (name \notin ToTheEnd => r.p = Len(bs) /\ r.v = CanonOf(kind, name, v))
          /\ (kind = "pdu" => r.h = Stamp(name, FillHeader(name, sd), Len(bs)))
          /\ (got = Len(bs) => /\ r.v = CanonOf(kind, name, v)
                               /\ (IF kind = "pdu" THEN EncPdu(name, r.h, r.v) ELSE EncType(name, r.v)) = bs)

Foreign ==
  (kind = "pdu" /\ got = Len(bs)) =>
    /\ \A t \in DOMAIN Pdus : (t # name /\ HeadOf[t] = HeadOf[name]) => DecPdu(t, bs, 0).res = "type"
    /\ \A c \in 0..255 : c # Pdus[name].type => DecPdu(name, [bs EXCEPT ![HeadOf[name].at] = c], 0).res = "type"
ASSUME \A t \in DOMAIN Pdus : LET h == EncHeader(t, FillHeader(t, 2)) IN
         Len(h) = HeadOf[t].size /\ h[HeadOf[t].at] = Pdus[t].type

(* The octets of field number i: from where, and how many. *)
FieldsOf(k, t) == IF k = "pdu" THEN PduFields(t) ELSE Records[t]
Places ==
  got = Len(bs) =>
    LET fs == FieldsOf(kind, name)
        v == ValueOf(kind, name, nl, sd)
        u == ValueOf(kind, name, nl, sd + 40)
        enc(x) == IF kind = "pdu" THEN EncBody(name, x) ELSE EncRecord(fs, x)
        old == enc(v)
    IN \A i \in 1..Len(fs) : (HasValue(fs[i]) /\ fs[i].k \notin {"opt", "sized"}) =>
         LET j == IndexOf(fs, fs[i].n)
             from == SizeFields(SubSeq(fs, 1, i - 1), v, 1, 1, 0)
             to == from + SizeField(fs[i], v[j], from)
             new == enc([v EXCEPT ![j] = u[j]])
         IN Len(new) = Len(old) => \A k \in 1..Len(old) : (k <= from \/ k > to) => new[k] = old[k]
=============================================================================
