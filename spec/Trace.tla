--------------------------------- MODULE Trace ---------------------------------
(***************************************************************************)
(* Recorded behaviour of the real library, judged by the specification.     *)
(*                                                                         *)
(* IOEnv.TRACE names a file of recorded sessions (one per line); each is an *)
(* initial state, and every step takes one recorded event, which has to be  *)
(* what the operators of Api.tla (and StatusBits, DisTime, VectorOps) say   *)
(* about that operation in the state reached so far, as far as the property *)
(* IOEnv.PROP speaks about it.  An event that is not ends its session with  *)
(* a printed REJECT; an event explained only by a recorded known finding is *)
(* printed as KNOWN.  Sessions always run to their end or to a REJECT: the  *)
(* driver compares the number of states with the number of events.          *)
(***************************************************************************)
EXTENDS Made, Refusals, Checked, Utf8, StatusBits, VectorOps, DisTime, Integers, TLC, IOUtils

Sessions == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
(* Everything about an object is judged, not only what one property says.   *)
Strict == Prop \in {"C24", "C26", "C28", "C29"}

VARIABLES ses,   \* which session
          pos,   \* the next event of it; 0 once rejected
          cur    \* the state the specification has reached
vars == <<ses, pos, cur>>
(* Judgements take the state as an argument s: TLC evaluates an operator    *)
(* that mentions no variable once, and one that does many times over.       *)

Events(k) == Sessions[k].evs

NoObject == [t |-> "", h |-> <<>>, v |-> <<>>]
Start == [o |-> NoObject,    \* the object
          last |-> <<>>,     \* octets of the last serialization
          rep |-> <<>>,      \* the same, if nothing was edited since
          relay |-> <<>>,    \* the octets the object was decoded from, if nothing was edited since
          asked |-> -1,      \* length last computed, -1 if something was edited since
          q |-> <<>>,        \* PDUs written to the stream and not yet read
          buf |-> <<>>,      \* what the stream buffer holds
          bits |-> 0,        \* the status octet
          at |-> 0,          \* octets to pass over before the next PDU
          seen |-> <<>>]     \* the last decoding of arbitrary octets

Edited(s, o) == [s EXCEPT !.o = o, !.rep = <<>>, !.relay = <<>>, !.asked = -1]

(* What a judgement can be. *)
Accept(st) == [ok |-> TRUE, s |-> st, known |-> ""]
Reject == [ok |-> FALSE, s |-> Start, known |-> ""]
Known(st, k) == [ok |-> TRUE, s |-> st, known |-> k]
When(b, st) == IF b THEN Accept(st) ELSE Reject

Has(x) == x # <<>>
Lost(e) == e.r \in {"lost", "panic"}

------------------------------------------------------------------------------
(* Parts of a body value that a property does not speak about are blanked.  *)
SizedTypes == {"VariableDatumRecord", "RecordSpecificationElement", "RecordSpecification", "StandardVariableRecords",
  "StandardVariableSpecification", "AttributeRecord", "AttributeRecordSet", "VariableTransmitterParameters",
  "ElectromagneticEmissionSystemData", "AcousticEmitterSystemData"}

RECURSIVE FixedOf(_, _), ListsOf(_, _)
(* fixed-layout fields only *)
FixedOf(fs, v) ==
  LET ff == ValueFields(fs) IN
  [k \in 1..Len(ff) |->
     CASE ff[k].k = "one" -> IF IsRec(ff[k].t) THEN FixedOf(Records[ff[k].t], v[k]) ELSE v[k]
       [] ff[k].k \in {"wide", "fixed"} -> v[k]
       [] OTHER -> <<>>]
(* everything but text and optional blocks *)
ListsOf(fs, v) ==
  LET ff == ValueFields(fs) IN
  [k \in 1..Len(ff) |->
     CASE ff[k].k = "one" -> IF IsRec(ff[k].t) THEN ListsOf(Records[ff[k].t], v[k]) ELSE v[k]
       [] ff[k].k = "list" -> [m \in 1..Len(v[k]) |-> IF IsRec(ff[k].t) THEN ListsOf(Records[ff[k].t], v[k][m]) ELSE v[k][m]]
       [] ff[k].k \in {"opt", "text"} -> <<>>
       [] OTHER -> v[k]]
SizedOf(fs, v) ==
  LET ff == ValueFields(fs) IN [k \in 1..Len(ff) |-> IF ff[k].t \in SizedTypes THEN v[k] ELSE <<>>]

(* Body values have the shape their layout says (so that the above is defined). *)
Shaped(t, v) == Len(v) = Len(ValueFields(PduFields(t)))

------------------------------------------------------------------------------
(* A header by itself, of either kind: it holds what it was given, answers  *)
(* with it, and is written with it.                                         *)
JHnew(s, e) == When(~Lost(e) /\ e.acc = <<e.h[hType], e.h[hFamily], e.h[hLength]>>,
                    [s EXCEPT !.o = [t |-> e.t, h |-> e.h, v |-> <<>>]])
JHstep(s, e) ==
  LET h == [s.o.h EXCEPT ![e.i] = e.v] IN
  When(~Lost(e) /\ e.h = h /\ e.acc = <<h[hType], h[hFamily], h[hLength]>> /\ e.out = EncType(s.o.t, h),
       [s EXCEPT !.o.h = h])

------------------------------------------------------------------------------
(* Objects: creation, editing, length, finalize, serialize.                 *)
JObj(s, e) ==
  LET st == Edited(s, [t |-> e.t, h |-> e.h, v |-> e.v]) IN
  When(/\ ~Lost(e) /\ Shaped(e.t, e.v)
       /\ Strict => e.any /\ (IF e.how = "decoded"
                               THEN LET d == DecPdu(e.t, s.last, 0) IN d.res = "ok" /\ e.h = d.h /\ e.v = d.v
                               ELSE [t |-> e.t, h |-> e.h, v |-> e.v] = Fresh(e.t, e.how, IF e.t \in OwnNames THEN <<>> ELSE e.h[hTime])),
       IF Prop = "C15" /\ e.how = "decoded"
       THEN LET d == DecPdu(e.t, s.last, 0) IN
            IF d.res = "ok" /\ d.p = Len(s.last) /\ EncPdu(e.t, d.h, d.v) = s.last THEN [st EXCEPT !.relay = s.last] ELSE st
       ELSE st)
JBody(s, e) == Accept(Edited(s, SetBody(s.o, e.v)))
JBigBody(s, e) ==
  LET x == IF e.data THEN e.elem[1] ELSE e.elem IN
  Accept(Edited(s, SetBody(s.o, [e.v EXCEPT ![e.i] = [k \in 1..e.n |-> x]])))
JField(s, e) == Accept(Edited(s, SetField(s.o, e.i, e.v)))
(* What the header answers when asked for its type, family and length. *)
Answered(e, h) == Has(e.acc) => e.acc = <<h[hType], h[hFamily], h[hLength]>>
JHset(s, e) == LET o == SetHeaderField(s.o, e.i, e.v) IN
            IF Prop = "C04" \/ Strict THEN When(e.h = o.h /\ Answered(e, e.h), Edited(s, o)) ELSE Accept(Edited(s, SetHeader(s.o, e.h)))
JHdr(s, e) == IF Prop = "C04" \/ Strict THEN When(e.seen = e.h /\ Answered(e, e.h), Edited(s, SetHeader(s.o, e.h))) ELSE Accept(Edited(s, SetHeader(s.o, e.seen)))

(* The object could not be given a value.  The optional blocks are made by  *)
(* the library's decoder from the block's octets; everything else here is   *)
(* the business of the enumerations (C12).                                  *)
JBound(s, e) ==
  IF (Prop = "C17" \/ Strict) /\ e.t \in DOMAIN Pdus
  THEN LET fs == PduFields(e.t) IN
       When(/\ Has(e.got) /\ \A k \in OptFields(fs) : e.got[IndexOf(fs, fs[k].n)] = e.want[IndexOf(fs, fs[k].n)], s)
  ELSE Accept(s)

JCalc(s, e) ==
  IF Prop = "C02"
  THEN LET big == LengthOf(s.o)[1] # "ok" IN
       When(~Lost(e) /\ (e.r = "ok") = ~big /\ (big => e.r = "size"), s)
  ELSE IF Strict
  THEN LET n == LengthOf(s.o) IN When(e.r = n[1] /\ (n[1] = "ok" => ToNat(e.n) = n[2]), s)
  ELSE IF e.r = "ok" THEN Accept([s EXCEPT !.asked = ToNat(e.n)])
  ELSE When(e.r # "lost" /\ e.r # "panic" /\ (Prop = "C01" => LengthOf(s.o)[1] = "size"), [s EXCEPT !.asked = -1])

JFin(s, e) ==
  LET st == [s EXCEPT !.o = SetHeader(s.o, e.h), !.rep = <<>>]
      f == Finalize(s.o)
  IN CASE Lost(e) -> Reject
       [] Strict -> When(e.h = f.h /\ Answered(e, e.h), [s EXCEPT !.o = f])
       [] Prop = "C01" -> When(LengthOf(s.o)[1] = "ok" => (s.asked >= 0 => Nat2(s.asked) = e.h[hLength]) /\ (Has(e.acc) => e.acc[3] = e.h[hLength]),
                               [st EXCEPT !.asked = IF LengthOf(s.o)[1] = "ok" THEN ToNat(e.h[hLength]) ELSE -1])
       [] Prop = "C04" -> When(\A k \in {hVersion, hExercise, hTime, hStatus} : e.h[k] = f.h[k] /\ Answered(e, e.h), st)
       [] OTHER -> Accept(st)

(* Octets 3, 4 and 9-10 of a message are its type, family and length. *)
Blank(bs) == [k \in 1..Len(bs) |-> IF k \in {3, 4, 9, 10} THEN 0 ELSE bs[k]]

(* Offset, in the message, of field number j of the transmitter's layout. *)
OffsetOf(fs, vs, name) ==
  LET k == CHOOSE k \in 1..Len(fs) : fs[k].n = name
  IN HeaderSize + Len(EncFields(SubSeq(fs, 1, k - 1), vs, 1, 1, <<>>))

JSer(s, e) ==
  LET o == s.o
      w == Emit(o)
      big == w.res = "size"
      st == [s EXCEPT !.o = [t |-> o.t, h |-> e.h, v |-> w.o.v], !.last = e.out, !.rep = e.out,
                      !.asked = -1]
      good == e.r = "ok" /\ e.kept
  IN
  CASE Lost(e) -> Reject
    [] Prop = "C02" -> When(e.kept /\ (IF big THEN e.r = "size" /\ e.out = <<>> ELSE e.r = "ok" /\ Len(e.out) <= MaxPduSize), st)
    [] Strict -> IF big THEN When(e.kept /\ e.r = "size" /\ e.out = <<>>, [st EXCEPT !.rep = <<>>, !.last = s.last])
                 ELSE When(good /\ e.out = w.out /\ e.h = w.o.h /\ Answered(e, e.h), st)
    [] big -> Accept([st EXCEPT !.rep = <<>>, !.last = s.last])
    [] Prop = "C01" -> When(good /\ Len(e.out) >= HeaderSize
                            /\ ToNat(SubSeq(e.out, 9, 10)) = Len(e.out)
                            /\ e.h[hLength] = Nat2(Len(e.out)) /\ (Has(e.acc) => e.acc[3] = e.h[hLength])
                            /\ (s.asked >= 0 => s.asked = Len(e.out)),
                            [st EXCEPT !.asked = Len(e.out)])
    [] Prop = "C03" -> When(good /\ Blank(e.out) = Blank(w.out), st)
    [] Prop = "C04" -> LET h == Stamp(o.t, o.h, Len(e.out)) IN
                       When(good /\ Len(e.out) >= HeaderSize /\ SubSeq(e.out, 1, HeaderSize) = EncHeader(o.t, h) /\ e.h = h /\ Answered(e, h)
                            /\ (s.rep # <<>> => s.rep = e.out), st)
    [] Prop = "C14" -> When(good /\ e.post = e.pre \o e.out /\ e.pre = s.buf,
                            [st EXCEPT !.buf = e.post,
                                       !.q = Append(s.q, [t |-> o.t, h |-> e.h, v |-> CanonBody(o.t, w.o.v), n |-> Len(e.out)])])
    [] Prop = "C17" -> LET fs == PduFields(o.t) IN
                       When(good /\ \A k \in OptFields(fs) :
                              LET p == OffsetOf(fs, w.o.v, fs[k].l)
                                  x == w.o.v[IndexOf(fs, fs[k].l)]
                              IN Len(e.out) >= p + Len(x) /\ SubSeq(e.out, p + 1, p + Len(x)) = x
                                 /\ e.v[IndexOf(fs, fs[k].l)] = x /\ e.v[IndexOf(fs, fs[k].n)] = w.o.v[IndexOf(fs, fs[k].n)], st)
    [] Prop = "C15" -> When(e.v = w.o.v /\ (s.relay # <<>> => e.r = "ok" /\ e.out = s.relay), [st EXCEPT !.relay = s.relay])
    [] OTHER -> Accept(st)

(* An optional part by itself: new ones are empty and take nothing, read    *)
(* ones hold as many octets as they were said to have and take no more; of  *)
(* length zero there is none.                                               *)
JPart(s, e) ==
  LET m == IF e.how \in {"new", "default", "plain"} THEN 0 ELSE e.n
      x == SubSeq(e.bs, 1, m)
  IN When(~Lost(e) /\ e.rem = Len(e.bs) - m
          /\ e.got = IF m = 0 /\ e.how \in {"length", "maybe"} THEN <<>> ELSE <<x, x, m>>, s)

(* Records out of their constructors; an object after others came and went. *)
JMade(s, e) ==
  CASE Lost(e) -> Reject
    [] e.how = "whole" -> When(e.v = e.args[1], s)
    [] OTHER -> LET tm == IF e.t \in HeaderKinds THEN e.v[hTime] ELSE <<>> IN
                When(e.v = IF e.how = "new" THEN Construct(e.t, e.args, tm) ELSE StartOf(e.t, tm), s)
(* Objects may be handed to other threads, and shared with them.            *)
JAuto(s, e) == When(e.send /\ e.sync, s)
JStill(s, e) == When(e.h = s.o.h /\ e.v = s.o.v, s)

------------------------------------------------------------------------------
(* Decoding what was serialized last, with e.tail behind it.                *)
JDecLast(s, e) ==
  LET t == s.o.t
      fs == PduFields(t)
      want == CanonBody(t, s.o.v)
      whole == e.r = "ok" /\ Shaped(t, e.v) /\ e.rem = Len(e.tail)
      unread == \E k \in 1..Len(fs) : fs[k].k = "ulist" /\ s.o.v[IndexOf(fs, fs[k].n)] # <<>>
      alone == DecPdu(t, s.last, 0)
  IN CASE Lost(e) -> Reject
       [] Strict -> When(whole /\ e.h = CanonHeader(t, s.o.h) /\ e.v = want, s)
       [] Prop = "C05" -> When(whole /\ e.h = s.o.h /\ FixedOf(fs, e.v) = FixedOf(fs, want), s)
       [] Prop = "C06" ->
            IF e.r = "ok" /\ Shaped(t, e.v) /\ ListsOf(fs, e.v) = ListsOf(fs, want) THEN Accept(s)
            ELSE IF unread /\ e.r = "ok" /\ Shaped(t, e.v) /\ alone.res = "ok" /\ ListsOf(fs, e.v) = ListsOf(fs, alone.v)
                 THEN Known(s, "lists-not-decoded " \o t)
            ELSE Reject
       [] Prop = "C17" -> When(e.r = "ok" /\ Shaped(t, e.v) /\ \A k \in OptFields(fs) :
                                 LET a == IndexOf(fs, fs[k].n) b == IndexOf(fs, fs[k].l)
                                 IN e.v[a] = want[a] /\ e.v[b] = want[b], s)
       [] Prop = "C19" -> When(whole /\ SizedOf(fs, e.v) = SizedOf(fs, want), s)
       [] Prop = "C21" /\ t = "AggregateStatePdu" -> When(whole /\ e.v = want, s)
       [] Prop = "C21" ->
            LET m == CHOOSE k \in 1..Len(ValueFields(fs)) : ValueFields(fs)[k].t = "EntityMarking"
                txt == s.o.v[m][2]
            IN When(whole /\ (\A k \in 1..Len(e.v) : k # m => e.v[k] = want[k]) /\ e.v[m][1] = want[m][1]
                    /\ (IF Len(txt) <= 11 THEN e.v[m] = want[m] ELSE PlainText(txt) => IsPrefixOf(e.v[m][2], txt)), s)
       [] OTHER -> Accept(s)

(* Whether the record's known finding explains it: these decoders take      *)
(* everything that follows for padding.                                     *)
GreedyTail == {"GridAxisDescriptor#1", "GridDataRecord#0", "GridDataRecord#1"}
JRec(s, e) ==
  LET len == Len(e.enc)
      isVar == IsVariant(e.t)
      want == IF e.t = "PduHeader" THEN e.v ELSE Canon(e.t, e.v)
      lengths == (Has(e.flen) => e.flen[1] = len) /\ (Has(e.clen) => e.clen[1] = len)
      back == e.dv = want /\ e.dn = len
      fback == Has(e.fdv) => e.fdv[1] = want /\ e.fdn[1] = len
      greedy(v, k) == v[1] = want[1] /\ k = len + Len(e.tail)
                      /\ (\A j \in 1..(Len(want[2]) - 1) : v[2][j] = want[2][j])
                      /\ v[2][Len(want[2])] = want[2][Len(want[2])] \o e.tail
      spec == EncType(e.t, e.v)
  IN CASE Lost(e) -> Reject
       [] Prop = "C07" ->
            IF lengths /\ (Has(e.fenc) => e.fenc[1] = e.enc) /\ back /\ fback THEN Accept(s)
            ELSE IF isVar /\ e.v[1] \in GreedyTail /\ Len(e.tail) > 0 /\ lengths /\ (Has(e.fenc) => e.fenc[1] = e.enc)
                    /\ greedy(e.dv, e.dn) /\ (Has(e.fdv) => greedy(e.fdv[1], e.fdn[1]))
                 THEN Known(s, "record-absorbs-what-follows " \o e.v[1])
            ELSE Reject
       [] Prop = "C29" -> When((isVar /\ e.v[1] \in GreedyTail /\ Len(e.tail) > 0)
                               \/ (lengths /\ e.enc = spec /\ (Has(e.fenc) => e.fenc[1] = spec) /\ back /\ fback), s)
       [] Prop = "C19" -> When(lengths /\ back /\ fback /\ (IF e.t = "VariableDatumRecord" THEN e.enc = spec ELSE len = Len(spec)), s)
       [] Prop = "C21" /\ e.t = "AggregateMarking" -> When(lengths /\ back /\ fback /\ e.enc = spec, s)
       [] Prop = "C21" -> LET txt == e.v[2] IN
                          When(len = 12 /\ <<e.enc[1]>> = e.v[1] /\ e.dn = 12 /\ e.dv[1] = e.v[1] /\ lengths
                               /\ (Has(e.fdv) => e.fdv[1] = e.dv /\ e.fdn[1] = 12)
                               /\ (IF Len(txt) <= 11 THEN e.dv = want ELSE PlainText(txt) => IsPrefixOf(e.dv[2], txt)), s)
       [] OTHER -> Accept(s)

(* A record whose counts need not agree with its lists: what is written is   *)
(* as long as the record says.                                              *)
JLoose(s, e) ==
  When(~Lost(e) /\ (Has(e.flen) => e.flen[1] = Len(e.enc)) /\ (Has(e.clen) => e.clen[1] = Len(e.enc))
       /\ (Has(e.fenc) => e.fenc[1] = e.enc), s)

(* Sizes around the ceiling: field e.i holds e.n times the element e.elem.  *)
JBig(s, e) ==
  LET unit == IF e.data THEN 1 ELSE SizeType(e.et, e.elem)
      size == SizeOf(e.t, e.v) + e.n * unit
      refused(r) == r \notin {"ok", "panic", "lost"}
  IN IF e.total # size THEN Reject
     ELSE IF size <= MaxPduSize
     THEN When(e.cr = "ok" /\ e.sr = "ok" /\ e.sr2 = "ok" /\ e.kept /\ e.valid, s)
     ELSE When(refused(e.cr) /\ refused(e.sr) /\ e.kept /\ e.grew = 0 /\ refused(e.sr2) /\ e.grew2 = 0 /\ ~e.valid, s)

(* What refusals say: <<kind, number, number, the text shows them>>.         *)
JTooLarge(s, e) ==
  LET size == SizeOf(e.t, e.v) + e.n * (IF e.data THEN 1 ELSE SizeType(e.et, e.elem)) IN
  When(\A k \in 1..Len(e.ws) : e.ws[k] = IF size <= MaxPduSize THEN <<"ok", 0, 0, TRUE>> ELSE TooLarge(size), s)
JTooShort(s, e) ==
  LET all == IF e.without THEN Len(e.bs) - HeaderSize ELSE Len(e.bs) IN
  When(/\ DecPdu(e.t, e.bs, 0).res = "ok" /\ DecPdu(e.t, e.bs, 0).p = Len(e.bs)
       /\ \A k \in 1..Len(e.rs) : LET w == e.rs[k][2] IN w[4] /\ TooShort(e.rs[k][1], <<w[1], w[2], w[3]>>), s)
JOther(s, e) == When(\A k \in 1..Len(e.rs) : e.rs[k] = <<"type", 0, 0, TRUE>>, s)
(* A decoder that reads as it likes: everything it got, whether the message *)
(* was taken, and if not why, and if so what is left of it.                 *)
JScript(s, e) ==
  When(e.all /\ \E t \in {Run(Reading(e.bs), e.ops, 1)} :
         /\ t # <<>>
         /\ IF t[1].err = <<>> THEN e.r = <<"ok", 0, 0>> /\ e.left = Len(t[1].left)
            ELSE e.r = <<"short", t[1].err[1], t[1].err[2]>>, s)
JErr(s, e) == When(e.got = e.name /\ e.holds = e.args /\ e.shows /\ e.source = e.given, s)

------------------------------------------------------------------------------
(* Decoding arbitrary octets.                                               *)
JGate(s, e) ==
  LET own == Pdus[e.t].type IN
  When(\A c \in 0..255 :
         IF c = own THEN (e.whole => e.rs[c + 1] = "ok") /\ e.rs[c + 1] # "type"
         ELSE e.rs[c + 1] \notin {"ok", "panic", "lost"}, s)
JGateWo(s, e) ==
  LET own == Pdus[e.t].type IN
  When(\A k \in 1..Len(e.codes) :
         IF e.codes[k] = own THEN (e.whole => e.rs[k] = "ok") /\ e.rs[k] # "type"
         ELSE e.rs[k] \notin {"ok", "panic", "lost"}, s)

JPeek(s, e) ==
  When(\A c \in 1..Len(e.rs) :      \* of the n octets the first ones
         LET r == e.rs[c][1] full == e.rs[c][2] IN
         IF e.n < HeaderSize THEN r = <<>>
         ELSE r = full /\ Len(r) = 1 /\ r[1] <= 255 /\ ((c - 1) \notin EnumCodeSet["PduType"] => r = <<0>>), s)

JCuts(s, e) ==
  LET w == Emit(s.o)
      sound == (e.all = "ok" /\ e.rem = 0) \/ e.bs = EncPdu(s.o.t, s.o.h, s.o.v)
  IN When(sound => /\ Len(e.rs) = Len(e.bs) /\ \A k \in 1..Len(e.rs) : e.rs[k] = "short"
                   /\ \A k \in 1..Len(e.ws) : e.ws[k] = "short", s)

(* Allocation stays within a constant plus a multiple of the input.         *)
JHostile(s, e) ==
  LET size == Len(e.bs) IN
  When(~Lost(e) /\ e.rem <= size /\ e.peak <= 32768 + 128 * size /\ e.total <= 65536 + 512 * size /\ e.ms <= 300, s)

(* A list of very many equal elements: the octets are not written down, but  *)
(* what they are follows from the element and the other fields.             *)
JVast(s, e) ==
  LET fs == PduFields(e.t) f == ValueFields(fs)[e.i] size == e.n - e.cut + e.tail IN
  IF ~(/\ CountOf(fs, f.c, e.v) = e.k
       /\ e.n = SizeOf(e.t, e.v) + e.k * (IF e.data THEN 1 ELSE SizeType(e.et, e.elem))
       /\ e.cut <= e.n - HeadOf[e.t].size)
  THEN Reject
  ELSE When(/\ ~Lost(e) /\ e.rem <= size
            /\ (CASE Prop = "C11" -> TRUE
                  [] e.cut > 0 -> e.r = "short"
                  [] OTHER -> e.r = "ok" /\ e.rem = e.tail /\ e.len = e.k /\ e.rest = CanonBody(e.t, e.v)
                              /\ e.els = IF e.k = 0 THEN <<>> ELSE <<IF e.data THEN e.elem ELSE Canon(e.et, e.elem)>>)
            /\ (Prop = "C11" => e.peak <= 32768 + 128 * size /\ e.total <= 65536 + 512 * size /\ e.ms <= 300 + size \div 1000), s)

JDec(s, e) == When(~Lost(e) \/ (Prop = "C20" /\ e.r = "panic"), [s EXCEPT !.seen = <<e>>])
JAgain(s, e) ==
  LET d == s.seen[1] IN
  When(e.r = d.r /\ (e.r # "panic" => e.rem = d.rem) /\ e.h = d.h /\ e.v = d.v, s)

(* The same octets with the header read first, or with another header.      *)
JSplit(s, e) ==
  LET d == s.seen[1] IN
  IF d.r \in {"panic", "lost"} THEN Accept(s)      \* that is for C11
  ELSE When(~Lost(e) /\ (e.r = "ok") = (d.r = "ok") /\ (d.r = "ok" => e.rem = d.rem /\ e.h = d.h /\ e.v = d.v), s)
JGiven(s, e) ==
  LET d == s.seen[1] IN
  IF d.r \in {"panic", "lost"} THEN Accept(s)
  ELSE When(~Lost(e) /\ (e.r = "ok") = (d.r = "ok") /\ (d.r = "ok" => e.rem = d.rem /\ e.h = e.g /\ e.v = d.v), s)

(* What any octets say.  Text that is no UTF-8 has no value to compare.     *)
RECURSIVE Readable(_, _, _)
Readable(fs, v, d) ==
  LET ff == ValueFields(fs) IN
  Len(v) = Len(ff) /\
  \A k \in 1..Len(ff) :
    CASE ff[k].k = "text" -> ValidUtf8(d[k]) => v[k] = d[k]
      [] ff[k].k = "one" -> (IF IsRec(ff[k].t) THEN Readable(Records[ff[k].t], v[k], d[k]) ELSE v[k] = d[k])
      [] OTHER -> v[k] = d[k]
JRead(s, e) ==
  LET d == DecPdu(e.t, e.bs, 0) fs == PduFields(e.t) IN
  IF Prop = "C19"
  THEN When(~Lost(e) /\ (e.r = "ok") = (d.res = "ok")
            /\ (d.res = "ok" => e.rem = Len(e.bs) - d.p /\ SizedOf(fs, e.v) = SizedOf(fs, d.v)), s)
  ELSE
  When(~Lost(e) /\ (e.r = "ok") = (d.res = "ok")
       /\ (d.res = "ok" => Readable(HeadOf[e.t].fields, e.h, d.h) /\ e.rem = Len(e.bs) - d.p /\ Readable(PduFields(e.t), e.v, d.v)), s)

JReceived(s, e) ==
  LET d == DecPdu(e.t, e.bs, 0) IN
  When(e.r = "ok" /\ d.res = "ok" /\ e.rem = Len(e.bs) - d.p /\ e.h = d.h /\ Shaped(e.t, e.v)
       /\ (\A k \in 1..Len(e.v) : k # e.i => e.v[k] = d.v[k]) /\ e.v[e.i][1] = d.v[e.i][1]
       /\ (ValidUtf8(e.field) => e.v[e.i][2] = TrimZeros(e.field)), s)

------------------------------------------------------------------------------
(* Streams and relays.                                                      *)
JOpen(s, e) == Accept([s EXCEPT !.buf = e.pre, !.at = Len(e.pre)])
JNext(s, e) ==
  IF Lost(e) \/ s.q = <<>> THEN Reject
  ELSE LET p == Head(s.q)
           skip == s.at + p.n       \* the octets before the first PDU are passed over once
           rest == SubSeq(s.buf, skip + 1, Len(s.buf))
       IN When(e.r = "ok" /\ e.t = p.t /\ e.h = p.h /\ e.v = p.v /\ e.rem = rest,
               [s EXCEPT !.q = SubSeq(s.q, 2, Len(s.q)), !.buf = rest, !.at = 0])

JWire(s, e) == IF e.bs = EncPdu(e.t, e.h, e.v) THEN Accept([s EXCEPT !.last = e.bs])
            ELSE Assert(FALSE, <<"the harness made other octets than the specification", e.t, e.h, e.v, e.bs>>)
JHop(s, e) ==
  IF e.h = <<>> THEN Accept(s)        \* it was not decoded
  ELSE When(e.r = "ok" /\ e.out = s.last /\ e.v2 = Derive(e.t, e.v), s)

------------------------------------------------------------------------------
(* Enumerations.                                                            *)
OneBit(b, w) == [k \in 1..w |-> IF k = w - (b \div 8) THEN P2[(b % 8) + 1] ELSE 0]
OwnOf(e) ==
  LET x == EnumTable[e.e] IN
  IF x.bits = <<>> THEN [k \in 1..Len(x.codes) |-> <<NatW(x.codes[k], x.w), x.names[k]>>]
  ELSE <<<<Zeros(x.w), e.e \o "(0x0)">>>> \o
       [k \in 1..Len(x.bits) |-> <<OneBit(x.bits[k], x.w), e.e \o "(" \o x.bnames[k] \o ")">>]
JEnum(s, e) ==
  LET x == EnumTable[e.e] IN
  When(/\ e.w = x.w
       /\ (x.w = 1 => e.n = 256) /\ (x.w = 2 => e.n = 65536)
       /\ e.own = OwnOf(e) /\ e.odd = <<>> /\ e.used = <<x.w>>
       /\ \A k \in 1..Len(e.fields) : e.fields[k] \in {<<>>, <<x.w, x.w, x.w>>}, s)

------------------------------------------------------------------------------
(* The status octet.                                                        *)
GetsOf(b) == [k \in 1..Len(SubFields) |-> Get(b, SubFields[k].n)]
JStatus(s, e) ==
  When(/\ ~Lost(e) /\ e.u = e.b /\ e.wire[11] = e.b /\ e.back = e.b /\ e.zero = 0 /\ e.def = 0
       /\ e.gets = GetsOf(e.b)
       /\ e.names = [k \in 1..Len(SubFields) |-> SubFields[k].n]
       /\ \A k \in 1..Len(SubFields) :
            e.sets[k] = [a \in 1..(SubFields[k].max + 1) |-> Put(e.b, SubFields[k].n, a - 1)], s)
JBits(s, e) ==
  LET want == CASE e.how = "start" -> e.b
                [] e.how = "set" -> Put(s.bits, e.f, e.a)
                [] OTHER -> s.bits
  IN When(~Lost(e) /\ e.b = want /\ e.gets = GetsOf(e.b), [s EXCEPT !.bits = e.b])

(* The clock.                                                               *)
JClock(s, e) ==
  IF Lost(e) \/ e.t[1] >= 128 THEN Reject
  ELSE LET t == ((e.t[1] * 256 + e.t[2]) * 256 + e.t[3]) * 256 + e.t[4]
           a == e.served[1]
           b == e.served[Len(e.served)]
           top == UnitsOf(3599, 999999)
       IN When(Between(t, UnitsOf(a[1], a[2]), UnitsOf(b[1], b[2]), e.same_hour) /\ t <= top + Tolerance(top), s)

(* Vectors.                                                                 *)
Exactly(r, v) == r.e /\ r.v = v
JVec(s, e) ==
  When(/\ ~Lost(e)
       /\ Exactly(e.add, VAdd(e.a, e.b)) /\ Exactly(e.sub, VSub(e.a, e.b)) /\ Exactly(e.mul, VMul(e.a, e.c))
       /\ (e.div # <<>> => Exactly(e.div[1], e.a))
       /\ Exactly(e.dot, <<VDot(e.a, e.b)>>) /\ Exactly(e.cross, VCross(e.a, e.b)), s)
(* Component e.i of an operand was no ordinary number.                      *)
JVecOdd(s, e) ==
  When(/\ ~Lost(e)
       /\ Exactly(e.add, Besides(VAdd(e.a, e.b), e.i)) /\ Exactly(e.sub, Besides(VSub(e.a, e.b), e.i))
       /\ Exactly(e.mul, Besides(VMul(e.a, e.c), e.i))
       /\ (e.div # <<>> => Exactly(e.div[1], Besides(e.a, e.i)))
       /\ Exactly(e.cross, <<VCross(e.a, e.b)[e.i]>>), s)
Abs(x) == IF x < 0 THEN -x ELSE x
(* The vector is e.a times a power of two, which leaves its direction and is *)
(* taken off its magnitude again.                                            *)
JMag(s, e) ==
  LET q == VSquare(e.a)
      sq == \E r \in 0..600 : r * r = q
      r == CHOOSE r \in 0..600 : r * r = q
      u == e.unit
  IN When(/\ ~Lost(e) /\ e.m64 >= 0
          /\ (sq => e.whole /\ e.m = r)
          /\ (e.m64 > 0 => (e.m64 - 1) * (e.m64 - 1) <= 4096 * q)
          /\ e.m64 <= 40000 /\ 4096 * q <= (e.m64 + 2) * (e.m64 + 2)
          /\ (IF q = 0 THEN u = <<>>
              ELSE /\ Len(u) = 3
                   /\ \A k \in 1..3 : Abs(u[k]) <= 1048580
                   /\ (sq => \A k \in 1..3 : Abs(u[k] * r - e.a[k] * 1048576) <= r + 16)
                   /\ \A k \in 1..3 : \A j \in 1..3 : Abs(u[k] * e.a[j] - u[j] * e.a[k]) <= 1200
                   /\ \A k \in 1..3 : u[k] * (IF e.a[k] > 0 THEN 1 ELSE IF e.a[k] < 0 THEN -1 ELSE 0) >= 0
                   /\ LET w == VSquare([k \in 1..3 |-> u[k] \div 1024]) IN w >= 1044000 /\ w <= 1053000), s)
JVConst(s, e) ==
  When(/\ Len(e.v) = 6 /\ \A k \in 1..6 : e.v[k].e
       /\ [k \in 1..6 |-> e.v[k].v] = <<<<0,0,0>>, <<1,1,1>>, <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0,0,0>>>>, s)

------------------------------------------------------------------------------
Judge(s, e) ==
  CASE e.op = "bound" -> JBound(s, e)
    [] e.op = "lost" -> Reject      \* the operation did not come back
    [] e.op = "obj" -> JObj(s, e)         [] e.op = "body" -> JBody(s, e)     [] e.op = "field" -> JField(s, e)
    [] e.op = "bigbody" -> JBigBody(s, e)
    [] e.op = "part" -> JPart(s, e)
    [] e.op = "hnew" -> JHnew(s, e)       [] e.op = "hstep" -> JHstep(s, e)
    [] e.op = "hset" -> JHset(s, e)       [] e.op = "hdr" -> JHdr(s, e)       [] e.op = "calc" -> JCalc(s, e)
    [] e.op = "fin" -> JFin(s, e)         [] e.op = "ser" -> JSer(s, e)       [] e.op = "declast" -> JDecLast(s, e)
    [] e.op = "rec" -> JRec(s, e)         [] e.op = "big" -> JBig(s, e)       [] e.op = "gate" -> JGate(s, e)
    [] e.op = "gatewo" -> JGateWo(s, e)   [] e.op = "peek" -> JPeek(s, e)     [] e.op = "cuts" -> JCuts(s, e)
    [] e.op = "hostile" -> JHostile(s, e) [] e.op = "dec" -> JDec(s, e)       [] e.op = "again" -> JAgain(s, e)
    [] e.op = "split" -> JSplit(s, e)     [] e.op = "given" -> JGiven(s, e)   [] e.op = "read" -> JRead(s, e)
    [] e.op = "received" -> JReceived(s, e) [] e.op = "open" -> JOpen(s, e)   [] e.op = "next" -> JNext(s, e)
    [] e.op = "wire" -> JWire(s, e)       [] e.op = "hop" -> JHop(s, e)       [] e.op = "enum" -> JEnum(s, e)
    [] e.op = "status" -> JStatus(s, e)   [] e.op = "bits" -> JBits(s, e)     [] e.op = "clock" -> JClock(s, e)
    [] e.op = "made" -> JMade(s, e)       [] e.op = "still" -> JStill(s, e)
    [] e.op = "toolarge" -> JTooLarge(s, e) [] e.op = "tooshort" -> JTooShort(s, e)
    [] e.op = "othertype" -> JOther(s, e) [] e.op = "err" -> JErr(s, e)
    [] e.op = "script" -> JScript(s, e)
    [] e.op = "vec" -> JVec(s, e)         [] e.op = "mag" -> JMag(s, e)       [] e.op = "vconst" -> JVConst(s, e)
    [] e.op = "auto" -> JAuto(s, e)
    [] e.op = "vast" -> JVast(s, e)
    [] e.op = "loose" -> JLoose(s, e)
    [] e.op = "vecodd" -> JVecOdd(s, e)

Init == ses \in 1..Len(Sessions) /\ pos = 1 /\ cur = Start

Next ==
  /\ pos >= 1 /\ pos <= Len(Events(ses))
  /\ ses' = ses
  /\ \E s \in {cur}, e \in {Events(ses)[pos]} : \E r \in {Judge(s, e)} :
     /\ cur' = r.s
     /\ pos' = IF r.ok THEN pos + 1 ELSE 0
     /\ (~r.ok => PrintT(<<"REJECT", ses, pos>>))
     /\ (r.known # "" => PrintT(<<"KNOWN", ses, pos, r.known>>))

Spec == Init /\ [][Next]_vars
=============================================================================
