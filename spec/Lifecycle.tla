------------------------------- MODULE Lifecycle -------------------------------
(***************************************************************************)
(* The life of one PDU object and the buffer it is serialized to.           *)
(*                                                                         *)
(* A program may give the object any body (also one whose counts disagree   *)
(* with its lists, or one too large to send), set any header field to       *)
(* anything, ask for the length, finalize, serialize behind what the buffer *)
(* holds, clear the buffer, and replace the object by what the last         *)
(* message decodes to - in any order, forever.  Operators of Api.tla say    *)
(* what each step does; Trace.tla judges the real library with the same     *)
(* operators, and the transitions of this machine, written out by TLC       *)
(* (Edge, below) and joined to tours by tools/tours.py, are played to the   *)
(* real code for every PDU type.                                            *)
(*                                                                         *)
(* Checked: C01 (Declared), C02 (Ceiling), C04 (Identity, Repeats),         *)
(* C14 (OnlyAppends), C15 (Relayed, KeepsBody), C05 and C06 (Survives).     *)
(***************************************************************************)
EXTENDS Api, Values, TLC, Integers

CONSTANTS Chosen,      \* the PDU types to look at
          Ceiling,     \* the size limit of the model (small, so that it is reached)
          Depth,       \* the longest history
          Edges        \* print the transitions?

Types == IF Chosen = {} THEN PduNames ELSE Chosen

VARIABLES o,           \* the object
          bi,          \* which body it was given (0: none yet, or decoded)
          buf,         \* the buffer
          last,        \* the last message serialized, <<>> before
          fresh,       \* nothing was edited since then
          asked,       \* the length last computed, -1: none since the last edit
          act          \* the last action and its result
vars == <<o, bi, buf, last, fresh, asked, act>>
View == <<o, bi, buf, last, fresh, asked>>

(* --- the bodies: empty, consistent, with counts that lie, too large       *)
Body(t, i) ==
  CASE i = 1 -> FillBody(t, 0, 0)
    [] i = 2 -> FillBody(t, 1, 2)
    [] i = 3 -> FillBody(t, 2, 3)
    [] i = 4 -> LET fs == ValueFields(PduFields(t))
                    v == FillBody(t, 2, 5)
                    w == FillBody(t, 0, 2)
                IN [k \in 1..Len(v) |-> IF fs[k].k \in {"list", "data", "opt", "text"} THEN v[k] ELSE w[k]]
    [] i = 5 -> FillBody(t, 24, 4)
BodyTable == [t \in Types |-> [i \in 1..5 |-> Body(t, i)]]

(* --- what a header field may be set to                                    *)
HeaderChoices(t) == <<
  <<hVersion, <<6>>>>, <<hVersion, <<0>>>>, <<hExercise, <<9>>>>, <<hType, <<0>>>>, <<hType, <<(Pdus[t].type % 70) + 1>>>>,
  <<hFamily, <<0>>>>, <<hFamily, <<5>>>>, <<hTime, <<1, 2, 3, 4>>>>, <<hLength, <<0, 0>>>>, <<hLength, <<0, 12>>>>,
  <<hLength, <<255, 255>>>>, <<hStatus, <<170>>>> >>

Length(x) == LET n == SizeOf(x.t, x.v) IN IF n <= Ceiling THEN <<"ok", n>> ELSE <<"size", 0>>

Init ==
  \E t \in Types :
    /\ o = [t |-> t, h |-> Stamp(t, FillHeader(t, 0), 0), v |-> BodyTable[t][1]]
    /\ bi = 1 /\ buf = <<>> /\ last = <<>> /\ fresh = FALSE /\ asked = -1 /\ act = <<"new">>

Edit(x, b, a) == o' = x /\ bi' = b /\ fresh' = FALSE /\ asked' = -1 /\ act' = a /\ UNCHANGED <<buf, last>>

GiveBody == \E i \in 1..5 : Edit(SetBody(o, BodyTable[o.t][i]), i, <<"body", i>>)
GiveHeader == \E c \in 1..12 :
  LET q == HeaderChoices(o.t)[c] IN Edit(SetHeaderField(o, q[1], q[2]), bi, <<"hset", c>>)
Ask == /\ asked' = (IF Length(o)[1] = "ok" THEN Length(o)[2] ELSE -1)
       /\ act' = <<"calc", Length(o)[1]>> /\ UNCHANGED <<o, bi, buf, last, fresh>>
Fin == /\ o' = [o EXCEPT !.h = [o.h EXCEPT ![hLength] = Nat2(Length(o)[2])]]
       /\ act' = <<"fin">> /\ fresh' = FALSE /\ UNCHANGED <<bi, buf, last, asked>>
Ser ==
  IF Length(o)[1] # "ok"
  THEN act' = <<"ser", "size">> /\ UNCHANGED <<o, bi, buf, last, fresh, asked>>
  ELSE LET w == Emit(o) IN
       /\ o' = w.o /\ buf' = buf \o w.out /\ last' = w.out /\ fresh' = TRUE
       /\ asked' = Len(w.out) /\ act' = <<"ser", "ok">> /\ UNCHANGED bi
Clear == buf # <<>> /\ buf' = <<>> /\ act' = <<"clear">> /\ UNCHANGED <<o, bi, last, fresh, asked>>
TakeDecoded ==
  /\ last # <<>>
  /\ LET d == Decode(o.t, last) IN
     IF d.res = "ok" THEN Edit(d.o, 0, <<"take", "ok">>)
     ELSE act' = <<"take", d.res>> /\ UNCHANGED <<o, bi, buf, last, fresh, asked>>

Next == GiveBody \/ GiveHeader \/ Ask \/ Fin \/ Ser \/ Clear \/ TakeDecoded
Spec == Init /\ [][Next]_vars

(* --- bounds *)
Bounded == Len(buf) <= 2 * Ceiling /\ TLCGet("level") < Depth

(* --- what must hold *)
Declared ==          \* C01
  /\ fresh => ToNat(SubSeq(last, 9, 10)) = Len(last) /\ o.h[hLength] = Nat2(Len(last)) /\ Length(o) = <<"ok", Len(last)>>
  /\ asked >= 0 => asked = Len(EncPdu(o.t, o.h, o.v))
WithinCeiling == Len(last) <= Ceiling          \* C02
Identifies ==        \* C04
  last # <<>> => last[3] = Pdus[o.t].type /\ last[4] = Pdus[o.t].family
Repeats == fresh => Length(o)[1] = "ok" /\ Emit(o).out = last /\ Emit(o).o = o
(* what was sent decodes to what was meant, unless its counts lie (body 4,  *)
(* or what came of decoding it) *)
Survives ==          \* C05, C06, C15
  (fresh /\ bi \in {1, 2, 3}) =>
     LET d == Decode(o.t, last) IN
     /\ d.res = "ok" /\ d.rest = <<>> /\ d.o.h = o.h /\ d.o.v = CanonBody(o.t, o.v)
     /\ Emit(d.o).out = last
Relayed ==           \* C15: whatever decodes as a whole is relayed as received
  fresh => LET d == Decode(o.t, last) IN
           (d.res = "ok" /\ d.rest = <<>> /\ (\A k \in 1..Len(PduFields(o.t)) : PduFields(o.t)[k].k # "ulist")) =>
             Emit(d.o).out = last
(* steps *)
Refusals == [][act'[1] = "ser" /\ act'[2] = "size" => UNCHANGED <<o, buf, last>>]_vars
OnlyAppends == [][act'[1] \notin {"clear", "ser"} => buf' = buf]_vars
AppendsMessage == [][act'[1] = "ser" => IsPrefixOf(buf, buf')]_vars
LeavesAlone ==       \* C04: serializing changes type, family and length only
  [][act'[1] = "ser" => \A k \in {hVersion, hExercise, hTime, hStatus} : o'.h[k] = o.h[k]]_vars
KeepsBody ==         \* C15: and of the body, the derived lengths only
  [][act'[1] = "ser" => \A k \in 1..Len(o.v) :
        (\A j \in OptFields(PduFields(o.t)) : k # IndexOf(PduFields(o.t), PduFields(o.t)[j].l)) => o'.v[k] = o.v[k]]_vars

(* --- the transitions, for the tours: body, header oddities, freshness     *)
Key == <<bi, o.h[hType] = Nat1(Pdus[o.t].type), o.h[hFamily] = Nat1(Pdus[o.t].family), o.h[hLength] = Nat2(SizeOf(o.t, o.v)),
         fresh, asked >= 0, last # <<>>, buf = <<>> >>
Edge == Edges => PrintT(<<"EDGE", ToJson(<<Key, act', Key'>>)>>)
=============================================================================
