---------------------------------- MODULE Apart ----------------------------------
(***************************************************************************)
(* Several programs, or several threads of one, use the library at the same *)
(* time, each with an object, a buffer and a received object of its own.    *)
(* Serializing and decoding take two steps each (the message is made up and *)
(* then appended; the header is read and then the rest), between which any  *)
(* other may take steps of theirs.                                          *)
(*                                                                         *)
(* Checked (C29): whatever the others do, each has at every moment exactly  *)
(* what its own operations, done alone, would have given it (Alone); and    *)
(* equal objects of different programs give equal octets (Equals).          *)
(*                                                                         *)
(* Desks says where the library makes messages up: "own" - nowhere but in   *)
(* what it was given; "shared" - in one place for all; "kept" - it keeps    *)
(* the first length it found for a type.  The latter two are meant to fail. *)
(***************************************************************************)
EXTENDS Api, Values, TLC, Integers

CONSTANTS Clients,     \* who takes part
          Types,       \* the PDU types they use
          Steps,       \* how many operations each does at most
          Desks

Bodies == [t \in Types |-> <<FillBody(t, 0, 0), FillBody(t, 1, 3), FillBody(t, 2, 5)>>]
First(t) == [t |-> t, h |-> Stamp(t, FillHeader(t, 2), 0), v |-> Bodies[t][1]]

VARIABLES o,       \* the object of each
          buf,     \* its buffer
          got,     \* what it decoded last
          pc,      \* between operations, or in the middle of one
          desk,    \* messages being made up
          head,    \* headers read, the rest of whose message is not
          kept,    \* what the library remembers of each type
          hist     \* what each did (the type it began with first)
vars == <<o, buf, got, pc, desk, head, kept, hist>>

Place(c) == IF Desks = "shared" THEN CHOOSE d \in Clients : TRUE ELSE c
Nothing == [t |-> "", h |-> <<>>, v |-> <<>>]

(* --- what the library does, and what it would do if it kept lengths       *)
Message(x) ==
  IF Desks = "kept" /\ kept[x.t] # 0
  THEN EncHeader(x.t, Stamp(x.t, x.h, kept[x.t])) \o SubSeq(Emit(x).out, HeadOf[x.t].size + 1, Len(Emit(x).out))
  ELSE Emit(x).out

Init ==
  \E f \in [Clients -> Types] :
    /\ o = [c \in Clients |-> First(f[c])]
    /\ hist = [c \in Clients |-> <<<<"new", f[c]>>>>]
    /\ buf = [c \in Clients |-> <<>>] /\ got = [c \in Clients |-> Nothing]
    /\ pc = [c \in Clients |-> "idle"]
    /\ desk = [c \in Clients |-> <<>>] /\ head = [c \in Clients |-> <<>>]
    /\ kept = [t \in Types |-> 0]

Free(c) == pc[c] = "idle" /\ Len(hist[c]) <= Steps
Did(c, a) == hist' = [hist EXCEPT ![c] = Append(hist[c], a)]

Edit(c) == \E i \in 2..3 :
  /\ Free(c) /\ o' = [o EXCEPT ![c] = SetBody(o[c], Bodies[o[c].t][i])]
  /\ Did(c, <<"body", i>>) /\ UNCHANGED <<buf, got, pc, desk, head, kept>>
Mark(c) ==
  /\ Free(c) /\ o' = [o EXCEPT ![c] = SetHeaderField(o[c], hExercise, <<77>>)]
  /\ Did(c, <<"mark">>) /\ UNCHANGED <<buf, got, pc, desk, head, kept>>
MakeUp(c) ==
  /\ Free(c)
  /\ desk' = [desk EXCEPT ![Place(c)] = Message(o[c])]
  /\ kept' = [kept EXCEPT ![o[c].t] = IF kept[o[c].t] = 0 THEN Len(Emit(o[c]).out) ELSE kept[o[c].t]]
  /\ o' = [o EXCEPT ![c] = Emit(o[c]).o]
  /\ pc' = [pc EXCEPT ![c] = "made up"]
  /\ Did(c, <<"ser">>) /\ UNCHANGED <<buf, got, head>>
HandOver(c) ==
  /\ pc[c] = "made up"
  /\ buf' = [buf EXCEPT ![c] = buf[c] \o desk[Place(c)]]
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<o, got, desk, head, kept, hist>>
ReadHead(c) ==
  /\ Free(c) /\ buf[c] # <<>>
  /\ head' = [head EXCEPT ![Place(c)] = DecRecord(HeadOf[o[c].t].fields, buf[c], 0).v]
  /\ pc' = [pc EXCEPT ![c] = "head read"]
  /\ Did(c, <<"dec">>) /\ UNCHANGED <<o, buf, got, desk, kept>>
(* the oldest message in the buffer is taken off it *)
ReadRest(c) ==
  /\ pc[c] = "head read"
  /\ \E t \in {o[c].t}, h \in {head[Place(c)]}, n \in {HeadOf[o[c].t].size} :
     \E d \in {DecBody(t, buf[c], n)} :
       IF h[HeadOf[t].type] = Nat1(Pdus[t].type) /\ d.ok
       THEN /\ got' = [got EXCEPT ![c] = [t |-> t, h |-> h, v |-> d.v]]
            /\ buf' = [buf EXCEPT ![c] = SubSeq(buf[c], d.p + 1, Len(buf[c]))]
       ELSE got' = [got EXCEPT ![c] = Nothing] /\ buf' = [buf EXCEPT ![c] = <<>>]
  /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<o, desk, head, kept, hist>>

Next == \E c \in Clients : Edit(c) \/ Mark(c) \/ MakeUp(c) \/ HandOver(c) \/ ReadHead(c) \/ ReadRest(c)
Spec == Init /\ [][Next]_vars

(* --- the same operations, done alone                                      *)
RECURSIVE Run(_, _, _)
Run(h, k, s) ==
  IF k > Len(h) THEN s
  ELSE Run(h, k + 1,
    LET a == h[k] IN
    CASE a[1] = "body" -> [s EXCEPT !.o = SetBody(s.o, Bodies[s.o.t][a[2]])]
      [] a[1] = "mark" -> [s EXCEPT !.o = SetHeaderField(s.o, hExercise, <<77>>)]
      [] a[1] = "ser" -> LET w == Emit(s.o) IN [s EXCEPT !.o = w.o, !.buf = s.buf \o w.out]
      [] a[1] = "dec" -> LET d == Decode(s.o.t, s.buf) IN
                         IF d.res = "ok" THEN [s EXCEPT !.got = d.o, !.buf = d.rest] ELSE [s EXCEPT !.got = Nothing, !.buf = <<>>])
ByItself(c) == Run(hist[c], 2, [o |-> First(hist[c][1][2]), buf |-> <<>>, got |-> Nothing])
Alone ==
  \A c \in Clients : pc[c] = "idle" => [o |-> o[c], buf |-> buf[c], got |-> got[c]] = ByItself(c)
Equals ==
  \A c, d \in Clients : o[c] = o[d] => Message(o[c]) = Message(o[d]) /\ Message(o[c]) = Emit(o[c]).out
=============================================================================
