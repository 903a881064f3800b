--------------------------------- MODULE Stream ---------------------------------
(***************************************************************************)
(* A sender serializes PDUs back to back into one buffer; a transport       *)
(* carries the octets in chunks of any size; a receiver looks at the type   *)
(* of what has arrived, tries to decode that type from the front of what it *)
(* has, keeps waiting when the octets are too few, and drops exactly what   *)
(* a successful decode consumed.                                            *)
(*                                                                         *)
(* Checked: what was received is, at every moment, a prefix of what was     *)
(* sent, in order and unaltered (C14, C05, C06); a PDU is never made of     *)
(* octets that are not all there (C10); the type peeked at is the type      *)
(* decoded (C09) and no other type accepts the octets (C08); neither        *)
(* depends on the chunks (C20); and if octets keep arriving everything sent *)
(* is received (Delivered).                                                 *)
(***************************************************************************)
EXTENDS Api, Values, TLC, Integers

CONSTANTS Kinds,     \* which messages there are (numbers)
          Sends,     \* how many are sent
          Cuts,      \* sizes of chunks (0: everything there is)
          Junk       \* octets already in the buffer when the first is sent

Messages == <<
  [t |-> "AcknowledgePdu", n |-> 0, s |-> 2],
  [t |-> "DataPdu", n |-> 1, s |-> 3],
  [t |-> "TransmitterPdu", n |-> 1, s |-> 4],
  [t |-> "SetRecordReliablePdu", n |-> 2, s |-> 5],
  [t |-> "SignalPdu", n |-> 3, s |-> 1],
  [t |-> "EntityStatePdu", n |-> 1, s |-> 6],
  [t |-> "StopFreezePdu", n |-> 0, s |-> 0] >>
Object(k) == LET m == Messages[k] IN [t |-> m.t, h |-> FillHeader(m.t, m.s), v |-> FillBody(m.t, m.n, m.s)]
Table == [k \in 1..Len(Messages) |-> LET o == Object(k) w == Emit(o) IN
            [out |-> w.out, want |-> [t |-> o.t, h |-> w.o.h, v |-> CanonBody(o.t, o.v)]]]

VARIABLES pipe,     \* octets serialized and not yet carried
          heap,     \* octets at the receiver
          sent,     \* which messages were sent
          got,      \* how many were received
          stale     \* has the receiver looked at all it has?
vars == <<pipe, heap, sent, got, stale>>

JunkOctets == [i \in 1..Junk |-> (i * 37) % 256]
Init == pipe = JunkOctets /\ heap = <<>> /\ sent = <<>> /\ got = -1 /\ stale = TRUE

Send == \E k \in Kinds :
  /\ Len(sent) < Sends
  /\ pipe' = pipe \o Table[k].out /\ sent' = Append(sent, k) /\ UNCHANGED <<heap, got, stale>>

Carry == \E c \in Cuts :
  /\ pipe # <<>>
  /\ LET n == IF c = 0 \/ c > Len(pipe) THEN Len(pipe) ELSE c IN
     /\ heap' = heap \o SubSeq(pipe, 1, n)
     /\ pipe' = SubSeq(pipe, n + 1, Len(pipe))
  /\ stale' = FALSE /\ UNCHANGED <<sent, got>>

(* the receiver first drops what was there before the first PDU *)
DropJunk == got = -1 /\ Len(heap) >= Junk /\ got' = 0 /\ heap' = SubSeq(heap, Junk + 1, Len(heap)) /\ stale' = FALSE /\ UNCHANGED <<pipe, sent>>

TypeOfCode(c) == {t \in PduNames : <<Pdus[t].type>> = c}
Attempt(bs) ==
  LET c == PeekType(bs) IN
  IF c = <<>> THEN [res |-> "short"]
  ELSE LET ts == TypeOfCode(c[1]) IN
       IF ts = {} THEN [res |-> "unknown"] ELSE Decode(CHOOSE t \in ts : TRUE, bs)

Receive ==
  /\ got >= 0 /\ ~stale
  /\ \E a \in {Attempt(heap)} :
     CASE a.res = "short" -> stale' = TRUE /\ UNCHANGED <<pipe, heap, sent, got>>
       [] a.res = "ok" /\ got < Len(sent) /\ a.o = Table[sent[got + 1]].want ->
             heap' = a.rest /\ got' = got + 1 /\ stale' = FALSE /\ UNCHANGED <<pipe, sent>>
       [] OTHER -> got' = 1000000 /\ UNCHANGED <<pipe, heap, sent, stale>>      \* garbage

Next == Send \/ Carry \/ DropJunk \/ Receive
Spec == Init /\ [][Next]_vars /\ WF_vars(Carry \/ DropJunk \/ Receive)

NoGarbage == got < 1000000
(* what is under way is exactly what was sent and not yet received *)
RECURSIVE Outs(_, _)
Outs(ks, i) == IF i > Len(ks) THEN <<>> ELSE Table[ks[i]].out \o Outs(ks, i + 1)
Conserved ==
  IF got = -1 THEN heap \o pipe = JunkOctets \o Outs(sent, 1)
  ELSE NoGarbage => heap \o pipe = Outs(sent, got + 1)
(* a whole message at the front is never called short *)
Prompt == (got >= 0 /\ NoGarbage /\ stale /\ got < Len(sent)) => Len(heap) < Len(Table[sent[got + 1]].out)
Delivered == \A k \in 1..Sends : (Len(sent) >= k) ~> (got >= k)
=============================================================================
