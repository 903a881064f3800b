-------------------------------- MODULE MC_Checked --------------------------------
(***************************************************************************)
(* A decoder that performs any operations on a message of any length.       *)
(*   Told      an error says that more was asked for than there was, and    *)
(*             no more was there than arrived (C25)                         *)
(*   InOrder   what was read is the message, from its start, in order       *)
(*   Zeros     after the end, and only then, zeros are read                 *)
(*   Asked     asking first, or looking, never fails                        *)
(*   Lists     a list is read whole if it is there, and else refused        *)
(*   Sticks    the first error stays, and nothing is read after it          *)
(***************************************************************************)
EXTENDS Checked, Refusals, TLC, Integers

CONSTANTS Lengths, Widths, MaxOps

VARIABLES n, s, got, ops, lastop
vars == <<n, s, got, ops, lastop>>
Message(k) == [i \in 1..k |-> i]

Wide == {"wide", "widele", "signed", "signedle"}
Init == n \in Lengths /\ s = Reading(Message(n)) /\ got = <<>> /\ ops = 0 /\ lastop = <<"", 0, <<>>>>
Do == /\ ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED n
      /\ \E o \in Operations, w \in Widths :
           \E r \in {Read(s, [op |-> o, n |-> w])} :
             /\ (o \in Wide => w <= 8) /\ s' = r.s /\ lastop' = <<o, w, r.out>>
             /\ got' = IF r.s.err = <<>> THEN got \o SubSeq(s.left, 1, Len(s.left) - Len(r.s.left)) ELSE got
Spec == Init /\ [][Do]_vars

Told == s.err # <<>> => TooShort(n, <<"short", s.err[1], s.err[2]>>) /\ s.err[2] = Len(s.left)
InOrder == got \o s.left = Message(n)
ZerosOnly ==
  lastop[1] \in Reads =>
    /\ Len(lastop[3]) = IF lastop[1] \in Wide THEN 8 ELSE lastop[2]
    /\ (s.err # <<>> => \A k \in 1..Len(lastop[3]) : lastop[3][k] = 0)
    /\ (s.err = <<>> /\ lastop[1] \notin Wide => \A k \in 1..Len(lastop[3]) : lastop[3][k] # 0)
(* asking first never fails *)
Asked == [][lastop'[1] \in {"try", "tryle", "left", "any"} => s'.err = s.err]_vars
Sticks == [][s.err # <<>> => s' = s]_vars
(* lists: what an attentive reader of elements gets *)
Lists ==
  \A w \in Widths \ {0}, k \in 0..3 : \E r \in {ReadTimes(s, w, k, <<>>)} :
    /\ Listed(s, w, k, r, r.out)
    /\ (r.s.err = <<>> <=> (s.err = <<>> /\ k * w <= Len(s.left)) \/ (k = 0 /\ s.err = <<>>))
=============================================================================
