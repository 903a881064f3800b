---------------------------------- MODULE Checked ----------------------------------
(***************************************************************************)
(* How a message is read while it is decoded (C25, C27): field decoders     *)
(* read as they like, in any widths, and do not ask how much is left.       *)
(* Reading past the end gives zeros; from then on there is nothing more;    *)
(* and what was asked for and available when it first happened is kept for  *)
(* the error.                                                               *)
(*                                                                         *)
(* A reading state is [left, err]: the octets not yet read, and <<>> or     *)
(* <<asked, available>>.  An operation is a record with op and n, and       *)
(* gives [s, out], out a tuple of octets or numbers.                        *)
(***************************************************************************)
EXTENDS Octets

Reading(bs) == [left |-> bs, err |-> <<>>]
Fails(s, n) == s.err # <<>> \/ n > Len(s.left)
(* n octets: all of them, or zeros *)
ReadSome(s, n) ==
  IF ~Fails(s, n) THEN [s |-> [s EXCEPT !.left = SubSeq(s.left, n + 1, Len(s.left))], out |-> SubSeq(s.left, 1, n)]
  ELSE [s |-> IF s.err = <<>> THEN [s EXCEPT !.err = <<n, Len(s.left)>>] ELSE s, out |-> Zeros(n)]
Visible(s) == IF s.err = <<>> THEN Len(s.left) ELSE 0

(* be/le: one number of n octets; wide, widele: such a number as one of      *)
(* eight octets; signed, signedle: with its sign.                           *)
Sign(os) == IF Len(os) > 0 /\ os[1] >= 128 THEN 255 ELSE 0
Widened(os, fill) == [i \in 1..8 |-> IF i <= 8 - Len(os) THEN fill ELSE os[i - 8 + Len(os)]]

Reads == {"be", "le", "slice", "bytes", "wide", "widele", "signed", "signedle"}
Operations == Reads \cup {"skip", "left", "any", "try", "tryle"}
Read(s, op) ==
  CASE op.op \in {"be", "slice", "bytes"} -> ReadSome(s, op.n)
    [] op.op = "le" -> (LET r == ReadSome(s, op.n) IN [r EXCEPT !.out = Reverse(@)])
    [] op.op = "wide" -> (LET r == ReadSome(s, op.n) IN [r EXCEPT !.out = Widened(@, 0)])
    [] op.op = "widele" -> (LET r == ReadSome(s, op.n) IN [r EXCEPT !.out = Widened(Reverse(@), 0)])
    [] op.op = "signed" -> (LET r == ReadSome(s, op.n) IN [r EXCEPT !.out = Widened(@, Sign(@))])
    [] op.op = "signedle" -> (LET r == ReadSome(s, op.n) IN [r EXCEPT !.out = Widened(Reverse(@), Sign(Reverse(@)))])
    [] op.op = "skip" -> [ReadSome(s, op.n) EXCEPT !.out = <<>>]
    [] op.op = "left" -> [s |-> s, out |-> <<Visible(s)>>]
    [] op.op = "any" -> [s |-> s, out |-> <<IF Visible(s) > 0 THEN 1 ELSE 0>>]
    (* one who asks whether there is enough is told, and spoils nothing *)
    [] op.op = "try" -> (IF Visible(s) < op.n THEN [s |-> s, out |-> <<>>] ELSE ReadSome(s, op.n))
    [] op.op = "tryle" -> (IF Visible(s) < op.n THEN [s |-> s, out |-> <<>>] ELSE LET r == ReadSome(s, op.n) IN [r EXCEPT !.out = Reverse(@)])

(* The octets that can be looked at: some of those left, as long as there   *)
(* are any.                                                                 *)
Shown(s, out) ==
  /\ Len(out) <= Visible(s) /\ (Visible(s) > 0 => Len(out) > 0)
  /\ \A i \in 1..Len(out) : out[i] = s.left[i]

(* A list of n elements of w octets each, w > 0: n, while there are octets;  *)
(* once there are none nobody looks at the elements, but they are not many. *)
RECURSIVE ReadTimes(_, _, _, _)
ReadTimes(s, w, n, acc) ==
  IF n = 0 \/ s.err # <<>> THEN [s |-> s, out |-> acc]
  ELSE LET r == ReadSome(s, w) IN ReadTimes(r.s, w, n - 1, acc \o r.out)
Listed(s, w, n, r, out) ==      \* r: ReadTimes(s, w, n, <<>>)
  IF r.s.err = <<>> THEN out = r.out
  ELSE /\ Len(out) <= n * w /\ Len(out) <= (Visible(s) + 2) * w
       /\ \A i \in 1..Len(out) : out[i] = IF i + w <= Len(r.out) THEN r.out[i] ELSE 0

(* A whole decoder: operations with what they gave; <<>> if that cannot be. *)
RECURSIVE Run(_, _, _)
Run(s, ops, i) ==
  IF i > Len(ops) THEN <<s>>
  ELSE LET o == ops[i] IN
       CASE o.op = "chunk" -> (IF Shown(s, o.out) THEN Run(s, ops, i + 1) ELSE <<>>)
         [] o.op = "check" -> (IF o.out = s.err THEN Run(s, ops, i + 1) ELSE <<>>)
         [] o.op = "list" ->
              LET r == ReadTimes(s, o.w, o.n, <<>>) IN
              (IF Listed(s, o.w, o.n, r, o.out) THEN Run(r.s, ops, i + 1) ELSE <<>>)
         [] OTHER -> LET r == Read(s, o) IN (IF r.out = o.out THEN Run(r.s, ops, i + 1) ELSE <<>>)
=============================================================================
