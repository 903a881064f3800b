------------------------------ MODULE AllReading ------------------------------
(***************************************************************************)
(* Checked.tla with nothing bounded, for Apalache: a decoder reads, skips    *)
(* and asks in whatever sizes it likes on a message of any length.  What it  *)
(* was given is the message's front; the message is refused exactly when    *)
(* something was asked for that was not there; and the error tells what was  *)
(* asked first and how much there was (C10, C25, C27).                       *)
(***************************************************************************)
EXTENDS Integers

VARIABLES
  \* @type: Int;
  size,
  \* @type: Int;
  left,
  \* @type: Int;
  given,
  \* @type: Int;
  zeros,
  \* @type: Bool;
  failed,
  \* @type: Int;
  asked,
  \* @type: Int;
  available,
  \* @type: Str;
  verdict

Visible == IF failed THEN 0 ELSE left
Init == size \in Nat /\ left = size /\ given = 0 /\ zeros = 0 /\ failed = FALSE /\ asked = 0 /\ available = 0 /\ verdict = "none"
Read ==
  \E n \in Nat :
    /\ verdict = "none"
    /\ IF ~failed /\ n <= left
       THEN left' = left - n /\ given' = given + n /\ UNCHANGED <<zeros, failed, asked, available>>
       ELSE /\ zeros' = zeros + n /\ failed' = TRUE
            /\ asked' = (IF failed THEN asked ELSE n) /\ available' = (IF failed THEN available ELSE left)
            /\ UNCHANGED <<left, given>>
    /\ UNCHANGED <<size, verdict>>
(* one who asks first, and does not read what is not there *)
Careful ==
  \E n \in Nat :
    /\ verdict = "none"
    /\ IF n <= Visible THEN left' = left - n /\ given' = given + n ELSE UNCHANGED <<left, given>>
    /\ UNCHANGED <<size, zeros, failed, asked, available, verdict>>
Finish == verdict = "none" /\ verdict' = (IF failed THEN "short" ELSE "ok") /\ UNCHANGED <<size, left, given, zeros, failed, asked, available>>
Rest == verdict # "none" /\ UNCHANGED <<size, left, given, zeros, failed, asked, available, verdict>>
Next == Read \/ Careful \/ Finish \/ Rest

Inv ==
  /\ size >= 0 /\ left >= 0 /\ given >= 0 /\ zeros >= 0 /\ verdict \in {"none", "ok", "short"}
  /\ given + left = size
  /\ (~failed => zeros = 0 /\ asked = 0 /\ available = 0)
  /\ (failed => asked > available /\ available = left /\ zeros >= asked)
  /\ (verdict = "ok" => zeros = 0) /\ (verdict = "short" => asked > available /\ zeros > 0)
IndInit ==
  /\ size \in Nat /\ left \in Nat /\ given \in Nat /\ zeros \in Nat /\ failed \in BOOLEAN /\ asked \in Nat /\ available \in Nat
  /\ verdict \in {"none", "ok", "short"} /\ Inv
Empty == FALSE      \* to see that IndInit is not
=============================================================================
