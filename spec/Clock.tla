--------------------------------- MODULE Clock ---------------------------------
(***************************************************************************)
(* Computing a timestamp while the clock runs.  Time is counted in ticks;   *)
(* Fine ticks make a second and Coarse seconds an hour.  The call reads the *)
(* clock and combines what it read; between any two of its steps the clock  *)
(* may advance by any amount up to Leap.  Reads: 1 - one reading gives both *)
(* the second and the fraction; 2 - the second and the fraction are read    *)
(* one after the other.                                                     *)
(* OneInstant is C16: the result is the time past the hour of an instant    *)
(* between the start and the end of the call.  With Reads = 2 TLC finds the *)
(* history in which it is not (Clock_two.cfg): the check that looks at the  *)
(* real code serves it exactly such histories.                              *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS Fine, Coarse, Hours, Leap, Reads

VARIABLES now, pc, t0, sec, frac, out
vars == <<now, pc, t0, sec, frac, out>>

Hour == Fine * Coarse
Init == now \in 0..(Hour - 1) /\ pc = "idle" /\ t0 = 0 /\ sec = 0 /\ frac = 0 /\ out = 0

Tick == \E d \in 1..Leap : now + d < Hours * Hour /\ now' = now + d /\ UNCHANGED <<pc, t0, sec, frac, out>>
Call == pc = "idle" /\ t0' = now /\ pc' = "first" /\ UNCHANGED <<now, sec, frac, out>>
First ==
  /\ pc = "first"
  /\ sec' = (now \div Fine) % Coarse
  /\ frac' = (IF Reads = 1 THEN now % Fine ELSE frac)
  /\ pc' = (IF Reads = 1 THEN "combine" ELSE "second")
  /\ UNCHANGED <<now, t0, out>>
Second == pc = "second" /\ frac' = now % Fine /\ pc' = "combine" /\ UNCHANGED <<now, t0, sec, out>>
Combine == pc = "combine" /\ out' = sec * Fine + frac /\ pc' = "done" /\ UNCHANGED <<now, t0, sec, frac>>
Next == Tick \/ Call \/ First \/ Second \/ Combine
Spec == Init /\ [][Next]_vars

InRange == out \in 0..(Hour - 1)
OneInstant == pc = "done" => \E t \in t0..now : out = t % Hour
=============================================================================
