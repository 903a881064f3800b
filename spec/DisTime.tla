-------------------------------- MODULE DisTime --------------------------------
(***************************************************************************)
(* Timestamps: the time past the hour in units of 1.68 microseconds, of an  *)
(* instant given as the second within the hour and the microsecond within   *)
(* the second.  1/1.68 = 25/42; everything stays below 2^31.                *)
(***************************************************************************)
EXTENDS Integers, Sequences
UnitsOf(sec, usec) == ((sec * 25) \div 42) * 1000000 + (((sec * 25) % 42) * 1000000 + usec * 25) \div 42
(* The library computes in single precision: 24 significant bits.           *)
Tolerance(e) == 1 + e \div 5000000
(* Does t lie between the instants lo and hi (same hour, or hi in the next)? *)
Between(t, lo, hi, sameHour) ==
  IF sameHour THEN t >= lo - Tolerance(lo) /\ t <= hi + Tolerance(hi)
  ELSE t >= lo - Tolerance(lo) \/ t <= hi + Tolerance(hi)
=============================================================================
