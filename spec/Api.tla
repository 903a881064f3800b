---------------------------------- MODULE Api ----------------------------------
(***************************************************************************)
(* What the operations of the library do to a PDU object and to a buffer.   *)
(* An object is [t |-> PDU type, h |-> header value, v |-> body value]; a   *)
(* buffer is a string of octets.  The machines of Session.tla, Stream.tla   *)
(* and Lifecycle.tla take their steps from these operators, and Trace.tla   *)
(* judges recorded behaviour of the real code with the very same ones.      *)
(***************************************************************************)
EXTENDS Wire

(* --- editing *)
SetBody(o, v) == [o EXCEPT !.v = v]
SetField(o, i, x) == [o EXCEPT !.v = [o.v EXCEPT ![i] = x]]
SetHeader(o, h) == [o EXCEPT !.h = h]
SetHeaderField(o, i, x) == [o EXCEPT !.h = [o.h EXCEPT ![i] = x]]

(* --- asking for the length: <<"ok", n>> or <<"size", 0>> *)
LengthOf(o) ==
  LET n == SizeOf(o.t, o.v) IN IF n <= MaxPduSize THEN <<"ok", n>> ELSE <<"size", 0>>

(* --- finalize: the header's length becomes that of the PDU, or zero when  *)
(* the PDU has no admissible length; nothing else changes.                  *)
Finalize(o) == [o EXCEPT !.h = [o.h EXCEPT ![HeadOf[o.t].length] = Nat2(LengthOf(o)[2])]]

(* --- serialize: the octets appended and the object afterwards             *)
Emit(o) ==
  LET n == SizeOf(o.t, o.v) IN
  IF n > MaxPduSize THEN [res |-> "size", out |-> <<>>, o |-> o]
  ELSE [res |-> "ok",
        out |-> EncPdu(o.t, o.h, o.v),
        o   |-> [o EXCEPT !.h = Stamp(o.t, o.h, n), !.v = Derive(o.t, o.v)]]

(* --- decode type t from a buffer: the result, the object, what is left    *)
Decode(t, bs) ==
  LET d == DecPdu(t, bs, 0) IN
  IF d.res = "ok"
  THEN [res |-> "ok", o |-> [t |-> t, h |-> d.h, v |-> d.v], rest |-> SubSeq(bs, d.p + 1, Len(bs))]
  ELSE [res |-> d.res, o |-> [t |-> t, h |-> <<>>, v |-> <<>>], rest |-> <<>>]

(* --- decode a body whose header was read before                           *)
DecodeWithHeader(t, h, bs) ==
  IF h[HeadOf[t].type] # Nat1(Pdus[t].type) THEN [res |-> "type", v |-> <<>>]
  ELSE LET b == DecBody(t, bs, 0) IN IF b.ok THEN [res |-> "ok", v |-> b.v] ELSE [res |-> "short", v |-> <<>>]
=============================================================================
