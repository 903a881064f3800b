---------------------------------- MODULE Parts ----------------------------------
(***************************************************************************)
(* The optional parts of a Transmitter PDU and the length fields that frame *)
(* them (C17).  A program sets and clears the parts, puts anything into the *)
(* length fields, serializes, and decodes; the length fields never matter.  *)
(***************************************************************************)
EXTENDS Api, Values, TLC, Integers

CONSTANTS PartSizes, LengthValues

T == "TransmitterPdu"
FS == PduFields(T)
ix(name) == IndexOf(FS, name)
Part == <<ix("modulation_parameters"), ix("antenna_pattern")>>
Leng == <<ix("modulation_parameter_length"), ix("antenna_pattern_length")>>
Base == FillBody(T, 0, 3)

VARIABLES o, mine, last
vars == <<o, mine, last>>
PartOf(k, n) == IF n = 0 THEN <<>> ELSE <<[i \in 1..n |-> (k * 100 + i) % 256]>>
Init == /\ o = [t |-> T, h |-> Stamp(T, FillHeader(T, 2), 0), v |-> Base]
        /\ mine = <<0, 0>> /\ last = <<>>
SetPart == \E k \in {1, 2} : \E n \in PartSizes :
  o' = SetField(o, Part[k], PartOf(k, n)) /\ mine' = [mine EXCEPT ![k] = n] /\ UNCHANGED last
SetLength == \E k \in {1, 2} : \E x \in LengthValues :
  o' = SetField(o, Leng[k], NatW(x, Len(Base[Leng[k]]))) /\ UNCHANGED <<mine, last>>
Ser == o' = Emit(o).o /\ last' = Emit(o).out /\ UNCHANGED mine
TakeBack == last # <<>> /\ \E d \in {Decode(T, last)} :
  o' = d.o /\ mine' = [k \in {1, 2} |-> IF d.o.v[Part[k]] = <<>> THEN 0 ELSE Len(d.o.v[Part[k]][1])] /\ UNCHANGED last
Next == SetPart \/ SetLength \/ Ser \/ TakeBack
Spec == Init /\ [][Next]_vars

(* what a message says is what the object had when it was made *)
Framed == \E d \in {Emit(o)} :
  /\ \A k \in {1, 2} : ToNat(d.o.v[Leng[k]]) = mine[k]
  /\ Len(d.out) = Len(EncPdu(T, o.h, Base)) + mine[1] + mine[2]
  /\ \E r \in {Decode(T, d.out)} :
       r.res = "ok" /\ r.rest = <<>> /\ \A k \in {1, 2} : r.o.v[Part[k]] = PartOf(k, mine[k])
(* the lengths a program left behind make no difference to the octets *)
Deaf == \A x \in LengthValues : \A k \in {1, 2} :
  Emit(SetField(o, Leng[k], NatW(x, Len(Base[Leng[k]])))).out = Emit(o).out
=============================================================================
