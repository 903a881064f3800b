-------------------------------- MODULE MC_Made --------------------------------
(***************************************************************************)
(* Programs that make objects (C24): a record by its constructor and then   *)
(* its arguments one after the other; a PDU by new() or default().          *)
(*   Where     every argument is found where its path says, and what no     *)
(*             argument names is as in a default value                      *)
(*   Apart     no two arguments go to the same place                        *)
(*   Sendable  what was made can be sent and read back as it is             *)
(***************************************************************************)
EXTENDS Made, Values

CONSTANTS MSeeds, MLens

VARIABLES kind, name, arg, val, given
vars == <<kind, name, arg, val, given>>

LeafValue(f, n, s) == CASE f.k = "one" -> Fill(f.t, n, s) [] OTHER -> FillField(f, n, s)
Times == {<<0, 0, 0, 0>>, <<127, 255, 255, 254>>}

Init ==
  /\ arg = 0 /\ given = <<>>
  /\ \/ kind = "record" /\ name \in DOMAIN Ctors /\ val = StartOf(name, <<1, 2, 3, 4>>)
     \/ kind \in {"new", "default"} /\ name \in DOMAIN Pdus /\ val = <<>>

Give ==
  /\ kind = "record" /\ arg < Len(Ctors[name])
  /\ arg' = arg + 1 /\ UNCHANGED <<kind, name>>
  /\ LET p == Ctors[name][arg + 1] IN
     IF p = <<>> THEN UNCHANGED val /\ given' = Append(given, <<>>)
     ELSE \E s \in MSeeds, n \in MLens : \E x \in {LeafValue(FieldAt(Records[name], p), n, s + arg)} :
            val' = PutAt(Records[name], val, p, x) /\ given' = Append(given, x)
Birth ==
  /\ kind # "record" /\ arg = 0
  /\ \E tm \in Times : \E o \in {Fresh(name, kind, tm)} : val' = <<o>>
  /\ arg' = 1 /\ UNCHANGED <<kind, name, given>>
Send == kind # "record" /\ arg = 1 /\ \E o \in {Emit(val[1]).o} : val' = <<o>> /\ arg' = 2 /\ UNCHANGED <<kind, name, given>>
Spec == Init /\ [][Give \/ Birth \/ Send]_vars

Where ==
  kind = "record" =>
    \E fs \in {Records[name]}, d \in {StartOf(name, <<1, 2, 3, 4>>)} :
      /\ \A k \in 1..arg : Ctors[name][k] # <<>> => ValueAt(fs, val, Ctors[name][k]) = given[k]
      /\ arg = Len(Ctors[name]) => val = Filled(fs, d, Ctors[name], given, 1)
      /\ \A i \in 1..Len(ValueFields(fs)) :
           (\A k \in 1..arg : Ctors[name][k] = <<>> \/ Ctors[name][k][1] # ValueFields(fs)[i].n) => val[i] = d[i]
Apart ==
  kind = "record" =>
    \A j, k \in 1..Len(Ctors[name]) : (j # k /\ Ctors[name][j] # <<>>) => Ctors[name][j] # Ctors[name][k]
Sendable ==
  IF kind = "record" THEN arg = 0 => \E bs \in {EncType(name, val)} :
       \E d \in {DecType(name, bs, 0)} : Len(bs) = SizeType(name, val) /\ d.ok /\ d.p = Len(bs) /\ d.v = Canon(name, val)
  ELSE arg > 0 => \E o \in {val[1]} : \E e \in {Emit(o)} :
       /\ e.res = "ok" /\ e.o.v = o.v
       /\ (kind = "new" => e.o = o)
       /\ \E d \in {Decode(name, e.out)} : d.res = "ok" /\ d.rest = <<>> /\ d.o = e.o
=============================================================================
