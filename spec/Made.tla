---------------------------------- MODULE Made ----------------------------------
(***************************************************************************)
(* What a program gets when it asks for a new object (C24).                 *)
(*                                                                         *)
(* DefaultOf(t): a value of type t nobody has put anything into: zeros,     *)
(* nothing in its lists, optional parts absent, enumerations at their       *)
(* default; except for the types of OddDefaults.                            *)
(*                                                                         *)
(* Ctors[t]: where the arguments of the constructor of t go, in order: the  *)
(* path of field names of each (<<>>: nowhere).  What no argument names is  *)
(* at its default.                                                          *)
(***************************************************************************)
EXTENDS Api

(* A simulation address is site 1, application 1 unless said otherwise; an  *)
(* emitter system has the function OTHER.                                   *)
OddDefaults == [SimulationAddress |-> <<<<0, 1>>, <<0, 1>>>>]

RECURSIVE DefaultOf(_), DefaultFields(_)
DefaultFields(fs) ==
  LET ff == ValueFields(fs) IN
  [i \in 1..Len(ff) |->
     CASE ff[i].k = "one" -> DefaultOf(ff[i].t)
       [] ff[i].k = "wide" -> NatW(EnumTable[ff[i].t].d, ff[i].c)
       [] ff[i].k = "fixed" -> Zeros(ff[i].c)
       [] OTHER -> <<>>]
DefaultOf(t) ==
  IF t \in DOMAIN OddDefaults THEN OddDefaults[t]
  ELSE IF IsRec(t) THEN DefaultFields(Records[t])
  ELSE IF IsEnum(t) THEN NatW(EnumTable[t].d, EnumTable[t].w)
  ELSE Zeros(PrimWidth[t])

(* A PDU out of the constructor, at time tm; "default" has not yet the      *)
(* identity of its type.                                                    *)
DefaultBody(t) == DefaultFields(PduFields(t))
FreshHeader(t, how, tm) ==
  IF HeadOf[t] # Heads["PduHeader"]
  THEN LET d == DefaultFields(HeadOf[t].fields) IN IF how = "new" THEN Stamp(t, d, SizeOf(t, DefaultBody(t))) ELSE d
  ELSE IF how = "new" THEN <<<<7>>, <<1>>, Nat1(Pdus[t].type), Nat1(Pdus[t].family), tm, Nat2(SizeOf(t, DefaultBody(t))), <<0>>>>
  ELSE <<<<7>>, <<1>>, <<0>>, <<0>>, tm, <<0, 0>>, <<0>>>>
Fresh(t, how, tm) == [t |-> t, h |-> FreshHeader(t, how, tm), v |-> DefaultBody(t)]

------------------------------------------------------------------------------
(* All value fields of t, in their order: what most constructors take.      *)
All(t) == LET ff == ValueFields(Records[t]) IN [i \in 1..Len(ff) |-> <<ff[i].n>>]
Address(last) == <<<<"simulation_address", "site_id">>, <<"simulation_address", "application_id">>, <<last>>>>

InOrder == {"AcousticBeamFundamentalParameter", "AcousticEmitterSystem", "AggregateId", "AggregateMarking", "ApaData", "BeamData", "ClockTime",
  "DirectedEnergyDamage", "EmitterSystem", "EntityCoordinateVector", "EntityMarking", "EntityType", "EulerAngles", "FundamentalOperationalData",
  "IFFFundamentalParameterData", "IntercomCommunicationsParameters", "LayerHeader", "LinearAcceleration", "LinearSegmentParameter",
  "LinearVelocity", "MinefieldIdentifier", "ModulationType", "MunitionDescriptor", "NamedLocation", "ObjectType", "Point", "PropulsionSystemData",
  "RadioEntityType", "RecordSpecification", "RecordSpecificationElement", "Relationship", "SecondaryOperationalData", "ShaftRPMs",
  "SimulationAddress", "StandardVariableRecords", "StandardVariableSpecification", "SupplyQuantity", "SystemId", "VariableParameter",
  "Vector3Double", "Vector3Float", "VectoringNozzleSystemData", "VelocityVector", "WorldCoordinate"}

Ctors ==
  [t \in InOrder |-> All(t)] @@
  [EntityId |-> Address("entity_id"), EventId |-> Address("event_identifier"),
   DeadReckoningParameters |-> <<<<"dead_reckoning_algorithm">>, <<"entity_linear_acceleration">>, <<"entity_angular_velocity">>>>,
   AcousticBeamData |-> <<<<"beam_data_length">>, <<"beam_id_number">>, <<>>, <<"fundamental_data_parameters">>>>,
   AcousticEmitterSystemData |-> <<<<"emitter_system_data_length">>, <<"number_of_beams">>, <<>>, <<"acoustic_emitter_system">>,
                                   <<"emitter_location">>, <<"beam_records">>>>,
   Environment |-> <<<<"environment_type">>, <<"length">>, <<"index">>, <<>>>>,
   PduHeader |-> <<<<"pdu_type">>, <<"protocol_family">>, <<"exercise_id">>, <<"length">>>>,
   LiveEntityPduHeader |-> <<<<"pdu_type">>, <<"protocol_family">>, <<"exercise_id">>, <<"length">>>>]
  @@ [t \in {"AngularVelocity", "AttributeRecord", "AttributeRecordSet", "ObjectIdentifier",
             "SimulationIdentifier", "VariableTransmitterParameters"} |-> <<>>]

(* The field a path leads to, and the value there. *)
RECURSIVE FieldAt(_, _), ValueAt(_, _, _), PutAt(_, _, _, _)
FieldAt(fs, path) == IF Len(path) = 1 THEN FieldOf(fs, path[1]) ELSE FieldAt(Records[FieldOf(fs, path[1]).t], Tail(path))
ValueAt(fs, v, path) ==
  LET x == v[IndexOf(fs, path[1])] IN IF Len(path) = 1 THEN x ELSE ValueAt(Records[FieldOf(fs, path[1]).t], x, Tail(path))
PutAt(fs, v, path, x) ==
  LET i == IndexOf(fs, path[1]) IN
  [v EXCEPT ![i] = IF Len(path) = 1 THEN x ELSE PutAt(Records[FieldOf(fs, path[1]).t], v[i], Tail(path), x)]

RECURSIVE Filled(_, _, _, _, _)
Filled(fs, v, paths, args, i) ==
  IF i > Len(paths) THEN v
  ELSE Filled(fs, IF paths[i] = <<>> THEN v ELSE PutAt(fs, v, paths[i], args[i]), paths, args, i + 1)

(* Headers have their own defaults; tm: the time it was. *)
HeaderKinds == {"PduHeader", "LiveEntityPduHeader"}
StartOf(t, tm) == IF t \in HeaderKinds THEN <<<<7>>, <<1>>, <<0>>, <<0>>, tm, <<0, 0>>, <<0>>>> ELSE DefaultOf(t)
Construct(t, args, tm) == Filled(Records[t], StartOf(t, tm), Ctors[t], args, 1)
=============================================================================
