------------------------------- MODULE Layouts -------------------------------
(***************************************************************************)
(* The wire layout of every record and PDU of the library: the table that  *)
(* Wire.tla interprets.  The table is the specification: the Rust glue of  *)
(* the conformance harness is generated from it (tools/gen.py reads TLC's  *)
(* JSON dump of it), never the other way round.                            *)
(*                                                                         *)
(* A type is the name of a primitive, of an enumeration (EnumTables.tla)   *)
(* or of a record of this module.  A layout is a sequence of fields:       *)
(*   F(n, t)      one value of type t                                      *)
(*   W(n, t, k)   an enumeration of type t written in k octets             *)
(*   B(n, k)      exactly k octets                                         *)
(*   D(n, c)      as many octets as count expression c says                *)
(*   L(n, t, c)   as many values of type t as count expression c says      *)
(*   O(n, r, l)   an optional block of octets (record type r), present iff *)
(*                its length field l is not zero; encoding derives l       *)
(*   X(n, r, l)   a part (record type r) of as many octets as its length     *)
(*                field l says; encoding derives l                         *)
(*   U(n, t, k)   a list the wire carries no usable count for (k says what *)
(*                an element is); the library encodes it but does not      *)
(*                decode it (known findings)                               *)
(*   M(n, k)      text in a field of k octets, cut or zero-filled          *)
(*   R(n)         octets up to the end of the input (the library's         *)
(*                gridded-data records are not self-delimiting)            *)
(*   P(k)         k octets of zero padding: no value                       *)
(*   Align(k)     zero padding up to a multiple of k octets from the start *)
(*                of the record                                            *)
(* A count expression names integer fields that come before the list:      *)
(*   <<"f", x>> x;  <<"sub", r, x>> field x of record field r;             *)
(*   <<"bits", x>> x bits rounded up to octets;  <<"div8", x>> x \div 8;   *)
(*   <<"mul", x, y>> x * y                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

F(n, t)    == [k |-> "one",  n |-> n, t |-> t]
W(n, t, c) == [k |-> "wide", n |-> n, t |-> t, c |-> c]
B(n, c)    == [k |-> "fixed", n |-> n, c |-> c]
D(n, c)    == [k |-> "data", n |-> n, c |-> c]
L(n, t, c) == [k |-> "list", n |-> n, t |-> t, c |-> c]
O(n, r, l) == [k |-> "opt",  n |-> n, t |-> r, l |-> l]
X(n, r, l) == [k |-> "sized", n |-> n, t |-> r, l |-> l]
U(n, t, e) == [k |-> "ulist", n |-> n, t |-> t, e |-> e]
M(n, c)    == [k |-> "text", n |-> n, c |-> c]
R(n)       == [k |-> "rest", n |-> n]
P(c)       == [k |-> "pad",  c |-> c]
Align(c)   == [k |-> "align", c |-> c]

PrimWidth == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4,
              u64 |-> 8, i64 |-> 8, f32 |-> 4, f64 |-> 8]

(* The two header kinds.  The last octet of each is padding. *)
HeaderLayout == <<
      F("protocol_version", "ProtocolVersion"),
      F("exercise_id", "u8"),
      F("pdu_type", "PduType"),
      F("protocol_family", "ProtocolFamily"),
      F("timestamp", "u32"),
      F("length", "u16"),
      F("status_record", "u8"),
      P(1) >>

LibRecords ==
"AcousticBeamData" :> <<
      F("beam_data_length", "u16"),
      F("beam_id_number", "u8"),
      F("pad2", "u16"),
      F("fundamental_data_parameters", "AcousticBeamFundamentalParameter") >> @@
  "AcousticBeamFundamentalParameter" :> <<
      F("active_emission_parameter_index", "u16"),
      F("scan_pattern", "u16"),
      F("beam_center_azimuth", "f32"),
      F("azimuthal_beamwidth", "f32"),
      F("beam_center_de", "f32"),
      F("de_beamwidth", "f32") >> @@
  "AcousticEmitterSystem" :> <<
      F("acoustic_name", "UAAcousticSystemName"),
      F("acoustic_function", "UAAcousticEmitterSystemFunction"),
      F("acoustic_id", "u8") >> @@
  "AcousticEmitterSystemData" :> <<
      F("emitter_system_data_length", "u8"),
      F("number_of_beams", "u8"),
      F("pad2", "u16"),
      F("acoustic_emitter_system", "AcousticEmitterSystem"),
      F("emitter_location", "Vector3Float"),
      L("beam_records", "AcousticBeamData", <<"f", "number_of_beams">>) >> @@
  "AggregateId" :> <<
      F("site", "u16"),
      F("application", "u16"),
      F("aggregate_id", "u16") >> @@
  "AggregateMarking" :> <<
      F("character_set", "u8"),
      B("characters", 31) >> @@
  "AngularVelocity" :> <<
      F("rate_about_x_axis", "f32"),
      F("rate_about_y_axis", "f32"),
      F("rate_about_z_axis", "f32") >> @@
  "ApaData" :> <<
      F("parameter_index", "u16"),
      F("parameter_value", "i16") >> @@
  "AttributeRecord" :> <<
      F("record_type", "u32"),
      F("record_length", "u16"),
      D("record_specific_fields", <<"f", "record_length">>) >> @@
  "AttributeRecordSet" :> <<
      F("entity_id", "EntityId"),
      F("number_of_attribute_records", "u16"),
      L("attribute_records", "AttributeRecord", <<"f", "number_of_attribute_records">>) >> @@
  "BeamData" :> <<
      F("beam_azimuth_center", "f32"),
      F("beam_azimuth_sweep", "f32"),
      F("beam_elevation_center", "f32"),
      F("beam_elevation_sweep", "f32"),
      F("beam_sweep_sync", "f32") >> @@
  "ClockTime" :> <<
      F("hour", "u32"),
      F("time_past_hour", "u32") >> @@
  "FixedDatumRecord" :> <<
      F("datum_id", "u32"),
      F("datum_value", "u32") >> @@
  "VariableDatumRecord" :> <<
      F("datum_id", "u32"),
      F("length_bits", "u32"),
      D("value", <<"bits", "length_bits">>),
      Align(8) >> @@
  "DeadReckoningParameters" :> <<
      F("dead_reckoning_algorithm", "DeadReckoningAlgorithm"),
      B("dead_reckoning_other_parameters", 15),
      F("entity_linear_acceleration", "LinearAcceleration"),
      F("entity_angular_velocity", "AngularVelocity") >> @@
  "DirectedEnergyDamage" :> <<
      F("record_type", "u32"),
      F("record_length", "u16"),
      P(2),
      F("damage_location", "EntityCoordinateVector"),
      F("damage_diameter", "f32"),
      F("temperature", "f32"),
      F("component_identification", "ComponentIdentification"),
      F("component_damage_status", "ComponentDamageStatus"),
      F("component_visual_damage_status", "u8"),
      F("component_visual_smoke_color", "ComponentVisualSmokeColor"),
      F("fire_event_id", "EventId"),
      P(2) >> @@
  "ElectromagneticEmissionBeamData" :> <<
      F("beam_data_length", "u8"),
      F("beam_id_number", "u8"),
      F("beam_parameter_index", "u16"),
      F("fundamental_parameter_data", "FundamentalParameterData"),
      F("beam_function", "u8"),
      F("number_of_track_jam_targets", "u8"),
      F("high_density_track_jam", "u8"),
      F("pad4", "u8"),
      F("jamming_mode_sequence", "u32"),
      L("track_jam_targets", "TrackJamTarget", <<"f", "number_of_track_jam_targets">>) >> @@
  "ElectromagneticEmissionSystemData" :> <<
      F("system_data_length", "u8"),
      F("number_of_beams", "u8"),
      F("emissionspadding2", "u16"),
      F("emitter_system", "EmitterSystem"),
      F("location", "Vector3Float"),
      L("beam_data_records", "ElectromagneticEmissionBeamData", <<"f", "number_of_beams">>) >> @@
  "EmitterSystem" :> <<
      F("emitter_name", "EmitterName"),
      F("function", "EmitterSystemFunction"),
      F("emitter_id_number", "u8") >> @@
  "EntityCoordinateVector" :> <<
      F("x_coordinate", "f32"),
      F("y_coordinate", "f32"),
      F("z_coordinate", "f32") >> @@
  "EntityId" :> <<
      F("simulation_address", "SimulationAddress"),
      F("entity_id", "u16") >> @@
  "EntityMarking" :> <<
      F("entity_marking_character_set", "EntityMarkingCharacterSet"),
      M("entity_marking_string", 11) >> @@
  "EntityType" :> <<
      F("kind", "EntityKind"),
      F("domain", "u8"),
      F("country", "Country"),
      F("category", "u8"),
      F("subcategory", "u8"),
      F("specific", "u8"),
      F("extra", "u8") >> @@
  "Environment" :> <<
      F("environment_type", "u32"),
      F("length", "u16"),
      F("index", "u8"),
      F("padding", "u8") >> @@
  "EulerAngles" :> <<
      F("psi", "f32"),
      F("theta", "f32"),
      F("phi", "f32") >> @@
  "EventId" :> <<
      F("simulation_address", "SimulationAddress"),
      F("event_identifier", "u16") >> @@
  "FundamentalOperationalData" :> <<
      F("system_status", "u8"),
      F("data_field1", "u8"),
      F("information_layers", "u8"),
      F("data_field2", "u8"),
      F("parameter1", "u16"),
      F("parameter2", "u16"),
      F("parameter3", "u16"),
      F("parameter4", "u16"),
      F("parameter5", "u16"),
      F("parameter6", "u16") >> @@
  "FundamentalParameterData" :> <<
      F("frequency", "f32"),
      F("frequency_range", "f32"),
      F("effective_radiated_power", "f32"),
      F("pulse_repetition_frequency", "f32"),
      F("pulse_width", "f32"),
      F("beam_azimuth_center", "f32"),
      F("beam_azimuth_sweep", "f32"),
      F("beam_elevation_center", "f32"),
      F("beam_elevation_sweep", "f32"),
      F("beam_sweep_sync", "f32") >> @@
  "IFFFundamentalParameterData" :> <<
      F("erp", "f32"),
      F("frequency", "f32"),
      F("pgrf", "f32"),
      F("pulse_width", "f32"),
      F("burst_length", "u32"),
      F("applicable_modes", "u8"),
      B("system_specific_data", 3) >> @@
  "IntercomCommunicationsParameters" :> <<
      F("record_type", "u16"),
      F("record_length", "u16"),
      F("record_specific_field", "u32") >> @@
  "LayerHeader" :> <<
      F("layer_number", "u8"),
      F("layer_specific_information", "u8"),
      F("length", "u16") >> @@
  "LinearAcceleration" :> <<
      F("first_vector_component", "f32"),
      F("second_vector_component", "f32"),
      F("third_vector_component", "f32") >> @@
  "LinearSegmentParameter" :> <<
      F("segment_number", "u8"),
      F("segment_modification", "u8"),
      F("general_segment_appearance", "u32"),
      F("specific_segment_appearance", "u32"),
      F("segment_location", "WorldCoordinate"),
      F("segment_orientation", "EulerAngles"),
      F("segment_length", "f32"),
      F("segment_width", "f32"),
      F("segment_height", "f32"),
      F("segment_depth", "f32"),
      P(4) >> @@
  "LinearVelocity" :> <<
      F("first_vector_component", "f32"),
      F("second_vector_component", "f32"),
      F("third_vector_component", "f32") >> @@
  "MinefieldIdentifier" :> <<
      F("simulation_address", "SimulationAddress"),
      F("minefield_number", "u16") >> @@
  "ModulationType" :> <<
      F("spread_spectrum", "u16"),
      F("major", "u16"),
      F("detail", "u16"),
      F("system", "u16") >> @@
  "MunitionDescriptor" :> <<
      F("munition_type", "EntityType"),
      F("warhead", "u16"),
      F("fuse", "u16"),
      F("quantity", "u16"),
      F("rate", "u16") >> @@
  "NamedLocation" :> <<
      F("station_name", "u16"),
      F("station_number", "u16") >> @@
  "ObjectIdentifier" :> <<
      F("simulation_address", "SimulationAddress"),
      F("object_number", "u16") >> @@
  "ObjectType" :> <<
      F("domain", "u8"),
      F("object_kind", "u8"),
      F("category", "u8"),
      F("subcategory", "u8") >> @@
  "Point" :> <<
      F("x", "f32"),
      F("y", "f32") >> @@
  "PropulsionSystemData" :> <<
      F("power_setting", "f32"),
      F("engine_rpm", "f32") >> @@
  "RadioEntityType" :> <<
      F("entity_kind", "u8"),
      F("domain", "u8"),
      F("country", "u16"),
      F("category", "u8"),
      F("nomenclature_version", "u8"),
      F("nomenclature", "u16") >> @@
  "RecordSpecification" :> <<
      F("number_of_record_sets", "u32"),
      L("record_sets", "RecordSpecificationElement", <<"f", "number_of_record_sets">>) >> @@
  "RecordSpecificationElement" :> <<
      F("record_id", "u32"),
      F("record_set_serial_number", "u32"),
      F("record_length", "u16"),
      F("record_count", "u16"),
      D("record_values", <<"mul", "record_length", "record_count">>) >> @@
  "Relationship" :> <<
      F("nature", "u16"),
      F("position", "u16") >> @@
  "SecondaryOperationalData" :> <<
      F("operational_data1", "u8"),
      F("operational_data2", "u8"),
      F("number_of_iff_fundamental_parameter_records", "u16") >> @@
  "ShaftRPMs" :> <<
      F("current_shaft_rpms", "i16"),
      F("ordered_shaft_rpms", "i16"),
      F("shaft_rpm_rate_of_change", "i32") >> @@
  "SimulationAddress" :> <<
      F("site_id", "u16"),
      F("application_id", "u16") >> @@
  "SimulationIdentifier" :> <<
      F("simulation_address", "SimulationAddress"),
      F("reference_number", "u16") >> @@
  "StandardVariableRecords" :> <<
      F("record_type", "u32"),
      F("record_length", "u16"),
      D("record_specific_fields", <<"f", "record_length">>) >> @@
  "StandardVariableSpecification" :> <<
      F("number_of_standard_variable_records", "u16"),
      L("standard_variable_records", "StandardVariableRecords", <<"f", "number_of_standard_variable_records">>) >> @@
  "SupplyQuantity" :> <<
      F("supply_type", "EntityType"),
      F("quantity", "f32") >> @@
  "SystemId" :> <<
      F("system_type", "u16"),
      F("system_name", "u16"),
      F("system_mode", "u8"),
      F("change_options", "u8") >> @@
  "TrackJamTarget" :> <<
      F("track_jam", "EntityId"),
      F("emitter_id", "u8"),
      F("beam_id", "u8") >> @@
  "VariableParameter" :> <<
      F("record_type", "u8"),
      F("variable_parameter_field1", "f64"),
      F("variable_parameter_field2", "u32"),
      F("variable_parameter_field3", "u16"),
      F("variable_parameter_field4", "u8") >> @@
  "VariableTransmitterParameters" :> <<
      W("record_type", "VariableParameterRecordType", 4),
      F("record_length", "u16"),
      D("record_specific_fields", <<"f", "record_length">>) >> @@
  "Vector3Double" :> <<
      F("x", "f64"),
      F("y", "f64"),
      F("z", "f64") >> @@
  "Vector3Float" :> <<
      F("x", "f32"),
      F("y", "f32"),
      F("z", "f32") >> @@
  "VectoringNozzleSystemData" :> <<
      F("horizontal_deflection_angle", "f32"),
      F("vertical_deflection_angle", "f32") >> @@
  "VelocityVector" :> <<
      F("first_vector_component", "f32"),
      F("second_vector_component", "f32"),
      F("third_vector_component", "f32") >> @@
  "WorldCoordinate" :> <<
      F("x", "f64"),
      F("y", "f64"),
      F("z", "f64") >> @@
  "PduHeader" :> <<
      F("protocol_version", "ProtocolVersion"),
      F("exercise_id", "u8"),
      F("pdu_type", "PduType"),
      F("protocol_family", "ProtocolFamily"),
      F("timestamp", "u32"),
      F("length", "u16"),
      F("status_record", "u8"),
      P(1) >> @@
  "LiveEntityPduHeader" :> <<
      F("protocol_version", "ProtocolVersion"),
      F("exercise_id", "u8"),
      F("pdu_type", "PduType"),
      F("protocol_family", "ProtocolFamily"),
      F("timestamp", "u32"),
      F("length", "u16"),
      F("subprotocol_number", "DISLiveEntitySubprotocolNumber"),
      P(1) >> @@
  (* The gridded-data records are variants selected by an enumeration; each  *)
  (* variant is a record of its own here, its selector pinned by a constant. *)
  "GridAxisDescriptor#0" :> <<
      F("domain_initial", "f64"),
      F("domain_final", "f64"),
      F("domain_points", "u16"),
      F("interleaf_factor", "u8"),
      F("axis_type", "GridAxisDescriptorAxisType"),
      F("number_of_points_on_x_axis", "u16"),
      F("initial_index", "u16") >> @@
  "GridAxisDescriptor#1" :> <<
      F("domain_initial", "f64"),
      F("domain_final", "f64"),
      F("domain_points", "u16"),
      F("interleaf_factor", "u8"),
      F("axis_type", "GridAxisDescriptorAxisType"),
      F("number_of_points_on_x_axis", "u16"),
      F("initial_index", "u16"),
      F("coordinate_scale_x", "f64"),
      F("coordinate_offset_x", "f64"),
      L("x_values", "u16", <<"f", "number_of_points_on_x_axis">>),
      R("padding") >> @@
  "GridDataRecord#0" :> <<
      W("sample_type", "GriddedDataSampleType", 2),
      W("data_representation", "GriddedDataDataRepresentation", 2),
      F("number_of_octets", "u16"),
      D("data_values", <<"f", "number_of_octets">>),
      R("padding") >> @@
  "GridDataRecord#1" :> <<
      W("sample_type", "GriddedDataSampleType", 2),
      W("data_representation", "GriddedDataDataRepresentation", 2),
      F("field_scale", "f32"),
      F("field_offset", "f32"),
      F("number_of_values", "u16"),
      L("data_values", "u16", <<"f", "number_of_values">>),
      R("padding") >> @@
  "GridDataRecord#2" :> <<
      W("sample_type", "GriddedDataSampleType", 2),
      W("data_representation", "GriddedDataDataRepresentation", 2),
      F("number_of_values", "u16"),
      F("padding", "u16"),
      L("data_values", "f32", <<"f", "number_of_values">>) >>

(* Selector octets of the variants. *)
VariantOf ==
  "GridAxisDescriptor#0" :> [rec |-> "GridAxisDescriptor", field |-> 5, value |-> <<0>>] @@
  "GridAxisDescriptor#1" :> [rec |-> "GridAxisDescriptor", field |-> 5, value |-> <<1>>] @@
  "GridDataRecord#0" :> [rec |-> "GridDataRecord", field |-> 2, value |-> <<0, 0>>] @@
  "GridDataRecord#1" :> [rec |-> "GridDataRecord", field |-> 2, value |-> <<0, 1>>] @@
  "GridDataRecord#2" :> [rec |-> "GridDataRecord", field |-> 2, value |-> <<0, 2>>]

LibPdus ==
"EntityStatePdu" :> [mod |-> "entity_information", type |-> 1, family |-> 1, fields |-> <<
      F("entity_id", "EntityId"),
      F("force_id", "ForceId"),
      F("number_of_articulation_parameters", "u8"),
      F("entity_type", "EntityType"),
      F("alternative_entity_type", "EntityType"),
      F("entity_linear_velocity", "LinearVelocity"),
      F("entity_location", "WorldCoordinate"),
      F("entity_orientation", "EulerAngles"),
      F("entity_appearance", "u32"),
      F("dead_reckoning_parameters", "DeadReckoningParameters"),
      F("entity_marking", "EntityMarking"),
      F("entity_capabilities", "EntityCapabilities"),
      L("articulation_parameter", "VariableParameter", <<"f", "number_of_articulation_parameters">>) >>] @@
  "CollisionPdu" :> [mod |-> "entity_information", type |-> 4, family |-> 1, fields |-> <<
      F("issuing_entity_id", "EntityId"),
      F("colliding_entity_id", "EntityId"),
      F("event_id", "EventId"),
      F("collision_type", "u8"),
      P(1),
      F("velocity", "LinearVelocity"),
      F("mass", "f32"),
      F("location_wrt_entity", "EntityCoordinateVector") >>] @@
  "CollisionElasticPdu" :> [mod |-> "entity_information", type |-> 66, family |-> 1, fields |-> <<
      F("issuing_entity_id", "EntityId"),
      F("colliding_entity_id", "EntityId"),
      F("event_id", "EventId"),
      P(2),
      F("contact_velocity", "LinearVelocity"),
      F("mass", "f32"),
      F("location_of_impact", "EntityCoordinateVector"),
      F("collision_intermediate_result_xx", "f32"),
      F("collision_intermediate_result_xy", "f32"),
      F("collision_intermediate_result_xz", "f32"),
      F("collision_intermediate_result_yy", "f32"),
      F("collision_intermediate_result_yz", "f32"),
      F("collision_intermediate_result_zz", "f32"),
      F("unit_surface_normal", "EntityCoordinateVector"),
      F("coefficient_of_restitution", "f32") >>] @@
  "EntityStateUpdatePdu" :> [mod |-> "entity_information", type |-> 67, family |-> 1, fields |-> <<
      F("entity_id", "EntityId"),
      P(1),
      F("number_of_variable_parameters", "u8"),
      F("entity_linear_velocity", "LinearVelocity"),
      F("entity_location", "WorldCoordinate"),
      F("entity_orientation", "EulerAngles"),
      F("entity_appearance", "u32"),
      L("variable_parameter_records", "VariableParameter", <<"f", "number_of_variable_parameters">>) >>] @@
  "AttributePdu" :> [mod |-> "entity_information", type |-> 72, family |-> 1, fields |-> <<
      F("originating_simulation_address", "SimulationAddress"),
      P(4),
      P(2),
      F("attribute_record_pdu_type", "u8"),
      F("attribute_record_protocol_version", "u8"),
      F("master_attribute_record_type", "u32"),
      F("action_code", "DISAttributeActionCode"),
      P(1),
      F("number_of_attribute_record_sets", "u16"),
      L("attribute_record_sets", "AttributeRecordSet", <<"f", "number_of_attribute_record_sets">>) >>] @@
  "FirePdu" :> [mod |-> "warfare", type |-> 2, family |-> 2, fields |-> <<
      F("firing_entity_id", "EntityId"),
      F("target_entity_id", "EntityId"),
      F("munition_expendable_id", "EntityId"),
      F("event_id", "EventId"),
      F("fire_mission_index", "u32"),
      F("location_in_world_coordinates", "WorldCoordinate"),
      F("descriptor", "MunitionDescriptor"),
      F("velocity", "LinearVelocity"),
      F("range", "f32") >>] @@
  "DetonationPdu" :> [mod |-> "warfare", type |-> 3, family |-> 2, fields |-> <<
      F("firing_entity_id", "EntityId"),
      F("target_entity_id", "EntityId"),
      F("exploding_entity_id", "EntityId"),
      F("event_id", "EventId"),
      F("velocity", "LinearVelocity"),
      F("location_in_world_coordinates", "WorldCoordinate"),
      F("descriptor", "MunitionDescriptor"),
      F("location_in_entitys_coordinates", "EntityCoordinateVector"),
      F("detonation_result", "DetonationResult"),
      F("number_of_variable_parameters", "u8"),
      P(2),
      L("variable_parameters", "VariableParameter", <<"f", "number_of_variable_parameters">>) >>] @@
  "DirectedEnergyFirePdu" :> [mod |-> "warfare", type |-> 68, family |-> 2, fields |-> <<
      F("firing_entity_id", "EntityId"),
      F("event_id", "EventId"),
      F("munition_type", "EntityType"),
      F("shot_start_time", "ClockTime"),
      F("cumulative_shot_time", "f32"),
      F("aperture_emitter_location", "EntityCoordinateVector"),
      F("aperture_diameter", "f32"),
      F("wavelength", "f32"),
      P(4),
      F("pulse_repetition_frequency", "f32"),
      F("pulse_width", "f32"),
      F("flags", "u16"),
      F("pulse_shape", "DEFirePulseShape"),
      P(1),
      P(4),
      P(2),
      F("number_of_de_records", "u16"),
      L("damage_descriptions", "DirectedEnergyDamage", <<"f", "number_of_de_records">>) >>] @@
  "EntityDamageStatusPdu" :> [mod |-> "warfare", type |-> 69, family |-> 2, fields |-> <<
      F("damaged_entity_id", "EntityId"),
      P(2),
      P(2),
      F("number_of_damage_descriptions", "u16"),
      L("damage_descriptions", "DirectedEnergyDamage", <<"f", "number_of_damage_descriptions">>) >>] @@
  "ServiceRequestPdu" :> [mod |-> "logistics", type |-> 5, family |-> 3, fields |-> <<
      F("receiving_entity_id", "EntityId"),
      F("servicing_entity_id", "EntityId"),
      F("service_type_requested", "ServiceRequestServiceTypeRequested"),
      F("number_of_supply_types", "u8"),
      P(2),
      L("supplies", "SupplyQuantity", <<"f", "number_of_supply_types">>) >>] @@
  "ResupplyOfferPdu" :> [mod |-> "logistics", type |-> 6, family |-> 3, fields |-> <<
      F("receiving_entity_id", "EntityId"),
      F("supplying_entity_id", "EntityId"),
      F("number_of_supply_types", "u8"),
      P(1),
      P(2),
      L("supplies", "SupplyQuantity", <<"f", "number_of_supply_types">>) >>] @@
  "ResupplyReceivedPdu" :> [mod |-> "logistics", type |-> 7, family |-> 3, fields |-> <<
      F("receiving_entity_id", "EntityId"),
      F("supplying_entity_id", "EntityId"),
      F("number_of_supply_types", "u8"),
      P(1),
      P(2),
      L("supplies", "SupplyQuantity", <<"f", "number_of_supply_types">>) >>] @@
  "ResupplyCancelPdu" :> [mod |-> "logistics", type |-> 8, family |-> 3, fields |-> <<
      F("receiving_entity_id", "EntityId"),
      F("supplying_entity_id", "EntityId") >>] @@
  "RepairCompletePdu" :> [mod |-> "logistics", type |-> 9, family |-> 3, fields |-> <<
      F("receiving_entity_id", "EntityId"),
      F("repairing_entity_id", "EntityId"),
      F("repair", "RepairCompleteRepair"),
      P(2) >>] @@
  "RepairResponsePdu" :> [mod |-> "logistics", type |-> 10, family |-> 3, fields |-> <<
      F("receiving_entity_id", "EntityId"),
      F("repairing_entity_id", "EntityId"),
      F("repair_result", "RepairResponseRepairResult"),
      P(1),
      P(2) >>] @@
  "CreateEntityPdu" :> [mod |-> "simulation_management", type |-> 11, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32") >>] @@
  "RemoveEntityPdu" :> [mod |-> "simulation_management", type |-> 12, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32") >>] @@
  "StartResumePdu" :> [mod |-> "simulation_management", type |-> 13, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("real_world_time", "ClockTime"),
      F("simulation_time", "ClockTime"),
      F("request_id", "u32") >>] @@
  "StopFreezePdu" :> [mod |-> "simulation_management", type |-> 14, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("real_world_time", "ClockTime"),
      F("reason", "Reason"),
      F("frozen_behavior", "FrozenBehavior"),
      P(2),
      F("request_id", "u32") >>] @@
  "AcknowledgePdu" :> [mod |-> "simulation_management", type |-> 15, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("acknowledge_flag", "AcknowledgeFlag"),
      F("response_flag", "AcknowledgeResponseFlag"),
      F("request_id", "u32") >>] @@
  "ActionRequestPdu" :> [mod |-> "simulation_management", type |-> 16, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      F("action_id", "u32"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "ActionResponsePdu" :> [mod |-> "simulation_management", type |-> 17, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      F("request_status", "ActionResponseRequestStatus"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "DataQueryPdu" :> [mod |-> "simulation_management", type |-> 18, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      F("time_interval", "u32"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "SetDataPdu" :> [mod |-> "simulation_management", type |-> 19, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      P(4),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "DataPdu" :> [mod |-> "simulation_management", type |-> 20, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      P(4),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "EventReportPdu" :> [mod |-> "simulation_management", type |-> 21, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("event_type", "EventType"),
      P(4),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "CommentPdu" :> [mod |-> "simulation_management", type |-> 22, family |-> 5, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "ElectromagneticEmissionsPdu" :> [mod |-> "distributed_emissions", type |-> 23, family |-> 6, fields |-> <<
      F("emitting_entity_id", "EntityId"),
      F("event_id", "EventId"),
      F("state_update_indicator", "EEAttributeStateIndicator"),
      F("number_of_systems", "u8"),
      P(2),
      L("systems", "ElectromagneticEmissionSystemData", <<"f", "number_of_systems">>) >>] @@
  "DesignatorPdu" :> [mod |-> "distributed_emissions", type |-> 24, family |-> 6, fields |-> <<
      F("designating_entity_id", "EntityId"),
      F("code_name", "DesignatorSystemName"),
      F("designated_entity_id", "EntityId"),
      F("designator_code", "DesignatorCode"),
      F("designator_power", "f32"),
      F("designator_wavelength", "f32"),
      F("designator_spot_wrt_designated", "EntityCoordinateVector"),
      F("designator_spot_location", "WorldCoordinate"),
      F("dead_reckoning_algorithm", "DeadReckoningAlgorithm"),
      P(1),
      P(2),
      F("entity_linear_acceleration", "LinearAcceleration") >>] @@
  "UnderwaterAcousticPdu" :> [mod |-> "distributed_emissions", type |-> 29, family |-> 6, fields |-> <<
      F("emitting_entity_id", "EntityId"),
      F("event_id", "EventId"),
      F("state_change_update_indicator", "UAStateChangeUpdateIndicator"),
      P(1),
      F("passive_parameter_index", "UAPassiveParameterIndex"),
      F("propulsion_plant_configuration", "u8"),
      F("number_of_shafts", "u8"),
      F("number_of_apas", "u8"),
      F("number_of_ua_emitter_systems", "u8"),
      L("shaft_rpms", "ShaftRPMs", <<"f", "number_of_shafts">>),
      L("apa_data", "ApaData", <<"f", "number_of_apas">>),
      L("emitter_systems", "AcousticEmitterSystem", <<"f", "number_of_ua_emitter_systems">>) >>] @@
  "IFFPdu" :> [mod |-> "distributed_emissions", type |-> 28, family |-> 6, fields |-> <<
      F("emitting_entity_id", "EntityId"),
      F("event_id", "EventId"),
      F("relative_antenna_location", "EntityCoordinateVector"),
      F("system_id", "SystemId"),
      F("system_designator", "u8"),
      F("system_specific_data", "u8"),
      F("fundamental_operational_data", "FundamentalOperationalData"),
      F("layer_header", "LayerHeader"),
      F("beam_data", "BeamData"),
      F("secondary_operational_data", "SecondaryOperationalData"),
      L("iff_parameters", "IFFFundamentalParameterData", <<"sub", "secondary_operational_data", "number_of_iff_fundamental_parameter_records">>) >>] @@
  "SupplementalEmissionPdu" :> [mod |-> "distributed_emissions", type |-> 30, family |-> 6, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("infrared_signature_representation_index", "u16"),
      F("acoustic_signature_representation_index", "u16"),
      F("radar_cross_section_signature_representation_index", "u16"),
      F("number_of_propulsion_systems", "u16"),
      F("number_of_vectoring_nozzle_systems", "u16"),
      L("propulsion_system_data", "PropulsionSystemData", <<"f", "number_of_propulsion_systems">>),
      L("vectoring_nozzle_system_data", "VectoringNozzleSystemData", <<"f", "number_of_vectoring_nozzle_systems">>) >>] @@
  "TransmitterPdu" :> [mod |-> "radio_communications", type |-> 25, family |-> 4, fields |-> <<
      F("entity_id", "EntityId"),
      F("radio_id", "u16"),
      F("radio_entity_type", "RadioEntityType"),
      F("transmit_state", "TransmitterTransmitState"),
      F("input_source", "TransmitterInputSource"),
      F("number_of_variable_transmitter_parameters_records", "u16"),
      F("antenna_location", "WorldCoordinate"),
      F("relative_antenna_location", "EntityCoordinateVector"),
      F("antenna_pattern_type", "TransmitterAntennaPatternType"),
      F("antenna_pattern_length", "u16"),
      F("frequency", "u64"),
      F("transmit_frequency_bandwidth", "f32"),
      F("power", "f32"),
      F("modulation_type", "ModulationType"),
      F("crypto_system", "TransmitterCryptoSystem"),
      F("crypto_key_id", "u16"),
      F("modulation_parameter_length", "u8"),
      P(1),
      P(2),
      O("modulation_parameters", "ModulationParameters", "modulation_parameter_length"),
      O("antenna_pattern", "AntennaPattern", "antenna_pattern_length"),
      L("variable_transmitter_parameters", "VariableTransmitterParameters", <<"f", "number_of_variable_transmitter_parameters_records">>) >>] @@
  "SignalPdu" :> [mod |-> "radio_communications", type |-> 26, family |-> 4, fields |-> <<
      F("entity_id", "EntityId"),
      F("radio_id", "u16"),
      F("encoding_scheme", "u16"),
      F("tdl_type", "SignalTDLType"),
      F("sample_rate", "u32"),
      F("data_length", "u16"),
      F("samples", "u16"),
      D("data", <<"bits", "data_length">>) >>] @@
  "ReceiverPdu" :> [mod |-> "radio_communications", type |-> 27, family |-> 4, fields |-> <<
      F("entity_id", "EntityId"),
      F("radio_id", "u16"),
      F("receiver_state", "ReceiverReceiverState"),
      P(2),
      F("received_power", "f32"),
      F("transmitter_radio_reference_id", "EntityId"),
      F("transmitter_radio_id", "u16") >>] @@
  "IntercomSignalPdu" :> [mod |-> "radio_communications", type |-> 31, family |-> 4, fields |-> <<
      F("intercom_reference_id", "EntityId"),
      F("intercom_number", "u16"),
      F("encoding_scheme", "u16"),
      F("tdl_type", "SignalTDLType"),
      F("sample_rate", "u32"),
      F("data_length", "u16"),
      F("samples", "u16"),
      D("data", <<"bits", "data_length">>) >>] @@
  "IntercomControlPdu" :> [mod |-> "radio_communications", type |-> 32, family |-> 4, fields |-> <<
      F("control_type", "IntercomControlControlType"),
      F("communications_channel_type", "u8"),
      F("source_intercom_reference_id", "EntityId"),
      F("source_intercom_number", "u16"),
      F("source_line_id", "u8"),
      F("transmit_priority", "u8"),
      F("transmit_line_state", "IntercomControlTransmitLineState"),
      F("command", "IntercomControlCommand"),
      F("master_intercom_reference_id", "EntityId"),
      F("master_intercom_number", "u16"),
      F("master_channel_id", "u16"),
      F("intercom_parameters_length", "u32"),
      L("intercom_parameters", "IntercomCommunicationsParameters", <<"div8", "intercom_parameters_length">>) >>] @@
  "AggregateStatePdu" :> [mod |-> "entity_management", type |-> 33, family |-> 7, fields |-> <<
      F("aggregate_id", "AggregateId"),
      F("force_id", "ForceId"),
      F("aggregate_state", "AggregateStateAggregateState"),
      F("aggregate_type", "EntityType"),
      F("formation", "AggregateStateFormation"),
      F("aggregate_marking", "AggregateMarking"),
      F("dimensions", "Vector3Float"),
      F("orientation", "EulerAngles"),
      F("center_of_mass", "WorldCoordinate"),
      F("velocity", "LinearVelocity"),
      F("number_of_dis_aggregates", "u16"),
      F("number_of_dis_entities", "u16"),
      F("number_of_silent_aggregate_types", "u16"),
      F("number_of_silent_entity_types", "u16"),
      L("aggregate_id_list", "AggregateId", <<"f", "number_of_dis_aggregates">>),
      L("entity_id_list", "EntityId", <<"f", "number_of_dis_entities">>),
      L("silent_aggregate_system_list", "EntityType", <<"f", "number_of_silent_aggregate_types">>),
      L("silent_entity_system_list", "EntityType", <<"f", "number_of_silent_entity_types">>),
      F("number_of_variable_datum_records", "u32"),
      L("variable_datum_list", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "IsGroupOfPdu" :> [mod |-> "entity_management", type |-> 34, family |-> 7, fields |-> <<
      F("group_entity_id", "EntityId"),
      F("grouped_entity_category", "IsGroupOfGroupedEntityCategory"),
      F("number_of_grouped_entities", "u8"),
      P(4),
      F("latitude", "f64"),
      F("longitude", "f64"),
      L("grouped_entity_descriptions", "u64", <<"f", "number_of_grouped_entities">>) >>] @@
  "TransferOwnershipPdu" :> [mod |-> "entity_management", type |-> 35, family |-> 7, fields |-> <<
      F("originating_id", "SimulationIdentifier"),
      F("receiving_id", "SimulationIdentifier"),
      F("request_id", "u32"),
      F("required_reliability_service", "RequiredReliabilityService"),
      F("transfer_type", "TransferControlTransferType"),
      F("transfer_entity_id", "EntityId"),
      F("record_information", "RecordSpecification") >>] @@
  "IsPartOfPdu" :> [mod |-> "entity_management", type |-> 36, family |-> 7, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("relationship", "Relationship"),
      F("part_location", "Vector3Float"),
      F("named_location_id", "NamedLocation"),
      F("part_entity_type", "EntityType") >>] @@
  "MinefieldStatePdu" :> [mod |-> "minefield", type |-> 37, family |-> 8, fields |-> <<
      F("minefield_id", "MinefieldIdentifier"),
      F("minefield_sequence", "u16"),
      F("force_id", "ForceId"),
      F("number_of_perimeter_points", "u8"),
      F("minefield_type", "EntityType"),
      F("number_of_mine_types", "u16"),
      F("minefield_location", "WorldCoordinate"),
      F("minefield_orientation", "EulerAngles"),
      F("appearance", "u16"),
      F("protocol_mode", "MinefieldStateProtocolMode"),
      L("perimeter_points", "Point", <<"f", "number_of_perimeter_points">>),
      L("mine_type", "EntityType", <<"f", "number_of_mine_types">>) >>] @@
  "MinefieldQueryPdu" :> [mod |-> "minefield", type |-> 38, family |-> 8, fields |-> <<
      F("minefield_id", "MinefieldIdentifier"),
      F("requesting_entity_id", "EntityId"),
      F("request_id", "u8"),
      F("number_of_perimeter_points", "u8"),
      P(1),
      F("number_of_sensor_types", "u8"),
      F("data_filter", "u32"),
      F("requested_mine_type", "EntityType"),
      L("requested_perimeter_points", "Point", <<"f", "number_of_perimeter_points">>),
      L("sensor_types", "MinefieldSensorTypes", <<"f", "number_of_sensor_types">>) >>] @@
  "MinefieldDataPdu" :> [mod |-> "minefield", type |-> 39, family |-> 8, fields |-> <<
      F("minefield_id", "MinefieldIdentifier"),
      F("requesting_entity_id", "EntityId"),
      F("minefield_sequence_number", "u16"),
      F("request_id", "u8"),
      F("pdu_sequence_number", "u8"),
      F("number_of_pdus", "u8"),
      F("number_of_mines_in_this_pdu", "u8"),
      F("number_of_sensor_types", "u8"),
      P(1),
      F("data_filter", "u32"),
      F("mine_type", "EntityType"),
      L("sensor_types", "MinefieldSensorTypes", <<"f", "number_of_sensor_types">>),
      L("mine_location", "EntityCoordinateVector", <<"f", "number_of_mines_in_this_pdu">>),
      U("ground_burial_depth_offset", "f32", "opt"),
      U("water_burial_depth_offset", "f32", "opt"),
      U("snow_burial_depth_offset", "f32", "opt"),
      U("mine_orientation", "EulerAngles", "opt"),
      U("thermal_contrast", "f32", "opt"),
      U("reflectance", "f32", "opt"),
      U("mine_emplacement_time", "ClockTime", "opt"),
      U("mine_entity_id", "u16", "opt"),
      U("fusing", "u16", "opt"),
      U("scalar_detection_coefficient", "u8", "opt"),
      U("paint_scheme", "u8", "opt"),
      U("number_of_trip_wires", "u8", "opt"),
      U("number_of_vertices", "u8", "opt"),
      U("vertices", "EntityCoordinateVector", "optlist") >>] @@
  "MinefieldResponseNackPdu" :> [mod |-> "minefield", type |-> 40, family |-> 8, fields |-> <<
      F("minefield_id", "EntityId"),
      F("requesting_entity_id", "EntityId"),
      F("request_id", "u8"),
      F("number_of_missing_pdus", "u8"),
      L("missing_pdu_sequence_numbers", "u64", <<"f", "number_of_missing_pdus">>) >>] @@
  "EnvironmentalProcessPdu" :> [mod |-> "synthetic_environment", type |-> 41, family |-> 9, fields |-> <<
      F("environmental_process_id", "EntityId"),
      F("environment_type", "EntityType"),
      F("model_type", "u8"),
      F("environment_status", "u8"),
      F("number_of_environment_records", "u16"),
      F("sequence_number", "u16"),
      L("environment_records", "Environment", <<"f", "number_of_environment_records">>) >>] @@
  "GriddedDataPdu" :> [mod |-> "synthetic_environment", type |-> 42, family |-> 9, fields |-> <<
      F("environmental_simulation_id", "EntityId"),
      F("field_number", "u16"),
      F("pdu_number", "u16"),
      F("pdu_total", "u16"),
      F("coordinate_system", "GriddedDataCoordinateSystem"),
      F("number_of_grid_axes", "u8"),
      F("constant_grid", "GriddedDataConstantGrid"),
      F("environment_type", "EntityType"),
      F("orientation", "EulerAngles"),
      F("sample_time", "ClockTime"),
      F("total_values", "u32"),
      F("vector_dimension", "u8"),
      P(1),
      P(2),
      U("grid_axis_descriptors", "GridAxisDescriptor", "one"),
      U("grid_data_list", "GridDataRecord", "one") >>] @@
  "PointObjectStatePdu" :> [mod |-> "synthetic_environment", type |-> 43, family |-> 9, fields |-> <<
      F("object_id", "EntityId"),
      F("referenced_object_id", "EntityId"),
      F("update_number", "u16"),
      F("force_id", "ForceId"),
      F("modifications", "u8"),
      F("object_type", "ObjectType"),
      F("object_location", "WorldCoordinate"),
      F("object_orientation", "EulerAngles"),
      F("specific_object_appearance", "u32"),
      F("general_object_appearance", "u16"),
      P(2),
      F("requester_id", "SimulationAddress"),
      F("receiving_id", "SimulationAddress"),
      P(4) >>] @@
  "LinearObjectStatePdu" :> [mod |-> "synthetic_environment", type |-> 44, family |-> 9, fields |-> <<
      F("object_id", "ObjectIdentifier"),
      F("referenced_object_id", "ObjectIdentifier"),
      F("update_number", "u16"),
      F("force_id", "ForceId"),
      F("number_of_segments", "u8"),
      F("requester_id", "SimulationAddress"),
      F("receiving_id", "SimulationAddress"),
      F("object_type", "ObjectType"),
      L("linear_segment_parameters", "LinearSegmentParameter", <<"f", "number_of_segments">>) >>] @@
  "ArealObjectStatePdu" :> [mod |-> "synthetic_environment", type |-> 45, family |-> 9, fields |-> <<
      F("object_id", "ObjectIdentifier"),
      F("referenced_object_id", "ObjectIdentifier"),
      F("update_number", "u16"),
      F("force_id", "ForceId"),
      F("modifications", "u8"),
      F("object_type", "ObjectType"),
      F("specific_object_appearance", "u32"),
      F("general_object_appearance", "ObjectStateAppearanceGeneral"),
      F("number_of_points", "u16"),
      F("requester_id", "SimulationAddress"),
      F("receiving_id", "SimulationAddress"),
      L("object_location", "WorldCoordinate", <<"f", "number_of_points">>) >>] @@
  "CreateEntityReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 51, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      F("request_id", "u32") >>] @@
  "RemoveEntityReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 52, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      F("request_id", "u32") >>] @@
  "StartResumeReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 53, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("real_world_time", "ClockTime"),
      F("simulation_time", "ClockTime"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      F("request_id", "u32") >>] @@
  "StopFreezeReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 54, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("real_world_time", "ClockTime"),
      F("reason", "Reason"),
      F("frozen_behavior", "FrozenBehavior"),
      F("required_reliability_service", "u8"),
      P(1),
      F("request_id", "u32") >>] @@
  "AcknowledgeReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 55, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("acknowledge_flag", "AcknowledgeFlag"),
      F("response_flag", "AcknowledgeResponseFlag"),
      F("request_id", "u32") >>] @@
  "ActionRequestReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 56, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      F("request_id", "u32"),
      F("action_id", "u32"),
      P(4),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "ActionResponseReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 57, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      F("request_status", "ActionResponseRequestStatus"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "DataQueryReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 58, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      F("request_id", "u32"),
      F("time_interval", "u32"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_ids", "VariableRecordTypes", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_ids", "VariableRecordTypes", <<"f", "number_of_variable_datum_records">>) >>] @@
  "SetDataReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 59, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      F("request_id", "u32"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "DataReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 60, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "EventReportReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 61, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("event_type", "EventType"),
      P(4),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "CommentReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 62, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("number_of_fixed_datum_records", "u32"),
      F("number_of_variable_datum_records", "u32"),
      L("fixed_datum_records", "FixedDatumRecord", <<"f", "number_of_fixed_datum_records">>),
      L("variable_datum_records", "VariableDatumRecord", <<"f", "number_of_variable_datum_records">>) >>] @@
  "RecordQueryReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 65, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      F("event_type", "RecordQueryREventType"),
      F("time", "u32"),
      F("number_of_records", "u32"),
      L("record_ids", "u32", <<"f", "number_of_records">>) >>] @@
  "SetRecordReliablePdu" :> [mod |-> "simulation_management_with_reliability", type |-> 64, family |-> 10, fields |-> <<
      F("originating_entity_id", "EntityId"),
      F("receiving_entity_id", "EntityId"),
      F("request_id", "u32"),
      F("required_reliability_service", "RequiredReliabilityService"),
      P(1),
      P(2),
      P(4),
      F("record_sets", "RecordSpecification") >>] @@
  "InformationOperationsReportPdu" :> [mod |-> "information_operations", type |-> 71, family |-> 13, fields |-> <<
      F("originating_simulation_id", "SimulationIdentifier"),
      F("io_simulation_source", "IOActionIOSimulationSource"),
      F("io_report_type", "IOReportIOReportType"),
      P(1),
      F("io_attacker_entity_id", "EntityId"),
      F("primary_target_entity_id", "EntityId"),
      P(2),
      P(2),
      F("io_records", "StandardVariableSpecification") >>] @@
  "InformationOperationsActionPdu" :> [mod |-> "information_operations", type |-> 70, family |-> 13, fields |-> <<
      F("originating_simulation_id", "SimulationIdentifier"),
      F("receiving_simulation_id", "SimulationIdentifier"),
      F("request_id", "u32"),
      F("io_warfare_type", "IOActionIOWarfareType"),
      F("io_simulation_source", "IOActionIOSimulationSource"),
      F("io_action_type", "IOActionIOActionType"),
      F("io_action_phase", "IOActionIOActionPhase"),
      P(4),
      F("io_attacker_entity_id", "EntityId"),
      F("io_primary_target_entity_id", "EntityId"),
      P(2),
      F("io_records", "StandardVariableSpecification") >>]

(***************************************************************************)
(* PDUs made with define_pdu! outside the library (C26): the harness        *)
(* defines exactly these.  Between them they use every way of writing a     *)
(* field the macro knows: scalars, enumerations, records, private padding,  *)
(* lists with every kind of count, records the user defined, optional and   *)
(* plain parts with a length field of every width, and no fields at all.    *)
(***************************************************************************)
UserRecords ==
  "UserPart" :> <<
      F("tag", "u8"),
      F("number_of_marks", "u16"),
      L("marks", "u32", <<"f", "number_of_marks">>),
      F("place", "WorldCoordinate") >> @@
  "UserOdd" :> <<
      B("three", 3),
      B("swapped", 2),
      B("swapped_four", 4),
      B("swapped_eight", 8),
      B("sixteen", 16),
      B("copied", 5),
      F("number", "u8"),
      B("signed", 6) >> @@
  "UserCounts" :> <<
      F("rows", "u8"),
      F("columns", "u8"),
      F("extra", "u32") >>

UserPdus ==
  "UserScalarsPdu" :> [mod |-> "user", type |-> 46, family |-> 11, fields |-> <<
      F("a", "u8"), F("b", "i8"), F("c", "u16"), F("d", "i16"), P(2), F("e", "u32"), F("f", "i32"),
      F("g", "u64"), F("h", "i64"), F("x", "f32"), F("y", "f64"), P(1),
      F("force", "ForceId"), F("reason", "Reason"), F("flag", "AcknowledgeFlag"), F("sort", "VariableRecordTypes"),
      F("who", "EntityId"), F("kind", "EntityType"), F("counts", "UserCounts"),
      F("at", "WorldCoordinate"), F("mark", "EntityMarking") >>] @@
  "UserListsPdu" :> [mod |-> "user", type |-> 47, family |-> 12, fields |-> <<
      F("n8", "u8"),
      L("halves", "u16", <<"f", "n8">>),
      F("n16", "u16"),
      F("n32", "u32"),
      L("floats", "f64", <<"f", "n16">>),
      L("parts", "UserPart", <<"f", "n32">>),
      F("counts", "UserCounts"),
      L("ids", "EntityId", <<"sub", "counts", "rows">>),
      L("forces", "ForceId", <<"sub", "counts", "columns">>),
      F("n64", "u64"),
      L("flags", "AcknowledgeFlag", <<"f", "n64">>),
      F("bits", "u16"),
      D("samples", <<"bits", "bits">>),
      F("eighths", "u32"),
      L("shorts", "i16", <<"div8", "eighths">>),
      F("across", "u8"), F("down", "u8"),
      D("grid", <<"mul", "across", "down">>),
      F("last", "u8"),
      L("datums", "VariableDatumRecord", <<"f", "last">>) >>] @@
  "UserBlocksPdu" :> [mod |-> "user", type |-> 48, family |-> 0, fields |-> <<
      F("small_length", "u8"),
      F("wide_length", "u16"),
      F("between", "EntityId"),
      O("small", "UserBlob", "small_length"),
      F("after", "u32"),
      F("long_length", "u32"),
      F("number", "u8"),
      L("marks", "u16", <<"f", "number">>),
      O("wide", "UserBlob", "wide_length"),
      O("long", "UserBlob", "long_length"),
      F("plain_length", "u16"),
      X("plain", "UserText", "plain_length"),
      F("end", "u16") >>] @@
  "UserEmptyPdu" :> [mod |-> "user", type |-> 49, family |-> 1, fields |-> << >>] @@
  "UserOnePdu" :> [mod |-> "user", type |-> 50, family |-> 13, fields |-> <<
      F("buf", "u8"),
      F("len", "u16"),
      L("parts", "UserPart", <<"f", "buf">>),
      L("odd", "UserOdd", <<"f", "len">>),
      F("body", "u32") >>]

(***************************************************************************)
(* Headers.  A PDU carries the library's PduHeader unless its row names     *)
(* another: the application's own (C28), of any layout that has a type and  *)
(* a length; type, family (0: none) and length are the numbers of those     *)
(* fields, and at is the octet the type stands in.                          *)
(***************************************************************************)
UserHeads ==
  "UserWideHead" :> [size |-> 20, at |-> 6, type |-> 3, family |-> 2, length |-> 5, fields |-> <<
      F("magic", "u32"), F("protocol_family", "ProtocolFamily"), F("pdu_type", "PduType"), P(2),
      F("exercise", "i16"), F("length", "u16"), F("sent", "f64") >>] @@
  "UserSlimHead" :> [size |-> 3, at |-> 3, type |-> 2, family |-> 0, length |-> 1, fields |-> <<
      F("length", "u16"), F("pdu_type", "PduType") >>] @@
  "UserFarHead" :> [size |-> 28, at |-> 12, type |-> 3, family |-> 5, length |-> 4, fields |-> <<
      F("from", "EntityId"), B("key", 5), F("pdu_type", "PduType"), F("length", "u16"),
      F("protocol_family", "ProtocolFamily"), F("note", "EntityMarking"), P(1) >>]
Heads == UserHeads @@ "PduHeader" :> [size |-> 12, at |-> 3, type |-> 3, family |-> 4, length |-> 6, fields |-> HeaderLayout]

OwnPdus ==
  "OwnWidePdu" :> [mod |-> "user", type |-> 30, family |-> 4, head |-> "UserWideHead", fields |-> <<
      F("a", "u8"),
      L("shorts", "u16", <<"f", "a">>),
      F("small_length", "u8"),
      F("at", "WorldCoordinate"),
      O("small", "UserBlob", "small_length"),
      F("n", "u16"),
      L("parts", "UserPart", <<"f", "n">>),
      F("force", "ForceId") >>] @@
  "OwnSlimPdu" :> [mod |-> "user", type |-> 71, family |-> 0, head |-> "UserSlimHead", fields |-> <<
      F("n", "u32"),
      P(3),
      D("octets", <<"f", "n">>),
      F("who", "EntityId") >>] @@
  "OwnFarPdu" :> [mod |-> "user", type |-> 72, family |-> 7, head |-> "UserFarHead", fields |-> <<
      F("x", "f32"),
      F("counts", "UserCounts"),
      L("ids", "EntityId", <<"sub", "counts", "rows">>),
      L("more", "UserOdd", <<"sub", "counts", "columns">>) >>] @@
  "OwnEmptyPdu" :> [mod |-> "user", type |-> 3, family |-> 0, head |-> "UserSlimHead", fields |-> << >>] @@
  (* nothing of this one is the macro's: only finalize() is the library's *)
  "OwnByHandPdu" :> [mod |-> "user", type |-> 1, family |-> 1, head |-> "UserFarHead", fields |-> <<
      F("n", "u8"),
      L("ids", "EntityId", <<"f", "n">>) >>]

Records == LibRecords @@ UserRecords
Pdus == LibPdus @@ UserPdus @@ OwnPdus
HeadOf == [t \in DOMAIN Pdus |-> IF "head" \in DOMAIN Pdus[t] THEN Heads[Pdus[t].head] ELSE Heads["PduHeader"]]

PduNames == DOMAIN LibPdus
UserNames == DOMAIN UserPdus
OwnNames == DOMAIN OwnPdus
RecordNames == DOMAIN Records
PrimNames == DOMAIN PrimWidth
=============================================================================
