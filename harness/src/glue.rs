// Generated by tools/gen.py from spec/layouts.json and spec/enums.json.  Do not edit.
#![allow(clippy::all, unused_imports, unused_variables, unused_mut)]
use crate::val::*; use crate::rt::*;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::enums as en;
use open_dis_rust::common::data_types as dt;
use open_dis_rust::common::{Pdu, GenericHeader, SerializedLength, PduHeader, LiveEntityPduHeader};
use num_traits::FromPrimitive;

enumeration!(ProtocolVersion, 1);
enumeration!(PduType, 1);
enumeration!(ProtocolFamily, 1);
enumeration!(ForceId, 1);
enumeration!(EntityKind, 1);
enumeration!(OtherKinds, 1);
enumeration!(LandDomainCategories, 1);
enumeration!(AirDomainCategories, 1);
enumeration!(SurfaceDomainCategories, 1);
enumeration!(SubsurfaceDomainCategories, 1);
enumeration!(SpaceDomainCategories, 1);
enumeration!(MunitionKind, 1);
enumeration!(MunitionCategory, 1);
enumeration!(USWeaponSubcategories, 1);
enumeration!(RussiaWeaponSubcategories, 1);
enumeration!(UKWeaponSubcategories, 1);
enumeration!(FrenchWeaponSubcategories, 1);
enumeration!(LifeFormsSubcategoryGermanWeapons, 1);
enumeration!(EnvironmentalSubcategory, 1);
enumeration!(RadioCategory, 1);
enumeration!(RadioSubcategory, 1);
enumeration!(ExpendableAirCategory, 1);
enumeration!(ExpendableSurfaceCategory, 1);
enumeration!(ExpendableSubsurfaceCategory, 1);
enumeration!(SensorEmitterCategory, 1);
enumeration!(Country, 2);
enumeration!(DeadReckoningAlgorithm, 1);
enumeration!(EntityMarkingCharacterSet, 1);
enumeration!(EntityCapabilities, 4);
enumeration!(VariableParameterRecordType, 1);
enumeration!(AttachedParts, 4);
enumeration!(ArticulatedPartsTypeMetric, 1);
enumeration!(ArticulatedPartsTypeClass, 4);
enumeration!(MunitionDescriptorWarhead, 2);
enumeration!(MunitionDescriptorFuse, 2);
enumeration!(DetonationResult, 1);
enumeration!(ServiceRequestServiceTypeRequested, 1);
enumeration!(RepairCompleteRepair, 2);
enumeration!(RepairResponseRepairResult, 1);
enumeration!(VariableRecordTypes, 4);
enumeration!(Reason, 1);
enumeration!(AcknowledgeFlag, 2);
enumeration!(AcknowledgeResponseFlag, 2);
enumeration!(ActionRequestActionID, 4);
enumeration!(ActionResponseRequestStatus, 4);
enumeration!(EventType, 4);
enumeration!(RequiredReliabilityService, 1);
enumeration!(EmitterName, 2);
enumeration!(EmitterSystemFunction, 1);
enumeration!(ElectromagneticEmissionStateUpdateIndicator, 1);
enumeration!(ElectromagneticEmissionBeamFunction, 1);
enumeration!(HighDensityTrackJam, 1);
enumeration!(DesignatorSystemName, 2);
enumeration!(DesignatorCode, 2);
enumeration!(IFFSystemType, 2);
enumeration!(IFFSystemName, 2);
enumeration!(IFFSystemMode, 1);
enumeration!(IFFLayerSpecificInformation, 1);
enumeration!(IFFAlternateMode4ChallengeReply, 1);
enumeration!(IFFSystemType1OperationalParameter1, 1);
enumeration!(IFFSystemType1OperationalParameter2, 1);
enumeration!(SubcategoriesforLandCategory200Mammal, 1);
enumeration!(SubcategoriesforLandCategory201Reptile, 1);
enumeration!(SubcategoriesforLandCategory202Amphibian, 1);
enumeration!(SubcategoriesforLandCategory203Insect, 1);
enumeration!(SubcategoriesforLandCategory204Arachnid, 1);
enumeration!(SubcategoriesforLandCategory205Mollusk, 1);
enumeration!(SubcategoriesforLandCategory206Marsupial, 1);
enumeration!(SubcategoriesforAirCategory200Bird, 1);
enumeration!(SubcategoriesforAirCategory201Insect, 1);
enumeration!(SubcategoriesforAirCategory202Mammal, 1);
enumeration!(SubcategoriesforSubsurfaceCategory200Fish, 1);
enumeration!(SubcategoriesforSubsurfaceCategory201Mammal, 1);
enumeration!(SubcategoriesforSubsurfaceCategory202Mollusk, 1);
enumeration!(SubcategoriesforSubsurfaceCategory203Crustacean, 1);
enumeration!(SubcategoriesforSubsurfaceCategory204Insect, 1);
enumeration!(AnimalLifeformGroupSizeRangeEnumerationforallDomains, 1);
enumeration!(SpecificDimensionEnumerationsforLandAreaSize, 1);
enumeration!(SpecificDimensionEnumerationsforAirAreaSize, 1);
enumeration!(AddSpecificDimensionEnumerationsforSubsurfaceAreaSize, 1);
enumeration!(AddVariantsforLandCategory200Mammal, 1);
enumeration!(VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids, 1);
enumeration!(VariantsforAirCategory200Bird, 1);
enumeration!(AddVariantsforAirCategory201Insect, 1);
enumeration!(AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect, 1);
enumeration!(VariantsforSubsurfaceCategory201Mammal, 1);
enumeration!(UAStateChangeUpdateIndicator, 1);
enumeration!(UAAcousticSystemName, 2);
enumeration!(UAAcousticEmitterSystemFunction, 1);
enumeration!(UAActiveEmissionParameterIndex, 2);
enumeration!(UAScanPattern, 2);
enumeration!(UAPassiveParameterIndex, 2);
enumeration!(UAAdditionalPassiveActivityParameterIndex, 2);
enumeration!(TransmitterMajorModulation, 2);
enumeration!(TransmitterDetailAmplitudeModulation, 2);
enumeration!(TransmitterDetailAmplitudeandAngleModulation, 2);
enumeration!(TransmitterDetailAngleModulation, 2);
enumeration!(TransmitterDetailCombinationModulation, 2);
enumeration!(TransmitterDetailPulseModulation, 2);
enumeration!(TransmitterDetailUnmodulatedModulation, 2);
enumeration!(TransmitterDetailCarrierPhaseShiftModulation, 2);
enumeration!(TransmitterModulationTypeSystem, 2);
enumeration!(TransmitterTransmitState, 1);
enumeration!(TransmitterInputSource, 1);
enumeration!(TransmitterCryptoSystem, 2);
enumeration!(TransmitterAntennaPatternType, 2);
enumeration!(TransmitterAntennaPatternReferenceSystem, 1);
enumeration!(CCTTSINCGARSStartofMessage, 1);
enumeration!(CCTTSINCGARSClearChannel, 1);
enumeration!(TimeSlotAllocationLevel, 1);
enumeration!(JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode, 1);
enumeration!(JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode, 1);
enumeration!(JTIDSMIDSModulationParametersSynchronizationState, 1);
enumeration!(MessageTypeIdentifier, 1);
enumeration!(SignalUserProtocolIdentificationNumber, 4);
enumeration!(SignalTDLType, 2);
enumeration!(ReceiverReceiverState, 2);
enumeration!(IntercomControlControlType, 1);
enumeration!(IntercomControlCommunicationsType, 1);
enumeration!(IntercomControlCommand, 1);
enumeration!(IntercomControlTransmitLineState, 1);
enumeration!(IntercomControlDestinationLineStateCommand, 1);
enumeration!(IntercomControlRecordType, 2);
enumeration!(CollisionType, 1);
enumeration!(MinefieldSensorTypes, 1);
enumeration!(MinefieldSensorTypesOptical, 2);
enumeration!(MinefieldSensorTypesFLIR, 2);
enumeration!(MinefieldSensorTypesRADAR, 2);
enumeration!(MinefieldSensorTypesMagnetic, 2);
enumeration!(MinefieldSensorTypesLaser, 2);
enumeration!(MinefieldSensorTypesSONAR, 2);
enumeration!(MinefieldSensorTypesPhysical, 2);
enumeration!(MinefieldSensorTypesMultispectral, 2);
enumeration!(AggregateStateAggregateState, 1);
enumeration!(AggregateStateFormation, 4);
enumeration!(AggregateStateAggregateKind, 1);
enumeration!(AggregateStateSubcategory, 1);
enumeration!(AggregateStateSpecific, 1);
enumeration!(IsPartOfNature, 2);
enumeration!(IsPartOfPosition, 2);
enumeration!(IsPartOfStationName, 2);
enumeration!(IsGroupOfGroupedEntityCategory, 1);
enumeration!(IsGroupOfRestStatus, 1);
enumeration!(TransferControlTransferType, 1);
enumeration!(ObjectKind, 1);
enumeration!(GriddedDataCoordinateSystem, 2);
enumeration!(GriddedDataConstantGrid, 1);
enumeration!(GriddedDataSampleType, 1);
enumeration!(GriddedDataDataRepresentation, 1);
enumeration!(EnvironmentalProcessModelType, 1);
enumeration!(EnvironmentalProcessRecordType, 4);
enumeration!(SignalEncodingClass, 1);
enumeration!(SignalEncodingType, 1);
enumeration!(RepairGroups, 1);
enumeration!(EnvironmentRecordTypeGroups, 1);
enumeration!(PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories, 1);
enumeration!(PlatformAirCivilianUltralightRigidWingAircraftSubcategories, 1);
enumeration!(PlatformAirCivilianGliderSubcategories, 1);
enumeration!(PlatformAirCivilianFixedWingAircraftSubcategories, 1);
enumeration!(PlatformAirCivilianHelicopterSubcategories, 1);
enumeration!(PlatformAirCivilianLighterthanAirBalloonSubcategories, 1);
enumeration!(PlatformAirCivilianLighterthanAirAirshipSubcategories, 1);
enumeration!(APAParameterIndexAPAStatus, 1);
enumeration!(SeparationVPReasonforSeparation, 1);
enumeration!(SeparationVPPreEntityIndicator, 1);
enumeration!(IOActionIOWarfareType, 2);
enumeration!(IOActionIOSimulationSource, 2);
enumeration!(IOActionIOActionType, 2);
enumeration!(IOActionIOActionPhase, 2);
enumeration!(IOReportIOReportType, 1);
enumeration!(IOEffectsRecordIOStatus, 1);
enumeration!(IOEffectsRecordIOLinkType, 1);
enumeration!(IOEffectsRecordIOEffect, 1);
enumeration!(IOEffectsRecordIOProcess, 1);
enumeration!(IOCommsNodeRecordCommsNodeType, 1);
enumeration!(DISAttributeActionCode, 1);
enumeration!(DRParametersType, 1);
enumeration!(HighFidelityHAVEQUICKTODTransmitIndicator, 1);
enumeration!(NETIDRecordMode, 1);
enumeration!(NETIDRecordFrequencyTable, 1);
enumeration!(EEAttributeStateIndicator, 1);
enumeration!(TransferredEntityIndicator, 1);
enumeration!(LVCIndicator, 1);
enumeration!(CoupledExtensionIndicator, 1);
enumeration!(FireTypeIndicator, 1);
enumeration!(DetonationTypeIndicator, 1);
enumeration!(RadioAttachedIndicator, 1);
enumeration!(IntercomAttachedIndicator, 1);
enumeration!(PduStatusIFFSimulationMode, 1);
enumeration!(ExplosiveMaterialGroups, 1);
enumeration!(ExplosiveMaterialCategories, 2);
enumeration!(DEPrecisionAimpointBeamSpotType, 1);
enumeration!(DEFirePulseShape, 1);
enumeration!(ComponentIdentification, 1);
enumeration!(ComponentDamageStatus, 1);
enumeration!(ComponentVisualSmokeColor, 1);
enumeration!(BeamStatusBeamState, 1);
enumeration!(EntityAssociationAssociationStatus, 1);
enumeration!(EntityVPRecordChangeIndicator, 1);
enumeration!(EntityAssociationGroupMemberType, 1);
enumeration!(PhysicalAssociationTypeGroups, 1);
enumeration!(EntityAssociationPhysicalAssociationType, 1);
enumeration!(EntityAssociationPhysicalConnectionType, 1);
enumeration!(SensorRecordSensorTypeOtherActiveSensors, 1);
enumeration!(SensorRecordSensorTypePassiveSensors, 2);
enumeration!(MunitionExpendableStatus, 1);
enumeration!(FuelMeasurementUnits, 1);
enumeration!(FuelLocation, 1);
enumeration!(EntityAssociationAssociationType, 1);
enumeration!(SensorOnOffStatus, 1);
enumeration!(OwnershipStatus, 1);
enumeration!(RecordREventType, 1);
enumeration!(RecordQueryREventType, 2);
enumeration!(UAPropulsionPlantConfigurationConfiguration, 1);
enumeration!(MinefieldStateProtocolMode, 2);
enumeration!(TransponderInterrogatorIndicator, 1);
enumeration!(IFFSimulationMode, 1);
enumeration!(IFFApplicableModes, 1);
enumeration!(ModeCAltitudeIndicator, 1);
enumeration!(TCASACASBasicAdvancedIndicator, 1);
enumeration!(TCASACASIndicator, 1);
enumeration!(TCASACASSoftwareVersion, 1);
enumeration!(TCASACASType, 1);
enumeration!(TCASIIIType, 1);
enumeration!(Mode5IFFMission, 1);
enumeration!(ModeSInterrogatorStatusTransmitState, 1);
enumeration!(ModeSInterrogatorIdentifierICType, 1);
enumeration!(ISLSAntennaType, 1);
enumeration!(Mode5Reply, 1);
enumeration!(AntennaSelection, 1);
enumeration!(Mode5SquitterType, 1);
enumeration!(Level2SquitterStatus, 1);
enumeration!(ModeSSquitterType, 1);
enumeration!(ModeSSquitterRecordSource, 1);
enumeration!(AircraftPresentDomain, 1);
enumeration!(AircraftIdentificationType, 1);
enumeration!(CapabilityReport, 1);
enumeration!(NavigationSource, 1);
enumeration!(IFFDataRecordAvailable, 1);
enumeration!(Mode5SAltitudeResolution, 1);
enumeration!(DeltaMode5SAltitudePositiveNegativeIndicator, 1);
enumeration!(FormatType, 1);
enumeration!(AircraftAddressSource, 1);
enumeration!(SurveillanceStatus, 1);
enumeration!(TurnRateSource, 1);
enumeration!(TimeTypeSource, 1);
enumeration!(AircraftTypeWake, 1);
enumeration!(DataCategory, 1);
enumeration!(TILinkType, 1);
enumeration!(AntennaStatus, 1);
enumeration!(TransmissionIndicator, 1);
enumeration!(ReplyAmplification, 1);
enumeration!(DEFireFlagsStateUpdateFlag, 1);
enumeration!(ComponentVisualDamageStatusSmoke, 1);
enumeration!(ComponentVisualDamageStatusSurfaceDamage, 1);
enumeration!(GridAxisDescriptorAxisType, 1);
enumeration!(AppearancePaintScheme, 1);
enumeration!(AppearanceDamage, 1);
enumeration!(Mode5MessageFormatsStatus, 1);
enumeration!(AppearanceTrailingEffects, 1);
enumeration!(AppearanceHatch, 1);
enumeration!(AppearanceLauncherOperational, 1);
enumeration!(AppearanceCamouflageType, 1);
enumeration!(AppearanceConcealedPosition, 1);
enumeration!(AppearanceEntityorObjectState, 1);
enumeration!(AppearanceCanopy, 1);
enumeration!(AppearanceSubsurfaceHatch, 1);
enumeration!(ActiveInterrogationIndicator, 1);
enumeration!(AppearanceLifeformHealth, 1);
enumeration!(AppearanceLifeFormComplianceStatus, 1);
enumeration!(AppearanceLifeFormPosture, 1);
enumeration!(AppearanceLifeFormWeaponImplement, 1);
enumeration!(AppearanceConcealedMovement, 1);
enumeration!(AppearanceEnvironmentalDensity, 1);
enumeration!(Mode5PlatformType, 1);
enumeration!(AppearanceAntiCollisionDayNight, 1);
enumeration!(AppearanceNavigationPositionBrightness, 1);
enumeration!(AppearanceSupplyDeployed, 1);
enumeration!(AppearanceNVGMode, 1);
enumeration!(Parachute, 1);
enumeration!(FlareSmokeColor, 1);
enumeration!(FlareSmokeStatus, 1);
enumeration!(SpotChaffStatus, 1);
enumeration!(AppearanceObjectGeneralDamage, 1);
enumeration!(AppearanceObjectGeneralPredistributed, 1);
enumeration!(AppearanceObjectSpecificBreachState, 1);
enumeration!(AppearanceObjectSpecificChemicalType, 1);
enumeration!(AppearanceLinearObjectTankDitchBreach, 1);
enumeration!(AppearanceLinearObjectLaneMarkerVisible, 1);
enumeration!(AppearanceObjectGeneralIEDPresent, 1);
enumeration!(Mode5LevelSelection, 1);
enumeration!(SupplyFuelType, 1);
enumeration!(SensorTypeSource, 1);
enumeration!(AttachedPartDetachedIndicator, 1);
enumeration!(IntercomControlCommunicationsClass, 1);
enumeration!(DISLiveEntitySubprotocolNumber, 1);
enumeration!(MinefieldAppearanceMinefieldType, 1);
enumeration!(MinefieldAppearanceActiveStatus, 1);
enumeration!(MinefieldAppearanceLane, 1);
enumeration!(MinefieldAppearanceState, 1);
enumeration!(MinefieldFusingFuseType, 1);
enumeration!(Mode5LocationErrors, 1);
enumeration!(MinefieldPaintSchemeAlgae, 1);
enumeration!(MinefieldPaintSchemePaintScheme, 1);
enumeration!(CoverShroudStatus, 1);
enumeration!(PlatformLandMotorcycleSubcategories, 1);
enumeration!(PlatformLandCarSubcategories, 1);
enumeration!(PlatformLandBusSubcategories, 1);
enumeration!(PlatformLandSingleUnitCargoTruckSubcategories, 1);
enumeration!(PlatformLandSingleUnitUtilityEmergencyTruckSubcategories, 1);
enumeration!(PlatformLandMultipleUnitCargoTruckSubcategories, 1);
enumeration!(PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories, 1);
enumeration!(PlatformLandConstructionSpecialtyVehicleSubcategories, 1);
enumeration!(PlatformLandFarmSpecialtyVehicleSubcategories, 1);
enumeration!(PlatformLandTrailerSubcategories, 1);
enumeration!(PlatformLandRecreationalSubcategories, 1);
enumeration!(PlatformLandNonmotorizedSubcategories, 1);
enumeration!(PlatformLandTrainsSubcategories, 1);
enumeration!(PlatformLandUtilityEmergencyCarSubcategories, 1);
enumeration!(PlatformSurfacePassengerVesselSubcategories, 1);
enumeration!(PlatformSurfaceDryCargoShipSubcategories, 1);
enumeration!(PlatformSurfaceTankerSubcategories, 1);
enumeration!(PlatformSurfaceSupportVesselSubcategories, 1);
enumeration!(PlatformSurfacePrivateMotorboatSubcategories, 1);
enumeration!(PlatformSurfacePrivateSailboatSubcategories, 1);
enumeration!(PlatformSurfaceFishingVesselSubcategories, 1);
enumeration!(PlatformSurfaceOtherVesselsSubcategories, 1);
enumeration!(CryptoKeyIDCryptoMode, 1);
enumeration!(Color, 1);
enumeration!(BuildingPaintScheme, 1);
enumeration!(Season, 1);
enumeration!(Material, 1);
enumeration!(Link11_11BFidelityLevel, 1);
enumeration!(Link11TerminalMode, 1);
enumeration!(Link11DataTerminalSetIndicator, 1);
enumeration!(Link11ModeofOperation, 2);
enumeration!(LifeFormsSubcategoryIranianWeapons, 1);
enumeration!(LifeFormLandCategories, 1);
enumeration!(LifeFormHumanSubcategoryEquipmentClass, 1);
enumeration!(LifeFormHumanSpecificAssaultRifles, 1);
enumeration!(LifeFormHumanSpecificHighPowerRifles, 1);
enumeration!(LifeFormCategoriesUS, 1);
enumeration!(LifeFormExtraPersonalData, 1);
enumeration!(LifeFormAirCategories, 1);
enumeration!(LifeFormSubsurfaceCategories, 1);
enumeration!(LifeFormHumanSpecificSniper, 1);
enumeration!(LifeFormHumanSpecificSubMachineGun, 1);
enumeration!(AustralianCategoryOverlay, 1);
enumeration!(LifeFormCategoriesAfghanistan, 1);
enumeration!(LifeFormHumanSpecificEquipmentClass, 1);
enumeration!(PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories, 1);
enumeration!(LeafCoverage, 1);
enumeration!(LifeFormHumanSpecificAntiMaterielRifles, 1);
enumeration!(LifeFormHumanSpecificShotGuns, 1);
enumeration!(LifeFormHumanSpecificMortars, 1);
enumeration!(LifeFormHumanSpecificHandGuns, 1);
enumeration!(LifeFormHumanSpecificWeaponNonspecific, 1);
enumeration!(LifeFormHumanSpecificGrenadeLaunchers, 1);
enumeration!(LifeFormHumanSpecificMachineGuns, 1);
enumeration!(LifeFormHumanSpecificGrenadeLaunchingMachineGun, 1);
enumeration!(LifeFormHumanSpecificAntiTankRockets, 1);
enumeration!(LifeFormHumanSpecificAntiTankMissiles, 1);
enumeration!(LifeFormHumanSpecificManPortableAirDefenseSystem, 1);
enumeration!(LifeFormHumanSpecificRecoillessRifles, 1);
enumeration!(LifeFormHumanSpecificFlameRockets, 1);
enumeration!(LifeFormHumanSpecificFlameThrowers, 1);
enumeration!(LifeFormHumanSpecificDroneGuns, 1);
enumeration!(LifeFormHumanSpecificLogisticsEQClass, 1);
enumeration!(LifeFormHumanSpecificPersonalElectronicsClass, 1);
enumeration!(LifeFormHumanSpecificLasersClass, 1);
enumeration!(TransmitterDetailSATCOMModulation, 2);
enumeration!(SupplyDomain, 1);
enumeration!(Class1SupplyCategorySubsistence, 1);
enumeration!(Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies, 1);
enumeration!(Class3SupplyCategoryPetroleumOilsLubricants, 1);
enumeration!(Class4SupplyCategoryConstructionMaterials, 1);
enumeration!(Class6SupplyCategoryPersonnelDemandItems, 1);
enumeration!(Class7SupplyCategoryMajorItems, 1);
enumeration!(Class8SupplyCategoryMedicalMaterial, 1);
enumeration!(Class9SupplyCategoryRepairPartsandComponents, 1);
enumeration!(Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms, 1);
enumeration!(Class11SupplyCategorySupplies, 1);
enumeration!(Class12SupplyCategorySlingLoads, 1);
enumeration!(LifeSavingEquipment, 1);
enumeration!(IslandSubcategory, 2);
enumeration!(Link11MessageSubType, 1);
enumeration!(Link11MessageTypeIdentifier, 1);
enumeration!(Link11DataSignallingRate, 1);
enumeration!(Link11SignalIntegrationInterval, 1);
enumeration!(Link11SignalWaveform, 1);
enumeration!(Link11_11BEncryptionFlag, 1);
enumeration!(SISOSTD002Version, 1);
enumeration!(Link11BLinkState, 1);
enumeration!(Link11BModeofOperation, 2);
enumeration!(Link11BMessageSubType, 1);
enumeration!(Link11BDataSignalingRate, 1);
enumeration!(Link11BModulationStandard, 1);
enumeration!(CIGIExtensionPacketID, 2);
enumeration!(Link16Version, 1);
enumeration!(AircraftIDSource, 1);
enumeration!(ClothingIRSignature, 1);
enumeration!(DamageArea, 1);
flags!(FrozenBehavior, 1);
flags!(ObjectStateAppearanceGeneral, 2);
flags!(LandPlatformAppearance, 4);

pub fn enum_table() -> Vec<EnumEntry> { vec![
  enum_entry!(ProtocolVersion, 1),
  enum_entry!(PduType, 1),
  enum_entry!(ProtocolFamily, 1),
  enum_entry!(ForceId, 1),
  enum_entry!(EntityKind, 1),
  enum_entry!(OtherKinds, 1),
  enum_entry!(LandDomainCategories, 1),
  enum_entry!(AirDomainCategories, 1),
  enum_entry!(SurfaceDomainCategories, 1),
  enum_entry!(SubsurfaceDomainCategories, 1),
  enum_entry!(SpaceDomainCategories, 1),
  enum_entry!(MunitionKind, 1),
  enum_entry!(MunitionCategory, 1),
  enum_entry!(USWeaponSubcategories, 1),
  enum_entry!(RussiaWeaponSubcategories, 1),
  enum_entry!(UKWeaponSubcategories, 1),
  enum_entry!(FrenchWeaponSubcategories, 1),
  enum_entry!(LifeFormsSubcategoryGermanWeapons, 1),
  enum_entry!(EnvironmentalSubcategory, 1),
  enum_entry!(RadioCategory, 1),
  enum_entry!(RadioSubcategory, 1),
  enum_entry!(ExpendableAirCategory, 1),
  enum_entry!(ExpendableSurfaceCategory, 1),
  enum_entry!(ExpendableSubsurfaceCategory, 1),
  enum_entry!(SensorEmitterCategory, 1),
  enum_entry!(Country, 2),
  enum_entry!(DeadReckoningAlgorithm, 1),
  enum_entry!(EntityMarkingCharacterSet, 1),
  enum_entry!(EntityCapabilities, 4),
  enum_entry!(VariableParameterRecordType, 1),
  enum_entry!(AttachedParts, 4),
  enum_entry!(ArticulatedPartsTypeMetric, 1),
  enum_entry!(ArticulatedPartsTypeClass, 4),
  enum_entry!(MunitionDescriptorWarhead, 2),
  enum_entry!(MunitionDescriptorFuse, 2),
  enum_entry!(DetonationResult, 1),
  enum_entry!(ServiceRequestServiceTypeRequested, 1),
  enum_entry!(RepairCompleteRepair, 2),
  enum_entry!(RepairResponseRepairResult, 1),
  enum_entry!(VariableRecordTypes, 4),
  enum_entry!(Reason, 1),
  enum_entry!(AcknowledgeFlag, 2),
  enum_entry!(AcknowledgeResponseFlag, 2),
  enum_entry!(ActionRequestActionID, 4),
  enum_entry!(ActionResponseRequestStatus, 4),
  enum_entry!(EventType, 4),
  enum_entry!(RequiredReliabilityService, 1),
  enum_entry!(EmitterName, 2),
  enum_entry!(EmitterSystemFunction, 1),
  enum_entry!(ElectromagneticEmissionStateUpdateIndicator, 1),
  enum_entry!(ElectromagneticEmissionBeamFunction, 1),
  enum_entry!(HighDensityTrackJam, 1),
  enum_entry!(DesignatorSystemName, 2),
  enum_entry!(DesignatorCode, 2),
  enum_entry!(IFFSystemType, 2),
  enum_entry!(IFFSystemName, 2),
  enum_entry!(IFFSystemMode, 1),
  enum_entry!(IFFLayerSpecificInformation, 1),
  enum_entry!(IFFAlternateMode4ChallengeReply, 1),
  enum_entry!(IFFSystemType1OperationalParameter1, 1),
  enum_entry!(IFFSystemType1OperationalParameter2, 1),
  enum_entry!(SubcategoriesforLandCategory200Mammal, 1),
  enum_entry!(SubcategoriesforLandCategory201Reptile, 1),
  enum_entry!(SubcategoriesforLandCategory202Amphibian, 1),
  enum_entry!(SubcategoriesforLandCategory203Insect, 1),
  enum_entry!(SubcategoriesforLandCategory204Arachnid, 1),
  enum_entry!(SubcategoriesforLandCategory205Mollusk, 1),
  enum_entry!(SubcategoriesforLandCategory206Marsupial, 1),
  enum_entry!(SubcategoriesforAirCategory200Bird, 1),
  enum_entry!(SubcategoriesforAirCategory201Insect, 1),
  enum_entry!(SubcategoriesforAirCategory202Mammal, 1),
  enum_entry!(SubcategoriesforSubsurfaceCategory200Fish, 1),
  enum_entry!(SubcategoriesforSubsurfaceCategory201Mammal, 1),
  enum_entry!(SubcategoriesforSubsurfaceCategory202Mollusk, 1),
  enum_entry!(SubcategoriesforSubsurfaceCategory203Crustacean, 1),
  enum_entry!(SubcategoriesforSubsurfaceCategory204Insect, 1),
  enum_entry!(AnimalLifeformGroupSizeRangeEnumerationforallDomains, 1),
  enum_entry!(SpecificDimensionEnumerationsforLandAreaSize, 1),
  enum_entry!(SpecificDimensionEnumerationsforAirAreaSize, 1),
  enum_entry!(AddSpecificDimensionEnumerationsforSubsurfaceAreaSize, 1),
  enum_entry!(AddVariantsforLandCategory200Mammal, 1),
  enum_entry!(VariantsforLandCategoriesReptilesAmphibiansInsectsandArachnids, 1),
  enum_entry!(VariantsforAirCategory200Bird, 1),
  enum_entry!(AddVariantsforAirCategory201Insect, 1),
  enum_entry!(AddVariantsforSubsurfaceCategoriesFishMolluskCrustaceanandInsect, 1),
  enum_entry!(VariantsforSubsurfaceCategory201Mammal, 1),
  enum_entry!(UAStateChangeUpdateIndicator, 1),
  enum_entry!(UAAcousticSystemName, 2),
  enum_entry!(UAAcousticEmitterSystemFunction, 1),
  enum_entry!(UAActiveEmissionParameterIndex, 2),
  enum_entry!(UAScanPattern, 2),
  enum_entry!(UAPassiveParameterIndex, 2),
  enum_entry!(UAAdditionalPassiveActivityParameterIndex, 2),
  enum_entry!(TransmitterMajorModulation, 2),
  enum_entry!(TransmitterDetailAmplitudeModulation, 2),
  enum_entry!(TransmitterDetailAmplitudeandAngleModulation, 2),
  enum_entry!(TransmitterDetailAngleModulation, 2),
  enum_entry!(TransmitterDetailCombinationModulation, 2),
  enum_entry!(TransmitterDetailPulseModulation, 2),
  enum_entry!(TransmitterDetailUnmodulatedModulation, 2),
  enum_entry!(TransmitterDetailCarrierPhaseShiftModulation, 2),
  enum_entry!(TransmitterModulationTypeSystem, 2),
  enum_entry!(TransmitterTransmitState, 1),
  enum_entry!(TransmitterInputSource, 1),
  enum_entry!(TransmitterCryptoSystem, 2),
  enum_entry!(TransmitterAntennaPatternType, 2),
  enum_entry!(TransmitterAntennaPatternReferenceSystem, 1),
  enum_entry!(CCTTSINCGARSStartofMessage, 1),
  enum_entry!(CCTTSINCGARSClearChannel, 1),
  enum_entry!(TimeSlotAllocationLevel, 1),
  enum_entry!(JTIDSMIDSModulationParametersTransmittingTerminalPrimaryMode, 1),
  enum_entry!(JTIDSMIDSModulationParametersTransmittingTerminalSecondaryMode, 1),
  enum_entry!(JTIDSMIDSModulationParametersSynchronizationState, 1),
  enum_entry!(MessageTypeIdentifier, 1),
  enum_entry!(SignalUserProtocolIdentificationNumber, 4),
  enum_entry!(SignalTDLType, 2),
  enum_entry!(ReceiverReceiverState, 2),
  enum_entry!(IntercomControlControlType, 1),
  enum_entry!(IntercomControlCommunicationsType, 1),
  enum_entry!(IntercomControlCommand, 1),
  enum_entry!(IntercomControlTransmitLineState, 1),
  enum_entry!(IntercomControlDestinationLineStateCommand, 1),
  enum_entry!(IntercomControlRecordType, 2),
  enum_entry!(CollisionType, 1),
  enum_entry!(MinefieldSensorTypes, 1),
  enum_entry!(MinefieldSensorTypesOptical, 2),
  enum_entry!(MinefieldSensorTypesFLIR, 2),
  enum_entry!(MinefieldSensorTypesRADAR, 2),
  enum_entry!(MinefieldSensorTypesMagnetic, 2),
  enum_entry!(MinefieldSensorTypesLaser, 2),
  enum_entry!(MinefieldSensorTypesSONAR, 2),
  enum_entry!(MinefieldSensorTypesPhysical, 2),
  enum_entry!(MinefieldSensorTypesMultispectral, 2),
  enum_entry!(AggregateStateAggregateState, 1),
  enum_entry!(AggregateStateFormation, 4),
  enum_entry!(AggregateStateAggregateKind, 1),
  enum_entry!(AggregateStateSubcategory, 1),
  enum_entry!(AggregateStateSpecific, 1),
  enum_entry!(IsPartOfNature, 2),
  enum_entry!(IsPartOfPosition, 2),
  enum_entry!(IsPartOfStationName, 2),
  enum_entry!(IsGroupOfGroupedEntityCategory, 1),
  enum_entry!(IsGroupOfRestStatus, 1),
  enum_entry!(TransferControlTransferType, 1),
  enum_entry!(ObjectKind, 1),
  enum_entry!(GriddedDataCoordinateSystem, 2),
  enum_entry!(GriddedDataConstantGrid, 1),
  enum_entry!(GriddedDataSampleType, 1),
  enum_entry!(GriddedDataDataRepresentation, 1),
  enum_entry!(EnvironmentalProcessModelType, 1),
  enum_entry!(EnvironmentalProcessRecordType, 4),
  enum_entry!(SignalEncodingClass, 1),
  enum_entry!(SignalEncodingType, 1),
  enum_entry!(RepairGroups, 1),
  enum_entry!(EnvironmentRecordTypeGroups, 1),
  enum_entry!(PlatformAirCivilianUltralightNonrigidWingAircraftSubcategories, 1),
  enum_entry!(PlatformAirCivilianUltralightRigidWingAircraftSubcategories, 1),
  enum_entry!(PlatformAirCivilianGliderSubcategories, 1),
  enum_entry!(PlatformAirCivilianFixedWingAircraftSubcategories, 1),
  enum_entry!(PlatformAirCivilianHelicopterSubcategories, 1),
  enum_entry!(PlatformAirCivilianLighterthanAirBalloonSubcategories, 1),
  enum_entry!(PlatformAirCivilianLighterthanAirAirshipSubcategories, 1),
  enum_entry!(APAParameterIndexAPAStatus, 1),
  enum_entry!(SeparationVPReasonforSeparation, 1),
  enum_entry!(SeparationVPPreEntityIndicator, 1),
  enum_entry!(IOActionIOWarfareType, 2),
  enum_entry!(IOActionIOSimulationSource, 2),
  enum_entry!(IOActionIOActionType, 2),
  enum_entry!(IOActionIOActionPhase, 2),
  enum_entry!(IOReportIOReportType, 1),
  enum_entry!(IOEffectsRecordIOStatus, 1),
  enum_entry!(IOEffectsRecordIOLinkType, 1),
  enum_entry!(IOEffectsRecordIOEffect, 1),
  enum_entry!(IOEffectsRecordIOProcess, 1),
  enum_entry!(IOCommsNodeRecordCommsNodeType, 1),
  enum_entry!(DISAttributeActionCode, 1),
  enum_entry!(DRParametersType, 1),
  enum_entry!(HighFidelityHAVEQUICKTODTransmitIndicator, 1),
  enum_entry!(NETIDRecordMode, 1),
  enum_entry!(NETIDRecordFrequencyTable, 1),
  enum_entry!(EEAttributeStateIndicator, 1),
  enum_entry!(TransferredEntityIndicator, 1),
  enum_entry!(LVCIndicator, 1),
  enum_entry!(CoupledExtensionIndicator, 1),
  enum_entry!(FireTypeIndicator, 1),
  enum_entry!(DetonationTypeIndicator, 1),
  enum_entry!(RadioAttachedIndicator, 1),
  enum_entry!(IntercomAttachedIndicator, 1),
  enum_entry!(PduStatusIFFSimulationMode, 1),
  enum_entry!(ExplosiveMaterialGroups, 1),
  enum_entry!(ExplosiveMaterialCategories, 2),
  enum_entry!(DEPrecisionAimpointBeamSpotType, 1),
  enum_entry!(DEFirePulseShape, 1),
  enum_entry!(ComponentIdentification, 1),
  enum_entry!(ComponentDamageStatus, 1),
  enum_entry!(ComponentVisualSmokeColor, 1),
  enum_entry!(BeamStatusBeamState, 1),
  enum_entry!(EntityAssociationAssociationStatus, 1),
  enum_entry!(EntityVPRecordChangeIndicator, 1),
  enum_entry!(EntityAssociationGroupMemberType, 1),
  enum_entry!(PhysicalAssociationTypeGroups, 1),
  enum_entry!(EntityAssociationPhysicalAssociationType, 1),
  enum_entry!(EntityAssociationPhysicalConnectionType, 1),
  enum_entry!(SensorRecordSensorTypeOtherActiveSensors, 1),
  enum_entry!(SensorRecordSensorTypePassiveSensors, 2),
  enum_entry!(MunitionExpendableStatus, 1),
  enum_entry!(FuelMeasurementUnits, 1),
  enum_entry!(FuelLocation, 1),
  enum_entry!(EntityAssociationAssociationType, 1),
  enum_entry!(SensorOnOffStatus, 1),
  enum_entry!(OwnershipStatus, 1),
  enum_entry!(RecordREventType, 1),
  enum_entry!(RecordQueryREventType, 2),
  enum_entry!(UAPropulsionPlantConfigurationConfiguration, 1),
  enum_entry!(MinefieldStateProtocolMode, 2),
  enum_entry!(TransponderInterrogatorIndicator, 1),
  enum_entry!(IFFSimulationMode, 1),
  enum_entry!(IFFApplicableModes, 1),
  enum_entry!(ModeCAltitudeIndicator, 1),
  enum_entry!(TCASACASBasicAdvancedIndicator, 1),
  enum_entry!(TCASACASIndicator, 1),
  enum_entry!(TCASACASSoftwareVersion, 1),
  enum_entry!(TCASACASType, 1),
  enum_entry!(TCASIIIType, 1),
  enum_entry!(Mode5IFFMission, 1),
  enum_entry!(ModeSInterrogatorStatusTransmitState, 1),
  enum_entry!(ModeSInterrogatorIdentifierICType, 1),
  enum_entry!(ISLSAntennaType, 1),
  enum_entry!(Mode5Reply, 1),
  enum_entry!(AntennaSelection, 1),
  enum_entry!(Mode5SquitterType, 1),
  enum_entry!(Level2SquitterStatus, 1),
  enum_entry!(ModeSSquitterType, 1),
  enum_entry!(ModeSSquitterRecordSource, 1),
  enum_entry!(AircraftPresentDomain, 1),
  enum_entry!(AircraftIdentificationType, 1),
  enum_entry!(CapabilityReport, 1),
  enum_entry!(NavigationSource, 1),
  enum_entry!(IFFDataRecordAvailable, 1),
  enum_entry!(Mode5SAltitudeResolution, 1),
  enum_entry!(DeltaMode5SAltitudePositiveNegativeIndicator, 1),
  enum_entry!(FormatType, 1),
  enum_entry!(AircraftAddressSource, 1),
  enum_entry!(SurveillanceStatus, 1),
  enum_entry!(TurnRateSource, 1),
  enum_entry!(TimeTypeSource, 1),
  enum_entry!(AircraftTypeWake, 1),
  enum_entry!(DataCategory, 1),
  enum_entry!(TILinkType, 1),
  enum_entry!(AntennaStatus, 1),
  enum_entry!(TransmissionIndicator, 1),
  enum_entry!(ReplyAmplification, 1),
  enum_entry!(DEFireFlagsStateUpdateFlag, 1),
  enum_entry!(ComponentVisualDamageStatusSmoke, 1),
  enum_entry!(ComponentVisualDamageStatusSurfaceDamage, 1),
  enum_entry!(GridAxisDescriptorAxisType, 1),
  enum_entry!(AppearancePaintScheme, 1),
  enum_entry!(AppearanceDamage, 1),
  enum_entry!(Mode5MessageFormatsStatus, 1),
  enum_entry!(AppearanceTrailingEffects, 1),
  enum_entry!(AppearanceHatch, 1),
  enum_entry!(AppearanceLauncherOperational, 1),
  enum_entry!(AppearanceCamouflageType, 1),
  enum_entry!(AppearanceConcealedPosition, 1),
  enum_entry!(AppearanceEntityorObjectState, 1),
  enum_entry!(AppearanceCanopy, 1),
  enum_entry!(AppearanceSubsurfaceHatch, 1),
  enum_entry!(ActiveInterrogationIndicator, 1),
  enum_entry!(AppearanceLifeformHealth, 1),
  enum_entry!(AppearanceLifeFormComplianceStatus, 1),
  enum_entry!(AppearanceLifeFormPosture, 1),
  enum_entry!(AppearanceLifeFormWeaponImplement, 1),
  enum_entry!(AppearanceConcealedMovement, 1),
  enum_entry!(AppearanceEnvironmentalDensity, 1),
  enum_entry!(Mode5PlatformType, 1),
  enum_entry!(AppearanceAntiCollisionDayNight, 1),
  enum_entry!(AppearanceNavigationPositionBrightness, 1),
  enum_entry!(AppearanceSupplyDeployed, 1),
  enum_entry!(AppearanceNVGMode, 1),
  enum_entry!(Parachute, 1),
  enum_entry!(FlareSmokeColor, 1),
  enum_entry!(FlareSmokeStatus, 1),
  enum_entry!(SpotChaffStatus, 1),
  enum_entry!(AppearanceObjectGeneralDamage, 1),
  enum_entry!(AppearanceObjectGeneralPredistributed, 1),
  enum_entry!(AppearanceObjectSpecificBreachState, 1),
  enum_entry!(AppearanceObjectSpecificChemicalType, 1),
  enum_entry!(AppearanceLinearObjectTankDitchBreach, 1),
  enum_entry!(AppearanceLinearObjectLaneMarkerVisible, 1),
  enum_entry!(AppearanceObjectGeneralIEDPresent, 1),
  enum_entry!(Mode5LevelSelection, 1),
  enum_entry!(SupplyFuelType, 1),
  enum_entry!(SensorTypeSource, 1),
  enum_entry!(AttachedPartDetachedIndicator, 1),
  enum_entry!(IntercomControlCommunicationsClass, 1),
  enum_entry!(DISLiveEntitySubprotocolNumber, 1),
  enum_entry!(MinefieldAppearanceMinefieldType, 1),
  enum_entry!(MinefieldAppearanceActiveStatus, 1),
  enum_entry!(MinefieldAppearanceLane, 1),
  enum_entry!(MinefieldAppearanceState, 1),
  enum_entry!(MinefieldFusingFuseType, 1),
  enum_entry!(Mode5LocationErrors, 1),
  enum_entry!(MinefieldPaintSchemeAlgae, 1),
  enum_entry!(MinefieldPaintSchemePaintScheme, 1),
  enum_entry!(CoverShroudStatus, 1),
  enum_entry!(PlatformLandMotorcycleSubcategories, 1),
  enum_entry!(PlatformLandCarSubcategories, 1),
  enum_entry!(PlatformLandBusSubcategories, 1),
  enum_entry!(PlatformLandSingleUnitCargoTruckSubcategories, 1),
  enum_entry!(PlatformLandSingleUnitUtilityEmergencyTruckSubcategories, 1),
  enum_entry!(PlatformLandMultipleUnitCargoTruckSubcategories, 1),
  enum_entry!(PlatformLandMultipleUnitUtilityEmergencyTruckSubcategories, 1),
  enum_entry!(PlatformLandConstructionSpecialtyVehicleSubcategories, 1),
  enum_entry!(PlatformLandFarmSpecialtyVehicleSubcategories, 1),
  enum_entry!(PlatformLandTrailerSubcategories, 1),
  enum_entry!(PlatformLandRecreationalSubcategories, 1),
  enum_entry!(PlatformLandNonmotorizedSubcategories, 1),
  enum_entry!(PlatformLandTrainsSubcategories, 1),
  enum_entry!(PlatformLandUtilityEmergencyCarSubcategories, 1),
  enum_entry!(PlatformSurfacePassengerVesselSubcategories, 1),
  enum_entry!(PlatformSurfaceDryCargoShipSubcategories, 1),
  enum_entry!(PlatformSurfaceTankerSubcategories, 1),
  enum_entry!(PlatformSurfaceSupportVesselSubcategories, 1),
  enum_entry!(PlatformSurfacePrivateMotorboatSubcategories, 1),
  enum_entry!(PlatformSurfacePrivateSailboatSubcategories, 1),
  enum_entry!(PlatformSurfaceFishingVesselSubcategories, 1),
  enum_entry!(PlatformSurfaceOtherVesselsSubcategories, 1),
  enum_entry!(CryptoKeyIDCryptoMode, 1),
  enum_entry!(Color, 1),
  enum_entry!(BuildingPaintScheme, 1),
  enum_entry!(Season, 1),
  enum_entry!(Material, 1),
  enum_entry!(Link11_11BFidelityLevel, 1),
  enum_entry!(Link11TerminalMode, 1),
  enum_entry!(Link11DataTerminalSetIndicator, 1),
  enum_entry!(Link11ModeofOperation, 2),
  enum_entry!(LifeFormsSubcategoryIranianWeapons, 1),
  enum_entry!(LifeFormLandCategories, 1),
  enum_entry!(LifeFormHumanSubcategoryEquipmentClass, 1),
  enum_entry!(LifeFormHumanSpecificAssaultRifles, 1),
  enum_entry!(LifeFormHumanSpecificHighPowerRifles, 1),
  enum_entry!(LifeFormCategoriesUS, 1),
  enum_entry!(LifeFormExtraPersonalData, 1),
  enum_entry!(LifeFormAirCategories, 1),
  enum_entry!(LifeFormSubsurfaceCategories, 1),
  enum_entry!(LifeFormHumanSpecificSniper, 1),
  enum_entry!(LifeFormHumanSpecificSubMachineGun, 1),
  enum_entry!(AustralianCategoryOverlay, 1),
  enum_entry!(LifeFormCategoriesAfghanistan, 1),
  enum_entry!(LifeFormHumanSpecificEquipmentClass, 1),
  enum_entry!(PlatformSubsurfaceCivilianSemiSubmersiblesSubcategories, 1),
  enum_entry!(LeafCoverage, 1),
  enum_entry!(LifeFormHumanSpecificAntiMaterielRifles, 1),
  enum_entry!(LifeFormHumanSpecificShotGuns, 1),
  enum_entry!(LifeFormHumanSpecificMortars, 1),
  enum_entry!(LifeFormHumanSpecificHandGuns, 1),
  enum_entry!(LifeFormHumanSpecificWeaponNonspecific, 1),
  enum_entry!(LifeFormHumanSpecificGrenadeLaunchers, 1),
  enum_entry!(LifeFormHumanSpecificMachineGuns, 1),
  enum_entry!(LifeFormHumanSpecificGrenadeLaunchingMachineGun, 1),
  enum_entry!(LifeFormHumanSpecificAntiTankRockets, 1),
  enum_entry!(LifeFormHumanSpecificAntiTankMissiles, 1),
  enum_entry!(LifeFormHumanSpecificManPortableAirDefenseSystem, 1),
  enum_entry!(LifeFormHumanSpecificRecoillessRifles, 1),
  enum_entry!(LifeFormHumanSpecificFlameRockets, 1),
  enum_entry!(LifeFormHumanSpecificFlameThrowers, 1),
  enum_entry!(LifeFormHumanSpecificDroneGuns, 1),
  enum_entry!(LifeFormHumanSpecificLogisticsEQClass, 1),
  enum_entry!(LifeFormHumanSpecificPersonalElectronicsClass, 1),
  enum_entry!(LifeFormHumanSpecificLasersClass, 1),
  enum_entry!(TransmitterDetailSATCOMModulation, 2),
  enum_entry!(SupplyDomain, 1),
  enum_entry!(Class1SupplyCategorySubsistence, 1),
  enum_entry!(Class2SupplyCategoryClothingIndividualEquipmentToolsAdminSupplies, 1),
  enum_entry!(Class3SupplyCategoryPetroleumOilsLubricants, 1),
  enum_entry!(Class4SupplyCategoryConstructionMaterials, 1),
  enum_entry!(Class6SupplyCategoryPersonnelDemandItems, 1),
  enum_entry!(Class7SupplyCategoryMajorItems, 1),
  enum_entry!(Class8SupplyCategoryMedicalMaterial, 1),
  enum_entry!(Class9SupplyCategoryRepairPartsandComponents, 1),
  enum_entry!(Class10SupplyCategoryMaterialToSupportNonMilitaryPrograms, 1),
  enum_entry!(Class11SupplyCategorySupplies, 1),
  enum_entry!(Class12SupplyCategorySlingLoads, 1),
  enum_entry!(LifeSavingEquipment, 1),
  enum_entry!(IslandSubcategory, 2),
  enum_entry!(Link11MessageSubType, 1),
  enum_entry!(Link11MessageTypeIdentifier, 1),
  enum_entry!(Link11DataSignallingRate, 1),
  enum_entry!(Link11SignalIntegrationInterval, 1),
  enum_entry!(Link11SignalWaveform, 1),
  enum_entry!(Link11_11BEncryptionFlag, 1),
  enum_entry!(SISOSTD002Version, 1),
  enum_entry!(Link11BLinkState, 1),
  enum_entry!(Link11BModeofOperation, 2),
  enum_entry!(Link11BMessageSubType, 1),
  enum_entry!(Link11BDataSignalingRate, 1),
  enum_entry!(Link11BModulationStandard, 1),
  enum_entry!(CIGIExtensionPacketID, 2),
  enum_entry!(Link16Version, 1),
  enum_entry!(AircraftIDSource, 1),
  enum_entry!(ClothingIRSignature, 1),
  enum_entry!(DamageArea, 1),
  flags_entry!(FrozenBehavior, 1, from_u8, as_u8),
  flags_entry!(ObjectStateAppearanceGeneral, 2, from_u16, as_u16),
  flags_entry!(LandPlatformAppearance, 4, from_u32, as_u32),
]}

impl Bind for dt::simulation_address::SimulationAddress {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::simulation_address::SimulationAddress>::default();
    x.site_id = Bind::fv(&v[0]);
    x.application_id = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.site_id), Bind::tv(&self.application_id)]) }
}
impl Bind for dt::entity_id::EntityId {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::entity_id::EntityId>::default();
    x.simulation_address = Bind::fv(&v[0]);
    x.entity_id = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.simulation_address), Bind::tv(&self.entity_id)]) }
}
impl Bind for dt::event_id::EventId {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::event_id::EventId>::default();
    x.simulation_address = Bind::fv(&v[0]);
    x.event_identifier = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.simulation_address), Bind::tv(&self.event_identifier)]) }
}
impl Bind for dt::dead_reckoning_parameters::DeadReckoningParameters {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::dead_reckoning_parameters::DeadReckoningParameters>::default();
    x.dead_reckoning_algorithm = Bind::fv(&v[0]);
    x.dead_reckoning_other_parameters = Octs::from_octs(v[1].octs());
    x.entity_linear_acceleration = Bind::fv(&v[2]);
    x.entity_angular_velocity = Bind::fv(&v[3]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.dead_reckoning_algorithm), Val::O(Octs::to_octs(&self.dead_reckoning_other_parameters)), Bind::tv(&self.entity_linear_acceleration), Bind::tv(&self.entity_angular_velocity)]) }
}
impl Bind for dt::acoustic_beam_data::AcousticBeamData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::acoustic_beam_data::AcousticBeamData>::default();
    x.beam_data_length = Bind::fv(&v[0]);
    x.beam_id_number = Bind::fv(&v[1]);
    x.pad2 = Bind::fv(&v[2]);
    x.fundamental_data_parameters = Bind::fv(&v[3]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.beam_data_length), Bind::tv(&self.beam_id_number), Bind::tv(&self.pad2), Bind::tv(&self.fundamental_data_parameters)]) }
}
impl Bind for dt::acoustic_emitter_system_data::AcousticEmitterSystemData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::acoustic_emitter_system_data::AcousticEmitterSystemData>::default();
    x.emitter_system_data_length = Bind::fv(&v[0]);
    x.number_of_beams = Bind::fv(&v[1]);
    x.pad2 = Bind::fv(&v[2]);
    x.acoustic_emitter_system = Bind::fv(&v[3]);
    x.emitter_location = Bind::fv(&v[4]);
    x.beam_records = Bind::fv(&v[5]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.emitter_system_data_length), Bind::tv(&self.number_of_beams), Bind::tv(&self.pad2), Bind::tv(&self.acoustic_emitter_system), Bind::tv(&self.emitter_location), Bind::tv(&self.beam_records)]) }
}
impl Bind for dt::environment::Environment {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::environment::Environment>::default();
    x.environment_type = Bind::fv(&v[0]);
    x.length = Bind::fv(&v[1]);
    x.index = Bind::fv(&v[2]);
    x.padding = Bind::fv(&v[3]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.environment_type), Bind::tv(&self.length), Bind::tv(&self.index), Bind::tv(&self.padding)]) }
}
impl Bind for dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter>::default();
    x.active_emission_parameter_index = Bind::fv(&v[0]);
    x.scan_pattern = Bind::fv(&v[1]);
    x.beam_center_azimuth = Bind::fv(&v[2]);
    x.azimuthal_beamwidth = Bind::fv(&v[3]);
    x.beam_center_de = Bind::fv(&v[4]);
    x.de_beamwidth = Bind::fv(&v[5]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.active_emission_parameter_index), Bind::tv(&self.scan_pattern), Bind::tv(&self.beam_center_azimuth), Bind::tv(&self.azimuthal_beamwidth), Bind::tv(&self.beam_center_de), Bind::tv(&self.de_beamwidth)]) }
}
impl Bind for dt::acoustic_emitter_system::AcousticEmitterSystem {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::acoustic_emitter_system::AcousticEmitterSystem>::default();
    x.acoustic_name = Bind::fv(&v[0]);
    x.acoustic_function = Bind::fv(&v[1]);
    x.acoustic_id = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.acoustic_name), Bind::tv(&self.acoustic_function), Bind::tv(&self.acoustic_id)]) }
}
impl Bind for dt::vector3_float::Vector3Float {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::vector3_float::Vector3Float>::default();
    x.x = Bind::fv(&v[0]);
    x.y = Bind::fv(&v[1]);
    x.z = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.x), Bind::tv(&self.y), Bind::tv(&self.z)]) }
}
impl Bind for dt::aggregate_id::AggregateId {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::aggregate_id::AggregateId>::default();
    x.site = Bind::fv(&v[0]);
    x.application = Bind::fv(&v[1]);
    x.aggregate_id = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.site), Bind::tv(&self.application), Bind::tv(&self.aggregate_id)]) }
}
impl Bind for dt::aggregate_marking::AggregateMarking {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::aggregate_marking::AggregateMarking>::default();
    x.character_set = Bind::fv(&v[0]);
    x.characters = Octs::from_octs(v[1].octs());
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.character_set), Val::O(Octs::to_octs(&self.characters))]) }
}
impl Bind for dt::angular_velocity_vector::AngularVelocity {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::angular_velocity_vector::AngularVelocity>::default();
    x.rate_about_x_axis = Bind::fv(&v[0]);
    x.rate_about_y_axis = Bind::fv(&v[1]);
    x.rate_about_z_axis = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.rate_about_x_axis), Bind::tv(&self.rate_about_y_axis), Bind::tv(&self.rate_about_z_axis)]) }
}
impl Bind for dt::apa_data::ApaData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::apa_data::ApaData>::default();
    x.parameter_index = Bind::fv(&v[0]);
    x.parameter_value = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.parameter_index), Bind::tv(&self.parameter_value)]) }
}
impl Bind for dt::attribute_record::AttributeRecord {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::attribute_record::AttributeRecord>::default();
    x.record_type = Bind::fv(&v[0]);
    x.record_length = Bind::fv(&v[1]);
    x.record_specific_fields = Octs::from_octs(v[2].octs());
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.record_type), Bind::tv(&self.record_length), Val::O(Octs::to_octs(&self.record_specific_fields))]) }
}
impl Bind for dt::attribute_record_set::AttributeRecordSet {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::attribute_record_set::AttributeRecordSet>::default();
    x.entity_id = Bind::fv(&v[0]);
    x.number_of_attribute_records = Bind::fv(&v[1]);
    x.attribute_records = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_id), Bind::tv(&self.number_of_attribute_records), Bind::tv(&self.attribute_records)]) }
}
impl Bind for dt::beam_data::BeamData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::beam_data::BeamData>::default();
    x.beam_azimuth_center = Bind::fv(&v[0]);
    x.beam_azimuth_sweep = Bind::fv(&v[1]);
    x.beam_elevation_center = Bind::fv(&v[2]);
    x.beam_elevation_sweep = Bind::fv(&v[3]);
    x.beam_sweep_sync = Bind::fv(&v[4]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.beam_azimuth_center), Bind::tv(&self.beam_azimuth_sweep), Bind::tv(&self.beam_elevation_center), Bind::tv(&self.beam_elevation_sweep), Bind::tv(&self.beam_sweep_sync)]) }
}
impl Bind for dt::clock_time::ClockTime {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::clock_time::ClockTime>::default();
    x.hour = Bind::fv(&v[0]);
    x.time_past_hour = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.hour), Bind::tv(&self.time_past_hour)]) }
}
impl Bind for dt::datum_records::FixedDatumRecord {
  fn fv(v: &Val) -> Self { let v = v.tup();
    dt::datum_records::FixedDatumRecord { datum_id: Bind::fv(&v[0]), datum_value: Bind::fv(&v[1]) } }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.datum_id), Bind::tv(&self.datum_value)]) }
}
impl Bind for dt::datum_records::VariableDatumRecord {
  fn fv(v: &Val) -> Self { let v = v.tup();
    dt::datum_records::VariableDatumRecord { datum_id: Bind::fv(&v[0]), length_bits: Bind::fv(&v[1]), value: Octs::from_octs(v[2].octs()) } }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.datum_id), Bind::tv(&self.length_bits), Val::O(Octs::to_octs(&self.value))]) }
}
impl Bind for dt::linear_acceleration::LinearAcceleration {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::linear_acceleration::LinearAcceleration>::default();
    x.first_vector_component = Bind::fv(&v[0]);
    x.second_vector_component = Bind::fv(&v[1]);
    x.third_vector_component = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.first_vector_component), Bind::tv(&self.second_vector_component), Bind::tv(&self.third_vector_component)]) }
}
impl Bind for dt::directed_energy_damage::DirectedEnergyDamage {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::directed_energy_damage::DirectedEnergyDamage>::default();
    x.record_type = Bind::fv(&v[0]);
    x.record_length = Bind::fv(&v[1]);
    x.damage_location = Bind::fv(&v[2]);
    x.damage_diameter = Bind::fv(&v[3]);
    x.temperature = Bind::fv(&v[4]);
    x.component_identification = Bind::fv(&v[5]);
    x.component_damage_status = Bind::fv(&v[6]);
    x.component_visual_damage_status = Bind::fv(&v[7]);
    x.component_visual_smoke_color = Bind::fv(&v[8]);
    x.fire_event_id = Bind::fv(&v[9]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.record_type), Bind::tv(&self.record_length), Bind::tv(&self.damage_location), Bind::tv(&self.damage_diameter), Bind::tv(&self.temperature), Bind::tv(&self.component_identification), Bind::tv(&self.component_damage_status), Bind::tv(&self.component_visual_damage_status), Bind::tv(&self.component_visual_smoke_color), Bind::tv(&self.fire_event_id)]) }
}
impl Bind for dt::entity_coordinate_vector::EntityCoordinateVector {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::entity_coordinate_vector::EntityCoordinateVector>::default();
    x.x_coordinate = Bind::fv(&v[0]);
    x.y_coordinate = Bind::fv(&v[1]);
    x.z_coordinate = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.x_coordinate), Bind::tv(&self.y_coordinate), Bind::tv(&self.z_coordinate)]) }
}
impl Bind for dt::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData>::default();
    x.beam_data_length = Bind::fv(&v[0]);
    x.beam_id_number = Bind::fv(&v[1]);
    x.beam_parameter_index = Bind::fv(&v[2]);
    x.fundamental_parameter_data = Bind::fv(&v[3]);
    x.beam_function = Bind::fv(&v[4]);
    x.number_of_track_jam_targets = Bind::fv(&v[5]);
    x.high_density_track_jam = Bind::fv(&v[6]);
    x.pad4 = Bind::fv(&v[7]);
    x.jamming_mode_sequence = Bind::fv(&v[8]);
    x.track_jam_targets = Bind::fv(&v[9]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.beam_data_length), Bind::tv(&self.beam_id_number), Bind::tv(&self.beam_parameter_index), Bind::tv(&self.fundamental_parameter_data), Bind::tv(&self.beam_function), Bind::tv(&self.number_of_track_jam_targets), Bind::tv(&self.high_density_track_jam), Bind::tv(&self.pad4), Bind::tv(&self.jamming_mode_sequence), Bind::tv(&self.track_jam_targets)]) }
}
impl Bind for dt::fundamental_parameter_data::FundamentalParameterData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::fundamental_parameter_data::FundamentalParameterData>::default();
    x.frequency = Bind::fv(&v[0]);
    x.frequency_range = Bind::fv(&v[1]);
    x.effective_radiated_power = Bind::fv(&v[2]);
    x.pulse_repetition_frequency = Bind::fv(&v[3]);
    x.pulse_width = Bind::fv(&v[4]);
    x.beam_azimuth_center = Bind::fv(&v[5]);
    x.beam_azimuth_sweep = Bind::fv(&v[6]);
    x.beam_elevation_center = Bind::fv(&v[7]);
    x.beam_elevation_sweep = Bind::fv(&v[8]);
    x.beam_sweep_sync = Bind::fv(&v[9]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.frequency), Bind::tv(&self.frequency_range), Bind::tv(&self.effective_radiated_power), Bind::tv(&self.pulse_repetition_frequency), Bind::tv(&self.pulse_width), Bind::tv(&self.beam_azimuth_center), Bind::tv(&self.beam_azimuth_sweep), Bind::tv(&self.beam_elevation_center), Bind::tv(&self.beam_elevation_sweep), Bind::tv(&self.beam_sweep_sync)]) }
}
impl Bind for dt::track_jam_target::TrackJamTarget {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::track_jam_target::TrackJamTarget>::default();
    x.track_jam = Bind::fv(&v[0]);
    x.emitter_id = Bind::fv(&v[1]);
    x.beam_id = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.track_jam), Bind::tv(&self.emitter_id), Bind::tv(&self.beam_id)]) }
}
impl Bind for dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData>::default();
    x.system_data_length = Bind::fv(&v[0]);
    x.number_of_beams = Bind::fv(&v[1]);
    x.emissionspadding2 = Bind::fv(&v[2]);
    x.emitter_system = Bind::fv(&v[3]);
    x.location = Bind::fv(&v[4]);
    x.beam_data_records = Bind::fv(&v[5]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.system_data_length), Bind::tv(&self.number_of_beams), Bind::tv(&self.emissionspadding2), Bind::tv(&self.emitter_system), Bind::tv(&self.location), Bind::tv(&self.beam_data_records)]) }
}
impl Bind for dt::emitter_system::EmitterSystem {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::emitter_system::EmitterSystem>::default();
    x.emitter_name = Bind::fv(&v[0]);
    x.function = Bind::fv(&v[1]);
    x.emitter_id_number = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.emitter_name), Bind::tv(&self.function), Bind::tv(&self.emitter_id_number)]) }
}
impl Bind for dt::entity_marking::EntityMarking {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::entity_marking::EntityMarking>::default();
    x.entity_marking_character_set = Bind::fv(&v[0]);
    x.entity_marking_string = Octs::from_octs(v[1].octs());
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_marking_character_set), Val::O(Octs::to_octs(&self.entity_marking_string))]) }
}
impl Bind for dt::entity_type::EntityType {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::entity_type::EntityType>::default();
    x.kind = Bind::fv(&v[0]);
    x.domain = Bind::fv(&v[1]);
    x.country = Bind::fv(&v[2]);
    x.category = Bind::fv(&v[3]);
    x.subcategory = Bind::fv(&v[4]);
    x.specific = Bind::fv(&v[5]);
    x.extra = Bind::fv(&v[6]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.kind), Bind::tv(&self.domain), Bind::tv(&self.country), Bind::tv(&self.category), Bind::tv(&self.subcategory), Bind::tv(&self.specific), Bind::tv(&self.extra)]) }
}
impl Bind for dt::euler_angles::EulerAngles {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::euler_angles::EulerAngles>::default();
    x.psi = Bind::fv(&v[0]);
    x.theta = Bind::fv(&v[1]);
    x.phi = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.psi), Bind::tv(&self.theta), Bind::tv(&self.phi)]) }
}
impl Bind for dt::fundamental_operational_data::FundamentalOperationalData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::fundamental_operational_data::FundamentalOperationalData>::default();
    x.system_status = Bind::fv(&v[0]);
    x.data_field1 = Bind::fv(&v[1]);
    x.information_layers = Bind::fv(&v[2]);
    x.data_field2 = Bind::fv(&v[3]);
    x.parameter1 = Bind::fv(&v[4]);
    x.parameter2 = Bind::fv(&v[5]);
    x.parameter3 = Bind::fv(&v[6]);
    x.parameter4 = Bind::fv(&v[7]);
    x.parameter5 = Bind::fv(&v[8]);
    x.parameter6 = Bind::fv(&v[9]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.system_status), Bind::tv(&self.data_field1), Bind::tv(&self.information_layers), Bind::tv(&self.data_field2), Bind::tv(&self.parameter1), Bind::tv(&self.parameter2), Bind::tv(&self.parameter3), Bind::tv(&self.parameter4), Bind::tv(&self.parameter5), Bind::tv(&self.parameter6)]) }
}
impl Bind for dt::iff_fundamental_parameter_data::IFFFundamentalParameterData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::iff_fundamental_parameter_data::IFFFundamentalParameterData>::default();
    x.erp = Bind::fv(&v[0]);
    x.frequency = Bind::fv(&v[1]);
    x.pgrf = Bind::fv(&v[2]);
    x.pulse_width = Bind::fv(&v[3]);
    x.burst_length = Bind::fv(&v[4]);
    x.applicable_modes = Bind::fv(&v[5]);
    x.system_specific_data = Octs::from_octs(v[6].octs());
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.erp), Bind::tv(&self.frequency), Bind::tv(&self.pgrf), Bind::tv(&self.pulse_width), Bind::tv(&self.burst_length), Bind::tv(&self.applicable_modes), Val::O(Octs::to_octs(&self.system_specific_data))]) }
}
impl Bind for dt::intercom_communications_parameters::IntercomCommunicationsParameters {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::intercom_communications_parameters::IntercomCommunicationsParameters>::default();
    x.record_type = Bind::fv(&v[0]);
    x.record_length = Bind::fv(&v[1]);
    x.record_specific_field = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.record_type), Bind::tv(&self.record_length), Bind::tv(&self.record_specific_field)]) }
}
impl Bind for dt::layer_header::LayerHeader {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::layer_header::LayerHeader>::default();
    x.layer_number = Bind::fv(&v[0]);
    x.layer_specific_information = Bind::fv(&v[1]);
    x.length = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.layer_number), Bind::tv(&self.layer_specific_information), Bind::tv(&self.length)]) }
}
impl Bind for dt::linear_segment_parameter::LinearSegmentParameter {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::linear_segment_parameter::LinearSegmentParameter>::default();
    x.segment_number = Bind::fv(&v[0]);
    x.segment_modification = Bind::fv(&v[1]);
    x.general_segment_appearance = Bind::fv(&v[2]);
    x.specific_segment_appearance = Bind::fv(&v[3]);
    x.segment_location = Bind::fv(&v[4]);
    x.segment_orientation = Bind::fv(&v[5]);
    x.segment_length = Bind::fv(&v[6]);
    x.segment_width = Bind::fv(&v[7]);
    x.segment_height = Bind::fv(&v[8]);
    x.segment_depth = Bind::fv(&v[9]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.segment_number), Bind::tv(&self.segment_modification), Bind::tv(&self.general_segment_appearance), Bind::tv(&self.specific_segment_appearance), Bind::tv(&self.segment_location), Bind::tv(&self.segment_orientation), Bind::tv(&self.segment_length), Bind::tv(&self.segment_width), Bind::tv(&self.segment_height), Bind::tv(&self.segment_depth)]) }
}
impl Bind for dt::world_coordinate::WorldCoordinate {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::world_coordinate::WorldCoordinate>::default();
    x.x = Bind::fv(&v[0]);
    x.y = Bind::fv(&v[1]);
    x.z = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.x), Bind::tv(&self.y), Bind::tv(&self.z)]) }
}
impl Bind for dt::linear_velocity::LinearVelocity {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::linear_velocity::LinearVelocity>::default();
    x.first_vector_component = Bind::fv(&v[0]);
    x.second_vector_component = Bind::fv(&v[1]);
    x.third_vector_component = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.first_vector_component), Bind::tv(&self.second_vector_component), Bind::tv(&self.third_vector_component)]) }
}
impl Bind for dt::minefield_identifier::MinefieldIdentifier {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::minefield_identifier::MinefieldIdentifier>::default();
    x.simulation_address = Bind::fv(&v[0]);
    x.minefield_number = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.simulation_address), Bind::tv(&self.minefield_number)]) }
}
impl Bind for dt::modulation_type::ModulationType {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::modulation_type::ModulationType>::default();
    x.spread_spectrum = Bind::fv(&v[0]);
    x.major = Bind::fv(&v[1]);
    x.detail = Bind::fv(&v[2]);
    x.system = Bind::fv(&v[3]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.spread_spectrum), Bind::tv(&self.major), Bind::tv(&self.detail), Bind::tv(&self.system)]) }
}
impl Bind for dt::munition_descriptor::MunitionDescriptor {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::munition_descriptor::MunitionDescriptor>::default();
    x.munition_type = Bind::fv(&v[0]);
    x.warhead = Bind::fv(&v[1]);
    x.fuse = Bind::fv(&v[2]);
    x.quantity = Bind::fv(&v[3]);
    x.rate = Bind::fv(&v[4]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.munition_type), Bind::tv(&self.warhead), Bind::tv(&self.fuse), Bind::tv(&self.quantity), Bind::tv(&self.rate)]) }
}
impl Bind for dt::named_location::NamedLocation {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::named_location::NamedLocation>::default();
    x.station_name = Bind::fv(&v[0]);
    x.station_number = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.station_name), Bind::tv(&self.station_number)]) }
}
impl Bind for dt::object_identifier::ObjectIdentifier {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::object_identifier::ObjectIdentifier>::default();
    x.simulation_address = Bind::fv(&v[0]);
    x.object_number = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.simulation_address), Bind::tv(&self.object_number)]) }
}
impl Bind for dt::object_type::ObjectType {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::object_type::ObjectType>::default();
    x.domain = Bind::fv(&v[0]);
    x.object_kind = Bind::fv(&v[1]);
    x.category = Bind::fv(&v[2]);
    x.subcategory = Bind::fv(&v[3]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.domain), Bind::tv(&self.object_kind), Bind::tv(&self.category), Bind::tv(&self.subcategory)]) }
}
impl Bind for dt::point::Point {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::point::Point>::default();
    x.x = Bind::fv(&v[0]);
    x.y = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.x), Bind::tv(&self.y)]) }
}
impl Bind for dt::propulsion_system_data::PropulsionSystemData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::propulsion_system_data::PropulsionSystemData>::default();
    x.power_setting = Bind::fv(&v[0]);
    x.engine_rpm = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.power_setting), Bind::tv(&self.engine_rpm)]) }
}
impl Bind for dt::radio_entity_type::RadioEntityType {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::radio_entity_type::RadioEntityType>::default();
    x.entity_kind = Bind::fv(&v[0]);
    x.domain = Bind::fv(&v[1]);
    x.country = Bind::fv(&v[2]);
    x.category = Bind::fv(&v[3]);
    x.nomenclature_version = Bind::fv(&v[4]);
    x.nomenclature = Bind::fv(&v[5]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_kind), Bind::tv(&self.domain), Bind::tv(&self.country), Bind::tv(&self.category), Bind::tv(&self.nomenclature_version), Bind::tv(&self.nomenclature)]) }
}
impl Bind for dt::record_specification::RecordSpecification {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::record_specification::RecordSpecification>::default();
    x.number_of_record_sets = Bind::fv(&v[0]);
    x.record_sets = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.number_of_record_sets), Bind::tv(&self.record_sets)]) }
}
impl Bind for dt::record_specification_element::RecordSpecificationElement {
  fn fv(v: &Val) -> Self { let v = v.tup();
    dt::record_specification_element::RecordSpecificationElement { record_id: Bind::fv(&v[0]), record_set_serial_number: Bind::fv(&v[1]), record_length: Bind::fv(&v[2]), record_count: Bind::fv(&v[3]), record_values: Octs::from_octs(v[4].octs()) } }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.record_id), Bind::tv(&self.record_set_serial_number), Bind::tv(&self.record_length), Bind::tv(&self.record_count), Val::O(Octs::to_octs(&self.record_values))]) }
}
impl Bind for dt::relationship::Relationship {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::relationship::Relationship>::default();
    x.nature = Bind::fv(&v[0]);
    x.position = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.nature), Bind::tv(&self.position)]) }
}
impl Bind for dt::secondary_operational_data::SecondaryOperationalData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::secondary_operational_data::SecondaryOperationalData>::default();
    x.operational_data1 = Bind::fv(&v[0]);
    x.operational_data2 = Bind::fv(&v[1]);
    x.number_of_iff_fundamental_parameter_records = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.operational_data1), Bind::tv(&self.operational_data2), Bind::tv(&self.number_of_iff_fundamental_parameter_records)]) }
}
impl Bind for dt::shaft_rpms::ShaftRPMs {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::shaft_rpms::ShaftRPMs>::default();
    x.current_shaft_rpms = Bind::fv(&v[0]);
    x.ordered_shaft_rpms = Bind::fv(&v[1]);
    x.shaft_rpm_rate_of_change = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.current_shaft_rpms), Bind::tv(&self.ordered_shaft_rpms), Bind::tv(&self.shaft_rpm_rate_of_change)]) }
}
impl Bind for dt::simulation_id::SimulationIdentifier {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::simulation_id::SimulationIdentifier>::default();
    x.simulation_address = Bind::fv(&v[0]);
    x.reference_number = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.simulation_address), Bind::tv(&self.reference_number)]) }
}
impl Bind for dt::standard_variable_records::StandardVariableRecords {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::standard_variable_records::StandardVariableRecords>::default();
    x.record_type = Bind::fv(&v[0]);
    x.record_length = Bind::fv(&v[1]);
    x.record_specific_fields = Octs::from_octs(v[2].octs());
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.record_type), Bind::tv(&self.record_length), Val::O(Octs::to_octs(&self.record_specific_fields))]) }
}
impl Bind for dt::standard_variable_specification::StandardVariableSpecification {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::standard_variable_specification::StandardVariableSpecification>::default();
    x.number_of_standard_variable_records = Bind::fv(&v[0]);
    x.standard_variable_records = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.number_of_standard_variable_records), Bind::tv(&self.standard_variable_records)]) }
}
impl Bind for dt::supply_quantity::SupplyQuantity {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::supply_quantity::SupplyQuantity>::default();
    x.supply_type = Bind::fv(&v[0]);
    x.quantity = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.supply_type), Bind::tv(&self.quantity)]) }
}
impl Bind for dt::system_id::SystemId {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::system_id::SystemId>::default();
    x.system_type = Bind::fv(&v[0]);
    x.system_name = Bind::fv(&v[1]);
    x.system_mode = Bind::fv(&v[2]);
    x.change_options = Bind::fv(&v[3]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.system_type), Bind::tv(&self.system_name), Bind::tv(&self.system_mode), Bind::tv(&self.change_options)]) }
}
impl Bind for dt::variable_parameter::VariableParameter {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::variable_parameter::VariableParameter>::default();
    x.record_type = Bind::fv(&v[0]);
    x.variable_parameter_field1 = Bind::fv(&v[1]);
    x.variable_parameter_field2 = Bind::fv(&v[2]);
    x.variable_parameter_field3 = Bind::fv(&v[3]);
    x.variable_parameter_field4 = Bind::fv(&v[4]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.record_type), Bind::tv(&self.variable_parameter_field1), Bind::tv(&self.variable_parameter_field2), Bind::tv(&self.variable_parameter_field3), Bind::tv(&self.variable_parameter_field4)]) }
}
impl Bind for dt::variable_transmitter_parameters::VariableTransmitterParameters {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::variable_transmitter_parameters::VariableTransmitterParameters>::default();
    x.record_type = Bind::fv(&v[0]);
    x.record_length = Bind::fv(&v[1]);
    x.record_specific_fields = Octs::from_octs(v[2].octs());
    x }
  fn tv(&self) -> Val { Val::T(vec![wide_tv(&self.record_type, 4), Bind::tv(&self.record_length), Val::O(Octs::to_octs(&self.record_specific_fields))]) }
}
impl Bind for dt::vector3_double::Vector3Double {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::vector3_double::Vector3Double>::default();
    x.x = Bind::fv(&v[0]);
    x.y = Bind::fv(&v[1]);
    x.z = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.x), Bind::tv(&self.y), Bind::tv(&self.z)]) }
}
impl Bind for dt::vectoring_nozzle_system_data::VectoringNozzleSystemData {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::vectoring_nozzle_system_data::VectoringNozzleSystemData>::default();
    x.horizontal_deflection_angle = Bind::fv(&v[0]);
    x.vertical_deflection_angle = Bind::fv(&v[1]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.horizontal_deflection_angle), Bind::tv(&self.vertical_deflection_angle)]) }
}
impl Bind for dt::velocity_vector::VelocityVector {
  fn fv(v: &Val) -> Self { let v = v.tup();
    let mut x = <dt::velocity_vector::VelocityVector>::default();
    x.first_vector_component = Bind::fv(&v[0]);
    x.second_vector_component = Bind::fv(&v[1]);
    x.third_vector_component = Bind::fv(&v[2]);
    x }
  fn tv(&self) -> Val { Val::T(vec![Bind::tv(&self.first_vector_component), Bind::tv(&self.second_vector_component), Bind::tv(&self.third_vector_component)]) }
}

pub fn rec_table() -> Vec<RecEntry> { vec![
  rec_entry!("SimulationAddress", dt::simulation_address::SimulationAddress),
  rec_entry!("EntityId", dt::entity_id::EntityId),
  rec_entry!("EventId", dt::event_id::EventId),
  rec_entry!("DeadReckoningParameters", dt::dead_reckoning_parameters::DeadReckoningParameters),
  rec_entry!("AcousticBeamData", dt::acoustic_beam_data::AcousticBeamData),
  rec_entry!("AcousticEmitterSystemData", dt::acoustic_emitter_system_data::AcousticEmitterSystemData),
  rec_entry!("Environment", dt::environment::Environment),
  rec_entry!("AcousticBeamFundamentalParameter", dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter),
  rec_entry!("AcousticEmitterSystem", dt::acoustic_emitter_system::AcousticEmitterSystem),
  rec_entry!("Vector3Float", dt::vector3_float::Vector3Float),
  rec_entry!("AggregateId", dt::aggregate_id::AggregateId),
  rec_entry!("AggregateMarking", dt::aggregate_marking::AggregateMarking),
  rec_entry!("AngularVelocity", dt::angular_velocity_vector::AngularVelocity),
  rec_entry!("ApaData", dt::apa_data::ApaData),
  rec_entry!("AttributeRecord", dt::attribute_record::AttributeRecord),
  rec_entry!("AttributeRecordSet", dt::attribute_record_set::AttributeRecordSet),
  rec_entry!("BeamData", dt::beam_data::BeamData),
  rec_entry!("ClockTime", dt::clock_time::ClockTime),
  rec_entry!("FixedDatumRecord", dt::datum_records::FixedDatumRecord),
  rec_entry!("VariableDatumRecord", dt::datum_records::VariableDatumRecord),
  rec_entry!("LinearAcceleration", dt::linear_acceleration::LinearAcceleration),
  rec_entry!("DirectedEnergyDamage", dt::directed_energy_damage::DirectedEnergyDamage),
  rec_entry!("EntityCoordinateVector", dt::entity_coordinate_vector::EntityCoordinateVector),
  rec_entry!("ElectromagneticEmissionBeamData", dt::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData),
  rec_entry!("FundamentalParameterData", dt::fundamental_parameter_data::FundamentalParameterData),
  rec_entry!("TrackJamTarget", dt::track_jam_target::TrackJamTarget),
  rec_entry!("ElectromagneticEmissionSystemData", dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData),
  rec_entry!("EmitterSystem", dt::emitter_system::EmitterSystem),
  rec_entry!("EntityMarking", dt::entity_marking::EntityMarking),
  rec_entry!("EntityType", dt::entity_type::EntityType),
  rec_entry!("EulerAngles", dt::euler_angles::EulerAngles),
  rec_entry!("FundamentalOperationalData", dt::fundamental_operational_data::FundamentalOperationalData),
  rec_entry!("IFFFundamentalParameterData", dt::iff_fundamental_parameter_data::IFFFundamentalParameterData),
  rec_entry!("IntercomCommunicationsParameters", dt::intercom_communications_parameters::IntercomCommunicationsParameters),
  rec_entry!("LayerHeader", dt::layer_header::LayerHeader),
  rec_entry!("LinearSegmentParameter", dt::linear_segment_parameter::LinearSegmentParameter),
  rec_entry!("WorldCoordinate", dt::world_coordinate::WorldCoordinate),
  rec_entry!("LinearVelocity", dt::linear_velocity::LinearVelocity),
  rec_entry!("MinefieldIdentifier", dt::minefield_identifier::MinefieldIdentifier),
  rec_entry!("ModulationType", dt::modulation_type::ModulationType),
  rec_entry!("MunitionDescriptor", dt::munition_descriptor::MunitionDescriptor),
  rec_entry!("NamedLocation", dt::named_location::NamedLocation),
  rec_entry!("ObjectIdentifier", dt::object_identifier::ObjectIdentifier),
  rec_entry!("ObjectType", dt::object_type::ObjectType),
  rec_entry!("Point", dt::point::Point),
  rec_entry!("PropulsionSystemData", dt::propulsion_system_data::PropulsionSystemData),
  rec_entry!("RadioEntityType", dt::radio_entity_type::RadioEntityType),
  rec_entry!("RecordSpecification", dt::record_specification::RecordSpecification),
  rec_entry!("RecordSpecificationElement", dt::record_specification_element::RecordSpecificationElement),
  rec_entry!("Relationship", dt::relationship::Relationship),
  rec_entry!("SecondaryOperationalData", dt::secondary_operational_data::SecondaryOperationalData),
  rec_entry!("ShaftRPMs", dt::shaft_rpms::ShaftRPMs),
  rec_entry!("SimulationIdentifier", dt::simulation_id::SimulationIdentifier),
  rec_entry!("StandardVariableRecords", dt::standard_variable_records::StandardVariableRecords),
  rec_entry!("StandardVariableSpecification", dt::standard_variable_specification::StandardVariableSpecification),
  rec_entry!("SupplyQuantity", dt::supply_quantity::SupplyQuantity),
  rec_entry!("SystemId", dt::system_id::SystemId),
  rec_entry!("VariableParameter", dt::variable_parameter::VariableParameter),
  rec_entry!("VariableTransmitterParameters", dt::variable_transmitter_parameters::VariableTransmitterParameters),
  rec_entry!("Vector3Double", dt::vector3_double::Vector3Double),
  rec_entry!("VectoringNozzleSystemData", dt::vectoring_nozzle_system_data::VectoringNozzleSystemData),
  rec_entry!("VelocityVector", dt::velocity_vector::VelocityVector),
  rec_entry!("GridAxisDescriptor", dt::grid_axis_descriptor::GridAxisDescriptor),
  rec_entry!("GridDataRecord", dt::grid_data_record::GridDataRecord),
  hdr_entry!("PduHeader", PduHeader),
  hdr_entry!("LiveEntityPduHeader", LiveEntityPduHeader),
]}

pub fn made_table() -> Vec<MadeEntry> { vec![
  MadeEntry { name: "SimulationAddress", make: Some(|a| <dt::simulation_address::SimulationAddress>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::simulation_address::SimulationAddress>::default().tv()) },
  MadeEntry { name: "EntityId", make: Some(|a| <dt::entity_id::EntityId>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::entity_id::EntityId>::default().tv()) },
  MadeEntry { name: "EventId", make: Some(|a| <dt::event_id::EventId>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::event_id::EventId>::default().tv()) },
  MadeEntry { name: "DeadReckoningParameters", make: Some(|a| <dt::dead_reckoning_parameters::DeadReckoningParameters>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::dead_reckoning_parameters::DeadReckoningParameters>::default().tv()) },
  MadeEntry { name: "AcousticBeamData", make: Some(|a| <dt::acoustic_beam_data::AcousticBeamData>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), 0, Bind::fv(&a[3])).tv()), default: Some(|| <dt::acoustic_beam_data::AcousticBeamData>::default().tv()) },
  MadeEntry { name: "AcousticEmitterSystemData", make: Some(|a| <dt::acoustic_emitter_system_data::AcousticEmitterSystemData>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), 0, Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5])).tv()), default: Some(|| <dt::acoustic_emitter_system_data::AcousticEmitterSystemData>::default().tv()) },
  MadeEntry { name: "Environment", make: Some(|a| <dt::environment::Environment>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), 0).tv()), default: Some(|| <dt::environment::Environment>::default().tv()) },
  MadeEntry { name: "AcousticBeamFundamentalParameter", make: Some(|a| <dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5])).tv()), default: Some(|| <dt::acoustic_beam_fundamental_parameter::AcousticBeamFundamentalParameter>::default().tv()) },
  MadeEntry { name: "AcousticEmitterSystem", make: Some(|a| <dt::acoustic_emitter_system::AcousticEmitterSystem>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::acoustic_emitter_system::AcousticEmitterSystem>::default().tv()) },
  MadeEntry { name: "Vector3Float", make: Some(|a| <dt::vector3_float::Vector3Float>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::vector3_float::Vector3Float>::default().tv()) },
  MadeEntry { name: "AggregateId", make: Some(|a| <dt::aggregate_id::AggregateId>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::aggregate_id::AggregateId>::default().tv()) },
  MadeEntry { name: "AggregateMarking", make: Some(|a| <dt::aggregate_marking::AggregateMarking>::new(Bind::fv(&a[0]), Octs::from_octs(a[1].octs())).tv()), default: Some(|| <dt::aggregate_marking::AggregateMarking>::default().tv()) },
  MadeEntry { name: "AngularVelocity", make: Some(|a| <dt::angular_velocity_vector::AngularVelocity>::new().tv()), default: Some(|| <dt::angular_velocity_vector::AngularVelocity>::default().tv()) },
  MadeEntry { name: "ApaData", make: Some(|a| <dt::apa_data::ApaData>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::apa_data::ApaData>::default().tv()) },
  MadeEntry { name: "AttributeRecord", make: Some(|a| <dt::attribute_record::AttributeRecord>::new().tv()), default: Some(|| <dt::attribute_record::AttributeRecord>::default().tv()) },
  MadeEntry { name: "AttributeRecordSet", make: Some(|a| <dt::attribute_record_set::AttributeRecordSet>::new().tv()), default: Some(|| <dt::attribute_record_set::AttributeRecordSet>::default().tv()) },
  MadeEntry { name: "BeamData", make: Some(|a| <dt::beam_data::BeamData>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4])).tv()), default: Some(|| <dt::beam_data::BeamData>::default().tv()) },
  MadeEntry { name: "ClockTime", make: Some(|a| <dt::clock_time::ClockTime>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::clock_time::ClockTime>::default().tv()) },
  MadeEntry { name: "LinearAcceleration", make: Some(|a| <dt::linear_acceleration::LinearAcceleration>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::linear_acceleration::LinearAcceleration>::default().tv()) },
  MadeEntry { name: "DirectedEnergyDamage", make: Some(|a| <dt::directed_energy_damage::DirectedEnergyDamage>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5]), Bind::fv(&a[6]), Bind::fv(&a[7]), Bind::fv(&a[8]), Bind::fv(&a[9])).tv()), default: Some(|| <dt::directed_energy_damage::DirectedEnergyDamage>::default().tv()) },
  MadeEntry { name: "EntityCoordinateVector", make: Some(|a| <dt::entity_coordinate_vector::EntityCoordinateVector>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::entity_coordinate_vector::EntityCoordinateVector>::default().tv()) },
  MadeEntry { name: "EmitterSystem", make: Some(|a| <dt::emitter_system::EmitterSystem>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::emitter_system::EmitterSystem>::default().tv()) },
  MadeEntry { name: "EntityMarking", make: Some(|a| <dt::entity_marking::EntityMarking>::new(Bind::fv(&a[0]), Octs::from_octs(a[1].octs())).tv()), default: Some(|| <dt::entity_marking::EntityMarking>::default().tv()) },
  MadeEntry { name: "EntityType", make: Some(|a| <dt::entity_type::EntityType>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5]), Bind::fv(&a[6])).tv()), default: Some(|| <dt::entity_type::EntityType>::default().tv()) },
  MadeEntry { name: "EulerAngles", make: Some(|a| <dt::euler_angles::EulerAngles>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::euler_angles::EulerAngles>::default().tv()) },
  MadeEntry { name: "FundamentalOperationalData", make: Some(|a| <dt::fundamental_operational_data::FundamentalOperationalData>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5]), Bind::fv(&a[6]), Bind::fv(&a[7]), Bind::fv(&a[8]), Bind::fv(&a[9])).tv()), default: Some(|| <dt::fundamental_operational_data::FundamentalOperationalData>::default().tv()) },
  MadeEntry { name: "IFFFundamentalParameterData", make: Some(|a| <dt::iff_fundamental_parameter_data::IFFFundamentalParameterData>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5]), Octs::from_octs(a[6].octs())).tv()), default: Some(|| <dt::iff_fundamental_parameter_data::IFFFundamentalParameterData>::default().tv()) },
  MadeEntry { name: "IntercomCommunicationsParameters", make: Some(|a| <dt::intercom_communications_parameters::IntercomCommunicationsParameters>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::intercom_communications_parameters::IntercomCommunicationsParameters>::default().tv()) },
  MadeEntry { name: "LayerHeader", make: Some(|a| <dt::layer_header::LayerHeader>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::layer_header::LayerHeader>::default().tv()) },
  MadeEntry { name: "LinearSegmentParameter", make: Some(|a| <dt::linear_segment_parameter::LinearSegmentParameter>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5]), Bind::fv(&a[6]), Bind::fv(&a[7]), Bind::fv(&a[8]), Bind::fv(&a[9])).tv()), default: Some(|| <dt::linear_segment_parameter::LinearSegmentParameter>::default().tv()) },
  MadeEntry { name: "WorldCoordinate", make: Some(|a| <dt::world_coordinate::WorldCoordinate>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::world_coordinate::WorldCoordinate>::default().tv()) },
  MadeEntry { name: "LinearVelocity", make: Some(|a| <dt::linear_velocity::LinearVelocity>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::linear_velocity::LinearVelocity>::default().tv()) },
  MadeEntry { name: "MinefieldIdentifier", make: Some(|a| <dt::minefield_identifier::MinefieldIdentifier>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::minefield_identifier::MinefieldIdentifier>::default().tv()) },
  MadeEntry { name: "ModulationType", make: Some(|a| <dt::modulation_type::ModulationType>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3])).tv()), default: Some(|| <dt::modulation_type::ModulationType>::default().tv()) },
  MadeEntry { name: "MunitionDescriptor", make: Some(|a| <dt::munition_descriptor::MunitionDescriptor>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4])).tv()), default: Some(|| <dt::munition_descriptor::MunitionDescriptor>::default().tv()) },
  MadeEntry { name: "NamedLocation", make: Some(|a| <dt::named_location::NamedLocation>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::named_location::NamedLocation>::default().tv()) },
  MadeEntry { name: "ObjectIdentifier", make: Some(|a| <dt::object_identifier::ObjectIdentifier>::new().tv()), default: Some(|| <dt::object_identifier::ObjectIdentifier>::default().tv()) },
  MadeEntry { name: "ObjectType", make: Some(|a| <dt::object_type::ObjectType>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3])).tv()), default: Some(|| <dt::object_type::ObjectType>::default().tv()) },
  MadeEntry { name: "Point", make: Some(|a| <dt::point::Point>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::point::Point>::default().tv()) },
  MadeEntry { name: "PropulsionSystemData", make: Some(|a| <dt::propulsion_system_data::PropulsionSystemData>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::propulsion_system_data::PropulsionSystemData>::default().tv()) },
  MadeEntry { name: "RadioEntityType", make: Some(|a| <dt::radio_entity_type::RadioEntityType>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4]), Bind::fv(&a[5])).tv()), default: Some(|| <dt::radio_entity_type::RadioEntityType>::default().tv()) },
  MadeEntry { name: "RecordSpecification", make: Some(|a| <dt::record_specification::RecordSpecification>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::record_specification::RecordSpecification>::default().tv()) },
  MadeEntry { name: "RecordSpecificationElement", make: Some(|a| <dt::record_specification_element::RecordSpecificationElement>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Octs::from_octs(a[4].octs())).tv()), default: None },
  MadeEntry { name: "Relationship", make: Some(|a| <dt::relationship::Relationship>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::relationship::Relationship>::default().tv()) },
  MadeEntry { name: "SecondaryOperationalData", make: Some(|a| <dt::secondary_operational_data::SecondaryOperationalData>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::secondary_operational_data::SecondaryOperationalData>::default().tv()) },
  MadeEntry { name: "ShaftRPMs", make: Some(|a| <dt::shaft_rpms::ShaftRPMs>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::shaft_rpms::ShaftRPMs>::default().tv()) },
  MadeEntry { name: "SimulationIdentifier", make: Some(|a| <dt::simulation_id::SimulationIdentifier>::new().tv()), default: Some(|| <dt::simulation_id::SimulationIdentifier>::default().tv()) },
  MadeEntry { name: "StandardVariableRecords", make: Some(|a| <dt::standard_variable_records::StandardVariableRecords>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Octs::from_octs(a[2].octs())).tv()), default: Some(|| <dt::standard_variable_records::StandardVariableRecords>::default().tv()) },
  MadeEntry { name: "StandardVariableSpecification", make: Some(|a| <dt::standard_variable_specification::StandardVariableSpecification>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::standard_variable_specification::StandardVariableSpecification>::default().tv()) },
  MadeEntry { name: "SupplyQuantity", make: Some(|a| <dt::supply_quantity::SupplyQuantity>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::supply_quantity::SupplyQuantity>::default().tv()) },
  MadeEntry { name: "SystemId", make: Some(|a| <dt::system_id::SystemId>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3])).tv()), default: Some(|| <dt::system_id::SystemId>::default().tv()) },
  MadeEntry { name: "VariableParameter", make: Some(|a| <dt::variable_parameter::VariableParameter>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2]), Bind::fv(&a[3]), Bind::fv(&a[4])).tv()), default: Some(|| <dt::variable_parameter::VariableParameter>::default().tv()) },
  MadeEntry { name: "VariableTransmitterParameters", make: Some(|a| <dt::variable_transmitter_parameters::VariableTransmitterParameters>::new().tv()), default: Some(|| <dt::variable_transmitter_parameters::VariableTransmitterParameters>::default().tv()) },
  MadeEntry { name: "Vector3Double", make: Some(|a| <dt::vector3_double::Vector3Double>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::vector3_double::Vector3Double>::default().tv()) },
  MadeEntry { name: "VectoringNozzleSystemData", make: Some(|a| <dt::vectoring_nozzle_system_data::VectoringNozzleSystemData>::new(Bind::fv(&a[0]), Bind::fv(&a[1])).tv()), default: Some(|| <dt::vectoring_nozzle_system_data::VectoringNozzleSystemData>::default().tv()) },
  MadeEntry { name: "VelocityVector", make: Some(|a| <dt::velocity_vector::VelocityVector>::new(Bind::fv(&a[0]), Bind::fv(&a[1]), Bind::fv(&a[2])).tv()), default: Some(|| <dt::velocity_vector::VelocityVector>::default().tv()) },
  MadeEntry { name: "ElectromagneticEmissionBeamData", make: None, default: Some(|| <dt::electromagnetic_emission_beam_data::ElectromagneticEmissionBeamData>::default().tv()) },
  MadeEntry { name: "FundamentalParameterData", make: None, default: Some(|| <dt::fundamental_parameter_data::FundamentalParameterData>::default().tv()) },
  MadeEntry { name: "TrackJamTarget", make: None, default: Some(|| <dt::track_jam_target::TrackJamTarget>::default().tv()) },
  MadeEntry { name: "ElectromagneticEmissionSystemData", make: None, default: Some(|| <dt::electromagnetic_emission_system_data::ElectromagneticEmissionSystemData>::default().tv()) },
]}

impl Body for open_dis_rust::entity_information::EntityStatePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.entity_id = Bind::fv(&v[0]);
    x.force_id = Bind::fv(&v[1]);
    x.number_of_articulation_parameters = Bind::fv(&v[2]);
    x.entity_type = Bind::fv(&v[3]);
    x.alternative_entity_type = Bind::fv(&v[4]);
    x.entity_linear_velocity = Bind::fv(&v[5]);
    x.entity_location = Bind::fv(&v[6]);
    x.entity_orientation = Bind::fv(&v[7]);
    x.entity_appearance = Bind::fv(&v[8]);
    x.dead_reckoning_parameters = Bind::fv(&v[9]);
    x.entity_marking = Bind::fv(&v[10]);
    x.entity_capabilities = Bind::fv(&v[11]);
    x.articulation_parameter = Bind::fv(&v[12]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_id), Bind::tv(&self.force_id), Bind::tv(&self.number_of_articulation_parameters), Bind::tv(&self.entity_type), Bind::tv(&self.alternative_entity_type), Bind::tv(&self.entity_linear_velocity), Bind::tv(&self.entity_location), Bind::tv(&self.entity_orientation), Bind::tv(&self.entity_appearance), Bind::tv(&self.dead_reckoning_parameters), Bind::tv(&self.entity_marking), Bind::tv(&self.entity_capabilities), Bind::tv(&self.articulation_parameter)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.entity_id = Bind::fv(&v[0]),
    1 => x.force_id = Bind::fv(&v[1]),
    2 => x.number_of_articulation_parameters = Bind::fv(&v[2]),
    3 => x.entity_type = Bind::fv(&v[3]),
    4 => x.alternative_entity_type = Bind::fv(&v[4]),
    5 => x.entity_linear_velocity = Bind::fv(&v[5]),
    6 => x.entity_location = Bind::fv(&v[6]),
    7 => x.entity_orientation = Bind::fv(&v[7]),
    8 => x.entity_appearance = Bind::fv(&v[8]),
    9 => x.dead_reckoning_parameters = Bind::fv(&v[9]),
    10 => x.entity_marking = Bind::fv(&v[10]),
    11 => x.entity_capabilities = Bind::fv(&v[11]),
    12 => x.articulation_parameter = Bind::fv(&v[12]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_information::CollisionPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.issuing_entity_id = Bind::fv(&v[0]);
    x.colliding_entity_id = Bind::fv(&v[1]);
    x.event_id = Bind::fv(&v[2]);
    x.collision_type = Bind::fv(&v[3]);
    x.velocity = Bind::fv(&v[4]);
    x.mass = Bind::fv(&v[5]);
    x.location_wrt_entity = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.issuing_entity_id), Bind::tv(&self.colliding_entity_id), Bind::tv(&self.event_id), Bind::tv(&self.collision_type), Bind::tv(&self.velocity), Bind::tv(&self.mass), Bind::tv(&self.location_wrt_entity)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.issuing_entity_id = Bind::fv(&v[0]),
    1 => x.colliding_entity_id = Bind::fv(&v[1]),
    2 => x.event_id = Bind::fv(&v[2]),
    3 => x.collision_type = Bind::fv(&v[3]),
    4 => x.velocity = Bind::fv(&v[4]),
    5 => x.mass = Bind::fv(&v[5]),
    6 => x.location_wrt_entity = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_information::CollisionElasticPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.issuing_entity_id = Bind::fv(&v[0]);
    x.colliding_entity_id = Bind::fv(&v[1]);
    x.event_id = Bind::fv(&v[2]);
    x.contact_velocity = Bind::fv(&v[3]);
    x.mass = Bind::fv(&v[4]);
    x.location_of_impact = Bind::fv(&v[5]);
    x.collision_intermediate_result_xx = Bind::fv(&v[6]);
    x.collision_intermediate_result_xy = Bind::fv(&v[7]);
    x.collision_intermediate_result_xz = Bind::fv(&v[8]);
    x.collision_intermediate_result_yy = Bind::fv(&v[9]);
    x.collision_intermediate_result_yz = Bind::fv(&v[10]);
    x.collision_intermediate_result_zz = Bind::fv(&v[11]);
    x.unit_surface_normal = Bind::fv(&v[12]);
    x.coefficient_of_restitution = Bind::fv(&v[13]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.issuing_entity_id), Bind::tv(&self.colliding_entity_id), Bind::tv(&self.event_id), Bind::tv(&self.contact_velocity), Bind::tv(&self.mass), Bind::tv(&self.location_of_impact), Bind::tv(&self.collision_intermediate_result_xx), Bind::tv(&self.collision_intermediate_result_xy), Bind::tv(&self.collision_intermediate_result_xz), Bind::tv(&self.collision_intermediate_result_yy), Bind::tv(&self.collision_intermediate_result_yz), Bind::tv(&self.collision_intermediate_result_zz), Bind::tv(&self.unit_surface_normal), Bind::tv(&self.coefficient_of_restitution)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.issuing_entity_id = Bind::fv(&v[0]),
    1 => x.colliding_entity_id = Bind::fv(&v[1]),
    2 => x.event_id = Bind::fv(&v[2]),
    3 => x.contact_velocity = Bind::fv(&v[3]),
    4 => x.mass = Bind::fv(&v[4]),
    5 => x.location_of_impact = Bind::fv(&v[5]),
    6 => x.collision_intermediate_result_xx = Bind::fv(&v[6]),
    7 => x.collision_intermediate_result_xy = Bind::fv(&v[7]),
    8 => x.collision_intermediate_result_xz = Bind::fv(&v[8]),
    9 => x.collision_intermediate_result_yy = Bind::fv(&v[9]),
    10 => x.collision_intermediate_result_yz = Bind::fv(&v[10]),
    11 => x.collision_intermediate_result_zz = Bind::fv(&v[11]),
    12 => x.unit_surface_normal = Bind::fv(&v[12]),
    13 => x.coefficient_of_restitution = Bind::fv(&v[13]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_information::EntityStateUpdatePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.entity_id = Bind::fv(&v[0]);
    x.number_of_variable_parameters = Bind::fv(&v[1]);
    x.entity_linear_velocity = Bind::fv(&v[2]);
    x.entity_location = Bind::fv(&v[3]);
    x.entity_orientation = Bind::fv(&v[4]);
    x.entity_appearance = Bind::fv(&v[5]);
    x.variable_parameter_records = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_id), Bind::tv(&self.number_of_variable_parameters), Bind::tv(&self.entity_linear_velocity), Bind::tv(&self.entity_location), Bind::tv(&self.entity_orientation), Bind::tv(&self.entity_appearance), Bind::tv(&self.variable_parameter_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.entity_id = Bind::fv(&v[0]),
    1 => x.number_of_variable_parameters = Bind::fv(&v[1]),
    2 => x.entity_linear_velocity = Bind::fv(&v[2]),
    3 => x.entity_location = Bind::fv(&v[3]),
    4 => x.entity_orientation = Bind::fv(&v[4]),
    5 => x.entity_appearance = Bind::fv(&v[5]),
    6 => x.variable_parameter_records = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_information::AttributePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_simulation_address = Bind::fv(&v[0]);
    x.attribute_record_pdu_type = Bind::fv(&v[1]);
    x.attribute_record_protocol_version = Bind::fv(&v[2]);
    x.master_attribute_record_type = Bind::fv(&v[3]);
    x.action_code = Bind::fv(&v[4]);
    x.number_of_attribute_record_sets = Bind::fv(&v[5]);
    x.attribute_record_sets = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_simulation_address), Bind::tv(&self.attribute_record_pdu_type), Bind::tv(&self.attribute_record_protocol_version), Bind::tv(&self.master_attribute_record_type), Bind::tv(&self.action_code), Bind::tv(&self.number_of_attribute_record_sets), Bind::tv(&self.attribute_record_sets)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_simulation_address = Bind::fv(&v[0]),
    1 => x.attribute_record_pdu_type = Bind::fv(&v[1]),
    2 => x.attribute_record_protocol_version = Bind::fv(&v[2]),
    3 => x.master_attribute_record_type = Bind::fv(&v[3]),
    4 => x.action_code = Bind::fv(&v[4]),
    5 => x.number_of_attribute_record_sets = Bind::fv(&v[5]),
    6 => x.attribute_record_sets = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::warfare::FirePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.firing_entity_id = Bind::fv(&v[0]);
    x.target_entity_id = Bind::fv(&v[1]);
    x.munition_expendable_id = Bind::fv(&v[2]);
    x.event_id = Bind::fv(&v[3]);
    x.fire_mission_index = Bind::fv(&v[4]);
    x.location_in_world_coordinates = Bind::fv(&v[5]);
    x.descriptor = Bind::fv(&v[6]);
    x.velocity = Bind::fv(&v[7]);
    x.range = Bind::fv(&v[8]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.firing_entity_id), Bind::tv(&self.target_entity_id), Bind::tv(&self.munition_expendable_id), Bind::tv(&self.event_id), Bind::tv(&self.fire_mission_index), Bind::tv(&self.location_in_world_coordinates), Bind::tv(&self.descriptor), Bind::tv(&self.velocity), Bind::tv(&self.range)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.firing_entity_id = Bind::fv(&v[0]),
    1 => x.target_entity_id = Bind::fv(&v[1]),
    2 => x.munition_expendable_id = Bind::fv(&v[2]),
    3 => x.event_id = Bind::fv(&v[3]),
    4 => x.fire_mission_index = Bind::fv(&v[4]),
    5 => x.location_in_world_coordinates = Bind::fv(&v[5]),
    6 => x.descriptor = Bind::fv(&v[6]),
    7 => x.velocity = Bind::fv(&v[7]),
    8 => x.range = Bind::fv(&v[8]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::warfare::DetonationPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.firing_entity_id = Bind::fv(&v[0]);
    x.target_entity_id = Bind::fv(&v[1]);
    x.exploding_entity_id = Bind::fv(&v[2]);
    x.event_id = Bind::fv(&v[3]);
    x.velocity = Bind::fv(&v[4]);
    x.location_in_world_coordinates = Bind::fv(&v[5]);
    x.descriptor = Bind::fv(&v[6]);
    x.location_in_entitys_coordinates = Bind::fv(&v[7]);
    x.detonation_result = Bind::fv(&v[8]);
    x.number_of_variable_parameters = Bind::fv(&v[9]);
    x.variable_parameters = Bind::fv(&v[10]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.firing_entity_id), Bind::tv(&self.target_entity_id), Bind::tv(&self.exploding_entity_id), Bind::tv(&self.event_id), Bind::tv(&self.velocity), Bind::tv(&self.location_in_world_coordinates), Bind::tv(&self.descriptor), Bind::tv(&self.location_in_entitys_coordinates), Bind::tv(&self.detonation_result), Bind::tv(&self.number_of_variable_parameters), Bind::tv(&self.variable_parameters)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.firing_entity_id = Bind::fv(&v[0]),
    1 => x.target_entity_id = Bind::fv(&v[1]),
    2 => x.exploding_entity_id = Bind::fv(&v[2]),
    3 => x.event_id = Bind::fv(&v[3]),
    4 => x.velocity = Bind::fv(&v[4]),
    5 => x.location_in_world_coordinates = Bind::fv(&v[5]),
    6 => x.descriptor = Bind::fv(&v[6]),
    7 => x.location_in_entitys_coordinates = Bind::fv(&v[7]),
    8 => x.detonation_result = Bind::fv(&v[8]),
    9 => x.number_of_variable_parameters = Bind::fv(&v[9]),
    10 => x.variable_parameters = Bind::fv(&v[10]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::warfare::DirectedEnergyFirePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.firing_entity_id = Bind::fv(&v[0]);
    x.event_id = Bind::fv(&v[1]);
    x.munition_type = Bind::fv(&v[2]);
    x.shot_start_time = Bind::fv(&v[3]);
    x.cumulative_shot_time = Bind::fv(&v[4]);
    x.aperture_emitter_location = Bind::fv(&v[5]);
    x.aperture_diameter = Bind::fv(&v[6]);
    x.wavelength = Bind::fv(&v[7]);
    x.pulse_repetition_frequency = Bind::fv(&v[8]);
    x.pulse_width = Bind::fv(&v[9]);
    x.flags = Bind::fv(&v[10]);
    x.pulse_shape = Bind::fv(&v[11]);
    x.number_of_de_records = Bind::fv(&v[12]);
    x.damage_descriptions = Bind::fv(&v[13]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.firing_entity_id), Bind::tv(&self.event_id), Bind::tv(&self.munition_type), Bind::tv(&self.shot_start_time), Bind::tv(&self.cumulative_shot_time), Bind::tv(&self.aperture_emitter_location), Bind::tv(&self.aperture_diameter), Bind::tv(&self.wavelength), Bind::tv(&self.pulse_repetition_frequency), Bind::tv(&self.pulse_width), Bind::tv(&self.flags), Bind::tv(&self.pulse_shape), Bind::tv(&self.number_of_de_records), Bind::tv(&self.damage_descriptions)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.firing_entity_id = Bind::fv(&v[0]),
    1 => x.event_id = Bind::fv(&v[1]),
    2 => x.munition_type = Bind::fv(&v[2]),
    3 => x.shot_start_time = Bind::fv(&v[3]),
    4 => x.cumulative_shot_time = Bind::fv(&v[4]),
    5 => x.aperture_emitter_location = Bind::fv(&v[5]),
    6 => x.aperture_diameter = Bind::fv(&v[6]),
    7 => x.wavelength = Bind::fv(&v[7]),
    8 => x.pulse_repetition_frequency = Bind::fv(&v[8]),
    9 => x.pulse_width = Bind::fv(&v[9]),
    10 => x.flags = Bind::fv(&v[10]),
    11 => x.pulse_shape = Bind::fv(&v[11]),
    12 => x.number_of_de_records = Bind::fv(&v[12]),
    13 => x.damage_descriptions = Bind::fv(&v[13]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::warfare::EntityDamageStatusPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.damaged_entity_id = Bind::fv(&v[0]);
    x.number_of_damage_descriptions = Bind::fv(&v[1]);
    x.damage_descriptions = Bind::fv(&v[2]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.damaged_entity_id), Bind::tv(&self.number_of_damage_descriptions), Bind::tv(&self.damage_descriptions)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.damaged_entity_id = Bind::fv(&v[0]),
    1 => x.number_of_damage_descriptions = Bind::fv(&v[1]),
    2 => x.damage_descriptions = Bind::fv(&v[2]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::logistics::ServiceRequestPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.receiving_entity_id = Bind::fv(&v[0]);
    x.servicing_entity_id = Bind::fv(&v[1]);
    x.service_type_requested = Bind::fv(&v[2]);
    x.number_of_supply_types = Bind::fv(&v[3]);
    x.supplies = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.receiving_entity_id), Bind::tv(&self.servicing_entity_id), Bind::tv(&self.service_type_requested), Bind::tv(&self.number_of_supply_types), Bind::tv(&self.supplies)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.receiving_entity_id = Bind::fv(&v[0]),
    1 => x.servicing_entity_id = Bind::fv(&v[1]),
    2 => x.service_type_requested = Bind::fv(&v[2]),
    3 => x.number_of_supply_types = Bind::fv(&v[3]),
    4 => x.supplies = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::logistics::ResupplyOfferPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.receiving_entity_id = Bind::fv(&v[0]);
    x.supplying_entity_id = Bind::fv(&v[1]);
    x.number_of_supply_types = Bind::fv(&v[2]);
    x.supplies = Bind::fv(&v[3]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.receiving_entity_id), Bind::tv(&self.supplying_entity_id), Bind::tv(&self.number_of_supply_types), Bind::tv(&self.supplies)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.receiving_entity_id = Bind::fv(&v[0]),
    1 => x.supplying_entity_id = Bind::fv(&v[1]),
    2 => x.number_of_supply_types = Bind::fv(&v[2]),
    3 => x.supplies = Bind::fv(&v[3]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::logistics::ResupplyReceivedPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.receiving_entity_id = Bind::fv(&v[0]);
    x.supplying_entity_id = Bind::fv(&v[1]);
    x.number_of_supply_types = Bind::fv(&v[2]);
    x.supplies = Bind::fv(&v[3]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.receiving_entity_id), Bind::tv(&self.supplying_entity_id), Bind::tv(&self.number_of_supply_types), Bind::tv(&self.supplies)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.receiving_entity_id = Bind::fv(&v[0]),
    1 => x.supplying_entity_id = Bind::fv(&v[1]),
    2 => x.number_of_supply_types = Bind::fv(&v[2]),
    3 => x.supplies = Bind::fv(&v[3]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::logistics::ResupplyCancelPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.receiving_entity_id = Bind::fv(&v[0]);
    x.supplying_entity_id = Bind::fv(&v[1]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.receiving_entity_id), Bind::tv(&self.supplying_entity_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.receiving_entity_id = Bind::fv(&v[0]),
    1 => x.supplying_entity_id = Bind::fv(&v[1]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::logistics::RepairCompletePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.receiving_entity_id = Bind::fv(&v[0]);
    x.repairing_entity_id = Bind::fv(&v[1]);
    x.repair = Bind::fv(&v[2]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.receiving_entity_id), Bind::tv(&self.repairing_entity_id), Bind::tv(&self.repair)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.receiving_entity_id = Bind::fv(&v[0]),
    1 => x.repairing_entity_id = Bind::fv(&v[1]),
    2 => x.repair = Bind::fv(&v[2]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::logistics::RepairResponsePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.receiving_entity_id = Bind::fv(&v[0]);
    x.repairing_entity_id = Bind::fv(&v[1]);
    x.repair_result = Bind::fv(&v[2]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.receiving_entity_id), Bind::tv(&self.repairing_entity_id), Bind::tv(&self.repair_result)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.receiving_entity_id = Bind::fv(&v[0]),
    1 => x.repairing_entity_id = Bind::fv(&v[1]),
    2 => x.repair_result = Bind::fv(&v[2]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::CreateEntityPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::RemoveEntityPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::StartResumePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.real_world_time = Bind::fv(&v[2]);
    x.simulation_time = Bind::fv(&v[3]);
    x.request_id = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.real_world_time), Bind::tv(&self.simulation_time), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.real_world_time = Bind::fv(&v[2]),
    3 => x.simulation_time = Bind::fv(&v[3]),
    4 => x.request_id = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::StopFreezePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.real_world_time = Bind::fv(&v[2]);
    x.reason = Bind::fv(&v[3]);
    x.frozen_behavior = Bind::fv(&v[4]);
    x.request_id = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.real_world_time), Bind::tv(&self.reason), Bind::tv(&self.frozen_behavior), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.real_world_time = Bind::fv(&v[2]),
    3 => x.reason = Bind::fv(&v[3]),
    4 => x.frozen_behavior = Bind::fv(&v[4]),
    5 => x.request_id = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::AcknowledgePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.acknowledge_flag = Bind::fv(&v[2]);
    x.response_flag = Bind::fv(&v[3]);
    x.request_id = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.acknowledge_flag), Bind::tv(&self.response_flag), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.acknowledge_flag = Bind::fv(&v[2]),
    3 => x.response_flag = Bind::fv(&v[3]),
    4 => x.request_id = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::ActionRequestPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.action_id = Bind::fv(&v[3]);
    x.number_of_fixed_datum_records = Bind::fv(&v[4]);
    x.number_of_variable_datum_records = Bind::fv(&v[5]);
    x.fixed_datum_records = Bind::fv(&v[6]);
    x.variable_datum_records = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.action_id), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.action_id = Bind::fv(&v[3]),
    4 => x.number_of_fixed_datum_records = Bind::fv(&v[4]),
    5 => x.number_of_variable_datum_records = Bind::fv(&v[5]),
    6 => x.fixed_datum_records = Bind::fv(&v[6]),
    7 => x.variable_datum_records = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::ActionResponsePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.request_status = Bind::fv(&v[3]);
    x.number_of_fixed_datum_records = Bind::fv(&v[4]);
    x.number_of_variable_datum_records = Bind::fv(&v[5]);
    x.fixed_datum_records = Bind::fv(&v[6]);
    x.variable_datum_records = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.request_status), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.request_status = Bind::fv(&v[3]),
    4 => x.number_of_fixed_datum_records = Bind::fv(&v[4]),
    5 => x.number_of_variable_datum_records = Bind::fv(&v[5]),
    6 => x.fixed_datum_records = Bind::fv(&v[6]),
    7 => x.variable_datum_records = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::DataQueryPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.time_interval = Bind::fv(&v[3]);
    x.number_of_fixed_datum_records = Bind::fv(&v[4]);
    x.number_of_variable_datum_records = Bind::fv(&v[5]);
    x.fixed_datum_records = Bind::fv(&v[6]);
    x.variable_datum_records = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.time_interval), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.time_interval = Bind::fv(&v[3]),
    4 => x.number_of_fixed_datum_records = Bind::fv(&v[4]),
    5 => x.number_of_variable_datum_records = Bind::fv(&v[5]),
    6 => x.fixed_datum_records = Bind::fv(&v[6]),
    7 => x.variable_datum_records = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::SetDataPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.number_of_fixed_datum_records = Bind::fv(&v[3]);
    x.number_of_variable_datum_records = Bind::fv(&v[4]);
    x.fixed_datum_records = Bind::fv(&v[5]);
    x.variable_datum_records = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.number_of_fixed_datum_records = Bind::fv(&v[3]),
    4 => x.number_of_variable_datum_records = Bind::fv(&v[4]),
    5 => x.fixed_datum_records = Bind::fv(&v[5]),
    6 => x.variable_datum_records = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::DataPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.number_of_fixed_datum_records = Bind::fv(&v[3]);
    x.number_of_variable_datum_records = Bind::fv(&v[4]);
    x.fixed_datum_records = Bind::fv(&v[5]);
    x.variable_datum_records = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.number_of_fixed_datum_records = Bind::fv(&v[3]),
    4 => x.number_of_variable_datum_records = Bind::fv(&v[4]),
    5 => x.fixed_datum_records = Bind::fv(&v[5]),
    6 => x.variable_datum_records = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::EventReportPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.event_type = Bind::fv(&v[2]);
    x.number_of_fixed_datum_records = Bind::fv(&v[3]);
    x.number_of_variable_datum_records = Bind::fv(&v[4]);
    x.fixed_datum_records = Bind::fv(&v[5]);
    x.variable_datum_records = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.event_type), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.event_type = Bind::fv(&v[2]),
    3 => x.number_of_fixed_datum_records = Bind::fv(&v[3]),
    4 => x.number_of_variable_datum_records = Bind::fv(&v[4]),
    5 => x.fixed_datum_records = Bind::fv(&v[5]),
    6 => x.variable_datum_records = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management::CommentPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.number_of_fixed_datum_records = Bind::fv(&v[2]);
    x.number_of_variable_datum_records = Bind::fv(&v[3]);
    x.fixed_datum_records = Bind::fv(&v[4]);
    x.variable_datum_records = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.number_of_fixed_datum_records = Bind::fv(&v[2]),
    3 => x.number_of_variable_datum_records = Bind::fv(&v[3]),
    4 => x.fixed_datum_records = Bind::fv(&v[4]),
    5 => x.variable_datum_records = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::distributed_emissions::ElectromagneticEmissionsPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.emitting_entity_id = Bind::fv(&v[0]);
    x.event_id = Bind::fv(&v[1]);
    x.state_update_indicator = Bind::fv(&v[2]);
    x.number_of_systems = Bind::fv(&v[3]);
    x.systems = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.emitting_entity_id), Bind::tv(&self.event_id), Bind::tv(&self.state_update_indicator), Bind::tv(&self.number_of_systems), Bind::tv(&self.systems)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.emitting_entity_id = Bind::fv(&v[0]),
    1 => x.event_id = Bind::fv(&v[1]),
    2 => x.state_update_indicator = Bind::fv(&v[2]),
    3 => x.number_of_systems = Bind::fv(&v[3]),
    4 => x.systems = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::distributed_emissions::DesignatorPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.designating_entity_id = Bind::fv(&v[0]);
    x.code_name = Bind::fv(&v[1]);
    x.designated_entity_id = Bind::fv(&v[2]);
    x.designator_code = Bind::fv(&v[3]);
    x.designator_power = Bind::fv(&v[4]);
    x.designator_wavelength = Bind::fv(&v[5]);
    x.designator_spot_wrt_designated = Bind::fv(&v[6]);
    x.designator_spot_location = Bind::fv(&v[7]);
    x.dead_reckoning_algorithm = Bind::fv(&v[8]);
    x.entity_linear_acceleration = Bind::fv(&v[9]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.designating_entity_id), Bind::tv(&self.code_name), Bind::tv(&self.designated_entity_id), Bind::tv(&self.designator_code), Bind::tv(&self.designator_power), Bind::tv(&self.designator_wavelength), Bind::tv(&self.designator_spot_wrt_designated), Bind::tv(&self.designator_spot_location), Bind::tv(&self.dead_reckoning_algorithm), Bind::tv(&self.entity_linear_acceleration)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.designating_entity_id = Bind::fv(&v[0]),
    1 => x.code_name = Bind::fv(&v[1]),
    2 => x.designated_entity_id = Bind::fv(&v[2]),
    3 => x.designator_code = Bind::fv(&v[3]),
    4 => x.designator_power = Bind::fv(&v[4]),
    5 => x.designator_wavelength = Bind::fv(&v[5]),
    6 => x.designator_spot_wrt_designated = Bind::fv(&v[6]),
    7 => x.designator_spot_location = Bind::fv(&v[7]),
    8 => x.dead_reckoning_algorithm = Bind::fv(&v[8]),
    9 => x.entity_linear_acceleration = Bind::fv(&v[9]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::distributed_emissions::UnderwaterAcousticPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.emitting_entity_id = Bind::fv(&v[0]);
    x.event_id = Bind::fv(&v[1]);
    x.state_change_update_indicator = Bind::fv(&v[2]);
    x.passive_parameter_index = Bind::fv(&v[3]);
    x.propulsion_plant_configuration = Bind::fv(&v[4]);
    x.number_of_shafts = Bind::fv(&v[5]);
    x.number_of_apas = Bind::fv(&v[6]);
    x.number_of_ua_emitter_systems = Bind::fv(&v[7]);
    x.shaft_rpms = Bind::fv(&v[8]);
    x.apa_data = Bind::fv(&v[9]);
    x.emitter_systems = Bind::fv(&v[10]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.emitting_entity_id), Bind::tv(&self.event_id), Bind::tv(&self.state_change_update_indicator), Bind::tv(&self.passive_parameter_index), Bind::tv(&self.propulsion_plant_configuration), Bind::tv(&self.number_of_shafts), Bind::tv(&self.number_of_apas), Bind::tv(&self.number_of_ua_emitter_systems), Bind::tv(&self.shaft_rpms), Bind::tv(&self.apa_data), Bind::tv(&self.emitter_systems)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.emitting_entity_id = Bind::fv(&v[0]),
    1 => x.event_id = Bind::fv(&v[1]),
    2 => x.state_change_update_indicator = Bind::fv(&v[2]),
    3 => x.passive_parameter_index = Bind::fv(&v[3]),
    4 => x.propulsion_plant_configuration = Bind::fv(&v[4]),
    5 => x.number_of_shafts = Bind::fv(&v[5]),
    6 => x.number_of_apas = Bind::fv(&v[6]),
    7 => x.number_of_ua_emitter_systems = Bind::fv(&v[7]),
    8 => x.shaft_rpms = Bind::fv(&v[8]),
    9 => x.apa_data = Bind::fv(&v[9]),
    10 => x.emitter_systems = Bind::fv(&v[10]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::distributed_emissions::IFFPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.emitting_entity_id = Bind::fv(&v[0]);
    x.event_id = Bind::fv(&v[1]);
    x.relative_antenna_location = Bind::fv(&v[2]);
    x.system_id = Bind::fv(&v[3]);
    x.system_designator = Bind::fv(&v[4]);
    x.system_specific_data = Bind::fv(&v[5]);
    x.fundamental_operational_data = Bind::fv(&v[6]);
    x.layer_header = Bind::fv(&v[7]);
    x.beam_data = Bind::fv(&v[8]);
    x.secondary_operational_data = Bind::fv(&v[9]);
    x.iff_parameters = Bind::fv(&v[10]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.emitting_entity_id), Bind::tv(&self.event_id), Bind::tv(&self.relative_antenna_location), Bind::tv(&self.system_id), Bind::tv(&self.system_designator), Bind::tv(&self.system_specific_data), Bind::tv(&self.fundamental_operational_data), Bind::tv(&self.layer_header), Bind::tv(&self.beam_data), Bind::tv(&self.secondary_operational_data), Bind::tv(&self.iff_parameters)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.emitting_entity_id = Bind::fv(&v[0]),
    1 => x.event_id = Bind::fv(&v[1]),
    2 => x.relative_antenna_location = Bind::fv(&v[2]),
    3 => x.system_id = Bind::fv(&v[3]),
    4 => x.system_designator = Bind::fv(&v[4]),
    5 => x.system_specific_data = Bind::fv(&v[5]),
    6 => x.fundamental_operational_data = Bind::fv(&v[6]),
    7 => x.layer_header = Bind::fv(&v[7]),
    8 => x.beam_data = Bind::fv(&v[8]),
    9 => x.secondary_operational_data = Bind::fv(&v[9]),
    10 => x.iff_parameters = Bind::fv(&v[10]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::distributed_emissions::SupplementalEmissionPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.infrared_signature_representation_index = Bind::fv(&v[1]);
    x.acoustic_signature_representation_index = Bind::fv(&v[2]);
    x.radar_cross_section_signature_representation_index = Bind::fv(&v[3]);
    x.number_of_propulsion_systems = Bind::fv(&v[4]);
    x.number_of_vectoring_nozzle_systems = Bind::fv(&v[5]);
    x.propulsion_system_data = Bind::fv(&v[6]);
    x.vectoring_nozzle_system_data = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.infrared_signature_representation_index), Bind::tv(&self.acoustic_signature_representation_index), Bind::tv(&self.radar_cross_section_signature_representation_index), Bind::tv(&self.number_of_propulsion_systems), Bind::tv(&self.number_of_vectoring_nozzle_systems), Bind::tv(&self.propulsion_system_data), Bind::tv(&self.vectoring_nozzle_system_data)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.infrared_signature_representation_index = Bind::fv(&v[1]),
    2 => x.acoustic_signature_representation_index = Bind::fv(&v[2]),
    3 => x.radar_cross_section_signature_representation_index = Bind::fv(&v[3]),
    4 => x.number_of_propulsion_systems = Bind::fv(&v[4]),
    5 => x.number_of_vectoring_nozzle_systems = Bind::fv(&v[5]),
    6 => x.propulsion_system_data = Bind::fv(&v[6]),
    7 => x.vectoring_nozzle_system_data = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::radio_communications::TransmitterPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.entity_id = Bind::fv(&v[0]);
    x.radio_id = Bind::fv(&v[1]);
    x.radio_entity_type = Bind::fv(&v[2]);
    x.transmit_state = Bind::fv(&v[3]);
    x.input_source = Bind::fv(&v[4]);
    x.number_of_variable_transmitter_parameters_records = Bind::fv(&v[5]);
    x.antenna_location = Bind::fv(&v[6]);
    x.relative_antenna_location = Bind::fv(&v[7]);
    x.antenna_pattern_type = Bind::fv(&v[8]);
    x.antenna_pattern_length = Bind::fv(&v[9]);
    x.frequency = Bind::fv(&v[10]);
    x.transmit_frequency_bandwidth = Bind::fv(&v[11]);
    x.power = Bind::fv(&v[12]);
    x.modulation_type = Bind::fv(&v[13]);
    x.crypto_system = Bind::fv(&v[14]);
    x.crypto_key_id = Bind::fv(&v[15]);
    x.modulation_parameter_length = Bind::fv(&v[16]);
    x.modulation_parameters = opt_from::<dt::modulation_parameters::ModulationParameters>(&v[17]);
    x.antenna_pattern = opt_from::<dt::antenna_pattern::AntennaPattern>(&v[18]);
    x.variable_transmitter_parameters = Bind::fv(&v[19]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_id), Bind::tv(&self.radio_id), Bind::tv(&self.radio_entity_type), Bind::tv(&self.transmit_state), Bind::tv(&self.input_source), Bind::tv(&self.number_of_variable_transmitter_parameters_records), Bind::tv(&self.antenna_location), Bind::tv(&self.relative_antenna_location), Bind::tv(&self.antenna_pattern_type), Bind::tv(&self.antenna_pattern_length), Bind::tv(&self.frequency), Bind::tv(&self.transmit_frequency_bandwidth), Bind::tv(&self.power), Bind::tv(&self.modulation_type), Bind::tv(&self.crypto_system), Bind::tv(&self.crypto_key_id), Bind::tv(&self.modulation_parameter_length), opt_to(&self.modulation_parameters), opt_to(&self.antenna_pattern), Bind::tv(&self.variable_transmitter_parameters)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.entity_id = Bind::fv(&v[0]),
    1 => x.radio_id = Bind::fv(&v[1]),
    2 => x.radio_entity_type = Bind::fv(&v[2]),
    3 => x.transmit_state = Bind::fv(&v[3]),
    4 => x.input_source = Bind::fv(&v[4]),
    5 => x.number_of_variable_transmitter_parameters_records = Bind::fv(&v[5]),
    6 => x.antenna_location = Bind::fv(&v[6]),
    7 => x.relative_antenna_location = Bind::fv(&v[7]),
    8 => x.antenna_pattern_type = Bind::fv(&v[8]),
    9 => x.antenna_pattern_length = Bind::fv(&v[9]),
    10 => x.frequency = Bind::fv(&v[10]),
    11 => x.transmit_frequency_bandwidth = Bind::fv(&v[11]),
    12 => x.power = Bind::fv(&v[12]),
    13 => x.modulation_type = Bind::fv(&v[13]),
    14 => x.crypto_system = Bind::fv(&v[14]),
    15 => x.crypto_key_id = Bind::fv(&v[15]),
    16 => x.modulation_parameter_length = Bind::fv(&v[16]),
    17 => x.modulation_parameters = opt_from::<dt::modulation_parameters::ModulationParameters>(&v[17]),
    18 => x.antenna_pattern = opt_from::<dt::antenna_pattern::AntennaPattern>(&v[18]),
    19 => x.variable_transmitter_parameters = Bind::fv(&v[19]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::radio_communications::SignalPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.entity_id = Bind::fv(&v[0]);
    x.radio_id = Bind::fv(&v[1]);
    x.encoding_scheme = Bind::fv(&v[2]);
    x.tdl_type = Bind::fv(&v[3]);
    x.sample_rate = Bind::fv(&v[4]);
    x.data_length = Bind::fv(&v[5]);
    x.samples = Bind::fv(&v[6]);
    x.data = Octs::from_octs(v[7].octs());
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_id), Bind::tv(&self.radio_id), Bind::tv(&self.encoding_scheme), Bind::tv(&self.tdl_type), Bind::tv(&self.sample_rate), Bind::tv(&self.data_length), Bind::tv(&self.samples), Val::O(Octs::to_octs(&self.data))]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.entity_id = Bind::fv(&v[0]),
    1 => x.radio_id = Bind::fv(&v[1]),
    2 => x.encoding_scheme = Bind::fv(&v[2]),
    3 => x.tdl_type = Bind::fv(&v[3]),
    4 => x.sample_rate = Bind::fv(&v[4]),
    5 => x.data_length = Bind::fv(&v[5]),
    6 => x.samples = Bind::fv(&v[6]),
    7 => x.data = Octs::from_octs(v[7].octs()),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::radio_communications::ReceiverPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.entity_id = Bind::fv(&v[0]);
    x.radio_id = Bind::fv(&v[1]);
    x.receiver_state = Bind::fv(&v[2]);
    x.received_power = Bind::fv(&v[3]);
    x.transmitter_radio_reference_id = Bind::fv(&v[4]);
    x.transmitter_radio_id = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.entity_id), Bind::tv(&self.radio_id), Bind::tv(&self.receiver_state), Bind::tv(&self.received_power), Bind::tv(&self.transmitter_radio_reference_id), Bind::tv(&self.transmitter_radio_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.entity_id = Bind::fv(&v[0]),
    1 => x.radio_id = Bind::fv(&v[1]),
    2 => x.receiver_state = Bind::fv(&v[2]),
    3 => x.received_power = Bind::fv(&v[3]),
    4 => x.transmitter_radio_reference_id = Bind::fv(&v[4]),
    5 => x.transmitter_radio_id = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::radio_communications::IntercomSignalPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.intercom_reference_id = Bind::fv(&v[0]);
    x.intercom_number = Bind::fv(&v[1]);
    x.encoding_scheme = Bind::fv(&v[2]);
    x.tdl_type = Bind::fv(&v[3]);
    x.sample_rate = Bind::fv(&v[4]);
    x.data_length = Bind::fv(&v[5]);
    x.samples = Bind::fv(&v[6]);
    x.data = Octs::from_octs(v[7].octs());
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.intercom_reference_id), Bind::tv(&self.intercom_number), Bind::tv(&self.encoding_scheme), Bind::tv(&self.tdl_type), Bind::tv(&self.sample_rate), Bind::tv(&self.data_length), Bind::tv(&self.samples), Val::O(Octs::to_octs(&self.data))]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.intercom_reference_id = Bind::fv(&v[0]),
    1 => x.intercom_number = Bind::fv(&v[1]),
    2 => x.encoding_scheme = Bind::fv(&v[2]),
    3 => x.tdl_type = Bind::fv(&v[3]),
    4 => x.sample_rate = Bind::fv(&v[4]),
    5 => x.data_length = Bind::fv(&v[5]),
    6 => x.samples = Bind::fv(&v[6]),
    7 => x.data = Octs::from_octs(v[7].octs()),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::radio_communications::IntercomControlPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.control_type = Bind::fv(&v[0]);
    x.communications_channel_type = Bind::fv(&v[1]);
    x.source_intercom_reference_id = Bind::fv(&v[2]);
    x.source_intercom_number = Bind::fv(&v[3]);
    x.source_line_id = Bind::fv(&v[4]);
    x.transmit_priority = Bind::fv(&v[5]);
    x.transmit_line_state = Bind::fv(&v[6]);
    x.command = Bind::fv(&v[7]);
    x.master_intercom_reference_id = Bind::fv(&v[8]);
    x.master_intercom_number = Bind::fv(&v[9]);
    x.master_channel_id = Bind::fv(&v[10]);
    x.intercom_parameters_length = Bind::fv(&v[11]);
    x.intercom_parameters = Bind::fv(&v[12]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.control_type), Bind::tv(&self.communications_channel_type), Bind::tv(&self.source_intercom_reference_id), Bind::tv(&self.source_intercom_number), Bind::tv(&self.source_line_id), Bind::tv(&self.transmit_priority), Bind::tv(&self.transmit_line_state), Bind::tv(&self.command), Bind::tv(&self.master_intercom_reference_id), Bind::tv(&self.master_intercom_number), Bind::tv(&self.master_channel_id), Bind::tv(&self.intercom_parameters_length), Bind::tv(&self.intercom_parameters)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.control_type = Bind::fv(&v[0]),
    1 => x.communications_channel_type = Bind::fv(&v[1]),
    2 => x.source_intercom_reference_id = Bind::fv(&v[2]),
    3 => x.source_intercom_number = Bind::fv(&v[3]),
    4 => x.source_line_id = Bind::fv(&v[4]),
    5 => x.transmit_priority = Bind::fv(&v[5]),
    6 => x.transmit_line_state = Bind::fv(&v[6]),
    7 => x.command = Bind::fv(&v[7]),
    8 => x.master_intercom_reference_id = Bind::fv(&v[8]),
    9 => x.master_intercom_number = Bind::fv(&v[9]),
    10 => x.master_channel_id = Bind::fv(&v[10]),
    11 => x.intercom_parameters_length = Bind::fv(&v[11]),
    12 => x.intercom_parameters = Bind::fv(&v[12]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_management::AggregateStatePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.aggregate_id = Bind::fv(&v[0]);
    x.force_id = Bind::fv(&v[1]);
    x.aggregate_state = Bind::fv(&v[2]);
    x.aggregate_type = Bind::fv(&v[3]);
    x.formation = Bind::fv(&v[4]);
    x.aggregate_marking = Bind::fv(&v[5]);
    x.dimensions = Bind::fv(&v[6]);
    x.orientation = Bind::fv(&v[7]);
    x.center_of_mass = Bind::fv(&v[8]);
    x.velocity = Bind::fv(&v[9]);
    x.number_of_dis_aggregates = Bind::fv(&v[10]);
    x.number_of_dis_entities = Bind::fv(&v[11]);
    x.number_of_silent_aggregate_types = Bind::fv(&v[12]);
    x.number_of_silent_entity_types = Bind::fv(&v[13]);
    x.aggregate_id_list = Bind::fv(&v[14]);
    x.entity_id_list = Bind::fv(&v[15]);
    x.silent_aggregate_system_list = Bind::fv(&v[16]);
    x.silent_entity_system_list = Bind::fv(&v[17]);
    x.number_of_variable_datum_records = Bind::fv(&v[18]);
    x.variable_datum_list = Bind::fv(&v[19]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.aggregate_id), Bind::tv(&self.force_id), Bind::tv(&self.aggregate_state), Bind::tv(&self.aggregate_type), Bind::tv(&self.formation), Bind::tv(&self.aggregate_marking), Bind::tv(&self.dimensions), Bind::tv(&self.orientation), Bind::tv(&self.center_of_mass), Bind::tv(&self.velocity), Bind::tv(&self.number_of_dis_aggregates), Bind::tv(&self.number_of_dis_entities), Bind::tv(&self.number_of_silent_aggregate_types), Bind::tv(&self.number_of_silent_entity_types), Bind::tv(&self.aggregate_id_list), Bind::tv(&self.entity_id_list), Bind::tv(&self.silent_aggregate_system_list), Bind::tv(&self.silent_entity_system_list), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.variable_datum_list)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.aggregate_id = Bind::fv(&v[0]),
    1 => x.force_id = Bind::fv(&v[1]),
    2 => x.aggregate_state = Bind::fv(&v[2]),
    3 => x.aggregate_type = Bind::fv(&v[3]),
    4 => x.formation = Bind::fv(&v[4]),
    5 => x.aggregate_marking = Bind::fv(&v[5]),
    6 => x.dimensions = Bind::fv(&v[6]),
    7 => x.orientation = Bind::fv(&v[7]),
    8 => x.center_of_mass = Bind::fv(&v[8]),
    9 => x.velocity = Bind::fv(&v[9]),
    10 => x.number_of_dis_aggregates = Bind::fv(&v[10]),
    11 => x.number_of_dis_entities = Bind::fv(&v[11]),
    12 => x.number_of_silent_aggregate_types = Bind::fv(&v[12]),
    13 => x.number_of_silent_entity_types = Bind::fv(&v[13]),
    14 => x.aggregate_id_list = Bind::fv(&v[14]),
    15 => x.entity_id_list = Bind::fv(&v[15]),
    16 => x.silent_aggregate_system_list = Bind::fv(&v[16]),
    17 => x.silent_entity_system_list = Bind::fv(&v[17]),
    18 => x.number_of_variable_datum_records = Bind::fv(&v[18]),
    19 => x.variable_datum_list = Bind::fv(&v[19]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_management::IsGroupOfPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.group_entity_id = Bind::fv(&v[0]);
    x.grouped_entity_category = Bind::fv(&v[1]);
    x.number_of_grouped_entities = Bind::fv(&v[2]);
    x.latitude = Bind::fv(&v[3]);
    x.longitude = Bind::fv(&v[4]);
    x.grouped_entity_descriptions = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.group_entity_id), Bind::tv(&self.grouped_entity_category), Bind::tv(&self.number_of_grouped_entities), Bind::tv(&self.latitude), Bind::tv(&self.longitude), Bind::tv(&self.grouped_entity_descriptions)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.group_entity_id = Bind::fv(&v[0]),
    1 => x.grouped_entity_category = Bind::fv(&v[1]),
    2 => x.number_of_grouped_entities = Bind::fv(&v[2]),
    3 => x.latitude = Bind::fv(&v[3]),
    4 => x.longitude = Bind::fv(&v[4]),
    5 => x.grouped_entity_descriptions = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_management::TransferOwnershipPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_id = Bind::fv(&v[0]);
    x.receiving_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.required_reliability_service = Bind::fv(&v[3]);
    x.transfer_type = Bind::fv(&v[4]);
    x.transfer_entity_id = Bind::fv(&v[5]);
    x.record_information = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_id), Bind::tv(&self.receiving_id), Bind::tv(&self.request_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.transfer_type), Bind::tv(&self.transfer_entity_id), Bind::tv(&self.record_information)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_id = Bind::fv(&v[0]),
    1 => x.receiving_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.required_reliability_service = Bind::fv(&v[3]),
    4 => x.transfer_type = Bind::fv(&v[4]),
    5 => x.transfer_entity_id = Bind::fv(&v[5]),
    6 => x.record_information = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::entity_management::IsPartOfPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.relationship = Bind::fv(&v[2]);
    x.part_location = Bind::fv(&v[3]);
    x.named_location_id = Bind::fv(&v[4]);
    x.part_entity_type = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.relationship), Bind::tv(&self.part_location), Bind::tv(&self.named_location_id), Bind::tv(&self.part_entity_type)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.relationship = Bind::fv(&v[2]),
    3 => x.part_location = Bind::fv(&v[3]),
    4 => x.named_location_id = Bind::fv(&v[4]),
    5 => x.part_entity_type = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::minefield::MinefieldStatePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.minefield_id = Bind::fv(&v[0]);
    x.minefield_sequence = Bind::fv(&v[1]);
    x.force_id = Bind::fv(&v[2]);
    x.number_of_perimeter_points = Bind::fv(&v[3]);
    x.minefield_type = Bind::fv(&v[4]);
    x.number_of_mine_types = Bind::fv(&v[5]);
    x.minefield_location = Bind::fv(&v[6]);
    x.minefield_orientation = Bind::fv(&v[7]);
    x.appearance = Bind::fv(&v[8]);
    x.protocol_mode = Bind::fv(&v[9]);
    x.perimeter_points = Bind::fv(&v[10]);
    x.mine_type = Bind::fv(&v[11]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.minefield_id), Bind::tv(&self.minefield_sequence), Bind::tv(&self.force_id), Bind::tv(&self.number_of_perimeter_points), Bind::tv(&self.minefield_type), Bind::tv(&self.number_of_mine_types), Bind::tv(&self.minefield_location), Bind::tv(&self.minefield_orientation), Bind::tv(&self.appearance), Bind::tv(&self.protocol_mode), Bind::tv(&self.perimeter_points), Bind::tv(&self.mine_type)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.minefield_id = Bind::fv(&v[0]),
    1 => x.minefield_sequence = Bind::fv(&v[1]),
    2 => x.force_id = Bind::fv(&v[2]),
    3 => x.number_of_perimeter_points = Bind::fv(&v[3]),
    4 => x.minefield_type = Bind::fv(&v[4]),
    5 => x.number_of_mine_types = Bind::fv(&v[5]),
    6 => x.minefield_location = Bind::fv(&v[6]),
    7 => x.minefield_orientation = Bind::fv(&v[7]),
    8 => x.appearance = Bind::fv(&v[8]),
    9 => x.protocol_mode = Bind::fv(&v[9]),
    10 => x.perimeter_points = Bind::fv(&v[10]),
    11 => x.mine_type = Bind::fv(&v[11]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::minefield::MinefieldQueryPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.minefield_id = Bind::fv(&v[0]);
    x.requesting_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.number_of_perimeter_points = Bind::fv(&v[3]);
    x.number_of_sensor_types = Bind::fv(&v[4]);
    x.data_filter = Bind::fv(&v[5]);
    x.requested_mine_type = Bind::fv(&v[6]);
    x.requested_perimeter_points = Bind::fv(&v[7]);
    x.sensor_types = Bind::fv(&v[8]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.minefield_id), Bind::tv(&self.requesting_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.number_of_perimeter_points), Bind::tv(&self.number_of_sensor_types), Bind::tv(&self.data_filter), Bind::tv(&self.requested_mine_type), Bind::tv(&self.requested_perimeter_points), Bind::tv(&self.sensor_types)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.minefield_id = Bind::fv(&v[0]),
    1 => x.requesting_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.number_of_perimeter_points = Bind::fv(&v[3]),
    4 => x.number_of_sensor_types = Bind::fv(&v[4]),
    5 => x.data_filter = Bind::fv(&v[5]),
    6 => x.requested_mine_type = Bind::fv(&v[6]),
    7 => x.requested_perimeter_points = Bind::fv(&v[7]),
    8 => x.sensor_types = Bind::fv(&v[8]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::minefield::MinefieldDataPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.minefield_id = Bind::fv(&v[0]);
    x.requesting_entity_id = Bind::fv(&v[1]);
    x.minefield_sequence_number = Bind::fv(&v[2]);
    x.request_id = Bind::fv(&v[3]);
    x.pdu_sequence_number = Bind::fv(&v[4]);
    x.number_of_pdus = Bind::fv(&v[5]);
    x.number_of_mines_in_this_pdu = Bind::fv(&v[6]);
    x.number_of_sensor_types = Bind::fv(&v[7]);
    x.data_filter = Bind::fv(&v[8]);
    x.mine_type = Bind::fv(&v[9]);
    x.sensor_types = Bind::fv(&v[10]);
    x.mine_location = Bind::fv(&v[11]);
    x.ground_burial_depth_offset = Bind::fv(&v[12]);
    x.water_burial_depth_offset = Bind::fv(&v[13]);
    x.snow_burial_depth_offset = Bind::fv(&v[14]);
    x.mine_orientation = Bind::fv(&v[15]);
    x.thermal_contrast = Bind::fv(&v[16]);
    x.reflectance = Bind::fv(&v[17]);
    x.mine_emplacement_time = Bind::fv(&v[18]);
    x.mine_entity_id = Bind::fv(&v[19]);
    x.fusing = Bind::fv(&v[20]);
    x.scalar_detection_coefficient = Bind::fv(&v[21]);
    x.paint_scheme = Bind::fv(&v[22]);
    x.number_of_trip_wires = Bind::fv(&v[23]);
    x.number_of_vertices = Bind::fv(&v[24]);
    x.vertices = Bind::fv(&v[25]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.minefield_id), Bind::tv(&self.requesting_entity_id), Bind::tv(&self.minefield_sequence_number), Bind::tv(&self.request_id), Bind::tv(&self.pdu_sequence_number), Bind::tv(&self.number_of_pdus), Bind::tv(&self.number_of_mines_in_this_pdu), Bind::tv(&self.number_of_sensor_types), Bind::tv(&self.data_filter), Bind::tv(&self.mine_type), Bind::tv(&self.sensor_types), Bind::tv(&self.mine_location), Bind::tv(&self.ground_burial_depth_offset), Bind::tv(&self.water_burial_depth_offset), Bind::tv(&self.snow_burial_depth_offset), Bind::tv(&self.mine_orientation), Bind::tv(&self.thermal_contrast), Bind::tv(&self.reflectance), Bind::tv(&self.mine_emplacement_time), Bind::tv(&self.mine_entity_id), Bind::tv(&self.fusing), Bind::tv(&self.scalar_detection_coefficient), Bind::tv(&self.paint_scheme), Bind::tv(&self.number_of_trip_wires), Bind::tv(&self.number_of_vertices), Bind::tv(&self.vertices)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.minefield_id = Bind::fv(&v[0]),
    1 => x.requesting_entity_id = Bind::fv(&v[1]),
    2 => x.minefield_sequence_number = Bind::fv(&v[2]),
    3 => x.request_id = Bind::fv(&v[3]),
    4 => x.pdu_sequence_number = Bind::fv(&v[4]),
    5 => x.number_of_pdus = Bind::fv(&v[5]),
    6 => x.number_of_mines_in_this_pdu = Bind::fv(&v[6]),
    7 => x.number_of_sensor_types = Bind::fv(&v[7]),
    8 => x.data_filter = Bind::fv(&v[8]),
    9 => x.mine_type = Bind::fv(&v[9]),
    10 => x.sensor_types = Bind::fv(&v[10]),
    11 => x.mine_location = Bind::fv(&v[11]),
    12 => x.ground_burial_depth_offset = Bind::fv(&v[12]),
    13 => x.water_burial_depth_offset = Bind::fv(&v[13]),
    14 => x.snow_burial_depth_offset = Bind::fv(&v[14]),
    15 => x.mine_orientation = Bind::fv(&v[15]),
    16 => x.thermal_contrast = Bind::fv(&v[16]),
    17 => x.reflectance = Bind::fv(&v[17]),
    18 => x.mine_emplacement_time = Bind::fv(&v[18]),
    19 => x.mine_entity_id = Bind::fv(&v[19]),
    20 => x.fusing = Bind::fv(&v[20]),
    21 => x.scalar_detection_coefficient = Bind::fv(&v[21]),
    22 => x.paint_scheme = Bind::fv(&v[22]),
    23 => x.number_of_trip_wires = Bind::fv(&v[23]),
    24 => x.number_of_vertices = Bind::fv(&v[24]),
    25 => x.vertices = Bind::fv(&v[25]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::minefield::MinefieldResponseNackPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.minefield_id = Bind::fv(&v[0]);
    x.requesting_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.number_of_missing_pdus = Bind::fv(&v[3]);
    x.missing_pdu_sequence_numbers = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.minefield_id), Bind::tv(&self.requesting_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.number_of_missing_pdus), Bind::tv(&self.missing_pdu_sequence_numbers)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.minefield_id = Bind::fv(&v[0]),
    1 => x.requesting_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.number_of_missing_pdus = Bind::fv(&v[3]),
    4 => x.missing_pdu_sequence_numbers = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::synthetic_environment::EnvironmentalProcessPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.environmental_process_id = Bind::fv(&v[0]);
    x.environment_type = Bind::fv(&v[1]);
    x.model_type = Bind::fv(&v[2]);
    x.environment_status = Bind::fv(&v[3]);
    x.number_of_environment_records = Bind::fv(&v[4]);
    x.sequence_number = Bind::fv(&v[5]);
    x.environment_records = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.environmental_process_id), Bind::tv(&self.environment_type), Bind::tv(&self.model_type), Bind::tv(&self.environment_status), Bind::tv(&self.number_of_environment_records), Bind::tv(&self.sequence_number), Bind::tv(&self.environment_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.environmental_process_id = Bind::fv(&v[0]),
    1 => x.environment_type = Bind::fv(&v[1]),
    2 => x.model_type = Bind::fv(&v[2]),
    3 => x.environment_status = Bind::fv(&v[3]),
    4 => x.number_of_environment_records = Bind::fv(&v[4]),
    5 => x.sequence_number = Bind::fv(&v[5]),
    6 => x.environment_records = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::synthetic_environment::GriddedDataPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.environmental_simulation_id = Bind::fv(&v[0]);
    x.field_number = Bind::fv(&v[1]);
    x.pdu_number = Bind::fv(&v[2]);
    x.pdu_total = Bind::fv(&v[3]);
    x.coordinate_system = Bind::fv(&v[4]);
    x.number_of_grid_axes = Bind::fv(&v[5]);
    x.constant_grid = Bind::fv(&v[6]);
    x.environment_type = Bind::fv(&v[7]);
    x.orientation = Bind::fv(&v[8]);
    x.sample_time = Bind::fv(&v[9]);
    x.total_values = Bind::fv(&v[10]);
    x.vector_dimension = Bind::fv(&v[11]);
    x.grid_axis_descriptors = Bind::fv(&v[12]);
    x.grid_data_list = Bind::fv(&v[13]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.environmental_simulation_id), Bind::tv(&self.field_number), Bind::tv(&self.pdu_number), Bind::tv(&self.pdu_total), Bind::tv(&self.coordinate_system), Bind::tv(&self.number_of_grid_axes), Bind::tv(&self.constant_grid), Bind::tv(&self.environment_type), Bind::tv(&self.orientation), Bind::tv(&self.sample_time), Bind::tv(&self.total_values), Bind::tv(&self.vector_dimension), Bind::tv(&self.grid_axis_descriptors), Bind::tv(&self.grid_data_list)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.environmental_simulation_id = Bind::fv(&v[0]),
    1 => x.field_number = Bind::fv(&v[1]),
    2 => x.pdu_number = Bind::fv(&v[2]),
    3 => x.pdu_total = Bind::fv(&v[3]),
    4 => x.coordinate_system = Bind::fv(&v[4]),
    5 => x.number_of_grid_axes = Bind::fv(&v[5]),
    6 => x.constant_grid = Bind::fv(&v[6]),
    7 => x.environment_type = Bind::fv(&v[7]),
    8 => x.orientation = Bind::fv(&v[8]),
    9 => x.sample_time = Bind::fv(&v[9]),
    10 => x.total_values = Bind::fv(&v[10]),
    11 => x.vector_dimension = Bind::fv(&v[11]),
    12 => x.grid_axis_descriptors = Bind::fv(&v[12]),
    13 => x.grid_data_list = Bind::fv(&v[13]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::synthetic_environment::PointObjectStatePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.object_id = Bind::fv(&v[0]);
    x.referenced_object_id = Bind::fv(&v[1]);
    x.update_number = Bind::fv(&v[2]);
    x.force_id = Bind::fv(&v[3]);
    x.modifications = Bind::fv(&v[4]);
    x.object_type = Bind::fv(&v[5]);
    x.object_location = Bind::fv(&v[6]);
    x.object_orientation = Bind::fv(&v[7]);
    x.specific_object_appearance = Bind::fv(&v[8]);
    x.general_object_appearance = Bind::fv(&v[9]);
    x.requester_id = Bind::fv(&v[10]);
    x.receiving_id = Bind::fv(&v[11]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.object_id), Bind::tv(&self.referenced_object_id), Bind::tv(&self.update_number), Bind::tv(&self.force_id), Bind::tv(&self.modifications), Bind::tv(&self.object_type), Bind::tv(&self.object_location), Bind::tv(&self.object_orientation), Bind::tv(&self.specific_object_appearance), Bind::tv(&self.general_object_appearance), Bind::tv(&self.requester_id), Bind::tv(&self.receiving_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.object_id = Bind::fv(&v[0]),
    1 => x.referenced_object_id = Bind::fv(&v[1]),
    2 => x.update_number = Bind::fv(&v[2]),
    3 => x.force_id = Bind::fv(&v[3]),
    4 => x.modifications = Bind::fv(&v[4]),
    5 => x.object_type = Bind::fv(&v[5]),
    6 => x.object_location = Bind::fv(&v[6]),
    7 => x.object_orientation = Bind::fv(&v[7]),
    8 => x.specific_object_appearance = Bind::fv(&v[8]),
    9 => x.general_object_appearance = Bind::fv(&v[9]),
    10 => x.requester_id = Bind::fv(&v[10]),
    11 => x.receiving_id = Bind::fv(&v[11]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::synthetic_environment::LinearObjectStatePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.object_id = Bind::fv(&v[0]);
    x.referenced_object_id = Bind::fv(&v[1]);
    x.update_number = Bind::fv(&v[2]);
    x.force_id = Bind::fv(&v[3]);
    x.number_of_segments = Bind::fv(&v[4]);
    x.requester_id = Bind::fv(&v[5]);
    x.receiving_id = Bind::fv(&v[6]);
    x.object_type = Bind::fv(&v[7]);
    x.linear_segment_parameters = Bind::fv(&v[8]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.object_id), Bind::tv(&self.referenced_object_id), Bind::tv(&self.update_number), Bind::tv(&self.force_id), Bind::tv(&self.number_of_segments), Bind::tv(&self.requester_id), Bind::tv(&self.receiving_id), Bind::tv(&self.object_type), Bind::tv(&self.linear_segment_parameters)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.object_id = Bind::fv(&v[0]),
    1 => x.referenced_object_id = Bind::fv(&v[1]),
    2 => x.update_number = Bind::fv(&v[2]),
    3 => x.force_id = Bind::fv(&v[3]),
    4 => x.number_of_segments = Bind::fv(&v[4]),
    5 => x.requester_id = Bind::fv(&v[5]),
    6 => x.receiving_id = Bind::fv(&v[6]),
    7 => x.object_type = Bind::fv(&v[7]),
    8 => x.linear_segment_parameters = Bind::fv(&v[8]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::synthetic_environment::ArealObjectStatePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.object_id = Bind::fv(&v[0]);
    x.referenced_object_id = Bind::fv(&v[1]);
    x.update_number = Bind::fv(&v[2]);
    x.force_id = Bind::fv(&v[3]);
    x.modifications = Bind::fv(&v[4]);
    x.object_type = Bind::fv(&v[5]);
    x.specific_object_appearance = Bind::fv(&v[6]);
    x.general_object_appearance = Bind::fv(&v[7]);
    x.number_of_points = Bind::fv(&v[8]);
    x.requester_id = Bind::fv(&v[9]);
    x.receiving_id = Bind::fv(&v[10]);
    x.object_location = Bind::fv(&v[11]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.object_id), Bind::tv(&self.referenced_object_id), Bind::tv(&self.update_number), Bind::tv(&self.force_id), Bind::tv(&self.modifications), Bind::tv(&self.object_type), Bind::tv(&self.specific_object_appearance), Bind::tv(&self.general_object_appearance), Bind::tv(&self.number_of_points), Bind::tv(&self.requester_id), Bind::tv(&self.receiving_id), Bind::tv(&self.object_location)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.object_id = Bind::fv(&v[0]),
    1 => x.referenced_object_id = Bind::fv(&v[1]),
    2 => x.update_number = Bind::fv(&v[2]),
    3 => x.force_id = Bind::fv(&v[3]),
    4 => x.modifications = Bind::fv(&v[4]),
    5 => x.object_type = Bind::fv(&v[5]),
    6 => x.specific_object_appearance = Bind::fv(&v[6]),
    7 => x.general_object_appearance = Bind::fv(&v[7]),
    8 => x.number_of_points = Bind::fv(&v[8]),
    9 => x.requester_id = Bind::fv(&v[9]),
    10 => x.receiving_id = Bind::fv(&v[10]),
    11 => x.object_location = Bind::fv(&v[11]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::CreateEntityReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.required_reliability_service = Bind::fv(&v[2]);
    x.request_id = Bind::fv(&v[3]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.required_reliability_service = Bind::fv(&v[2]),
    3 => x.request_id = Bind::fv(&v[3]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::RemoveEntityReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.required_reliability_service = Bind::fv(&v[2]);
    x.request_id = Bind::fv(&v[3]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.required_reliability_service = Bind::fv(&v[2]),
    3 => x.request_id = Bind::fv(&v[3]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::StartResumeReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.real_world_time = Bind::fv(&v[2]);
    x.simulation_time = Bind::fv(&v[3]);
    x.required_reliability_service = Bind::fv(&v[4]);
    x.request_id = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.real_world_time), Bind::tv(&self.simulation_time), Bind::tv(&self.required_reliability_service), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.real_world_time = Bind::fv(&v[2]),
    3 => x.simulation_time = Bind::fv(&v[3]),
    4 => x.required_reliability_service = Bind::fv(&v[4]),
    5 => x.request_id = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::StopFreezeReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.real_world_time = Bind::fv(&v[2]);
    x.reason = Bind::fv(&v[3]);
    x.frozen_behavior = Bind::fv(&v[4]);
    x.required_reliability_service = Bind::fv(&v[5]);
    x.request_id = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.real_world_time), Bind::tv(&self.reason), Bind::tv(&self.frozen_behavior), Bind::tv(&self.required_reliability_service), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.real_world_time = Bind::fv(&v[2]),
    3 => x.reason = Bind::fv(&v[3]),
    4 => x.frozen_behavior = Bind::fv(&v[4]),
    5 => x.required_reliability_service = Bind::fv(&v[5]),
    6 => x.request_id = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::AcknowledgeReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.acknowledge_flag = Bind::fv(&v[2]);
    x.response_flag = Bind::fv(&v[3]);
    x.request_id = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.acknowledge_flag), Bind::tv(&self.response_flag), Bind::tv(&self.request_id)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.acknowledge_flag = Bind::fv(&v[2]),
    3 => x.response_flag = Bind::fv(&v[3]),
    4 => x.request_id = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::ActionRequestReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.required_reliability_service = Bind::fv(&v[2]);
    x.request_id = Bind::fv(&v[3]);
    x.action_id = Bind::fv(&v[4]);
    x.number_of_fixed_datum_records = Bind::fv(&v[5]);
    x.number_of_variable_datum_records = Bind::fv(&v[6]);
    x.fixed_datum_records = Bind::fv(&v[7]);
    x.variable_datum_records = Bind::fv(&v[8]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.request_id), Bind::tv(&self.action_id), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.required_reliability_service = Bind::fv(&v[2]),
    3 => x.request_id = Bind::fv(&v[3]),
    4 => x.action_id = Bind::fv(&v[4]),
    5 => x.number_of_fixed_datum_records = Bind::fv(&v[5]),
    6 => x.number_of_variable_datum_records = Bind::fv(&v[6]),
    7 => x.fixed_datum_records = Bind::fv(&v[7]),
    8 => x.variable_datum_records = Bind::fv(&v[8]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::ActionResponseReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.request_status = Bind::fv(&v[3]);
    x.number_of_fixed_datum_records = Bind::fv(&v[4]);
    x.number_of_variable_datum_records = Bind::fv(&v[5]);
    x.fixed_datum_records = Bind::fv(&v[6]);
    x.variable_datum_records = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.request_status), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.request_status = Bind::fv(&v[3]),
    4 => x.number_of_fixed_datum_records = Bind::fv(&v[4]),
    5 => x.number_of_variable_datum_records = Bind::fv(&v[5]),
    6 => x.fixed_datum_records = Bind::fv(&v[6]),
    7 => x.variable_datum_records = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::DataQueryReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.required_reliability_service = Bind::fv(&v[2]);
    x.request_id = Bind::fv(&v[3]);
    x.time_interval = Bind::fv(&v[4]);
    x.number_of_fixed_datum_records = Bind::fv(&v[5]);
    x.number_of_variable_datum_records = Bind::fv(&v[6]);
    x.fixed_datum_ids = Bind::fv(&v[7]);
    x.variable_datum_ids = Bind::fv(&v[8]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.request_id), Bind::tv(&self.time_interval), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_ids), Bind::tv(&self.variable_datum_ids)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.required_reliability_service = Bind::fv(&v[2]),
    3 => x.request_id = Bind::fv(&v[3]),
    4 => x.time_interval = Bind::fv(&v[4]),
    5 => x.number_of_fixed_datum_records = Bind::fv(&v[5]),
    6 => x.number_of_variable_datum_records = Bind::fv(&v[6]),
    7 => x.fixed_datum_ids = Bind::fv(&v[7]),
    8 => x.variable_datum_ids = Bind::fv(&v[8]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::SetDataReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.required_reliability_service = Bind::fv(&v[2]);
    x.request_id = Bind::fv(&v[3]);
    x.number_of_fixed_datum_records = Bind::fv(&v[4]);
    x.number_of_variable_datum_records = Bind::fv(&v[5]);
    x.fixed_datum_records = Bind::fv(&v[6]);
    x.variable_datum_records = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.request_id), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.required_reliability_service = Bind::fv(&v[2]),
    3 => x.request_id = Bind::fv(&v[3]),
    4 => x.number_of_fixed_datum_records = Bind::fv(&v[4]),
    5 => x.number_of_variable_datum_records = Bind::fv(&v[5]),
    6 => x.fixed_datum_records = Bind::fv(&v[6]),
    7 => x.variable_datum_records = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::DataReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.required_reliability_service = Bind::fv(&v[3]);
    x.number_of_fixed_datum_records = Bind::fv(&v[4]);
    x.number_of_variable_datum_records = Bind::fv(&v[5]);
    x.fixed_datum_records = Bind::fv(&v[6]);
    x.variable_datum_records = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.required_reliability_service = Bind::fv(&v[3]),
    4 => x.number_of_fixed_datum_records = Bind::fv(&v[4]),
    5 => x.number_of_variable_datum_records = Bind::fv(&v[5]),
    6 => x.fixed_datum_records = Bind::fv(&v[6]),
    7 => x.variable_datum_records = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::EventReportReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.event_type = Bind::fv(&v[2]);
    x.number_of_fixed_datum_records = Bind::fv(&v[3]);
    x.number_of_variable_datum_records = Bind::fv(&v[4]);
    x.fixed_datum_records = Bind::fv(&v[5]);
    x.variable_datum_records = Bind::fv(&v[6]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.event_type), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.event_type = Bind::fv(&v[2]),
    3 => x.number_of_fixed_datum_records = Bind::fv(&v[3]),
    4 => x.number_of_variable_datum_records = Bind::fv(&v[4]),
    5 => x.fixed_datum_records = Bind::fv(&v[5]),
    6 => x.variable_datum_records = Bind::fv(&v[6]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::CommentReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.number_of_fixed_datum_records = Bind::fv(&v[2]);
    x.number_of_variable_datum_records = Bind::fv(&v[3]);
    x.fixed_datum_records = Bind::fv(&v[4]);
    x.variable_datum_records = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.number_of_fixed_datum_records), Bind::tv(&self.number_of_variable_datum_records), Bind::tv(&self.fixed_datum_records), Bind::tv(&self.variable_datum_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.number_of_fixed_datum_records = Bind::fv(&v[2]),
    3 => x.number_of_variable_datum_records = Bind::fv(&v[3]),
    4 => x.fixed_datum_records = Bind::fv(&v[4]),
    5 => x.variable_datum_records = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::RecordQueryReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.required_reliability_service = Bind::fv(&v[3]);
    x.event_type = Bind::fv(&v[4]);
    x.time = Bind::fv(&v[5]);
    x.number_of_records = Bind::fv(&v[6]);
    x.record_ids = Bind::fv(&v[7]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.event_type), Bind::tv(&self.time), Bind::tv(&self.number_of_records), Bind::tv(&self.record_ids)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.required_reliability_service = Bind::fv(&v[3]),
    4 => x.event_type = Bind::fv(&v[4]),
    5 => x.time = Bind::fv(&v[5]),
    6 => x.number_of_records = Bind::fv(&v[6]),
    7 => x.record_ids = Bind::fv(&v[7]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::simulation_management_with_reliability::SetRecordReliablePdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_entity_id = Bind::fv(&v[0]);
    x.receiving_entity_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.required_reliability_service = Bind::fv(&v[3]);
    x.record_sets = Bind::fv(&v[4]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_entity_id), Bind::tv(&self.receiving_entity_id), Bind::tv(&self.request_id), Bind::tv(&self.required_reliability_service), Bind::tv(&self.record_sets)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_entity_id = Bind::fv(&v[0]),
    1 => x.receiving_entity_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.required_reliability_service = Bind::fv(&v[3]),
    4 => x.record_sets = Bind::fv(&v[4]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::information_operations::InformationOperationsReportPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_simulation_id = Bind::fv(&v[0]);
    x.io_simulation_source = Bind::fv(&v[1]);
    x.io_report_type = Bind::fv(&v[2]);
    x.io_attacker_entity_id = Bind::fv(&v[3]);
    x.primary_target_entity_id = Bind::fv(&v[4]);
    x.io_records = Bind::fv(&v[5]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_simulation_id), Bind::tv(&self.io_simulation_source), Bind::tv(&self.io_report_type), Bind::tv(&self.io_attacker_entity_id), Bind::tv(&self.primary_target_entity_id), Bind::tv(&self.io_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_simulation_id = Bind::fv(&v[0]),
    1 => x.io_simulation_source = Bind::fv(&v[1]),
    2 => x.io_report_type = Bind::fv(&v[2]),
    3 => x.io_attacker_entity_id = Bind::fv(&v[3]),
    4 => x.primary_target_entity_id = Bind::fv(&v[4]),
    5 => x.io_records = Bind::fv(&v[5]),
    _ => panic!("no such field") } }
}
impl Body for open_dis_rust::information_operations::InformationOperationsActionPdu {
  fn set_body(&mut self, v: &Val) { let v = v.tup(); let x = self;
    x.originating_simulation_id = Bind::fv(&v[0]);
    x.receiving_simulation_id = Bind::fv(&v[1]);
    x.request_id = Bind::fv(&v[2]);
    x.io_warfare_type = Bind::fv(&v[3]);
    x.io_simulation_source = Bind::fv(&v[4]);
    x.io_action_type = Bind::fv(&v[5]);
    x.io_action_phase = Bind::fv(&v[6]);
    x.io_attacker_entity_id = Bind::fv(&v[7]);
    x.io_primary_target_entity_id = Bind::fv(&v[8]);
    x.io_records = Bind::fv(&v[9]);
  }
  fn body(&self) -> Val { Val::T(vec![Bind::tv(&self.originating_simulation_id), Bind::tv(&self.receiving_simulation_id), Bind::tv(&self.request_id), Bind::tv(&self.io_warfare_type), Bind::tv(&self.io_simulation_source), Bind::tv(&self.io_action_type), Bind::tv(&self.io_action_phase), Bind::tv(&self.io_attacker_entity_id), Bind::tv(&self.io_primary_target_entity_id), Bind::tv(&self.io_records)]) }
  fn set_field(&mut self, i: usize, f: &Val) { let x = self; let v: Vec<Val> = vec![Val::O(vec![]); i].into_iter().chain(std::iter::once(f.clone())).collect(); match i {
    0 => x.originating_simulation_id = Bind::fv(&v[0]),
    1 => x.receiving_simulation_id = Bind::fv(&v[1]),
    2 => x.request_id = Bind::fv(&v[2]),
    3 => x.io_warfare_type = Bind::fv(&v[3]),
    4 => x.io_simulation_source = Bind::fv(&v[4]),
    5 => x.io_action_type = Bind::fv(&v[5]),
    6 => x.io_action_phase = Bind::fv(&v[6]),
    7 => x.io_attacker_entity_id = Bind::fv(&v[7]),
    8 => x.io_primary_target_entity_id = Bind::fv(&v[8]),
    9 => x.io_records = Bind::fv(&v[9]),
    _ => panic!("no such field") } }
}
pub fn pdu_table() -> Vec<PduEntry> { vec![
  pdu_entry!("EntityStatePdu", open_dis_rust::entity_information::EntityStatePdu),
  pdu_entry!("CollisionPdu", open_dis_rust::entity_information::CollisionPdu),
  pdu_entry!("CollisionElasticPdu", open_dis_rust::entity_information::CollisionElasticPdu),
  pdu_entry!("EntityStateUpdatePdu", open_dis_rust::entity_information::EntityStateUpdatePdu),
  pdu_entry!("AttributePdu", open_dis_rust::entity_information::AttributePdu),
  pdu_entry!("FirePdu", open_dis_rust::warfare::FirePdu),
  pdu_entry!("DetonationPdu", open_dis_rust::warfare::DetonationPdu),
  pdu_entry!("DirectedEnergyFirePdu", open_dis_rust::warfare::DirectedEnergyFirePdu),
  pdu_entry!("EntityDamageStatusPdu", open_dis_rust::warfare::EntityDamageStatusPdu),
  pdu_entry!("ServiceRequestPdu", open_dis_rust::logistics::ServiceRequestPdu),
  pdu_entry!("ResupplyOfferPdu", open_dis_rust::logistics::ResupplyOfferPdu),
  pdu_entry!("ResupplyReceivedPdu", open_dis_rust::logistics::ResupplyReceivedPdu),
  pdu_entry!("ResupplyCancelPdu", open_dis_rust::logistics::ResupplyCancelPdu),
  pdu_entry!("RepairCompletePdu", open_dis_rust::logistics::RepairCompletePdu),
  pdu_entry!("RepairResponsePdu", open_dis_rust::logistics::RepairResponsePdu),
  pdu_entry!("CreateEntityPdu", open_dis_rust::simulation_management::CreateEntityPdu),
  pdu_entry!("RemoveEntityPdu", open_dis_rust::simulation_management::RemoveEntityPdu),
  pdu_entry!("StartResumePdu", open_dis_rust::simulation_management::StartResumePdu),
  pdu_entry!("StopFreezePdu", open_dis_rust::simulation_management::StopFreezePdu),
  pdu_entry!("AcknowledgePdu", open_dis_rust::simulation_management::AcknowledgePdu),
  pdu_entry!("ActionRequestPdu", open_dis_rust::simulation_management::ActionRequestPdu),
  pdu_entry!("ActionResponsePdu", open_dis_rust::simulation_management::ActionResponsePdu),
  pdu_entry!("DataQueryPdu", open_dis_rust::simulation_management::DataQueryPdu),
  pdu_entry!("SetDataPdu", open_dis_rust::simulation_management::SetDataPdu),
  pdu_entry!("DataPdu", open_dis_rust::simulation_management::DataPdu),
  pdu_entry!("EventReportPdu", open_dis_rust::simulation_management::EventReportPdu),
  pdu_entry!("CommentPdu", open_dis_rust::simulation_management::CommentPdu),
  pdu_entry!("ElectromagneticEmissionsPdu", open_dis_rust::distributed_emissions::ElectromagneticEmissionsPdu),
  pdu_entry!("DesignatorPdu", open_dis_rust::distributed_emissions::DesignatorPdu),
  pdu_entry!("UnderwaterAcousticPdu", open_dis_rust::distributed_emissions::UnderwaterAcousticPdu),
  pdu_entry!("IFFPdu", open_dis_rust::distributed_emissions::IFFPdu),
  pdu_entry!("SupplementalEmissionPdu", open_dis_rust::distributed_emissions::SupplementalEmissionPdu),
  pdu_entry!("TransmitterPdu", open_dis_rust::radio_communications::TransmitterPdu),
  pdu_entry!("SignalPdu", open_dis_rust::radio_communications::SignalPdu),
  pdu_entry!("ReceiverPdu", open_dis_rust::radio_communications::ReceiverPdu),
  pdu_entry!("IntercomSignalPdu", open_dis_rust::radio_communications::IntercomSignalPdu),
  pdu_entry!("IntercomControlPdu", open_dis_rust::radio_communications::IntercomControlPdu),
  pdu_entry!("AggregateStatePdu", open_dis_rust::entity_management::AggregateStatePdu),
  pdu_entry!("IsGroupOfPdu", open_dis_rust::entity_management::IsGroupOfPdu),
  pdu_entry!("TransferOwnershipPdu", open_dis_rust::entity_management::TransferOwnershipPdu),
  pdu_entry!("IsPartOfPdu", open_dis_rust::entity_management::IsPartOfPdu),
  pdu_entry!("MinefieldStatePdu", open_dis_rust::minefield::MinefieldStatePdu),
  pdu_entry!("MinefieldQueryPdu", open_dis_rust::minefield::MinefieldQueryPdu),
  pdu_entry!("MinefieldDataPdu", open_dis_rust::minefield::MinefieldDataPdu),
  pdu_entry!("MinefieldResponseNackPdu", open_dis_rust::minefield::MinefieldResponseNackPdu),
  pdu_entry!("EnvironmentalProcessPdu", open_dis_rust::synthetic_environment::EnvironmentalProcessPdu),
  pdu_entry!("GriddedDataPdu", open_dis_rust::synthetic_environment::GriddedDataPdu),
  pdu_entry!("PointObjectStatePdu", open_dis_rust::synthetic_environment::PointObjectStatePdu),
  pdu_entry!("LinearObjectStatePdu", open_dis_rust::synthetic_environment::LinearObjectStatePdu),
  pdu_entry!("ArealObjectStatePdu", open_dis_rust::synthetic_environment::ArealObjectStatePdu),
  pdu_entry!("CreateEntityReliablePdu", open_dis_rust::simulation_management_with_reliability::CreateEntityReliablePdu),
  pdu_entry!("RemoveEntityReliablePdu", open_dis_rust::simulation_management_with_reliability::RemoveEntityReliablePdu),
  pdu_entry!("StartResumeReliablePdu", open_dis_rust::simulation_management_with_reliability::StartResumeReliablePdu),
  pdu_entry!("StopFreezeReliablePdu", open_dis_rust::simulation_management_with_reliability::StopFreezeReliablePdu),
  pdu_entry!("AcknowledgeReliablePdu", open_dis_rust::simulation_management_with_reliability::AcknowledgeReliablePdu),
  pdu_entry!("ActionRequestReliablePdu", open_dis_rust::simulation_management_with_reliability::ActionRequestReliablePdu),
  pdu_entry!("ActionResponseReliablePdu", open_dis_rust::simulation_management_with_reliability::ActionResponseReliablePdu),
  pdu_entry!("DataQueryReliablePdu", open_dis_rust::simulation_management_with_reliability::DataQueryReliablePdu),
  pdu_entry!("SetDataReliablePdu", open_dis_rust::simulation_management_with_reliability::SetDataReliablePdu),
  pdu_entry!("DataReliablePdu", open_dis_rust::simulation_management_with_reliability::DataReliablePdu),
  pdu_entry!("EventReportReliablePdu", open_dis_rust::simulation_management_with_reliability::EventReportReliablePdu),
  pdu_entry!("CommentReliablePdu", open_dis_rust::simulation_management_with_reliability::CommentReliablePdu),
  pdu_entry!("RecordQueryReliablePdu", open_dis_rust::simulation_management_with_reliability::RecordQueryReliablePdu),
  pdu_entry!("SetRecordReliablePdu", open_dis_rust::simulation_management_with_reliability::SetRecordReliablePdu),
  pdu_entry!("InformationOperationsReportPdu", open_dis_rust::information_operations::InformationOperationsReportPdu),
  pdu_entry!("InformationOperationsActionPdu", open_dis_rust::information_operations::InformationOperationsActionPdu),
]}
