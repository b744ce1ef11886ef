DataQueryDatumSpecification | #numberOfFixedDatumIDs:u32=fixedDatumIDs #numberOfVariableDatumIDs:u32=variableDatumIDs fixedDatumIDs:[u32] variableDatumIDs:[u32]
RadioIdentifier | siteNumber:u16 applicationNumber:u16 referenceNumber:u16 radioNumber:u16
RequestID | requestID:u32
IFFData | !iff
MunitionDescriptor | munitionType:=EntityType warhead:u16 fuse:u16 quantity:u16 rate:u16
MinefieldSensorType | sensorType:u16
GroupID | simulationAddress:=SimulationAddress groupNumber:u16
LayerHeader | layerNumber:u8 layerSpecificInformation:u8 length:u16
UnsignedDISInteger | val:u32
DeadReckoningParameters | deadReckoningAlgorithm:u8 parameters:u8*15 entityLinearAcceleration:=Vector3Float entityAngularVelocity:=Vector3Float
ProtocolMode | protocolMode:u16
AngleDeception | recordType:u32 recordLength:u16 ~padding:u16 emitterNumber:u8 beamNumber:u8 stateIndicator:u8 ~padding2:u8 azimuthOffset:f32 azimuthWidth:f32 azimuthPullRate:f32 azimuthPullAcceleration:f32 elevationOffset:f32 elevationWidth:f32 elevationPullRate:f32 elevationPullAcceleration:f32 ~padding3:u32
EntityAssociation | recordType:u8 changeIndicator:u8 associationStatus:u8 associationType:u8 entityID:=EntityIdentifier ownStationLocation:u16 physicalConnectionType:u8 groupMemberType:u8 groupNumber:u16
VectoringNozzleSystem | horizontalDeflectionAngle:f32 verticalDeflectionAngle:f32
FalseTargetsAttribute | recordType:u32 recordLength:u16 ~padding:u16 emitterNumber:u8 beamNumber:u8 stateIndicator:u8 ~padding2:u8 falseTargetCount:u16 walkSpeed:f32 walkAcceleration:f32 maximumWalkDistance:f32 keepTime:f32 echoSpacing:f32
MinefieldIdentifier | simulationAddress:=SimulationAddress minefieldNumber:u16
RadioType | entityKind:u8 domain:u8 country:u16 category:u8 subcategory:u8 specific:u8 extra:u8
NamedLocationIdentification | stationName:u16 stationNumber:u16
IFFDataSpecification | #numberOfIFFDataRecords:u16=iffDataRecords iffDataRecords:[IFFData]
OwnershipStatus | entityId:=EntityIdentifier ownershipStatus:u8 ~padding:u8
AttachedParts | recordType:u8 detachedIndicator:u8 partAttachedTo:u16 parameterType:u32 attachedPartType:=EntityType
Attribute | recordType:u32 recordLength:u16 recordSpecificFields:i64
RecordQuerySpecification | #numberOfRecords:u32=recordIDs recordIDs:[u32]
ArticulatedParts | recordType:u8 changeIndicator:u8 partAttachedTo:u16 parameterType:u32 parameterValue:f32 ~padding:u32
ObjectType | domain:u8 objectKind:u8 category:u8 subcategory:u8
Association | associationType:u8 ~padding4:u8 associatedEntityID:=EntityIdentifier associatedLocation:=WorldCoordinates
RecordSpecificationElement | recordID:u32 recordSetSerialNumber:u32 recordLength:u16 recordCount:u16 recordValues:u16 ~pad4:u8
AntennaLocation | antennaLocation:=WorldCoordinates relativeAntennaLocation:=Vector3Float
ObjectIdentifier | simulationAddress:=SimulationAddress objectNumber:u16
AggregateIdentifier | simulationAddress:=SimulationAddress aggregateID:u16
FixedDatum | fixedDatumID:u32 fixedDatumValue:u32
VariableParameter | recordType:u8 variableParameterFields1:f64 variableParameterFields2:u32 variableParameterFields3:u16 variableParameterFields4:u8
ChangeOptions |
LiveSimulationAddress | liveSiteNumber:u8 liveApplicationNumber:u8
EntityMarking | characterSet:u8 characters:u8*11
UAFundamentalParameter | activeEmissionParameterIndex:u16 scanPattern:u16 beamCenterAzimuthHorizontal:f32 azimuthalBeamwidthHorizontal:f32 beamCenterDepressionElevation:f32 beamwidthDownElevation:f32
ExplosionDescriptor | explodingObject:=EntityType explosiveMaterial:u16 ~padding:u16 explosiveForce:f32
ClockTime | hour:u32 timePastHour:u32
SecondaryOperationalData | operationalData1:u8 operationalData2:u8 numberOfIFFFundamentalParameterRecords:u16
EnvironmentType | entityKind:u8 domain:u8 entityClass:u16 category:u8 subcategory:u8 specific:u8 extra:u8
TotalRecordSets | totalRecordSets:u16 ~padding:u16
MineEntityIdentifier | simulationAddress:=SimulationAddress mineEntityNumber:u16
Relationship | nature:u16 position:u16
EEFundamentalParameterData | frequency:f32 frequencyRange:f32 effectiveRadiatedPower:f32 pulseRepetitionFrequency:f32 pulseWidth:f32 beamAzimuthCenter:f32 beamAzimuthSweep:f32 beamElevationCenter:f32 beamElevationSweep:f32 beamSweepSync:f32
JammingTechnique | kind:u8 category:u8 subcategory:u8 specific:u8
DatumSpecification | #numberOfFixedDatumRecords:u32=fixedDatumRecords #numberOfVariableDatumRecords:u32=variableDatumRecords fixedDatumRecords:[FixedDatum] variableDatumRecords:[VariableDatum]
Expendable | expendable:=EntityType station:u32 quantity:u16 expendableStatus:u8 ~padding:u8
IOCommunicationsNode | recordType:u32 recordLength:u16 communcationsNodeType:u8 ~padding:u8 communicationsNodeID:=CommunicationsNodeID
LinearSegmentParameter | segmentNumber:u8 segmentModification:u8 generalSegmentAppearance:u16 specificSegmentAppearance:u32 segmentLocation:=WorldCoordinates segmentOrientation:=EulerAngles segmentLength:f32 segmentWidth:f32 segmentHeight:f32 segmentDepth:f32 ~padding:u32
SystemIdentifier | systemType:u16 systemName:u16 systemMode:u16 changeOptions:=ChangeOptions
TrackJamData | entityID:=EntityIdentifier emitterNumber:u8 beamNumber:u8
AggregateType | aggregateKind:u8 domain:u8 country:u16 category:u8 subcategory:u8 specificInfo:u8 extra:u8
SimulationManagementPduHeader | pduHeader:=PduHeader originatingID:=SimulationIdentifier receivingID:=SimulationIdentifier
BeamData | beamAzimuthCenter:f32 beamAzimuthSweep:f32 beamElevationCenter:f32 beamElevationSweep:f32 beamSweepSync:f32
EngineFuel | fuelQuantity:u32 fuelMeasurementUnits:u8 fuelType:u8 fuelLocation:u8 ~padding:u8
IOEffect | recordType:u32 recordLength:u16 ioStatus:u8 ioLinkType:u8 ioEffect:u8 ioEffectDutyCycle:u8 ioEffectDuration:u16 ioProcess:u16 ~padding:u16
SimulationIdentifier | simulationAddress:=SimulationAddress referenceNumber:u16
GridAxisDescriptorVariable | domainInitialXi:f64 domainFinalXi:f64 domainPointsXi:u16 interleafFactor:u8 axisType:u8 #:u16=xiValues initialIndex:u16 coordinateScaleXi:f64 coordinateOffsetXi:f64 xiValues:[u16]
SupplyQuantity | supplyType:=EntityType quantity:f32
SilentEntitySystem | numberOfEntities:u16 #numberOfAppearanceRecords:u16=appearanceRecordList entityType:=EntityType appearanceRecordList:[u32]
SilentAggregateSystem | numberOfAggregates:u16 aggregateType:=AggregateType
BlankingSector | recordType:u32 recordLength:u16 ~padding:u16 emitterNumber:u8 beamNumber:u8 stateIndicator:u8 ~padding2:u8 leftAzimuth:f32 rightAzimuth:f32 lowerElevation:f32 upperElevation:f32 residualPower:f32 ~padding3:i32 ~padding4:i32
LaunchedMunitionRecord | fireEventID:=EventIdentifier ~padding:u16 firingEntityID:=EventIdentifier ~padding2:u16 targetEntityID:=EventIdentifier ~padding3:u16 targetLocation:=WorldCoordinates
IFFFundamentalParameterData | erp:f32 frequency:f32 pgrf:f32 pulseWidth:f32 burstLength:u32 applicableModes:u8 systemSpecificData:u8*3
FundamentalOperationalData | systemStatus:u8 dataField1:u8 informationLayers:u8 dataField2:u8 parameter1:u16 parameter2:u16 parameter3:u16 parameter4:u16 parameter5:u16 parameter6:u16
IntercomCommunicationsParameters | recordType:u16 recordLength:u16 recordSpecificField:u32
EntityType | entityKind:u8 domain:u8 country:u16 category:u8 subcategory:u8 specific:u8 extra:u8
Munition | munitionType:=EntityType station:u32 quantity:u16 munitionStatus:u8 ~padding:u8
StandardVariableSpecification | #numberOfStandardVariableRecords:u16=standardVariables standardVariables:[SV.any]
Vector2Float | x:f32 y:f32
Environment | environmentType:u32 length:u16 index:u8 ~padding:u8
AcousticEmitter | acousticSystemName:u16 acousticFunction:u8 acousticIDNumber:u8
AngularVelocityVector | x:f32 y:f32 z:f32
AggregateMarking | characterSet:u8 characters:u8*31
DataFilterRecord | bitFlags:u32
IntercomIdentifier | siteNumber:u16 applicationNumber:u16 referenceNumber:u16 intercomNumber:u16
StorageFuel | fuelQuantity:u32 fuelMeasurementUnits:u8 fuelType:u8 fuelLocation:u8 ~padding:u8
Sensor | sensorTypeSource:u8 sensorOnOffStatus:u8 sensorType:u16 station:u32 quantity:u16 ~padding:u16
MunitionReload | munitionType:=EntityType station:u32 standardQuantity:u16 maximumQuantity:u16 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32
StorageFuelReload | standardQuantity:u32 maximumQuantity:u32 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32 fuelMeasurementUnits:u8 fuelType:u8 fuelLocation:u8 ~padding:u8
ExpendableReload | expendable:=EntityType station:u32 standardQuantity:u16 maximumQuantity:u16 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32
EngineFuelReload | standardQuantity:u32 maximumQuantity:u32 standardQuantityReloadTime:u32 maximumQuantityReloadTime:u32 fuelMeasurmentUnits:u8 fuelLocation:u8 ~padding:u8
UnattachedIdentifier | simulationAddress:=SimulationAddress referenceNumber:u16
EntityTypeVP | recordType:u8 changeIndicator:u8 entityType:=EntityType ~padding:u16 ~padding1:u32
BeamStatus | !beamstatus
EnvironmentGeneral | environmentType:u32 length:u16 index:u8 ~padding1:u8 geometry:u8 ~padding2:u8
GridAxis | domainInitialXi:f64 domainFinalXi:f64 domainPointsXi:u16 interleafFactor:u8 axisType:u8 numberOfPointsOnXiAxis:u16 initialIndex:u16
RecordSpecification | #numberOfRecordSets:u32=recordSets recordSets:[RecordSpecificationElement]
VariableDatum | !vardatum
EventIdentifierLiveEntity | siteNumber:u8 applicationNumber:u8 eventNumber:u16
PduHeader | protocolVersion:u8 exerciseID:u8 pduType:u8 protocolFamily:u8 timestamp:u32 pduLength:u16 pduStatus:u8 ~padding:u8
PduSuperclass | protocolVersion:u8 exerciseID:u8 pduType:u8 protocolFamily:u8 timestamp:u32 length:u16
CommunicationsNodeID | entityID:=EntityIdentifier elementID:u16
ExpendableDescriptor | expendableType:=EntityType ~padding:i64
PropulsionSystemData | powerSetting:f32 engineRpm:f32
LiveEntityIdentifier | liveSimulationAddress:=LiveSimulationAddress entityNumber:u16
SeparationVP | recordType:u8 reasonForSeparation:u8 preEntityIndicator:u8 ~padding1:u8 parentEntityID:=EntityIdentifier ~padding2:u16 stationLocation:=NamedLocationIdentification
EmitterSystem | emitterName:u16 emitterFunction:u8 emitterIDNumber:u8
PduStatus | pduStatus:u8
LiveEntityPdu(PduSuperclass) | subprotocolNumber:u8 ~padding:u8
Pdu(PduSuperclass) | pduStatus:u8 ~padding:u8
EntityInformationFamilyPdu(Pdu) | 
LogisticsFamilyPdu(Pdu) | 
EntityStateUpdatePdu(EntityInformationFamilyPdu) | entityID:=EntityIdentifier ~padding1:i8 #numberOfVariableParameters:u8=variableParameters entityLinearVelocity:=Vector3Float entityLocation:=WorldCoordinates entityOrientation:=EulerAngles entityAppearance:u32 variableParameters:[VariableParameter]
ServiceRequestPdu(LogisticsFamilyPdu) | requestingEntityID:=EntityIdentifier servicingEntityID:=EntityIdentifier serviceTypeRequested:u8 #numberOfSupplyTypes:u8=supplies ~serviceRequestPadding:i16 supplies:[SupplyQuantity]
RepairCompletePdu(LogisticsFamilyPdu) | receivingEntityID:=EntityIdentifier repairingEntityID:=EntityIdentifier repair:u16 ~padding4:i16
SyntheticEnvironmentFamilyPdu(Pdu) | 
CollisionPdu(EntityInformationFamilyPdu) | issuingEntityID:=EntityIdentifier collidingEntityID:=EntityIdentifier eventID:=EventIdentifier collisionType:u8 ~pad:i8 velocity:=Vector3Float mass:f32 location:=Vector3Float
RepairResponsePdu(LogisticsFamilyPdu) | receivingEntityID:=EntityIdentifier repairingEntityID:=EntityIdentifier repairResult:u8 ~padding1:i16 ~padding2:i8
SimulationManagementFamilyPdu(Pdu) | originatingEntityID:=EntityIdentifier receivingEntityID:=EntityIdentifier
DataQueryPdu(SimulationManagementFamilyPdu) | requestID:u32 timeInterval:u32 @DataQueryDatumSpecification
LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu) | objectID:=EntityIdentifier referencedObjectID:=EntityIdentifier updateNumber:u16 forceID:u8 #numberOfSegments:u8=linearSegmentParameters requesterID:=SimulationAddress receivingID:=SimulationAddress objectType:=ObjectType linearSegmentParameters:[LinearSegmentParameter]
CreateEntityPdu(SimulationManagementFamilyPdu) | requestID:u32
RadioCommunicationsFamilyPdu(Pdu) | 
IntercomSignalPdu(RadioCommunicationsFamilyPdu) | entityID:=EntityIdentifier communicationsDeviceID:u16 encodingScheme:u16 tdlType:u16 sampleRate:u32 #dataLength:u16=data*8 samples:u16 data:[u8]
RemoveEntityPdu(SimulationManagementFamilyPdu) | requestID:u32
ResupplyReceivedPdu(LogisticsFamilyPdu) | receivingEntityID:=EntityIdentifier supplyingEntityID:=EntityIdentifier #numberOfSupplyTypes:u8=supplies ~padding1:i16 ~padding2:i8 supplies:[SupplyQuantity]
WarfareFamilyPdu(Pdu) | firingEntityID:=EntityIdentifier targetEntityID:=EntityIdentifier
CollisionElasticPdu(EntityInformationFamilyPdu) | issuingEntityID:=EntityIdentifier collidingEntityID:=EntityIdentifier collisionEventID:=EventIdentifier ~pad:i16 contactVelocity:=Vector3Float mass:f32 locationOfImpact:=Vector3Float collisionIntermediateResultXX:f32 collisionIntermediateResultXY:f32 collisionIntermediateResultXZ:f32 collisionIntermediateResultYY:f32 collisionIntermediateResultYZ:f32 collisionIntermediateResultZZ:f32 unitSurfaceNormal:=Vector3Float coefficientOfRestitution:f32
ActionRequestPdu(SimulationManagementFamilyPdu) | requestID:u32 actionID:u32 @DatumSpecification
AcknowledgePdu(SimulationManagementFamilyPdu) | acknowledgeFlag:u16 responseFlag:u16 requestID:u32
DistributedEmissionsFamilyPdu(Pdu) | 
SimulationManagementWithReliabilityFamilyPdu(Pdu) | originatingEntityID:=EntityIdentifier receivingEntityID:=EntityIdentifier
ActionRequestReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 requestID:u32 actionID:u32 ~pad3:i32 @DatumSpecification
DesignatorPdu(DistributedEmissionsFamilyPdu) | designatingEntityID:=EntityIdentifier codeName:u16 designatedEntityID:=EntityIdentifier designatorCode:u16 designatorPower:f32 designatorWavelength:f32 designatorSpotWrtDesignated:=Vector3Float designatorSpotLocation:=WorldCoordinates deadReckoningAlgorithm:u8 ~padding1:u16 ~padding2:i8 entityLinearAcceleration:=Vector3Float
StopFreezePdu(SimulationManagementFamilyPdu) | realWorldTime:=ClockTime reason:u8 frozenBehavior:u8 ~padding1:i16 requestID:u32
EntityStatePdu(EntityInformationFamilyPdu) | entityID:=EntityIdentifier forceId:u8 #numberOfVariableParameters:u8=variableParameters entityType:=EntityType alternativeEntityType:=EntityType entityLinearVelocity:=Vector3Float entityLocation:=WorldCoordinates entityOrientation:=EulerAngles entityAppearance:u32 deadReckoningParameters:=DeadReckoningParameters marking:=EntityMarking capabilities:u32 variableParameters:[VariableParameter]
EntityManagementFamilyPdu(Pdu) | 
StartResumePdu(SimulationManagementFamilyPdu) | realWorldTime:=ClockTime simulationTime:=ClockTime requestID:u32
TransmitterPdu(RadioCommunicationsFamilyPdu) | radioReferenceID:=EntityIdentifier radioNumber:u16 radioEntityType:=EntityType transmitState:u8 inputSource:u8 #variableTransmitterParameterCount:u16=variableTransmitterParameters antennaLocation:=WorldCoordinates relativeAntennaLocation:=Vector3Float antennaPatternType:u16 #antennaPatternLength:u16=!ap frequency:u64 transmitFrequencyBandwidth:f32 power:f32 modulationType:=ModulationType cryptoSystem:u16 cryptoKeyId:u16 #modulationParametersLength:u8=!mp ~padding2:u16 ~padding3:u8 modulationParameters:!mp antennaPattern:!ap variableTransmitterParameters:[SV.vtp]
ElectromagneticEmissionsPdu(DistributedEmissionsFamilyPdu) | emittingEntityID:=EntityIdentifier eventID:=EventIdentifier stateUpdateIndicator:u8 #numberOfSystems:u8=systems ~paddingForEmissionsPdu:u16 systems:[EmissionSystemRecord]
EmissionSystemBeamRecord | beamDataLength:u8 beamIDNumber:u8 beamParameterIndex:u16 fundamentalParameterData:=EEFundamentalParameterData beamFunction:u8 #numberOfTargetsInTrackJam:u8=trackJamRecords highDensityTrackJam:u8 beamStatus:=BeamStatus jammingModeSequence:u32 trackJamRecords:[TrackJamData]
EmissionSystemRecord | systemDataLength:u8 #numberOfBeams:u8=beamRecords _:u16 emitterSystem:=EmitterSystem location:=Vector3Float beamRecords:[EmissionSystemBeamRecord]
ResupplyOfferPdu(LogisticsFamilyPdu) | receivingEntityID:=EntityIdentifier supplyingEntityID:=EntityIdentifier #numberOfSupplyTypes:u8=supplies ~padding1:i8 ~padding2:i16 supplies:[SupplyQuantity]
AttributePdu(EntityInformationFamilyPdu) | originatingSimulationAddress:=SimulationAddress ~padding1:i32 ~padding2:i16 attributeRecordPduType:u8 attributeRecordProtocolVersion:u8 masterAttributeRecordType:u32 actionCode:u8 ~padding3:i8 numberOfAttributeRecordSets:u16
MinefieldFamilyPdu(Pdu) | 
SetDataReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 requestID:u32 @DatumSpecification
EventReportPdu(SimulationManagementFamilyPdu) | eventType:u32 ~padding1:u32 @DatumSpecification
PointObjectStatePdu(SyntheticEnvironmentFamilyPdu) | objectID:=EntityIdentifier referencedObjectID:=EntityIdentifier updateNumber:u16 forceID:u8 modifications:u8 objectType:=ObjectType objectLocation:=WorldCoordinates objectOrientation:=EulerAngles objectAppearance:f64 requesterID:=SimulationAddress receivingID:=SimulationAddress ~pad2:u32
DataPdu(SimulationManagementFamilyPdu) | requestID:u32 ~padding1:u32 @DatumSpecification
FastEntityStatePdu(EntityInformationFamilyPdu) | site:u16 application:u16 entity:u16 forceId:u8 #numberOfVariableParameters:u8=variableParameters entityKind:u8 domain:u8 country:u16 category:u8 subcategory:u8 specific:u8 extra:u8 altEntityKind:u8 altDomain:u8 altCountry:u16 altCategory:u8 altSubcategory:u8 altSpecific:u8 altExtra:u8 xVelocity:f32 yVelocity:f32 zVelocity:f32 xLocation:f64 yLocation:f64 zLocation:f64 psi:f32 theta:f32 phi:f32 entityAppearance:u32 deadReckoningAlgorithm:u8 otherParameters:u8*15 xAcceleration:f32 yAcceleration:f32 zAcceleration:f32 xAngularVelocity:f32 yAngularVelocity:f32 zAngularVelocity:f32 marking:u8*12 capabilities:u32 variableParameters:[VariableParameter]
AcknowledgeReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | acknowledgeFlag:u16 responseFlag:u16 requestID:u32
StartResumeReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | realWorldTime:=ClockTime simulationTime:=ClockTime requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 requestID:u32
ArealObjectStatePdu(SyntheticEnvironmentFamilyPdu) | objectID:=EntityIdentifier referencedObjectID:=EntityIdentifier updateNumber:u16 forceID:u8 modifications:u8 objectType:=ObjectType specificObjectAppearance:u32 generalObjectAppearance:u16 #numberOfPoints:u16=objectLocation requesterID:=SimulationAddress receivingID:=SimulationAddress objectLocation:[WorldCoordinates]
DataQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 requestID:u32 timeInterval:u32 @DataQueryDatumSpecification
MinefieldStatePdu(MinefieldFamilyPdu) | minefieldID:=MinefieldIdentifier minefieldSequence:u16 forceID:u8 #numberOfPerimeterPoints:u8=perimeterPoints minefieldType:=EntityType #numberOfMineTypes:u16=mineTypes minefieldLocation:=WorldCoordinates minefieldOrientation:=EulerAngles appearance:u16 protocolMode:u16 perimeterPoints:[Vector2Float] mineTypes:[EntityType]
DataReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requestID:u32 requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 @DatumSpecification
CommentPdu(SimulationManagementFamilyPdu) | @DatumSpecification
CommentReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | @DatumSpecification
DirectedEnergyFirePdu(WarfareFamilyPdu) | munitionType:=EntityType shotStartTime:=ClockTime cumulativeShotTime:f32 apertureEmitterLocation:=Vector3Float apertureDiameter:f32 wavelength:f32 ~padding1:u32 pulseRepetitionFrequency:f32 pulseWidth:f32 flags:=DEFireFlags pulseShape:u8 ~padding2:u8 ~padding3:u32 ~padding4:u16 #numberOfDERecords:u16=dERecords dERecords:[SV.damage]
DetonationPdu(WarfareFamilyPdu) | explodingEntityID:=EntityIdentifier eventID:=EventIdentifier velocity:=Vector3Float location:=WorldCoordinates descriptor:=MunitionDescriptor locationInEntityCoordinates:=Vector3Float detonationResult:u8 #numberOfVariableParameters:u8=variableParameters ~pad:u16 variableParameters:[VariableParameter]
SetDataPdu(SimulationManagementFamilyPdu) | requestID:u32 ~padding1:u32 @DatumSpecification
RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requestID:u32 requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 eventType:u16 time:u32 #numberOfRecords:u32=recordIDs recordIDs:[u32]
ActionResponsePdu(SimulationManagementFamilyPdu) | requestID:u32 requestStatus:u32 @DatumSpecification
EntityDamageStatusPdu(WarfareFamilyPdu) | damagedEntityID:=EntityIdentifier ~padding1:u16 ~padding2:u16 #damageDescriptionCount:u16=damageDescriptions damageDescriptions:[SV.damage]
FirePdu(WarfareFamilyPdu) | munitionExpendableID:=EntityIdentifier eventID:=EventIdentifier fireMissionIndex:u32 location:=WorldCoordinates descriptor:=MunitionDescriptor velocity:=Vector3Float range:f32
ReceiverPdu(RadioCommunicationsFamilyPdu) | receiverState:u16 ~padding1:u16 receivedPower:f32 transmitterEntityID:=EntityIdentifier transmitterRadioId:u16
UaPdu(DistributedEmissionsFamilyPdu) | emittingEntityID:=EntityIdentifier eventID:=EventIdentifier stateChangeIndicator:u8 ~pad:i8 passiveParameterIndex:u16 propulsionPlantConfiguration:u8 #numberOfShafts:u8=shaftRPMs #numberOfAPAs:u8=apaData #numberOfUAEmitterSystems:u8=emitterSystems shaftRPMs:[NONE] apaData:[NONE] emitterSystems:[NONE]
IntercomControlPdu(RadioCommunicationsFamilyPdu) | controlType:u8 communicationsChannelType:u8 sourceEntityID:=EntityIdentifier sourceCommunicationsDeviceID:u16 sourceLineID:u8 transmitPriority:u8 transmitLineState:u8 command:u8 masterEntityID:=EntityIdentifier masterCommunicationsDeviceID:u16 #intercomParametersLength:u32=intercomParameters*8 intercomParameters:[IntercomCommunicationsParameters]
SignalPdu(RadioCommunicationsFamilyPdu) | entityID:=EntityIdentifier radioID:u16 encodingScheme:u16 tdlType:u16 sampleRate:u32 #dataLength:u16=data*8 samples:u16 data:[u8]
RemoveEntityReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 requestID:u32
SeesPdu(DistributedEmissionsFamilyPdu) | orginatingEntityID:=EntityIdentifier infraredSignatureRepresentationIndex:u16 acousticSignatureRepresentationIndex:u16 radarCrossSectionSignatureRepresentationIndex:u16 #numberOfPropulsionSystems:u16=propulsionSystemData #numberOfVectoringNozzleSystems:u16=vectoringSystemData propulsionSystemData:[PropulsionSystemData] vectoringSystemData:[VectoringNozzleSystem]
CreateEntityReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requiredReliabilityService:u8 ~pad1:u16 ~pad2:u8 requestID:u32
StopFreezeReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | realWorldTime:=ClockTime reason:u8 frozenBehavior:u8 requiredReliablityService:u8 ~pad1:u8 requestID:u32
EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | eventType:u32 ~pad1:u32 @DatumSpecification
MinefieldResponseNackPdu(MinefieldFamilyPdu) | minefieldID:=EntityIdentifier requestingEntityID:=EntityIdentifier requestID:u8 #numberOfMissingPdus:u8=missingPduSequenceNumbers missingPduSequenceNumbers:[u8]
ActionResponseReliablePdu(SimulationManagementWithReliabilityFamilyPdu) | requestID:u32 responseStatus:u32 @DatumSpecification
IsPartOfPdu(EntityManagementFamilyPdu) | orginatingEntityID:=EntityIdentifier receivingEntityID:=EntityIdentifier relationship:=Relationship partLocation:=Vector3Float namedLocationID:=NamedLocationIdentification partEntityType:=EntityType
AggregateStatePdu(EntityManagementFamilyPdu) | aggregateID:=AggregateIdentifier forceID:u8 aggregateState:u8 aggregateType:=AggregateType formation:u32 aggregateMarking:=AggregateMarking dimensions:=Vector3Float orientation:=EulerAngles centerOfMass:=Vector3Float velocity:=WorldCoordinates #numberOfAggregateIDs:u16=aggregateIDs #numberOfEntityIDs:u16=entityIDs #numberOfSilentAggregateSystems:u16=silentAggregateSystems #numberOfSilentEntitySystems:u16=silentEntitySystems aggregateIDs:[AggregateIdentifier] entityIDs:[EntityIdentifier] silentAggregateSystems:[SilentAggregateSystem] silentEntitySystems:[SilentEntitySystem] #numberOfVariableDatumRecords:u32=variableDatumRecords variableDatumRecords:[VariableDatum]
EntityIdentifier | simulationAddress:=SimulationAddress entityNumber:u16
EulerAngles | psi:f32 theta:f32 phi:f32
EventIdentifier | simulationAddress:=SimulationAddress eventNumber:u16
SimulationAddress | site:u16 application:u16
Vector3Float | x:f32 y:f32 z:f32
WorldCoordinates | x:f64 y:f64 z:f64
AntennaPatternRecord | 
ModulationParametersRecord | 
UnknownRadio(ModulationParametersRecord) | data:!bytes
UnknownAntennaPattern(AntennaPatternRecord) | data:!bytes
BeamAntennaPattern(AntennaPatternRecord) | beamDirection:=EulerAngles azimuthBeamwidth:f32 elevationBeamwidth:f32 referenceSystem:u8 ~padding1:u8 ~padding2:u16 ez:f32 ex:f32 phase:f32 ~padding3:u32
SpreadSpectrum | {?frequencyHopping/1,?pseudoNoise/1,?timeHopping/1,~padding/13}
ModulationType | spreadSpectrum:=SpreadSpectrum majorModulation:u16 detail:u16 radioSystem:u16
VariableTransmitterParametersRecord | 
NetId | {netNumber/10,frequencyTable/2,mode/2,~padding/2}
GenericRadio(ModulationParametersRecord) |
SimpleIntercomRadio(ModulationParametersRecord) |
BasicHaveQuickMP(ModulationParametersRecord) | net_id:=NetId mwod_index:u16 reserved16:u16 reserved8_1:u8 reserved8_2:u8 time_of_day:u32 ~padding:u32
CCTTSincgarsMP(ModulationParametersRecord) | fh_net_id:u16 hop_set_id:u16 lockout_set_id:u16 start_of_message:u8 clear_channel:u8 fh_sync_time_offset:u32 transmission_security_key:u16 ~padding:u16
HighFidelityHAVEQUICKRadio(VariableTransmitterParametersRecord) | ~padding1:u16 netId:=NetId todTransmitIndicator:u8 ~padding2:u8 todDelta:u32 wod1:u32 wod2:u32 wod3:u32 wod4:u32 wod5:u32 wod6:u32
DamageDescriptionRecord | 
DirectedEnergyDamage(DamageDescriptionRecord) | ~padding:u16 damageLocation:=Vector3Float damageDiameter:f32 temperature:f32 componentIdentification:u8 componentDamageStatus:u8 componentVisualDamageStatus:u8 componentVisualSmokeColor:u8 fireEventID:=EventIdentifier ~padding2:u16
DirectedEnergyAreaAimpoint(DamageDescriptionRecord) | ~padding:u16 #beamAntennaPatternCount:u16=beamAntennaPatterns #directedEnergyTargetEnergyDepositionCount:u16=directedEnergyTargetEnergyDepositions beamAntennaPatterns:[BeamAntennaPattern] directedEnergyTargetEnergyDepositions:[DirectedEnergyTargetEnergyDeposition] !padto8
DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord) | ~padding:u16 targetSpotLocation:=WorldCoordinates targetSpotEntityLocation:=Vector3Float targetSpotVelocity:=Vector3Float targetSpotAcceleration:=Vector3Float targetEntityID:=EntityIdentifier targetComponentID:u8 beamSpotType:u8 beamSpotCrossSectionSemiMajorAxis:f32 beamSpotCrossSectionSemiMinorAxis:f32 beamSpotCrossSectionOrientationAngle:f32 peakIrradiance:f32 ~padding2:u32
DirectedEnergyTargetEnergyDeposition | targetEntityID:=EntityIdentifier ~padding:u16 peakIrradiance:f32
DEFireFlags | {weaponOn/1,stateUpdateFlag/1,~padding/14}
