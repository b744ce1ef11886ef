EntityStatePdu | entityID forceId entityType alternativeEntityType entityLinearVelocity entityLocation entityOrientation entityAppearance deadReckoningParameters marking capabilities variableParameters
FirePdu | munitionExpendableID eventID fireMissionIndex location descriptor velocity range_
DetonationPdu | explodingEntityID eventID velocity location descriptor locationInEntityCoordinates detonationResult variableParameters
CollisionPdu | issuingEntityID collidingEntityID eventID collisionType velocity mass location
ServiceRequestPdu | requestingEntityID servicingEntityID serviceTypeRequested supplies
ResupplyOfferPdu | receivingEntityID supplyingEntityID supplies
ResupplyReceivedPdu | receivingEntityID supplyingEntityID supplies
RepairCompletePdu | receivingEntityID repairingEntityID repair
RepairResponsePdu | receivingEntityID repairingEntityID repairResult
CreateEntityPdu | requestID
RemoveEntityPdu | requestID
StartResumePdu | realWorldTime simulationTime requestID
StopFreezePdu | realWorldTime reason frozenBehavior requestID
AcknowledgePdu | acknowledgeFlag responseFlag requestID
ActionRequestPdu | requestID actionID fixedDatumRecords variableDatumRecords
ActionResponsePdu | requestID requestStatus fixedDatumRecords variableDatumRecords
DataQueryPdu | requestID timeInterval fixedDatumIDs variableDatumIDs
SetDataPdu | requestID fixedDatumRecords variableDatumRecords
DataPdu | requestID fixedDatumRecords variableDatumRecords
EventReportPdu | eventType fixedDatumRecords variableDatumRecords
CommentPdu | fixedDatumRecords variableDatumRecords
ElectromagneticEmissionsPdu | emittingEntityID eventID stateUpdateIndicator systems
DesignatorPdu | designatingEntityID codeName designatedEntityID designatorCode designatorPower designatorWavelength designatorSpotWrtDesignated designatorSpotLocation deadReckoningAlgorithm entityLinearAcceleration
TransmitterPdu | radioReferenceID radioNumber radioEntityType transmitState inputSource antennaLocation relativeAntennaLocation antennaPatternType frequency transmitFrequencyBandwidth power modulationType cryptoSystem cryptoKeyId modulationParameters antennaPattern variableTransmitterParameters
SignalPdu | entityID radioID encodingScheme tdlType sampleRate samples data
ReceiverPdu | receiverState receivedPower transmitterEntityID transmitterRadioId
UaPdu | emittingEntityID eventID stateChangeIndicator passiveParameterIndex propulsionPlantConfiguration shaftRPMs apaData emitterSystems
SeesPdu | originatingEntityID infraredSignatureRepresentationIndex acousticSignatureRepresentationIndex radarCrossSectionSignatureRepresentationIndex propulsionSystemData vectoringSystemData
IntercomSignalPdu | entityID communicationsDeviceID encodingScheme tdlType sampleRate samples data
IntercomControlPdu | controlType communicationsChannelType sourceEntityID sourceCommunicationsDeviceID sourceLineID transmitPriority transmitLineState command masterEntityID masterCommunicationsDeviceID intercomParameters
AggregateStatePdu | aggregateID forceID aggregateState aggregateType formation aggregateMarking dimensions orientation centerOfMass velocity aggregateIDs entityIDs silentAggregateSystems silentEntitySystems variableDatumRecords
IsPartOfPdu | originatingEntityID receivingEntityID relationship partLocation namedLocationID partEntityType
MinefieldStatePdu | minefieldID minefieldSequence forceID minefieldType minefieldLocation minefieldOrientation appearance protocolMode perimeterPoints mineTypes
MinefieldResponseNackPdu | minefieldID requestingEntityID requestID missingPduSequenceNumbers
PointObjectStatePdu | objectID referencedObjectID updateNumber forceID modifications objectType objectLocation objectOrientation objectAppearance requesterID receivingID
LinearObjectStatePdu | objectID referencedObjectID updateNumber forceID requesterID receivingID objectType linearSegmentParameters
ArealObjectStatePdu | objectID referencedObjectID updateNumber forceId modifications objectType specificObjectAppearance generalObjectAppearance requesterID receivingID objectLocation
CreateEntityReliablePdu | requiredReliabilityService requestID
RemoveEntityReliablePdu | requiredReliabilityService requestID
StartResumeReliablePdu | realWorldTime simulationTime requiredReliabilityService requestID
StopFreezeReliablePdu | realWorldTime reason frozenBehavior requiredReliabilityService requestID
AcknowledgeReliablePdu | acknowledgeFlag responseFlag requestID
ActionRequestReliablePdu | requiredReliabilityService requestID actionID fixedDatumRecords variableDatumRecords
ActionResponseReliablePdu | requestID responseStatus fixedDatumRecords variableDatumRecords
DataQueryReliablePdu | requiredReliabilityService requestID timeInterval fixedDatumIDs variableDatumIDs
SetDataReliablePdu | requiredReliabilityService requestID fixedDatumRecords variableDatumRecords
DataReliablePdu | requestID requiredReliabilityService fixedDatumRecords variableDatumRecords
EventReportReliablePdu | eventType fixedDatumRecords variableDatumRecords
CommentReliablePdu | fixedDatumRecords variableDatumRecords
RecordQueryReliablePdu | requestID requiredReliabilityService eventType time recordIDs
CollisionElasticPdu | issuingEntityID collidingEntityID collisionEventID contactVelocity mass locationOfImpact collisionIntermediateResultXX collisionIntermediateResultXY collisionIntermediateResultXZ collisionIntermediateResultYY collisionIntermediateResultYZ collisionIntermediateResultZZ unitSurfaceNormal coefficientOfRestitution
EntityStateUpdatePdu | entityID entityLinearVelocity entityLocation entityOrientation entityAppearance variableParameters
DirectedEnergyFirePdu | munitionType shotStartTime cumulativeShotTime apertureEmitterLocation apertureDiameter wavelength pulseRepetitionFrequency pulseWidth flags pulseShape dERecords
EntityDamageStatusPdu | damagedEntityID damageDescriptions
FastEntityStatePdu | site application entity forceId numberOfVariableParameters entityKind domain country category subcategory specific extra altEntityKind altDomain altCountry altCategory altSubcategory altSpecific altExtra xVelocity yVelocity zVelocity xLocation yLocation zLocation psi theta phi entityAppearance deadReckoningAlgorithm otherParameters xAcceleration yAcceleration zAcceleration xAngularVelocity yAngularVelocity zAngularVelocity marking capabilities variableParameters
AttributePdu | originatingSimulationAddress attributeRecordPduType attributeRecordProtocolVersion masterAttributeRecordType actionCode numberOfAttributeRecordSets
DataQueryDatumSpecification | fixedDatumIDs variableDatumIDs
RadioIdentifier | siteNumber applicationNumber referenceNumber radioNumber
RequestID | requestID
IFFData | recordType recordLength iffData
MunitionDescriptor | munitionType warhead fuse quantity rate
MinefieldSensorType | sensorType
GroupID | simulationAddress groupNumber
LayerHeader | layerNumber layerSpecificInformation length
UnsignedDISInteger | val
DeadReckoningParameters | deadReckoningAlgorithm parameters entityLinearAcceleration entityAngularVelocity
ProtocolMode | protocolMode
AngleDeception | emitterNumber beamNumber stateIndicator azimuthOffset azimuthWidth azimuthPullRate azimuthPullAcceleration elevationOffset elevationWidth elevationPullRate elevationPullAcceleration
EntityAssociation | changeIndicator associationStatus associationType entityID ownStationLocation physicalConnectionType groupMemberType groupNumber
VectoringNozzleSystem | horizontalDeflectionAngle verticalDeflectionAngle
FalseTargetsAttribute | emitterNumber beamNumber stateIndicator falseTargetCount walkSpeed walkAcceleration maximumWalkDistance keepTime echoSpacing
MinefieldIdentifier | simulationAddress minefieldNumber
RadioType | domain country category subcategory specific extra
NamedLocationIdentification | stationName stationNumber
IFFDataSpecification | iffDataRecords
OwnershipStatus | entityId ownershipStatus
AttachedParts | detachedIndicator partAttachedTo parameterType attachedPartType
Attribute | recordType recordLength recordSpecificFields
RecordQuerySpecification | recordIDs
ArticulatedParts | changeIndicator partAttachedTo parameterType parameterValue
ObjectType | domain objectKind category subcategory
Association | associationType associatedEntityID associatedLocation
RecordSpecificationElement | recordID recordSetSerialNumber recordLength recordCount recordValues
AntennaLocation | antennaLocation relativeAntennaLocation
ObjectIdentifier | simulationAddress objectNumber
AggregateIdentifier | simulationAddress aggregateID
FixedDatum | fixedDatumID fixedDatumValue
VariableParameter | recordType variableParameterFields1 variableParameterFields2 variableParameterFields3 variableParameterFields4
ChangeOptions | 
LiveSimulationAddress | liveSiteNumber liveApplicationNumber
EntityMarking | characterSet characters
UAFundamentalParameter | activeEmissionParameterIndex scanPattern beamCenterAzimuthHorizontal azimuthBeamwidthHorizontal beamCenterDepressionElevation beamwidthDownElevation
ExplosionDescriptor | explodingObject explosiveMaterial explosiveForce
ClockTime | hour timePastHour
SecondaryOperationalData | operationalData1 operationalData2 numberOfIFFFundamentalParameterRecords
EnvironmentType | entityKind domain entityClass category subcategory specific extra
TotalRecordSets | totalRecordSets
MineEntityIdentifier | simulationAddress mineEntityNumber
Relationship | nature position
EEFundamentalParameterData | frequency frequencyRange effectiveRadiatedPower pulseRepetitionFrequency pulseWidth beamAzimuthCenter beamAzimuthSweep beamElevationCenter beamElevationSweep beamSweepSync
JammingTechnique | kind category subcategory specific
DatumSpecification | fixedDatumRecords variableDatumRecords
Expendable | expendable station quantity expendableStatus
IOCommunicationsNode | communicationsNodeType communicationsNodeID
LinearSegmentParameter | segmentNumber segmentModification generalSegmentAppearance specificSegmentAppearance segmentLocation segmentOrientation segmentLength segmentWidth segmentHeight segmentDepth
SystemIdentifier | systemType systemName systemMode changeOptions
TrackJamData | entityID emitterNumber beamNumber
AggregateType | aggregateKind domain country category subcategory specificInfo extra
SimulationManagementPduHeader | pduHeader originatingID receivingID
BeamData | beamAzimuthCenter beamAzimuthSweep beamElevationCenter beamElevationSweep beamSweepSync
EngineFuel | fuelQuantity fuelMeasurementUnits fuelType fuelLocation
IOEffect | ioStatus ioLinkType ioEffect ioEffectDutyCycle ioEffectDuration ioProcess
SimulationIdentifier | simulationAddress referenceNumber
GridAxisDescriptorVariable | domainInitialXi domainFinalXi domainPointsXi interleafFactor axisType numberOfPointsOnXiAxis initialIndex coordinateScaleXi coordinateOffsetXi xiValues
SupplyQuantity | supplyType quantity
SilentEntitySystem | numberOfEntities entityType appearanceRecordList
SilentAggregateSystem | numberOfAggregates aggregateType
BlankingSector | emitterNumber beamNumber stateIndicator leftAzimuth rightAzimuth lowerElevation upperElevation residualPower
LaunchedMunitionRecord | fireEventID firingEntityID targetEntityID targetLocation
IFFFundamentalParameterData | erp frequency pgrf pulseWidth burstLength applicableModes systemSpecificData
FundamentalOperationalData | systemStatus dataField1 informationLayers dataField2 parameter1 parameter2 parameter3 parameter4 parameter5 parameter6
IntercomCommunicationsParameters | recordType recordLength recordSpecificField
EntityType | entityKind domain country category subcategory specific extra
Munition | munitionType station quantity munitionStatus
StandardVariableSpecification | standardVariables
Vector2Float | x y
Environment | environmentType length index
AcousticEmitter | acousticSystemName acousticFunction acousticIDNumber
AngularVelocityVector | x y z
AggregateMarking | characterSet characters
DataFilterRecord | bitFlags
IntercomIdentifier | siteNumber applicationNumber referenceNumber intercomNumber
StorageFuel | fuelQuantity fuelMeasurementUnits fuelType fuelLocation
Sensor | sensorTypeSource sensorOnOffStatus sensorType station quantity
MunitionReload | munitionType station standardQuantity maximumQuantity standardQuantityReloadTime maximumQuantityReloadTime
StorageFuelReload | standardQuantity maximumQuantity standardQuantityReloadTime maximumQuantityReloadTime fuelMeasurementUnits fuelType fuelLocation
ExpendableReload | expendable station standardQuantity maximumQuantity standardQuantityReloadTime maximumQuantityReloadTime
EngineFuelReload | standardQuantity maximumQuantity standardQuantityReloadTime maximumQuantityReloadTime fuelMeasurementUnits fuelLocation
UnattachedIdentifier | simulationAddress referenceNumber
EntityTypeVP | changeIndicator entityType
BeamStatus | beamState
EnvironmentGeneral | environmentType length index geometry
GridAxis | domainInitialXi domainFinalXi domainPointsXi interleafFactor axisType numberOfPointsOnXiAxis initialIndex
RecordSpecification | recordSets
VariableDatum | variableDatumID variableDatumLength variableData
EventIdentifierLiveEntity | siteNumber applicationNumber eventNumber
PduHeader | protocolVersion exerciseID pduType protocolFamily timestamp pduLength pduStatus
CommunicationsNodeID | entityID elementID
ExpendableDescriptor | expendableType
PropulsionSystemData | powerSetting engineRpm
LiveEntityIdentifier | liveSimulationAddress entityNumber
SeparationVP | reasonForSeparation preEntityIndicator parentEntityID stationLocation
EmitterSystem | emitterName emitterFunction emitterIDNumber
PduStatus | pduStatus
EmissionSystemBeamRecord | beamDataLength beamIDNumber beamParameterIndex fundamentalParameterData beamFunction highDensityTrackJam beamStatus jammingModeSequence trackJamRecords
EmissionSystemRecord | systemDataLength emitterSystem location beamRecords
EntityIdentifier | simulationAddress entityNumber
EulerAngles | psi theta phi
EventIdentifier | simulationAddress eventNumber
SimulationAddress | site application
Vector3Float | x y z
WorldCoordinates | x y z
UnknownRadio | data
UnknownAntennaPattern | data
BeamAntennaPattern | beamDirection azimuthBeamwidth elevationBeamwidth referenceSystem ez ex phase
SpreadSpectrum | frequencyHopping pseudoNoise timeHopping padding
ModulationType | spreadSpectrum majorModulation detail radioSystem
NetId | netNumber frequencyTable mode padding
GenericRadio | 
SimpleIntercomRadio | 
BasicHaveQuickMP | net_id mwod_index reserved16 reserved8_1 reserved8_2 time_of_day padding
CCTTSincgarsMP | fh_net_id hop_set_id lockout_set_id start_of_message clear_channel fh_sync_time_offset transmission_security_key
HighFidelityHAVEQUICKRadio | netId todTransmitIndicator todDelta wod1 wod2 wod3 wod4 wod5 wod6
DirectedEnergyDamage | damageLocation damageDiameter temperature componentIdentification componentDamageStatus componentVisualDamageStatus componentVisualSmokeColor fireEventID
DirectedEnergyAreaAimpoint | beamAntennaPatterns directedEnergyTargetEnergyDepositions
DirectedEnergyPrecisionAimpoint | targetSpotLocation targetSpotEntityLocation targetSpotVelocity targetSpotAcceleration targetEntityID targetComponentID beamSpotType beamSpotCrossSectionSemiMajorAxis beamSpotCrossSectionSemiMinorAxis beamSpotCrossSectionOrientationAngle peakIrradiance
DirectedEnergyTargetEnergyDeposition | targetEntityID peakIrradiance
DEFireFlags | weaponOn stateUpdateFlag
