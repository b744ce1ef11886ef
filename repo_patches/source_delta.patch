From 0905ce956b855cf38c1dbef8aef4116249789e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 01/40] fix: read_uint64 decodes an unsigned 64-bit integer

It delegated to the signed read_long, so values of 2**63 and above (e.g. a
Transmitter PDU frequency written with write_uint64) came back negative.
---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..2e43fe7 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return uint64(struct.unpack('>Q', self.stream.read(8))[0])
 
 
 class DataOutputStream:
-- 
2.43.0


From 85b5118fe8508fdc3628837ce2ad17bc230a2465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 02/40] fix: char8 stream primitives use one unsigned octet in
 both directions

read_char8 consumed two octets (UTF-16 code unit) while write_char8 emitted one
signed octet, so the pair was neither symmetric nor able to carry 0x80-0xFF.
---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 2e43fe7..4e20734 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -71,7 +71,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -151,7 +151,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From fb86de9d8c0f37ab3b5d795a176a3e743cac272a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 03/40] fix: read_bytes and read_utf reject short reads

On a truncated stream they silently returned fewer bytes than requested, and
a negative count (record length below the header size) swallowed the rest of
the stream. All the other primitives already raise struct.error.
---
 opendis/stream.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 4e20734..7a38d8a 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -66,8 +66,15 @@ class DataInputStream:
         return struct.unpack('>I', self.stream.read(4))[0]
 
     def read_bytes(self, n: int) -> bytes:
-        """Read n bytes from the stream."""
-        return self.stream.read(n)
+        """Read exactly n bytes from the stream."""
+        if n < 0:
+            raise ValueError(f"cannot read a negative number of bytes: {n}")
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise struct.error(
+                f"read_bytes requires {n} bytes, only {len(data)} available"
+            )
+        return data
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From bfc5cfabccc064dbf67610464f0542c3cf2603bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:06 +0000
Subject: [PATCH 04/40] fix: PduFactory maps every PDU type to its own class

Type 6 (Resupply Offer) was decoded as Collision-Elastic and type 41
(Environmental Process, not implemented) as Point Object State; the implemented
types 30, 53 and 68 had no decoder at all.
---
 opendis/PduFactory.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..9a85717 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
@@ -36,18 +36,19 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
@@ -60,6 +61,7 @@ PduTypeDecoders = {
     , 63 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
  }
 
-- 
2.43.0


From 214f8fc98ec5d3160e99c69a4cbe624881b94b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 05/40] fix: lists of plain integers are encoded and decoded as
 integers

Five classes called anObj.serialize() on ints and, when parsing, the undefined
name null(), so any non-empty list raised AttributeError/NameError.
---
 opendis/dis7.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..a0efe4f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2134,7 +2134,7 @@ class GridAxisDescriptorVariable:
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
         for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_short(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2150,8 +2150,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_short()
             self.xiValues.append(element)
 
 
@@ -2205,7 +2204,7 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
         for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2213,8 +2212,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.appearanceRecordList.append(element)
 
 
@@ -4260,7 +4258,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
         for anObj in self.data:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4275,8 +4273,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
 
@@ -6563,7 +6560,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
         for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6576,8 +6573,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
 
 
@@ -7283,7 +7279,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
         for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7294,8 +7290,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
 
 
-- 
2.43.0


From 040eb8398cb4905fd935b4e9aa9ca9206d37b5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 06/40] fix: record lists decode their element class instead of
 the undefined null()

Resupply Received, SEES, Record Specification and Standard Variable
Specification raised NameError for any non-empty list.
---
 opendis/dis7.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a0efe4f..7e251a8 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2608,8 +2608,8 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
+            element = parseStandardVariableRecord(inputStream,
+                                                  StandardVariableRecord)
             self.standardVariables.append(element)
 
 
@@ -3283,7 +3283,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
@@ -4347,7 +4347,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
@@ -7105,12 +7105,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From f403ca4338a9e4c1a4cc3014f43886190aa8793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 07/40] fix: LinearObjectStatePdu can be constructed and
 decoded

__init__ assigned the undefined name numberOfSegments to a read-only property.
---
 opendis/dis7.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 7e251a8..d7fff98 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4131,8 +4131,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
-        """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
         self.objectType = objectType or ObjectType()
-- 
2.43.0


From 199c59e05707fb77509a28e7bc1f0834686c25de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 08/40] fix: Intercom Control PDU can be encoded and decoded

A default instance could not be serialized (len(None)), no datagram could be
parsed (unbound parse call), the length field counted records instead of octets,
and the 16-bit source communications device ID was sent in 8 bits.
---
 opendis/dis7.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d7fff98..f49b90a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6885,7 +6885,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: "list[IntercomCommunicationsParameters] | None" = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6904,14 +6904,13 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
-        """^^^This is wrong the length of the data field is variable. Using a long for now."""
+        self.intercomParameters = intercomParameters or []
+        """Intercom Communications Parameters records, 8 octets each"""
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        """Length of intercomParameters in octets"""
+        return len(self.intercomParameters) * 8
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6919,7 +6918,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6936,7 +6935,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
@@ -6944,8 +6943,10 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterEntityID.parse(inputStream)
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
-        # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        for idx in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From f633108f6097b9a7c8e075ddc2c477e5a761ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 09/40] fix: variable parameter records serialize their
 declared fields

Attached Parts referred to an attribute that does not exist, Separation wrote a
record object as an integer, and Articulated Parts could not carry the float
parameter value it declares. All keep the 16-octet record size.
---
 opendis/dis7.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index f49b90a..a6f41f6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -800,7 +800,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -808,7 +808,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
@@ -889,6 +889,7 @@ class ArticulatedParts:
         """the type of parameter represented, 32 bit enumeration"""
         self.parameterValue = parameterValue
         """The definition of the 64 bits shall be determined based on the type of parameter specified in the Parameter Type field"""
+        self.padding: uint32 = 0
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -896,7 +897,8 @@ class ArticulatedParts:
         outputStream.write_unsigned_byte(self.changeIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        outputStream.write_float(self.parameterValue)
+        outputStream.write_unsigned_int(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -904,7 +906,8 @@ class ArticulatedParts:
         self.changeIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.parameterValue = inputStream.read_float()
+        self.padding = inputStream.read_unsigned_int()
 
 
 class ObjectType:
@@ -3606,7 +3609,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3616,7 +3619,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From 14e3421f9c09f4692b39e1deb677cf1fca6fc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 10/40] fix: constructors keep the values they are given

Data Query, Engine Fuel, Angular Velocity Vector and Aggregate Marking accepted
their field values and discarded them.
---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a6f41f6..53af5a6 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1974,13 +1974,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
@@ -2709,11 +2709,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
@@ -2741,7 +2741,7 @@ class AggregateMarking:
                  characters=None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
@@ -4070,8 +4070,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From 50bafe6295dd168a5e9a2ff17d9868fe6ae79619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 11/40] fix: Silent Aggregate System and Environment records
 can be serialized

Their serialize methods used attributes the constructors never set.
---
 opendis/dis7.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 53af5a6..40a5a8c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2235,7 +2235,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2649,7 +2649,7 @@ class Environment:
         self.length = length
         """length, in bits, of the record"""
         self.index = index
-        self.padding0: uint8 = 0
+        self.padding: uint8 = 0
         """identifies the sequentially numbered record index"""
         # MISSING: Geometry/State record
         self.padding1 = 0  # pad to 64-bit boundary
@@ -3178,14 +3178,14 @@ class EnvironmentGeneral:
                  environmentType: enum32 = 0,  # [UID 250]
                  length: uint16=0,
                  index: uint8 = 0,
-                 geometry=None):
+                 geometry=0):
         self.environmentType = environmentType
         """Record type"""
         self.length = length
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
@@ -3194,7 +3194,7 @@ class EnvironmentGeneral:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.environmentType)
-        outputStream.write_unsigned_byte(self.length)
+        outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
         outputStream.write_unsigned_byte(self.padding1)
         outputStream.write_unsigned_byte(self.geometry)
@@ -3203,7 +3203,7 @@ class EnvironmentGeneral:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
-        self.length = inputStream.read_unsigned_byte()
+        self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_byte()
         self.geometry = inputStream.read_unsigned_byte()
-- 
2.43.0


From abd362ec6f3e9d0ccdf5e164647f654911aa5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 12/40] fix: Directed Energy Fire PDU transmits
 cumulativeShotTime

serialize and parse used a misspelt attribute, so a new PDU could not be sent.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 40a5a8c..57c0540 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6360,7 +6360,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6380,7 +6380,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From 304bc5e6f163cbabdc04e60321e9cdf579d5e73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:08 +0000
Subject: [PATCH 13/40] fix: fields are transmitted with their declared width

Storage Fuel Reload times (uint32) were sent in 8 bits, the Event Report-R event
type (enum32) in 16 bits, and PduHeader swapped the widths of length and status.
---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 57c0540..dd7198a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2978,8 +2978,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2989,8 +2989,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
@@ -3406,8 +3406,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3417,8 +3417,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
@@ -7236,14 +7236,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From c0e19cc748510c14e244260ce1bb3dc3113edb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 14/40] fix: Standard Variable records carry one header with a
 16-bit length

The base class wrote a 32-bit record length while every parser reads 16
bits, and most subclasses wrote the header a second time.
---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From cec4395118cb4a9ef5d93ed92420e0c7860beabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 15/40] fix: DE Area Aimpoint record declares and pads its real
 length

---
 opendis/record/warfare/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..8e114a5 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -127,7 +127,12 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         return len(self.directedEnergyTargetEnergyDepositions)
 
     def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+        size = self._unpaddedSize()
+        # The record length shall be a multiple of 8 octets
+        return size + -size % 8
+
+    def _unpaddedSize(self) -> int:
+        size = 12  # recordType, recordLength, padding, counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
@@ -147,6 +152,8 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
 
+        outputStream.write_bytes(b'\x00' * (-self._unpaddedSize() % 8))
+
     def parse(self,
               inputStream: DataInputStream,
               bytelength: int) -> None:
@@ -163,6 +170,8 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
+        # Skip the padding at the end of the record
+        inputStream.read_bytes(bytelength - self._unpaddedSize())
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From bbf9278db9c54fae1634029c6357913a66a31876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 16/40] fix: unrecognised Standard Variable records are kept as
 placeholders

The placeholder class was never a subclass of the expected record family,
so any unrecognised record type in a Transmitter or DE PDU raised TypeError.
---
 opendis/record/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..3482a94 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,7 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From 61166aeaba8ac01b78dafea265e39acda757604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 17/40] fix: unknown antenna patterns consume their declared
 length

---
 opendis/record/radio/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..ec63bc5 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -95,8 +95,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
               bytelength: int) -> None:
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
-        # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
-- 
2.43.0


From dbf0ed51119b20f62a08991554b62687a0d0a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:43 +0000
Subject: [PATCH 18/40] fix: bit field records keep their unused bits

---
 opendis/record/radio/__init__.py | 1 +
 opendis/record/warfare/enums.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index ec63bc5..f9b0cd2 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -212,6 +212,7 @@ class SpreadSpectrum(base.Record):
         self.frequencyHopping = bool(record_bitfield.frequencyHopping)
         self.pseudoNoise = bool(record_bitfield.pseudoNoise)
         self.timeHopping = bool(record_bitfield.timeHopping)
+        self.padding = record_bitfield.padding
 
 
 class ModulationType(base.Record):
diff --git a/opendis/record/warfare/enums.py b/opendis/record/warfare/enums.py
index 01d188a..b6a9e97 100644
--- a/opendis/record/warfare/enums.py
+++ b/opendis/record/warfare/enums.py
@@ -29,6 +29,7 @@ class DEFireFlags(base.Record):
         self._struct(
             self.weaponOn,
             self.stateUpdateFlag,
+            self.padding,
         ).serialize(outputStream)
 
     def parse(self, inputStream: DataInputStream) -> None:
-- 
2.43.0


From 247d116c00d6ac4646dd6cfa24878e889a9d096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:05 +0000
Subject: [PATCH 19/40] fix: bit fields reject values that do not fit

ctypes silently truncated them, so another value was transmitted.
---
 opendis/record/bitfield.py | 250 +++++++++++++++++++------------------
 1 file changed, 131 insertions(+), 119 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index a3df951..c85e1a0 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -1,119 +1,131 @@
-"""Bitfield type factory and related utilities.
-
-This module provides a factory function to create ctypes.Structure subclasses
-representing bitfields as defined in the DIS standard. These bitfields are used
-in various DIS records to pack multiple non-octet-aligned fields into a compact
-binary representation.
-"""
-
-from ctypes import (
-    _SimpleCData,
-    BigEndianStructure,
-    c_uint8,
-    c_uint16,
-    c_uint32,
-    sizeof,
-)
-from typing import Literal, Sequence
-
-from opendis.stream import DataInputStream, DataOutputStream
-from opendis.types import bf_enum, bf_int, bf_uint
-
-# Type definitions for bitfield field descriptors
-CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
-DisFieldDescription = tuple[str, "DisFieldType", int]
-
-# Field type constants simplify the construction of bitfields
-# which would otherwise require manually specifying ctypes types.
-# The currently implemented bitfields only use integers, but DIS7
-# mentions CHAR types which may be needed in future.
-DisFieldType = Literal["INTEGER"]
-INTEGER = "INTEGER"
-
-
-def _field(name: str,
-          ftype: DisFieldType,
-          bits: int,
-          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
-    """Helper function to create the field description tuple used by ctypes.
-
-    Args:
-        name: Field name
-        ftype: Field type (currently only INTEGER supported)
-        bits: Number of bits for this field
-        base_ctype: The base C type to use for all fields (ensures proper packing)
-    """
-    if ftype != INTEGER:
-        raise ValueError(f"Unrecognized ftype: {ftype}")
-    if bits <= 0 or bits > 32:
-        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-    return (name, base_ctype, bits)
-
-
-def bitfield(name: str,
-              fields: Sequence[DisFieldDescription]):
-    """Factory function for bitfield structs, which are subclasses of
-    ctypes.Structure.
-    These are used in records that require them to unpack non-octet-sized fields.
-
-    Args:
-        name: Name of the bitfield struct.
-        bytesize: Size of the bitfield in bytes.
-        fields: Sequence of tuples defining fields of the bitfield, in the form
-            (field_name, "INTEGER", field_size_in_bits).
-    """
-    # First pass: calculate total bitsize and validate
-    bitsize = 0
-    for field_name, ftype, bits in fields:
-        if ftype not in (INTEGER,):
-            raise ValueError(f"Unsupported field type: {ftype}")
-        if not isinstance(bits, int):
-            raise ValueError(f"Field size must be int: {bits!r}")
-        if bits <= 0 or bits > 32:
-            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-        bitsize += bits
-
-    if bitsize == 0:
-        raise ValueError(f"Bitfield size cannot be zero")
-    elif bitsize % 8 != 0:
-        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
-    bytesize = bitsize // 8
-
-    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
-    # All fields must use the same underlying type to avoid padding issues
-    if bitsize <= 8:
-        base_ctype = c_uint8
-    elif bitsize <= 16:
-        base_ctype = c_uint16
-    elif bitsize <= 32:
-        base_ctype = c_uint32
-    else:
-        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
-
-    # Second pass: create fields with consistent base type
-    struct_fields = []
-    for field_name, ftype, bits in fields:
-        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
-
-    # Create the struct class
-    class Bitfield(BigEndianStructure):
-        _fields_ = struct_fields
-
-        @staticmethod
-        def marshalledSize() -> int:
-            return bytesize
-
-        def serialize(self, outputStream: DataOutputStream) -> None:
-            outputStream.write_bytes(bytes(self))
-
-        @classmethod
-        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
-            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
-
-    # Sanity check: ensure the struct size matches expected size
-    assert sizeof(Bitfield) == bytesize, \
-        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
-
-    # Assign the class name
-    Bitfield.__name__ = name
-    return Bitfield
+"""Bitfield type factory and related utilities.
+
+This module provides a factory function to create ctypes.Structure subclasses
+representing bitfields as defined in the DIS standard. These bitfields are used
+in various DIS records to pack multiple non-octet-aligned fields into a compact
+binary representation.
+"""
+
+from ctypes import (
+    _SimpleCData,
+    BigEndianStructure,
+    c_uint8,
+    c_uint16,
+    c_uint32,
+    sizeof,
+)
+from typing import Literal, Sequence
+
+from opendis.stream import DataInputStream, DataOutputStream
+from opendis.types import bf_enum, bf_int, bf_uint
+
+# Type definitions for bitfield field descriptors
+CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
+DisFieldDescription = tuple[str, "DisFieldType", int]
+
+# Field type constants simplify the construction of bitfields
+# which would otherwise require manually specifying ctypes types.
+# The currently implemented bitfields only use integers, but DIS7
+# mentions CHAR types which may be needed in future.
+DisFieldType = Literal["INTEGER"]
+INTEGER = "INTEGER"
+
+
+def _field(name: str,
+          ftype: DisFieldType,
+          bits: int,
+          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
+    """Helper function to create the field description tuple used by ctypes.
+
+    Args:
+        name: Field name
+        ftype: Field type (currently only INTEGER supported)
+        bits: Number of bits for this field
+        base_ctype: The base C type to use for all fields (ensures proper packing)
+    """
+    if ftype != INTEGER:
+        raise ValueError(f"Unrecognized ftype: {ftype}")
+    if bits <= 0 or bits > 32:
+        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+    return (name, base_ctype, bits)
+
+
+def bitfield(name: str,
+              fields: Sequence[DisFieldDescription]):
+    """Factory function for bitfield structs, which are subclasses of
+    ctypes.Structure.
+    These are used in records that require them to unpack non-octet-sized fields.
+
+    Args:
+        name: Name of the bitfield struct.
+        bytesize: Size of the bitfield in bytes.
+        fields: Sequence of tuples defining fields of the bitfield, in the form
+            (field_name, "INTEGER", field_size_in_bits).
+    """
+    # First pass: calculate total bitsize and validate
+    bitsize = 0
+    for field_name, ftype, bits in fields:
+        if ftype not in (INTEGER,):
+            raise ValueError(f"Unsupported field type: {ftype}")
+        if not isinstance(bits, int):
+            raise ValueError(f"Field size must be int: {bits!r}")
+        if bits <= 0 or bits > 32:
+            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+        bitsize += bits
+
+    if bitsize == 0:
+        raise ValueError(f"Bitfield size cannot be zero")
+    elif bitsize % 8 != 0:
+        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
+    bytesize = bitsize // 8
+
+    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
+    # All fields must use the same underlying type to avoid padding issues
+    if bitsize <= 8:
+        base_ctype = c_uint8
+    elif bitsize <= 16:
+        base_ctype = c_uint16
+    elif bitsize <= 32:
+        base_ctype = c_uint32
+    else:
+        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
+
+    # Second pass: create fields with consistent base type
+    struct_fields = []
+    for field_name, ftype, bits in fields:
+        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
+
+    # Create the struct class
+    class Bitfield(BigEndianStructure):
+        _fields_ = struct_fields
+
+        def __init__(self, *args: int, **kwargs: int) -> None:
+            # ctypes silently drops the bits that do not fit in a field
+            values = dict(zip((field[0] for field in fields), args), **kwargs)
+            for field_name, _, bits in fields:
+                value = values.get(field_name, 0)
+                if not 0 <= value < 2 ** bits:
+                    raise ValueError(
+                        f"{name}.{field_name} must fit in {bits} bits, "
+                        f"got {value!r}"
+                    )
+            super().__init__(*args, **kwargs)
+
+        @staticmethod
+        def marshalledSize() -> int:
+            return bytesize
+
+        def serialize(self, outputStream: DataOutputStream) -> None:
+            outputStream.write_bytes(bytes(self))
+
+        @classmethod
+        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
+            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
+
+    # Sanity check: ensure the struct size matches expected size
+    assert sizeof(Bitfield) == bytesize, \
+        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
+
+    # Assign the class name
+    Bitfield.__name__ = name
+    return Bitfield
-- 
2.43.0


From 73b4f1ad00853179672a5f904788c9142af53604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 20/40] fix: Entity Marking characters are unsigned octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index dd7198a..627be60 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1237,14 +1237,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From c78502c43a9834792f15c4cde31bfb69ad8cbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 21/40] fix: 8-bit and 32-bit enumerations are unsigned on the
 wire

---
 opendis/dis7.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 627be60..5ad62be 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2277,7 +2277,7 @@ class BlankingSector:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_int(self.recordType)
+        outputStream.write_unsigned_int(self.recordType)
         outputStream.write_unsigned_short(self.recordLength)
         outputStream.write_unsigned_short(self.padding)
         outputStream.write_unsigned_byte(self.emitterNumber)
@@ -2295,7 +2295,7 @@ class BlankingSector:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
 
-        self.recordType = inputStream.read_int()  # TODO: validate
+        self.recordType = inputStream.read_unsigned_int()  # TODO: validate
         self.recordLength = inputStream.read_unsigned_short()  # TODO: validate
         self.padding = inputStream.read_unsigned_short()
         self.emitterNumber = inputStream.read_unsigned_byte()
@@ -4729,7 +4729,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4745,7 +4745,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
@@ -6827,7 +6827,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).serialize(outputStream)
         self.emittingEntityID.serialize(outputStream)
         self.eventID.serialize(outputStream)
-        outputStream.write_byte(self.stateChangeIndicator)
+        outputStream.write_unsigned_byte(self.stateChangeIndicator)
         outputStream.write_byte(self.pad)
         outputStream.write_unsigned_short(self.passiveParameterIndex)
         outputStream.write_unsigned_byte(self.propulsionPlantConfiguration)
@@ -6846,7 +6846,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).parse(inputStream)
         self.emittingEntityID.parse(inputStream)
         self.eventID.parse(inputStream)
-        self.stateChangeIndicator = inputStream.read_byte()
+        self.stateChangeIndicator = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_byte()
         self.passiveParameterIndex = inputStream.read_unsigned_short()
         self.propulsionPlantConfiguration = inputStream.read_unsigned_byte()
-- 
2.43.0


From e1786023188ac1a205d512725145026ad6a809b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 22/40] fix: variable datum lengths that are not whole octets
 keep their last bits

The partial octet was dropped and the record was no longer 64-bit aligned.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5ad62be..442f6ed 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3320,7 +3320,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3331,7 +3331,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From a508efafb957640cfa1f0abee9b0eccc4ce12aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 23/40] fix: IFF data record length includes the record header

---
 opendis/dis7.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 442f6ed..3d490ee 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -184,7 +184,8 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        # The record length includes the record type and length fields
+        outputStream.write_unsigned_short(len(self.iffData) + 6)
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From c28a41cf4dd4ac756b7f4bfba1edc5571de960f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:35 +0000
Subject: [PATCH 24/40] fix: Event Report PDU exposes its datum records

---
 opendis/dis7.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3d490ee..53df632 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5486,6 +5486,22 @@ class EventReportPdu(SimulationManagementFamilyPdu):
         self._datums = DatumSpecification(fixedDatumRecords or [],
                                           variableDatumRecords or [])
 
+    @property
+    def numberOfFixedDatumRecords(self) -> int:
+        return self._datums.numberOfFixedDatumRecords
+
+    @property
+    def numberOfVariableDatumRecords(self) -> int:
+        return self._datums.numberOfVariableDatumRecords
+
+    @property
+    def fixedDatumRecords(self) -> list["FixedDatum"]:
+        return self._datums.fixedDatumRecords
+
+    @property
+    def variableDatumRecords(self) -> list["VariableDatum"]:
+        return self._datums.variableDatumRecords
+
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportPdu, self).serialize(outputStream)
-- 
2.43.0


From 920203cacb30e45ecc3c953c353f88a7a7180351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 25/40] fix: FastEntityStatePdu fields are unsigned as in
 EntityStatePdu

---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 53df632..c1cc08b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5783,7 +5783,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5807,10 +5807,10 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.psi)
         outputStream.write_float(self.theta)
         outputStream.write_float(self.phi)
-        outputStream.write_int(self.entityAppearance)
+        outputStream.write_unsigned_int(self.entityAppearance)
         outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         for idx in range(0, 15):
-            outputStream.write_byte(self.otherParameters[idx])
+            outputStream.write_unsigned_byte(self.otherParameters[idx])
 
         outputStream.write_float(self.xAcceleration)
         outputStream.write_float(self.yAcceleration)
@@ -5819,9 +5819,9 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.yAngularVelocity)
         outputStream.write_float(self.zAngularVelocity)
         for idx in range(0, 12):
-            outputStream.write_byte(self.marking[idx])
+            outputStream.write_unsigned_byte(self.marking[idx])
 
-        outputStream.write_int(self.capabilities)
+        outputStream.write_unsigned_int(self.capabilities)
         for anObj in self.variableParameters:
             anObj.serialize(outputStream)
 
@@ -5832,7 +5832,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
@@ -5856,11 +5856,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.psi = inputStream.read_float()
         self.theta = inputStream.read_float()
         self.phi = inputStream.read_float()
-        self.entityAppearance = inputStream.read_int()
+        self.entityAppearance = inputStream.read_unsigned_int()
         self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.otherParameters = [0] * 15
         for idx in range(0, 15):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.otherParameters[idx] = val
 
@@ -5872,11 +5872,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.zAngularVelocity = inputStream.read_float()
         self.marking = [0] * 12
         for idx in range(0, 12):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.marking[idx] = val
 
-        self.capabilities = inputStream.read_int()
+        self.capabilities = inputStream.read_unsigned_int()
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
-- 
2.43.0


From 822af339b238f19fce64719d79238e04b471f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 26/40] fix: ecef2lla stays accurate near the poles and far
 from the Earth

Altitudes were wrong by metres near the poles (kilometres for satellites
above them) because it divides by cos(lat), and positions further than
about 70000 km away raised a math domain error.
---
 opendis/RangeCoordinates.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..7a5e124 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -128,8 +128,6 @@ class GPS:
         lon = atan2(y, x)
 
         # Initialize the variables to calculate lat and alt
-        alt = 0
-        N = self.wgs84.a
         p = sqrt(x**2 + y**2)
         lat = 0
         previousLat = 90
@@ -148,10 +146,12 @@ class GPS:
         # Iterate until tolerance is reached
         while abs(lat - previousLat) >= tolerance:
             previousLat = lat
-            sinLat = z / (N * (1 - self.wgs84.e**2) + alt)
-            lat = atan((z + self.wgs84.e**2 * N * sinLat) / p)
+            sinLat = sin(lat)
             N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sinLat)**2)
-            alt = p / cos(lat) - N
+            lat = atan2(z + self.wgs84.e**2 * N * sinLat, p)
+
+        # p / cos(lat) - N would lose all precision near the poles
+        alt = p * cos(lat) + z * sin(lat) - self.wgs84.a**2 / N
 
         # Return the lla coordinates
         return (rad2deg(lat), rad2deg(lon), alt)
-- 
2.43.0


From c31a9db88b39ed94b603215aad6251da62820125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 27/40] fix: UTM latitude band X reaches 84 degrees north

---
 opendis/RangeCoordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 7a5e124..bdd6053 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -348,7 +348,7 @@ class GPS:
         if (56. <= lat < 64.) and (3. <= lon < 12.):
             zoneNumber = 32
         #Special zones for Svalbard
-        if 72. <= lat < 84.:
+        if 72. <= lat <= 84.:
             if 0. <= lon < 9.: zoneNumber = 31
             elif 9. <= lon < 21.: zoneNumber = 33
             elif 21. <= lon < 33.: zoneNumber = 35
@@ -560,7 +560,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From 80d907dd554444b87ccf7fc12e0fde3105c3d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 28/40] fix: longitude 180 degrees is in UTM zone 1

---
 opendis/RangeCoordinates.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index bdd6053..17c566f 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -340,7 +340,8 @@ class GPS:
         Code segments from pygps project, Russ Nelson"""
         #Decompose lla
         lat = lla[0]
-        lon = lla[1]
+        #Longitude 180 is the antimeridian of zone 1, there is no zone 61
+        lon = -180. if lla[1] == 180. else lla[1]
         alt = lla[2]
         #Determine the zone number
         zoneNumber = int((lon+180.)/6) + 1
-- 
2.43.0


From f2c4db953b93cf519fe4c8823a2d9cf572005474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 29/40] fix: UTM northings of the southern hemisphere have the
 false northing

---
 opendis/RangeCoordinates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 17c566f..8378e5b 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -391,6 +391,9 @@ class GPS:
                 A**2/2. + \
                 (5.-T+9.*C+4.*C**2)*A**4/24. + \
                 (61.-58.*T+T**2+600.*C-330.*ePrimeSquared)*A**6/720.))
+        #False northing of the southern hemisphere
+        if lat < 0:
+            y += 10000000.
         #Calculate scale factor
         k = k0*(1 + \
             (1+C)*A**2/2. + \
-- 
2.43.0


From 3f7db214cace6258589dc5c6ecc14171205753f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 30/40] fix: AttributePdu has its PDU type and can be
 constructed

---
 opendis/dis7.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index c1cc08b..0a3963b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5337,6 +5337,7 @@ class AttributePdu(EntityInformationFamilyPdu):
     See 5.3.6 for the information requirements and issuance and receipt rules
     for this PDU. INCOMPLETE
     """
+    pduType: enum8 = 72  # [UID 4]
 
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
-- 
2.43.0


From 08a4b02e056c287842510f0ba35aef40e079d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 31/40] fix: the live entity header has the length of the other
 headers

subprotocolNumber is an 8-bit field, and was written in 16 bits, so that the
header took 13 octets, where the class says it has the same length as the
others.
---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 0a3963b..5b2ddc0 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3687,13 +3687,13 @@ class LiveEntityPdu(PduSuperclass):
     def serialize(self, outputStream):
         """serialize the class"""
         super(LiveEntityPdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.subprotocolNumber)
+        outputStream.write_unsigned_byte(self.subprotocolNumber)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(LiveEntityPdu, self).parse(inputStream)
-        self.subprotocolNumber = inputStream.read_unsigned_short()
+        self.subprotocolNumber = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From 9e6ac1b538d6ba666c002cd76291c99661e0b1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:21 +0000
Subject: [PATCH 32/40] fix: Transmitter sections of another length than their
 record's are kept as unknown

A known radio or antenna pattern was read with its own length, whatever the
declared one was, so that the sections after it started at the wrong octet.
---
 opendis/dis7.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5b2ddc0..c3eb3b7 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5079,23 +5079,25 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
                     radio = SimpleIntercomRadio()
                 else:
                     radio = GenericRadio()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem in (2, 3, 4):  # HAVE QUICK I | II | HAVE QUICK IIA
                 radio = BasicHaveQuickMP()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem == 6:  # CCTT SINCGARS
                 radio = CCTTSincgarsMP()
-                radio.parse(inputStream)
             else:  # Other | Unknown
                 radio = UnknownRadio()
-                radio.parse(inputStream, bytelength=modulationParametersLength)
+            if (not isinstance(radio, UnknownRadio)
+                    and radio.marshalledSize() != modulationParametersLength):
+                # Not the record that the radio system calls for
+                radio = UnknownRadio()
+            radio.parse(inputStream, bytelength=modulationParametersLength)
             self.modulationParameters = radio
         else:
             self.modulationParameters = None
 
         ## Antenna Pattern
         if antennaPatternLength > 0:
-            if self.antennaPatternType == 1:
+            if (self.antennaPatternType == 1 and antennaPatternLength
+                    == BeamAntennaPattern().marshalledSize()):
                 self.antennaPattern = BeamAntennaPattern()
                 self.antennaPattern.parse(inputStream)
             else:
-- 
2.43.0


From 52ecb17aa9b0c7891ea46e3d75d6c4909e05f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 33/40] fix: Standard Variable records of a fixed layout refuse
 another length

A known record was read with its own length, whatever the declared one was, so
that the records after it started at the wrong octet.
---
 opendis/record/radio/__init__.py   | 4 ++++
 opendis/record/warfare/__init__.py | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index f9b0cd2..e385432 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -497,6 +497,10 @@ class HighFidelityHAVEQUICKRadio(VariableTransmitterParametersRecord):
               bytelength: int) -> None:
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
+        if bytelength != self.marshalledSize():
+            raise ValueError(
+                f"bytelength must be {self.marshalledSize()}, got {bytelength!r}"
+            )
         self.padding1 = inputStream.read_uint16()
         self.netId.parse(inputStream)
         self.todTransmitIndicator = inputStream.read_uint8()
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 8e114a5..98064a6 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -90,6 +90,10 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
               bytelength: int) -> None:
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
+        if bytelength != self.marshalledSize():
+            raise ValueError(
+                f"bytelength must be {self.marshalledSize()}, got {bytelength!r}"
+            )
         self.padding = inputStream.read_unsigned_short()
         self.damageLocation.parse(inputStream)
         self.damageDiameter = inputStream.read_float32()
@@ -236,6 +240,10 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
         """
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
+        if bytelength != self.marshalledSize():
+            raise ValueError(
+                f"bytelength must be {self.marshalledSize()}, got {bytelength!r}"
+            )
         self.padding = inputStream.read_uint16()
         self.targetSpotLocation.parse(inputStream)
         self.targetSpotEntityLocation.parse(inputStream)
-- 
2.43.0


From e7a08072ff989ec4fd68f0f719775fe13a090edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 34/40] fix: rotate_3x3 raised for the column vector its
 documentation shows

---
 opendis/RangeCoordinates.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 8378e5b..5a2c18d 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -522,6 +522,9 @@ class GPS:
               the rotation.
         """
 
+        #a 3x1 column, as above, or the three components in a row
+        normal_vec = array(normal_vec).reshape(3)
+
         n_x = array([[      0  , -normal_vec[2], normal_vec[1] ],
                      [normal_vec[2] ,       0  , -normal_vec[0]],
                      [-normal_vec[1], normal_vec[0] ,   0      ]
-- 
2.43.0


From e7c65f3e575337189f2542523f98574f8bcf4d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:44 +0000
Subject: [PATCH 35/40] fix: bit fields of 24 bits could not be made, or had a
 fourth octet

---
 opendis/record/bitfield.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index c85e1a0..4dc2c64 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -116,15 +116,17 @@ def bitfield(name: str,
             return bytesize
 
         def serialize(self, outputStream: DataOutputStream) -> None:
-            outputStream.write_bytes(bytes(self))
+            # most significant first: the bits of a 24-bit layout come first
+            outputStream.write_bytes(bytes(self)[:bytesize])
 
         @classmethod
         def parse(cls, inputStream: DataInputStream) -> "Bitfield":
-            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
+            data = inputStream.read_bytes(bytesize)
+            return cls.from_buffer_copy(data.ljust(sizeof(cls), b'\x00'))
 
-    # Sanity check: ensure the struct size matches expected size
-    assert sizeof(Bitfield) == bytesize, \
-        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
+    # Sanity check: ensure the struct size matches that of its base type
+    assert sizeof(Bitfield) == sizeof(base_ctype), \
+        f"Bitfield size mismatch: expected {sizeof(base_ctype)}, got {sizeof(Bitfield)}"
 
     # Assign the class name
     Bitfield.__name__ = name
-- 
2.43.0


From ea8f105bb596d66c26b3824983781a7f65ece7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:38 +0000
Subject: [PATCH 36/40] fix: Standard Variable records of an odd length are
 refused, as receivers do

---
 opendis/record/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opendis/record/base.py b/opendis/record/base.py
index 455501b..cd91887 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -84,6 +84,11 @@ class StandardVariableRecord(VariableRecord):
     def serialize(self, outputStream: DataOutputStream) -> None:
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
+        # A receiver refuses any other length
+        if not self.recordLength % 8 == 0:
+            raise ValueError(
+                f"recordLength must be a multiple of 8, got {self.recordLength!r}"
+            )
         outputStream.write_uint32(self.recordType)
         outputStream.write_uint16(self.recordLength)
 
-- 
2.43.0


From 2994346436818bcd31204d12e57e108c2b742de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:38 +0000
Subject: [PATCH 37/40] fix: bitfield.py has its line endings back

---
 opendis/record/bitfield.py | 266 ++++++++++++++++++-------------------
 1 file changed, 133 insertions(+), 133 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index 4dc2c64..a3a3716 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -1,133 +1,133 @@
-"""Bitfield type factory and related utilities.
-
-This module provides a factory function to create ctypes.Structure subclasses
-representing bitfields as defined in the DIS standard. These bitfields are used
-in various DIS records to pack multiple non-octet-aligned fields into a compact
-binary representation.
-"""
-
-from ctypes import (
-    _SimpleCData,
-    BigEndianStructure,
-    c_uint8,
-    c_uint16,
-    c_uint32,
-    sizeof,
-)
-from typing import Literal, Sequence
-
-from opendis.stream import DataInputStream, DataOutputStream
-from opendis.types import bf_enum, bf_int, bf_uint
-
-# Type definitions for bitfield field descriptors
-CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
-DisFieldDescription = tuple[str, "DisFieldType", int]
-
-# Field type constants simplify the construction of bitfields
-# which would otherwise require manually specifying ctypes types.
-# The currently implemented bitfields only use integers, but DIS7
-# mentions CHAR types which may be needed in future.
-DisFieldType = Literal["INTEGER"]
-INTEGER = "INTEGER"
-
-
-def _field(name: str,
-          ftype: DisFieldType,
-          bits: int,
-          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
-    """Helper function to create the field description tuple used by ctypes.
-
-    Args:
-        name: Field name
-        ftype: Field type (currently only INTEGER supported)
-        bits: Number of bits for this field
-        base_ctype: The base C type to use for all fields (ensures proper packing)
-    """
-    if ftype != INTEGER:
-        raise ValueError(f"Unrecognized ftype: {ftype}")
-    if bits <= 0 or bits > 32:
-        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-    return (name, base_ctype, bits)
-
-
-def bitfield(name: str,
-              fields: Sequence[DisFieldDescription]):
-    """Factory function for bitfield structs, which are subclasses of
-    ctypes.Structure.
-    These are used in records that require them to unpack non-octet-sized fields.
-
-    Args:
-        name: Name of the bitfield struct.
-        bytesize: Size of the bitfield in bytes.
-        fields: Sequence of tuples defining fields of the bitfield, in the form
-            (field_name, "INTEGER", field_size_in_bits).
-    """
-    # First pass: calculate total bitsize and validate
-    bitsize = 0
-    for field_name, ftype, bits in fields:
-        if ftype not in (INTEGER,):
-            raise ValueError(f"Unsupported field type: {ftype}")
-        if not isinstance(bits, int):
-            raise ValueError(f"Field size must be int: {bits!r}")
-        if bits <= 0 or bits > 32:
-            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
-        bitsize += bits
-
-    if bitsize == 0:
-        raise ValueError(f"Bitfield size cannot be zero")
-    elif bitsize % 8 != 0:
-        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
-    bytesize = bitsize // 8
-
-    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
-    # All fields must use the same underlying type to avoid padding issues
-    if bitsize <= 8:
-        base_ctype = c_uint8
-    elif bitsize <= 16:
-        base_ctype = c_uint16
-    elif bitsize <= 32:
-        base_ctype = c_uint32
-    else:
-        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
-
-    # Second pass: create fields with consistent base type
-    struct_fields = []
-    for field_name, ftype, bits in fields:
-        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
-
-    # Create the struct class
-    class Bitfield(BigEndianStructure):
-        _fields_ = struct_fields
-
-        def __init__(self, *args: int, **kwargs: int) -> None:
-            # ctypes silently drops the bits that do not fit in a field
-            values = dict(zip((field[0] for field in fields), args), **kwargs)
-            for field_name, _, bits in fields:
-                value = values.get(field_name, 0)
-                if not 0 <= value < 2 ** bits:
-                    raise ValueError(
-                        f"{name}.{field_name} must fit in {bits} bits, "
-                        f"got {value!r}"
-                    )
-            super().__init__(*args, **kwargs)
-
-        @staticmethod
-        def marshalledSize() -> int:
-            return bytesize
-
-        def serialize(self, outputStream: DataOutputStream) -> None:
-            # most significant first: the bits of a 24-bit layout come first
-            outputStream.write_bytes(bytes(self)[:bytesize])
-
-        @classmethod
-        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
-            data = inputStream.read_bytes(bytesize)
-            return cls.from_buffer_copy(data.ljust(sizeof(cls), b'\x00'))
-
-    # Sanity check: ensure the struct size matches that of its base type
-    assert sizeof(Bitfield) == sizeof(base_ctype), \
-        f"Bitfield size mismatch: expected {sizeof(base_ctype)}, got {sizeof(Bitfield)}"
-
-    # Assign the class name
-    Bitfield.__name__ = name
-    return Bitfield
+"""Bitfield type factory and related utilities.
+
+This module provides a factory function to create ctypes.Structure subclasses
+representing bitfields as defined in the DIS standard. These bitfields are used
+in various DIS records to pack multiple non-octet-aligned fields into a compact
+binary representation.
+"""
+
+from ctypes import (
+    _SimpleCData,
+    BigEndianStructure,
+    c_uint8,
+    c_uint16,
+    c_uint32,
+    sizeof,
+)
+from typing import Literal, Sequence
+
+from opendis.stream import DataInputStream, DataOutputStream
+from opendis.types import bf_enum, bf_int, bf_uint
+
+# Type definitions for bitfield field descriptors
+CTypeFieldDescription = tuple[str, type[_SimpleCData], int]
+DisFieldDescription = tuple[str, "DisFieldType", int]
+
+# Field type constants simplify the construction of bitfields
+# which would otherwise require manually specifying ctypes types.
+# The currently implemented bitfields only use integers, but DIS7
+# mentions CHAR types which may be needed in future.
+DisFieldType = Literal["INTEGER"]
+INTEGER = "INTEGER"
+
+
+def _field(name: str,
+          ftype: DisFieldType,
+          bits: int,
+          base_ctype: type[_SimpleCData]) -> CTypeFieldDescription:
+    """Helper function to create the field description tuple used by ctypes.
+
+    Args:
+        name: Field name
+        ftype: Field type (currently only INTEGER supported)
+        bits: Number of bits for this field
+        base_ctype: The base C type to use for all fields (ensures proper packing)
+    """
+    if ftype != INTEGER:
+        raise ValueError(f"Unrecognized ftype: {ftype}")
+    if bits <= 0 or bits > 32:
+        raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+    return (name, base_ctype, bits)
+
+
+def bitfield(name: str,
+              fields: Sequence[DisFieldDescription]):
+    """Factory function for bitfield structs, which are subclasses of
+    ctypes.Structure.
+    These are used in records that require them to unpack non-octet-sized fields.
+
+    Args:
+        name: Name of the bitfield struct.
+        bytesize: Size of the bitfield in bytes.
+        fields: Sequence of tuples defining fields of the bitfield, in the form
+            (field_name, "INTEGER", field_size_in_bits).
+    """
+    # First pass: calculate total bitsize and validate
+    bitsize = 0
+    for field_name, ftype, bits in fields:
+        if ftype not in (INTEGER,):
+            raise ValueError(f"Unsupported field type: {ftype}")
+        if not isinstance(bits, int):
+            raise ValueError(f"Field size must be int: {bits!r}")
+        if bits <= 0 or bits > 32:
+            raise ValueError(f"Field size must be between 1 and 32: got {bits}")
+        bitsize += bits
+
+    if bitsize == 0:
+        raise ValueError(f"Bitfield size cannot be zero")
+    elif bitsize % 8 != 0:
+        raise ValueError(f"Bitfield size must be multiple of 8, got {bitsize}")
+    bytesize = bitsize // 8
+
+    # Determine base ctype based on TOTAL size (critical for Python 3.12+ compatibility)
+    # All fields must use the same underlying type to avoid padding issues
+    if bitsize <= 8:
+        base_ctype = c_uint8
+    elif bitsize <= 16:
+        base_ctype = c_uint16
+    elif bitsize <= 32:
+        base_ctype = c_uint32
+    else:
+        raise ValueError(f"Bitfield size {bitsize} exceeds maximum of 32 bits")
+
+    # Second pass: create fields with consistent base type
+    struct_fields = []
+    for field_name, ftype, bits in fields:
+        struct_fields.append(_field(field_name, ftype, bits, base_ctype))
+
+    # Create the struct class
+    class Bitfield(BigEndianStructure):
+        _fields_ = struct_fields
+
+        def __init__(self, *args: int, **kwargs: int) -> None:
+            # ctypes silently drops the bits that do not fit in a field
+            values = dict(zip((field[0] for field in fields), args), **kwargs)
+            for field_name, _, bits in fields:
+                value = values.get(field_name, 0)
+                if not 0 <= value < 2 ** bits:
+                    raise ValueError(
+                        f"{name}.{field_name} must fit in {bits} bits, "
+                        f"got {value!r}"
+                    )
+            super().__init__(*args, **kwargs)
+
+        @staticmethod
+        def marshalledSize() -> int:
+            return bytesize
+
+        def serialize(self, outputStream: DataOutputStream) -> None:
+            # most significant first: the bits of a 24-bit layout come first
+            outputStream.write_bytes(bytes(self)[:bytesize])
+
+        @classmethod
+        def parse(cls, inputStream: DataInputStream) -> "Bitfield":
+            data = inputStream.read_bytes(bytesize)
+            return cls.from_buffer_copy(data.ljust(sizeof(cls), b'\x00'))
+
+    # Sanity check: ensure the struct size matches that of its base type
+    assert sizeof(Bitfield) == sizeof(base_ctype), \
+        f"Bitfield size mismatch: expected {sizeof(base_ctype)}, got {sizeof(Bitfield)}"
+
+    # Assign the class name
+    Bitfield.__name__ = name
+    return Bitfield
-- 
2.43.0


From ab60b00b43fbe0f7a71e4ecb39c4d7e3a4e5d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:47 +0000
Subject: [PATCH 38/40] fix: bit fields refuse values that do not fit when they
 are assigned, too

---
 opendis/record/bitfield.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index a3a3716..93bc6d4 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -95,21 +95,21 @@ def bitfield(name: str,
     for field_name, ftype, bits in fields:
         struct_fields.append(_field(field_name, ftype, bits, base_ctype))
 
+    sizes = {field_name: bits for field_name, _, bits in fields}
+
     # Create the struct class
     class Bitfield(BigEndianStructure):
         _fields_ = struct_fields
 
-        def __init__(self, *args: int, **kwargs: int) -> None:
+        def __setattr__(self, field_name: str, value: int) -> None:
             # ctypes silently drops the bits that do not fit in a field
-            values = dict(zip((field[0] for field in fields), args), **kwargs)
-            for field_name, _, bits in fields:
-                value = values.get(field_name, 0)
-                if not 0 <= value < 2 ** bits:
-                    raise ValueError(
-                        f"{name}.{field_name} must fit in {bits} bits, "
-                        f"got {value!r}"
-                    )
-            super().__init__(*args, **kwargs)
+            bits = sizes.get(field_name)
+            if bits is not None and not 0 <= value < 2 ** bits:
+                raise ValueError(
+                    f"{name}.{field_name} must fit in {bits} bits, "
+                    f"got {value!r}"
+                )
+            super().__setattr__(field_name, value)
 
         @staticmethod
         def marshalledSize() -> int:
-- 
2.43.0


From e99a6b0182d908519e99b8667435040398a8e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:26 +0000
Subject: [PATCH 39/40] fix: longitudes of more than one turn have UTM zones
 that exist

---
 opendis/RangeCoordinates.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 5a2c18d..34a68b5 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -42,7 +42,7 @@ Classes:
         g0
 """
 #Import required packages
-from math import sqrt, pi, sin, cos, tan, atan, atan2, asin
+from math import sqrt, pi, sin, cos, tan, atan, atan2, asin, remainder
 from numpy import array, dot, identity
 
 
@@ -340,8 +340,10 @@ class GPS:
         Code segments from pygps project, Russ Nelson"""
         #Decompose lla
         lat = lla[0]
+        #Make sure the longitude is between -180 and 179.9...
+        lon = remainder(lla[1], 360.)
         #Longitude 180 is the antimeridian of zone 1, there is no zone 61
-        lon = -180. if lla[1] == 180. else lla[1]
+        if lon == 180.: lon = -180.
         alt = lla[2]
         #Determine the zone number
         zoneNumber = int((lon+180.)/6) + 1
-- 
2.43.0


From cf08603e2ff69ae7cc8ce01cbaea033c228505b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:46 +0000
Subject: [PATCH 40/40] fix: distances between points given as arrays of
 integers overflow

---
 opendis/RangeCoordinates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 34a68b5..b8b365d 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -63,9 +63,9 @@ def euclideanDistance(data, dataRef=None):
     total = 0
     for index in range(len(data)):
         if dataRef is None:
-            total += data[index]**2
+            total += float(data[index])**2
         else:
-            total += (data[index] - dataRef[index])**2
+            total += (float(data[index]) - float(dataRef[index]))**2
     return sqrt(total)
 
 
@@ -128,7 +128,7 @@ class GPS:
         lon = atan2(y, x)
 
         # Initialize the variables to calculate lat and alt
-        p = sqrt(x**2 + y**2)
+        p = euclideanDistance((x, y))
         lat = 0
         previousLat = 90
 
@@ -505,7 +505,7 @@ class GPS:
         """
         p = euclideanDistance(ned)
         alpha = atan2(ned[1], ned[0])
-        epsilon = atan2(-ned[2], sqrt(ned[0]**2 + ned[1]**2))
+        epsilon = atan2(-float(ned[2]), euclideanDistance(ned[:2]))
         return [p, rad2deg(alpha), rad2deg(epsilon)]
 
 
-- 
2.43.0

