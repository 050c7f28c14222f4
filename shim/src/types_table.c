/* generated by shim/gen_types.py */
#include <open62541/types.h>
static UA_DataTypeMember Argument_members[5] = {
    {"Name", &UA_TYPES[UA_TYPES_STRING], 0, 0, 0},
    {"DataType", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_Argument, dataType) - (offsetof(UA_Argument, name) + sizeof(UA_String))), 0, 0},
    {"ValueRank", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_Argument, valueRank) - (offsetof(UA_Argument, dataType) + sizeof(UA_NodeId))), 0, 0},
    {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_Argument, arrayDimensionsSize) - (offsetof(UA_Argument, valueRank) + sizeof(UA_Int32))), 1, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_Argument, description) - (offsetof(UA_Argument, arrayDimensions) + sizeof(void *))), 0, 0}};
static UA_DataTypeMember EnumValueType_members[3] = {
    {"Value", &UA_TYPES[UA_TYPES_INT64], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EnumValueType, displayName) - (offsetof(UA_EnumValueType, value) + sizeof(UA_Int64))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EnumValueType, description) - (offsetof(UA_EnumValueType, displayName) + sizeof(UA_LocalizedText))), 0, 0}};
static UA_DataTypeMember Range_members[2] = {
    {"Low", &UA_TYPES[UA_TYPES_DOUBLE], 0, 0, 0},
    {"High", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_Range, high) - (offsetof(UA_Range, low) + sizeof(UA_Double))), 0, 0}};
static UA_DataTypeMember EUInformation_members[4] = {
    {"NamespaceUri", &UA_TYPES[UA_TYPES_STRING], 0, 0, 0},
    {"UnitId", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_EUInformation, unitId) - (offsetof(UA_EUInformation, namespaceUri) + sizeof(UA_String))), 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EUInformation, displayName) - (offsetof(UA_EUInformation, unitId) + sizeof(UA_Int32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EUInformation, description) - (offsetof(UA_EUInformation, displayName) + sizeof(UA_LocalizedText))), 0, 0}};
static UA_DataTypeMember TimeZoneDataType_members[2] = {
    {"Offset", &UA_TYPES[UA_TYPES_INT16], 0, 0, 0},
    {"DaylightSavingInOffset", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_TimeZoneDataType, daylightSavingInOffset) - (offsetof(UA_TimeZoneDataType, offset) + sizeof(UA_Int16))), 0, 0}};
static UA_DataTypeMember XVType_members[2] = {
    {"X", &UA_TYPES[UA_TYPES_DOUBLE], 0, 0, 0},
    {"Value", &UA_TYPES[UA_TYPES_FLOAT], (UA_Byte)(offsetof(UA_XVType, value) - (offsetof(UA_XVType, x) + sizeof(UA_Double))), 0, 0}};
static UA_DataTypeMember OptionSet_members[2] = {
    {"Value", &UA_TYPES[UA_TYPES_BYTESTRING], 0, 0, 0},
    {"ValidBits", &UA_TYPES[UA_TYPES_BYTESTRING], (UA_Byte)(offsetof(UA_OptionSet, validBits) - (offsetof(UA_OptionSet, value) + sizeof(UA_ByteString))), 0, 0}};
static UA_DataTypeMember NodeAttributes_members[5] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_NodeAttributes, displayName) - (offsetof(UA_NodeAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_NodeAttributes, description) - (offsetof(UA_NodeAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_NodeAttributes, writeMask) - (offsetof(UA_NodeAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_NodeAttributes, userWriteMask) - (offsetof(UA_NodeAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0}};
static UA_DataTypeMember ObjectAttributes_members[6] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectAttributes, displayName) - (offsetof(UA_ObjectAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectAttributes, description) - (offsetof(UA_ObjectAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectAttributes, writeMask) - (offsetof(UA_ObjectAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectAttributes, userWriteMask) - (offsetof(UA_ObjectAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"EventNotifier", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_ObjectAttributes, eventNotifier) - (offsetof(UA_ObjectAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0}};
static UA_DataTypeMember VariableAttributes_members[13] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableAttributes, displayName) - (offsetof(UA_VariableAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableAttributes, description) - (offsetof(UA_VariableAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableAttributes, writeMask) - (offsetof(UA_VariableAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableAttributes, userWriteMask) - (offsetof(UA_VariableAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"Value", &UA_TYPES[UA_TYPES_VARIANT], (UA_Byte)(offsetof(UA_VariableAttributes, value) - (offsetof(UA_VariableAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0},
    {"DataType", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_VariableAttributes, dataType) - (offsetof(UA_VariableAttributes, value) + sizeof(UA_Variant))), 0, 0},
    {"ValueRank", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_VariableAttributes, valueRank) - (offsetof(UA_VariableAttributes, dataType) + sizeof(UA_NodeId))), 0, 0},
    {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableAttributes, arrayDimensionsSize) - (offsetof(UA_VariableAttributes, valueRank) + sizeof(UA_Int32))), 1, 0},
    {"AccessLevel", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_VariableAttributes, accessLevel) - (offsetof(UA_VariableAttributes, arrayDimensions) + sizeof(void *))), 0, 0},
    {"UserAccessLevel", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_VariableAttributes, userAccessLevel) - (offsetof(UA_VariableAttributes, accessLevel) + sizeof(UA_Byte))), 0, 0},
    {"MinimumSamplingInterval", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_VariableAttributes, minimumSamplingInterval) - (offsetof(UA_VariableAttributes, userAccessLevel) + sizeof(UA_Byte))), 0, 0},
    {"Historizing", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_VariableAttributes, historizing) - (offsetof(UA_VariableAttributes, minimumSamplingInterval) + sizeof(UA_Double))), 0, 0}};
static UA_DataTypeMember MethodAttributes_members[7] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_MethodAttributes, displayName) - (offsetof(UA_MethodAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_MethodAttributes, description) - (offsetof(UA_MethodAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_MethodAttributes, writeMask) - (offsetof(UA_MethodAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_MethodAttributes, userWriteMask) - (offsetof(UA_MethodAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"Executable", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_MethodAttributes, executable) - (offsetof(UA_MethodAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0},
    {"UserExecutable", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_MethodAttributes, userExecutable) - (offsetof(UA_MethodAttributes, executable) + sizeof(UA_Boolean))), 0, 0}};
static UA_DataTypeMember ObjectTypeAttributes_members[6] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, displayName) - (offsetof(UA_ObjectTypeAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, description) - (offsetof(UA_ObjectTypeAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, writeMask) - (offsetof(UA_ObjectTypeAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, userWriteMask) - (offsetof(UA_ObjectTypeAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, isAbstract) - (offsetof(UA_ObjectTypeAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0}};
static UA_DataTypeMember VariableTypeAttributes_members[10] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableTypeAttributes, displayName) - (offsetof(UA_VariableTypeAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableTypeAttributes, description) - (offsetof(UA_VariableTypeAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, writeMask) - (offsetof(UA_VariableTypeAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, userWriteMask) - (offsetof(UA_VariableTypeAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"Value", &UA_TYPES[UA_TYPES_VARIANT], (UA_Byte)(offsetof(UA_VariableTypeAttributes, value) - (offsetof(UA_VariableTypeAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0},
    {"DataType", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_VariableTypeAttributes, dataType) - (offsetof(UA_VariableTypeAttributes, value) + sizeof(UA_Variant))), 0, 0},
    {"ValueRank", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, valueRank) - (offsetof(UA_VariableTypeAttributes, dataType) + sizeof(UA_NodeId))), 0, 0},
    {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, arrayDimensionsSize) - (offsetof(UA_VariableTypeAttributes, valueRank) + sizeof(UA_Int32))), 1, 0},
    {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_VariableTypeAttributes, isAbstract) - (offsetof(UA_VariableTypeAttributes, arrayDimensions) + sizeof(void *))), 0, 0}};
static UA_DataTypeMember ReferenceTypeAttributes_members[8] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, displayName) - (offsetof(UA_ReferenceTypeAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, description) - (offsetof(UA_ReferenceTypeAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, writeMask) - (offsetof(UA_ReferenceTypeAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, userWriteMask) - (offsetof(UA_ReferenceTypeAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, isAbstract) - (offsetof(UA_ReferenceTypeAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0},
    {"Symmetric", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, symmetric) - (offsetof(UA_ReferenceTypeAttributes, isAbstract) + sizeof(UA_Boolean))), 0, 0},
    {"InverseName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, inverseName) - (offsetof(UA_ReferenceTypeAttributes, symmetric) + sizeof(UA_Boolean))), 0, 0}};
static UA_DataTypeMember DataTypeAttributes_members[6] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_DataTypeAttributes, displayName) - (offsetof(UA_DataTypeAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_DataTypeAttributes, description) - (offsetof(UA_DataTypeAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_DataTypeAttributes, writeMask) - (offsetof(UA_DataTypeAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_DataTypeAttributes, userWriteMask) - (offsetof(UA_DataTypeAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_DataTypeAttributes, isAbstract) - (offsetof(UA_DataTypeAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0}};
static UA_DataTypeMember ViewAttributes_members[7] = {
    {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], 0, 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ViewAttributes, displayName) - (offsetof(UA_ViewAttributes, specifiedAttributes) + sizeof(UA_UInt32))), 0, 0},
    {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ViewAttributes, description) - (offsetof(UA_ViewAttributes, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ViewAttributes, writeMask) - (offsetof(UA_ViewAttributes, description) + sizeof(UA_LocalizedText))), 0, 0},
    {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ViewAttributes, userWriteMask) - (offsetof(UA_ViewAttributes, writeMask) + sizeof(UA_UInt32))), 0, 0},
    {"ContainsNoLoops", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ViewAttributes, containsNoLoops) - (offsetof(UA_ViewAttributes, userWriteMask) + sizeof(UA_UInt32))), 0, 0},
    {"EventNotifier", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_ViewAttributes, eventNotifier) - (offsetof(UA_ViewAttributes, containsNoLoops) + sizeof(UA_Boolean))), 0, 0}};
static UA_DataTypeMember ViewDescription_members[3] = {
    {"ViewId", &UA_TYPES[UA_TYPES_NODEID], 0, 0, 0},
    {"Timestamp", &UA_TYPES[UA_TYPES_DATETIME], (UA_Byte)(offsetof(UA_ViewDescription, timestamp) - (offsetof(UA_ViewDescription, viewId) + sizeof(UA_NodeId))), 0, 0},
    {"ViewVersion", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ViewDescription, viewVersion) - (offsetof(UA_ViewDescription, timestamp) + sizeof(UA_DateTime))), 0, 0}};
static UA_DataTypeMember BrowseDescription_members[6] = {
    {"NodeId", &UA_TYPES[UA_TYPES_NODEID], 0, 0, 0},
    {"BrowseDirection", &UA_TYPES[UA_TYPES_BROWSEDIRECTION], (UA_Byte)(offsetof(UA_BrowseDescription, browseDirection) - (offsetof(UA_BrowseDescription, nodeId) + sizeof(UA_NodeId))), 0, 0},
    {"ReferenceTypeId", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_BrowseDescription, referenceTypeId) - (offsetof(UA_BrowseDescription, browseDirection) + sizeof(UA_BrowseDirection))), 0, 0},
    {"IncludeSubtypes", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_BrowseDescription, includeSubtypes) - (offsetof(UA_BrowseDescription, referenceTypeId) + sizeof(UA_NodeId))), 0, 0},
    {"NodeClassMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_BrowseDescription, nodeClassMask) - (offsetof(UA_BrowseDescription, includeSubtypes) + sizeof(UA_Boolean))), 0, 0},
    {"ResultMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_BrowseDescription, resultMask) - (offsetof(UA_BrowseDescription, nodeClassMask) + sizeof(UA_UInt32))), 0, 0}};
static UA_DataTypeMember ReferenceDescription_members[7] = {
    {"ReferenceTypeId", &UA_TYPES[UA_TYPES_NODEID], 0, 0, 0},
    {"IsForward", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ReferenceDescription, isForward) - (offsetof(UA_ReferenceDescription, referenceTypeId) + sizeof(UA_NodeId))), 0, 0},
    {"NodeId", &UA_TYPES[UA_TYPES_EXPANDEDNODEID], (UA_Byte)(offsetof(UA_ReferenceDescription, nodeId) - (offsetof(UA_ReferenceDescription, isForward) + sizeof(UA_Boolean))), 0, 0},
    {"BrowseName", &UA_TYPES[UA_TYPES_QUALIFIEDNAME], (UA_Byte)(offsetof(UA_ReferenceDescription, browseName) - (offsetof(UA_ReferenceDescription, nodeId) + sizeof(UA_ExpandedNodeId))), 0, 0},
    {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceDescription, displayName) - (offsetof(UA_ReferenceDescription, browseName) + sizeof(UA_QualifiedName))), 0, 0},
    {"NodeClass", &UA_TYPES[UA_TYPES_NODECLASS], (UA_Byte)(offsetof(UA_ReferenceDescription, nodeClass) - (offsetof(UA_ReferenceDescription, displayName) + sizeof(UA_LocalizedText))), 0, 0},
    {"TypeDefinition", &UA_TYPES[UA_TYPES_EXPANDEDNODEID], (UA_Byte)(offsetof(UA_ReferenceDescription, typeDefinition) - (offsetof(UA_ReferenceDescription, nodeClass) + sizeof(UA_NodeClass))), 0, 0}};
static UA_DataTypeMember BrowseResult_members[3] = {
    {"StatusCode", &UA_TYPES[UA_TYPES_STATUSCODE], 0, 0, 0},
    {"ContinuationPoint", &UA_TYPES[UA_TYPES_BYTESTRING], (UA_Byte)(offsetof(UA_BrowseResult, continuationPoint) - (offsetof(UA_BrowseResult, statusCode) + sizeof(UA_StatusCode))), 0, 0},
    {"References", &UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION], (UA_Byte)(offsetof(UA_BrowseResult, referencesSize) - (offsetof(UA_BrowseResult, continuationPoint) + sizeof(UA_ByteString))), 1, 0}};
static UA_DataTypeMember RelativePathElement_members[4] = {
    {"ReferenceTypeId", &UA_TYPES[UA_TYPES_NODEID], 0, 0, 0},
    {"IsInverse", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_RelativePathElement, isInverse) - (offsetof(UA_RelativePathElement, referenceTypeId) + sizeof(UA_NodeId))), 0, 0},
    {"IncludeSubtypes", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_RelativePathElement, includeSubtypes) - (offsetof(UA_RelativePathElement, isInverse) + sizeof(UA_Boolean))), 0, 0},
    {"TargetName", &UA_TYPES[UA_TYPES_QUALIFIEDNAME], (UA_Byte)(offsetof(UA_RelativePathElement, targetName) - (offsetof(UA_RelativePathElement, includeSubtypes) + sizeof(UA_Boolean))), 0, 0}};
UA_DataType UA_TYPES[UA_TYPES_COUNT] = {
    {"Boolean", {0, UA_NODEIDTYPE_NUMERIC, {1}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Boolean), 0, 1, 1, 0, NULL},
    {"SByte", {0, UA_NODEIDTYPE_NUMERIC, {2}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_SByte), 1, 1, 1, 0, NULL},
    {"Byte", {0, UA_NODEIDTYPE_NUMERIC, {3}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Byte), 2, 1, 1, 0, NULL},
    {"Int16", {0, UA_NODEIDTYPE_NUMERIC, {4}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Int16), 3, 1, 1, 0, NULL},
    {"UInt16", {0, UA_NODEIDTYPE_NUMERIC, {5}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_UInt16), 4, 1, 1, 0, NULL},
    {"Int32", {0, UA_NODEIDTYPE_NUMERIC, {6}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Int32), 5, 1, 1, 0, NULL},
    {"UInt32", {0, UA_NODEIDTYPE_NUMERIC, {7}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_UInt32), 6, 1, 1, 0, NULL},
    {"Int64", {0, UA_NODEIDTYPE_NUMERIC, {8}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Int64), 7, 1, 1, 0, NULL},
    {"UInt64", {0, UA_NODEIDTYPE_NUMERIC, {9}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_UInt64), 8, 1, 1, 0, NULL},
    {"Float", {0, UA_NODEIDTYPE_NUMERIC, {10}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Float), 9, 1, 1, 0, NULL},
    {"Double", {0, UA_NODEIDTYPE_NUMERIC, {11}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Double), 10, 1, 1, 0, NULL},
    {"String", {0, UA_NODEIDTYPE_NUMERIC, {12}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_String), 11, 0, 0, 0, NULL},
    {"DateTime", {0, UA_NODEIDTYPE_NUMERIC, {13}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_DateTime), 12, 1, 1, 0, NULL},
    {"Guid", {0, UA_NODEIDTYPE_NUMERIC, {14}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Guid), 13, 1, 0, 0, NULL},
    {"ByteString", {0, UA_NODEIDTYPE_NUMERIC, {15}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_ByteString), 14, 0, 0, 0, NULL},
    {"XmlElement", {0, UA_NODEIDTYPE_NUMERIC, {16}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_XmlElement), 15, 0, 0, 0, NULL},
    {"NodeId", {0, UA_NODEIDTYPE_NUMERIC, {17}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_NodeId), 16, 0, 0, 0, NULL},
    {"ExpandedNodeId", {0, UA_NODEIDTYPE_NUMERIC, {18}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_ExpandedNodeId), 17, 0, 0, 0, NULL},
    {"StatusCode", {0, UA_NODEIDTYPE_NUMERIC, {19}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_StatusCode), 18, 1, 1, 0, NULL},
    {"QualifiedName", {0, UA_NODEIDTYPE_NUMERIC, {20}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_QualifiedName), 19, 0, 0, 0, NULL},
    {"LocalizedText", {0, UA_NODEIDTYPE_NUMERIC, {21}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_LocalizedText), 20, 0, 0, 0, NULL},
    {"ExtensionObject", {0, UA_NODEIDTYPE_NUMERIC, {22}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_ExtensionObject), 21, 0, 0, 0, NULL},
    {"DataValue", {0, UA_NODEIDTYPE_NUMERIC, {23}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_DataValue), 22, 0, 0, 0, NULL},
    {"Variant", {0, UA_NODEIDTYPE_NUMERIC, {24}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Variant), 23, 0, 0, 0, NULL},
    {"DiagnosticInfo", {0, UA_NODEIDTYPE_NUMERIC, {25}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_DiagnosticInfo), 24, 0, 0, 0, NULL},
    {"UtcTime", {0, UA_NODEIDTYPE_NUMERIC, {294}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_UtcTime), 12, 1, 1, 0, NULL},
    {"Duration", {0, UA_NODEIDTYPE_NUMERIC, {290}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Duration), 10, 1, 1, 0, NULL},
    {"LocaleId", {0, UA_NODEIDTYPE_NUMERIC, {295}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_LocaleId), 11, 0, 0, 0, NULL},
    {"IntegerId", {0, UA_NODEIDTYPE_NUMERIC, {288}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_IntegerId), 6, 1, 1, 0, NULL},
    {"Counter", {0, UA_NODEIDTYPE_NUMERIC, {289}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_Counter), 6, 1, 1, 0, NULL},
    {"NodeClass", {0, UA_NODEIDTYPE_NUMERIC, {257}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_NodeClass), 26, 1, 1, 0, NULL},
    {"BrowseDirection", {0, UA_NODEIDTYPE_NUMERIC, {510}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_BrowseDirection), 26, 1, 1, 0, NULL},
    {"BrowseResultMask", {0, UA_NODEIDTYPE_NUMERIC, {517}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_BrowseResultMask), 26, 1, 1, 0, NULL},
    {"ServerState", {0, UA_NODEIDTYPE_NUMERIC, {852}}, {0, UA_NODEIDTYPE_NUMERIC, {0}}, sizeof(UA_ServerState), 26, 1, 1, 0, NULL},
    {"Argument", {0, UA_NODEIDTYPE_NUMERIC, {296}}, {0, UA_NODEIDTYPE_NUMERIC, {298}}, sizeof(UA_Argument), 27, 0, 0, 5, Argument_members},
    {"EnumValueType", {0, UA_NODEIDTYPE_NUMERIC, {7594}}, {0, UA_NODEIDTYPE_NUMERIC, {8251}}, sizeof(UA_EnumValueType), 27, 0, 0, 3, EnumValueType_members},
    {"Range", {0, UA_NODEIDTYPE_NUMERIC, {884}}, {0, UA_NODEIDTYPE_NUMERIC, {886}}, sizeof(UA_Range), 27, 1, 0, 2, Range_members},
    {"EUInformation", {0, UA_NODEIDTYPE_NUMERIC, {887}}, {0, UA_NODEIDTYPE_NUMERIC, {889}}, sizeof(UA_EUInformation), 27, 0, 0, 4, EUInformation_members},
    {"TimeZoneDataType", {0, UA_NODEIDTYPE_NUMERIC, {8912}}, {0, UA_NODEIDTYPE_NUMERIC, {8917}}, sizeof(UA_TimeZoneDataType), 27, 1, 0, 2, TimeZoneDataType_members},
    {"XVType", {0, UA_NODEIDTYPE_NUMERIC, {12080}}, {0, UA_NODEIDTYPE_NUMERIC, {12090}}, sizeof(UA_XVType), 27, 1, 0, 2, XVType_members},
    {"OptionSet", {0, UA_NODEIDTYPE_NUMERIC, {12755}}, {0, UA_NODEIDTYPE_NUMERIC, {12765}}, sizeof(UA_OptionSet), 27, 0, 0, 2, OptionSet_members},
    {"NodeAttributes", {0, UA_NODEIDTYPE_NUMERIC, {349}}, {0, UA_NODEIDTYPE_NUMERIC, {351}}, sizeof(UA_NodeAttributes), 27, 0, 0, 5, NodeAttributes_members},
    {"ObjectAttributes", {0, UA_NODEIDTYPE_NUMERIC, {352}}, {0, UA_NODEIDTYPE_NUMERIC, {354}}, sizeof(UA_ObjectAttributes), 27, 0, 0, 6, ObjectAttributes_members},
    {"VariableAttributes", {0, UA_NODEIDTYPE_NUMERIC, {355}}, {0, UA_NODEIDTYPE_NUMERIC, {357}}, sizeof(UA_VariableAttributes), 27, 0, 0, 13, VariableAttributes_members},
    {"MethodAttributes", {0, UA_NODEIDTYPE_NUMERIC, {358}}, {0, UA_NODEIDTYPE_NUMERIC, {360}}, sizeof(UA_MethodAttributes), 27, 0, 0, 7, MethodAttributes_members},
    {"ObjectTypeAttributes", {0, UA_NODEIDTYPE_NUMERIC, {361}}, {0, UA_NODEIDTYPE_NUMERIC, {363}}, sizeof(UA_ObjectTypeAttributes), 27, 0, 0, 6, ObjectTypeAttributes_members},
    {"VariableTypeAttributes", {0, UA_NODEIDTYPE_NUMERIC, {364}}, {0, UA_NODEIDTYPE_NUMERIC, {366}}, sizeof(UA_VariableTypeAttributes), 27, 0, 0, 10, VariableTypeAttributes_members},
    {"ReferenceTypeAttributes", {0, UA_NODEIDTYPE_NUMERIC, {367}}, {0, UA_NODEIDTYPE_NUMERIC, {369}}, sizeof(UA_ReferenceTypeAttributes), 27, 0, 0, 8, ReferenceTypeAttributes_members},
    {"DataTypeAttributes", {0, UA_NODEIDTYPE_NUMERIC, {370}}, {0, UA_NODEIDTYPE_NUMERIC, {372}}, sizeof(UA_DataTypeAttributes), 27, 0, 0, 6, DataTypeAttributes_members},
    {"ViewAttributes", {0, UA_NODEIDTYPE_NUMERIC, {373}}, {0, UA_NODEIDTYPE_NUMERIC, {375}}, sizeof(UA_ViewAttributes), 27, 0, 0, 7, ViewAttributes_members},
    {"ViewDescription", {0, UA_NODEIDTYPE_NUMERIC, {511}}, {0, UA_NODEIDTYPE_NUMERIC, {513}}, sizeof(UA_ViewDescription), 27, 0, 0, 3, ViewDescription_members},
    {"BrowseDescription", {0, UA_NODEIDTYPE_NUMERIC, {514}}, {0, UA_NODEIDTYPE_NUMERIC, {516}}, sizeof(UA_BrowseDescription), 27, 0, 0, 6, BrowseDescription_members},
    {"ReferenceDescription", {0, UA_NODEIDTYPE_NUMERIC, {518}}, {0, UA_NODEIDTYPE_NUMERIC, {520}}, sizeof(UA_ReferenceDescription), 27, 0, 0, 7, ReferenceDescription_members},
    {"BrowseResult", {0, UA_NODEIDTYPE_NUMERIC, {522}}, {0, UA_NODEIDTYPE_NUMERIC, {524}}, sizeof(UA_BrowseResult), 27, 0, 0, 3, BrowseResult_members},
    {"RelativePathElement", {0, UA_NODEIDTYPE_NUMERIC, {537}}, {0, UA_NODEIDTYPE_NUMERIC, {539}}, sizeof(UA_RelativePathElement), 27, 0, 0, 4, RelativePathElement_members},
};
