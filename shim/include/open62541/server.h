#ifndef UA_SERVER_H_
#define UA_SERVER_H_
#include <open62541/types.h>
#include <open62541/types_generated.h>
#include <open62541/plugin/log.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct UA_ServerConfig {
    void *context;
    const UA_Logger *logging;
    const UA_DataTypeArray *customDataTypes;
    UA_Boolean modellingRulesOnInstances;
} UA_ServerConfig;
typedef UA_StatusCode (*UA_MethodCallback)(UA_Server *server, const UA_NodeId *sessionId, void *sessionContext, const UA_NodeId *methodId, void *methodContext, const UA_NodeId *objectId, void *objectContext, size_t inputSize, const UA_Variant *input, size_t outputSize, UA_Variant *output);
UA_Server *UA_Server_new(void);
UA_StatusCode UA_Server_delete(UA_Server *server);
UA_ServerConfig *UA_Server_getConfig(UA_Server *server);
UA_StatusCode UA_ServerConfig_setDefault(UA_ServerConfig *config);
UA_StatusCode UA_Server_run_startup(UA_Server *s);
UA_UInt16 UA_Server_run_iterate(UA_Server *s, UA_Boolean w);
UA_StatusCode UA_Server_run_shutdown(UA_Server *s);
UA_UInt16 UA_Server_addNamespace(UA_Server *server, const char *name);
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *server, const UA_String namespaceUri, size_t *foundIndex);
UA_StatusCode UA_Server_getNamespaceByIndex(UA_Server *server, const size_t namespaceIndex, UA_String *foundUri);
const UA_DataType *UA_Server_findDataType(UA_Server *server, const UA_NodeId *typeId);
UA_StatusCode UA_Server_addNode_begin(UA_Server *server, const UA_NodeClass nodeClass, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_NodeId typeDefinition, const void *attr, const UA_DataType *attributeType, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_addNode_finish(UA_Server *server, const UA_NodeId nodeId);
#define UA_ADDT(N, A) UA_StatusCode UA_Server_add##N##Node(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_NodeId typeDefinition, const A attr, void *nodeContext, UA_NodeId *outNewNodeId);
#define UA_ADDN(N, A) UA_StatusCode UA_Server_add##N##Node(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const A attr, void *nodeContext, UA_NodeId *outNewNodeId);
UA_ADDT(Variable, UA_VariableAttributes) UA_ADDT(Object, UA_ObjectAttributes) UA_ADDT(VariableType, UA_VariableTypeAttributes)
UA_ADDN(ObjectType, UA_ObjectTypeAttributes) UA_ADDN(ReferenceType, UA_ReferenceTypeAttributes) UA_ADDN(DataType, UA_DataTypeAttributes) UA_ADDN(View, UA_ViewAttributes)
UA_StatusCode UA_Server_addMethodNode(UA_Server *server, const UA_NodeId requestedNewNodeId, const UA_NodeId parentNodeId, const UA_NodeId referenceTypeId, const UA_QualifiedName browseName, const UA_MethodAttributes attr, UA_MethodCallback method, size_t inputArgumentsSize, const UA_Argument *inputArguments, size_t outputArgumentsSize, const UA_Argument *outputArguments, void *nodeContext, UA_NodeId *outNewNodeId);
UA_StatusCode UA_Server_deleteNode(UA_Server *server, const UA_NodeId nodeId, UA_Boolean deleteReferences);
UA_StatusCode UA_Server_addReference(UA_Server *server, const UA_NodeId sourceId, const UA_NodeId refTypeId, const UA_ExpandedNodeId targetId, UA_Boolean isForward);
UA_StatusCode UA_Server_deleteReference(UA_Server *server, const UA_NodeId sourceNodeId, const UA_NodeId referenceTypeId, UA_Boolean isForward, const UA_ExpandedNodeId targetNodeId, UA_Boolean deleteBidirectional);
UA_BrowseResult UA_Server_browse(UA_Server *server, UA_UInt32 maxReferences, const UA_BrowseDescription *bd);
UA_BrowseResult UA_Server_browseNext(UA_Server *server, UA_Boolean releaseContinuationPoint, const UA_ByteString *continuationPoint);
UA_StatusCode UA_Server_getNodeContext(UA_Server *server, UA_NodeId nodeId, void **nodeContext);
UA_StatusCode UA_Server_setNodeContext(UA_Server *server, UA_NodeId nodeId, void *nodeContext);
#define UA_RD(N, T) UA_StatusCode UA_Server_read##N(UA_Server *server, const UA_NodeId nodeId, T *out);
UA_RD(NodeClass, UA_NodeClass) UA_RD(BrowseName, UA_QualifiedName) UA_RD(DisplayName, UA_LocalizedText) UA_RD(Description, UA_LocalizedText)
UA_RD(IsAbstract, UA_Boolean) UA_RD(Symmetric, UA_Boolean) UA_RD(InverseName, UA_LocalizedText) UA_RD(ContainsNoLoops, UA_Boolean) UA_RD(EventNotifier, UA_Byte)
UA_RD(Value, UA_Variant) UA_RD(DataType, UA_NodeId) UA_RD(ValueRank, UA_Int32) UA_RD(ArrayDimensions, UA_Variant) UA_RD(AccessLevel, UA_Byte) UA_RD(UserAccessLevel, UA_Byte)
UA_RD(MinimumSamplingInterval, UA_Double) UA_RD(Historizing, UA_Boolean) UA_RD(Executable, UA_Boolean) UA_RD(UserExecutable, UA_Boolean) UA_RD(NodeId, UA_NodeId)
UA_StatusCode UA_Server_writeValue(UA_Server *server, const UA_NodeId nodeId, const UA_Variant value);
#ifdef __cplusplus
}
#endif
#endif
