/* Introspection of the mock server's address space, for the harness. */
#ifndef MOCKSERVER_H
#define MOCKSERVER_H
#include <open62541/server.h>
typedef struct MRef { UA_NodeId type, target; bool fwd; struct MRef *next; } MRef;
typedef struct MNode {
    UA_NodeId id; UA_NodeClass cls; UA_QualifiedName bn; UA_NodeId parent, parentRef, typeDef;
    void *attr; const UA_DataType *attrType; void *ctx; bool ns0; unsigned order, bootRefs; bool finished;
    MRef *refs; struct MNode *next, *hnext;
} MNode;
typedef struct MCall { unsigned seq; UA_NodeId id; UA_NodeClass cls; UA_NodeId parent, ref; UA_StatusCode st; struct MCall *next; } MCall;
MNode *mock_first(UA_Server *s);
MNode *mock_find(UA_Server *s, const UA_NodeId *id);
MCall *mock_calls(UA_Server *s);
size_t mock_nsCount(UA_Server *s);
const char *mock_nsUri(UA_Server *s, size_t i);
#endif
