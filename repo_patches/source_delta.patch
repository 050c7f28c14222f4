From 3fc60b3e21ceaf6eb4cfb5e355c1a8a2ceb28e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 01/45] fix: using a loader before the first import must not
 crash

---
 src/NodesetLoader.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 4e80577..5a18dfb 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -514,6 +514,11 @@ cleanup:
 
 bool NodesetLoader_sort(NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        // nothing imported so far
+        return true;
+    }
     return Nodeset_sort(loader->nodeset);
 }
 
@@ -548,7 +553,10 @@ NodesetLoader *NodesetLoader_new(NodesetLoader_Logger *logger,
 
 void NodesetLoader_delete(NodesetLoader *loader)
 {
-    Nodeset_cleanup(loader->nodeset);
+    if (loader->nodeset)
+    {
+        Nodeset_cleanup(loader->nodeset);
+    }
     if (loader->internalLogger)
     {
         free(loader->logger);
@@ -563,6 +571,10 @@ void NodesetLoader_delete(NodesetLoader *loader)
 const NL_BiDirectionalReference *
 NodesetLoader_getBidirectionalRefs(const NodesetLoader *loader)
 {
+    if (!loader->nodeset)
+    {
+        return NULL;
+    }
     return Nodeset_getBiDirectionalRefs(loader->nodeset);
 }
 
@@ -570,5 +582,9 @@ size_t NodesetLoader_forEachNode(NodesetLoader *loader, NL_NodeClass nodeClass,
                                void *context,
                                NodesetLoader_forEachNode_Func fn)
 {
+    if (!loader->nodeset)
+    {
+        return 0;
+    }
     return Nodeset_forEachNode(loader->nodeset, nodeClass, context, fn);
 }
-- 
2.43.0


From 1e30ac46785e57ccc0cab233e3e34a5318415af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 02/45] fix: report truncated documents and release the xml
 parser on errors

---
 src/Parser.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/Parser.c b/src/Parser.c
index aa5bf27..73609df 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -46,17 +46,27 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     xmlInitParser(); // Fix memory leak: https://gitlab.gnome.org/GNOME/libxml2/-/issues/9
     xmlParserCtxtPtr ctxt =
         xmlCreatePushParserCtxt(&hdl, parser->context, chars, res, NULL);
-    while ((res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
+    if (!ctxt)
     {
-        if (xmlParseChunk(ctxt, chars, res, 0))
-        {
-            xmlParserError(ctxt, "xmlParseChunk");
-            return 1;
-        }
+        return 1;
+    }
+    int failed = 0;
+    while (!failed && (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
+    {
+        failed = xmlParseChunk(ctxt, chars, res, 0);
+    }
+    // a truncated document is only detected when the parser is told that there
+    // is no more input
+    if (!failed)
+    {
+        failed = ferror(file) || xmlParseChunk(ctxt, chars, 0, 1);
+    }
+    if (failed)
+    {
+        xmlParserError(ctxt, "xmlParseChunk");
     }
-    xmlParseChunk(ctxt, chars, 0, 1);
     xmlFreeParserCtxt(ctxt);
     xmlCleanupParser();
-    return 0;
+    return failed ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From a1cc4a0582dc463abb595ab9b74ec6a514069add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:28 +0000
Subject: [PATCH 03/45] fix: every node id has exactly one owner

Ids taken from the alias list were shared with the nodes and freed once per
use, or never; ids of references, data types and custom types were dropped or
outlived their owner.
---
 backends/open62541/src/DataTypeImporter.c | 11 +++++------
 backends/open62541/src/customDataType.c   |  4 +++-
 backends/open62541/src/import.c           |  5 +++--
 src/AliasList.c                           |  4 ++++
 src/Nodeset.c                             |  8 +++++++-
 src/nodes/DataTypeNode.c                  | 10 +++++++++-
 src/nodes/Node.c                          | 14 ++++++++++++--
 7 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 85e73eb..9db8e6b 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -31,7 +31,8 @@ static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
     {
         if (UA_NodeId_equal(&encodingRefType, &ref->refType))
         {
-            UA_NodeId id = ref->target;
+            UA_NodeId id = UA_NODEID_NULL;
+            UA_NodeId_copy(&ref->target, &id);
             return id;
         }
         ref = ref->next;
@@ -499,7 +500,6 @@ static void StructureDataType_init(const DataTypeImporter *importer,
     {
         type->typeKind = UA_DATATYPEKIND_STRUCTURE;
     }
-    type->typeId = node->id;
     type->binaryEncodingId = getBinaryEncodingId(node);
     type->pointerFree = true;
     if (!isOptionSet)
@@ -513,7 +513,6 @@ static void EnumDataType_init(const DataTypeImporter *importer,
                               UA_DataType *enumType,
                               const NL_DataTypeNode *node)
 {
-    enumType->typeId = node->id;
     enumType->typeKind = UA_DATATYPEKIND_ENUM;
     enumType->binaryEncodingId = UA_NODEID_NULL;
     enumType->pointerFree = true;
@@ -531,8 +530,7 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
 
     assert(parentType);
 
-    type->typeId = node->id;
-    type->binaryEncodingId = parentType->binaryEncodingId;
+    UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
     type->membersSize = 0;
     type->memSize = parentType->memSize;
@@ -630,7 +628,8 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
     memset(type, 0, sizeof(UA_DataType));
-    type->typeId = node->id;
+    // the types live longer than the nodes of the loader
+    UA_NodeId_copy(&node->id, &type->typeId);
     if (node->browseName.name)
     {
         size_t len = strlen(node->browseName.name);
diff --git a/backends/open62541/src/customDataType.c b/backends/open62541/src/customDataType.c
index f499d98..e6d073e 100644
--- a/backends/open62541/src/customDataType.c
+++ b/backends/open62541/src/customDataType.c
@@ -40,9 +40,11 @@ static void cleanupCustomTypes(const UA_DataTypeArray *types)
         const UA_DataTypeArray *next = types->next;
         if (types->types)
         {
-            for (const UA_DataType *type = types->types;
+            for (UA_DataType *type = (UA_DataType *)(uintptr_t)types->types;
                  type != types->types + types->typesSize; type++)
             {
+                UA_NodeId_clear(&type->typeId);
+                UA_NodeId_clear(&type->binaryEncodingId);
                 free((void*)(uintptr_t)type->typeName);
                 for (UA_DataTypeMember *m = type->members;
                      m != type->members + type->membersSize; m++)
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 34cfbdc..6f8f5cc 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -500,8 +500,9 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         if (UA_NodeId_equal(&r->source, &node->id))
         {
             NL_Reference *ref = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            ref->refType = r->refType;
-            ref->target = r->target;
+            // the reference gets deleted with the node
+            UA_NodeId_copy(&r->refType, &ref->refType);
+            UA_NodeId_copy(&r->target, &ref->target);
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
diff --git a/src/AliasList.c b/src/AliasList.c
index f187ad6..cd4e39d 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -59,6 +59,10 @@ const UA_NodeId *
 
 void AliasList_delete(AliasList *list)
 {
+    for(size_t i = 0; i < list->size; i++)
+    {
+        UA_NodeId_clear(&list->data[i].id);
+    }
     free(list->data);
     free(list);
 }
diff --git a/src/Nodeset.c b/src/Nodeset.c
index a3b3c88..6743312 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -150,7 +150,10 @@ static UA_NodeId alias2Id(const Nodeset *nodeset, char *name)
     {
         return extractNodedId(nodeset->namespaces, name);
     }
-    return *alias;
+    // the alias list keeps its own id, the caller gets a copy
+    UA_NodeId id = UA_NODEID_NULL;
+    UA_NodeId_copy(alias, &id);
+    return id;
 }
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
@@ -441,6 +444,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_VariableNode *)node)->refToTypeDef;
         ((NL_VariableNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -449,6 +453,7 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
         nodeset->refService->isHasTypeDefRef(nodeset->refService->context,
                                              newRef))
     {
+        newRef->next = ((NL_ObjectNode *)node)->refToTypeDef;
         ((NL_ObjectNode *)node)->refToTypeDef = newRef;
         return newRef;
     }
@@ -483,6 +488,7 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    UA_NodeId_clear(&alias->id);
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
 
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index c2343e7..9c71176 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -7,6 +7,7 @@
 
 #include "DataTypeNode.h"
 #include <stdlib.h>
+#include <string.h>
 
 static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition)
 {
@@ -18,7 +19,10 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
     {
         return NULL;
     }
-    return &definition->fields[definition->fieldCnt - 1];
+    NL_DataTypeDefinitionField *field =
+        &definition->fields[definition->fieldCnt - 1];
+    memset(field, 0, sizeof(*field));
+    return field;
 }
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
@@ -41,6 +45,10 @@ void DataTypeNode_clear(NL_DataTypeNode *node)
 {
     if (node->definition)
     {
+        for (size_t i = 0; i < node->definition->fieldCnt; i++)
+        {
+            UA_NodeId_clear(&node->definition->fields[i].dataType);
+        }
         free(node->definition->fields);
     }
     free(node->definition);
diff --git a/src/nodes/Node.c b/src/nodes/Node.c
index f494a80..608fa23 100644
--- a/src/nodes/Node.c
+++ b/src/nodes/Node.c
@@ -64,6 +64,7 @@ void Node_delete(NL_Node *node)
     UA_NodeId_clear(&node->id);
     deleteRef(node->hierachicalRefs);
     deleteRef(node->nonHierachicalRefs);
+    deleteRef(node->unknownRefs);
     if (node->nodeClass == NODECLASS_DATATYPE)
     {
         DataTypeNode_clear((NL_DataTypeNode *)node);
@@ -71,8 +72,9 @@ void Node_delete(NL_Node *node)
     if(node->nodeClass == NODECLASS_VARIABLE)
     {
         NL_VariableNode* varNode = (NL_VariableNode*)node;
-        free(varNode->refToTypeDef);
+        deleteRef(varNode->refToTypeDef);
         UA_NodeId_clear(&varNode->parentNodeId);
+        UA_NodeId_clear(&varNode->datatype);
         if(varNode->value)
         {
             Value_delete(varNode->value);
@@ -82,7 +84,15 @@ void Node_delete(NL_Node *node)
     {
         NL_ObjectNode *objNode = (NL_ObjectNode *)node;
         UA_NodeId_clear(&objNode->parentNodeId);
-        free(objNode->refToTypeDef);
+        deleteRef(objNode->refToTypeDef);
+    }
+    if(node->nodeClass==NODECLASS_METHOD || node->nodeClass==NODECLASS_VIEW)
+    {
+        UA_NodeId_clear(&((NL_InstanceNode *)node)->parentNodeId);
+    }
+    if(node->nodeClass==NODECLASS_VARIABLETYPE)
+    {
+        UA_NodeId_clear(&((NL_VariableTypeNode *)node)->datatype);
     }
     free(node);
 }
-- 
2.43.0


From 621016518d7ff6126004ff98c86794fd92f80c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 04/45] fix: more than 300 aliases or an alias without name
 must not crash

---
 src/AliasList.c | 18 +++++++++++++-----
 src/Nodeset.c   |  4 ++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/AliasList.c b/src/AliasList.c
index cd4e39d..4cab12c 100644
--- a/src/AliasList.c
+++ b/src/AliasList.c
@@ -9,12 +9,13 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MAX_ALIAS 300
+#define INITIAL_ALIAS_CAPACITY 300
 
 struct AliasList
 {
     Alias *data;
     size_t size;
+    size_t capacity;
 };
 
 AliasList *AliasList_new(void)
@@ -24,20 +25,27 @@ AliasList *AliasList_new(void)
     {
         return NULL;
     }
-    list->data = (Alias *)calloc(MAX_ALIAS, sizeof(Alias));
+    list->data = (Alias *)calloc(INITIAL_ALIAS_CAPACITY, sizeof(Alias));
     if(!list->data)
     {
         free(list);
         return NULL;
     }
+    list->capacity = INITIAL_ALIAS_CAPACITY;
     return list;
 }
 
 Alias *AliasList_newAlias(AliasList *list, char *name)
 {
-    if(list->size >= MAX_ALIAS)
+    if(list->size >= list->capacity)
     {
-        return NULL;
+        Alias *data = (Alias *)realloc(list->data, 2 * list->capacity * sizeof(Alias));
+        if(!data)
+        {
+            return NULL;
+        }
+        list->data = data;
+        list->capacity *= 2;
     }
     list->data[list->size].name = name;
     UA_NodeId_init(&list->data[list->size].id);
@@ -51,7 +59,7 @@ const UA_NodeId *
         return NULL;
 
     for(Alias* alias = list->data; alias != list->data + list->size; alias++) {
-        if (!strcmp(name, alias->name))
+        if (alias->name && !strcmp(name, alias->name))
             return &alias->id;
     }
     return NULL;
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 6743312..10b0678 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -488,6 +488,10 @@ Alias *Nodeset_newAlias(Nodeset *nodeset, int attributeSize,
 
 void Nodeset_newAliasFinish(Nodeset *nodeset, Alias *alias, char *idString)
 {
+    if (!alias)
+    {
+        return;
+    }
     UA_NodeId_clear(&alias->id);
     alias->id = extractNodedId(nodeset->namespaces, idString);
 }
-- 
2.43.0


From ef41795ff56478127e3c3260dac982b659a44228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 05/45] fix: hierarchical reference types are kept per loader
 and without limit

They were collected in a static table of 50 entries shared by all loaders, and
half of the hierarchical reference types of namespace 0 were missing.
---
 src/InternalRefService.c | 177 +++++++++++----------------------------
 1 file changed, 48 insertions(+), 129 deletions(-)

diff --git a/src/InternalRefService.c b/src/InternalRefService.c
index 45e2f2c..86b9b4a 100644
--- a/src/InternalRefService.c
+++ b/src/InternalRefService.c
@@ -12,126 +12,54 @@
 
 struct InternalRefService
 {
-    size_t hierachicalRefsSize;
-    NL_ReferenceTypeNode *hierachicalRefs;
+    struct NodeContainer *hierachicalRefs;
     struct NodeContainer *nonHierachicalRefs;
 };
 
 typedef struct InternalRefService InternalRefService;
 
-#define MAX_HIERACHICAL_REFS 50
-NL_ReferenceTypeNode hierachicalRefs[MAX_HIERACHICAL_REFS] = {
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {35}},
-     {0, "Organizes"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL,
-    },
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {36}},
-     {0, "HasEventSource"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {48}},
-     {0, "HasNotifier"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {44}},
-     {0, "Aggregates"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {45}},
-     {0, "HasSubtype"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {47}},
-     {0, "HasComponent"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {46}},
-     {0, "HasProperty"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {38}},
-     {0, "HasEncoding"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
-    {NODECLASS_REFERENCETYPE,
-     {0, UA_NODEIDTYPE_NUMERIC, {33}},
-     {0, "HierarchicalReferences"},
-     {NULL, NULL},
-     {NULL, NULL},
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     NULL,
-     {NULL, NULL},
-     NULL},
+// the subtypes of HierarchicalReferences in namespace 0
+static const UA_UInt32 hierachicalRefs[] = {
+    33,    // HierarchicalReferences
+    34,    // HasChild
+    35,    // Organizes
+    36,    // HasEventSource
+    38,    // HasEncoding
+    44,    // Aggregates
+    45,    // HasSubtype
+    46,    // HasProperty
+    47,    // HasComponent
+    48,    // HasNotifier
+    49,    // HasOrderedComponent
+    56,    // HasHistoricalConfiguration
+    129,   // HasArgumentDescription
+    131,   // HasOptionalInputArgumentDescription
+    14476, // HasPubSubConnection
+    15112, // HasGuard
+    15296, // HasDataSetWriter
+    15297, // HasDataSetReader
+    16361, // HasAlarmSuppressionGroup
+    16362, // AlarmGroupMember
+    17604, // HasAddIn
+    18804, // HasWriterGroup
+    18805  // HasReaderGroup
 };
 
+static bool
+isHierachicalId(const InternalRefService *service, const UA_NodeId *id) {
+    if (id->namespaceIndex == 0 && id->identifierType == UA_NODEIDTYPE_NUMERIC) {
+        for (size_t i = 0; i < sizeof(hierachicalRefs) / sizeof(UA_UInt32); i++) {
+            if (id->identifier.numeric == hierachicalRefs[i])
+                return true;
+        }
+    }
+    for (size_t i = 0; i < service->hierachicalRefs->size; i++) {
+        if (UA_NodeId_equal(id, &service->hierachicalRefs->nodes[i]->id))
+            return true;
+    }
+    return false;
+}
+
 static bool
 isRefNonHierachical(const InternalRefService *service,
                     const NL_Reference *ref) {
@@ -151,11 +79,7 @@ isRefNonHierachical(const InternalRefService *service,
 static bool
 isReferenceHierachical(const InternalRefService *service,
                        const NL_Reference *ref) {
-    for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-        if (UA_NodeId_equal(&ref->refType, &service->hierachicalRefs[i].id))
-            return true;
-    }
-    return false;
+    return isHierachicalId(service, &ref->refType);
 }
 
 static bool
@@ -169,15 +93,10 @@ addnewRefTypeImpl(InternalRefService *service, NL_ReferenceTypeNode *node) {
     NL_Reference *ref = node->hierachicalRefs;
     bool isHierachical = false;
     while (ref) {
-        if (!ref->isForward) {
-            for (size_t i = 0; i < service->hierachicalRefsSize; i++) {
-                if (UA_NodeId_equal(&service->hierachicalRefs[i].id, &ref->target)) {
-                    service->hierachicalRefs[service->hierachicalRefsSize++] =
-                        *(NL_ReferenceTypeNode *)node;
-                    isHierachical = true;
-                    break;
-                }
-            }
+        if (!ref->isForward && isHierachicalId(service, &ref->target)) {
+            NodeContainer_add(service->hierachicalRefs, (NL_Node *)node);
+            isHierachical = true;
+            break;
         }
         ref = ref->next;
     }
@@ -194,8 +113,7 @@ NL_ReferenceService *InternalRefService_new(void)
     {
         return NULL;
     }
-    service->hierachicalRefs = hierachicalRefs;
-    service->hierachicalRefsSize = 9;
+    service->hierachicalRefs = NodeContainer_new(100, false);
     service->nonHierachicalRefs = NodeContainer_new(100, false);
 
     NL_ReferenceService *refService = (NL_ReferenceService *)calloc(1, sizeof(NL_ReferenceService));
@@ -219,6 +137,7 @@ void InternalRefService_delete(NL_ReferenceService *refService)
 {
     InternalRefService *internalService =
         (InternalRefService *)refService->context;
+    NodeContainer_delete(internalService->hierachicalRefs);
     NodeContainer_delete(internalService->nonHierachicalRefs);
     free(internalService);
     free(refService);
-- 
2.43.0


From f1d3c619ea4cf2f559c1d806e59f64c7282329a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 06/45] fix: classify reference types independent of their
 order in the nodeset

A reference type declared before its supertype was taken as nonhierachical for
good, and unresolvable references of reference types made the sort loop
forever.
---
 src/Nodeset.c | 107 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 30 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 10b0678..fbca67a 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -195,47 +195,85 @@ static void insertElementAtFront(NL_Reference **toList, NL_Reference *elem)
     *toList = elem;
 }
 
+static bool isKnownReferenceType(const Nodeset *nodeset, const NL_Reference *ref)
+{
+    return nodeset->refService->isHierachicalRef(nodeset->refService->context,
+                                                 ref) ||
+           nodeset->refService->isNonHierachicalRef(
+               nodeset->refService->context, ref);
+}
+
+// A reference type can only be classified as hierachical or nonhierachical when
+// this is known for its supertypes
+static bool areSuperTypesKnown(const Nodeset *nodeset, const NL_Node *refType)
+{
+    for (const NL_Reference *ref = refType->hierachicalRefs; ref;
+         ref = ref->next)
+    {
+        NL_Reference superType = {0};
+        superType.refType = ref->target;
+        if (!ref->isForward && !isKnownReferenceType(nodeset, &superType))
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
 {
-    while (node->unknownRefs)
+    NL_Reference *ref = node->unknownRefs;
+    node->unknownRefs = NULL;
+    while (ref)
     {
-        NL_Reference *nextUnknown = node->unknownRefs->next;
+        NL_Reference *next = ref->next;
         if (nodeset->refService->isHierachicalRef(nodeset->refService->context,
-                                                  node->unknownRefs))
+                                                  ref))
         {
-            insertElementAtFront(&node->hierachicalRefs, node->unknownRefs);
-            node->unknownRefs = nextUnknown;
-            continue;
+            insertElementAtFront(&node->hierachicalRefs, ref);
         }
-        if (nodeset->refService->isNonHierachicalRef(
-                nodeset->refService->context, node->unknownRefs))
+        else if (nodeset->refService->isNonHierachicalRef(
+                     nodeset->refService->context, ref))
         {
-            insertElementAtFront(&node->nonHierachicalRefs, node->unknownRefs);
-            node->unknownRefs = nextUnknown;
-            continue;
+            insertElementAtFront(&node->nonHierachicalRefs, ref);
         }
-        return false;
+        else
+        {
+            insertElementAtFront(&node->unknownRefs, ref);
+        }
+        ref = next;
     }
-    return true;
+    return node->unknownRefs == NULL;
 }
 
+// Tell the reference service about the new reference types, supertypes first
 static void lookupReferenceTypes(Nodeset *nodeset)
 {
-    bool allRefTypesKnown = false;
-    while (!allRefTypesKnown)
+    NodeContainer *refTypes = nodeset->refTypesWithUnknownRefs;
+    while (refTypes->size > 0)
     {
-        allRefTypesKnown = true;
-        for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
+        // If there is no reference type with known supertypes left, the
+        // supertypes are not part of the nodeset
+        size_t next = 0;
+        int bestRank = -1;
+        for (size_t i = 0; i < refTypes->size && bestRank < 2; i++)
         {
-            allRefTypesKnown = lookupUnknownReferences(
-                nodeset, nodeset->refTypesWithUnknownRefs->nodes[i]);
+            bool resolved = lookupUnknownReferences(nodeset, refTypes->nodes[i]);
+            int rank = areSuperTypesKnown(nodeset, refTypes->nodes[i])
+                           ? (resolved ? 2 : 1)
+                           : 0;
+            if (rank > bestRank)
+            {
+                next = i;
+                bestRank = rank;
+            }
         }
-    }
-
-    for (size_t i = 0; i < nodeset->refTypesWithUnknownRefs->size; i++)
-    {
-        Sort_addNode(nodeset->sortCtx,
-                     nodeset->refTypesWithUnknownRefs->nodes[i]);
+        NL_Node *refType = refTypes->nodes[next];
+        refTypes->nodes[next] = refTypes->nodes[refTypes->size - 1];
+        refTypes->size--;
+        nodeset->refService->addNewReferenceType(
+            nodeset->refService->context, (NL_ReferenceTypeNode *)refType);
+        NodeContainer_add(nodeset->nodesWithUnknownRefs, refType);
     }
 }
 
@@ -246,11 +284,11 @@ bool Nodeset_sort(Nodeset *nodeset)
     lookupReferenceTypes(nodeset);
     // all hierachical references of a node should be known at this point
     // if there are nodes with unknown references, the import will be aborted
+    bool resolved = true;
     for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
     {
-        bool result = lookupUnknownReferences(
-            nodeset, nodeset->nodesWithUnknownRefs->nodes[i]);
-        if (!result)
+        if (!lookupUnknownReferences(nodeset,
+                                     nodeset->nodesWithUnknownRefs->nodes[i]))
         {
             UA_String nodeIdStr = {0};
             UA_NodeId_print(&nodeset->nodesWithUnknownRefs->nodes[i]->id,
@@ -260,10 +298,18 @@ bool Nodeset_sort(Nodeset *nodeset)
                 "node with unresolved reference(s): NodeId(%.*s)",
                 (int)nodeIdStr.length, (char *)nodeIdStr.data);
             UA_String_clear(&nodeIdStr);
-            return false;
+            resolved = false;
         }
+    }
+    if (!resolved)
+    {
+        return false;
+    }
+    for (size_t i = 0; i < nodeset->nodesWithUnknownRefs->size; i++)
+    {
         Sort_addNode(nodeset->sortCtx, nodeset->nodesWithUnknownRefs->nodes[i]);
     }
+    nodeset->nodesWithUnknownRefs->size = 0;
 
     return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
                       nodeset->logger);
@@ -504,7 +550,8 @@ void Nodeset_newNamespaceFinish(Nodeset *nodeset, void *userContext,
 
 void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
 {
-    if (!node->unknownRefs)
+    if (!node->unknownRefs && (node->nodeClass != NODECLASS_REFERENCETYPE ||
+                               areSuperTypesKnown(nodeset, node)))
     {
         if(!Sort_addNode(nodeset->sortCtx, node))
         {
-- 
2.43.0


From c1c366ac6cf9dc591c79fd8cd19b0c99c555e9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 07/45] fix: ParentNodeId orders the node behind its parent

The generated reference was not part of the sorting, its type depended on the
order of parent and child in the nodeset, and a node with only forward
references to its children got no reference to its parent.
---
 src/Sort.c | 70 +++++++++++++++++++++++++++---------------------------
 1 file changed, 35 insertions(+), 35 deletions(-)

diff --git a/src/Sort.c b/src/Sort.c
index 9ee81c3..b779162 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -33,6 +33,7 @@ struct S_Node
     struct S_Edge *edges;
     size_t edgeCount;
     NL_Node *data;
+    struct S_Node *parent; // from ParentNodeId
 };
 
 typedef struct S_Node S_Node;
@@ -290,66 +291,65 @@ bool Sort_addNode(SortContext *ctx, NL_Node *data) {
     }
     j->data = data;
     NL_Reference *hierachicalRef = data->hierachicalRefs;
-    bool hierachicalRefRecorded = false;
+    bool parentRefRecorded = false;
     if (hierachicalRef) {
         while (hierachicalRef) {
             S_Node *k = search_node(ctx->root1, &hierachicalRef->target);
             if (!hierachicalRef->isForward) {
                 record_relation(k, j);
+                parentRefRecorded = true;
             } else {
                 record_relation(j, k);
             }
             hierachicalRef = hierachicalRef->next;
-            hierachicalRefRecorded = true;
         }
     }
-    // add reference generated by ParentNodeId, if dont have already a hierachical ref
-    if (!hierachicalRefRecorded && NodesetLoader_isInstanceNode(data)) {
+    // a reference generated by ParentNodeId is added, if there is no hierachical
+    // reference to a parent; its type depends on the parent, which is possibly
+    // added later
+    if (!parentRefRecorded && NodesetLoader_isInstanceNode(data)) {
         NL_InstanceNode *instanceNode = (NL_InstanceNode *)data;
         if(UA_NodeId_equal(&instanceNode->parentNodeId, &UA_NODEID_NULL))
         {
             return true;
         }
+        j->parent = search_node(ctx->root1, &instanceNode->parentNodeId);
+        record_relation(j->parent, j);
+    }
+    return true;
+}
 
-        S_Node *k = search_node(ctx->root1, &instanceNode->parentNodeId);
-        
-        //to we already have a reference for the node parentNode?
-        //parent references
-        bool refTypeFound = false;
-        if (k->data) {
-            NL_Reference *r = k->data->hierachicalRefs;
-            while (r) {
-                if (UA_NodeId_equal(&r->target, &data->id)) 
-                {
-                    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-                    newRef->isForward = !r->isForward;
-                    UA_NodeId_copy(&k->data->id, &newRef->target);
-                    UA_NodeId_copy(&r->refType, &newRef->refType);
-                    newRef->next = data->hierachicalRefs;
-                    data->hierachicalRefs = newRef;
-                    refTypeFound = true;
-                    break;
-                }
-                r = r->next;
+static bool add_parent_reference(SortContext *ctx, S_Node *k)
+{
+    if (!k->parent)
+        return false;
+
+    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+    if (!newRef)
+        return false;
+    newRef->isForward = false;
+    UA_NodeId_copy(k->parent->id, &newRef->target);
+    newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
+    // do we already have a reference from the parent to the node?
+    if (k->parent->data) {
+        NL_Reference *r = k->parent->data->hierachicalRefs;
+        while (r) {
+            if (r->isForward && UA_NodeId_equal(&r->target, &k->data->id)) {
+                UA_NodeId_copy(&r->refType, &newRef->refType);
+                break;
             }
-        }
-        if(!refTypeFound)
-        {
-            NL_Reference *newRef =
-            (NL_Reference *)calloc(1, sizeof(NL_Reference));
-            newRef->isForward = false;
-            UA_NodeId_copy(&instanceNode->parentNodeId, &newRef->target);
-            newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
-            newRef->next = data->hierachicalRefs;
-            data->hierachicalRefs = newRef;
+            r = r->next;
         }
     }
-    return true;
+    newRef->next = k->data->hierachicalRefs;
+    k->data->hierachicalRefs = newRef;
+    return false;
 }
 
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    walk_tree(ctx, ctx->root1, add_parent_reference);
     walk_tree(ctx, ctx->root1, count_items);
 
     while (ctx->keyCnt > 0)
-- 
2.43.0


From cd0882ffb42f619c628dc5a380065ebd905705ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 08/45] fix: namespace indices and aliases are local to the
 imported file

A second file imported with the same loader was resolved with the namespace
table and the aliases of the first one.
---
 src/Nodeset.c       | 23 +++++++++++++++++++++++
 src/Nodeset.h       |  2 ++
 src/NodesetLoader.c |  4 ++++
 3 files changed, 29 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index fbca67a..a62ebae 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -184,6 +184,29 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     return nodeset;
 }
 
+bool Nodeset_newFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback)
+{
+    AliasList *aliasList = AliasList_new();
+    NamespaceList *namespaces = NamespaceList_new(nsCallback);
+    if (!aliasList || !namespaces)
+    {
+        if (aliasList)
+        {
+            AliasList_delete(aliasList);
+        }
+        if (namespaces)
+        {
+            NamespaceList_delete(namespaces);
+        }
+        return false;
+    }
+    AliasList_delete(nodeset->aliasList);
+    nodeset->aliasList = aliasList;
+    NamespaceList_delete(nodeset->namespaces);
+    nodeset->namespaces = namespaces;
+    return true;
+}
+
 static void Nodeset_addNode(Nodeset *nodeset, NL_Node *node)
 {
     NodeContainer_add(nodeset->nodes[node->nodeClass], node);
diff --git a/src/Nodeset.h b/src/Nodeset.h
index bc67733..db67994 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -40,6 +40,8 @@ struct Nodeset
 };
 
 Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback, NodesetLoader_Logger* logger, NL_ReferenceService* refService);
+// Namespaces and aliases are only valid in the file they are declared in
+bool Nodeset_newFile(Nodeset *nodeset, NL_addNamespaceCallback nsCallback);
 void Nodeset_cleanup(Nodeset *nodeset);
 bool Nodeset_sort(Nodeset *nodeset);
 NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 5a18dfb..463dffa 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -466,6 +466,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
         loader->nodeset = Nodeset_new(fileHandler->addNamespace, loader->logger,
                                       loader->refService);
     }
+    else if (!Nodeset_newFile(loader->nodeset, fileHandler->addNamespace))
+    {
+        return false;
+    }
 
     TParserCtx *ctx = NULL;
     FILE *f = fopen(fileHandler->file, "r");
-- 
2.43.0


From c7426593369d7dcfda4fdbecd365f9c7e11bfabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 09/45] fix: nodes and values are released even if they never
 get sorted

Nodes with unresolved references, nodes in a loop, duplicates and everything
imported without a following sort leaked.
---
 src/Nodeset.c       | 20 +++++++++++---------
 src/Nodeset.h       |  1 +
 src/NodesetLoader.c | 13 +++++++++++++
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index a62ebae..5c89598 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -168,14 +168,15 @@ Nodeset *Nodeset_new(NL_addNamespaceCallback nsCallback,
     nodeset->aliasList = AliasList_new();
     nodeset->namespaces = NamespaceList_new(nsCallback);
     nodeset->charArena = CharArenaAllocator_new(1024 * 1024);
-    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, true);
-    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, true);
-    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, true);
-    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, true);
+    nodeset->allNodes = NodeContainer_new(10000, true);
+    nodeset->nodes[NODECLASS_OBJECT] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_VARIABLE] = NodeContainer_new(10000, false);
+    nodeset->nodes[NODECLASS_METHOD] = NodeContainer_new(1000, false);
+    nodeset->nodes[NODECLASS_OBJECTTYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_DATATYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_REFERENCETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VARIABLETYPE] = NodeContainer_new(100, false);
+    nodeset->nodes[NODECLASS_VIEW] = NodeContainer_new(10, false);
     nodeset->nodesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refTypesWithUnknownRefs = NodeContainer_new(100, false);
     nodeset->refService = refService;
@@ -348,6 +349,7 @@ void Nodeset_cleanup(Nodeset *nodeset)
     }
     NodeContainer_delete(nodeset->nodesWithUnknownRefs);
     NodeContainer_delete(nodeset->refTypesWithUnknownRefs);
+    NodeContainer_delete(nodeset->allNodes);
     NamespaceList_delete(nodeset->namespaces);
     Sort_cleanup(nodeset->sortCtx);
     NL_BiDirectionalReference *ref = nodeset->hasEncodingRefs;
@@ -486,6 +488,7 @@ NL_Node *Nodeset_newNode(Nodeset *nodeset, NL_NodeClass nodeClass,
                          int nb_attributes, const char **attributes)
 {
     NL_Node *node = Node_new(nodeClass);
+    NodeContainer_add(nodeset->allNodes, node);
     initNode(nodeset, nodeset->namespaces, nodeClass, node, nb_attributes,
              attributes);
     return node;
@@ -583,7 +586,6 @@ void Nodeset_newNodeFinish(Nodeset *nodeset, NL_Node *node)
                 nodeset->logger->log(nodeset->logger->context, NODESETLOADER_LOGLEVEL_ERROR,
                             "node was not added to sorting algorithm, already exists");
             }
-            Node_delete(node);
         }
         else
         {
diff --git a/src/Nodeset.h b/src/Nodeset.h
index db67994..53aeb51 100644
--- a/src/Nodeset.h
+++ b/src/Nodeset.h
@@ -29,6 +29,7 @@ struct Nodeset
 {
     CharArenaAllocator *charArena;
     struct AliasList *aliasList;
+    struct NodeContainer *allNodes; // owner of the nodes
     struct NodeContainer *nodes[NL_NODECLASS_COUNT];
     struct NamespaceList *namespaces;
     struct SortContext *sortCtx;
diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index 463dffa..e610e38 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -367,7 +367,16 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             /* TODO: Enable VariableType to hold a valeu */
             if(pctx->node->nodeClass == NODECLASS_VARIABLE)
+            {
+                NL_Value *oldValue = ((NL_VariableNode *)pctx->node)->value;
                 ((NL_VariableNode *)pctx->node)->value = pctx->val;
+                pctx->val = oldValue;
+            }
+            if(pctx->val)
+            {
+                Value_delete(pctx->val);
+                pctx->val = NULL;
+            }
             pctx->state = PARSER_STATE_NODE;
         }
         else
@@ -508,6 +517,10 @@ bool NodesetLoader_importFile(NodesetLoader *loader,
     Parser_delete(parser);
 
 cleanup:
+    if (ctx && ctx->val)
+    {
+        Value_delete(ctx->val);
+    }
     free(ctx);
     if (f)
     {
-- 
2.43.0


From 303760ce87b44524f521c51840dd66ff801ea218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 10/45] fix: a Definition is only accepted for data types, the
 last one is used

---
 src/NodesetLoader.c      | 3 ++-
 src/nodes/DataTypeNode.c | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index e610e38..c124be0 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -220,7 +220,8 @@ static void OnStartElementNs(void *ctx, const char *localname,
         {
             pctx->state = PARSER_STATE_EXTENSIONS;
         }
-        else if (!strcmp(localname, "Definition"))
+        else if (!strcmp(localname, "Definition") &&
+                 pctx->node->nodeClass == NODECLASS_DATATYPE)
         {
             Nodeset_addDataTypeDefinition(pctx->nodeset, pctx->node, nb_attributes,
                                      attributes);
diff --git a/src/nodes/DataTypeNode.c b/src/nodes/DataTypeNode.c
index 9c71176..bbaaa1d 100644
--- a/src/nodes/DataTypeNode.c
+++ b/src/nodes/DataTypeNode.c
@@ -27,6 +27,7 @@ static NL_DataTypeDefinitionField *getNewField(NL_DataTypeDefinition *definition
 
 NL_DataTypeDefinition* DataTypeDefinition_new(NL_DataTypeNode* node)
 {
+    DataTypeNode_clear(node);
     node->definition =
         (NL_DataTypeDefinition *)calloc(1, sizeof(NL_DataTypeDefinition));
     if (!node->definition)
-- 
2.43.0


From 5c0401cc9380cc00a41accf19a5c0f87f6786ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 11/45] fix: sorting again after another import, encodings
 without BrowseName

---
 src/Nodeset.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 5c89598..7c22f45 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -335,8 +335,12 @@ bool Nodeset_sort(Nodeset *nodeset)
     }
     nodeset->nodesWithUnknownRefs->size = 0;
 
-    return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
-                      nodeset->logger);
+    bool sorted = Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
+                             nodeset->logger);
+    // the sorted nodes must not be sorted again with the next import
+    Sort_cleanup(nodeset->sortCtx);
+    nodeset->sortCtx = Sort_init();
+    return sorted;
 }
 
 void Nodeset_cleanup(Nodeset *nodeset)
@@ -618,6 +622,7 @@ void Nodeset_newReferenceFinish(Nodeset *nodeset, NL_Reference *ref,
     // handle hasEncoding in a special way
     UA_NodeId hasEncodingRef = UA_NODEID("i=38");
     if (UA_NodeId_equal(&ref->refType, &hasEncodingRef) &&
+        node->browseName.name &&
         !strcmp(node->browseName.name, "Default Binary") && !ref->isForward)
     {
         NL_BiDirectionalReference *newRef = (NL_BiDirectionalReference *)calloc(
-- 
2.43.0


From 60b2a621423da58aba915ff427f165e5b12f66f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 12/45] fix: a second element in a value must not replace and
 leak the first one

---
 src/Value.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Value.c b/src/Value.c
index c14153b..546cd80 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -48,7 +48,14 @@ void Value_start(NL_Value *val, const char *name)
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
-        if (!strncmp(name, "ListOf", strlen("ListOf")))
+        // there is exactly one value, only a list of extension objects is
+        // continued here
+        if (val->data && (!val->isArray || !val->isExtensionObject ||
+                          strcmp(name, "ExtensionObject")))
+        {
+            val->ctx->state = PARSERSTATE_FINISHED;
+        }
+        else if (!strncmp(name, "ListOf", strlen("ListOf")))
         {
             val->ctx->state = PARSERSTATE_LISTOF;
             val->isArray = true;
@@ -97,6 +104,12 @@ void Value_start(NL_Value *val, const char *name)
         }
         break;
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
+        if (!val->ctx->currentData && val->data)
+        {
+            // only one element in the body
+            val->ctx->state = PARSERSTATE_FINISHED;
+            break;
+        }
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
-- 
2.43.0


From e6a8809f0a73464fe3080d314d9db848682bdd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 13/45] fix: an element named Extension inside of an extension
 does not end it

---
 src/NodesetLoader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index c124be0..c64ba78 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -281,6 +281,7 @@ static void OnStartElementNs(void *ctx, const char *localname,
         }
         break;
     case PARSER_STATE_EXTENSION:
+        pctx->unknown_depth++;
         if (pctx->extIf)
         {
             pctx->extIf->start(pctx->extensionData, localname, nb_attributes, attributes);
@@ -387,7 +388,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         break;
     case PARSER_STATE_EXTENSION:
-        if (!strcmp(localname, EXTENSION))
+        if (pctx->unknown_depth == 0)
         {
             if (pctx->extIf)
             {
@@ -398,6 +399,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         }
         else
         {
+            pctx->unknown_depth--;
             if (pctx->extIf)
             {
                 pctx->extIf->end(pctx->extensionData, localname,
-- 
2.43.0


From 26a02393b47d9dcec4122792c834325a813d35d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 14/45] fix: unknown elements must not change the text of the
 surrounding element

---
 src/NodesetLoader.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/NodesetLoader.c b/src/NodesetLoader.c
index c64ba78..5287dbe 100644
--- a/src/NodesetLoader.c
+++ b/src/NodesetLoader.c
@@ -319,8 +319,12 @@ static void OnStartElementNs(void *ctx, const char *localname,
         pctx->unknown_depth++;
         break;    
     }
-    pctx->onCharacters = NULL;
-    pctx->onCharLength = 0;
+    // the text around an unknown element belongs to its known parent
+    if (pctx->state != PARSER_STATE_UNKNOWN)
+    {
+        pctx->onCharacters = NULL;
+        pctx->onCharLength = 0;
+    }
 }
 
 static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
@@ -432,6 +436,7 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
         {
             pctx->state = pctx->prev_state;
         }
+        return;
     }
     pctx->onCharacters = NULL;
     pctx->onCharLength = 0;
@@ -440,6 +445,10 @@ static void OnEndElementNs(void *ctx, const char *localname, const char *prefix,
 static void OnCharacters(void *ctx, const char *ch, int len)
 {
     TParserCtx *pctx = (TParserCtx *)ctx;
+    if (pctx->state == PARSER_STATE_UNKNOWN)
+    {
+        return;
+    }
     if (pctx->onCharacters == NULL)
     {
         char *newValue = CharArenaAllocator_malloc(pctx->nodeset->charArena,
-- 
2.43.0


From 044bd4bd6d9b2c52e05e09ad21a281ea110ca852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:44 +0000
Subject: [PATCH 15/45] fix: ampersands in attributes are decoded

---
 src/Parser.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Parser.c b/src/Parser.c
index 73609df..f5af150 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -50,6 +50,8 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
     {
         return 1;
     }
+    // otherwise &amp; in attributes is passed on as &#38;
+    xmlCtxtUseOptions(ctxt, XML_PARSE_NOENT);
     int failed = 0;
     while (!failed && (res = (int)fread(chars, 1, sizeof(chars), file)) > 0)
     {
-- 
2.43.0


From 8fb481a48babfc2e545eaa4ea78932344456eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 16/45] fix: an element behind an empty list is not a member of
 the list

---
 src/Value.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Value.c b/src/Value.c
index 546cd80..39140c0 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -219,8 +219,11 @@ void Value_end(NL_Value *val, const char *name, const char *value)
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
         val->ctx->state = PARSERSTATE_EXTENSIONOBJECT;
         break;
-    case PARSERSTATE_FINISHED:
     case PARSERSTATE_LISTOF:
+        // empty list
+        val->ctx->state = PARSERSTATE_FINISHED;
+        break;
+    case PARSERSTATE_FINISHED:
         break;
     }
 }
-- 
2.43.0


From 18a1232e550e6f9105d6c9afe7069dfcb464ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 17/45] fix: sorting after another import takes the nodes
 sorted before into account

---
 src/Nodeset.c | 13 ++++----
 src/Sort.c    | 82 +++++++++++++++++++++++++++++----------------------
 2 files changed, 53 insertions(+), 42 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 7c22f45..5e3a04c 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -335,12 +335,13 @@ bool Nodeset_sort(Nodeset *nodeset)
     }
     nodeset->nodesWithUnknownRefs->size = 0;
 
-    bool sorted = Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
-                             nodeset->logger);
-    // the sorted nodes must not be sorted again with the next import
-    Sort_cleanup(nodeset->sortCtx);
-    nodeset->sortCtx = Sort_init();
-    return sorted;
+    // the nodes sorted before are sorted again
+    for (size_t cnt = 0; cnt < NL_NODECLASS_COUNT; cnt++)
+    {
+        nodeset->nodes[cnt]->size = 0;
+    }
+    return Sort_start(nodeset->sortCtx, nodeset, Nodeset_addNode,
+                      nodeset->logger);
 }
 
 void Nodeset_cleanup(Nodeset *nodeset)
diff --git a/src/Sort.c b/src/Sort.c
index b779162..872a6af 100644
--- a/src/Sort.c
+++ b/src/Sort.c
@@ -32,8 +32,10 @@ struct S_Node
     struct S_Node *qlink;
     struct S_Edge *edges;
     size_t edgeCount;
+    size_t pending; // edges of nodes which are not sorted yet
     NL_Node *data;
-    struct S_Node *parent; // from ParentNodeId
+    struct S_Node *parent;   // from ParentNodeId
+    NL_Reference *parentRef; // the reference generated for parent
 };
 
 typedef struct S_Node S_Node;
@@ -193,15 +195,17 @@ record_relation(S_Node *from, S_Node *to) {
     from->edges = e;
 }
 
-static bool count_items(SortContext *ctx, S_Node *unused)
+static bool count_items(SortContext *ctx, S_Node *k)
 {
     ctx->keyCnt++;
+    k->pending = k->edgeCount;
+    k->qlink = NULL;
     return false;
 }
 
 static bool scan_zeros(SortContext *ctx, S_Node *k)
 {
-    if (k->edgeCount == 0 && k->id)
+    if (k->pending == 0)
     {
         if (ctx->head == NULL)
             ctx->head = k;
@@ -324,11 +328,19 @@ static bool add_parent_reference(SortContext *ctx, S_Node *k)
     if (!k->parent)
         return false;
 
-    NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+    NL_Reference *newRef = k->parentRef;
     if (!newRef)
-        return false;
-    newRef->isForward = false;
-    UA_NodeId_copy(k->parent->id, &newRef->target);
+    {
+        newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
+        if (!newRef)
+            return false;
+        newRef->isForward = false;
+        UA_NodeId_copy(k->parent->id, &newRef->target);
+        newRef->next = k->data->hierachicalRefs;
+        k->data->hierachicalRefs = newRef;
+        k->parentRef = newRef;
+    }
+    UA_NodeId_clear(&newRef->refType);
     newRef->refType = UA_NODEID_NUMERIC(0, NL_HASCOMPONENT_ID);
     // do we already have a reference from the parent to the node?
     if (k->parent->data) {
@@ -341,54 +353,52 @@ static bool add_parent_reference(SortContext *ctx, S_Node *k)
             r = r->next;
         }
     }
-    newRef->next = k->data->hierachicalRefs;
-    k->data->hierachicalRefs = newRef;
     return false;
 }
 
 bool Sort_start(SortContext *ctx, struct Nodeset *nodeset,
                 Sort_SortedNodeCallback callback, NodesetLoader_Logger *logger)
 {
+    // nodes that were sorted before are sorted again, the nodes of all files are
+    // ordered with respect to each other
+    ctx->head = NULL;
+    ctx->zeros = NULL;
+    ctx->keyCnt = 0;
     walk_tree(ctx, ctx->root1, add_parent_reference);
     walk_tree(ctx, ctx->root1, count_items);
+    walk_tree(ctx, ctx->root1, scan_zeros);
 
-    while (ctx->keyCnt > 0)
+    while (ctx->head)
     {
-        walk_tree(ctx, ctx->root1, scan_zeros);
+        S_Edge *e = ctx->head->edges;
 
-        while (ctx->head)
+        if (ctx->head->data != NULL)
         {
-            S_Edge *e = ctx->head->edges;
-
-            if (ctx->head->data != NULL)
-            {
-                callback(nodeset, ctx->head->data);
-            }
+            callback(nodeset, ctx->head->data);
+        }
 
-            ctx->head->id = NULL;
-            ctx->keyCnt--;
+        ctx->keyCnt--;
 
-            while (e)
+        while (e)
+        {
+            e->dest->pending--;
+            if (e->dest->pending == 0)
             {
-                e->dest->edgeCount--;
-                if (e->dest->edgeCount == 0)
-                {
-                    ctx->zeros->qlink = e->dest;
-                    ctx->zeros = e->dest;
-                }
-                e = e->next;
+                ctx->zeros->qlink = e->dest;
+                ctx->zeros = e->dest;
             }
-            ctx->head = ctx->head->qlink;
+            e = e->next;
         }
-        if (ctx->keyCnt > 0)
+        ctx->head = ctx->head->qlink;
+    }
+    if (ctx->keyCnt > 0)
+    {
+        if (logger)
         {
-            if (logger)
-            {
-                logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
-                            "graph contains a loop, abort");
-            }
-            return false;
+            logger->log(logger->context, NODESETLOADER_LOGLEVEL_ERROR,
+                        "graph contains a loop, abort");
         }
+        return false;
     }
     return true;
 }
-- 
2.43.0


From 326efe690a4977d0a36bc309dd7a7e61cddb069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 18/45] fix: parsing must not release the global state of
 libxml2

---
 src/Parser.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Parser.c b/src/Parser.c
index f5af150..6b43b8c 100644
--- a/src/Parser.c
+++ b/src/Parser.c
@@ -68,7 +68,6 @@ int Parser_run(Parser *parser, FILE *file, Parser_callbackStart start,
         xmlParserError(ctxt, "xmlParseChunk");
     }
     xmlFreeParserCtxt(ctxt);
-    xmlCleanupParser();
     return failed ? 1 : 0;
 }
 void Parser_delete(Parser *parser) { free(parser); }
-- 
2.43.0


From c9e2141d5c5323066aa7ac4a1b6e20c8419f0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 19/45] fix: data types get a forward HasEncoding reference to
 their binary encoding

---
 backends/open62541/src/import.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 6f8f5cc..8611ee8 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -503,6 +503,7 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
             // the reference gets deleted with the node
             UA_NodeId_copy(&r->refType, &ref->refType);
             UA_NodeId_copy(&r->target, &ref->target);
+            ref->isForward = true;
 
             NL_Reference *lastRef = node->nonHierachicalRefs;
             node->nonHierachicalRefs = ref;
-- 
2.43.0


From 927cc40670333ca03dc42c7aeba657fdbbe8ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 20/45] fix: array dimensions of variable types are kept and
 not read from a dead stack frame

---
 backends/open62541/src/import.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 8611ee8..5110d45 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -343,21 +343,23 @@ static UA_StatusCode handleVariableTypeNode(const NL_VariableTypeNode *node, UA_
     attr.description = *description;
     attr.valueRank = atoi(node->valueRank);
     attr.isAbstract = isValTrue(node->isAbstract);
-    if (attr.valueRank >= 0)
+    UA_UInt32 *arrDims = NULL;
+    attr.arrayDimensionsSize =
+        getArrayDimensions(node->arrayDimensions, &arrDims);
+    UA_UInt32 unknownLength = 0;
+    attr.arrayDimensions = arrDims;
+    if (attr.valueRank >= 0 && attr.arrayDimensionsSize == 0)
     {
-        if (!strcmp(node->arrayDimensions, ""))
-        {
-            attr.arrayDimensionsSize = 1;
-            UA_UInt32 arrayDimensions[1];
-            arrayDimensions[0] = 0;
-            attr.arrayDimensions = &arrayDimensions[0];
-        }
+        attr.arrayDimensionsSize = 1;
+        attr.arrayDimensions = &unknownLength;
     }
 
-   return UA_Server_addNode_begin(server, UA_NODECLASS_VARIABLETYPE, *id, *parentId,
-                            *parentReferenceId, *qn, UA_NODEID_NULL, &attr,
-                            &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
-                            node->extension, NULL);
+    UA_StatusCode status = UA_Server_addNode_begin(
+        server, UA_NODECLASS_VARIABLETYPE, *id, *parentId, *parentReferenceId,
+        *qn, UA_NODEID_NULL, &attr, &UA_TYPES[UA_TYPES_VARIABLETYPEATTRIBUTES],
+        node->extension, NULL);
+    free(arrDims);
+    return status;
 }
 
 static UA_StatusCode handleDataTypeNode(const NL_DataTypeNode *node, UA_NodeId *id,
-- 
2.43.0


From 7dee2d9e8b45014e5d3e6b81adefa0f1337283f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 21/45] fix: the reference to the parent leads to the parent of
 the node

---
 backends/open62541/src/import.c | 51 +++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 19 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 5110d45..5f68b59 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -84,36 +84,49 @@ static UA_NodeId getReferenceTarget(const NL_Reference *ref)
     return ref->target;
 }
 
-static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+static bool isTypeNode(const NL_Node *node)
 {
+    return node->nodeClass == NODECLASS_OBJECTTYPE ||
+           node->nodeClass == NODECLASS_VARIABLETYPE ||
+           node->nodeClass == NODECLASS_DATATYPE ||
+           node->nodeClass == NODECLASS_REFERENCETYPE;
+}
 
-    NL_Reference *hierachicalRef = node->hierachicalRefs;
-    while (hierachicalRef)
+// There can be more than one. The parent of an instance is the ParentNodeId,
+// the parent of a type is its supertype.
+static NL_Reference *getHierachicalInverseReference(const NL_Node *node)
+{
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
+    NL_Reference *first = NULL;
+    for (NL_Reference *ref = node->hierachicalRefs; ref; ref = ref->next)
     {
-        if (!hierachicalRef->isForward)
+        if (ref->isForward)
+        {
+            continue;
+        }
+        if (isTypeNode(node) && UA_NodeId_equal(&ref->refType, &hasSubtype))
+        {
+            return ref;
+        }
+        if (NodesetLoader_isInstanceNode(node) &&
+            UA_NodeId_equal(&ref->target,
+                            &((const NL_InstanceNode *)node)->parentNodeId))
         {
-            return hierachicalRef;
+            return ref;
+        }
+        if (!first)
+        {
+            first = ref;
         }
-        hierachicalRef = hierachicalRef->next;
     }
-    return NULL;
+    return first;
 }
 
 static UA_NodeId getParentId(const NL_Node *node, UA_NodeId *parentRefId)
 {
-    UA_NodeId parentId = UA_NODEID_NULL;
-
-    if(NodesetLoader_isInstanceNode(node))
-    {
-        parentId = ((const NL_InstanceNode*)node)->parentNodeId;
-    }
-    NL_Reference *ref = getHierachicalInverseReference((const NL_Node *)node);
+    NL_Reference *ref = getHierachicalInverseReference(node);
     *parentRefId = getReferenceTypeId(ref);
-    if (UA_NodeId_equal(&parentId, &UA_NODEID_NULL))
-    {
-        parentId = getReferenceTarget(ref);
-    }
-    return parentId;
+    return getReferenceTarget(ref);
 }
 
 static UA_StatusCode
-- 
2.43.0


From b6b7095edf19017be099cc6d427cb79df3f8575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:02 +0000
Subject: [PATCH 22/45] fix: nodes with late parents are added over chains of
 any length

---
 backends/open62541/src/import.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 5f68b59..2a34cad 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -580,16 +580,15 @@ static size_t secondChanceAddNodes(ServerContext *serverContext,
                                    NodeContainer **badStatusNodes,
                                    const NodesetLoader_Logger *logger)
 {
-    const size_t attemptsNum = 10;
-
     size_t numberOfAllAddedNodes = 0;
-    // We will try to add all failed nodes in a certain number of attempts.
+    // We will try to add all failed nodes as long as this adds some of them.
     // This gives us the opportunity to add a chain like Object(child) ->
     // Variable(parent).
     // For example, this reference is used in the HasHistoricalConfiguration
     // reference type.
     size_t attempt = 1;
-    while (attempt != attemptsNum && (*badStatusNodes)->size != 0)
+    size_t counterOfAdddedNodesForOneAttempt = 1;
+    while (counterOfAdddedNodesForOneAttempt != 0 && (*badStatusNodes)->size != 0)
     {
         NodeContainer *local_badStatusNodes =
             NodeContainer_new((*badStatusNodes)->size, false);
@@ -601,7 +600,7 @@ static size_t secondChanceAddNodes(ServerContext *serverContext,
             // Import to server again
             addNodeImpl(&context, (*badStatusNodes)->nodes[counter]);
         }
-        size_t counterOfAdddedNodesForOneAttempt =
+        counterOfAdddedNodesForOneAttempt =
             (*badStatusNodes)->size - local_badStatusNodes->size;
         numberOfAllAddedNodes += counterOfAdddedNodesForOneAttempt;
         logger->log(logger->context, NODESETLOADER_LOGLEVEL_DEBUG,
-- 
2.43.0


From a97f8ca316bb2f2cacd90e4e9cda5db829f07a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:28 +0000
Subject: [PATCH 23/45] fix: all subtypes of a reference type are known, each
 once

---
 backends/open62541/src/RefServiceImpl.c | 39 ++++++++++++++++++-------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index f018c00..cace9c1 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -35,9 +35,20 @@ RefContainer_clear(RefContainer *c) {
     free(c->ids);
 }
 
+static bool
+containsId(const RefContainer *c, const UA_NodeId *id)
+{
+    for (size_t i = 0; i < c->size; i++)
+    {
+        if (UA_NodeId_equal(&c->ids[i], id))
+            return true;
+    }
+    return false;
+}
+
 typedef struct RefServiceImpl RefServiceImpl;
 
-typedef void (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
+typedef bool (*browseFnc)(RefServiceImpl *impl, const UA_NodeId id);
 
 static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
                     RefServiceImpl *impl)
@@ -50,42 +61,48 @@ static void iterate(UA_Server *server, const UA_NodeId *startId, browseFnc fnc,
     bd.resultMask = UA_BROWSERESULTMASK_BROWSENAME;
     bd.nodeId = *startId;
     bd.nodeClassMask = UA_NODECLASS_REFERENCETYPE;
-    UA_BrowseResult br = UA_Server_browse(server, 100, &bd);
+    UA_BrowseResult br = UA_Server_browse(server, 0, &bd);
     if (br.statusCode == UA_STATUSCODE_GOOD)
     {
         for (UA_ReferenceDescription *rd = br.references;
              rd != br.references + br.referencesSize; rd++)
         {
-            fnc(impl, rd->nodeId.nodeId);
-
+            if (!fnc(impl, rd->nodeId.nodeId))
+            {
+                // reachable over more than one supertype
+                continue;
+            }
             iterate(server, &rd->nodeId.nodeId, fnc, impl);
         }
     }
     UA_BrowseResult_clear(&br);
 }
 
-static void
+static bool
 addToRefs(RefContainer *refs, const UA_NodeId id)
 {
+    if (containsId(refs, &id))
+        return false;
     refs->ids = (UA_NodeId *)realloc(refs->ids, sizeof(UA_NodeId) * (refs->size + 1));
     UA_NodeId *newId = refs->ids + refs->size;
     UA_NodeId_copy(&id, newId);
     refs->size++;
+    return true;
 }
 
-static void addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hierachicalRefs, id);
+    return addToRefs(&impl->hierachicalRefs, id);
 }
 
-static void addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->nonHierachicalRefs, id);
+    return addToRefs(&impl->nonHierachicalRefs, id);
 }
 
-static void addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
+static bool addToHasTypeDefRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
-    addToRefs(&impl->hasTypeDefRefs, id);
+    return addToRefs(&impl->hasTypeDefRefs, id);
 }
 
 static void getRefs(UA_Server *server, RefServiceImpl *impl,
-- 
2.43.0


From f20b19bb79d7f11b30033ee5c3b16686d138d111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 24/45] fix: reference types directly below References are
 known

---
 backends/open62541/src/RefServiceImpl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/RefServiceImpl.c b/backends/open62541/src/RefServiceImpl.c
index cace9c1..b2f0b05 100644
--- a/backends/open62541/src/RefServiceImpl.c
+++ b/backends/open62541/src/RefServiceImpl.c
@@ -97,6 +97,8 @@ static bool addToHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 
 static bool addToNonHierachicalRefs(RefServiceImpl *impl, const UA_NodeId id)
 {
+    if (containsId(&impl->hierachicalRefs, &id))
+        return false;
     return addToRefs(&impl->nonHierachicalRefs, id);
 }
 
@@ -170,8 +172,9 @@ NL_ReferenceService *RefServiceImpl_new(struct UA_Server *server)
     }
     UA_NodeId hierachicalRoot =
         UA_NODEID_NUMERIC(0, UA_NS0ID_HIERARCHICALREFERENCES);
+    // everything that is not hierarchical, also directly below References
     UA_NodeId nonHierachicalRoot =
-        UA_NODEID_NUMERIC(0, UA_NS0ID_NONHIERARCHICALREFERENCES);
+        UA_NODEID_NUMERIC(0, UA_NS0ID_REFERENCES);
     UA_NodeId hasTypeDefRoot = UA_NODEID_NUMERIC(0, UA_NS0ID_HASTYPEDEFINITION);
     addToRefs(&impl->hierachicalRefs, hierachicalRoot);
     addToRefs(&impl->nonHierachicalRefs, nonHierachicalRoot);
-- 
2.43.0


From ee9f24c02fd7a34fc19c3b3bc580ae15e02ebee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:44 +0000
Subject: [PATCH 25/45] fix: the supertype of a data type is found next to
 other references

---
 backends/open62541/src/import.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 2a34cad..c26e050 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -29,13 +29,20 @@ static UA_NodeId getParentDataType(UA_Server *server, const UA_NodeId id)
     bd.nodeId = id;
     bd.browseDirection = UA_BROWSEDIRECTION_INVERSE;
     bd.nodeClassMask = UA_NODECLASS_DATATYPE;
+    bd.referenceTypeId = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
 
-    UA_BrowseResult br = UA_Server_browse(server, 10, &bd);
-    if (br.statusCode != UA_STATUSCODE_GOOD || br.referencesSize != 1)
+    UA_NodeId parentId = UA_NODEID_NULL;
+    UA_BrowseResult br = UA_Server_browse(server, 1, &bd);
+    if (br.statusCode == UA_STATUSCODE_GOOD && br.referencesSize > 0)
     {
-        return UA_NODEID_NULL;
+        UA_NodeId_copy(&br.references[0].nodeId.nodeId, &parentId);
+    }
+    if (br.continuationPoint.length > 0)
+    {
+        UA_BrowseResult rest =
+            UA_Server_browseNext(server, true, &br.continuationPoint);
+        UA_BrowseResult_clear(&rest);
     }
-    UA_NodeId parentId = br.references[0].nodeId.nodeId;
     UA_BrowseResult_clear(&br);
     return parentId;
 }
@@ -58,11 +65,15 @@ static bool isKnownParent(const UA_NodeId typeId)
 
 static UA_NodeId getParentType(UA_Server *server, const UA_NodeId dataTypeId)
 {
-    UA_NodeId current = dataTypeId;
+    UA_NodeId current;
+    UA_NodeId_copy(&dataTypeId, &current);
     while (!isKnownParent(current))
     {
-        current = getParentDataType(server, current);
+        UA_NodeId parent = getParentDataType(server, current);
+        UA_NodeId_clear(&current);
+        current = parent;
     }
+    // a numeric id of namespace 0, nothing to release
     return current;
 }
 
-- 
2.43.0


From 8dc0e0d8d8e25546cd5e556798f65c3d6dcea0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 26/45] fix: data types that could not be added to the server
 are not registered

---
 backends/open62541/src/import.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index c26e050..684a18d 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -520,6 +520,12 @@ struct DataTypeImportCtx
 static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
 {
     // add only the types
+    const UA_NodeId parent = getParentType(ctx->server, node->id);
+    if (UA_NodeId_isNull(&parent))
+    {
+        // the node could not be added to the server
+        return;
+    }
     const NL_BiDirectionalReference *r = ctx->hasEncodingRef;
     while (r)
     {
@@ -538,8 +544,6 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         }
         r = r->next;
     }
-    const UA_NodeId parent =
-        getParentType(ctx->server, node->id);
     DataTypeImporter_addCustomDataType(ctx->importer, (NL_DataTypeNode *)node,
                                        parent);
 }
-- 
2.43.0


From 0a3ff6abb52e7725be76f0db521639d95a818367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 27/45] fix: the data types of every file are registered in an
 array of their own

---
 backends/open62541/src/DataTypeImporter.c | 66 ++++++++++++-----------
 backends/open62541/src/DataTypeImporter.h |  2 +-
 backends/open62541/src/import.c           | 17 +++++-
 3 files changed, 52 insertions(+), 33 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 9db8e6b..8b326ca 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -20,7 +20,8 @@ struct DataTypeImporter
     UA_DataTypeArray *types;
     const NL_DataTypeNode **nodes;
     size_t nodesSize;
-    size_t firstNewDataType;
+    UA_ServerConfig *config;
+    size_t maxTypes;
 };
 
 static UA_NodeId getBinaryEncodingId(const NL_DataTypeNode *node)
@@ -573,8 +574,7 @@ static void calcMemSize(DataTypeImporter *importer)
     {
         allTypesFinished = true;
         for (UA_DataType *type =
-                 (UA_DataType *)(uintptr_t)importer->types->types +
-                 importer->firstNewDataType;
+                 (UA_DataType *)(uintptr_t)importer->types->types;
              type != importer->types->types + importer->types->typesSize;
              type++)
         {
@@ -596,8 +596,7 @@ void DataTypeImporter_initMembers(DataTypeImporter *importer)
 {
 
     size_t cnt = 0;
-    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types +
-                             importer->firstNewDataType;
+    for (UA_DataType *type = (UA_DataType *)(uintptr_t)importer->types->types;
          type != importer->types->types + importer->types->typesSize; type++)
     {
         if (type->typeKind == UA_DATATYPEKIND_STRUCTURE ||
@@ -615,15 +614,7 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node,
                                         const UA_NodeId parent)
 {
-    // there is an open issue for that
-    // the user of the library should provide the memory for the custom
-    // dataTypes, then it is clear that he has to clean it up
-    if (!importer->types->types)
-    {
-        importer->types->types =
-            (UA_DataType *)calloc(1000, sizeof(UA_DataType));
-    }
-    assert(importer->types->typesSize < 1000);
+    assert(importer->types->typesSize < importer->maxTypes);
 
     UA_DataType *type = (UA_DataType *)(uintptr_t)&importer->types
                             ->types[importer->types->typesSize];
@@ -667,7 +658,7 @@ void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
     (*(size_t *)(uintptr_t)&importer->types->typesSize)++;
 }
 
-DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
+DataTypeImporter *DataTypeImporter_new(struct UA_Server *server, size_t maxTypes)
 {
     DataTypeImporter *importer =
         (DataTypeImporter *)calloc(1, sizeof(DataTypeImporter));
@@ -676,29 +667,44 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server)
         return NULL;
     }
 
-    UA_ServerConfig *config = UA_Server_getConfig(server);
-    if (!config->customDataTypes)
+    // there is an open issue for that
+    // the user of the library should provide the memory for the custom
+    // dataTypes, then it is clear that he has to clean it up
+    UA_DataTypeArray *newCustomTypes =
+        (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
+    UA_DataType *types =
+        (UA_DataType *)UA_calloc(maxTypes + 1, sizeof(UA_DataType));
+    if (!newCustomTypes || !types)
     {
-        // we append all types to customTypes array
-        UA_DataTypeArray *newCustomTypes =
-            (UA_DataTypeArray *)UA_calloc(1, sizeof(UA_DataTypeArray));
-        if (!newCustomTypes)
-        {
-            return importer;
-        }
+        UA_free(newCustomTypes);
+        UA_free(types);
+        free(importer);
+        return NULL;
+    }
+    newCustomTypes->types = types;
 #ifndef USE_CLEANUP_CUSTOM_DATATYPES
-        newCustomTypes->cleanup = UA_TRUE;
+    newCustomTypes->cleanup = UA_TRUE;
 #endif
-        newCustomTypes->next = config->customDataTypes;
-        config->customDataTypes = newCustomTypes;
-    }
-    importer->types = (UA_DataTypeArray *)(uintptr_t)config->customDataTypes;
-    importer->firstNewDataType = importer->types->typesSize;
+    // every file gets an array of its own in front of the types that the
+    // server has already, other types and the host can point to these
+    UA_ServerConfig *config = UA_Server_getConfig(server);
+    newCustomTypes->next = config->customDataTypes;
+    config->customDataTypes = newCustomTypes;
+
+    importer->config = config;
+    importer->types = newCustomTypes;
+    importer->maxTypes = maxTypes;
     return importer;
 }
 
 void DataTypeImporter_delete(DataTypeImporter *importer)
 {
+    if (importer->types->typesSize == 0)
+    {
+        importer->config->customDataTypes = importer->types->next;
+        UA_free((void *)(uintptr_t)importer->types->types);
+        UA_free(importer->types);
+    }
     free((void *)importer->nodes);
     free(importer);
 }
diff --git a/backends/open62541/src/DataTypeImporter.h b/backends/open62541/src/DataTypeImporter.h
index 40665b7..a461769 100644
--- a/backends/open62541/src/DataTypeImporter.h
+++ b/backends/open62541/src/DataTypeImporter.h
@@ -15,7 +15,7 @@
 struct DataTypeImporter;
 typedef struct DataTypeImporter DataTypeImporter;
 
-DataTypeImporter *DataTypeImporter_new(struct UA_Server *server);
+DataTypeImporter *DataTypeImporter_new(struct UA_Server *server, size_t maxTypes);
 void DataTypeImporter_addCustomDataType(DataTypeImporter *importer,
                                         const NL_DataTypeNode *node, const UA_NodeId parentId);
 // has to be called after all dependent types where added
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 684a18d..9160b00 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -281,7 +281,7 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
         const UA_DataTypeArray *types = config->customDataTypes;
 
         data = RawData_new(data);
-        Value_getData(data, node->value, dataType, types->types, serverContext);
+        Value_getData(data, node->value, dataType, types ? types->types : NULL, serverContext);
 
         if (data)
         {
@@ -526,6 +526,11 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
         // the node could not be added to the server
         return;
     }
+    if (NodesetLoader_getCustomDataType(ctx->server, &node->id))
+    {
+        // registered with an earlier file
+        return;
+    }
     const NL_BiDirectionalReference *r = ctx->hasEncodingRef;
     while (r)
     {
@@ -548,12 +553,20 @@ static void addDataType(struct DataTypeImportCtx *ctx, NL_Node *node)
                                        parent);
 }
 
+static void countDataType(void *context, NL_Node *node)
+{
+    (void)context;
+    (void)node;
+}
+
 static void importDataTypes(NodesetLoader *loader, UA_Server *server)
 {
     // add datatypes
     const NL_BiDirectionalReference *hasEncodingRef =
         NodesetLoader_getBidirectionalRefs(loader);
-    DataTypeImporter *importer = DataTypeImporter_new(server);
+    DataTypeImporter *importer = DataTypeImporter_new(
+        server, NodesetLoader_forEachNode(loader, NODECLASS_DATATYPE, NULL,
+                                          (NodesetLoader_forEachNode_Func)countDataType));
     struct DataTypeImportCtx ctx;
     ctx.hasEncodingRef = hasEncodingRef;
     ctx.server = server;
-- 
2.43.0


From e1a5f7f1a2ee2f87a5e7153f7aa34b2363752b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 28/45] fix: members of abstract data types of earlier files
 are variants

---
 backends/open62541/src/DataTypeImporter.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 8b326ca..4393c08 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -20,6 +20,7 @@ struct DataTypeImporter
     UA_DataTypeArray *types;
     const NL_DataTypeNode **nodes;
     size_t nodesSize;
+    UA_Server *server;
     UA_ServerConfig *config;
     size_t maxTypes;
 };
@@ -56,18 +57,13 @@ static const UA_DataType *getDataType(const UA_NodeId *id,
         return &UA_TYPES[UA_TYPES_VARIANT];
     }
     type = findCustomDataType(id, customTypes);
-    if (type && importer)
+    UA_Boolean isAbstract = false;
+    if (type && importer &&
+        UA_Server_readIsAbstract(importer->server, *id, &isAbstract) ==
+            UA_STATUSCODE_GOOD &&
+        isAbstract)
     {
-        for (size_t i = 0; i < importer->nodesSize; i++)
-        {
-            if (UA_NodeId_equal(&importer->nodes[i]->id, &type->typeId))
-            {
-                if (strcmp(importer->nodes[i]->isAbstract, "true") == 0)
-                {
-                    return &UA_TYPES[UA_TYPES_VARIANT];
-                }
-            }
-        }
+        return &UA_TYPES[UA_TYPES_VARIANT];
     }
     return type;
 }
@@ -691,6 +687,7 @@ DataTypeImporter *DataTypeImporter_new(struct UA_Server *server, size_t maxTypes
     newCustomTypes->next = config->customDataTypes;
     config->customDataTypes = newCustomTypes;
 
+    importer->server = server;
     importer->config = config;
     importer->types = newCustomTypes;
     importer->maxTypes = maxTypes;
-- 
2.43.0


From 5ed33c82971d52c1014291e04b832fbbde72bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 29/45] fix: data types below abstract numbers are registered

---
 backends/open62541/src/DataTypeImporter.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 4393c08..4985a37 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -524,8 +524,11 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
                                const UA_NodeId parent)
 {
     const UA_DataType *parentType = UA_findDataType(&parent);
-
-    assert(parentType);
+    if (!parentType)
+    {
+        // Number, Integer, UInteger: values have one of their subtypes
+        parentType = &UA_TYPES[UA_TYPES_VARIANT];
+    }
 
     UA_NodeId_copy(&parentType->binaryEncodingId, &type->binaryEncodingId);
     type->members = NULL;
-- 
2.43.0


From 81b8c895fbee3dd25ffd74e0d12aa62638b2a528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 30/45] fix: members are inherited from the supertype only

---
 backends/open62541/src/DataTypeImporter.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 4985a37..3d84f6f 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -380,10 +380,11 @@ static void setPaddingMemsize(UA_DataType *type,
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
 {
+    const UA_NodeId hasSubtype = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
     NL_Reference *ref = node->hierachicalRefs;
     while (ref)
     {
-        if (!ref->isForward)
+        if (!ref->isForward && UA_NodeId_equal(&ref->refType, &hasSubtype))
             return ref->target;
         ref = ref->next;
     }
-- 
2.43.0


From 262e58b0d971cf5c40202cf1ceb48386eb31e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 31/45] fix: structures that inherit optional members are
 structures with optional members

---
 backends/open62541/src/DataTypeImporter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 3d84f6f..d61c97c 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -423,6 +423,10 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
                     (char *)UA_calloc(strlen(m->memberName) + 1, sizeof(char));
                 memcpy(memberNameCopy, m->memberName, strlen(m->memberName));
                 members[cnt].memberName = memberNameCopy;
+                if (m->isOptional && type->typeKind == UA_DATATYPEKIND_STRUCTURE)
+                {
+                    type->typeKind = UA_DATATYPEKIND_OPTSTRUCT;
+                }
                 cnt++;
             }
 
-- 
2.43.0


From 3a26e7735cc3d6d30a01e1d23c8f01764aecf34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 32/45] fix: data types have the memory layout that C compilers
 give them

---
 backends/open62541/src/DataTypeImporter.c | 205 ++++++++++------------
 1 file changed, 96 insertions(+), 109 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index d61c97c..374a8bf 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -185,13 +185,78 @@ typedef struct
     UA_ExtensionObject member;
 } TempExtensionObject;
 typedef struct
+{
+    char c;
+    UA_DataValue member;
+} TempDataValue;
+typedef struct
 {
     char c;
     UA_Guid member;
 } TempGuid;
 
-static int getAlignment(const UA_DataType *type,
-                        const UA_DataTypeArray *customTypes)
+typedef struct
+{
+    char c;
+    size_t member;
+} TempSizeT;
+typedef struct
+{
+    char c;
+    void *member;
+} TempVoidPtr;
+
+static int getAlignment(const UA_DataType *type);
+
+static int getMemberAlignment(const UA_DataTypeMember *member)
+{
+    if (member->isArray)
+    {
+        // arrays are a size_t and a void*
+        return offsetof(TempSizeT, member) > offsetof(TempVoidPtr, member)
+                   ? offsetof(TempSizeT, member)
+                   : offsetof(TempVoidPtr, member);
+    }
+    if (member->isOptional)
+    {
+        return offsetof(TempVoidPtr, member);
+    }
+    return getAlignment(member->memberType);
+}
+
+// a structure is aligned like the member with the biggest alignment
+static int getMembersAlignment(const UA_DataType *type)
+{
+    // the switch field of a union
+    int retAlignment =
+        type->typeKind == UA_DATATYPEKIND_UNION ? offsetof(TempUInt32, member) : 1;
+    for (UA_UInt32 i = 0; i < type->membersSize; i++)
+    {
+        int tmp = getMemberAlignment(&type->members[i]);
+        if (tmp > retAlignment)
+        {
+            retAlignment = tmp;
+        }
+    }
+    return retAlignment;
+}
+
+static size_t getMemberSize(const UA_DataTypeMember *member)
+{
+    if (member->isArray)
+    {
+        // we rely here on the implementation of arrays in the open62541:
+        // a size_t for the arraySize, a void* for data
+        return sizeof(size_t) + sizeof(void *);
+    }
+    if (member->isOptional)
+    {
+        return sizeof(void *);
+    }
+    return member->memberType->memSize;
+}
+
+static int getAlignment(const UA_DataType *type)
 {
     switch (type->typeKind)
     {
@@ -243,139 +308,61 @@ static int getAlignment(const UA_DataType *type,
         return offsetof(TempInt32, member);
     case UA_DATATYPEKIND_EXTENSIONOBJECT:
         return offsetof(TempExtensionObject, member);
-    case UA_DATATYPEKIND_UNION:
-        return 0;
+    case UA_DATATYPEKIND_DATAVALUE:
+        return offsetof(TempDataValue, member);
     case UA_DATATYPEKIND_GUID:
         return offsetof(TempGuid, member);
+    case UA_DATATYPEKIND_UNION:
     case UA_DATATYPEKIND_STRUCTURE:
     case UA_DATATYPEKIND_OPTSTRUCT:
-        // here we have to take a look on the first member
-        assert(type->members);
-        int retAlignment = 0;
-        for (UA_UInt32 i = 0; i < type->membersSize; i++)
-        {
-            const UA_DataType *memberType = type->members[i].memberType;
-            int tmp = getAlignment(memberType, customTypes);
-            if (tmp > retAlignment)
-            {
-                retAlignment = tmp;
-            }
-        }
-        return retAlignment;
+        return getMembersAlignment(type);
     }
 
     assert(false && "typeKind not handled");
-    return 0;
+    return 1;
 }
 
-typedef struct
-{
-    char c;
-    size_t member;
-} TempSizeT;
-typedef struct
-{
-    char c;
-    void *member;
-} TempVoidPtr;
-
-static void setPaddingMemsize(UA_DataType *type,
-                              const UA_DataTypeArray *customTypes)
+static void setPaddingMemsize(UA_DataType *type)
 {
-    if (!type->members)
-    {
-        return;
-    }
-    int offset = 0;
-    int endPadding = 0;
-
-    UA_UInt16 biggestMemberSize = 0;
-
-    UA_Boolean hasArrayMember = false;
+    const bool isUnion = type->typeKind == UA_DATATYPEKIND_UNION;
+    const int alignment = getMembersAlignment(type);
+    // the fields of a union are all behind the switch field
+    const size_t fieldsOffset =
+        isUnion ? sizeof(UA_UInt32) + getPadding(alignment, sizeof(UA_UInt32))
+                : 0;
+    size_t offset = fieldsOffset;
+    size_t end = fieldsOffset;
 
     for (UA_DataTypeMember *tm = type->members;
          tm < type->members + type->membersSize; tm++)
     {
-        const UA_DataType *memberType = tm->memberType;
-        type->pointerFree = type->pointerFree && memberType->pointerFree;
-
-        if (tm->isArray)
+        if (tm->isArray || tm->isOptional || !tm->memberType->pointerFree)
         {
-            // for arrays we have to take the size_t for the arraySize into
-            // account if the open changes the implementation of array
-            // serialization, we have a serious problem
-            // we rely here that its an size_t
-            int align = offsetof(TempSizeT, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(size_t);
-            // the void* for data
-            align = offsetof(TempVoidPtr, member);
-            int padding2 = getPadding(align, offset);
-            offset = offset + padding2 + (UA_Byte)sizeof(void *);
-            // datatype is not pointerfree
             type->pointerFree = false;
-
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
-
-            hasArrayMember = true;
         }
-        else if (tm->isOptional)
+        if (isUnion)
         {
-            int align = offsetof(TempVoidPtr, member);
-            tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            offset = offset + tm->padding + (UA_Byte)sizeof(void *);
-            type->pointerFree = false;
-            if (sizeof(void *) > biggestMemberSize)
-            {
-                biggestMemberSize = sizeof(void *);
-            }
+            tm->padding = (UA_Byte)(0x3F & fieldsOffset);
+            offset = fieldsOffset;
         }
         else
         {
-            // add the switchfield to the padding of the first datatype member
-            if (type->typeKind == UA_DATATYPEKIND_UNION)
-            {
-                tm->padding = (UA_Byte)sizeof(UA_UInt32);
-            }
-            else if (memberType->typeKind != UA_DATATYPEKIND_UNION)
-            {
-                int align = getAlignment(memberType, customTypes);
-                tm->padding = (UA_Byte)(0x3F & getPadding(align, offset));
-            }
-
-            offset = offset + tm->padding + memberType->memSize;
-            // padding after struct at end is needed
-            if (memberType->memSize > sizeof(size_t))
-            {
-                endPadding = memberType->memSize % sizeof(size_t);
-            }
-            if (memberType->memSize > biggestMemberSize)
-            {
-                biggestMemberSize = memberType->memSize;
-            }
+            tm->padding =
+                (UA_Byte)(0x3F & getPadding(getMemberAlignment(tm), (int)offset));
+            offset += tm->padding;
         }
-    }
-    if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        // add the switch field
-        type->memSize = sizeof(UA_Int32);
-        int padding = getPadding(offsetof(TempUInt32, member), 0);
-        type->memSize = (UA_UInt16)(type->memSize + padding);
-        type->memSize = (UA_UInt16)(type->memSize + biggestMemberSize);
-        if (hasArrayMember)
+        offset += getMemberSize(tm);
+        if (offset > end)
         {
-            type->memSize = (UA_UInt16)(type->memSize + sizeof(size_t));
+            end = offset;
         }
-        endPadding = getPadding(offsetof(TempSizeT, member), type->memSize);
-        type->memSize = (UA_UInt16)(type->memSize + endPadding);
     }
-    else
+    if (end == 0)
     {
-        type->memSize = (UA_UInt16)(offset + endPadding);
+        // no members
+        end = sizeof(void *);
     }
+    type->memSize = (UA_UInt16)(end + getPadding(alignment, (int)end));
 }
 
 static UA_NodeId getParentNode(const NL_DataTypeNode *node)
@@ -586,7 +573,7 @@ static void calcMemSize(DataTypeImporter *importer)
             // known
             if (readyForMemsizeCalc(type, importer->types->types))
             {
-                setPaddingMemsize(type, importer->types);
+                setPaddingMemsize(type);
             }
             else
             {
-- 
2.43.0


From f2143a1a5b58ff9b2e8c5d838c9b4f2fe6031114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 33/45] fix: calculating the size of data types terminates and
 knows arrays of the type itself

---
 backends/open62541/src/DataTypeImporter.c | 77 ++++++++++++++---------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 374a8bf..39dff9b 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -423,7 +423,6 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
             type->members = members;
             type->membersSize =
                 (uint8_t)(parentType->membersSize + type->membersSize);
-            type->memSize = parentType->memSize;
             memberOffset = parentType->membersSize;
         }
     }
@@ -435,6 +434,11 @@ static void setDataTypeMembersTypeIndex(DataTypeImporter *importer,
         UA_NodeId memberTypeId = node->definition->fields[i].dataType;
         member->memberType =
             getDataType(&memberTypeId, importer->types, importer);
+        if (!member->memberType)
+        {
+            // unknown
+            member->memberType = &UA_TYPES[UA_TYPES_VARIANT];
+        }
         i++;
     }
 }
@@ -447,7 +451,6 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
     {
         type->membersSize = 0;
         type->members = NULL;
-        type->memSize = sizeof(void *);
         return;
     }
 
@@ -531,53 +534,67 @@ static void SubtypeOfBase_init(const DataTypeImporter *importer,
     type->typeKind = parentType->typeKind;
 }
 
-static bool readyForMemsizeCalc(const UA_DataType *type,
-                                const UA_DataType *customTypes)
+static bool isReady(const UA_DataTypeMember *member)
 {
-    if (type->typeKind != UA_DATATYPEKIND_STRUCTURE &&
-        type->typeKind != UA_DATATYPEKIND_OPTSTRUCT)
-    {
-        return true;
-    }
-    if (type->membersSize == 0)
-    {
-        return true;
-    }
-    bool ready = true;
-    for (UA_DataTypeMember *m = type->members;
-         m != type->members + type->membersSize; m++)
+    // only a pointer is stored for arrays and optional members
+    return member->isArray || member->isOptional ||
+           member->memberType->memSize > 0;
+}
+
+static bool readyForMemsizeCalc(const UA_DataType *type)
+{
+    for (UA_UInt32 i = 0; i < type->membersSize; i++)
     {
-        if (m->memberType && m->memberType->memSize > 0)
+        if (!isReady(&type->members[i]))
         {
-            continue;
+            return false;
         }
-        ready = false;
-        break;
     }
-    return ready;
+    return true;
 }
 
 static void calcMemSize(DataTypeImporter *importer)
 {
-    bool allTypesFinished = false;
-    // datatype nodes could be sorted upfront to detect cyclic dependencies
-    while (!allTypesFinished)
+    UA_DataType *end = (UA_DataType *)(uintptr_t)importer->types->types +
+                       importer->types->typesSize;
+    while (true)
     {
-        allTypesFinished = true;
+        bool progress = false;
+        UA_DataType *unfinished = NULL;
         for (UA_DataType *type =
                  (UA_DataType *)(uintptr_t)importer->types->types;
-             type != importer->types->types + importer->types->typesSize;
-             type++)
+             type != end; type++)
         {
+            if (type->memSize > 0)
+            {
+                continue;
+            }
             // we can calculate the memsize if the memsize of all membertypes is
             // known
-            if (readyForMemsizeCalc(type, importer->types->types))
+            if (readyForMemsizeCalc(type))
             {
                 setPaddingMemsize(type);
+                progress = true;
             }
-            else
+            else if (!unfinished)
+            {
+                unfinished = type;
+            }
+        }
+        if (!unfinished)
+        {
+            return;
+        }
+        if (!progress)
+        {
+            // A structure cannot contain itself
+            for (UA_UInt32 i = 0; i < unfinished->membersSize; i++)
             {
-                allTypesFinished = false;
+                if (!isReady(&unfinished->members[i]))
+                {
+                    unfinished->members[i].memberType =
+                        &UA_TYPES[UA_TYPES_VARIANT];
+                }
             }
         }
     }
-- 
2.43.0


From 3a514ba59031d4f2ef2519e4e9d8f36ea0296fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 34/45] fix: fields of data types without name

---
 backends/open62541/src/DataTypeImporter.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/DataTypeImporter.c b/backends/open62541/src/DataTypeImporter.c
index 39dff9b..fce4cff 100644
--- a/backends/open62541/src/DataTypeImporter.c
+++ b/backends/open62541/src/DataTypeImporter.c
@@ -465,10 +465,14 @@ static void addDataTypeMembers(const UA_DataTypeArray *customTypes,
         UA_NodeId typeId = node->definition->fields[i].dataType;
         member->memberType = getDataType(&typeId, customTypes, NULL);
 
-        char *memberNameCopy = (char *)UA_calloc(
-            strlen(node->definition->fields[i].name) + 1, sizeof(char));
-        memcpy(memberNameCopy, node->definition->fields[i].name,
-               strlen(node->definition->fields[i].name));
+        const char *name = node->definition->fields[i].name;
+        if (!name)
+        {
+            name = "";
+        }
+        char *memberNameCopy =
+            (char *)UA_calloc(strlen(name) + 1, sizeof(char));
+        memcpy(memberNameCopy, name, strlen(name));
         member->memberName = memberNameCopy;
         member->isOptional = node->definition->fields[i].isOptional;
         if (member->isOptional)
-- 
2.43.0


From ddca9eb5f42a3a9d535ea0e1f05649a8ac0c38c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 35/45] fix: numbers of all sizes in values over their whole
 range

---
 backends/open62541/src/Value.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 59bd496..3185f7f 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -57,22 +57,22 @@ static void setInt32(uintptr_t adr, const char *value)
 
 static void setUInt32(uintptr_t adr, const char *value)
 {
-    *(UA_UInt32 *)adr = (UA_UInt32)atoi(value);
+    *(UA_UInt32 *)adr = (UA_UInt32)strtoul(value, NULL, 10);
 }
 
 static void setInt64(uintptr_t adr, const char *value)
 {
-    *(UA_Int64 *)adr = atoi(value);
+    *(UA_Int64 *)adr = strtoll(value, NULL, 10);
 }
 
 static void setUInt64(uintptr_t adr, const char *value)
 {
-    *(UA_UInt64 *)adr = (UA_UInt64)atoi(value);
+    *(UA_UInt64 *)adr = strtoull(value, NULL, 10);
 }
 
 static void setFloat(uintptr_t adr, const char *value)
 {
-    *(UA_Float *)adr = (UA_Float)atof(value);
+    *(UA_Float *)adr = strtof(value, NULL);
 }
 
 static void setDouble(uintptr_t adr, const char *value)
-- 
2.43.0


From 81a5d892f861645e34bdc81b0587e581e09daae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 36/45] fix: booleans can be written as 1

---
 backends/open62541/src/conversion.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index 4bc697d..e7f9b50 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -33,11 +33,7 @@ static inline UA_Boolean isValTrue(const char *s)
     {
         return UA_FALSE;
     }
-    if (strcmp(s, "true"))
-    {
-        return UA_FALSE;
-    }
-    return UA_TRUE;
+    return !strcmp(s, "true") || !strcmp(s, "1");
 }
 
 static inline UA_NodeId extractNodeId(char *s)
-- 
2.43.0


From 98bfbe2b00ae5b7497cd5409839c89a781ba4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 37/45] fix: fractions of seconds and time zones of points in
 time

---
 backends/open62541/src/conversion.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/backends/open62541/src/conversion.h b/backends/open62541/src/conversion.h
index e7f9b50..dbaf25e 100644
--- a/backends/open62541/src/conversion.h
+++ b/backends/open62541/src/conversion.h
@@ -58,9 +58,31 @@ static inline UA_DateTime UA_DateTime_fromString(const char *dateString)
 {
     UA_DateTimeStruct dt;
     memset(&dt, 0, sizeof(UA_DateTimeStruct));
-    sscanf(dateString, "%hi-%hu-%huT%hu:%hu:%huZ",
-           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec);
+    int length = 0;
+    sscanf(dateString, "%hd-%2hu-%2huT%2hu:%2hu:%2hu%n",
+           &dt.year, &dt.month, &dt.day, &dt.hour, &dt.min, &dt.sec, &length);
     UA_DateTime dateTime = UA_DateTime_fromStruct(dt);
+
+    // fractions of a second, finer ones than those of UA_DateTime are cut off
+    const char *rest = dateString + length;
+    if (length > 0 && *rest == '.')
+    {
+        UA_DateTime unit = UA_DATETIME_SEC / 10;
+        for (rest++; *rest >= '0' && *rest <= '9'; rest++)
+        {
+            dateTime += (*rest - '0') * unit;
+            unit /= 10;
+        }
+    }
+    // time zone
+    int hours = 0;
+    int minutes = 0;
+    if (length > 0 && (*rest == '+' || *rest == '-') &&
+        sscanf(rest + 1, "%2d:%2d", &hours, &minutes) == 2)
+    {
+        UA_DateTime offset = (hours * 60 + minutes) * 60 * UA_DATETIME_SEC;
+        dateTime = *rest == '+' ? dateTime - offset : dateTime + offset;
+    }
     return dateTime;
 }
 
-- 
2.43.0


From f9d6e42741e6bf03b4f850b12916b14d903a19f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:47 +0000
Subject: [PATCH 38/45] fix: byte strings of invalid length are not read beyond
 their end

---
 backends/open62541/src/nodeset_base64.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/backends/open62541/src/nodeset_base64.h b/backends/open62541/src/nodeset_base64.h
index 8af13a6..c1bd733 100644
--- a/backends/open62541/src/nodeset_base64.h
+++ b/backends/open62541/src/nodeset_base64.h
@@ -136,7 +136,7 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     for (charNo = 0; charNo < len; charNo++)
     {
         // remove all space characters e.g. LF, CR, space and tab
-        if (!isspace(ascii[charNo]))
+        if (!isspace((unsigned char)ascii[charNo]))
         {
             if (((ascii[charNo] >= '0') &&
                  (ascii[charNo] <= '9')) ||
@@ -162,11 +162,11 @@ unsigned char *unbase64(const char *ascii, int len, int *flen)
     }
 
     len = cb;
-    if (len < 2)
-    { // 2 accesses below would be OOB.
+    if (len < 4 || len % 4 != 0)
+    { // the accesses below would be OOB.
         // catch empty string, return NULL as result.
-        puts("ERROR: You passed an invalid base64 string (too short). You get "
-             "NULL back.");
+        puts("ERROR: You passed an invalid base64 string (wrong length). You "
+             "get NULL back.");
         *flen = 0;
         free(safeAsciiPtr);
         return 0;
-- 
2.43.0


From 5811ddb6f4d43798786a425827bb1058c1906590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 39/45] fix: empty, missing, optional and unsupported elements
 of values

---
 backends/open62541/src/Value.c  | 526 +++++++++++++++++---------------
 backends/open62541/src/Value.h  |  16 +-
 backends/open62541/src/import.c |  41 +--
 3 files changed, 301 insertions(+), 282 deletions(-)

diff --git a/backends/open62541/src/Value.c b/backends/open62541/src/Value.c
index 3185f7f..19bd939 100644
--- a/backends/open62541/src/Value.c
+++ b/backends/open62541/src/Value.c
@@ -13,16 +13,6 @@
 #include "nodeset_base64.h"
 #include "ServerContext.h"
 
-#include <assert.h>
-
-typedef struct TypeList TypeList;
-struct TypeList
-{
-    const UA_DataType *type;
-    size_t memberIndex;
-    TypeList *next;
-};
-
 typedef void (*ConversionFn)(uintptr_t adr, const char *value);
 
 static void setBoolean(uintptr_t adr, const char *value)
@@ -105,46 +95,28 @@ setScalarValueWithAddress(uintptr_t adr, UA_UInt32 kind, const char *value)
     }
 }
 
-RawData *RawData_new(RawData *old)
+// The text of an element without content, NULL for an empty element
+static bool getText(const NL_Data *value, const char **text)
 {
-    RawData *data = (RawData *)calloc(1, sizeof(RawData));
-    if (!data)
+    if (value->type != DATATYPE_PRIMITIVE)
     {
-        return NULL;
+        return false;
     }
-    if(old)
-    {
-        while (old->next)
-        {
-            old = old->next;
-        }
-        old->next = data;
-    }
-
-    return data;
+    *text = value->val.primitiveData.value;
+    return true;
 }
 
-void RawData_delete(RawData *data)
+static bool isEmptyElement(const NL_Data *value)
 {
-    while(data)
-    {
-        RawData* tmp = data;
-        data=data->next;
-        //free(tmp->mem);
-        free(tmp);
-    }
-}
-
-static void setPrimitiveValue(RawData *data, const char *value,
-                              UA_DataTypeKind kind, size_t memSize)
-{
-    uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    setScalarValueWithAddress(adr, kind, value);
-    data->offset = data->offset + memSize;
+    return value->type == DATATYPE_PRIMITIVE && !value->val.primitiveData.value;
 }
 
 static NL_Data *lookupMember(const NL_Data *value, const char *name)
 {
+    if (value->type != DATATYPE_COMPLEX)
+    {
+        return NULL;
+    }
     // is there a better way?
     for (size_t cnt = 0; cnt < value->val.complexData.membersSize; cnt++)
     {
@@ -156,152 +128,257 @@ static NL_Data *lookupMember(const NL_Data *value, const char *name)
     return NULL;
 }
 
-static void setDateTime(const NL_Data *value, RawData *data)
+// Elements that consist of named parts with text. Missing parts and the parts
+// of an empty element have no text.
+static bool getPart(const NL_Data *value, const char *name, const char **text)
 {
-    uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    UA_DateTime time = UA_DateTime_fromString(value->val.primitiveData.value);
-    *(UA_DateTime*)adr = time;
-    data->offset = data->offset + sizeof(UA_DateTime);
+    *text = NULL;
+    if (value->type != DATATYPE_COMPLEX)
+    {
+        return isEmptyElement(value);
+    }
+    const NL_Data *part = lookupMember(value, name);
+    return !part || getText(part, text);
 }
 
-static void setQualifiedName(const NL_Data *value, RawData *data, const ServerContext *serverContext)
+static bool setPrimitiveValue(const NL_Data *value, uintptr_t adr,
+                              UA_UInt32 kind)
 {
-    uintptr_t adr = (uintptr_t)data->mem + data->offset;
-
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->namespaceIndex,
-        UA_DATATYPEKIND_UINT16,
-        value->val.complexData.members[0]->val.primitiveData.value);
-    
-    // Translate namespace index
-    ((UA_QualifiedName*)adr)->namespaceIndex = 
-        ServerContext_translateToServerIdx(serverContext, ((UA_QualifiedName*)adr)->namespaceIndex);        
-
-    setScalarValueWithAddress(
-        (uintptr_t)&((UA_QualifiedName*)adr)->name,
-        UA_DATATYPEKIND_STRING,
-        value->val.complexData.members[1]->val.primitiveData.value);
-
-    data->offset += sizeof(UA_QualifiedName);
+    const char *text = NULL;
+    if (!getText(value, &text))
+    {
+        return false;
+    }
+    setScalarValueWithAddress(adr, kind, text);
+    return true;
 }
 
-static void setLocalizedText(const NL_Data *value, RawData *data)
+static bool setDateTime(const NL_Data *value, uintptr_t adr)
 {
-    NL_Data *localeData = lookupMember(value, "Locale");
+    const char *text = NULL;
+    if (!getText(value, &text))
+    {
+        return false;
+    }
+    if (text)
+    {
+        *(UA_DateTime *)adr = UA_DateTime_fromString(text);
+    }
+    return true;
+}
 
-    if (localeData)
+static bool setQualifiedName(const NL_Data *value, uintptr_t adr,
+                             const ServerContext *serverContext)
+{
+    UA_QualifiedName *qn = (UA_QualifiedName *)adr;
+    const char *namespaceIndex = NULL;
+    const char *name = NULL;
+    if (!getPart(value, "NamespaceIndex", &namespaceIndex) ||
+        !getPart(value, "Name", &name))
     {
-        setScalarValueWithAddress(data->offset + (uintptr_t) &
-                                      ((UA_LocalizedText *)data->mem)->locale,
-                                  UA_DATATYPEKIND_STRING,
-                                  localeData->val.primitiveData.value);
+        return false;
     }
+    setScalarValueWithAddress((uintptr_t)&qn->namespaceIndex,
+                              UA_DATATYPEKIND_UINT16, namespaceIndex);
 
-    NL_Data *textData = lookupMember(value, "Text");
+    // Translate namespace index
+    qn->namespaceIndex = ServerContext_translateToServerIdx(serverContext,
+                                                            qn->namespaceIndex);
 
-    if (textData)
+    setScalarValueWithAddress((uintptr_t)&qn->name, UA_DATATYPEKIND_STRING,
+                              name);
+    return true;
+}
+
+static bool setLocalizedText(const NL_Data *value, uintptr_t adr)
+{
+    UA_LocalizedText *lt = (UA_LocalizedText *)adr;
+    const char *locale = NULL;
+    const char *text = NULL;
+    if (!getPart(value, "Locale", &locale) || !getPart(value, "Text", &text))
     {
-        setScalarValueWithAddress(
-            data->offset + (uintptr_t) & ((UA_LocalizedText *)data->mem)->text,
-            UA_DATATYPEKIND_STRING, textData->val.primitiveData.value);
+        return false;
     }
-    data->offset += sizeof(UA_LocalizedText);
+    setScalarValueWithAddress((uintptr_t)&lt->locale, UA_DATATYPEKIND_STRING,
+                              locale);
+    setScalarValueWithAddress((uintptr_t)&lt->text, UA_DATATYPEKIND_STRING,
+                              text);
+    return true;
 }
 
-static void setNodeId(const NL_Data *value, RawData *data, const ServerContext *serverContext)
+static bool setNodeId(const NL_Data *value, uintptr_t adr,
+                      const ServerContext *serverContext)
 {
-    assert(value->val.complexData.membersSize == 1);
-    *(UA_NodeId *)((uintptr_t)data->mem + data->offset) =
-        extractNodeId((char *)(uintptr_t)value->val.complexData.members[0]
-                          ->val.primitiveData.value);
+    UA_NodeId *id = (UA_NodeId *)adr;
+    const char *text = NULL;
+    if (!getPart(value, "Identifier", &text))
+    {
+        return false;
+    }
+    *id = extractNodeId((char *)(uintptr_t)text);
 
     // Translate namespace index
-    (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex =
-        ServerContext_translateToServerIdx(serverContext, (*(UA_NodeId *)((uintptr_t)data->mem + data->offset)).namespaceIndex);
-
-    data->offset += sizeof(UA_NodeId);
+    id->namespaceIndex =
+        ServerContext_translateToServerIdx(serverContext, id->namespaceIndex);
+    return true;
 }
 
-static void setByteString(const NL_Data* value, RawData*data)
+static bool setByteString(const NL_Data *value, uintptr_t adr)
 {
-    UA_ByteString *s = (UA_ByteString *)((uintptr_t)data->mem+data->offset);
+    UA_ByteString *s = (UA_ByteString *)adr;
+    const char *text = NULL;
+    if (!getText(value, &text))
+    {
+        return false;
+    }
+    if (!text)
+    {
+        return true;
+    }
     int len = 0;
-    unsigned char *val = NULL;
+    s->data = unbase64(text, (int)strlen(text), &len);
+    s->length = (size_t)len;
+    return s->data != NULL;
+}
 
-    if (value->val.primitiveData.value)
+static bool setGuid(const NL_Data *value, uintptr_t adr)
+{
+    const char *text = NULL;
+    if (!getPart(value, "String", &text))
+    {
+        return false;
+    }
+    if (text)
     {
-        val = unbase64(value->val.primitiveData.value, (int)strlen(value->val.primitiveData.value), &len);
+        *(UA_Guid *)adr = UA_GUID(text);
     }
+    return true;
+}
 
-    s->length = (size_t)len;
-    s->data = val;
+static bool setStatusCode(const NL_Data *value, uintptr_t adr)
+{
+    // StatusCode is a complex type with a primitive
+    const char *code = NULL;
+    if (!getPart(value, "Code", &code))
+    {
+        return false;
+    }
+    setScalarValueWithAddress(adr, UA_DATATYPEKIND_UINT32, code);
+    return true;
 }
 
-static void setGuid(const NL_Data* value, RawData*data)
+static bool setEnum(const NL_Data *value, uintptr_t adr)
 {
-    uintptr_t adr = (uintptr_t)data->mem + data->offset;
-    *(UA_Guid*)adr = UA_GUID((const char *)(value->val.complexData.members[0]->val.primitiveData.value));
-    data->offset = data->offset + sizeof(UA_Guid);
+    const char *text = NULL;
+    if (!getText(value, &text))
+    {
+        return false;
+    }
+    if (text)
+    {
+        // Enum value is either on <symbol>_<value> or <value> format
+        const char *enumSepPos = strrchr(text, '_');
+        setScalarValueWithAddress(adr, UA_DATATYPEKIND_INT32,
+                                  enumSepPos ? enumSepPos + 1 : text);
+    }
+    return true;
 }
 
-static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
-                      const UA_DataType *customTypes, const ServerContext *serverContext);
-static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
-                     const UA_DataType *customTypes, const ServerContext *serverContext);
+static bool setScalar(const NL_Data *value, const UA_DataType *type,
+                      uintptr_t adr, const ServerContext *serverContext);
+
+// size and data of an array
+static bool setArray(const NL_Data *value, const UA_DataType *type,
+                     size_t *size, void **data,
+                     const ServerContext *serverContext)
+{
+    if (isEmptyElement(value))
+    {
+        return true;
+    }
+    if (value->type != DATATYPE_COMPLEX)
+    {
+        return false;
+    }
+    const size_t membersSize = value->val.complexData.membersSize;
+    if (membersSize == 0)
+    {
+        return true;
+    }
+    *data = calloc(membersSize, type->memSize);
+    if (!*data)
+    {
+        return false;
+    }
+    *size = membersSize;
+    for (size_t i = 0; i < membersSize; i++)
+    {
+        if (!setScalar(value->val.complexData.members[i], type,
+                       (uintptr_t)*data + i * type->memSize, serverContext))
+        {
+            return false;
+        }
+    }
+    return true;
+}
 
-static const char* getEnumValuePos(const char *string)
+// adr is the address behind the padding of the member
+static bool setMember(const NL_Data *value, const UA_DataTypeMember *m,
+                      uintptr_t adr, const ServerContext *serverContext)
 {
-    // Enum value is either on <symbol>_<value> or <value> format
-    char *enumSepPos = strchr(string, '_');
-    if (enumSepPos)
+    if (m->isArray)
     {
-        return ++enumSepPos;
+        return setArray(value, m->memberType, (size_t *)adr,
+                        (void **)(adr + sizeof(size_t)), serverContext);
     }
-    return string;
+    if (m->isOptional)
+    {
+        void *mem = calloc(1, m->memberType->memSize);
+        *(void **)adr = mem;
+        adr = (uintptr_t)mem;
+        if (!mem)
+        {
+            return false;
+        }
+    }
+    return setScalar(value, m->memberType, adr, serverContext);
 }
 
-static void setStructure(const NL_Data *value, const UA_DataType *type,
-                         RawData *data, const UA_DataType *customTypes,
-                         const ServerContext *serverContext)
+static bool setStructure(const NL_Data *value, const UA_DataType *type,
+                         uintptr_t adr, const ServerContext *serverContext)
 {
-    assert(value->type == DATATYPE_COMPLEX);
+    if (value->type != DATATYPE_COMPLEX)
+    {
+        return isEmptyElement(value);
+    }
     // there can be less members specified then the type requires
     for (const UA_DataTypeMember *m = type->members;
          m != type->members + type->membersSize; m++)
     {
-        const UA_DataType* memberType = m->memberType;
-
-        data->offset += m->padding;
-        NL_Data *memberData = lookupMember(value, m->memberName);
-        if (!memberData)
+        adr += m->padding;
+        const NL_Data *memberData = lookupMember(value, m->memberName);
+        if (memberData && !setMember(memberData, m, adr, serverContext))
         {
-            data->offset += memberType->memSize;
-            return;
+            return false;
         }
         if (m->isArray)
         {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                  memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
+            adr += sizeof(size_t) + sizeof(void *);
+        }
+        else if (m->isOptional)
+        {
+            adr += sizeof(void *);
         }
         else
         {
-            size_t structOffset = data->offset + memberType->memSize;
-            setScalar(memberData, memberType, data, customTypes, serverContext);
-            data->offset = structOffset;
+            adr += m->memberType->memSize;
         }
     }
+    return true;
 }
 
-static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *data,
-                        const UA_DataType *customTypes, const ServerContext *serverContext)
+static bool setUnion(const NL_Data *value, const UA_DataType *type,
+                     uintptr_t adr, const ServerContext *serverContext)
 {
     // For a reference, decoded union has the following layout in code:
     //
@@ -316,150 +393,99 @@ static void setUnion(const NL_Data *value, const UA_DataType *type, RawData *dat
     //     } fields;
     //                               <-- end padding
     // }
-
-    // Remember the initial offset of the complete union
-    const size_t unionOffset = data->offset;
-    // Extract the switchField value
-    const UA_UInt32 switchField = (UA_UInt32)atoi(value->val.complexData.members[0]->val.primitiveData.value);
-    // Write out the switchField value
-    *(UA_UInt32 *)((uintptr_t)data->mem + data->offset) = switchField;
-    // Insert the field padding
-
+    const char *text = NULL;
+    if (!getPart(value, "SwitchField", &text))
+    {
+        return false;
+    }
+    UA_UInt32 switchField = 0;
+    setScalarValueWithAddress((uintptr_t)&switchField, UA_DATATYPEKIND_UINT32,
+                              text);
     // If the switch field is 0 then no field is present.
     // A Union with no fields present has the same meaning as a NULL value.
     // See: https://reference.opcfoundation.org/v104/Core/docs/Part6/5.2.8/
-    if (switchField != 0) {
-        data->offset += type->members[switchField - 1].padding;
-        // For convenience setup direct pointers to data and type
-        NL_Data *memberData = value->val.complexData.members[1];
-        const UA_DataType* memberType = type->members[switchField - 1].memberType;
-
-        // Write out the field value
-        if (type->members[switchField - 1].isArray)
-        {
-            RawData *rawdata = RawData_new(data);
-            rawdata->mem = calloc(memberData->val.complexData.membersSize,
-                                    memberType->memSize);
-            setArray(memberData, memberType, rawdata, customTypes, serverContext);
-            size_t *size = (size_t *)((uintptr_t)data->mem + data->offset);
-            *size = memberData->val.complexData.membersSize;
-            data->offset += sizeof(size_t);
-            void **d = (void **)((uintptr_t)data->mem + data->offset);
-            *d = rawdata->mem;
-            data->offset += sizeof(void *);
-        }
-        else
-        {
-            setScalar(memberData, memberType, data, customTypes, serverContext);
-        }
-        // Overwrite the offset using the size of the complete union, which includes also "end padding" of a C structure.
-        data->offset = unionOffset + type->memSize;
+    if (switchField == 0)
+    {
+        return true;
     }
-}
-
-static void setStatusCode(const NL_Data *value, RawData *data)
-{
-    // StatusCode is a complex type with a primitive
-    assert(value->type == DATATYPE_COMPLEX);
-    if (value->val.complexData.membersSize == 1)
+    if (switchField > type->membersSize)
     {
-        NL_Data *code = value->val.complexData.members[0];
-        setPrimitiveValue(
-            data, code->val.primitiveData.value, UA_DATATYPEKIND_UINT32,
-            UA_TYPES[UA_TYPES_UINT32].memSize);
+        return false;
     }
+    *(UA_UInt32 *)adr = switchField;
+    const UA_DataTypeMember *m = &type->members[switchField - 1];
+    const NL_Data *memberData = lookupMember(value, m->memberName);
+    return !memberData ||
+           setMember(memberData, m, adr + m->padding, serverContext);
 }
 
-static void setScalar(const NL_Data *value, const UA_DataType *type, RawData *data,
-                      const UA_DataType *customTypes, const ServerContext *serverContext)
+static bool setScalar(const NL_Data *value, const UA_DataType *type,
+                      uintptr_t adr, const ServerContext *serverContext)
 {
     if (type->typeKind < CONVERSION_TABLE_SIZE)
     {
-        setPrimitiveValue(data, value->val.primitiveData.value,
-                          (UA_DataTypeKind)type->typeKind, type->memSize);
-    }
-    else if(type->typeKind == UA_DATATYPEKIND_BYTESTRING)
-    {
-        setByteString(value, data);
+        return setPrimitiveValue(value, adr, type->typeKind);
     }
-    else if (type->typeKind == UA_DATATYPEKIND_NODEID)
+    switch (type->typeKind)
     {
-        setNodeId(value, data, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_QUALIFIEDNAME)
-    {
-        setQualifiedName(value, data, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_LOCALIZEDTEXT)
-    {
-        setLocalizedText(value, data);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_DATETIME)
-    {
-        setDateTime(value, data);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_ENUM)
-    {
-        setPrimitiveValue(data, getEnumValuePos(value->val.primitiveData.value),
-                          UA_DATATYPEKIND_INT32,
-                          UA_TYPES[UA_TYPES_INT32].memSize);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_STRUCTURE)
-    {
-        setStructure(value, type, data, customTypes, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_GUID)
-    {
-        setGuid(value, data);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_UNION)
-    {
-        setUnion(value, type, data, customTypes, serverContext);
-    }
-    else if (type->typeKind == UA_DATATYPEKIND_STATUSCODE)
-    {
-        setStatusCode(value, data);
-    }
-    else
-    {
-        assert(false && "conversion not implemented");
+    case UA_DATATYPEKIND_BYTESTRING:
+        return setByteString(value, adr);
+    case UA_DATATYPEKIND_NODEID:
+        return setNodeId(value, adr, serverContext);
+    case UA_DATATYPEKIND_QUALIFIEDNAME:
+        return setQualifiedName(value, adr, serverContext);
+    case UA_DATATYPEKIND_LOCALIZEDTEXT:
+        return setLocalizedText(value, adr);
+    case UA_DATATYPEKIND_DATETIME:
+        return setDateTime(value, adr);
+    case UA_DATATYPEKIND_ENUM:
+        return setEnum(value, adr);
+    case UA_DATATYPEKIND_STRUCTURE:
+    case UA_DATATYPEKIND_OPTSTRUCT:
+        return setStructure(value, type, adr, serverContext);
+    case UA_DATATYPEKIND_GUID:
+        return setGuid(value, adr);
+    case UA_DATATYPEKIND_UNION:
+        return setUnion(value, type, adr, serverContext);
+    case UA_DATATYPEKIND_STATUSCODE:
+        return setStatusCode(value, adr);
+    default:
+        // conversion not implemented
+        return false;
     }
 }
 
-static void setArray(const NL_Data *value, const UA_DataType *type, RawData *data,
-                     const UA_DataType *customTypes, const ServerContext *serverContext)
+bool Value_getData(UA_Variant *outValue, const NL_Value *value,
+                   const UA_DataType *type, const ServerContext *serverContext)
 {
-    for (size_t i = 0; i < value->val.complexData.membersSize; i++)
+    size_t size = 0;
+    void *mem = NULL;
+    bool status = false;
+    if (value->isArray)
     {
-        data->offset = i * type->memSize;
-        setScalar(value->val.complexData.members[i], type, data, customTypes, serverContext);
+        status = setArray(value->data, type, &size, &mem, serverContext);
     }
-}
-
-void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType *type,
-                   const UA_DataType *customTypes, const ServerContext *serverContext)
-{
-    if (!type)
+    else
     {
-        return;
+        size = 1;
+        mem = calloc(1, type->memSize);
+        status = mem && setScalar(value->data, type, (uintptr_t)mem, serverContext);
     }
-
-    if (value->isArray)
+    if (!status)
     {
-        if (value->data->val.complexData.membersSize == 0)
-        {
-            outData = NULL;
-        }
-        else
+        if (mem)
         {
-            outData->mem =
-                calloc(value->data->val.complexData.membersSize, type->memSize);
-            setArray(value->data, type, outData, customTypes, serverContext);
+            UA_Array_delete(mem, size, type);
         }
+        return false;
+    }
+    if (value->isArray)
+    {
+        UA_Variant_setArray(outValue, mem, size, type);
     }
     else
     {
-        outData->mem = calloc(1, type->memSize);
-        setScalar(value->data, type, outData, customTypes, serverContext);
+        UA_Variant_setScalar(outValue, mem, type);
     }
+    return true;
 }
diff --git a/backends/open62541/src/Value.h b/backends/open62541/src/Value.h
index fe97559..07feca8 100644
--- a/backends/open62541/src/Value.h
+++ b/backends/open62541/src/Value.h
@@ -14,17 +14,9 @@
 
 struct ServerContext;
 
-struct RawData;
-struct RawData
-{
-    void *mem;
-    size_t offset;
-    struct RawData* next;
-};
-typedef struct RawData RawData;
-RawData *RawData_new(RawData *old);
-void RawData_delete(RawData *data);
-
-void Value_getData(RawData *outData, const NL_Value *value, const UA_DataType* type, const UA_DataType* customTypes, const struct ServerContext *serverContext);
+// Returns false and leaves outValue as it is if the value cannot be represented
+bool Value_getData(UA_Variant *outValue, const NL_Value *value,
+                   const UA_DataType *type,
+                   const struct ServerContext *serverContext);
 
 #endif
diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 9160b00..87c4bf1 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -223,6 +223,18 @@ static size_t getArrayDimensions(const char *s, UA_UInt32 **dims)
     return arrSize;
 }
 
+static const UA_DataType *getTypeByName(const char *name)
+{
+    for (size_t i = 0; name && i <= UA_TYPES_DIAGNOSTICINFO; i++)
+    {
+        if (!strcmp(UA_TYPES[i].typeName, name))
+        {
+            return &UA_TYPES[i];
+        }
+    }
+    return NULL;
+}
+
 static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *id,
                                const UA_NodeId *parentId,
                                const UA_NodeId *parentReferenceId,
@@ -254,14 +266,14 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
         *attr.arrayDimensions = 0;
     }
 
-    if (attr.arrayDimensionsSize == 0 && node->value && node->value->isArray)
+    if (attr.arrayDimensionsSize == 0 && node->value && node->value->isArray &&
+        node->value->data && node->value->data->type == DATATYPE_COMPLEX)
     {
         attr.arrayDimensions = UA_UInt32_new();
         *attr.arrayDimensions =
             (UA_UInt32)node->value->data->val.complexData.membersSize;
         attr.arrayDimensionsSize = 1;
     }
-    RawData *data = NULL;
     if (node->value && node->value->data != NULL)
     {
         const UA_DataType *dataType = UA_findDataType(&attr.dataType);
@@ -277,24 +289,14 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
             }
         }
 
-        UA_ServerConfig *config = UA_Server_getConfig(ServerContext_getServerObject(serverContext));
-        const UA_DataTypeArray *types = config->customDataTypes;
-
-        data = RawData_new(data);
-        Value_getData(data, node->value, dataType, types ? types->types : NULL, serverContext);
-
-        if (data)
+        if (!dataType || dataType->typeKind == UA_DATATYPEKIND_VARIANT)
         {
-            if (node->value->isArray)
-            {
-                UA_Variant_setArray(
-                    &attr.value, data->mem,
-                    node->value->data->val.complexData.membersSize, dataType);
-            }
-            else
-            {
-                UA_Variant_setScalar(&attr.value, data->mem, dataType);
-            }
+            // the data type is abstract, the elements tell the type
+            dataType = getTypeByName(node->value->type);
+        }
+        if (dataType)
+        {
+            Value_getData(&attr.value, node->value, dataType, serverContext);
         }
     }
     UA_NodeId typeDefId = UA_NODEID_NULL;
@@ -312,7 +314,6 @@ static UA_StatusCode handleVariableNode(const NL_VariableNode *node, UA_NodeId *
     //UA_Server_addNode_finish(server, *id);
     UA_Variant_clear(&attr.value);
 
-    RawData_delete(data);
     UA_free(attr.arrayDimensions);
     return Status;
 }
-- 
2.43.0


From c1fab4397e3122329109738c086e3cde8bb23d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 40/45] fix: reference types keep their attribute IsAbstract

---
 backends/open62541/src/import.c       | 1 +
 include/NodesetLoader/NodesetLoader.h | 1 +
 src/Nodeset.c                         | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/backends/open62541/src/import.c b/backends/open62541/src/import.c
index 87c4bf1..73d52ad 100644
--- a/backends/open62541/src/import.c
+++ b/backends/open62541/src/import.c
@@ -345,6 +345,7 @@ static UA_StatusCode handleReferenceTypeNode(const NL_ReferenceTypeNode *node,
 {
     UA_ReferenceTypeAttributes attr = UA_ReferenceTypeAttributes_default;
     attr.symmetric = isValTrue(node->symmetric);
+    attr.isAbstract = isValTrue(node->isAbstract);
     attr.displayName = *lt;
     attr.description = *description;
     attr.inverseName =
diff --git a/include/NodesetLoader/NodesetLoader.h b/include/NodesetLoader/NodesetLoader.h
index a1d5642..6b94228 100644
--- a/include/NodesetLoader/NodesetLoader.h
+++ b/include/NodesetLoader/NodesetLoader.h
@@ -230,6 +230,7 @@ struct NL_ReferenceTypeNode
     NL_NODE_ATTRIBUTES
     NL_LocalizedText inverseName;
     char *symmetric;
+    char *isAbstract;
 };
 typedef struct NL_ReferenceTypeNode NL_ReferenceTypeNode;
 
diff --git a/src/Nodeset.c b/src/Nodeset.c
index 5e3a04c..9ce510c 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -467,6 +467,8 @@ static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
     case NODECLASS_REFERENCETYPE:
         ((NL_ReferenceTypeNode *)node)->symmetric = getAttributeValue(
             nodeset, &attrSymmetric, attributes, attributeSize);
+        ((NL_ReferenceTypeNode *)node)->isAbstract = getAttributeValue(
+            nodeset, &attrIsAbstract, attributes, attributeSize);
         break;
     case NODECLASS_VIEW:
         ((NL_ViewNode *)node)->parentNodeId = extractNodedId(
-- 
2.43.0


From 0605dc37a4e58c74db543cf222ab4dbfb8fba0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 41/45] fix: keep the text of an element in an extension
 object's body

---
 src/Value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Value.c b/src/Value.c
index 39140c0..a6a751c 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -113,7 +113,7 @@ void Value_start(NL_Value *val, const char *name)
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
-            val->data = newData(name, DATATYPE_COMPLEX);
+            val->data = newData(name, DATATYPE_PRIMITIVE);
             val->ctx->currentData = val->data;
         }
         else
-- 
2.43.0


From 1803a7776327bf85236db20d051a268571ecfb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:21 +0000
Subject: [PATCH 42/45] fix: ignore unknown elements inside of extension
 objects

An element of an ExtensionObject that is neither TypeId nor Body was
skipped, its content was not: a Body or Identifier below of it became part
of the value. A value after an ExtensionObject without Body and a second
Body were taken, too.
---
 src/Value.c | 30 ++++++++++++++++++++++++++----
 src/Value.h |  2 ++
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/Value.c b/src/Value.c
index a6a751c..c47102d 100644
--- a/src/Value.c
+++ b/src/Value.c
@@ -45,6 +45,12 @@ static NL_Data *addNewMember(NL_Data *parent, const char *name)
 
 void Value_start(NL_Value *val, const char *name)
 {
+    // inside of an element of the extension object that is of no interest
+    if (val->ctx->skipDepth > 0)
+    {
+        val->ctx->skipDepth++;
+        return;
+    }
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
@@ -98,18 +104,21 @@ void Value_start(NL_Value *val, const char *name)
             val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_TYPEID;
             break;
         }
-        if (!strcmp(name, "Body"))
+        if (!strcmp(name, "Body") && !val->ctx->hasBody)
         {
             val->ctx->state = PARSERSTATE_EXTENSIONOBJECT_BODY;
+            break;
         }
+        val->ctx->skipDepth = 1;
         break;
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
-        if (!val->ctx->currentData && val->data)
+        if (val->ctx->hasBody)
         {
             // only one element in the body
-            val->ctx->state = PARSERSTATE_FINISHED;
+            val->ctx->skipDepth = 1;
             break;
         }
+        val->ctx->hasBody = true;
         val->ctx->state = PARSERSTATE_DATA;
         if (!val->ctx->currentData)
         {
@@ -124,6 +133,10 @@ void Value_start(NL_Value *val, const char *name)
         break;
 
     case PARSERSTATE_EXTENSIONOBJECT_TYPEID:
+        if (strcmp(name, "Identifier"))
+        {
+            val->ctx->skipDepth = 1;
+        }
         break;
 
     case PARSERSTATE_DATA:
@@ -163,6 +176,11 @@ static const char* isOnlyWhitespace(const char* value)
 
 void Value_end(NL_Value *val, const char *name, const char *value)
 {
+    if (val->ctx->skipDepth > 0)
+    {
+        val->ctx->skipDepth--;
+        return;
+    }
     switch (val->ctx->state)
     {
     case PARSERSTATE_INIT:
@@ -183,7 +201,10 @@ void Value_end(NL_Value *val, const char *name, const char *value)
     case PARSERSTATE_EXTENSIONOBJECT:
         if (!strcmp(name, "ExtensionObject"))
         {
-            val->ctx->state = PARSERSTATE_INIT;
+            val->ctx->hasBody = false;
+            // further extension objects belong to a list
+            val->ctx->state =
+                val->isArray ? PARSERSTATE_INIT : PARSERSTATE_FINISHED;
         }
         break;
 
@@ -217,6 +238,7 @@ void Value_end(NL_Value *val, const char *name, const char *value)
         break;
 
     case PARSERSTATE_EXTENSIONOBJECT_BODY:
+        val->ctx->hasBody = true;
         val->ctx->state = PARSERSTATE_EXTENSIONOBJECT;
         break;
     case PARSERSTATE_LISTOF:
diff --git a/src/Value.h b/src/Value.h
index 79249db..d8cc87b 100644
--- a/src/Value.h
+++ b/src/Value.h
@@ -25,6 +25,8 @@ struct NL_ParserCtx
 {
     ParserState state;
     NL_Data *currentData;
+    bool hasBody;
+    size_t skipDepth;
 };
 typedef struct NL_ParserCtx NL_ParserCtx;
 
-- 
2.43.0


From 2ffd1ec54b6309946e0ccd111b5582f9b96513a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:49 +0000
Subject: [PATCH 43/45] fix: classify reference types by what is still to come

---
 src/Nodeset.c | 68 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 9ce510c..d795ecf 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -270,22 +270,76 @@ static bool lookupUnknownReferences(Nodeset *nodeset, NL_Node *node)
     return node->unknownRefs == NULL;
 }
 
+static bool isWaiting(const NodeContainer *refTypes, const NL_Node *refType,
+                      const UA_NodeId *id)
+{
+    for (size_t i = 0; i < refTypes->size; i++)
+    {
+        if (refTypes->nodes[i] != refType &&
+            UA_NodeId_equal(&refTypes->nodes[i]->id, id))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+// How much is known about a reference type that has unknown supertypes or
+// references of unknown type? The other reference types that are not part of
+// the nodeset stay unknown.
+static int getRank(const Nodeset *nodeset, const NL_Node *refType)
+{
+    const NodeContainer *refTypes = nodeset->refTypesWithUnknownRefs;
+    bool isHierachical = false;
+    bool isSuperTypeWaiting = false;
+    bool isRefTypeWaiting = false;
+    for (const NL_Reference *ref = refType->hierachicalRefs; ref;
+         ref = ref->next)
+    {
+        NL_Reference superType = {0};
+        superType.refType = ref->target;
+        if (ref->isForward)
+        {
+            continue;
+        }
+        isHierachical |= nodeset->refService->isHierachicalRef(
+            nodeset->refService->context, &superType);
+        isSuperTypeWaiting |= isWaiting(refTypes, refType, &ref->target);
+    }
+    for (const NL_Reference *ref = refType->unknownRefs; ref; ref = ref->next)
+    {
+        isRefTypeWaiting |=
+            !ref->isForward && isWaiting(refTypes, refType, &ref->refType);
+    }
+    if (!isSuperTypeWaiting && !isRefTypeWaiting)
+    {
+        return 4;
+    }
+    return (isHierachical ? 2 : 0) + (isSuperTypeWaiting ? 0 : 1);
+}
+
 // Tell the reference service about the new reference types, supertypes first
 static void lookupReferenceTypes(Nodeset *nodeset)
 {
     NodeContainer *refTypes = nodeset->refTypesWithUnknownRefs;
     while (refTypes->size > 0)
     {
-        // If there is no reference type with known supertypes left, the
-        // supertypes are not part of the nodeset
         size_t next = 0;
-        int bestRank = -1;
-        for (size_t i = 0; i < refTypes->size && bestRank < 2; i++)
+        bool found = false;
+        for (size_t i = 0; i < refTypes->size && !found; i++)
         {
             bool resolved = lookupUnknownReferences(nodeset, refTypes->nodes[i]);
-            int rank = areSuperTypesKnown(nodeset, refTypes->nodes[i])
-                           ? (resolved ? 2 : 1)
-                           : 0;
+            if (resolved && areSuperTypesKnown(nodeset, refTypes->nodes[i]))
+            {
+                next = i;
+                found = true;
+            }
+        }
+        // supertypes are not part of the nodeset or depend on each other
+        int bestRank = -1;
+        for (size_t i = 0; i < refTypes->size && !found && bestRank < 4; i++)
+        {
+            int rank = getRank(nodeset, refTypes->nodes[i]);
             if (rank > bestRank)
             {
                 next = i;
-- 
2.43.0


From c047656d1c0f12668f9a0d99e6a9bbbb491bd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:18 +0000
Subject: [PATCH 44/45] fix: booleans written as 1 were taken as false

IsForward, IsUnion, IsOptionSet and IsOptional are xs:boolean, where 1 is
another way to write true.
---
 src/Nodeset.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index d795ecf..643e6a6 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -445,6 +445,12 @@ static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
     return attr->defaultValue;
 }
 
+// xs:boolean
+static bool isTrue(const char *value)
+{
+    return !strcmp("true", value) || !strcmp("1", value);
+}
+
 static void extractAttributes(Nodeset *nodeset, const NamespaceList *namespaces,
                               NL_Node *node, int attributeSize,
                               const char **attributes)
@@ -559,8 +565,8 @@ NL_Reference *Nodeset_newReference(Nodeset *nodeset, NL_Node *node,
                                    int attributeSize, const char **attributes)
 {
     NL_Reference *newRef = (NL_Reference *)calloc(1, sizeof(NL_Reference));
-    if (!strcmp("true", getAttributeValue(nodeset, &attrIsForward, attributes,
-                                          attributeSize)))
+    if (isTrue(getAttributeValue(nodeset, &attrIsForward, attributes,
+                                 attributeSize)))
     {
         newRef->isForward = true;
     }
@@ -700,11 +706,11 @@ void Nodeset_addDataTypeDefinition(Nodeset *nodeset, NL_Node *node,
     NL_DataTypeNode *dataTypeNode = (NL_DataTypeNode *)node;
     NL_DataTypeDefinition *def = DataTypeDefinition_new(dataTypeNode);
     def->isUnion =
-        !strcmp("true", getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
-                                          attributes, attributeSize));
-    def->isOptionSet = !strcmp(
-        "true", getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
-                                  attributes, attributeSize));
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsUnion,
+                                 attributes, attributeSize));
+    def->isOptionSet =
+        isTrue(getAttributeValue(nodeset, &dataTypeDefinition_IsOptionSet,
+                                 attributes, attributeSize));
 }
 
 void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
@@ -738,7 +744,7 @@ void Nodeset_addDataTypeField(Nodeset *nodeset, NL_Node *node,
             nodeset, &attrValueRank, attributes, attributeSize));
         char *isOptional = getAttributeValue(nodeset, &dataTypeField_IsOptional,
                                              attributes, attributeSize);
-        newField->isOptional = !strcmp("true", isOptional);
+        newField->isOptional = isTrue(isOptional);
     }
 }
 
-- 
2.43.0


From 557add9c3e084d753fcc9c4d0d08ce63212f3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:37 +0000
Subject: [PATCH 45/45] fix: attributes of other namespaces were taken for
 those of the nodeset

---
 src/Nodeset.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Nodeset.c b/src/Nodeset.c
index 643e6a6..9b1c7d6 100644
--- a/src/Nodeset.c
+++ b/src/Nodeset.c
@@ -433,6 +433,9 @@ static char *getAttributeValue(Nodeset *nodeset, const NodeAttribute *attr,
         const char *localname = attributes[i * fields + 0];
         if (strcmp((const char *)localname, attr->name))
             continue;
+        // attributes with a prefix are from another namespace
+        if (attributes[i * fields + 1])
+            continue;
         const char *value_start = attributes[i * fields + 3];
         const char *value_end = attributes[i * fields + 4];
         size_t size = (size_t)(value_end - value_start);
-- 
2.43.0

