/* Mock of the open62541 server information model: a node store with the part
 * of namespace 0 a nodeset hangs on, the AddNodes/AddReferences checks of
 * open62541 1.4 that depend on structure, and Browse. */
#include "mockserver.h"
#include <open62541/plugin/log_stdout.h>
#define HSZ 4096
struct UA_Server {
    UA_ServerConfig cfg; char **ns; size_t nsN;
    MNode *first, *last; MNode *tab[HSZ]; MCall *calls, *lastCall; unsigned seq; bool boot;
};
static void nolog(void *c, UA_LogLevel l, UA_LogCategory k, const char *m, va_list a) {
    (void)c; (void)l; (void)k; char b[4096]; vsnprintf(b, sizeof b, m, a);
}
const UA_Logger UA_Log_Stdout_ = {nolog, NULL, NULL};
const UA_Logger *UA_Log_Stdout = &UA_Log_Stdout_;
MNode *mock_first(UA_Server *s) { return s->first; }
MCall *mock_calls(UA_Server *s) { return s->calls; }
size_t mock_nsCount(UA_Server *s) { return s->nsN; }
const char *mock_nsUri(UA_Server *s, size_t i) { return s->ns[i]; }
MNode *mock_find(UA_Server *s, const UA_NodeId *id) {
    for(MNode *n = s->tab[UA_NodeId_hash(id) % HSZ]; n; n = n->hnext) if(UA_NodeId_equal(&n->id, id)) return n;
    return NULL;
}
static MNode *insert(UA_Server *s, const UA_NodeId *id, UA_NodeClass cls) {
    MNode *n = (MNode *)calloc(1, sizeof *n); UA_NodeId_copy(id, &n->id); n->cls = cls; n->order = s->seq++; n->ns0 = s->boot;
    unsigned h = UA_NodeId_hash(id) % HSZ; n->hnext = s->tab[h]; s->tab[h] = n;
    if(s->last) s->last->next = n; else s->first = n;
    s->last = n; return n;
}
static void freeNode(MNode *n) {
    while(n->refs) { MRef *r = n->refs; n->refs = r->next; UA_NodeId_clear(&r->type); UA_NodeId_clear(&r->target); free(r); }
    UA_NodeId_clear(&n->id); UA_QualifiedName_clear(&n->bn); UA_NodeId_clear(&n->parent); UA_NodeId_clear(&n->parentRef); UA_NodeId_clear(&n->typeDef);
    if(n->attr) UA_delete(n->attr, n->attrType);
    free(n);
}
static void removeNode(UA_Server *s, MNode *n) {
    for(MNode *m = s->first; m; m = m->next) { MRef **p = &m->refs; while(*p) { MRef *r = *p; if(m != n && UA_NodeId_equal(&r->target, &n->id)) { *p = r->next; UA_NodeId_clear(&r->type); UA_NodeId_clear(&r->target); free(r); } else p = &r->next; } }
    MNode **h = &s->tab[UA_NodeId_hash(&n->id) % HSZ]; while(*h != n) h = &(*h)->hnext; *h = n->hnext;
    MNode *prev = NULL; for(MNode *m = s->first; m != n; m = m->next) prev = m;
    if(prev) prev->next = n->next; else s->first = n->next;
    if(s->last == n) s->last = prev;
    freeNode(n);
}
static bool hasRef(MNode *n, const UA_NodeId *t, const UA_NodeId *target, bool fwd) {
    for(MRef *r = n->refs; r; r = r->next) if(r->fwd == fwd && UA_NodeId_equal(&r->type, t) && UA_NodeId_equal(&r->target, target)) return true;
    return false;
}
static void putRef(MNode *n, const UA_NodeId *t, const UA_NodeId *target, bool fwd) {
    MRef *r = (MRef *)calloc(1, sizeof *r), **p = &n->refs; UA_NodeId_copy(t, &r->type); UA_NodeId_copy(target, &r->target); r->fwd = fwd;
    while(*p) p = &(*p)->next;
    *p = r;
}
static void both(MNode *a, UA_UInt32 t, MNode *b) { UA_NodeId ty = UA_NODEID_NUMERIC(0, t); putRef(a, &ty, &b->id, true); putRef(b, &ty, &a->id, false); }
/* is `id` equal to `root` or a HasSubtype-descendant of it? */
static bool isSub(UA_Server *s, const UA_NodeId *id, UA_UInt32 root, int depth) {
    UA_NodeId r = UA_NODEID_NUMERIC(0, root), st = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
    if(UA_NodeId_equal(id, &r)) return true;
    MNode *n = depth > 64 ? NULL : mock_find(s, id);
    if(!n) return false;
    for(MRef *q = n->refs; q; q = q->next) if(!q->fwd && UA_NodeId_equal(&q->type, &st) && isSub(s, &q->target, root, depth + 1)) return true;
    return false;
}
static const struct { UA_UInt32 id, cls, parent, ref; const char *name; int abs; } NS0[] = {
    {84, 1, 0, 0, "Root", 0}, {85, 1, 84, 35, "Objects", 0}, {86, 1, 84, 35, "Types", 0}, {87, 1, 84, 35, "Views", 0},
    {88, 1, 86, 35, "ObjectTypes", 0}, {89, 1, 86, 35, "VariableTypes", 0}, {90, 1, 86, 35, "DataTypes", 0}, {91, 1, 86, 35, "ReferenceTypes", 0},
    {31, 32, 91, 35, "References", 1}, {33, 32, 31, 45, "HierarchicalReferences", 1}, {32, 32, 31, 45, "NonHierarchicalReferences", 1},
    {34, 32, 33, 45, "HasChild", 1}, {35, 32, 33, 45, "Organizes", 0}, {36, 32, 33, 45, "HasEventSource", 0}, {48, 32, 36, 45, "HasNotifier", 0},
    {44, 32, 34, 45, "Aggregates", 1}, {45, 32, 34, 45, "HasSubtype", 0}, {46, 32, 44, 45, "HasProperty", 0}, {47, 32, 44, 45, "HasComponent", 0}, {49, 32, 47, 45, "HasOrderedComponent", 0},
    {56, 32, 44, 45, "HasHistoricalConfiguration", 0}, {17604, 32, 47, 45, "HasAddIn", 0},
    {37, 32, 32, 45, "HasModellingRule", 0}, {38, 32, 32, 45, "HasEncoding", 0}, {39, 32, 32, 45, "HasDescription", 0}, {40, 32, 32, 45, "HasTypeDefinition", 0},
    {41, 32, 32, 45, "GeneratesEvent", 0}, {3065, 32, 41, 45, "AlwaysGeneratesEvent", 0}, {51, 32, 32, 45, "FromState", 0}, {52, 32, 32, 45, "ToState", 0}, {53, 32, 32, 45, "HasCause", 0}, {54, 32, 32, 45, "HasEffect", 0}, {17603, 32, 32, 45, "HasInterface", 0}, {17597, 32, 32, 45, "HasDictionaryEntry", 0},
    {58, 8, 88, 35, "BaseObjectType", 0}, {61, 8, 58, 45, "FolderType", 0}, {76, 8, 58, 45, "DataTypeEncodingType", 0}, {77, 8, 58, 45, "ModellingRuleType", 0}, {2041, 8, 58, 45, "BaseEventType", 1}, {17602, 8, 58, 45, "BaseInterfaceType", 1},
    {62, 16, 89, 35, "BaseVariableType", 1}, {63, 16, 62, 45, "BaseDataVariableType", 0}, {68, 16, 62, 45, "PropertyType", 0}, {69, 16, 63, 45, "DataTypeDescriptionType", 0}, {72, 16, 63, 45, "DataTypeDictionaryType", 0},
    {78, 1, 0, 0, "Mandatory", 0}, {80, 1, 0, 0, "Optional", 0}, {2253, 1, 85, 35, "Server", 0}, {92, 1, 90, 35, "XML Schema", 0}, {93, 1, 90, 35, "OPC Binary", 0}, {2318, 8, 58, 45, "HistoricalDataConfigurationType", 0},
    {24, 64, 90, 35, "BaseDataType", 1}, {1, 64, 24, 45, "Boolean", 0}, {26, 64, 24, 45, "Number", 1}, {27, 64, 26, 45, "Integer", 1}, {28, 64, 26, 45, "UInteger", 1},
    {2, 64, 27, 45, "SByte", 0}, {3, 64, 28, 45, "Byte", 0}, {4, 64, 27, 45, "Int16", 0}, {5, 64, 28, 45, "UInt16", 0}, {6, 64, 27, 45, "Int32", 0}, {7, 64, 28, 45, "UInt32", 0}, {8, 64, 27, 45, "Int64", 0}, {9, 64, 28, 45, "UInt64", 0},
    {10, 64, 26, 45, "Float", 0}, {11, 64, 26, 45, "Double", 0}, {12, 64, 24, 45, "String", 0}, {13, 64, 24, 45, "DateTime", 0}, {14, 64, 24, 45, "Guid", 0}, {15, 64, 24, 45, "ByteString", 0}, {16, 64, 24, 45, "XmlElement", 0}, {17, 64, 24, 45, "NodeId", 0}, {18, 64, 24, 45, "ExpandedNodeId", 0}, {19, 64, 24, 45, "StatusCode", 0},
    {20, 64, 24, 45, "QualifiedName", 0}, {21, 64, 24, 45, "LocalizedText", 0}, {22, 64, 24, 45, "Structure", 1}, {23, 64, 24, 45, "DataValue", 0}, {25, 64, 24, 45, "DiagnosticInfo", 0}, {29, 64, 24, 45, "Enumeration", 1},
    {30, 64, 15, 45, "Image", 1}, {288, 64, 7, 45, "IntegerId", 0}, {289, 64, 7, 45, "Counter", 0}, {290, 64, 11, 45, "Duration", 0}, {294, 64, 13, 45, "UtcTime", 0}, {295, 64, 12, 45, "LocaleId", 0},
    {296, 64, 22, 45, "Argument", 0}, {7594, 64, 22, 45, "EnumValueType", 0}, {884, 64, 22, 45, "Range", 0}, {887, 64, 22, 45, "EUInformation", 0}, {8912, 64, 22, 45, "TimeZoneDataType", 0}, {12080, 64, 22, 45, "XVType", 0}, {12755, 64, 22, 45, "OptionSet", 1}, {12756, 64, 22, 45, "Union", 1}, {257, 64, 29, 45, "NodeClass", 0}, {852, 64, 29, 45, "ServerState", 0},
};
static void *defAttr(UA_NodeClass c, const UA_DataType **t) {
    int i = c == UA_NODECLASS_OBJECT ? UA_TYPES_OBJECTATTRIBUTES : c == UA_NODECLASS_VARIABLE ? UA_TYPES_VARIABLEATTRIBUTES : c == UA_NODECLASS_METHOD ? UA_TYPES_METHODATTRIBUTES : c == UA_NODECLASS_OBJECTTYPE ? UA_TYPES_OBJECTTYPEATTRIBUTES : c == UA_NODECLASS_VARIABLETYPE ? UA_TYPES_VARIABLETYPEATTRIBUTES : c == UA_NODECLASS_REFERENCETYPE ? UA_TYPES_REFERENCETYPEATTRIBUTES : c == UA_NODECLASS_DATATYPE ? UA_TYPES_DATATYPEATTRIBUTES : UA_TYPES_VIEWATTRIBUTES;
    *t = &UA_TYPES[i]; return UA_new(*t);
}
UA_Server *UA_Server_new(void) {
    UA_Server *s = (UA_Server *)calloc(1, sizeof *s); s->boot = true; s->cfg.logging = UA_Log_Stdout;
    UA_Server_addNamespace(s, "http://opcfoundation.org/UA/"); UA_Server_addNamespace(s, "urn:open62541.server.application");
    for(size_t i = 0; i < sizeof NS0 / sizeof *NS0; i++) {
        UA_NodeId id = UA_NODEID_NUMERIC(0, NS0[i].id); MNode *n = insert(s, &id, (UA_NodeClass)NS0[i].cls);
        n->bn = UA_QUALIFIEDNAME_ALLOC(0, NS0[i].name); n->attr = defAttr(n->cls, &n->attrType);
        if(n->cls == UA_NODECLASS_REFERENCETYPE) ((UA_ReferenceTypeAttributes *)n->attr)->isAbstract = NS0[i].abs;
        if(n->cls == UA_NODECLASS_DATATYPE) ((UA_DataTypeAttributes *)n->attr)->isAbstract = NS0[i].abs;
        if(n->cls == UA_NODECLASS_OBJECTTYPE) ((UA_ObjectTypeAttributes *)n->attr)->isAbstract = NS0[i].abs;
        if(n->cls == UA_NODECLASS_VARIABLETYPE) ((UA_VariableTypeAttributes *)n->attr)->isAbstract = NS0[i].abs;
    }
    for(size_t i = 0; i < sizeof NS0 / sizeof *NS0; i++) if(NS0[i].ref) {
        UA_NodeId id = UA_NODEID_NUMERIC(0, NS0[i].id), p = UA_NODEID_NUMERIC(0, NS0[i].parent);
        both(mock_find(s, &p), NS0[i].ref, mock_find(s, &id));
    }
    for(MNode *n = s->first; n; n = n->next) for(MRef *r = n->refs; r; r = r->next) n->bootRefs++;
    s->boot = false; return s;
}
UA_StatusCode UA_Server_delete(UA_Server *s) {
    while(s->first) { MNode *n = s->first; s->first = n->next; freeNode(n); }
    while(s->calls) { MCall *c = s->calls; s->calls = c->next; UA_NodeId_clear(&c->id); UA_NodeId_clear(&c->parent); UA_NodeId_clear(&c->ref); free(c); }
    for(size_t i = 0; i < s->nsN; i++) free(s->ns[i]);
    free(s->ns);
    const UA_DataTypeArray *a = s->cfg.customDataTypes;
    while(a && a->cleanup) { const UA_DataTypeArray *nx = a->next; for(size_t i = 0; i < a->typesSize; i++) free(a->types[i].members); free((void *)(uintptr_t)a->types); free((void *)(uintptr_t)a); a = nx; }
    free(s); return 0;
}
UA_ServerConfig *UA_Server_getConfig(UA_Server *s) { return s ? &s->cfg : NULL; }
UA_StatusCode UA_ServerConfig_setDefault(UA_ServerConfig *c) { (void)c; return 0; }
UA_StatusCode UA_Server_run_startup(UA_Server *s) { (void)s; return 0; }
UA_UInt16 UA_Server_run_iterate(UA_Server *s, UA_Boolean w) { (void)s; (void)w; return 0; }
UA_StatusCode UA_Server_run_shutdown(UA_Server *s) { (void)s; return 0; }
UA_UInt16 UA_Server_addNamespace(UA_Server *s, const char *name) {
    for(size_t i = 0; i < s->nsN; i++) if(!strcmp(s->ns[i], name)) return (UA_UInt16)i;
    s->ns = (char **)realloc(s->ns, (s->nsN + 1) * sizeof(char *));
    s->ns[s->nsN] = (char *)malloc(strlen(name) + 1); strcpy(s->ns[s->nsN], name);
    return (UA_UInt16)s->nsN++;
}
UA_StatusCode UA_Server_getNamespaceByName(UA_Server *s, const UA_String u, size_t *f) {
    for(size_t i = 0; i < s->nsN; i++) if(strlen(s->ns[i]) == u.length && !memcmp(s->ns[i], u.data, u.length)) { *f = i; return 0; }
    return UA_STATUSCODE_BADNOTFOUND;
}
UA_StatusCode UA_Server_getNamespaceByIndex(UA_Server *s, const size_t i, UA_String *f) { if(i >= s->nsN) return UA_STATUSCODE_BADNOTFOUND; *f = UA_String_fromChars(s->ns[i]); return 0; }
const UA_DataType *UA_Server_findDataType(UA_Server *s, const UA_NodeId *id) { return UA_findDataTypeWithCustom(id, s->cfg.customDataTypes); }
static UA_StatusCode checkParent(UA_Server *s, UA_NodeClass cls, const UA_NodeId *parent, const UA_NodeId *ref) {
    if((cls == UA_NODECLASS_OBJECT || cls == UA_NODECLASS_VARIABLE) && UA_NodeId_isNull(parent) && UA_NodeId_isNull(ref)) return 0;
    MNode *p = mock_find(s, parent); if(!p) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
    MNode *r = mock_find(s, ref); if(!r) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    if(r->cls != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    if(((UA_ReferenceTypeAttributes *)r->attr)->isAbstract) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
    if(cls == UA_NODECLASS_OBJECTTYPE || cls == UA_NODECLASS_VARIABLETYPE || cls == UA_NODECLASS_REFERENCETYPE || cls == UA_NODECLASS_DATATYPE) {
        UA_NodeId st = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
        if(!UA_NodeId_equal(ref, &st)) return UA_STATUSCODE_BADREFERENCENOTALLOWED;
        if(p->cls != cls) return UA_STATUSCODE_BADPARENTNODEIDINVALID;
    }
    if(!isSub(s, ref, UA_NS0ID_HIERARCHICALREFERENCES, 0)) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    return 0;
}
static UA_StatusCode addNode(UA_Server *s, UA_NodeClass cls, const UA_NodeId *id, const UA_NodeId *parent, const UA_NodeId *ref, const UA_QualifiedName *bn, const UA_NodeId *td, const void *attr, const UA_DataType *at, void *ctx) {
    if(id->namespaceIndex >= s->nsN) return UA_STATUSCODE_BADNODEIDINVALID;
    if(UA_NodeId_isNull(id)) return UA_STATUSCODE_BADNODEIDINVALID; /* a nodeset node always has an id */
    if(mock_find(s, id)) return UA_STATUSCODE_BADNODEIDEXISTS;
    UA_StatusCode r = checkParent(s, cls, parent, ref); if(r) return r;
    UA_NodeId typeDef = *td;
    if(cls == UA_NODECLASS_VARIABLE || cls == UA_NODECLASS_OBJECT) {
        if(UA_NodeId_isNull(&typeDef)) typeDef = UA_NODEID_NUMERIC(0, cls == UA_NODECLASS_VARIABLE ? UA_NS0ID_BASEDATAVARIABLETYPE : UA_NS0ID_BASEOBJECTTYPE);
        MNode *t = mock_find(s, &typeDef);
        if(!t || t->cls != (cls == UA_NODECLASS_VARIABLE ? UA_NODECLASS_VARIABLETYPE : UA_NODECLASS_OBJECTTYPE)) return UA_STATUSCODE_BADTYPEDEFINITIONINVALID;
    }
    MNode *n = insert(s, id, cls); UA_QualifiedName_copy(bn, &n->bn); n->ctx = ctx; n->attrType = at; n->attr = UA_new(at);
    UA_NodeId_copy(parent, &n->parent); UA_NodeId_copy(ref, &n->parentRef);
    r = UA_copy(attr, n->attr, at);
    if(r) { removeNode(s, n); return r; }
    if(cls == UA_NODECLASS_VARIABLE || cls == UA_NODECLASS_OBJECT) {
        UA_NodeId_copy(&typeDef, &n->typeDef); UA_NodeId h = UA_NODEID_NUMERIC(0, UA_NS0ID_HASTYPEDEFINITION);
        putRef(n, &h, &typeDef, true); putRef(mock_find(s, &typeDef), &h, &n->id, false);
    }
    if(!UA_NodeId_isNull(parent)) { putRef(n, ref, parent, false); putRef(mock_find(s, parent), ref, &n->id, true); }
    return 0;
}
UA_StatusCode UA_Server_addNode_begin(UA_Server *s, const UA_NodeClass cls, const UA_NodeId id, const UA_NodeId parent, const UA_NodeId ref, const UA_QualifiedName bn, const UA_NodeId td, const void *attr, const UA_DataType *at, void *ctx, UA_NodeId *out) {
    UA_StatusCode r = addNode(s, cls, &id, &parent, &ref, &bn, &td, attr, at, ctx);
    MCall *c = (MCall *)calloc(1, sizeof *c); UA_NodeId_copy(&id, &c->id); UA_NodeId_copy(&parent, &c->parent); UA_NodeId_copy(&ref, &c->ref); c->cls = cls; c->st = r; c->seq = s->seq++;
    if(s->lastCall) s->lastCall->next = c; else s->calls = c;
    s->lastCall = c;
    if(!r && out) UA_NodeId_copy(&id, out);
    return r;
}
UA_StatusCode UA_Server_addNode_finish(UA_Server *s, const UA_NodeId id) { MNode *n = mock_find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; n->finished = true; return 0; }
#define IMPT(N, A, C, T) UA_StatusCode UA_Server_add##N##Node(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName bn, const UA_NodeId td, const A attr, void *ctx, UA_NodeId *out) { return UA_Server_addNode_begin(s, C, id, p, r, bn, td, &attr, &UA_TYPES[T], ctx, out); }
#define IMPN(N, A, C, T) UA_StatusCode UA_Server_add##N##Node(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName bn, const A attr, void *ctx, UA_NodeId *out) { return UA_Server_addNode_begin(s, C, id, p, r, bn, UA_NODEID_NULL, &attr, &UA_TYPES[T], ctx, out); }
IMPT(Variable, UA_VariableAttributes, UA_NODECLASS_VARIABLE, UA_TYPES_VARIABLEATTRIBUTES) IMPT(Object, UA_ObjectAttributes, UA_NODECLASS_OBJECT, UA_TYPES_OBJECTATTRIBUTES) IMPT(VariableType, UA_VariableTypeAttributes, UA_NODECLASS_VARIABLETYPE, UA_TYPES_VARIABLETYPEATTRIBUTES)
IMPN(ObjectType, UA_ObjectTypeAttributes, UA_NODECLASS_OBJECTTYPE, UA_TYPES_OBJECTTYPEATTRIBUTES) IMPN(ReferenceType, UA_ReferenceTypeAttributes, UA_NODECLASS_REFERENCETYPE, UA_TYPES_REFERENCETYPEATTRIBUTES) IMPN(DataType, UA_DataTypeAttributes, UA_NODECLASS_DATATYPE, UA_TYPES_DATATYPEATTRIBUTES) IMPN(View, UA_ViewAttributes, UA_NODECLASS_VIEW, UA_TYPES_VIEWATTRIBUTES)
UA_StatusCode UA_Server_addMethodNode(UA_Server *s, const UA_NodeId id, const UA_NodeId p, const UA_NodeId r, const UA_QualifiedName bn, const UA_MethodAttributes attr, UA_MethodCallback m, size_t is, const UA_Argument *ia, size_t os, const UA_Argument *oa, void *ctx, UA_NodeId *out) {
    (void)m; (void)is; (void)ia; (void)os; (void)oa;
    return UA_Server_addNode_begin(s, UA_NODECLASS_METHOD, id, p, r, bn, UA_NODEID_NULL, &attr, &UA_TYPES[UA_TYPES_METHODATTRIBUTES], ctx, out);
}
UA_StatusCode UA_Server_deleteNode(UA_Server *s, const UA_NodeId id, UA_Boolean d) { (void)d; MNode *n = mock_find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; removeNode(s, n); return 0; }
UA_StatusCode UA_Server_addReference(UA_Server *s, const UA_NodeId src, const UA_NodeId ref, const UA_ExpandedNodeId t, UA_Boolean fwd) {
    MNode *r = mock_find(s, &ref); if(!r || r->cls != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADREFERENCETYPEIDINVALID;
    MNode *a = mock_find(s, &src), *b = mock_find(s, &t.nodeId);
    if(!a) return UA_STATUSCODE_BADSOURCENODEIDINVALID;
    if(!b) return UA_STATUSCODE_BADTARGETNODEIDINVALID;
    bool e1 = hasRef(a, &ref, &b->id, fwd), e2 = hasRef(b, &ref, &a->id, !fwd);
    if(e1 && e2) return UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED;
    if(!e1) putRef(a, &ref, &b->id, fwd);
    if(!e2) putRef(b, &ref, &a->id, !fwd);
    return 0;
}
UA_StatusCode UA_Server_deleteReference(UA_Server *s, const UA_NodeId src, const UA_NodeId ref, UA_Boolean fwd, const UA_ExpandedNodeId t, UA_Boolean bi) {
    MNode *a = mock_find(s, &src); if(!a) return UA_STATUSCODE_BADSOURCENODEIDINVALID;
    for(int k = 0; k < (bi ? 2 : 1); k++) {
        MNode *x = k ? mock_find(s, &t.nodeId) : a; const UA_NodeId *y = k ? &src : &t.nodeId; bool f = k ? !fwd : fwd;
        if(!x) continue;
        for(MRef **p = &x->refs; *p; p = &(*p)->next) if((*p)->fwd == f && UA_NodeId_equal(&(*p)->type, &ref) && UA_NodeId_equal(&(*p)->target, y)) { MRef *q = *p; *p = q->next; UA_NodeId_clear(&q->type); UA_NodeId_clear(&q->target); free(q); break; }
    }
    return 0;
}
UA_BrowseResult UA_Server_browse(UA_Server *s, UA_UInt32 max, const UA_BrowseDescription *bd) {
    UA_BrowseResult br; memset(&br, 0, sizeof br);
    MNode *n = mock_find(s, &bd->nodeId); if(!n) { br.statusCode = UA_STATUSCODE_BADNODEIDUNKNOWN; return br; }
    if(!UA_NodeId_isNull(&bd->referenceTypeId)) { MNode *r = mock_find(s, &bd->referenceTypeId); if(!r || r->cls != UA_NODECLASS_REFERENCETYPE) { br.statusCode = UA_STATUSCODE_BADREFERENCETYPEIDINVALID; return br; } }
    size_t cap = 0; for(MRef *r = n->refs; r; r = r->next) cap++;
    br.references = cap ? (UA_ReferenceDescription *)calloc(cap, sizeof(UA_ReferenceDescription)) : NULL;
    for(MRef *r = n->refs; r; r = r->next) {
        if(bd->browseDirection == UA_BROWSEDIRECTION_FORWARD && !r->fwd) continue;
        if(bd->browseDirection == UA_BROWSEDIRECTION_INVERSE && r->fwd) continue;
        if(!UA_NodeId_isNull(&bd->referenceTypeId)) {
            bool ok = UA_NodeId_equal(&bd->referenceTypeId, &r->type);
            if(!ok && bd->includeSubtypes) {
                UA_NodeId cur = r->type, st = UA_NODEID_NUMERIC(0, UA_NS0ID_HASSUBTYPE);
                for(int d = 0; d < 64 && !ok; d++) {
                    MNode *q = mock_find(s, &cur); MRef *u = q ? q->refs : NULL; while(u && !(!u->fwd && UA_NodeId_equal(&u->type, &st))) u = u->next;
                    if(!u) break;
                    cur = u->target; ok = UA_NodeId_equal(&cur, &bd->referenceTypeId);
                }
            }
            if(!ok) continue;
        }
        MNode *t = mock_find(s, &r->target);
        if(bd->nodeClassMask && (!t || !(bd->nodeClassMask & (UA_UInt32)t->cls))) continue;
        if(max && br.referencesSize == max) { br.continuationPoint = UA_String_fromChars("cp"); break; }
        UA_ReferenceDescription *d = &br.references[br.referencesSize++];
        UA_NodeId_copy(&r->target, &d->nodeId.nodeId);
        if(bd->resultMask & UA_BROWSERESULTMASK_REFERENCETYPEID) UA_NodeId_copy(&r->type, &d->referenceTypeId);
        if(bd->resultMask & UA_BROWSERESULTMASK_ISFORWARD) d->isForward = r->fwd;
        if(t && (bd->resultMask & UA_BROWSERESULTMASK_NODECLASS)) d->nodeClass = t->cls;
        if(t && (bd->resultMask & UA_BROWSERESULTMASK_BROWSENAME)) UA_QualifiedName_copy(&t->bn, &d->browseName);
        if(t && (bd->resultMask & UA_BROWSERESULTMASK_TYPEDEFINITION)) UA_NodeId_copy(&t->typeDef, &d->typeDefinition.nodeId);
    }
    if(br.referencesSize == 0) { free(br.references); br.references = (UA_ReferenceDescription *)UA_EMPTY_ARRAY_SENTINEL; }
    return br;
}
UA_BrowseResult UA_Server_browseNext(UA_Server *s, UA_Boolean rel, const UA_ByteString *cp) { (void)s; (void)rel; (void)cp; UA_BrowseResult br; memset(&br, 0, sizeof br); return br; }
UA_StatusCode UA_Server_getNodeContext(UA_Server *s, UA_NodeId id, void **c) { MNode *n = mock_find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; *c = n->ctx; return 0; }
UA_StatusCode UA_Server_setNodeContext(UA_Server *s, UA_NodeId id, void *c) { MNode *n = mock_find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN; n->ctx = c; return 0; }
#define GETN MNode *n = mock_find(s, &id); if(!n) return UA_STATUSCODE_BADNODEIDUNKNOWN
UA_StatusCode UA_Server_readNodeClass(UA_Server *s, const UA_NodeId id, UA_NodeClass *o) { GETN; *o = n->cls; return 0; }
UA_StatusCode UA_Server_readNodeId(UA_Server *s, const UA_NodeId id, UA_NodeId *o) { GETN; return UA_NodeId_copy(&n->id, o); }
UA_StatusCode UA_Server_readBrowseName(UA_Server *s, const UA_NodeId id, UA_QualifiedName *o) { GETN; return UA_QualifiedName_copy(&n->bn, o); }
UA_StatusCode UA_Server_readDisplayName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *o) { GETN; return UA_LocalizedText_copy(&((UA_NodeAttributes *)n->attr)->displayName, o); }
UA_StatusCode UA_Server_readDescription(UA_Server *s, const UA_NodeId id, UA_LocalizedText *o) { GETN; return UA_LocalizedText_copy(&((UA_NodeAttributes *)n->attr)->description, o); }
UA_StatusCode UA_Server_readIsAbstract(UA_Server *s, const UA_NodeId id, UA_Boolean *o) {
    GETN;
    switch(n->cls) {
    case UA_NODECLASS_OBJECTTYPE: *o = ((UA_ObjectTypeAttributes *)n->attr)->isAbstract; return 0;
    case UA_NODECLASS_VARIABLETYPE: *o = ((UA_VariableTypeAttributes *)n->attr)->isAbstract; return 0;
    case UA_NODECLASS_DATATYPE: *o = ((UA_DataTypeAttributes *)n->attr)->isAbstract; return 0;
    case UA_NODECLASS_REFERENCETYPE: *o = ((UA_ReferenceTypeAttributes *)n->attr)->isAbstract; return 0;
    default: return UA_STATUSCODE_BADATTRIBUTEIDINVALID;
    }
}
#define RD(N, C, A, F, T) UA_StatusCode UA_Server_read##N(UA_Server *s, const UA_NodeId id, T *o) { GETN; if(n->cls != C) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; *o = ((A *)n->attr)->F; return 0; }
RD(Symmetric, UA_NODECLASS_REFERENCETYPE, UA_ReferenceTypeAttributes, symmetric, UA_Boolean)
RD(ContainsNoLoops, UA_NODECLASS_VIEW, UA_ViewAttributes, containsNoLoops, UA_Boolean)
RD(MinimumSamplingInterval, UA_NODECLASS_VARIABLE, UA_VariableAttributes, minimumSamplingInterval, UA_Double)
RD(Historizing, UA_NODECLASS_VARIABLE, UA_VariableAttributes, historizing, UA_Boolean)
RD(AccessLevel, UA_NODECLASS_VARIABLE, UA_VariableAttributes, accessLevel, UA_Byte)
RD(UserAccessLevel, UA_NODECLASS_VARIABLE, UA_VariableAttributes, userAccessLevel, UA_Byte)
RD(Executable, UA_NODECLASS_METHOD, UA_MethodAttributes, executable, UA_Boolean)
RD(UserExecutable, UA_NODECLASS_METHOD, UA_MethodAttributes, userExecutable, UA_Boolean)
UA_StatusCode UA_Server_readEventNotifier(UA_Server *s, const UA_NodeId id, UA_Byte *o) { GETN; if(n->cls == UA_NODECLASS_OBJECT) *o = ((UA_ObjectAttributes *)n->attr)->eventNotifier; else if(n->cls == UA_NODECLASS_VIEW) *o = ((UA_ViewAttributes *)n->attr)->eventNotifier; else return UA_STATUSCODE_BADATTRIBUTEIDINVALID; return 0; }
UA_StatusCode UA_Server_readInverseName(UA_Server *s, const UA_NodeId id, UA_LocalizedText *o) { GETN; if(n->cls != UA_NODECLASS_REFERENCETYPE) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; return UA_LocalizedText_copy(&((UA_ReferenceTypeAttributes *)n->attr)->inverseName, o); }
UA_StatusCode UA_Server_readValue(UA_Server *s, const UA_NodeId id, UA_Variant *o) { GETN; if(n->cls == UA_NODECLASS_VARIABLE) return UA_Variant_copy(&((UA_VariableAttributes *)n->attr)->value, o); return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readDataType(UA_Server *s, const UA_NodeId id, UA_NodeId *o) { GETN; if(n->cls == UA_NODECLASS_VARIABLE) return UA_NodeId_copy(&((UA_VariableAttributes *)n->attr)->dataType, o); if(n->cls == UA_NODECLASS_VARIABLETYPE) return UA_NodeId_copy(&((UA_VariableTypeAttributes *)n->attr)->dataType, o); return UA_STATUSCODE_BADATTRIBUTEIDINVALID; }
UA_StatusCode UA_Server_readValueRank(UA_Server *s, const UA_NodeId id, UA_Int32 *o) { GETN; if(n->cls == UA_NODECLASS_VARIABLE) *o = ((UA_VariableAttributes *)n->attr)->valueRank; else if(n->cls == UA_NODECLASS_VARIABLETYPE) *o = ((UA_VariableTypeAttributes *)n->attr)->valueRank; else return UA_STATUSCODE_BADATTRIBUTEIDINVALID; return 0; }
UA_StatusCode UA_Server_readArrayDimensions(UA_Server *s, const UA_NodeId id, UA_Variant *o) {
    GETN; size_t k; UA_UInt32 *d;
    if(n->cls == UA_NODECLASS_VARIABLE) { k = ((UA_VariableAttributes *)n->attr)->arrayDimensionsSize; d = ((UA_VariableAttributes *)n->attr)->arrayDimensions; }
    else if(n->cls == UA_NODECLASS_VARIABLETYPE) { k = ((UA_VariableTypeAttributes *)n->attr)->arrayDimensionsSize; d = ((UA_VariableTypeAttributes *)n->attr)->arrayDimensions; }
    else return UA_STATUSCODE_BADATTRIBUTEIDINVALID;
    return UA_Variant_setArrayCopy(o, d, k, &UA_TYPES[UA_TYPES_UINT32]);
}
UA_StatusCode UA_Server_writeValue(UA_Server *s, const UA_NodeId id, const UA_Variant v) { GETN; if(n->cls != UA_NODECLASS_VARIABLE) return UA_STATUSCODE_BADATTRIBUTEIDINVALID; UA_Variant *t = &((UA_VariableAttributes *)n->attr)->value; UA_Variant_clear(t); return UA_Variant_copy(&v, t); }
