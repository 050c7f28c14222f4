/* Drives the open62541 backend: loads nodesets into servers and shows what the
 * servers then contain. */
#include "hcommon.h"
#include "mockserver.h"
#include <NodesetLoader/NodesetLoader.h>
#include <NodesetLoader/backendOpen62541.h>
#include <NodesetLoader/dataTypes.h>
#include <libxml/parser.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#define MAXS 8
typedef struct { UA_Server *s; char *base; UA_Logger log; char *nm; NodesetLoader_ExtensionInterface ext; } Srv;
static Srv srvs[MAXS];
static int fd0 = -1; static long xml0;
static Srv *srvOf(const char *nm) {
    for(int i = 0; i < MAXS; i++) if(srvs[i].nm && !strcmp(srvs[i].nm, nm)) return &srvs[i];
    for(int i = 0; i < MAXS; i++) if(!srvs[i].nm) { srvs[i].nm = hx_strdup(nm); return &srvs[i]; }
    exit(3);
}
static void logFn(void *ctx, UA_LogLevel lv, UA_LogCategory c, const char *msg, va_list a) {
    bool t = H_track; H_track = false; (void)c; char b[4096]; vsnprintf(b, sizeof b, msg, a);
    fprintf(H_out, "{\"ev\":\"log\",\"S\":"); jstr((const char *)ctx); fprintf(H_out, ",\"lv\":%d}\n", (int)lv); H_track = t;
}
static int extN;
static void *xNew(void) { bool t = H_track; H_track = false; int *d = (int *)hx_malloc(sizeof(int)); *d = ++extN; fprintf(H_out, "{\"ev\":\"xnew\",\"d\":%d}\n", *d); H_track = t; return d; }
static void xStart(void *d, const char *name, int n, const char **a) { (void)d; (void)name; (void)n; (void)a; }
static void xEnd(void *d, const char *name, const char *v) { (void)d; (void)name; (void)v; }
static void xFin(void *d) { (void)d; }
static const char *KIND[] = {"Boolean", "SByte", "Byte", "Int16", "UInt16", "Int32", "UInt32", "Int64", "UInt64", "Float", "Double", "String", "DateTime", "Guid", "ByteString", "XmlElement", "NodeId", "ExpandedNodeId", "StatusCode", "QualifiedName", "LocalizedText", "ExtensionObject", "DataValue", "Variant", "DiagnosticInfo", "Decimal", "Enum", "Structure", "OptStruct", "Union", "BitfieldCluster"};
static const char *kindOf(const UA_DataType *t) { return t->typeKind <= 30 ? KIND[t->typeKind] : "?"; }
static void jus(const UA_String *s) { if(!s->length || !s->data) fputs("\"<null>\"", H_out); else jstrn((const char *)s->data, s->length); }
static const char *cls(UA_NodeClass c) { switch(c) { case 1: return "Object"; case 2: return "Variable"; case 4: return "Method"; case 8: return "ObjectType"; case 16: return "VariableType"; case 32: return "ReferenceType"; case 64: return "DataType"; case 128: return "View"; default: return "?"; } }
#define B(x) ((x) ? "true" : "false")
/* --- values: [k,s,i,l,m]; m = [[n,h,a,v],...] */
static void jtree(const void *p, const UA_DataType *t, int depth);
static void jtrees(const void *p, size_t n, const UA_DataType *t, int depth) {
    fputc('[', H_out); if(p && (uintptr_t)p > 1) for(size_t i = 0; i < n; i++) { if(i) fputc(',', H_out); jtree((const char *)p + i * t->memSize, t, depth); } fputc(']', H_out);
}
static void jtree(const void *p, const UA_DataType *t, int depth) {
    char s[80]; s[0] = 0; const UA_String *us = NULL; const UA_NodeId *id = NULL; const UA_QualifiedName *qn = NULL; const UA_LocalizedText *lt = NULL;
    switch(t->typeKind) {
    case 0: strcpy(s, *(const unsigned char *)p == 0 ? "false" : *(const unsigned char *)p == 1 ? "true" : "odd"); break;
    case 1: sprintf(s, "%d", *(const UA_SByte *)p); break;
    case 2: sprintf(s, "%u", *(const UA_Byte *)p); break;
    case 3: sprintf(s, "%d", *(const UA_Int16 *)p); break;
    case 4: sprintf(s, "%u", *(const UA_UInt16 *)p); break;
    case 5: case 26: sprintf(s, "%d", *(const UA_Int32 *)p); break;
    case 6: case 18: sprintf(s, "%u", *(const UA_UInt32 *)p); break;
    case 7: case 12: sprintf(s, "%lld", (long long)*(const UA_Int64 *)p); break;
    case 8: sprintf(s, "%llu", (unsigned long long)*(const UA_UInt64 *)p); break;
    case 9: { UA_UInt32 u; memcpy(&u, p, 4); sprintf(s, "%08x", u); float f; memcpy(&f, p, 4); if(f != f) strcpy(s, "nan"); break; }
    case 10: { UA_UInt64 u; memcpy(&u, p, 8); sprintf(s, "%016llx", (unsigned long long)u); double f; memcpy(&f, p, 8); if(f != f) strcpy(s, "nan"); break; }
    case 11: case 15: us = (const UA_String *)p; break;
    case 14: us = (const UA_String *)p; break;
    case 13: { const UA_Guid *g = (const UA_Guid *)p; sprintf(s, "%08x-%04x-%04x-%02x%02x-%02x%02x%02x%02x%02x%02x", g->data1, g->data2, g->data3, g->data4[0], g->data4[1], g->data4[2], g->data4[3], g->data4[4], g->data4[5], g->data4[6], g->data4[7]); break; }
    case 16: id = (const UA_NodeId *)p; break;
    case 17: id = &((const UA_ExpandedNodeId *)p)->nodeId; break;
    case 19: qn = (const UA_QualifiedName *)p; break;
    case 20: lt = (const UA_LocalizedText *)p; break;
    default: break;
    }
    fprintf(H_out, "{\"k\":\"%s\",\"s\":", kindOf(t));
    if(us && t->typeKind == 14) { fputc('"', H_out); for(size_t i = 0; i < us->length; i++) fprintf(H_out, "%02x", us->data[i]); fputc('"', H_out); }
    else if(us) jus(us);
    else jstr(s);
    fprintf(H_out, ",\"i\":"); if(id) jid(id); else if(qn) { fprintf(H_out, "[%u,", qn->namespaceIndex); jus(&qn->name); fputc(']', H_out); } else fprintf(H_out, "[0,\"\"]");
    fprintf(H_out, ",\"l\":["); if(lt) { jus(&lt->locale); fputc(',', H_out); jus(&lt->text); } fprintf(H_out, "],\"m\":[");
    if((t->typeKind == 27 || t->typeKind == 28) && depth < 60) {
        const char *q = (const char *)p;
        for(size_t i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember *m = &t->members[i]; q += m->padding; if(i) fputc(',', H_out);
            fprintf(H_out, "{\"n\":"); jstr(m->memberName);
            if(m->isArray) { size_t n = *(const size_t *)q; const void *d = *(void *const *)(q + sizeof(size_t)); q += sizeof(size_t) + sizeof(void *); fprintf(H_out, ",\"a\":true,\"h\":%s,\"v\":", B(d != NULL)); jtrees(d, n, m->memberType, depth + 1); }
            else if(m->isOptional) { const void *d = *(void *const *)q; q += sizeof(void *); fprintf(H_out, ",\"a\":false,\"h\":%s,\"v\":", B(d)); jtrees(d, 1, m->memberType, depth + 1); }
            else { fprintf(H_out, ",\"a\":false,\"h\":true,\"v\":"); jtrees(q, 1, m->memberType, depth + 1); q += m->memberType->memSize; }
            fputc('}', H_out);
        }
    } else if(t->typeKind == 29 && depth < 60) {
        UA_UInt32 sel = *(const UA_UInt32 *)p;
        if(sel > 0 && sel <= t->membersSize) {
            const UA_DataTypeMember *m = &t->members[sel - 1]; const char *q = (const char *)p + m->padding;
            fprintf(H_out, "{\"n\":"); jstr(m->memberName); fprintf(H_out, ",\"a\":%s,\"h\":true,\"v\":", B(m->isArray));
            if(m->isArray) jtrees(*(void *const *)(q + sizeof(size_t)), *(const size_t *)q, m->memberType, depth + 1); else jtrees(q, 1, m->memberType, depth + 1);
            fputc('}', H_out);
        } else if(sel) fprintf(H_out, "{\"n\":\"bad selector\",\"a\":false,\"h\":false,\"v\":[]}");
    }
    fprintf(H_out, "]}");
}
static void jvariant(const UA_Variant *v) {
    if(!v->type) { fprintf(H_out, "{\"has\":false,\"arr\":false,\"t\":[0,\"i=0\"],\"v\":[]}"); return; }
    bool sc = UA_Variant_isScalar(v);
    fprintf(H_out, "{\"has\":true,\"arr\":%s,\"t\":", B(!sc)); jid(&v->type->typeId); fprintf(H_out, ",\"v\":"); jtrees(v->data, sc ? 1 : v->arrayLength, v->type, 0); fputc('}', H_out);
}
/* --- data types */
static int alignOf(const UA_DataType *t) {
    switch(t->typeKind) {
#define A(n, T) case n: return (int)_Alignof(T);
    A(0, UA_Boolean) A(1, UA_SByte) A(2, UA_Byte) A(3, UA_Int16) A(4, UA_UInt16) A(5, UA_Int32) A(6, UA_UInt32) A(7, UA_Int64) A(8, UA_UInt64) A(9, UA_Float) A(10, UA_Double) A(11, UA_String) A(12, UA_DateTime) A(13, UA_Guid) A(14, UA_ByteString) A(15, UA_XmlElement) A(16, UA_NodeId) A(17, UA_ExpandedNodeId) A(18, UA_StatusCode) A(19, UA_QualifiedName) A(20, UA_LocalizedText) A(21, UA_ExtensionObject) A(22, UA_DataValue) A(23, UA_Variant) A(24, UA_DiagnosticInfo) A(26, UA_Int32)
    default: { int a = 1; for(size_t i = 0; i < t->membersSize; i++) { int b = t->members[i].isArray ? (int)_Alignof(void *) : alignOf(t->members[i].memberType); if(b > a) a = b; } return a; }
    }
}
static void jtype(const char *ev, const UA_DataType *t, bool al) {
    fprintf(H_out, "{\"ev\":\"%s\",\"id\":", ev); jid(&t->typeId); fprintf(H_out, ",\"name\":"); jstr(t->typeName); fprintf(H_out, ",\"enc\":"); jid(&t->binaryEncodingId);
    fprintf(H_out, ",\"kind\":\"%s\",\"size\":%u,\"pf\":%s,\"al\":%d,\"m\":[", kindOf(t), t->memSize, B(t->pointerFree), al ? alignOf(t) : 0);
    for(size_t i = 0; i < t->membersSize; i++) {
        const UA_DataTypeMember *m = &t->members[i]; UA_NodeId nul = UA_NODEID_NULL; if(i) fputc(',', H_out);
        fprintf(H_out, "{\"n\":"); jstr(m->memberName); fprintf(H_out, ",\"t\":"); jid(m->memberType ? &m->memberType->typeId : &nul); fprintf(H_out, ",\"p\":%u,\"a\":%s,\"o\":%s}", m->padding, B(m->isArray), B(m->isOptional));
    }
    fprintf(H_out, "]}\n");
}
/* --- nodes */
static void jqn(const UA_QualifiedName *q) { fprintf(H_out, "[%u,", q->namespaceIndex); jus(&q->name); fputc(']', H_out); }
static void jlt(const char *k, const UA_LocalizedText *l) { fprintf(H_out, ",\"%s\":[", k); jus(&l->locale); fputc(',', H_out); jus(&l->text); fputc(']', H_out); }
static void jdims(size_t n, const UA_UInt32 *d) { fprintf(H_out, ",\"dims\":["); for(size_t i = 0; i < n; i++) fprintf(H_out, i ? ",\"%u\"" : "\"%u\"", d[i]); fputc(']', H_out); }
static void jdouble(const char *k, double d) { UA_UInt64 u; memcpy(&u, &d, 8); if(d != d) fprintf(H_out, ",\"%s\":\"nan\"", k); else fprintf(H_out, ",\"%s\":\"%016llx\"", k, (unsigned long long)u); }
static void jnodeRefs(MNode *n, unsigned skip) {
    fprintf(H_out, ",\"refs\":["); unsigned k = 0; bool any = false;
    for(MRef *r = n->refs; r; r = r->next, k++) if(k >= skip) { if(any) fputc(',', H_out); any = true; fprintf(H_out, "{\"f\":%s,\"t\":", B(r->fwd)); jid(&r->type); fprintf(H_out, ",\"g\":"); jid(&r->target); fputc('}', H_out); }
    fputc(']', H_out);
}
static void jnode(MNode *n) {
    UA_NodeAttributes *a = (UA_NodeAttributes *)n->attr;
    fprintf(H_out, "{\"ev\":\"snode\",\"cls\":\"%s\",\"id\":", cls(n->cls)); jid(&n->id); fprintf(H_out, ",\"bn\":"); jqn(&n->bn); jlt("dn", &a->displayName); jlt("ds", &a->description);
    fprintf(H_out, ",\"par\":"); jid(&n->parent); fprintf(H_out, ",\"parref\":"); jid(&n->parentRef); fprintf(H_out, ",\"td\":"); jid(&n->typeDef);
    fprintf(H_out, ",\"ctx\":%d,\"fin\":%s", n->ctx ? *(int *)n->ctx : 0, B(n->finished));
    UA_LocalizedText inv; memset(&inv, 0, sizeof inv); UA_NodeId dt = UA_NODEID_NULL; size_t dn = 0; UA_UInt32 *d = NULL; UA_Variant v; memset(&v, 0, sizeof v);
    fprintf(H_out, ",\"at\":{\"_\":\"\"");
    switch(n->cls) {
    case UA_NODECLASS_OBJECT: fprintf(H_out, ",\"EventNotifier\":\"%u\"", ((UA_ObjectAttributes *)a)->eventNotifier); break;
    case UA_NODECLASS_OBJECTTYPE: fprintf(H_out, ",\"IsAbstract\":\"%s\"", B(((UA_ObjectTypeAttributes *)a)->isAbstract)); break;
    case UA_NODECLASS_DATATYPE: fprintf(H_out, ",\"IsAbstract\":\"%s\"", B(((UA_DataTypeAttributes *)a)->isAbstract)); break;
    case UA_NODECLASS_METHOD: fprintf(H_out, ",\"Executable\":\"%s\",\"UserExecutable\":\"%s\"", B(((UA_MethodAttributes *)a)->executable), B(((UA_MethodAttributes *)a)->userExecutable)); break;
    case UA_NODECLASS_VIEW: fprintf(H_out, ",\"ContainsNoLoops\":\"%s\",\"EventNotifier\":\"%u\"", B(((UA_ViewAttributes *)a)->containsNoLoops), ((UA_ViewAttributes *)a)->eventNotifier); break;
    case UA_NODECLASS_REFERENCETYPE: fprintf(H_out, ",\"IsAbstract\":\"%s\",\"Symmetric\":\"%s\"", B(((UA_ReferenceTypeAttributes *)a)->isAbstract), B(((UA_ReferenceTypeAttributes *)a)->symmetric)); inv = ((UA_ReferenceTypeAttributes *)a)->inverseName; break;
    case UA_NODECLASS_VARIABLE: { UA_VariableAttributes *x = (UA_VariableAttributes *)a; fprintf(H_out, ",\"ValueRank\":\"%d\",\"AccessLevel\":\"%u\",\"UserAccessLevel\":\"%u\",\"Historizing\":\"%s\"", x->valueRank, x->accessLevel, x->userAccessLevel, B(x->historizing)); jdouble("MinimumSamplingInterval", x->minimumSamplingInterval); dt = x->dataType; dn = x->arrayDimensionsSize; d = x->arrayDimensions; v = x->value; break; }
    case UA_NODECLASS_VARIABLETYPE: { UA_VariableTypeAttributes *x = (UA_VariableTypeAttributes *)a; fprintf(H_out, ",\"ValueRank\":\"%d\",\"IsAbstract\":\"%s\"", x->valueRank, B(x->isAbstract)); dt = x->dataType; dn = x->arrayDimensionsSize; d = x->arrayDimensions; v = x->value; break; }
    default: break;
    }
    fprintf(H_out, "}"); jlt("inv", &inv); fprintf(H_out, ",\"dt\":"); jid(&dt); jdims(dn, d); fprintf(H_out, ",\"val\":"); jvariant(&v); jnodeRefs(n, 0); fprintf(H_out, "}\n");
}
static char *baseText(UA_Server *s) {      /* everything the host's own nodes say, but for references added later */
    FILE *keep = H_out; char *b = NULL; size_t n = 0; H_out = open_memstream(&b, &n);
    for(MNode *m = mock_first(s); m; m = m->next) if(m->ns0) { MRef *r = m->refs; unsigned k = 0; for(; r && k < m->bootRefs; r = r->next, k++); MRef *rest = r; (void)rest; unsigned nb = m->bootRefs; jid(&m->id); jqn(&m->bn); jlt("dn", &((UA_NodeAttributes *)m->attr)->displayName); jlt("ds", &((UA_NodeAttributes *)m->attr)->description); k = 0; for(r = m->refs; r && k < nb; r = r->next, k++) { jid(&r->type); jid(&r->target); } fputc('\n', H_out); }
    fclose(H_out); H_out = keep; return b;
}
static void sdump(Srv *s) {
    fprintf(H_out, "{\"ev\":\"ns\",\"uris\":["); for(size_t i = 0; i < mock_nsCount(s->s); i++) { if(i) fputc(',', H_out); jstr(mock_nsUri(s->s, i)); } fprintf(H_out, "]}\n");
    for(MNode *n = mock_first(s->s); n; n = n->next) if(!n->ns0) jnode(n);
    for(MNode *n = mock_first(s->s); n; n = n->next) if(n->ns0) { unsigned k = 0; for(MRef *r = n->refs; r; r = r->next) k++; if(k > n->bootRefs) { fprintf(H_out, "{\"ev\":\"bnode\",\"id\":"); jid(&n->id); jnodeRefs(n, n->bootRefs); fprintf(H_out, "}\n"); } }
    const UA_ServerConfig *c = UA_Server_getConfig(s->s);
    const UA_DataTypeArray *chain[4096]; int k = 0; for(const UA_DataTypeArray *a = c->customDataTypes; a && k < 4096; a = a->next) chain[k++] = a;
    while(k--) for(size_t i = 0; i < chain[k]->typesSize; i++) jtype("stype", &chain[k]->types[i], false);
    char *b = baseText(s->s); fprintf(H_out, "{\"ev\":\"sdump\",\"S\":"); jstr(s->nm); fprintf(H_out, ",\"base\":%s}\n", B(!strcmp(b, s->base))); free(b);
}
static void cmd(int c, char **v) {
    if(fd0 < 0) { fd0 = H_openFds(); xml0 = H_liveXml(); }
    const char *o = v[0];
    if(!strcmp(o, "sbase")) {               /* what the host and its type table look like */
        UA_Server *s = UA_Server_new();
        for(size_t i = 0; i < UA_TYPES_COUNT; i++) jtype("btype", &UA_TYPES[i], true);
        for(MNode *n = mock_first(s); n; n = n->next) {
            bool ab = n->cls == UA_NODECLASS_REFERENCETYPE ? ((UA_ReferenceTypeAttributes *)n->attr)->isAbstract : n->cls == UA_NODECLASS_DATATYPE ? ((UA_DataTypeAttributes *)n->attr)->isAbstract : false;
            fprintf(H_out, "{\"ev\":\"base\",\"cls\":\"%s\",\"id\":", cls(n->cls)); jid(&n->id); fprintf(H_out, ",\"abs\":%s", B(ab)); jnodeRefs(n, 0); fprintf(H_out, "}\n");
        }
        fprintf(H_out, "{\"ev\":\"ns\",\"uris\":["); for(size_t i = 0; i < mock_nsCount(s); i++) { if(i) fputc(',', H_out); jstr(mock_nsUri(s, i)); } fprintf(H_out, "]}\n");
        UA_Server_delete(s); return;
    }
    if(!strcmp(o, "ledger")) { xmlCleanupParser(); fprintf(H_out, "{\"ev\":\"ledger\",\"live\":%zu,\"bytes\":%zu,\"xml\":%ld,\"fds\":%d}\n", H_liveBlocks(), H_liveBytes(), H_liveXml() - xml0, H_openFds() - fd0); return; }
    if(c < 2) exit(3);
    Srv *s = srvOf(v[1]);
    if(!strcmp(o, "snew")) {
        s->s = UA_Server_new(); s->log.log = logFn; s->log.context = s->nm; UA_Server_getConfig(s->s)->logging = &s->log;
        s->base = baseText(s->s);
        for(int i = 2; i < c; i++) UA_Server_addNamespace(s->s, v[i]);
        fprintf(H_out, "{\"ev\":\"snew\",\"S\":"); jstr(s->nm); fprintf(H_out, "}\n");
    } else if(!strcmp(o, "nsadd")) { UA_Server_addNamespace(s->s, v[2]); fprintf(H_out, "{\"ev\":\"nsadd\"}\n"); }
    else if(!strcmp(o, "load")) {           /* load S path mode(plain|ext|nopath|noserver) */
        s->ext.newExtension = xNew; s->ext.start = xStart; s->ext.end = xEnd; s->ext.finish = xFin; bool r;
        fprintf(H_out, "{\"ev\":\"call\",\"op\":\"load\"}\n"); fflush(H_out);
        REAL(r = NodesetLoader_loadFile(!strcmp(v[3], "noserver") ? NULL : s->s, !strcmp(v[3], "nopath") ? NULL : v[2], !strcmp(v[3], "ext") ? &s->ext : NULL));
        fprintf(H_out, "{\"ev\":\"load\",\"S\":"); jstr(s->nm); fprintf(H_out, ",\"ret\":%s}\n", B(r));
    } else if(!strcmp(o, "sdump")) sdump(s);
    else if(!strcmp(o, "sdel")) {
        const UA_DataTypeArray *t = UA_Server_getConfig(s->s)->customDataTypes;
        UA_Server_delete(s->s); REAL(NodesetLoader_cleanupCustomDataTypes(t)); s->s = NULL; free(s->base);
        fprintf(H_out, "{\"ev\":\"sdel\",\"S\":"); jstr(s->nm); fprintf(H_out, "}\n");
    } else { fprintf(stderr, "bad command %s\n", o); exit(3); }
}
int main(int argc, char **argv) { return H_main(argc, argv, cmd); }
