/* Drives the public interface of the loader library and the string arena. */
#include "hcommon.h"
#include "CharAllocator.h"
#include <NodesetLoader/NodesetLoader.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <libxml/parser.h>
#define MAXL 16
typedef struct { NodesetLoader *l; NodesetLoader_Logger log; NL_ReferenceService svc; bool custSvc; UA_NodeId *hier; size_t hierN; UA_NodeId *non; size_t nonN; NodesetLoader_ExtensionInterface ext; char *nm; } Slot;
static __thread Slot slots[MAXL];
static Slot *slotOf(const char *nm) {
    for(int i = 0; i < MAXL; i++) if(slots[i].nm && !strcmp(slots[i].nm, nm)) return &slots[i];
    for(int i = 0; i < MAXL; i++) if(!slots[i].nm) { slots[i].nm = hx_strdup(nm); return &slots[i]; }
    exit(3);
}
/* --- nested use: commands that run inside of a callback of another call */
typedef struct { int n; char *v[64]; } Line;
static Line *nestQ; static size_t nestN; static int nestAt = -1;
static void cmd(int c, char **v);
static __thread size_t seen;
static void nestRun(void) { size_t keep = seen; nestAt = -1; fprintf(H_out, "{\"ev\":\"nest\"}\n"); for(size_t i = 0; i < nestN; i++) { cmd(nestQ[i].n, nestQ[i].v); fflush(H_out); } nestN = 0; fprintf(H_out, "{\"ev\":\"unnest\"}\n"); seen = keep; }
#define NEST do { if(nestAt > 0 && --nestAt == 0) { H_track = false; nestRun(); } } while(0)
/* --- namespace service: one table shared by all loaders of a thread */
static __thread char *nsUri[4096]; static __thread unsigned nsN; static unsigned nsBase = 2;
static char *preUri[64]; static unsigned preIdx[64], preN;      /* indices the host has given before */
static unsigned short addNs(void *ctx, const char *uri) {
    bool t = H_track; H_track = false; unsigned i;
    if(!uri) uri = "";
    unsigned ret;
    for(i = 0; i < preN && strcmp(preUri[i], uri); i++);
    if(i < preN) ret = preIdx[i];
    else {
        for(i = 0; i < nsN && strcmp(nsUri[i], uri); i++);
        if(i == nsN) nsUri[nsN++] = hx_strdup(uri);
        ret = i + nsBase;
    }
    fprintf(H_out, "{\"ev\":\"addns\",\"L\":"); jstr((const char *)ctx); fprintf(H_out, ",\"uri\":"); jstr(uri); fprintf(H_out, ",\"ret\":%u}\n", ret);
    NEST; H_track = t; return (unsigned short)ret;
}
/* --- logger that records severities only */
static void logFn(void *ctx, enum NodesetLoader_LogLevel lv, const char *msg, ...) {
    bool t = H_track; H_track = false; va_list a; va_start(a, msg); char b[2048]; vsnprintf(b, sizeof b, msg, a); va_end(a);
    fprintf(H_out, "{\"ev\":\"log\",\"L\":"); jstr((const char *)ctx); fprintf(H_out, ",\"lv\":%d}\n", (int)lv); NEST; H_track = t;
}
/* --- extension callbacks */
static __thread int extN;
static void *xNew(void) { bool t = H_track; H_track = false; int *d = (int *)hx_malloc(sizeof(int)); *d = ++extN; fprintf(H_out, "{\"ev\":\"xnew\",\"d\":%d}\n", *d); NEST; H_track = t; return d; }
static void xStart(void *d, const char *name, int n, const char **a) {
    bool t = H_track; H_track = false; fprintf(H_out, "{\"ev\":\"xstart\",\"d\":%d,\"n\":", d ? *(int *)d : 0); jstr(name); fprintf(H_out, ",\"a\":[");
    for(int i = 0; i < n; i++) { fprintf(H_out, i ? ",[" : "["); jstr(a[i * 5]); fputc(',', H_out); jstrn(a[i * 5 + 3], (size_t)(a[i * 5 + 4] - a[i * 5 + 3])); fputc(']', H_out); }
    fprintf(H_out, "]}\n"); H_track = t;
}
static void xEnd(void *d, const char *name, const char *v) { bool t = H_track; H_track = false; fprintf(H_out, "{\"ev\":\"xend\",\"d\":%d,\"n\":", d ? *(int *)d : 0); jstr(name); fprintf(H_out, ",\"v\":"); jstr(v); fprintf(H_out, "}\n"); NEST; H_track = t; }
static void xFin(void *d) { bool t = H_track; H_track = false; fprintf(H_out, "{\"ev\":\"xfin\",\"d\":%d}\n", d ? *(int *)d : 0); H_track = t; }
/* --- a reference service supplied by the user: namespace 0 plus what it is told */
static bool has(UA_NodeId *a, size_t n, const UA_NodeId *id) { for(size_t i = 0; i < n; i++) if(UA_NodeId_equal(&a[i], id)) return true; return false; }
static void add(UA_NodeId **a, size_t *n, const UA_NodeId *id) { *a = (UA_NodeId *)hx_realloc(*a, (*n + 1) * sizeof(UA_NodeId)); UA_NodeId_copy(id, &(*a)[(*n)++]); }
static bool sHier(void *c, const NL_Reference *r) { Slot *s = (Slot *)c; bool t = H_track; H_track = false; bool b = has(s->hier, s->hierN, &r->refType); H_track = t; return b; }
static bool sNon(void *c, const NL_Reference *r) { Slot *s = (Slot *)c; bool t = H_track; H_track = false; bool b = (r->refType.namespaceIndex == 0 && !has(s->hier, s->hierN, &r->refType)) || has(s->non, s->nonN, &r->refType); H_track = t; return b; }
static bool sTd(void *c, const NL_Reference *r) { (void)c; UA_NodeId x = UA_NODEID_NUMERIC(0, 40); return UA_NodeId_equal(&r->refType, &x); }
static void sAdd(void *c, const NL_ReferenceTypeNode *n) {
    Slot *s = (Slot *)c; bool t = H_track; H_track = false; bool h = false;
    for(NL_Reference *r = n->hierachicalRefs; r; r = r->next) if(!r->isForward && has(s->hier, s->hierN, &r->target)) h = true;
    if(h) add(&s->hier, &s->hierN, &n->id); else add(&s->non, &s->nonN, &n->id);
    fprintf(H_out, "{\"ev\":\"newrt\",\"L\":"); jstr(s->nm); fprintf(H_out, ",\"id\":"); jid(&n->id); fprintf(H_out, ",\"hier\":%s}\n", h ? "true" : "false"); NEST; H_track = t;
}
/* --- dump */
static void jref(const NL_Reference *r) { fprintf(H_out, "{\"f\":%s,\"t\":", r->isForward ? "true" : "false"); jid(&r->refType); fprintf(H_out, ",\"g\":"); jid(&r->target); fputc('}', H_out); }
static void jrefs(const char *k, const NL_Reference *r) { fprintf(H_out, ",\"%s\":[", k); for(int i = 0; r && i < 100000; r = r->next, i++) { if(i) fputc(',', H_out); jref(r); } fputc(']', H_out); }
static void jkv(const char *k, const char *v) { fprintf(H_out, ",\"%s\":", k); jstr(v); }
static void jdata(const NL_Data *d, int depth) {
    if(!d) { fprintf(H_out, "{\"k\":\"none\",\"n\":\"\",\"v\":\"\",\"m\":[]}"); return; }
    fprintf(H_out, "{\"k\":\"%s\",\"n\":", d->type == DATATYPE_COMPLEX ? "c" : "p"); jstr(d->name); fprintf(H_out, ",\"v\":"); jstr(d->type == DATATYPE_COMPLEX ? "" : d->val.primitiveData.value); fprintf(H_out, ",\"m\":[");
    if(d->type == DATATYPE_COMPLEX && depth < 300) for(size_t i = 0; i < d->val.complexData.membersSize; i++) { if(i) fputc(',', H_out); jdata(d->val.complexData.members[i], depth + 1); }
    fprintf(H_out, "]}");
}
static void jval(const NL_Value *v) {
    if(!v) { fprintf(H_out, ",\"val\":{\"has\":false,\"arr\":false,\"eo\":false,\"type\":\"\",\"data\":"); jdata(NULL, 0); fprintf(H_out, "}"); return; }
    fprintf(H_out, ",\"val\":{\"has\":true,\"arr\":%s,\"eo\":%s,\"type\":", v->isArray ? "true" : "false", v->isExtensionObject ? "true" : "false"); jstr(v->type); fprintf(H_out, ",\"data\":"); jdata(v->data, 0); fputc('}', H_out);
}
static __thread size_t seen;
static bool dumpBrief;
static void dumpNode(void *ctx, NL_Node *n) {
    const char *L = ((const char **)ctx)[0], *cls = ((const char **)ctx)[1]; H_track = false; seen++;
    fprintf(H_out, "{\"ev\":\"node\",\"L\":"); jstr(L); fprintf(H_out, ",\"cls\":"); jstr(cls); fprintf(H_out, ",\"ncls\":"); jstr((unsigned)n->nodeClass < NL_NODECLASS_COUNT ? NL_NODECLASS_NAME[n->nodeClass] : "?");
    fprintf(H_out, ",\"inst\":%s,\"id\":", NodesetLoader_isInstanceNode(n) ? "true" : "false"); jid(&n->id);
    if(dumpBrief) { jrefs("h", n->hierachicalRefs); jrefs("nh", n->nonHierachicalRefs); fprintf(H_out, "}\n"); H_track = true; return; }
    fprintf(H_out, ",\"bn\":[%u,", n->browseName.nsIdx); jstr(n->browseName.name); fprintf(H_out, "]");
    fprintf(H_out, ",\"dn\":["); jstr(n->displayName.locale); fputc(',', H_out); jstr(n->displayName.text); fprintf(H_out, "],\"ds\":["); jstr(n->description.locale); fputc(',', H_out); jstr(n->description.text); fprintf(H_out, "]");
    jrefs("h", n->hierachicalRefs); jrefs("nh", n->nonHierachicalRefs); jrefs("unk", n->unknownRefs);
    fprintf(H_out, ",\"ext\":%d", n->extension ? *(int *)n->extension : 0);
    fprintf(H_out, ",\"at\":{\"_\":\"\"");
    const NL_Reference *td = NULL; const UA_NodeId *par = NULL, *dt = NULL; const NL_LocalizedText *inv = NULL; const NL_Value *val = NULL; const NL_DataTypeDefinition *def = NULL;
    switch(n->nodeClass) {
    case NODECLASS_OBJECT: { NL_ObjectNode *x = (NL_ObjectNode *)n; jkv("EventNotifier", x->eventNotifier); td = x->refToTypeDef; par = &x->parentNodeId; break; }
    case NODECLASS_OBJECTTYPE: jkv("IsAbstract", ((NL_ObjectTypeNode *)n)->isAbstract); break;
    case NODECLASS_VARIABLE: { NL_VariableNode *x = (NL_VariableNode *)n; jkv("ArrayDimensions", x->arrayDimensions); jkv("ValueRank", x->valueRank); jkv("AccessLevel", x->accessLevel); jkv("UserAccessLevel", x->userAccessLevel); jkv("Historizing", x->historizing); jkv("MinimumSamplingInterval", x->minimumSamplingInterval); td = x->refToTypeDef; par = &x->parentNodeId; dt = &x->datatype; val = x->value; break; }
    case NODECLASS_DATATYPE: jkv("IsAbstract", ((NL_DataTypeNode *)n)->isAbstract); def = ((NL_DataTypeNode *)n)->definition; break;
    case NODECLASS_METHOD: { NL_MethodNode *x = (NL_MethodNode *)n; jkv("Executable", x->executable); jkv("UserExecutable", x->userExecutable); par = &x->parentNodeId; break; }
    case NODECLASS_REFERENCETYPE: jkv("IsAbstract", ((NL_ReferenceTypeNode *)n)->isAbstract); jkv("Symmetric", ((NL_ReferenceTypeNode *)n)->symmetric); inv = &((NL_ReferenceTypeNode *)n)->inverseName; break;
    case NODECLASS_VARIABLETYPE: { NL_VariableTypeNode *x = (NL_VariableTypeNode *)n; jkv("IsAbstract", x->isAbstract); jkv("ArrayDimensions", x->arrayDimensions); jkv("ValueRank", x->valueRank); dt = &x->datatype; break; }
    case NODECLASS_VIEW: { NL_ViewNode *x = (NL_ViewNode *)n; jkv("ContainsNoLoops", x->containsNoLoops); jkv("EventNotifier", x->eventNotifier); par = &x->parentNodeId; break; }
    }
    fprintf(H_out, "},\"td\":["); if(td) jref(td); fprintf(H_out, "]");
    UA_NodeId nul = UA_NODEID_NULL; fprintf(H_out, ",\"par\":"); jid(par ? par : &nul); fprintf(H_out, ",\"dt\":"); jid(dt ? dt : &nul);
    fprintf(H_out, ",\"inv\":["); jstr(inv ? inv->locale : NULL); fputc(',', H_out); jstr(inv ? inv->text : NULL); fprintf(H_out, "]");
    jval(val);
    fprintf(H_out, ",\"def\":{\"has\":%s,\"enum\":%s,\"union\":%s,\"optset\":%s,\"f\":[", def ? "true" : "false", def && def->isEnum ? "true" : "false", def && def->isUnion ? "true" : "false", def && def->isOptionSet ? "true" : "false");
    for(size_t i = 0; def && i < def->fieldCnt; i++) {
        NL_DataTypeDefinitionField *f = &def->fields[i]; if(i) fputc(',', H_out);
        fprintf(H_out, "{\"n\":"); jstr(f->name); fprintf(H_out, ",\"dt\":"); jid(&f->dataType); fprintf(H_out, ",\"vr\":%d,\"v\":%d,\"opt\":%s}", f->valueRank, f->value, f->isOptional ? "true" : "false");
    }
    fprintf(H_out, "]}}\n"); NEST; H_track = true;
}
/* --- arena */
static CharArenaAllocator *arena; typedef struct { char *p; size_t n; unsigned char pat; } Chunk; static Chunk ch[100000]; static size_t chN;
static bool intact(size_t upto) { for(size_t i = 0; i < upto; i++) for(size_t k = 0; k < ch[i].n; k++) if((unsigned char)ch[i].p[k] != ch[i].pat) return false; return true; }
bool H_blockOf(void *p, size_t *idx, size_t *off, size_t *size);
static void arenaOp(bool re, size_t n) {
    char *p; size_t old = 0; bool kept = true, zero = true;
    if(re && chN) old = ch[chN - 1].n;
    REAL(p = re ? CharArenaAllocator_realloc(arena, n) : CharArenaAllocator_malloc(arena, n));
    size_t bi = 0, bo = 0, bs = 0; bool in = p && H_blockOf(p, &bi, &bo, &bs);
    fprintf(H_out, "{\"ev\":\"%s\",\"n\":%zu,\"nil\":%s,\"known\":%s,\"blk\":%zu,\"off\":%zu,\"bsz\":%zu", re ? "realloc" : "malloc", n, p ? "false" : "true", in ? "true" : "false", bi, bo, bs); fflush(H_out);
    if(re) { if(!chN) chN = 1; for(size_t k = 0; k < old; k++) if((unsigned char)p[k] != ch[chN - 1].pat) kept = false; }
    for(size_t k = old; p && k < old + n; k++) if(p[k]) zero = false;
    bool it = intact(re ? chN - 1 : chN);
    unsigned char pat = (unsigned char)(1 + chN % 250);
    if(!re) { if(chN < 100000) chN++; }
    ch[chN - 1].p = p; ch[chN - 1].n = old + n; ch[chN - 1].pat = pat; if(p) memset(p, pat, old + n);
    fprintf(H_out, ",\"zero\":%s,\"kept\":%s,\"intact\":%s,\"after\":%s}\n", zero ? "true" : "false", kept ? "true" : "false", it ? "true" : "false", intact(chN) ? "true" : "false");
}
static void retEv(const char *op, const char *L, bool r) { fprintf(H_out, "{\"ev\":\"%s\",\"L\":", op); jstr(L); fprintf(H_out, ",\"ret\":%s}\n", r ? "true" : "false"); }
static int fd0 = -1; static long xml0;
#include <pthread.h>
typedef struct { Line *q; size_t n; char *buf; size_t len; pthread_t id; } Th;
static Th ths[8];
static void push(Line **q, size_t *n, int c, char **v) { *q = (Line *)hx_realloc(*q, (*n + 1) * sizeof(Line)); (*q)[*n].n = c; memcpy((*q)[*n].v, v, (size_t)c * sizeof(char *)); (*n)++; }
static void *thMain(void *p) { Th *t = (Th *)p; H_out = open_memstream(&t->buf, &t->len); for(size_t i = 0; i < t->n; i++) cmd(t->q[i].n, t->q[i].v); fclose(H_out); return NULL; }
static void cmd(int c, char **v) {
    if(!strcmp(v[0], "n")) { push(&nestQ, &nestN, c - 1, v + 1); return; }
    if(!strcmp(v[0], "nest")) { nestAt = atoi(v[1]); return; }
    if(!strcmp(v[0], "nestend")) { if(nestN) nestRun(); return; }
    if(!strcmp(v[0], "t")) { Th *t = &ths[atoi(v[1]) & 7]; push(&t->q, &t->n, c - 2, v + 2); return; }
    if(!strcmp(v[0], "join")) {
        for(int i = 0; i < 8; i++) if(ths[i].n) pthread_create(&ths[i].id, NULL, thMain, &ths[i]);
        for(int i = 0; i < 8; i++) if(ths[i].n) { pthread_join(ths[i].id, NULL); fprintf(H_out, "{\"ev\":\"nest\"}\n"); fwrite(ths[i].buf, 1, ths[i].len, H_out); fprintf(H_out, "{\"ev\":\"unnest\"}\n"); ths[i].n = 0; }
        return;
    }
    if(fd0 < 0) { fd0 = H_openFds(); xml0 = H_liveXml(); }
    const char *o = v[0];
    if(!strcmp(o, "nsbase")) { nsBase = (unsigned)atoi(v[1]); return; }
    if(!strcmp(o, "nsset")) { preIdx[preN] = (unsigned)atoi(v[1]); preUri[preN++] = hx_strdup(v[2]); return; }
    if(!strcmp(o, "anew")) { REAL(arena = CharArenaAllocator_new((size_t)atol(v[1]))); chN = 0; fprintf(H_out, "{\"ev\":\"anew\",\"n\":%ld}\n", atol(v[1])); return; }
    if(!strcmp(o, "am")) { arenaOp(false, (size_t)atol(v[1])); return; }
    if(!strcmp(o, "ar")) { arenaOp(true, (size_t)atol(v[1])); return; }
    if(!strcmp(o, "adel")) { REAL(CharArenaAllocator_delete(arena)); arena = NULL; fprintf(H_out, "{\"ev\":\"adel\",\"live\":%zu}\n", H_liveBlocks()); return; }
    if(!strcmp(o, "brief")) { dumpBrief = atoi(v[1]); return; }
    if(!strcmp(o, "ledger")) { xmlCleanupParser(); fprintf(H_out, "{\"ev\":\"ledger\",\"live\":%zu,\"bytes\":%zu,\"xml\":%ld,\"fds\":%d}\n", H_liveBlocks(), H_liveBytes(), H_liveXml() - xml0, H_openFds() - fd0); return; }
    if(c < 2) exit(3);
    Slot *s = slotOf(v[1]);
    if(!strcmp(o, "new")) {                  /* new L svc(int|cust) log(int|cap) */
        NL_ReferenceService *svc = NULL; NodesetLoader_Logger *lg = NULL;
        if(!strcmp(v[2], "cust")) {
            s->custSvc = true; s->svc.context = s; s->svc.isHierachicalRef = sHier; s->svc.isNonHierachicalRef = sNon; s->svc.isHasTypeDefRef = sTd; s->svc.addNewReferenceType = sAdd; svc = &s->svc;
            UA_UInt32 base[] = {33, 34, 35, 36, 44, 45, 46, 47, 48, 49}; s->hierN = s->nonN = 0; for(size_t i = 0; i < 10; i++) { UA_NodeId x = UA_NODEID_NUMERIC(0, base[i]); add(&s->hier, &s->hierN, &x); }
        }
        if(!strcmp(v[3], "cap")) { s->log.context = s->nm; s->log.log = logFn; lg = &s->log; }
        REAL(s->l = NodesetLoader_new(lg, svc)); retEv("new", v[1], s->l != NULL);
    } else if(!strcmp(o, "import")) {        /* import L path mode(plain|ext|nofc|nocb) */
        NL_FileContext fc; memset(&fc, 0, sizeof fc); fc.userContext = s->nm; fc.file = v[2]; fc.addNamespace = addNs;
        s->ext.newExtension = xNew; s->ext.start = xStart; s->ext.end = xEnd; s->ext.finish = xFin;
        if(!strcmp(v[3], "ext")) fc.extensionHandling = &s->ext;
        if(!strcmp(v[3], "nocb")) fc.addNamespace = NULL;
        fprintf(H_out, "{\"ev\":\"call\",\"op\":\"import\",\"L\":"); jstr(v[1]); fprintf(H_out, "}\n"); fflush(H_out);
        bool r; REAL(r = NodesetLoader_importFile(s->l, !strcmp(v[3], "nofc") ? NULL : &fc)); retEv("import", v[1], r);
    } else if(!strcmp(o, "sort")) { bool r; fprintf(H_out, "{\"ev\":\"call\",\"op\":\"sort\",\"L\":"); jstr(v[1]); fprintf(H_out, "}\n"); fflush(H_out); REAL(r = NodesetLoader_sort(s->l)); retEv("sort", v[1], r); }
    else if(!strcmp(o, "dump")) {
        for(int i = 0; i < NL_NODECLASS_COUNT; i++) { const char *ctx[2] = {v[1], NL_NODECLASS_NAME[i]}; size_t n; seen = 0; REAL(n = NodesetLoader_forEachNode(s->l, (NL_NodeClass)i, ctx, dumpNode)); fprintf(H_out, "{\"ev\":\"count\",\"L\":"); jstr(v[1]); fprintf(H_out, ",\"cls\":"); jstr(NL_NODECLASS_NAME[i]); fprintf(H_out, ",\"ret\":%zu,\"seen\":%zu}\n", n, seen); }
        const NL_BiDirectionalReference *b; REAL(b = NodesetLoader_getBidirectionalRefs(s->l));
        fprintf(H_out, "{\"ev\":\"bidir\",\"L\":"); jstr(v[1]); fprintf(H_out, ",\"refs\":["); for(int i = 0; b; b = b->next, i++) { fprintf(H_out, i ? ",{\"s\":" : "{\"s\":"); jid(&b->source); fprintf(H_out, ",\"t\":"); jid(&b->refType); fprintf(H_out, ",\"g\":"); jid(&b->target); fprintf(H_out, "}"); } fprintf(H_out, "]}\n");
    } else if(!strcmp(o, "del")) { REAL(NodesetLoader_delete(s->l)); s->l = NULL; fprintf(H_out, "{\"ev\":\"del\",\"L\":"); jstr(v[1]); fprintf(H_out, "}\n"); }
    else { fprintf(stderr, "bad command %s\n", o); exit(3); }
}
int main(int argc, char **argv) { return H_main(argc, argv, cmd); }
