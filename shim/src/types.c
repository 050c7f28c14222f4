/* Type handling of the open62541 stand-in: generic init/copy/clear/order over
 * UA_DataType descriptions, NodeId/Guid parsing and printing, DateTime. */
#include <open62541/types.h>
#include <ctype.h>
#include <time.h>
const UA_String UA_STRING_NULL = {0, NULL};
const UA_ByteString UA_BYTESTRING_NULL = {0, NULL};
const UA_Guid UA_GUID_NULL = {0, 0, 0, {0, 0, 0, 0, 0, 0, 0, 0}};
const UA_NodeId UA_NODEID_NULL = {0, UA_NODEIDTYPE_NUMERIC, {0}};
const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL = {{0, UA_NODEIDTYPE_NUMERIC, {0}}, {0, NULL}, 0};

const char *UA_StatusCode_name(UA_StatusCode c) {
    static char buf[32]; snprintf(buf, sizeof buf, "0x%08x", c); return c == 0 ? "Good" : buf;
}
UA_Boolean UA_DataType_isNumeric(const UA_DataType *t) { return t->typeKind >= UA_DATATYPEKIND_SBYTE && t->typeKind <= UA_DATATYPEKIND_DOUBLE; }
const UA_DataType *UA_findDataType(const UA_NodeId *id) {
    if(id->namespaceIndex != 0) return NULL;
    for(size_t i = 0; i < UA_TYPES_COUNT; i++) if(UA_NodeId_equal(&UA_TYPES[i].typeId, id)) return &UA_TYPES[i];
    return NULL;
}
const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *id, const UA_DataTypeArray *c) {
    const UA_DataType *t = UA_findDataType(id);
    if(t) return t;
    for(; c; c = c->next) for(size_t i = 0; i < c->typesSize; i++) if(UA_NodeId_equal(&c->types[i].typeId, id)) return &c->types[i];
    return NULL;
}
UA_String UA_String_fromChars(const char *src) {
    UA_String s = UA_STRING_NULL;
    if(!src) return s;
    s.length = strlen(src);
    if(s.length == 0) { s.data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return s; }
    s.data = (UA_Byte *)UA_malloc(s.length);
    memcpy(s.data, src, s.length);
    return s;
}
UA_Boolean UA_String_isEmpty(const UA_String *s) { return s->length == 0 || s->data == NULL; }
UA_Boolean UA_String_equal(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return false;
    return a->length == 0 || memcmp(a->data, b->data, a->length) == 0;
}
UA_Boolean UA_String_equal_ignorecase(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return false;
    for(size_t i = 0; i < a->length; i++) if(tolower(a->data[i]) != tolower(b->data[i])) return false;
    return true;
}
UA_StatusCode UA_String_append(UA_String *s, const UA_String s2) {
    if(s2.length == 0) return UA_STATUSCODE_GOOD;
    UA_Byte *b = (UA_Byte *)UA_realloc(s->length ? s->data : NULL, s->length + s2.length);
    if(!b) return UA_STATUSCODE_BADOUTOFMEMORY;
    memcpy(b + s->length, s2.data, s2.length);
    s->data = b; s->length += s2.length;
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_ByteString_allocBuffer(UA_ByteString *bs, size_t n) {
    bs->length = 0; bs->data = NULL;
    if(n == 0) { bs->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return 0; }
    bs->data = (UA_Byte *)UA_malloc(n);
    if(!bs->data) return UA_STATUSCODE_BADOUTOFMEMORY;
    bs->length = n; return 0;
}
/* ---- Guid ---- */
static int hexv(int c) { if(c >= '0' && c <= '9') return c - '0'; c = tolower(c); if(c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; }
UA_StatusCode UA_Guid_parse(UA_Guid *g, const UA_String s) {
    memset(g, 0, sizeof *g);
    static const int dash[4] = {8, 13, 18, 23};
    if(s.length != 36) return UA_STATUSCODE_BADDECODINGERROR;
    for(int i = 0; i < 4; i++) if(s.data[dash[i]] != '-') return UA_STATUSCODE_BADDECODINGERROR;
    UA_Byte b[16]; int n = 0, hi = -1;
    for(size_t i = 0; i < 36; i++) {
        if(i == 8 || i == 13 || i == 18 || i == 23) continue;
        int v = hexv(s.data[i]);
        if(v < 0) return UA_STATUSCODE_BADDECODINGERROR;
        if(hi < 0) hi = v; else { b[n++] = (UA_Byte)(hi * 16 + v); hi = -1; }
    }
    g->data1 = ((UA_UInt32)b[0] << 24) | ((UA_UInt32)b[1] << 16) | ((UA_UInt32)b[2] << 8) | b[3];
    g->data2 = (UA_UInt16)((b[4] << 8) | b[5]);
    g->data3 = (UA_UInt16)((b[6] << 8) | b[7]);
    memcpy(g->data4, b + 8, 8);
    return UA_STATUSCODE_GOOD;
}
static UA_StatusCode outStr(UA_String *out, const char *buf, size_t n) {
    if(out->length == 0) {
        out->data = (UA_Byte *)UA_malloc(n ? n : 1); out->length = n;
        if(!out->data) return UA_STATUSCODE_BADOUTOFMEMORY;
    } else { if(out->length < n) return UA_STATUSCODE_BADENCODINGERROR; out->length = n; }
    memcpy(out->data, buf, n);
    return UA_STATUSCODE_GOOD;
}
static int guidBuf(char *buf, const UA_Guid *g) {
    return sprintf(buf, UA_PRINTF_GUID_FORMAT, g->data1, g->data2, g->data3, g->data4[0], g->data4[1], g->data4[2], g->data4[3], g->data4[4], g->data4[5], g->data4[6], g->data4[7]);
}
UA_StatusCode UA_Guid_print(const UA_Guid *g, UA_String *out) { char b[64]; int n = guidBuf(b, g); return outStr(out, b, (size_t)n); }
UA_Guid UA_Guid_random(void) { UA_Guid g = {1, 2, 3, {4, 5, 6, 7, 8, 9, 10, 11}}; return g; }
/* ---- base64 ---- */
static const char b64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int b64v(int c) { const char *p = c ? strchr(b64, c) : NULL; return p ? (int)(p - b64) : -1; }
static UA_StatusCode unb64(const UA_Byte *s, size_t n, UA_ByteString *out) {
    if(n % 4) return UA_STATUSCODE_BADDECODINGERROR;
    if(n == 0) { out->length = 0; out->data = (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return 0; }
    size_t pad = (s[n - 1] == '=') + (s[n - 2] == '=');
    UA_Byte *r = (UA_Byte *)UA_malloc(n / 4 * 3); size_t k = 0;
    for(size_t i = 0; i < n; i += 4) {
        int v[4];
        for(int j = 0; j < 4; j++) {
            if(s[i + j] == '=' && i + 4 == n && j >= (int)(4 - pad)) v[j] = 0;
            else if((v[j] = b64v(s[i + j])) < 0) { UA_free(r); return UA_STATUSCODE_BADDECODINGERROR; }
        }
        UA_UInt32 w = (UA_UInt32)(v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3]);
        r[k++] = (UA_Byte)(w >> 16); r[k++] = (UA_Byte)(w >> 8); r[k++] = (UA_Byte)w;
    }
    out->data = r; out->length = k - pad; return 0;
}
/* ---- NodeId ---- */
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p) {
    if(p->namespaceIndex != 0) return false;
    switch(p->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: return p->identifier.numeric == 0;
    case UA_NODEIDTYPE_STRING: case UA_NODEIDTYPE_BYTESTRING: return p->identifier.string.length == 0;
    case UA_NODEIDTYPE_GUID: return memcmp(&p->identifier.guid, &UA_GUID_NULL, sizeof(UA_Guid)) == 0;
    }
    return false;
}
static size_t rdnum(const UA_Byte *s, size_t n, UA_UInt32 *v) {
    size_t i = 0; UA_UInt32 r = 0;
    for(; i < n && s[i] >= '0' && s[i] <= '9'; i++) r = r * 10 + (UA_UInt32)(s[i] - '0');
    *v = r; return i;
}
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str) {
    memset(id, 0, sizeof *id);
    const UA_Byte *s = str.data; size_t n = str.length; UA_UInt32 v;
    UA_UInt16 ns = 0;
    if(n > 3 && !memcmp(s, "ns=", 3)) {
        size_t k = rdnum(s + 3, n - 3, &v);
        if(k == 0 || 3 + k >= n || s[3 + k] != ';') return UA_STATUSCODE_BADDECODINGERROR;
        ns = (UA_UInt16)v; s += 4 + k; n -= 4 + k;
    }
    if(n < 2 || s[1] != '=') return UA_STATUSCODE_BADDECODINGERROR;
    UA_StatusCode r = UA_STATUSCODE_GOOD; UA_String rest = {n - 2, (UA_Byte *)(uintptr_t)(s + 2)};
    switch(s[0]) {
    case 'i':
        if(rdnum(s + 2, n - 2, &v) != n - 2 || n == 2) return UA_STATUSCODE_BADDECODINGERROR;
        id->identifierType = UA_NODEIDTYPE_NUMERIC; id->identifier.numeric = v; break;
    case 's': id->identifierType = UA_NODEIDTYPE_STRING; r = UA_String_copy(&rest, &id->identifier.string); break;
    case 'g': id->identifierType = UA_NODEIDTYPE_GUID; r = UA_Guid_parse(&id->identifier.guid, rest); break;
    case 'b': id->identifierType = UA_NODEIDTYPE_BYTESTRING; r = unb64(s + 2, n - 2, &id->identifier.byteString); break;
    default: return UA_STATUSCODE_BADDECODINGERROR;
    }
    if(r != UA_STATUSCODE_GOOD) { memset(id, 0, sizeof *id); return r; }
    id->namespaceIndex = ns;
    return UA_STATUSCODE_GOOD;
}
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *out) {
    size_t cap = 64 + (id->identifierType == UA_NODEIDTYPE_STRING ? id->identifier.string.length : id->identifierType == UA_NODEIDTYPE_BYTESTRING ? id->identifier.byteString.length * 2 : 0);
    char *b = (char *)malloc(cap); size_t n = 0;
    if(id->namespaceIndex) n += (size_t)sprintf(b, "ns=%u;", (unsigned)id->namespaceIndex);
    switch(id->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: n += (size_t)sprintf(b + n, "i=%u", (unsigned)id->identifier.numeric); break;
    case UA_NODEIDTYPE_STRING: memcpy(b + n, "s=", 2); n += 2; if(id->identifier.string.length) memcpy(b + n, id->identifier.string.data, id->identifier.string.length); n += id->identifier.string.length; break;
    case UA_NODEIDTYPE_GUID: memcpy(b + n, "g=", 2); n += 2; n += (size_t)guidBuf(b + n, &id->identifier.guid); break;
    case UA_NODEIDTYPE_BYTESTRING: {
        memcpy(b + n, "b=", 2); n += 2;
        const UA_ByteString *q = &id->identifier.byteString;
        for(size_t i = 0; i < q->length; i += 3) {
            UA_UInt32 w = (UA_UInt32)q->data[i] << 16; size_t k = q->length - i;
            if(k > 1) w |= (UA_UInt32)q->data[i + 1] << 8;
            if(k > 2) w |= q->data[i + 2];
            b[n++] = b64[w >> 18]; b[n++] = b64[(w >> 12) & 63]; b[n++] = k > 1 ? b64[(w >> 6) & 63] : '='; b[n++] = k > 2 ? b64[w & 63] : '=';
        }
        break; }
    }
    UA_StatusCode r = outStr(out, b, n); free(b); return r;
}
static UA_Order cmpu(UA_UInt64 a, UA_UInt64 b) { return a < b ? UA_ORDER_LESS : a > b ? UA_ORDER_MORE : UA_ORDER_EQ; }
static UA_Order cmpi(UA_Int64 a, UA_Int64 b) { return a < b ? UA_ORDER_LESS : a > b ? UA_ORDER_MORE : UA_ORDER_EQ; }
static UA_Order cmps(const UA_String *a, const UA_String *b) {
    if(a->length != b->length) return cmpu(a->length, b->length);
    if(a->length == 0 || a->data == b->data) return UA_ORDER_EQ;
    int c = memcmp(a->data, b->data, a->length);
    return c < 0 ? UA_ORDER_LESS : c > 0 ? UA_ORDER_MORE : UA_ORDER_EQ;
}
UA_Order UA_NodeId_order(const UA_NodeId *a, const UA_NodeId *b) {
    if(a == b) return UA_ORDER_EQ;
    if(a->namespaceIndex != b->namespaceIndex) return cmpu(a->namespaceIndex, b->namespaceIndex);
    if(a->identifierType != b->identifierType) return cmpu(a->identifierType, b->identifierType);
    switch(a->identifierType) {
    case UA_NODEIDTYPE_NUMERIC: return cmpu(a->identifier.numeric, b->identifier.numeric);
    case UA_NODEIDTYPE_STRING: case UA_NODEIDTYPE_BYTESTRING: return cmps(&a->identifier.string, &b->identifier.string);
    case UA_NODEIDTYPE_GUID: { int c = memcmp(&a->identifier.guid, &b->identifier.guid, sizeof(UA_Guid)); return c < 0 ? UA_ORDER_LESS : c > 0 ? UA_ORDER_MORE : UA_ORDER_EQ; }
    }
    return UA_ORDER_EQ;
}
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n) {
    UA_UInt32 h = 2166136261u ^ n->namespaceIndex;
    const UA_Byte *p = (const UA_Byte *)&n->identifier.numeric; size_t l = 4;
    if(n->identifierType == UA_NODEIDTYPE_GUID) { p = (const UA_Byte *)&n->identifier.guid; l = sizeof(UA_Guid); }
    if(n->identifierType == UA_NODEIDTYPE_STRING || n->identifierType == UA_NODEIDTYPE_BYTESTRING) { p = n->identifier.string.data; l = n->identifier.string.length; }
    for(size_t i = 0; i < l; i++) h = (h ^ p[i]) * 16777619u;
    return h;
}
UA_Boolean UA_ExpandedNodeId_isLocal(const UA_ExpandedNodeId *n) { return n->namespaceUri.length == 0 && n->serverIndex == 0; }
/* ---- DateTime ---- */
static UA_Int64 daysFromCivil(UA_Int64 y, unsigned m, unsigned d) {
    y -= m <= 2; UA_Int64 era = (y >= 0 ? y : y - 399) / 400; unsigned yoe = (unsigned)(y - era * 400);
    unsigned doy = (153 * (m + (m > 2 ? (unsigned)-3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (UA_Int64)doe - 719468;
}
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct t) {
    UA_Int64 mon = (UA_Int64)t.month - 1, y = t.year + (mon >= 0 ? mon / 12 : -1); unsigned m = (unsigned)(mon >= 0 ? mon % 12 : 11);
    UA_Int64 days = daysFromCivil(y, m + 1, 1) + (UA_Int64)t.day - 1;
    UA_Int64 s = days * 86400 + t.hour * 3600LL + t.min * 60LL + t.sec;
    UA_DateTime r = s * UA_DATETIME_SEC + UA_DATETIME_UNIX_EPOCH;
    return r + t.milliSec * UA_DATETIME_MSEC + t.microSec * UA_DATETIME_USEC + t.nanoSec / 100;
}
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime d) {
    UA_DateTimeStruct t; memset(&t, 0, sizeof t);
    UA_Int64 s = d / UA_DATETIME_SEC, f = d % UA_DATETIME_SEC; if(f < 0) { f += UA_DATETIME_SEC; s--; }
    s -= 11644473600LL; time_t tt = (time_t)s; struct tm tm; gmtime_r(&tt, &tm);
    t.year = (UA_Int16)(tm.tm_year + 1900); t.month = (UA_UInt16)(tm.tm_mon + 1); t.day = (UA_UInt16)tm.tm_mday;
    t.hour = (UA_UInt16)tm.tm_hour; t.min = (UA_UInt16)tm.tm_min; t.sec = (UA_UInt16)tm.tm_sec;
    t.milliSec = (UA_UInt16)(f / 10000); t.microSec = (UA_UInt16)(f / 10 % 1000); t.nanoSec = (UA_UInt16)(f % 10 * 100);
    return t;
}
UA_DateTime UA_DateTime_now(void) { return UA_DATETIME_UNIX_EPOCH; }
/* ---- Variant / ExtensionObject ---- */
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *t) { memset(v, 0, sizeof *v); v->type = t; v->data = p; }
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *t) {
    memset(v, 0, sizeof *v); void *n = UA_new(t); UA_StatusCode r = UA_copy(p, n, t);
    if(r) { UA_free(n); return r; } v->type = t; v->data = n; return 0;
}
void UA_Variant_setArray(UA_Variant *v, void *a, size_t n, const UA_DataType *t) { memset(v, 0, sizeof *v); v->type = t; v->data = a; v->arrayLength = n; }
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *a, size_t n, const UA_DataType *t) {
    memset(v, 0, sizeof *v); UA_StatusCode r = UA_Array_copy(a, n, &v->data, t); if(r) return r; v->arrayLength = n; v->type = t; return 0;
}
void UA_ExtensionObject_setValue(UA_ExtensionObject *eo, void *p, const UA_DataType *t) {
    memset(eo, 0, sizeof *eo); eo->content.decoded.data = p; eo->content.decoded.type = t; eo->encoding = UA_EXTENSIONOBJECT_DECODED;
}
/* ---- generic ---- */
void *UA_new(const UA_DataType *t) { return UA_calloc(1, t->memSize); }
void UA_delete(void *p, const UA_DataType *t) { if(!p) return; UA_clear(p, t); UA_free(p); }
void *UA_Array_new(size_t n, const UA_DataType *t) { if(n == 0) return UA_EMPTY_ARRAY_SENTINEL; return UA_calloc(n, t->memSize); }
void UA_Array_delete(void *p, size_t n, const UA_DataType *t) {
    uintptr_t q = (uintptr_t)p;
    if(!t->pointerFree) for(size_t i = 0; i < n; i++) UA_clear((void *)(q + i * t->memSize), t);
    UA_free((void *)((uintptr_t)p & ~(uintptr_t)UA_EMPTY_ARRAY_SENTINEL));
}
UA_StatusCode UA_Array_copy(const void *src, size_t n, void **dst, const UA_DataType *t) {
    if(n == 0) { *dst = src == NULL ? NULL : UA_EMPTY_ARRAY_SENTINEL; return UA_STATUSCODE_GOOD; }
    if(!src) return UA_STATUSCODE_BADINTERNALERROR;
    *dst = UA_calloc(n, t->memSize);
    if(!*dst) return UA_STATUSCODE_BADOUTOFMEMORY;
    UA_StatusCode r = 0;
    for(size_t i = 0; i < n; i++) r |= UA_copy((const void *)((uintptr_t)src + i * t->memSize), (void *)((uintptr_t)*dst + i * t->memSize), t);
    if(r) { UA_Array_delete(*dst, n, t); *dst = NULL; }
    return r;
}
#define STR(i) ((UA_String *)((uintptr_t)p + (i)))
static void clrStr(UA_String *s) { UA_free((void *)((uintptr_t)s->data & ~(uintptr_t)UA_EMPTY_ARRAY_SENTINEL)); s->data = NULL; s->length = 0; }
static UA_StatusCode cpyStr(const UA_String *a, UA_String *b) {
    b->length = 0; b->data = NULL;
    if(a->length == 0) { b->data = a->data == NULL ? NULL : (UA_Byte *)UA_EMPTY_ARRAY_SENTINEL; return 0; }
    b->data = (UA_Byte *)UA_malloc(a->length); if(!b->data) return UA_STATUSCODE_BADOUTOFMEMORY;
    memcpy(b->data, a->data, a->length); b->length = a->length; return 0;
}
static void clrNodeId(UA_NodeId *n) { if(n->identifierType == UA_NODEIDTYPE_STRING || n->identifierType == UA_NODEIDTYPE_BYTESTRING) clrStr(&n->identifier.string); }
static UA_StatusCode cpyNodeId(const UA_NodeId *a, UA_NodeId *b) {
    *b = *a;
    if(a->identifierType == UA_NODEIDTYPE_STRING || a->identifierType == UA_NODEIDTYPE_BYTESTRING) return cpyStr(&a->identifier.string, &b->identifier.string);
    return 0;
}
static void clrVariant(UA_Variant *v) {
    if(v->storageType != UA_VARIANT_DATA) return;
    if(v->type && v->data > UA_EMPTY_ARRAY_SENTINEL) UA_Array_delete(v->data, v->arrayLength == 0 ? 1 : v->arrayLength, v->type);
    if((void *)v->arrayDimensions > UA_EMPTY_ARRAY_SENTINEL) UA_free(v->arrayDimensions);
}
static UA_StatusCode cpyVariant(const UA_Variant *a, UA_Variant *b) {
    memset(b, 0, sizeof *b);
    size_t len = a->arrayLength;
    if(a->arrayLength == 0 && a->data > UA_EMPTY_ARRAY_SENTINEL) len = 1;
    if(a->type) { UA_StatusCode r = UA_Array_copy(a->data, len, &b->data, a->type); if(r) return r; }
    b->arrayLength = a->arrayLength; b->type = a->type;
    if(a->arrayDimensions) {
        UA_StatusCode r = UA_Array_copy(a->arrayDimensions, a->arrayDimensionsSize, (void **)&b->arrayDimensions, &UA_TYPES[UA_TYPES_UINT32]);
        if(r) return r; b->arrayDimensionsSize = a->arrayDimensionsSize;
    }
    return 0;
}
static void clrEO(UA_ExtensionObject *e) {
    if(e->encoding <= UA_EXTENSIONOBJECT_ENCODED_XML) { clrNodeId(&e->content.encoded.typeId); clrStr(&e->content.encoded.body); }
    else if(e->encoding == UA_EXTENSIONOBJECT_DECODED && e->content.decoded.data) UA_delete(e->content.decoded.data, e->content.decoded.type);
}
static UA_StatusCode cpyEO(const UA_ExtensionObject *a, UA_ExtensionObject *b) {
    memset(b, 0, sizeof *b); b->encoding = a->encoding;
    if(a->encoding <= UA_EXTENSIONOBJECT_ENCODED_XML) { cpyNodeId(&a->content.encoded.typeId, &b->content.encoded.typeId); return cpyStr(&a->content.encoded.body, &b->content.encoded.body); }
    if(!a->content.decoded.type || !a->content.decoded.data) return UA_STATUSCODE_BADINTERNALERROR;
    b->encoding = UA_EXTENSIONOBJECT_DECODED; b->content.decoded.type = a->content.decoded.type;
    b->content.decoded.data = UA_new(a->content.decoded.type);
    return UA_copy(a->content.decoded.data, b->content.decoded.data, a->content.decoded.type);
}
void UA_clear(void *p, const UA_DataType *t) {
    if(!p) return;
    switch(t->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: clrStr((UA_String *)p); break;
    case UA_DATATYPEKIND_NODEID: clrNodeId((UA_NodeId *)p); break;
    case UA_DATATYPEKIND_EXPANDEDNODEID: clrNodeId((UA_NodeId *)p); clrStr(&((UA_ExpandedNodeId *)p)->namespaceUri); break;
    case UA_DATATYPEKIND_QUALIFIEDNAME: clrStr(&((UA_QualifiedName *)p)->name); break;
    case UA_DATATYPEKIND_LOCALIZEDTEXT: clrStr(&((UA_LocalizedText *)p)->locale); clrStr(&((UA_LocalizedText *)p)->text); break;
    case UA_DATATYPEKIND_VARIANT: clrVariant((UA_Variant *)p); break;
    case UA_DATATYPEKIND_DATAVALUE: clrVariant(&((UA_DataValue *)p)->value); break;
    case UA_DATATYPEKIND_EXTENSIONOBJECT: clrEO((UA_ExtensionObject *)p); break;
    case UA_DATATYPEKIND_DIAGNOSTICINFO: clrStr(&((UA_DiagnosticInfo *)p)->additionalInfo);
        if(((UA_DiagnosticInfo *)p)->innerDiagnosticInfo) UA_delete(((UA_DiagnosticInfo *)p)->innerDiagnosticInfo, t); break;
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        uintptr_t q = (uintptr_t)p;
        for(size_t i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember *m = &t->members[i]; q += m->padding;
            if(m->isArray) { size_t n = *(size_t *)q; q += sizeof(size_t); UA_Array_delete(*(void **)q, n, m->memberType); q += sizeof(void *); }
            else if(m->isOptional) { UA_delete(*(void **)q, m->memberType); q += sizeof(void *); }
            else { UA_clear((void *)q, m->memberType); q += m->memberType->memSize; }
        }
        break; }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sel = *(UA_UInt32 *)p;
        if(sel == 0 || sel > t->membersSize) break;
        const UA_DataTypeMember *m = &t->members[sel - 1]; uintptr_t q = (uintptr_t)p + m->padding;
        if(m->isArray) { size_t n = *(size_t *)q; q += sizeof(size_t); UA_Array_delete(*(void **)q, n, m->memberType); }
        else UA_clear((void *)q, m->memberType);
        break; }
    default: break;
    }
    memset(p, 0, t->memSize);
}
UA_StatusCode UA_copy(const void *s, void *d, const UA_DataType *t) {
    memset(d, 0, t->memSize);
    switch(t->typeKind) {
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: return cpyStr((const UA_String *)s, (UA_String *)d);
    case UA_DATATYPEKIND_NODEID: return cpyNodeId((const UA_NodeId *)s, (UA_NodeId *)d);
    case UA_DATATYPEKIND_EXPANDEDNODEID: ((UA_ExpandedNodeId *)d)->serverIndex = ((const UA_ExpandedNodeId *)s)->serverIndex;
        cpyStr(&((const UA_ExpandedNodeId *)s)->namespaceUri, &((UA_ExpandedNodeId *)d)->namespaceUri); return cpyNodeId((const UA_NodeId *)s, (UA_NodeId *)d);
    case UA_DATATYPEKIND_QUALIFIEDNAME: ((UA_QualifiedName *)d)->namespaceIndex = ((const UA_QualifiedName *)s)->namespaceIndex; return cpyStr(&((const UA_QualifiedName *)s)->name, &((UA_QualifiedName *)d)->name);
    case UA_DATATYPEKIND_LOCALIZEDTEXT: cpyStr(&((const UA_LocalizedText *)s)->locale, &((UA_LocalizedText *)d)->locale); return cpyStr(&((const UA_LocalizedText *)s)->text, &((UA_LocalizedText *)d)->text);
    case UA_DATATYPEKIND_VARIANT: return cpyVariant((const UA_Variant *)s, (UA_Variant *)d);
    case UA_DATATYPEKIND_DATAVALUE: memcpy(d, s, sizeof(UA_DataValue)); return cpyVariant(&((const UA_DataValue *)s)->value, &((UA_DataValue *)d)->value);
    case UA_DATATYPEKIND_EXTENSIONOBJECT: return cpyEO((const UA_ExtensionObject *)s, (UA_ExtensionObject *)d);
    case UA_DATATYPEKIND_DIAGNOSTICINFO: memcpy(d, s, sizeof(UA_DiagnosticInfo)); ((UA_DiagnosticInfo *)d)->innerDiagnosticInfo = NULL;
        if(((const UA_DiagnosticInfo *)s)->innerDiagnosticInfo) { void *n = UA_new(t); ((UA_DiagnosticInfo *)d)->innerDiagnosticInfo = (UA_DiagnosticInfo *)n; UA_copy(((const UA_DiagnosticInfo *)s)->innerDiagnosticInfo, n, t); }
        return cpyStr(&((const UA_DiagnosticInfo *)s)->additionalInfo, &((UA_DiagnosticInfo *)d)->additionalInfo);
    case UA_DATATYPEKIND_STRUCTURE: case UA_DATATYPEKIND_OPTSTRUCT: {
        uintptr_t a = (uintptr_t)s, b = (uintptr_t)d; UA_StatusCode r = 0;
        for(size_t i = 0; i < t->membersSize; i++) {
            const UA_DataTypeMember *m = &t->members[i]; a += m->padding; b += m->padding;
            if(m->isArray) {
                size_t n = *(const size_t *)a; a += sizeof(size_t); size_t *bn = (size_t *)b; b += sizeof(size_t);
                UA_StatusCode q = UA_Array_copy(*(void *const *)a, n, (void **)b, m->memberType); if(!q) *bn = n; r |= q;
                a += sizeof(void *); b += sizeof(void *);
            } else if(m->isOptional) {
                if(*(void *const *)a) r |= UA_Array_copy(*(void *const *)a, 1, (void **)b, m->memberType);
                a += sizeof(void *); b += sizeof(void *);
            } else { r |= UA_copy((const void *)a, (void *)b, m->memberType); a += m->memberType->memSize; b += m->memberType->memSize; }
        }
        return r; }
    case UA_DATATYPEKIND_UNION: {
        UA_UInt32 sel = *(const UA_UInt32 *)s; *(UA_UInt32 *)d = sel;
        if(sel == 0) return 0;
        if(sel > t->membersSize) return UA_STATUSCODE_BADINTERNALERROR;
        const UA_DataTypeMember *m = &t->members[sel - 1]; uintptr_t a = (uintptr_t)s + m->padding, b = (uintptr_t)d + m->padding;
        if(m->isArray) { size_t n = *(const size_t *)a; UA_StatusCode q = UA_Array_copy(*(void *const *)(a + sizeof(size_t)), n, (void **)(b + sizeof(size_t)), m->memberType); if(!q) *(size_t *)b = n; return q; }
        return UA_copy((const void *)a, (void *)b, m->memberType); }
    default: memcpy(d, s, t->memSize); return 0;
    }
}
UA_Order UA_order(const void *a, const void *b, const UA_DataType *t) {
    switch(t->typeKind) {
    case UA_DATATYPEKIND_BOOLEAN: case UA_DATATYPEKIND_BYTE: return cmpu(*(const UA_Byte *)a, *(const UA_Byte *)b);
    case UA_DATATYPEKIND_SBYTE: return cmpi(*(const UA_SByte *)a, *(const UA_SByte *)b);
    case UA_DATATYPEKIND_INT16: return cmpi(*(const UA_Int16 *)a, *(const UA_Int16 *)b);
    case UA_DATATYPEKIND_UINT16: return cmpu(*(const UA_UInt16 *)a, *(const UA_UInt16 *)b);
    case UA_DATATYPEKIND_INT32: case UA_DATATYPEKIND_ENUM: return cmpi(*(const UA_Int32 *)a, *(const UA_Int32 *)b);
    case UA_DATATYPEKIND_UINT32: case UA_DATATYPEKIND_STATUSCODE: return cmpu(*(const UA_UInt32 *)a, *(const UA_UInt32 *)b);
    case UA_DATATYPEKIND_INT64: case UA_DATATYPEKIND_DATETIME: return cmpi(*(const UA_Int64 *)a, *(const UA_Int64 *)b);
    case UA_DATATYPEKIND_UINT64: return cmpu(*(const UA_UInt64 *)a, *(const UA_UInt64 *)b);
    case UA_DATATYPEKIND_FLOAT: { float x = *(const float *)a, y = *(const float *)b; return x < y ? UA_ORDER_LESS : x > y ? UA_ORDER_MORE : UA_ORDER_EQ; }
    case UA_DATATYPEKIND_DOUBLE: { double x = *(const double *)a, y = *(const double *)b; return x < y ? UA_ORDER_LESS : x > y ? UA_ORDER_MORE : UA_ORDER_EQ; }
    case UA_DATATYPEKIND_STRING: case UA_DATATYPEKIND_BYTESTRING: case UA_DATATYPEKIND_XMLELEMENT: return cmps((const UA_String *)a, (const UA_String *)b);
    case UA_DATATYPEKIND_NODEID: return UA_NodeId_order((const UA_NodeId *)a, (const UA_NodeId *)b);
    case UA_DATATYPEKIND_EXPANDEDNODEID: { UA_Order o = UA_NodeId_order((const UA_NodeId *)a, (const UA_NodeId *)b); return o ? o : cmps(&((const UA_ExpandedNodeId *)a)->namespaceUri, &((const UA_ExpandedNodeId *)b)->namespaceUri); }
    case UA_DATATYPEKIND_QUALIFIEDNAME: { UA_Order o = cmpu(((const UA_QualifiedName *)a)->namespaceIndex, ((const UA_QualifiedName *)b)->namespaceIndex); return o ? o : cmps(&((const UA_QualifiedName *)a)->name, &((const UA_QualifiedName *)b)->name); }
    case UA_DATATYPEKIND_LOCALIZEDTEXT: { UA_Order o = cmps((const UA_String *)a, (const UA_String *)b); return o ? o : cmps(&((const UA_LocalizedText *)a)->text, &((const UA_LocalizedText *)b)->text); }
    default: { int c = memcmp(a, b, t->memSize); return c < 0 ? UA_ORDER_LESS : c > 0 ? UA_ORDER_MORE : UA_ORDER_EQ; }
    }
}
#define DEF(N) const UA_##N##Attributes UA_##N##Attributes_default
DEF(Object) = {0}; DEF(ObjectType) = {0}; DEF(ReferenceType) = {0}; DEF(DataType) = {0};
DEF(View) = {0};
DEF(Method) = {.executable = true, .userExecutable = true};
DEF(Variable) = {.dataType = {0, UA_NODEIDTYPE_NUMERIC, {24}}, .valueRank = -2, .accessLevel = 1, .userAccessLevel = 1};
DEF(VariableType) = {.dataType = {0, UA_NODEIDTYPE_NUMERIC, {24}}, .valueRank = -2};
