#ifndef UA_TYPES_H_
#define UA_TYPES_H_
#include <open62541/config.h>
#include <open62541/statuscodes.h>
#include <open62541/nodeids.h>
#ifdef __cplusplus
extern "C" {
#endif
struct UA_Server; typedef struct UA_Server UA_Server;
struct UA_DataType; typedef struct UA_DataType UA_DataType;
typedef struct { uint8_t major, minor; } UA_TypesVersion_;
typedef bool UA_Boolean;
#define UA_TRUE true
#define UA_FALSE false
typedef int8_t UA_SByte;
#define UA_SBYTE_MIN (-128)
#define UA_SBYTE_MAX 127
typedef uint8_t UA_Byte;
#define UA_BYTE_MIN 0
#define UA_BYTE_MAX 255
typedef int16_t UA_Int16;
#define UA_INT16_MIN (-32768)
#define UA_INT16_MAX 32767
typedef uint16_t UA_UInt16;
#define UA_UINT16_MIN 0
#define UA_UINT16_MAX 65535
typedef int32_t UA_Int32;
#define UA_INT32_MIN ((int32_t)-2147483648LL)
#define UA_INT32_MAX 2147483647L
typedef uint32_t UA_UInt32;
#define UA_UINT32_MIN 0
#define UA_UINT32_MAX 4294967295UL
typedef int64_t UA_Int64;
#define UA_INT64_MAX (int64_t)9223372036854775807LL
#define UA_INT64_MIN ((int64_t)-UA_INT64_MAX-1LL)
typedef uint64_t UA_UInt64;
#define UA_UINT64_MIN (uint64_t)0
#define UA_UINT64_MAX (uint64_t)18446744073709551615ULL
typedef float UA_Float;
typedef double UA_Double;
typedef uint32_t UA_StatusCode;
const char *UA_StatusCode_name(UA_StatusCode code);
static inline UA_Boolean UA_StatusCode_isBad(UA_StatusCode c) { return ((c >> 30) >= 0x02); }
static inline UA_Boolean UA_StatusCode_isUncertain(UA_StatusCode c) { return ((c >> 30) == 0x01); }
static inline UA_Boolean UA_StatusCode_isGood(UA_StatusCode c) { return ((c >> 30) == 0x00); }
static inline UA_Boolean UA_StatusCode_isEqualTop(UA_StatusCode a, UA_StatusCode b) { return (a & 0xFFFF0000) == (b & 0xFFFF0000); }

typedef enum { UA_ORDER_LESS = -1, UA_ORDER_EQ = 0, UA_ORDER_MORE = 1 } UA_Order;

#define UA_EMPTY_ARRAY_SENTINEL ((void *)0x01)
typedef struct { size_t length; UA_Byte *data; } UA_String;
typedef UA_String UA_ByteString;
typedef UA_ByteString UA_XmlElement;
extern const UA_String UA_STRING_NULL;
extern const UA_ByteString UA_BYTESTRING_NULL;
UA_String UA_String_fromChars(const char *src);
UA_Boolean UA_String_isEmpty(const UA_String *s);
UA_StatusCode UA_String_append(UA_String *s, const UA_String s2);
UA_StatusCode UA_ByteString_allocBuffer(UA_ByteString *bs, size_t length);
static inline UA_String UA_STRING(char *chars) {
    UA_String s; s.length = 0; s.data = NULL;
    if(!chars) return s;
    s.length = strlen(chars); s.data = (UA_Byte *)chars; return s;
}
#define UA_STRING_ALLOC(CHARS) UA_String_fromChars(CHARS)
#define UA_STRING_STATIC(CHARS) {sizeof(CHARS) - 1, (UA_Byte *)CHARS}
static inline UA_ByteString UA_BYTESTRING(char *chars) { return UA_STRING(chars); }
static inline UA_ByteString UA_BYTESTRING_ALLOC(const char *chars) { return UA_String_fromChars(chars); }
UA_Boolean UA_String_equal_ignorecase(const UA_String *s1, const UA_String *s2);

typedef int64_t UA_DateTime;
#define UA_DATETIME_USEC 10LL
#define UA_DATETIME_MSEC (UA_DATETIME_USEC * 1000LL)
#define UA_DATETIME_SEC (UA_DATETIME_MSEC * 1000LL)
#define UA_DATETIME_UNIX_EPOCH (11644473600LL * UA_DATETIME_SEC)
typedef struct UA_DateTimeStruct {
    UA_UInt16 nanoSec, microSec, milliSec, sec, min, hour, day, month;
    UA_Int16 year;
} UA_DateTimeStruct;
UA_DateTimeStruct UA_DateTime_toStruct(UA_DateTime t);
UA_DateTime UA_DateTime_fromStruct(UA_DateTimeStruct ts);
UA_DateTime UA_DateTime_now(void);
static inline UA_DateTime UA_DateTime_fromUnixTime(UA_Int64 u) { return (u * UA_DATETIME_SEC) + UA_DATETIME_UNIX_EPOCH; }
static inline UA_Int64 UA_DateTime_toUnixTime(UA_DateTime d) { return (d - UA_DATETIME_UNIX_EPOCH) / UA_DATETIME_SEC; }

typedef struct { UA_UInt32 data1; UA_UInt16 data2; UA_UInt16 data3; UA_Byte data4[8]; } UA_Guid;
extern const UA_Guid UA_GUID_NULL;
UA_StatusCode UA_Guid_parse(UA_Guid *guid, const UA_String str);
UA_StatusCode UA_Guid_print(const UA_Guid *guid, UA_String *output);
static inline UA_Guid UA_GUID(const char *chars) {
    UA_Guid g; memset(&g, 0, sizeof g); UA_Guid_parse(&g, UA_STRING((char *)(uintptr_t)chars)); return g;
}

enum UA_NodeIdType { UA_NODEIDTYPE_NUMERIC = 0, UA_NODEIDTYPE_STRING = 3, UA_NODEIDTYPE_GUID = 4, UA_NODEIDTYPE_BYTESTRING = 5 };
typedef struct {
    UA_UInt16 namespaceIndex;
    enum UA_NodeIdType identifierType;
    union { UA_UInt32 numeric; UA_String string; UA_Guid guid; UA_ByteString byteString; } identifier;
} UA_NodeId;
extern const UA_NodeId UA_NODEID_NULL;
UA_Boolean UA_NodeId_isNull(const UA_NodeId *p);
UA_StatusCode UA_NodeId_print(const UA_NodeId *id, UA_String *output);
UA_StatusCode UA_NodeId_parse(UA_NodeId *id, const UA_String str);
UA_Order UA_NodeId_order(const UA_NodeId *n1, const UA_NodeId *n2);
UA_UInt32 UA_NodeId_hash(const UA_NodeId *n);
static inline UA_NodeId UA_NODEID(const char *chars) {
    UA_NodeId id; memset(&id, 0, sizeof id); UA_NodeId_parse(&id, UA_STRING((char *)(uintptr_t)chars)); return id;
}
static inline UA_NodeId UA_NODEID_NUMERIC(UA_UInt16 ns, UA_UInt32 n) {
    UA_NodeId id; memset(&id, 0, sizeof id); id.namespaceIndex = ns;
    id.identifierType = UA_NODEIDTYPE_NUMERIC; id.identifier.numeric = n; return id;
}
static inline UA_NodeId UA_NODEID_STRING(UA_UInt16 ns, char *c) {
    UA_NodeId id; memset(&id, 0, sizeof id); id.namespaceIndex = ns;
    id.identifierType = UA_NODEIDTYPE_STRING; id.identifier.string = UA_STRING(c); return id;
}
static inline UA_NodeId UA_NODEID_STRING_ALLOC(UA_UInt16 ns, const char *c) {
    UA_NodeId id; memset(&id, 0, sizeof id); id.namespaceIndex = ns;
    id.identifierType = UA_NODEIDTYPE_STRING; id.identifier.string = UA_String_fromChars(c); return id;
}
static inline UA_NodeId UA_NODEID_GUID(UA_UInt16 ns, UA_Guid g) {
    UA_NodeId id; memset(&id, 0, sizeof id); id.namespaceIndex = ns;
    id.identifierType = UA_NODEIDTYPE_GUID; id.identifier.guid = g; return id;
}
static inline UA_NodeId UA_NODEID_BYTESTRING(UA_UInt16 ns, char *c) {
    UA_NodeId id; memset(&id, 0, sizeof id); id.namespaceIndex = ns;
    id.identifierType = UA_NODEIDTYPE_BYTESTRING; id.identifier.byteString = UA_BYTESTRING(c); return id;
}
typedef struct { UA_NodeId nodeId; UA_String namespaceUri; UA_UInt32 serverIndex; } UA_ExpandedNodeId;
extern const UA_ExpandedNodeId UA_EXPANDEDNODEID_NULL;
UA_Boolean UA_ExpandedNodeId_isLocal(const UA_ExpandedNodeId *n);
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NUMERIC(UA_UInt16 ns, UA_UInt32 n) {
    UA_ExpandedNodeId id; memset(&id, 0, sizeof id); id.nodeId = UA_NODEID_NUMERIC(ns, n); return id;
}
static inline UA_ExpandedNodeId UA_EXPANDEDNODEID_NODEID(UA_NodeId nodeId) {
    UA_ExpandedNodeId id; memset(&id, 0, sizeof id); id.nodeId = nodeId; return id;
}
typedef struct { UA_UInt16 namespaceIndex; UA_String name; } UA_QualifiedName;
static inline UA_Boolean UA_QualifiedName_isNull(const UA_QualifiedName *q) { return q->namespaceIndex == 0 && q->name.length == 0; }
static inline UA_QualifiedName UA_QUALIFIEDNAME(UA_UInt16 ns, char *c) { UA_QualifiedName q; q.namespaceIndex = ns; q.name = UA_STRING(c); return q; }
static inline UA_QualifiedName UA_QUALIFIEDNAME_ALLOC(UA_UInt16 ns, const char *c) { UA_QualifiedName q; q.namespaceIndex = ns; q.name = UA_String_fromChars(c); return q; }
typedef struct { UA_String locale; UA_String text; } UA_LocalizedText;
static inline UA_LocalizedText UA_LOCALIZEDTEXT(const char *locale, const char *text) {
    UA_LocalizedText lt; lt.locale = UA_STRING((char *)(uintptr_t)locale); lt.text = UA_STRING((char *)(uintptr_t)text); return lt;
}
static inline UA_LocalizedText UA_LOCALIZEDTEXT_ALLOC(const char *locale, const char *text) {
    UA_LocalizedText lt; lt.locale = UA_String_fromChars(locale); lt.text = UA_String_fromChars(text); return lt;
}
typedef struct { UA_UInt32 min, max; } UA_NumericRangeDimension;
typedef struct { size_t dimensionsSize; UA_NumericRangeDimension *dimensions; } UA_NumericRange;
typedef enum { UA_VARIANT_DATA, UA_VARIANT_DATA_NODELETE } UA_VariantStorageType;
typedef struct {
    const UA_DataType *type;
    UA_VariantStorageType storageType;
    size_t arrayLength;
    void *data;
    size_t arrayDimensionsSize;
    UA_UInt32 *arrayDimensions;
} UA_Variant;
static inline UA_Boolean UA_Variant_isEmpty(const UA_Variant *v) { return v->type == NULL; }
static inline UA_Boolean UA_Variant_isScalar(const UA_Variant *v) { return v->type != NULL && v->arrayLength == 0 && v->data > UA_EMPTY_ARRAY_SENTINEL; }
static inline UA_Boolean UA_Variant_hasScalarType(const UA_Variant *v, const UA_DataType *t) { return UA_Variant_isScalar(v) && v->type == t; }
static inline UA_Boolean UA_Variant_hasArrayType(const UA_Variant *v, const UA_DataType *t) { return !UA_Variant_isEmpty(v) && !UA_Variant_isScalar(v) && v->type == t; }
void UA_Variant_setScalar(UA_Variant *v, void *p, const UA_DataType *type);
UA_StatusCode UA_Variant_setScalarCopy(UA_Variant *v, const void *p, const UA_DataType *type);
void UA_Variant_setArray(UA_Variant *v, void *array, size_t n, const UA_DataType *type);
UA_StatusCode UA_Variant_setArrayCopy(UA_Variant *v, const void *array, size_t n, const UA_DataType *type);

typedef enum {
    UA_EXTENSIONOBJECT_ENCODED_NOBODY = 0, UA_EXTENSIONOBJECT_ENCODED_BYTESTRING = 1,
    UA_EXTENSIONOBJECT_ENCODED_XML = 2, UA_EXTENSIONOBJECT_DECODED = 3,
    UA_EXTENSIONOBJECT_DECODED_NODELETE = 4
} UA_ExtensionObjectEncoding;
typedef struct {
    UA_ExtensionObjectEncoding encoding;
    union {
        struct { UA_NodeId typeId; UA_ByteString body; } encoded;
        struct { const UA_DataType *type; void *data; } decoded;
    } content;
} UA_ExtensionObject;
void UA_ExtensionObject_setValue(UA_ExtensionObject *eo, void *p, const UA_DataType *type);
typedef struct {
    UA_Variant value;
    UA_DateTime sourceTimestamp, serverTimestamp;
    UA_UInt16 sourcePicoseconds, serverPicoseconds;
    UA_StatusCode status;
    UA_Boolean hasValue:1, hasStatus:1, hasSourceTimestamp:1, hasServerTimestamp:1, hasSourcePicoseconds:1, hasServerPicoseconds:1;
} UA_DataValue;
typedef struct UA_DiagnosticInfo {
    UA_Boolean hasSymbolicId:1, hasNamespaceUri:1, hasLocalizedText:1, hasLocale:1, hasAdditionalInfo:1, hasInnerStatusCode:1, hasInnerDiagnosticInfo:1;
    UA_Int32 symbolicId, namespaceUri, localizedText, locale;
    UA_String additionalInfo;
    UA_StatusCode innerStatusCode;
    struct UA_DiagnosticInfo *innerDiagnosticInfo;
} UA_DiagnosticInfo;

typedef struct {
    const char *memberName;
    const UA_DataType *memberType;
    UA_Byte padding : 6;
    UA_Byte isArray : 1;
    UA_Byte isOptional : 1;
} UA_DataTypeMember;
typedef enum {
    UA_DATATYPEKIND_BOOLEAN = 0, UA_DATATYPEKIND_SBYTE = 1, UA_DATATYPEKIND_BYTE = 2, UA_DATATYPEKIND_INT16 = 3,
    UA_DATATYPEKIND_UINT16 = 4, UA_DATATYPEKIND_INT32 = 5, UA_DATATYPEKIND_UINT32 = 6, UA_DATATYPEKIND_INT64 = 7,
    UA_DATATYPEKIND_UINT64 = 8, UA_DATATYPEKIND_FLOAT = 9, UA_DATATYPEKIND_DOUBLE = 10, UA_DATATYPEKIND_STRING = 11,
    UA_DATATYPEKIND_DATETIME = 12, UA_DATATYPEKIND_GUID = 13, UA_DATATYPEKIND_BYTESTRING = 14, UA_DATATYPEKIND_XMLELEMENT = 15,
    UA_DATATYPEKIND_NODEID = 16, UA_DATATYPEKIND_EXPANDEDNODEID = 17, UA_DATATYPEKIND_STATUSCODE = 18,
    UA_DATATYPEKIND_QUALIFIEDNAME = 19, UA_DATATYPEKIND_LOCALIZEDTEXT = 20, UA_DATATYPEKIND_EXTENSIONOBJECT = 21,
    UA_DATATYPEKIND_DATAVALUE = 22, UA_DATATYPEKIND_VARIANT = 23, UA_DATATYPEKIND_DIAGNOSTICINFO = 24,
    UA_DATATYPEKIND_DECIMAL = 25, UA_DATATYPEKIND_ENUM = 26, UA_DATATYPEKIND_STRUCTURE = 27, UA_DATATYPEKIND_OPTSTRUCT = 28,
    UA_DATATYPEKIND_UNION = 29, UA_DATATYPEKIND_BITFIELDCLUSTER = 30
} UA_DataTypeKind;
#define UA_DATATYPEKINDS 31
struct UA_DataType {
    const char *typeName;
    UA_NodeId typeId;
    UA_NodeId binaryEncodingId;
    UA_UInt32 memSize : 16;
    UA_UInt32 typeKind : 6;
    UA_UInt32 pointerFree : 1;
    UA_UInt32 overlayable : 1;
    UA_UInt32 membersSize : 8;
    UA_DataTypeMember *members;
};
typedef struct UA_DataTypeArray {
    const struct UA_DataTypeArray *next;
    const size_t typesSize;
    const UA_DataType *types;
    UA_Boolean cleanup;
} UA_DataTypeArray;
UA_Boolean UA_DataType_isNumeric(const UA_DataType *type);
const UA_DataType *UA_findDataType(const UA_NodeId *typeId);
const UA_DataType *UA_findDataTypeWithCustom(const UA_NodeId *typeId, const UA_DataTypeArray *custom);
void *UA_new(const UA_DataType *type);
static inline void UA_init(void *p, const UA_DataType *type) { memset(p, 0, type->memSize); }
UA_StatusCode UA_copy(const void *src, void *dst, const UA_DataType *type);
void UA_clear(void *p, const UA_DataType *type);
void UA_delete(void *p, const UA_DataType *type);
UA_Order UA_order(const void *p1, const void *p2, const UA_DataType *type);
static inline UA_Boolean UA_equal(const void *a, const void *b, const UA_DataType *t) { return UA_order(a, b, t) == UA_ORDER_EQ; }
void *UA_Array_new(size_t size, const UA_DataType *type);
UA_StatusCode UA_Array_copy(const void *src, size_t size, void **dst, const UA_DataType *type);
void UA_Array_delete(void *p, size_t size, const UA_DataType *type);
UA_Guid UA_Guid_random(void);
#ifdef __cplusplus
}
#endif
#include <open62541/types_generated.h>
#endif
