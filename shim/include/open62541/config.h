/* Stand-in for the open62541 1.4 public API (the real library is not
 * installed in this sandbox).  Only what a nodeset loader can reach. */
#ifndef UA_CONFIG_H_
#define UA_CONFIG_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <inttypes.h>
#include <assert.h>
#define UA_OPEN62541_VER_MAJOR 1
#define UA_OPEN62541_VER_MINOR 4
#define UA_OPEN62541_VER_PATCH 6
#define UA_ENABLE_PARSING 1
#define UA_ENABLE_TYPEDESCRIPTION 1
#define UA_ENABLE_METHODCALLS 1
#define UA_EXPORT
#define UA_INLINABLE(decl, impl) static inline decl impl
#define UA_THREAD_LOCAL
#define UA_DEPRECATED
#define UA_RESTRICT
#define UA_FUNC_ATTR_MALLOC
#define UA_FUNC_ATTR_PURE
#define UA_FUNC_ATTR_CONST
#define UA_FUNC_ATTR_WARN_UNUSED_RESULT
#define UA_FORMAT(X, Y)
#define UA_malloc malloc
#define UA_free free
#define UA_calloc calloc
#define UA_realloc realloc
#define UA_assert assert
#define UA_STATIC_ASSERT(cond, msg)
#define UA_BINARY_OVERLAYABLE_INTEGER 1
#define UA_BINARY_OVERLAYABLE_FLOAT 1
#define UA_PRINTF_GUID_FORMAT "%08" PRIx32 "-%04" PRIx16 "-%04" PRIx16 "-%02" PRIx8 "%02" PRIx8 "-%02" PRIx8 "%02" PRIx8 "%02" PRIx8 "%02" PRIx8 "%02" PRIx8 "%02" PRIx8
#define UA_PRINTF_STRING_FORMAT "\"%.*s\""
#define UA_PRINTF_STRING_DATA(STRING) (int)(STRING).length, (STRING).data
#define UA_MAX(A, B) ((A) > (B) ? (A) : (B))
#define UA_MIN(A, B) ((A) > (B) ? (B) : (A))
#endif
