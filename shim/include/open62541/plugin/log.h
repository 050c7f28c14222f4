#ifndef UA_PLUGIN_LOG_H_
#define UA_PLUGIN_LOG_H_
#include <open62541/types.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { UA_LOGLEVEL_TRACE = 100, UA_LOGLEVEL_DEBUG = 200, UA_LOGLEVEL_INFO = 300, UA_LOGLEVEL_WARNING = 400, UA_LOGLEVEL_ERROR = 500, UA_LOGLEVEL_FATAL = 600 } UA_LogLevel;
#define UA_LOGCATEGORIES 10
typedef enum { UA_LOGCATEGORY_NETWORK = 0, UA_LOGCATEGORY_SECURECHANNEL, UA_LOGCATEGORY_SESSION, UA_LOGCATEGORY_SERVER, UA_LOGCATEGORY_CLIENT, UA_LOGCATEGORY_USERLAND, UA_LOGCATEGORY_SECURITYPOLICY, UA_LOGCATEGORY_EVENTLOOP, UA_LOGCATEGORY_PUBSUB, UA_LOGCATEGORY_DISCOVERY } UA_LogCategory;
typedef struct UA_Logger {
    void (*log)(void *logContext, UA_LogLevel level, UA_LogCategory category, const char *msg, va_list args);
    void *context;
    void (*clear)(struct UA_Logger *logger);
} UA_Logger;
#define UA_LOG_DEF(N, L) static inline void UA_LOG_##N(const UA_Logger *logger, UA_LogCategory c, const char *msg, ...) { \
    if(!logger || !logger->log) { return; } va_list a; va_start(a, msg); logger->log(logger->context, UA_LOGLEVEL_##L, c, msg, a); va_end(a); }
UA_LOG_DEF(TRACE, TRACE) UA_LOG_DEF(DEBUG, DEBUG) UA_LOG_DEF(INFO, INFO) UA_LOG_DEF(WARNING, WARNING) UA_LOG_DEF(ERROR, ERROR) UA_LOG_DEF(FATAL, FATAL)
#ifdef __cplusplus
}
#endif
#endif
