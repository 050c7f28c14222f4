#ifndef UA_LOG_STDOUT_H_
#define UA_LOG_STDOUT_H_
#include <open62541/plugin/log.h>
extern const UA_Logger UA_Log_Stdout_;
extern const UA_Logger *UA_Log_Stdout;
#endif
