#include <open62541/server.h>
