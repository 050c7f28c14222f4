#include <open62541/config.h>
