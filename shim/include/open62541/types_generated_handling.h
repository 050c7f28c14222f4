#include <open62541/types.h>
