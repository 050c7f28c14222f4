/* Shared by the harnesses: JSON output, the allocation ledger, the scenario loop. */
#ifndef HCOMMON_H
#define HCOMMON_H
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <open62541/types.h>
extern __thread FILE *H_out;              /* observations of the running scenario, one JSON object per line */
extern __thread bool H_track;             /* true while code of the repository runs */
#define REAL(stmt) do { H_track = true; stmt; H_track = false; } while(0)
void *hx_malloc(size_t n);       /* the harness's own allocations, never tracked */
void *hx_realloc(void *p, size_t n);
void hx_free(void *p);
char *hx_strdup(const char *s);
size_t H_liveBlocks(void);       /* tracked blocks not yet released */
size_t H_liveBytes(void);
long H_liveXml(void);            /* libxml2 blocks not yet released */
int H_openFds(void);
void jstr(const char *s);        /* JSON string; NULL is written as "<null>" */
void jstrn(const char *s, size_t n);
void jid(const UA_NodeId *id);   /* [ns,"i=5"] */
typedef void (*H_cmd)(int argc, char **argv);
typedef void (*H_reset)(void);
int H_main(int argc, char **argv, H_cmd cmd);
#endif
