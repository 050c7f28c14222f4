/* Scenario file: lines "S <id>", commands with fields separated by TAB, "E".
 * Every scenario runs in a forked child with a time limit; what the child
 * observed goes to <outdir>/<id>.ndjson, closed by an "end" record that the
 * parent writes (ok, crash, timeout). */
#define _GNU_SOURCE
#include "hcommon.h"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <libxml/parser.h>
#include <libxml/xmlmemory.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>
__thread FILE *H_out; __thread bool H_track;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
#define LOCK pthread_mutex_lock(&mx)
#define UNLOCK pthread_mutex_unlock(&mx)
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *hx_malloc(size_t n) { return __real_malloc(n); }
void *hx_realloc(void *p, size_t n) { return __real_realloc(p, n); }
void hx_free(void *p) { __real_free(p); }
char *hx_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)__real_malloc(n); memcpy(r, s, n); return r; }
/* ledger: open addressing hash table of live tracked blocks */
typedef struct { void *p; size_t n; } Ent;
static Ent *tab; static size_t cap, used, live, liveB;
static size_t slot(void *p) { size_t h = ((uintptr_t)p >> 4) * 11400714819323198485ull; return h & (cap - 1); }
static void put(void *p, size_t n);
static void grow(void) {
    Ent *o = tab; size_t oc = cap; cap = cap ? cap * 2 : 1 << 14; tab = (Ent *)__real_calloc(cap, sizeof *tab); used = 0; live = 0; liveB = 0;
    for(size_t i = 0; i < oc; i++) if(o[i].p && o[i].p != (void *)1) put(o[i].p, o[i].n);
    __real_free(o);
}
static void put(void *p, size_t n) {
    if(!p) return;
    if((used + 1) * 2 > cap) grow();
    size_t i = slot(p); while(tab[i].p && tab[i].p != (void *)1) i = (i + 1) & (cap - 1);
    if(!tab[i].p) used++;
    tab[i].p = p; tab[i].n = n; live++; liveB += n;
}
static bool drop(void *p) {
    if(!p || !cap) return false;
    for(size_t i = slot(p); tab[i].p; i = (i + 1) & (cap - 1)) if(tab[i].p == p) { tab[i].p = (void *)1; live--; liveB -= tab[i].n; return true; }
    return false;
}
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if(H_track) { LOCK; put(p, n); UNLOCK; } return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = __real_calloc(a, b); if(H_track) { LOCK; put(p, a * b); UNLOCK; } return p; }
void *__wrap_realloc(void *o, size_t n) { LOCK; bool t = drop(o); void *p = __real_realloc(o, n); if(p && (t || H_track)) put(p, n); UNLOCK; return p; }
void __wrap_free(void *p) { LOCK; drop(p); UNLOCK; __real_free(p); }
/* the tracked block that contains p: its number in order of first sight, offset of p, size */
bool H_blockOf(void *p, size_t *idx, size_t *off, size_t *size) {
    static void *known[65536]; static size_t n;
    for(size_t i = 0; i < cap; i++) if(tab[i].p && tab[i].p != (void *)1 && (char *)p >= (char *)tab[i].p && (char *)p < (char *)tab[i].p + tab[i].n + (tab[i].n == 0)) {
        size_t k = 0; while(k < n && known[k] != tab[i].p) k++;
        if(k == n && n < 65535) known[n++] = tab[i].p;
        *idx = k + 1; *off = (size_t)((char *)p - (char *)tab[i].p); *size = tab[i].n; return true;
    }
    return false;
}
size_t H_liveBlocks(void) { return live; }
size_t H_liveBytes(void) { return liveB; }
static long xmlLive;
static void *xm(size_t n) { void *p = __real_malloc(n); if(p) __sync_fetch_and_add(&xmlLive, 1); return p; }
static void *xr(void *o, size_t n) { void *p = __real_realloc(o, n); if(!o && p) __sync_fetch_and_add(&xmlLive, 1); return p; }
static void xf(void *p) { if(p) __sync_fetch_and_sub(&xmlLive, 1); __real_free(p); }
static char *xd(const char *s) { char *p = hx_strdup(s); __sync_fetch_and_add(&xmlLive, 1); return p; }
long H_liveXml(void) { return xmlLive; }
int H_openFds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); if(!d) return -1; while(readdir(d)) n++; closedir(d); return n; }
void jstrn(const char *s, size_t n) {
    fputc('"', H_out);
    for(size_t i = 0; i < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if(c == '"' || c == '\\') { fputc('\\', H_out); fputc(c, H_out); }
        else if(c < 32) fprintf(H_out, "\\u%04x", c);
        else fputc(c, H_out);
    }
    fputc('"', H_out);
}
void jstr(const char *s) { if(!s) fputs("\"<null>\"", H_out); else jstrn(s, strlen(s)); }
void jid(const UA_NodeId *id) {
    UA_NodeId c = *id; unsigned ns = c.namespaceIndex; c.namespaceIndex = 0; UA_String s = {0, NULL};
    bool t = H_track; H_track = false; UA_NodeId_print(&c, &s);
    fprintf(H_out, "[%u,", ns); jstrn((char *)s.data, s.length); fputc(']', H_out); UA_String_clear(&s); H_track = t;
}
static char *readAll(const char *p) {
    FILE *f = fopen(p, "r"); if(!f) { perror(p); exit(3); }
    char *b = NULL; size_t n = 0, c = 0, k;
    do { if(n + 65536 > c) { c = c * 2 + 131072; b = (char *)__real_realloc(b, c); } k = fread(b + n, 1, 65535, f); n += k; } while(k);
    b[n] = 0; fclose(f); return b;
}
int H_main(int argc, char **argv, H_cmd cmd) {
    if(argc < 3) { fprintf(stderr, "usage: %s scenarios outdir [timeout_s]\n", argv[0]); return 3; }
    int tmo = argc > 3 ? atoi(argv[3]) : 20;
    char *buf = readAll(argv[1]), *save = NULL; char **lines = NULL; size_t nl = 0;
    for(char *l = strtok_r(buf, "\n", &save); l; l = strtok_r(NULL, "\n", &save)) { if(!(nl & 1023)) lines = (char **)__real_realloc(lines, (nl + 1024) * sizeof *lines); lines[nl++] = l; }
    xmlMemSetup(xf, xm, xr, xd);
    int nlate = 0;      /* what hangs is reported, the rest of the scenarios is left out then */
    for(size_t i = 0; i < nl; i++) {
        if(strncmp(lines[i], "S ", 2)) continue;
        size_t e = i + 1; while(e < nl && strcmp(lines[e], "E")) e++;
        char out[4096], err[4096]; snprintf(out, sizeof out, "%s/%s.ndjson", argv[2], lines[i] + 2); snprintf(err, sizeof err, "%s/%s.err", argv[2], lines[i] + 2);
        if(nlate >= 2) { FILE *o = fopen(out, "w"); if(!o) { perror(out); return 3; } fprintf(o, "{\"ev\":\"end\",\"how\":\"skipped\"}\n"); fclose(o); i = e; continue; }
        fflush(NULL);
        pid_t pid = fork();
        if(pid < 0) { perror("fork"); return 3; }
        if(!pid) {
            setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL);
            struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
            rl.rlim_cur = rl.rlim_max = 512ul << 20; setrlimit(RLIMIT_FSIZE, &rl);
            int fd = open(err, O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
            H_out = fopen(out, "w"); if(!H_out) _exit(97);
            for(size_t k = i + 1; k < e; k++) {
                static char *av[2048]; int ac = 0, done = 0; char *c = lines[k];
                while(!done) { if(ac == 2048) exit(3); av[ac++] = c; while(*c && *c != '\t') c++; done = !*c; *c++ = 0; }
                cmd(ac, av);
                fflush(H_out);
            }
            fprintf(H_out, "{\"ev\":\"done\"}\n"); fflush(H_out); fclose(H_out); _exit(0);
        }
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0); int st = 0; bool late = false; useconds_t nap = 200;
        for(;;) {
            pid_t r = waitpid(pid, &st, WNOHANG); if(r == pid) break;
            if(r < 0 && errno != EINTR) break;
            clock_gettime(CLOCK_MONOTONIC, &t1);
            /* computing time counts: other work on the machine is no reason to give up */
            struct timespec tc = {0, 0}; clockid_t ck; if(!clock_getcpuclockid(pid, &ck)) clock_gettime(ck, &tc);
            if(tc.tv_sec > tmo || t1.tv_sec - t0.tv_sec > 4 * tmo) { late = true; nlate++; kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
            usleep(nap); if(nap < 5000) nap += 200;
        }
        FILE *o = fopen(out, "a"); if(!o) { perror(out); return 3; }
        if(late) fprintf(o, "\n{\"ev\":\"end\",\"how\":\"timeout\"}\n");
        else if(WIFEXITED(st) && WEXITSTATUS(st) == 0) fprintf(o, "{\"ev\":\"end\",\"how\":\"ok\"}\n");
        else fprintf(o, "\n{\"ev\":\"end\",\"how\":\"crash\",\"code\":%d}\n", WIFSIGNALED(st) ? 256 + WTERMSIG(st) : WEXITSTATUS(st));
        fclose(o);
        if(!late && WIFEXITED(st) && WEXITSTATUS(st) == 0) unlink(err);
        i = e;
    }
    return 0;
}
