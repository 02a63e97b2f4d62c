// Native replay: runs a harness entry, compiled from the same sources, on concrete inputs.
//   replay LIB.so JOBFILE      one result line per job
// Job line:  ENTRY|p0,p1,..|hex hex hex ...
// Result:    ok HASH NOBS | fail MSG | panic | assume | timeout | extra (more inputs asked for than given) | crash SIG
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

static uint64_t *in; static int nin, pos;
static uint64_t par[64];
static uint64_t hash, nobs;
static int rfd;
static void say(const char *s, size_t n) { if (write(rfd, s, n) < 0) _exit(99); }
static void done(const char *s) { say(s, strlen(s)); _exit(0); }
static uint64_t next(void) {
    if (pos >= nin) done("extra");
    return in[pos++];
}
uint64_t sym_make(uint64_t w) { uint64_t v = next(); return w >= 64 ? v : v & ((1ull << w) - 1); }
uint64_t sym_pick(uint64_t n) { uint64_t v = next(); if (n == 0 || v >= n) done("assume"); return v; }
void sym_assume(uint8_t c) { if (!(c & 1)) done("assume"); }
void sym_check(uint8_t c, const char *m, uint64_t n) {
    if (!(c & 1)) { say("fail ", 5); say(m, n); _exit(0); }
}
void sym_unreached(const char *m, uint64_t n) { say("fail ", 5); say(m, n); _exit(0); }
void sym_cover(uint64_t i) { (void)i; }
void sym_observe(uint64_t v) {
    for (int i = 0; i < 8; i++) { hash ^= (v >> (8 * i)) & 255; hash *= 0x100000001b3ull; }
    nobs++;
}
uint64_t sym_param(uint64_t i) { return i < 64 ? par[i] : 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_log10(uint64_t v) { (void)v; return next(); }

int main(int argc, char **argv) {
    int verbose = getenv("REPLAY_VERBOSE") != 0;
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    FILE *f = fopen(argv[2], "r");
    if (!f) return 2;
    char *line = 0; size_t cap = 0; ssize_t len;
    while ((len = getline(&line, &cap, f)) > 0) {
        if (line[len - 1] == '\n') line[len - 1] = 0;
        char *e = line, *p = strchr(e, '|'); if (!p) continue; *p++ = 0;
        char *q = strchr(p, '|'); if (!q) continue; *q++ = 0;
        memset(par, 0, sizeof par);
        int np = 0;
        for (char *t = strtok(p, ","); t && np < 64; t = strtok(0, ",")) par[np++] = strtoull(t, 0, 10);
        in = malloc(8 * (strlen(q) / 2 + 2)); nin = 0; pos = 0;
        for (char *t = strtok(q, " "); t; t = strtok(0, " ")) in[nin++] = strtoull(t, 0, 16);
        void (*fn)(void) = (void (*)(void))dlsym(h, e);
        if (!fn) { printf("noentry\n"); free(in); continue; }
        int pp[2];
        if (pipe(pp)) return 2;
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
            close(pp[0]); rfd = pp[1];
            hash = 0xcbf29ce484222325ull; nobs = 0;
            if (!verbose && !freopen("/dev/null", "w", stderr)) _exit(99);
            alarm(20);
            fn();
            char b[64]; int n = snprintf(b, sizeof b, "ok %016llx %llu", (unsigned long long)hash, (unsigned long long)nobs);
            say(b, n); _exit(0);
        }
        close(pp[1]);
        char buf[4096]; size_t n = 0; ssize_t r;
        while (n < sizeof buf - 1 && (r = read(pp[0], buf + n, sizeof buf - 1 - n)) > 0) n += r;
        buf[n] = 0; close(pp[0]);
        int st; waitpid(c, &st, 0);
        if (WIFSIGNALED(st)) {
            int s = WTERMSIG(st);
            if (s == SIGALRM) printf("timeout\n"); else if (s == SIGABRT) printf("panic\n"); else if (s == SIGILL || s == SIGTRAP) printf("panic\n"); else printf("crash %d\n", s);
        } else printf("%s\n", n ? buf : "exit");
        free(in);
    }
    return 0;
}
