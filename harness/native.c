/*
 * Native implementation of sym.h: replays concrete inputs.
 *
 *   replay FILE [param...]        run every line "P|V <tab>..." of FILE in a
 *                                 child process and print the outcome
 */
#define _GNU_SOURCE
#include <ctype.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include "sym.h"

static const char *g_hex;
static int g_short;
static FILE *g_res;
static uint64_t g_par[16];
static unsigned g_npar;

void harness_main(void);

static int
hexv(int c)
{
    return c <= '9' ? c - '0' : c - 'a' + 10;
}

void
sym_bytes(void *p, size_t n)
{
    uint8_t *b = p;
    for (size_t i = 0; i < n; i++) {
        if (g_hex[0] && g_hex[0] != '-') {
            b[i] = (uint8_t)(hexv(g_hex[0]) * 16 + hexv(g_hex[1]));
            g_hex += 2;
        } else {
            g_short = 1;
            b[i] = 0;
        }
    }
}

static void
finish(const char *what, const char *msg)
{
    fprintf(g_res, "\t%s\t%s\n", what, msg);
    fflush(g_res);
    _exit(what[0] == 'o' ? 0 : 1);
}

void
sym_assume(int c)
{
    if (!c)
        finish("assume", "assumption does not hold");
}
void
sym_check_(int c, const char *msg)
{
    if (!c)
        finish("check", msg);
}
void
sym_fail_(const char *msg)
{
    finish("check", msg);
    abort();
}
static int g_nobs;
void
sym_observe(uint64_t v)
{
    fprintf(g_res, "%s%llx", g_nobs++ ? "," : "", (unsigned long long)v);
}
void
sym_reach(const char *l)
{
}
void
sym_expect(const char *l)
{
}
uint64_t
sym_param(unsigned i, uint64_t d)
{
    return i < g_npar ? g_par[i] : d;
}
uint64_t
sym_concretize(uint64_t v)
{
    return v;
}
void
sym_end(void)
{
    finish("ok", "-");
    abort();
}
static uint64_t g_maxalloc = 1ull << 28;
void
sym_block_mux(uint64_t n)
{
    (void)n;
}
void
sym_max_alloc(uint64_t n)
{
    g_maxalloc = n;
}
void *
sym_malloc(size_t n)
{
    if (n > g_maxalloc)
        return NULL;
    void *p = malloc(n);
    if (p)
        memset(p, 0xbe, n);
    return p;
}
void *
sym_calloc(size_t a, size_t b)
{
    if (b && a > g_maxalloc / b)
        return NULL;
    return calloc(a, b);
}
void *
sym_realloc(void *p, size_t n)
{
    if (n > g_maxalloc)
        return NULL;
    /* always move, like the symbolic executor */
    void *q = realloc(p, n);
    return q;
}
void
sym_free(void *p)
{
    free(p);
}

/* ---- coroutines ---- */
static ucontext_t g_uc[16];
static int g_nth = 1, g_cur;
static struct {
    void (*fn)(void *);
    void *arg;
} g_tharg[16];
static void
tramp(int i)
{
    g_tharg[i].fn(g_tharg[i].arg);
    finish("error", "thread entry returned");
}
int
sym_thread_create(void (*fn)(void *), void *arg)
{
    int i = g_nth++;
    g_tharg[i].fn = fn;
    g_tharg[i].arg = arg;
    getcontext(&g_uc[i]);
    g_uc[i].uc_stack.ss_sp = malloc(1 << 20);
    g_uc[i].uc_stack.ss_size = 1 << 20;
    g_uc[i].uc_link = NULL;
    makecontext(&g_uc[i], (void (*)(void))tramp, 1, i);
    return i;
}
void
sym_thread_switch(int t)
{
    int o = g_cur;
    if (t == o)
        return;
    g_cur = t;
    swapcontext(&g_uc[o], &g_uc[t]);
}
int
sym_thread_self(void)
{
    return g_cur;
}

static void
onsig(int s)
{
    char b[64];
    snprintf(b, sizeof b, "\tsignal\t%d\n", s);
    if (write(fileno(g_res), b, strlen(b)) < 0)
        _exit(1);
    _exit(1);
}

void
__asan_on_error(void)
{
    static const char m[] = "\tasan\tmemory error\n";
    fflush(g_res);
    if (write(fileno(g_res), m, sizeof(m) - 1) < 0)
        _exit(1);
}

int
main(int argc, char **argv)
{
    if (argc < 2) {
        fprintf(stderr, "usage: replay FILE [param...]\n");
        return 2;
    }
    for (int i = 2; i < argc && g_npar < 16; i++)
        g_par[g_npar++] = strtoull(argv[i], NULL, 0);
    FILE *f = fopen(argv[1], "r");
    if (!f) {
        perror(argv[1]);
        return 2;
    }
    char *line = NULL;
    size_t cap = 0;
    ssize_t n;
    int bad = 0;
    while ((n = getline(&line, &cap, f)) > 0) {
        if (line[n - 1] == '\n')
            line[--n] = 0;
        char *fld[8];
        int nf = 0;
        char *p = line;
        while (nf < 8) {
            fld[nf++] = p;
            p = strchr(p, '\t');
            if (!p)
                break;
            *p++ = 0;
        }
        const char *hex, *want = "";
        if (fld[0][0] == 'P' && nf >= 3) {
            hex = fld[1];
            want = fld[2];
        } else if (fld[0][0] == 'V' && nf >= 6)
            hex = fld[5];
        else
            continue;
        int pp[2];
        if (pipe(pp))
            return 2;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            close(pp[0]);
            g_res = fdopen(pp[1], "w");
            g_hex = hex;
            struct rlimit rl = {20, 20};
            setrlimit(RLIMIT_CPU, &rl);
            signal(SIGABRT, onsig);
            signal(SIGXCPU, onsig);
            signal(SIGFPE, onsig);
            signal(SIGILL, onsig);
            signal(SIGTRAP, onsig);
            harness_main();
            finish("ok", "-");
        }
        close(pp[1]);
        static char buf[1 << 20];
        size_t got = 0;
        ssize_t r;
        while (got < sizeof(buf) - 1 &&
               (r = read(pp[0], buf + got, sizeof(buf) - 1 - got)) > 0)
            got += (size_t)r;
        close(pp[0]);
        buf[got] = 0;
        int st = 0;
        waitpid(pid, &st, 0);
        char *nl = strchr(buf, '\n');
        if (nl)
            *nl = 0;
        char *t = strchr(buf, '\t');
        char obs[4096] = "-", what[32] = "crash", msg[4096] = "-";
        if (t) {
            size_t k = (size_t)(t - buf);
            if (k >= sizeof obs)
                k = sizeof(obs) - 1;
            if (k) {
                memcpy(obs, buf, k);
                obs[k] = 0;
            }
            char *u = strchr(t + 1, '\t');
            if (u) {
                snprintf(what, sizeof what, "%.*s", (int)(u - t - 1), t + 1);
                snprintf(msg, sizeof msg, "%s", u + 1);
            }
        } else if (WIFSIGNALED(st))
            snprintf(msg, sizeof msg, "signal %d", WTERMSIG(st));
        else
            snprintf(msg, sizeof msg, "exit %d", WEXITSTATUS(st));
        if (fld[0][0] == 'P') {
            size_t wl = strlen(want);
            int same = !strcmp(what, "ok") &&
                       (!strcmp(want, obs) ||
                        (wl >= sizeof(obs) - 1 &&
                         !strncmp(want, obs, sizeof(obs) - 1)));
            printf("%s\t%s\t%s\t%s\t%s\n", same ? "PATH-OK" : "PATH-DIFF",
                   what, msg, want, obs);
            if (!same)
                bad = 1;
        } else {
            int rep = strcmp(what, "ok") && strcmp(what, "assume");
            printf("%s\t%s\t%s\n", rep ? "REPRODUCED" : "NOT-REPRODUCED",
                   what, msg);
            if (rep)
                bad = 1;
        }
    }
    return bad;
}
