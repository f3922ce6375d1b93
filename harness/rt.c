/*
 * Model of the parts of libc which the code under test calls.
 *
 * A call to an external function NAME is routed to rt_NAME when it exists,
 * in the symbolic executor (by symbol lookup) and in the native replay
 * (by renaming undefined symbols with objcopy).
 */
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

#include "rt_cli.h"
#include "sym.h"

char *rt_vformat_alloc(const char *f, va_list ap, size_t *np);

int rt_fail_mode;
int rt_fail_budget = 1;
int rt_fail_taken;
long rt_live;
size_t rt_huge;
uint64_t rt_allocs;

int *rt___errno_location(void);

static int
inject(void)
{
    if (!rt_fail_mode || rt_fail_budget <= 0)
        return 0;
    if (sym_bool()) {
        rt_fail_budget--;
        rt_fail_taken++;
        *rt___errno_location() = 12; /* ENOMEM */
        return 1;
    }
    return 0;
}

void *
rt_malloc(size_t n)
{
    rt_allocs++;
    if (inject())
        return NULL;
    if (rt_huge && n > rt_huge)
        n = rt_huge;
    void *p = sym_malloc(n);
    if (p)
        rt_live++;
    return p;
}

void *
rt_calloc(size_t a, size_t b)
{
    rt_allocs++;
    if (inject())
        return NULL;
    if (rt_huge && b && a > rt_huge / b)
        a = rt_huge / b;
    void *p = sym_calloc(a, b);
    if (p)
        rt_live++;
    return p;
}

void *
rt_realloc(void *o, size_t n)
{
    rt_allocs++;
    if (inject())
        return NULL;
    void *p = sym_realloc(o, n);
    if (p && !o)
        rt_live++;
    return p;
}

void
rt_free(void *p)
{
    if (p)
        rt_live--;
    sym_free(p);
}

static int g_errno;
int *
rt___errno_location(void)
{
    return &g_errno;
}

size_t
rt_strlen(const char *s)
{
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}

size_t
rt_strnlen(const char *s, size_t max)
{
    size_t n = 0;
    while (n < max && s[n])
        n++;
    return n;
}

int
rt_strcmp(const char *a, const char *b)
{
    while (*a && *a == *b) {
        a++;
        b++;
    }
    return (unsigned char)*a - (unsigned char)*b;
}

int
rt_strncmp(const char *a, const char *b, size_t n)
{
    while (n && *a && *a == *b) {
        a++;
        b++;
        n--;
    }
    return n ? (unsigned char)*a - (unsigned char)*b : 0;
}

char *
rt_strchr(const char *s, int c)
{
    for (;; s++) {
        if (*s == (char)c)
            return (char *)s;
        if (!*s)
            return NULL;
    }
}

char *
rt_strrchr(const char *s, int c)
{
    const char *r = NULL;
    for (;; s++) {
        if (*s == (char)c)
            r = s;
        if (!*s)
            return (char *)r;
    }
}

void *
rt_memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (size_t i = 0; i < n; i++)
        if (p[i] == (unsigned char)c)
            return (void *)(p + i);
    return NULL;
}

char *
rt_strstr(const char *h, const char *n)
{
    for (;; h++) {
        size_t i = 0;
        while (n[i] && h[i] == n[i])
            i++;
        if (!n[i])
            return (char *)h;
        if (!*h)
            return NULL;
    }
}

char *
rt_strndup(const char *s, size_t max)
{
    size_t n = rt_strnlen(s, max);
    char *p = rt_malloc(n + 1);
    if (!p)
        return NULL;
    for (size_t i = 0; i < n; i++)
        p[i] = s[i];
    p[n] = 0;
    return p;
}

char *
rt_strdup(const char *s)
{
    return rt_strndup(s, rt_strlen(s));
}

void
rt_qsort(void *base, size_t n, size_t sz,
         int (*cmp)(const void *, const void *))
{
    /* insertion sort on bytes */
    char *b = base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0;
             j--)
            for (size_t k = 0; k < sz; k++) {
                char t = b[(j - 1) * sz + k];
                b[(j - 1) * sz + k] = b[j * sz + k];
                b[j * sz + k] = t;
            }
}

void *
rt_bsearch(const void *key, const void *base, size_t n, size_t sz,
           int (*cmp)(const void *, const void *))
{
    const char *b = base;
    size_t lo = 0, hi = n;
    while (lo < hi) {
        size_t m = lo + (hi - lo) / 2;
        int c = cmp(key, b + m * sz);
        if (c == 0)
            return (void *)(b + m * sz);
        if (c < 0)
            hi = m;
        else
            lo = m + 1;
    }
    return NULL;
}

/*
 * Formatted output: unless the harness asks for it (rt_capture) the text is
 * not modelled (messages are not part of any property), only allocation
 * behaviour is.
 */
int
rt_vasprintf(char **p, const char *f, va_list ap)
{
    if (rt_capture) {
        size_t n;
        *p = rt_vformat_alloc(f, ap, &n);
        return *p == NULL ? -1 : (int)n;
    }
    char *s = rt_malloc(2);
    if (!s)
        return -1;
    s[0] = '?';
    s[1] = 0;
    *p = s;
    return 1;
}
/* formats made of text, %s and %.*s only are expanded */
static int
only_s(const char *f)
{
    int n = 0;
    for (; *f; f++)
        if (*f == '%') {
            f++;
            if (f[0] == '.' && f[1] == '*')
                f += 2;
            if (*f != 's')
                return 0;
            n++;
        }
    return n;
}
static size_t
expand(char *b, size_t n, const char *f, va_list ap)
{
    size_t k = 0;
    for (; *f; f++) {
        if (*f == '%') {
            size_t max = SIZE_MAX;
            f++;
            if (*f == '.') {
                int a = va_arg(ap, int);
                if (a >= 0)
                    max = a;
                f += 2;
            }
            const char *s = va_arg(ap, const char *);
            for (size_t i = 0; i < max && s[i]; i++, k++)
                if (k + 1 < n)
                    b[k] = s[i];
        } else {
            if (k + 1 < n)
                b[k] = *f;
            k++;
        }
    }
    if (n)
        b[k < n ? k : n - 1] = 0;
    return k;
}
int
rt_asprintf(char **p, const char *f, ...)
{
    size_t n = 1;
    va_list ap;
    if (only_s(f)) {
        va_start(ap, f);
        n = expand(NULL, 0, f, ap);
        va_end(ap);
    }
    char *s = rt_malloc(n + 1);
    if (!s)
        return -1;
    if (n)
        s[0] = '?';
    s[n] = 0;
    if (only_s(f)) {
        va_start(ap, f);
        expand(s, n + 1, f, ap);
        va_end(ap);
    }
    *p = s;
    return n;
}
int
rt_vsnprintf(char *b, size_t n, const char *f, va_list ap)
{
    if (n)
        b[0] = 0;
    return 0;
}
int
rt_snprintf(char *b, size_t n, const char *f, ...)
{
    if (only_s(f)) {
        va_list ap;
        va_start(ap, f);
        size_t k = expand(b, n, f, ap);
        va_end(ap);
        return k;
    }
    if (n)
        b[0] = 0;
    return 0;
}
int
rt_printf(const char *f, ...)
{
    return 0;
}
int
rt_fprintf(void *fp, const char *f, ...)
{
    return 0;
}
int
rt_vfprintf(void *fp, const char *f, va_list ap)
{
    return 0;
}
int
rt_puts(const char *s)
{
    return 0;
}
int
rt_putchar(int c)
{
    return 0;
}
int
rt_fputs(const char *s, void *fp)
{
    return 0;
}
int
rt_fputc(int c, void *fp)
{
    return 0;
}
void
rt_flockfile(void *fp)
{
}
void
rt_funlockfile(void *fp)
{
}
