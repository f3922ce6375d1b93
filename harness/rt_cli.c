/*
 * Model of the parts of libc which the command line uses: numbers in text,
 * formatted output, lines, options.
 */
#include <errno.h>
#include <getopt.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/types.h>

#include "rt_cli.h"
#include "sym.h"

int *rt___errno_location(void);
void *rt_malloc(size_t n);
void *rt_realloc(void *p, size_t n);
size_t rt_strlen(const char *s);
int rt_strcmp(const char *a, const char *b);

int rt_capture;
char rt_out[RT_OUT];
size_t rt_nout;
const char *rt_in;
size_t rt_nin, rt_inpos;
void (*rt_exit_hook)(int status);

static char streams[3];
void *rt_stdin = &streams[0];
void *rt_stdout = &streams[1];
void *rt_stderr = &streams[2];

int
rt_fileno(void *fp)
{
    return fp == &streams[0] ? 0 : fp == &streams[1] ? 1 : 2;
}
void
rt_wrote(const char *p, size_t n)
{
    if (!rt_capture)
        return;
    for (size_t i = 0; i < n; i++) {
        if (rt_nout == RT_OUT)
            sym_fail_("model: output");
        rt_out[rt_nout++] = p[i];
    }
}

/* ---- text ---- */
static int
in(char c, const char *set)
{
    unsigned r = 0;
    for (; *set; set++)
        r |= (unsigned)(c == *set);
    return (int)r;
}
size_t
rt_strspn(const char *s, const char *set)
{
    size_t n = 0;
    while (s[n] && in(s[n], set))
        n++;
    return n;
}
size_t
rt_strcspn(const char *s, const char *set)
{
    size_t n = 0;
    while (s[n] && !in(s[n], set))
        n++;
    return n;
}
char *
rt_strtok_r(char *s, const char *sep, char **save)
{
    if (s == NULL)
        s = *save;
    if (s == NULL)
        return NULL;
    while (*s && in(*s, sep))
        s++;
    if (!*s) {
        *save = NULL;
        return NULL;
    }
    char *r = s;
    while (*s && !in(*s, sep))
        s++;
    if (*s) {
        *s = 0;
        *save = s + 1;
    } else {
        *save = NULL;
    }
    return r;
}
char *
rt_strtok(char *s, const char *sep)
{
    static char *save;
    return rt_strtok_r(s, sep, &save);
}
static int
space(char c)
{
    return c == ' ' || (c >= '\t' && c <= '\r');
}
static unsigned
digit(char c)
{
    if (c >= '0' && c <= '9')
        return (unsigned)(c - '0');
    if (c >= 'a' && c <= 'z')
        return (unsigned)(c - 'a') + 10;
    if (c >= 'A' && c <= 'Z')
        return (unsigned)(c - 'A') + 10;
    return 99;
}
/* at most max characters. *neg: there was a minus sign */
static uintmax_t
number(const char *s, const char **ep, int base, size_t max, int *neg,
       int *over)
{
    const char *p = s, *e = s + max;
    if (max == SIZE_MAX)
        e = (const char *)UINTPTR_MAX;
    uintmax_t v = 0;
    *neg = *over = 0;
    while (p < e && space(*p))
        p++;
    if (p < e && (*p == '-' || *p == '+')) {
        *neg = *p == '-';
        p++;
    }
    if ((base == 0 || base == 16) && p < e && p[0] == '0' && p + 1 < e &&
        (p[1] == 'x' || p[1] == 'X') && p + 2 < e && digit(p[2]) < 16) {
        base = 16;
        p += 2;
    } else if (base == 0) {
        base = p < e && *p == '0' ? 8 : 10;
    }
    const char *first = p;
    unsigned d;
    while (p < e && (d = digit(*p)) < (unsigned)base) {
        uintmax_t b = (uintmax_t)base;
        if (v > UINTMAX_MAX / b || v * b > UINTMAX_MAX - d)
            *over = 1;
        else
            v = v * b + d;
        p++;
    }
    *ep = p == first ? s : p;
    return v;
}
uintmax_t
rt_strtoumax(const char *s, char **ep, int base)
{
    int neg, over;
    const char *e;
    uintmax_t v = number(s, &e, base, SIZE_MAX, &neg, &over);
    if (ep)
        *ep = (char *)e;
    if (over) {
        *rt___errno_location() = ERANGE;
        return UINTMAX_MAX;
    }
    return neg ? -v : v;
}
unsigned long
rt_strtoul(const char *s, char **ep, int base)
{
    return rt_strtoumax(s, ep, base);
}
unsigned long long
rt_strtoull(const char *s, char **ep, int base)
{
    return rt_strtoumax(s, ep, base);
}
intmax_t
rt_strtoimax(const char *s, char **ep, int base)
{
    int neg, over;
    const char *e;
    uintmax_t v = number(s, &e, base, SIZE_MAX, &neg, &over);
    if (ep)
        *ep = (char *)e;
    if (over || v > (uintmax_t)INTMAX_MAX + (unsigned)neg) {
        *rt___errno_location() = ERANGE;
        return neg ? INTMAX_MIN : INTMAX_MAX;
    }
    return (intmax_t)(neg ? -v : v);
}
long
rt_strtol(const char *s, char **ep, int base)
{
    return rt_strtoimax(s, ep, base);
}
int
rt_atoi(const char *s)
{
    return (int)rt_strtoimax(s, NULL, 10);
}
uintmax_t
rt___isoc23_strtoumax(const char *s, char **ep, int base)
{
    return rt_strtoumax(s, ep, base);
}
unsigned long
rt___isoc23_strtoul(const char *s, char **ep, int base)
{
    return rt_strtoumax(s, ep, base);
}
unsigned long long
rt___isoc23_strtoull(const char *s, char **ep, int base)
{
    return rt_strtoumax(s, ep, base);
}
long
rt___isoc23_strtol(const char *s, char **ep, int base)
{
    return rt_strtoimax(s, ep, base);
}
/* numbers only */
static int
scan(const char *s, const char *f, va_list ap)
{
    int n = 0;
    while (*f) {
        if (*f != '%')
            sym_fail_("model: sscanf");
        f++;
        size_t w = 0, len = 4;
        while (*f >= '0' && *f <= '9')
            w = w * 10 + (size_t)(*f++ - '0');
        for (;; f++) {
            if (*f == 'l' || *f == 'j' || *f == 'z')
                len = 8;
            else if (*f == 'h')
                len = len == 2 ? 1 : 2;
            else
                break;
        }
        int base = *f == 'x' || *f == 'X' ? 16 : *f == 'o' ? 8
                   : *f == 'i'                            ? 0
                                                          : 10;
        if (!in(*f, "xXuoid"))
            sym_fail_("model: sscanf");
        f++;
        while (space(*s))
            s++;
        int neg, over;
        const char *e;
        uintmax_t v = number(s, &e, base, w ? w : SIZE_MAX, &neg, &over);
        if (e == s)
            return n == 0 && !*s ? -1 : n;
        if (over)
            v = UINTMAX_MAX;
        else if (neg)
            v = -v;
        s = e;
        if (len == 8)
            *va_arg(ap, uint64_t *) = v;
        else if (len == 4)
            *va_arg(ap, uint32_t *) = (uint32_t)v;
        else if (len == 2)
            *va_arg(ap, uint16_t *) = (uint16_t)v;
        else
            *va_arg(ap, uint8_t *) = (uint8_t)v;
        n++;
    }
    return n;
}
int
rt_sscanf(const char *s, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = scan(s, f, ap);
    va_end(ap);
    return r;
}
int
rt___isoc99_sscanf(const char *s, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = scan(s, f, ap);
    va_end(ap);
    return r;
}
int
rt___isoc23_sscanf(const char *s, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int r = scan(s, f, ap);
    va_end(ap);
    return r;
}

/* ---- characters ---- */
static unsigned short ctab[384];
static const unsigned short *ctabp;
const unsigned short **
rt___ctype_b_loc(void)
{
    if (ctabp == NULL) {
        for (int c = 0; c < 128; c++) {
            unsigned up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z',
                     dg = c >= '0' && c <= '9';
            unsigned xd = dg || (c >= 'a' && c <= 'f') ||
                          (c >= 'A' && c <= 'F');
            unsigned pr = c >= 32 && c < 127;
            ctab[128 + c] = (unsigned short)(
                up << 8 | lo << 9 | (up | lo) << 10 | dg << 11 | xd << 12 |
                (unsigned)space((char)c) << 13 | pr << 14 |
                (unsigned)(pr && c != 32) << 15 |
                (unsigned)(c == 32 || c == 9) | (unsigned)!pr << 1 |
                (unsigned)(pr && c != 32 && !up && !lo && !dg) << 2 |
                (up | lo | dg) << 3);
        }
        ctabp = ctab + 128;
    }
    return &ctabp;
}
int
rt_tolower(int c)
{
    return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
int
rt_toupper(int c)
{
    return c >= 'a' && c <= 'z' ? c - 32 : c;
}

/* ---- formatted output ---- */
struct fo {
    char *b;
    size_t n, k;
};
static void
put(struct fo *o, char c)
{
    if (o->k + 1 < o->n)
        o->b[o->k] = c;
    o->k++;
}
static unsigned
decimal(char *t, uint64_t v)
{
    static const uint64_t pow[20] = {
        1ull,
        10ull,
        100ull,
        1000ull,
        10000ull,
        100000ull,
        1000000ull,
        10000000ull,
        100000000ull,
        1000000000ull,
        10000000000ull,
        100000000000ull,
        1000000000000ull,
        10000000000000ull,
        100000000000000ull,
        1000000000000000ull,
        10000000000000000ull,
        100000000000000000ull,
        1000000000000000000ull,
        10000000000000000000ull,
    };
    unsigned nd = 1, n = 0;
    while (nd < 20 && v >= pow[nd])
        nd++;
    for (unsigned k = nd; k-- > 0;) {
        unsigned d = 0;
        for (unsigned j = 1; j <= (k == 19 ? 1 : 9); j++)
            d += v >= j * pow[k];
        v -= d * pow[k];
        t[n++] = (char)('0' + d);
    }
    return n;
}
static unsigned
hex(char *t, uint64_t v, char a)
{
    unsigned nd = 1, n = 0;
    while (nd < 16 && v >> (4 * nd))
        nd++;
    for (unsigned k = nd; k-- > 0;) {
        unsigned d = (unsigned)(v >> (4 * k)) & 15;
        t[n++] = (char)(d < 10 ? '0' + d : a + d - 10);
    }
    return n;
}
static size_t
vformat(char *b, size_t size, const char *f, va_list ap)
{
    struct fo o = {b, size, 0};
    for (; *f; f++) {
        if (*f != '%') {
            put(&o, *f);
            continue;
        }
        f++;
        int zero = 0, left = 0, len = 0, hasprec = 0;
        size_t w = 0, prec = 0;
        for (; *f == '0' || *f == '-' || *f == '#'; f++) {
            if (*f == '0')
                zero = 1;
            if (*f == '-')
                left = 1;
        }
        while (*f >= '0' && *f <= '9')
            w = w * 10 + (size_t)(*f++ - '0');
        if (*f == '.') {
            f++;
            hasprec = 1;
            if (*f == '*') {
                prec = (size_t)va_arg(ap, int);
                f++;
            }
            while (*f >= '0' && *f <= '9')
                prec = prec * 10 + (size_t)(*f++ - '0');
        }
        for (;; f++) {
            if (*f == 'l' || *f == 'j' || *f == 'z' || *f == 't')
                len = 8;
            else if (*f != 'h')
                break;
        }
        char t[24];
        const char *p = t;
        size_t n = 0;
        uint64_t v;
        switch (*f) {
        case '%':
            t[n++] = '%';
            break;
        case 'c':
            t[n++] = (char)va_arg(ap, int);
            break;
        case 's':
            p = va_arg(ap, const char *);
            if (p == NULL)
                p = "(null)";
            while ((!hasprec || n < prec) && p[n])
                n++;
            break;
        case 'd':
        case 'i':
            v = len == 8 ? va_arg(ap, uint64_t)
                         : (uint64_t)(int64_t)va_arg(ap, int);
            if ((int64_t)v < 0) {
                t[n++] = '-';
                v = -v;
            }
            n += decimal(t + n, v);
            break;
        case 'u':
            v = len == 8 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
            n = decimal(t, v);
            break;
        case 'x':
        case 'X':
            v = len == 8 ? va_arg(ap, uint64_t) : va_arg(ap, unsigned);
            if (zero && w == 16) {
                for (unsigned k = 16; k-- > 0;) {
                    unsigned d = (unsigned)(v >> (4 * k)) & 15;
                    t[n++] = (char)('0' + d +
                                    (unsigned)(d > 9) * (*f == 'x' ? 39 : 7));
                }
            } else {
                n = hex(t, v, *f == 'x' ? 'a' : 'A');
            }
            break;
        case 'p':
            /* addresses are not compared */
            (void)va_arg(ap, void *);
            t[n++] = '*';
            break;
        default:
            sym_fail_("model: printf");
        }
        for (size_t i = n; !left && i < w; i++)
            put(&o, zero ? '0' : ' ');
        for (size_t i = 0; i < n; i++)
            put(&o, p[i]);
        for (size_t i = n; left && i < w; i++)
            put(&o, ' ');
    }
    if (o.n)
        o.b[o.k < o.n ? o.k : o.n - 1] = 0;
    return o.k;
}
size_t
rt_format(char *b, size_t n, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    size_t k = vformat(b, n, f, ap);
    va_end(ap);
    return k;
}
/* NULL if messages are not modelled */
char *
rt_vformat_alloc(const char *f, va_list ap, size_t *np)
{
    va_list ap2;
    va_copy(ap2, ap);
    char t[512];
    size_t n = vformat(t, sizeof(t), f, ap2);
    va_end(ap2);
    char *s = rt_malloc(n + 1);
    if (s == NULL)
        return NULL;
    if (n < sizeof(t)) {
        for (size_t i = 0; i <= n; i++)
            s[i] = t[i];
    } else {
        vformat(s, n + 1, f, ap);
    }
    *np = n;
    return s;
}

/* ---- input ---- */
ssize_t
rt_getline(char **linep, size_t *capp, void *fp)
{
    size_t n = 0;
    if (fp != rt_stdin)
        sym_fail_("model: getline");
    if (rt_inpos == rt_nin)
        return -1;
    while (rt_inpos + n < rt_nin && rt_in[rt_inpos + n] != '\n')
        n++;
    if (rt_inpos + n < rt_nin)
        n++;
    if (*linep == NULL || *capp < n + 1) {
        /* like glibc: a buffer of size 0 is not a buffer */
        char *p = rt_realloc(*capp ? *linep : NULL, n + 1);
        if (p == NULL)
            return -1;
        *linep = p;
        *capp = n + 1;
    }
    for (size_t i = 0; i < n; i++)
        (*linep)[i] = rt_in[rt_inpos + i];
    (*linep)[n] = 0;
    rt_inpos += n;
    return (ssize_t)n;
}
ssize_t
rt___getdelim(char **linep, size_t *capp, int delim, void *fp)
{
    if (delim != '\n')
        sym_fail_("model: getdelim");
    return rt_getline(linep, capp, fp);
}
size_t
rt_fread(void *b, size_t sz, size_t n, void *fp)
{
    size_t k = 0;
    if (fp != rt_stdin)
        sym_fail_("model: fread");
    for (; k < n && rt_nin - rt_inpos >= sz; k++)
        for (size_t i = 0; i < sz; i++)
            ((char *)b)[k * sz + i] = rt_in[rt_inpos++];
    if (k < n)
        rt_inpos = rt_nin;
    return k;
}
void
rt_exit(int status)
{
    if (rt_exit_hook)
        rt_exit_hook(status);
    sym_end();
}

/* ---- options: exact names, no permutation ---- */
char *rt_optarg;
int rt_optind = 1;
int
rt_getopt_long(int argc, char *const *argv, const char *shortopts,
               const struct option *o, int *idx)
{
    if (rt_optind >= argc)
        return -1;
    char *a = argv[rt_optind];
    if (a[0] != '-' || a[1] == 0)
        return -1;
    rt_optind++;
    if (a[1] != '-')
        return '?';
    a += 2;
    if (!*a)
        return -1;
    for (int i = 0; o[i].name; i++) {
        const char *nm = o[i].name;
        size_t k = 0;
        while (nm[k] && nm[k] == a[k])
            k++;
        if (nm[k] || (a[k] && a[k] != '='))
            continue;
        rt_optarg = NULL;
        if (o[i].has_arg == no_argument) {
            if (a[k])
                return '?';
        } else if (a[k]) {
            rt_optarg = a + k + 1;
        } else if (o[i].has_arg == required_argument) {
            if (rt_optind >= argc)
                return '?';
            rt_optarg = argv[rt_optind++];
        }
        if (idx)
            *idx = i;
        if (o[i].flag) {
            *o[i].flag = o[i].val;
            return 0;
        }
        return o[i].val;
    }
    return '?';
}
