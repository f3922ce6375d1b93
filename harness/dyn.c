/*
 * C27: names of libraries, search paths.
 *
 * params: 0 length of the name, 1 number of search paths, 2 the library
 *         exists (0 no, 1.. in this directory), 3 (1: a long name)
 */
#include "dylkit.h"

static const char *dirs[] = {".", "/lib", "x/y"};
static const char *files[] = {"./", "/lib/", "x/y/"};
static char name[4200];
static char file[64];

void
harness_main(void)
{
    unsigned n = (unsigned)sym_param(0, 2), np = (unsigned)sym_param(1, 1);
    unsigned in = (unsigned)sym_param(2, 0);
    int lng = (int)sym_param(3, 0);
    struct dy d;
    struct wm m;
    struct wb w;
    memset(&d, 0, sizeof(d));
    dy_init();
    dl.opts.npaths = np;
    dl.opts.paths = dirs;
    int bad = 0;
    for (unsigned i = 0; i < n; i++) {
        uint8_t c = lng ? 'x' : sym_u8();
        if (lng == 0 && c >= 0x80)
            sym_end(); /* not valid in a name or longer */
        name[i] = (char)c;
        if (!lng &&
            (c == 0 || c == '/' || (i && c == '.' && name[i - 1] == '.')))
            bad = 1;
    }
    if (in) {
        unsigned k = 0;
        for (; files[in - 1][k]; k++)
            file[k] = files[in - 1][k];
        memcpy(file + k, name, n);
        file[k + n] = 0;
        dy_base(&m);
        dy_obj(file, &m, &d);
    }
    dy_base(&m);
    wb_init(&w, 5000);
    dy_mem(&w, &d);
    wb_u8(&w, 2);
    wb_open(&w);
    wb_u8(&w, 1);
    wb_uleb(&w, n);
    wb_raw(&w, name, n);
    wb_close(&w);
    dy_file("/m", &m, &w);
    wb_fini(&w);
    os_nlog = 0;
    int ret = dyld_load(&dl, "/m");
    unsigned opens = 0;
    for (unsigned i = 0; i < os_nlog; i++) {
        const struct os_call *c = &os_log[i];
        if (c->op != OSO_OPEN)
            continue;
        opens++;
        if (i == 0)
            continue; /* main */
        sym_check(!bad, "a name which could leave the directories is used");
        sym_check(opens - 2 < np, "more files than directories");
        const char *f = files[opens - 2];
        unsigned k = 0;
        for (; f[k]; k++)
            sym_check(c->path[k] == f[k], "directory");
        for (unsigned l = 0; l < n; l++, k++)
            sym_check(c->path[k] == name[l], "name of the file");
        sym_check(c->path[k] == 0, "name of the file is too long");
    }
    if (!bad && !lng)
        sym_check(opens == 1 + (in ? in : np), "directories which are tried");
    sym_check((ret == 0) == (in && !bad), "result");
    sym_reach(ret ? "not loaded" : "loaded");
    dy_clear();
}
