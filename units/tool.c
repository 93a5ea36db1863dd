/* main() of the command line tool against the file interface, for every
   argument count, command word and result. */
#include "vg.h"
#include <stdarg.h>
#include "/repo/c/detools.h"

static struct {
    int calls, prints, exits, code;
    int texts;
    int res;
    const char *a, *b, *c;
    bool in_place;
    int res_texted;
    bool steps;
} g;

static int argc;
static const char **argv;
static bool seq_usage, ip_usage;

static void vg_check_usage_exit(int code)
{
    VG_COVER("wrong usage");
    VG_ASSERT(!seq_usage && !ip_usage, "correct usage is not refused");
    VG_ASSERT(g.calls == 0, "wrong usage touches no file");
    VG_ASSERT(((unsigned)code & 0xff) != 0, "wrong usage exits non-zero");
    VG_ASSERT(g.prints > 0, "usage is printed");
}

void vg_check_end(int code)
{
    if (!seq_usage && !ip_usage) {
        vg_check_usage_exit(code);
        return;
    }
    VG_ASSERT(g.calls == 1, "the library is called once");
    VG_ASSERT(g.in_place == ip_usage, "the function for the command is called");
    VG_ASSERT(g.a == argv[2] && g.b == argv[3] && (ip_usage || g.c == argv[4]),
              "file names in the documented order");
    if (g.res >= 0) {
        VG_COVER("success");
        VG_ASSERT(((unsigned)code & 0xff) == 0, "success exits zero");
    } else {
        VG_COVER("failure");
        VG_ASSERT(((unsigned)code & 0xff) != 0, "failure exits non-zero");
        VG_ASSERT(g.prints > 0 && g.texts > 0, "the error is printed");
    }
}

void vg_exit(int code)
{
    vg_check_end(code);
    VG_ASSUME(0);
}

static int vg_printf(const char *f, ...) { (void)f; g.prints++; return (1); }
static int vg_fprintf(FILE *s, const char *f, ...) { (void)s; (void)f; g.prints++; return (1); }
static int vg_puts(const char *f) { (void)f; g.prints++; return (1); }

int detools_apply_patch_filenames(const char *from_p, const char *patch_p, const char *to_p)
{
    g.calls++;
    g.in_place = false;
    g.a = from_p;
    g.b = patch_p;
    g.c = to_p;
    return (g.res);
}

int detools_apply_patch_in_place_filenames(const char *memory_p, const char *patch_p,
                                           detools_step_set_t step_set,
                                           detools_step_get_t step_get)
{
    VG_ASSERT(step_set == NULL && step_get == NULL, "no steps are kept by the tool");
    g.calls++;
    g.in_place = true;
    g.a = memory_p;
    g.b = patch_p;
    return (g.res);
}

const char *detools_error_as_string(int error)
{
    VG_ASSERT(g.calls == 1 && (error == g.res || error == -g.res),
              "the text is that of the error");
    g.texts++;
    return ("text");
}

#define main tool_main
#define printf vg_printf
#define fprintf vg_fprintf
#define puts vg_puts
#define exit vg_exit
#include "/repo/c/main.c"
#undef exit

static bool vg_is(const char *s_p, const char *want_p, int n)
{
    int i;

    for (i = 0; i <= n; i++) {
        if (s_p[i] != want_p[i]) {
            return (false);
        }
    }

    return (true);
}

void harness(void)
{
    static char word[40];
    static char others[8][2];
    int count;
    int i;

    __CPROVER_havoc_object(word);
    word[39] = 0;
    __CPROVER_havoc_object(&g);
    g.calls = g.prints = g.exits = g.texts = 0;
    VG_ASSUME(g.res >= -255);
    argc = count;
    VG_ASSUME(argc >= 1 && argc < 1000000);
    argv = malloc(((size_t)argc + 1) * sizeof(*argv));
    VG_ASSUME(argv != NULL);
    for (i = 0; i < 8; i++) {
        if (i < argc) {
            argv[i] = others[i];
        } else if (i == argc) {
            argv[i] = NULL;
        }
    }
    if (argc > 1) {
        argv[1] = word;
        seq_usage = (argc == 5 && vg_is(word, "apply_patch", 11));
        ip_usage = (argc == 4 && vg_is(word, "apply_patch_in_place", 20));
    }
    vg_check_end(tool_main(argc, argv));
}
