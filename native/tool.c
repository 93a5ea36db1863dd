/* The command line tool with the file interface replaced by records. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "detools.h"
int tool_main(int argc, const char *argv[]);
static int g_fd;
static int g_res;
static void record(const char *f, const char *a, const char *b, const char *c)
{
    char t[256];
    int n = snprintf(t, sizeof t, "%s(%s,%s,%s)\n", f, a ? a : "-", b ? b : "-", c ? c : "-");
    if (write(g_fd, t, (size_t)n) != n) _exit(99);
}
int detools_apply_patch_filenames(const char *a, const char *b, const char *c)
{
    record("seq", a, b, c);
    return g_res;
}
int detools_apply_patch_in_place_filenames(const char *a, const char *b, detools_step_set_t s, detools_step_get_t g)
{
    record("inplace", a, b, s || g ? "steps" : "-");
    return g_res;
}
const char *detools_error_as_string(int e) { return e ? "ERRTEXT" : "no error"; }

static void one(int argc, const char **argv, int res, const char *want)
{
    int rec[2], out[2], st;
    char a[512] = {0}, b[2048] = {0};
    if (pipe(rec) || pipe(out)) _exit(3);
    pid_t p = fork();
    if (p == 0) {
        g_fd = rec[1];
        g_res = res;
        dup2(out[1], 1);
        dup2(out[1], 2);
        exit(tool_main(argc, argv));
    }
    close(rec[1]);
    close(out[1]);
    waitpid(p, &st, 0);
    if (read(rec[0], a, sizeof a - 1) < 0 || read(out[0], b, sizeof b - 1) < 0) _exit(3);
    close(rec[0]);
    close(out[0]);
    int bad = 0;
    if (strcmp(a, want)) bad = 1;
    if (!WIFEXITED(st)) bad = 2;
    else if (*want && (WEXITSTATUS(st) == 0) != (res >= 0)) bad = 3;
    else if (!*want && WEXITSTATUS(st) == 0) bad = 4;
    else if (*want && res < 0 && !strstr(b, "ERRTEXT")) bad = 5;
    else if (!*want && !*b) bad = 6;
    if (bad) {
        static const char *text[] = {"", "called other than documented", "crashed", "exit status does not tell success from failure",
                                     "wrong usage exits zero", "error not printed", "usage not printed"};
        int i;
        printf("VIOL C15 %s\n  case tool", text[bad]);
        for (i = 0; i < argc; i++) printf(" %s", argv[i]);
        printf(" with result %d: status %x, calls %s, output %s\n", res, st, a, b);
        exit(1);
    }
}

int main(void)
{
    static const int results[] = {0, 1, 2, 127, 128, 255, 256, 512, 65536, 1 << 24, 0x7fffffff};
    static const char *words[] = {"apply_patch", "apply_patch_in_place", "apply_patc", "apply_patch ", "", "create", "-h", "APPLY_PATCH", "apply_patch_in_place2"};
    const char *v[8] = {"detools", 0, "A", "B", "C", "D", "E", 0};
    int n = 0, argc, w, i;
    for (argc = 1; argc <= 7; argc++) {
        for (w = 0; w < 9; w++) {
            for (i = 0; i < 11 + 27; i++) {
                const char *x[9];
                int res = i < 11 ? results[i] : -(i - 10);
                const char *want = "";
                memcpy(x, v, sizeof v);
                x[8] = 0;
                x[1] = words[w];
                x[argc] = 0;
                if (w == 0 && argc == 5) want = "seq(A,B,C)\n";
                if (w == 1 && argc == 4) want = "inplace(A,B,-)\n";
                if (!*want && i > 2) continue;
                one(argc, x, res, want);
                n++;
            }
        }
    }
    printf("DONE tool %d cases\n", n);
    return 0;
}
