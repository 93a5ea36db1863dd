/* The file interface against every combination of results of the standard
   library's file functions and of the callback interface (unit callbacks).
   The stub of the callback interface performs one arbitrary callback of
   those it is given, from the state in which it is called; as the callbacks
   do not change that state (checked), this stands for any number of them.
   VG_IN_PLACE selects the in-place function. */
#include "vg.h"
#include "/repo/c/detools.h"

enum { FROM, TO, PATCH, FILES };

#ifdef VG_IN_PLACE
#    define VG_WHENCE SEEK_SET
#else
#    define VG_WHENCE SEEK_CUR
#endif

static char name[FILES];          /* file names, by address */
static char handle[FILES];        /* open files, by address */

static struct {
    bool writable[FILES];
    int opened[FILES];
    int closed[FILES];
    bool failed;                  /* an operation of the function itself */
    bool close_failed;
    long told;
    int applies;
    int apply_res;
    bool open_fails[FILES];
    bool close_fails[FILES];
    int seek_res;
    size_t moved;                 /* bytes asked of fread or fwrite */
    uint8_t *buf;
    int which;
    bool io_bad;                  /* an operation below a callback */
    bool in_callback;
    int ios;
    long pos;
    bool positioned;
} g;

static int vg_file(FILE *f_p)
{
    int i = ((char *)f_p == &handle[FROM] ? FROM
             : (char *)f_p == &handle[TO] ? TO : PATCH);

    VG_ASSERT((char *)f_p == &handle[i], "only files that were opened are used");
    VG_ASSERT(g.opened[i] == 1 && g.closed[i] == 0, "no file is used after it was closed");
    return (i);
}

FILE *vg_fopen(const char *name_p, const char *mode_p)
{
    int i = (name_p == &name[FROM] ? FROM : name_p == &name[TO] ? TO : PATCH);

    VG_ASSERT(name_p == &name[i], "files are opened by the names given");
    VG_ASSERT(g.opened[i] == 0, "every file is opened once");
    g.writable[i] = (mode_p[0] != 'r' || mode_p[1] == '+'
                     || (mode_p[1] != 0 && mode_p[2] == '+'));
#ifdef VG_IN_PLACE
    VG_ASSERT(i != FROM, "names");
    VG_ASSERT(i == PATCH ? !g.writable[i] : g.writable[i] && mode_p[0] == 'r',
              "memory is kept and written, the patch only read");
#else
    VG_ASSERT(i == TO ? mode_p[0] == 'w' : !g.writable[i],
              "the new image is created, the old one and the patch only read");
#endif
    if (g.open_fails[i]) {
        g.failed = true;
        return (NULL);
    }
    g.opened[i]++;
    return ((FILE *)&handle[i]);
}

int vg_fclose(FILE *f_p)
{
    int i = vg_file(f_p);

    g.closed[i]++;
    if (g.close_fails[i]) {
        g.close_failed = true;
        return (EOF);
    }
    return (0);
}

int vg_fseek(FILE *f_p, long offset, int whence)
{
    int res;
    int i = vg_file(f_p);

    if (g.in_callback) {
        if (res != 0) {
            g.io_bad = true;
        } else {
            g.which = i;
            g.pos = offset;
            g.positioned = (whence == VG_WHENCE);
        }
    } else if (res != 0) {
        g.failed = true;
    }
    return (res);
}

long vg_ftell(FILE *f_p)
{
    long res;

    (void)vg_file(f_p);
    g.told = res;
    if (res <= 0) {
        g.failed = true;
    }
    return (res);
}

static size_t vg_io(FILE *f_p, const void *buf_p, size_t size, size_t count)
{
    size_t res;

    VG_ASSERT(g.in_callback, "data is moved by callbacks only");
    VG_ASSERT(g.ios == 0, "one operation per callback");
    g.ios++;
    g.which = vg_file(f_p);
    VG_ASSERT(size == 1 || count == 1, "sizes");
    g.moved = size * count;
    g.buf = (uint8_t *)buf_p;
    VG_ASSUME(res <= count);
    if (res != count) {
        g.io_bad = true;
    }
    return (res);
}

size_t vg_fread(void *buf_p, size_t size, size_t count, FILE *f_p)
{
    return (vg_io(f_p, buf_p, size, count));
}

size_t vg_fwrite(const void *buf_p, size_t size, size_t count, FILE *f_p)
{
    size_t res = vg_io(f_p, buf_p, size, count);

    VG_ASSERT(g.writable[g.which], "only files opened for writing are written");
    return (res);
}

#define fopen vg_fopen
#define fclose vg_fclose
#define fseek vg_fseek
#define ftell vg_ftell
#define fread vg_fread
#define fwrite vg_fwrite
#include "/repo/c/detools.c"

static void vg_begin(void)
{
    g.in_callback = true;
    g.ios = 0;
    g.io_bad = false;
    g.positioned = false;
    g.which = -1;
}

static void vg_end(int res)
{
    g.in_callback = false;
    VG_ASSERT((res != 0) == g.io_bad, "a callback fails exactly when its file operation does");
    if (res != 0) {
        /* Unit callbacks: a failed callback is a negative result. */
        VG_ASSUME(g.apply_res < 0);
    }
}

static void vg_moved(int res, int file, const void *buf_p, size_t size)
{
    VG_ASSERT(res != 0 || (size == 0 ? g.ios == 0 || g.moved == 0
                           : g.ios == 1 && g.which == file && g.moved == size
                             && g.buf == buf_p),
              "all bytes asked for are moved, from or to the right file");
}

#ifdef VG_IN_PLACE
int vg_apply(detools_mem_read_t mem_read, detools_mem_write_t mem_write,
             detools_mem_erase_t mem_erase, detools_step_set_t step_set,
             detools_step_get_t step_get, detools_read_t patch_read,
             size_t patch_size, void *arg_p)
{
    struct in_place_file_io_t before = *(struct in_place_file_io_t *)arg_p;
    struct in_place_file_io_t *after_p = arg_p;
#else
int vg_apply(detools_read_t from_read, detools_seek_t from_seek, detools_read_t patch_read,
             size_t patch_size, detools_write_t to_write, void *arg_p)
{
    struct file_io_t before = *(struct file_io_t *)arg_p;
    struct file_io_t *after_p = arg_p;
#endif
    int choice;
    int res;
    int offset;
    size_t size;
    uint8_t buf[1];

    VG_ASSERT(!g.failed, "nothing is applied after a failure");
    VG_ASSERT((long)patch_size == g.told, "patch size as the file system tells");
    VG_ASSERT(g.opened[TO] == 1 && g.opened[PATCH] == 1 && g.closed[TO] == 0
              && g.closed[PATCH] == 0, "files are open");
    g.applies++;
    VG_ASSUME(size <= VG_MAX27);
    vg_begin();
    res = 0;
    switch (choice) {
#ifdef VG_IN_PLACE
    case 0:
        VG_ASSUME(offset >= 0);
        VG_COVER("memory read");
        res = mem_read(arg_p, &buf[0], (uintptr_t)offset, size);
        vg_moved(res, TO, &buf[0], size);
        VG_ASSERT(res != 0 || size == 0 || (g.positioned && g.pos == offset),
                  "read from the address asked for");
        break;
    case 1:
        VG_ASSUME(offset >= 0);
        VG_COVER("memory write");
        res = mem_write(arg_p, (uintptr_t)offset, &buf[0], size);
        vg_moved(res, TO, &buf[0], size);
        VG_ASSERT(res != 0 || size == 0 || (g.positioned && g.pos == offset),
                  "written to the address asked for");
        break;
    case 2:
        res = mem_erase(arg_p, (uintptr_t)offset, size);
        break;
#else
    case 0:
        VG_COVER("old image read");
        res = from_read(arg_p, &buf[0], size);
        vg_moved(res, FROM, &buf[0], size);
        break;
    case 1:
        VG_COVER("seek");
        res = from_seek(arg_p, offset);
        VG_ASSERT(res != 0 || (g.positioned && g.which == FROM && g.pos == offset),
                  "the old image is positioned");
        break;
    case 2:
        VG_COVER("new image written");
        res = to_write(arg_p, &buf[0], size);
        vg_moved(res, TO, &buf[0], size);
        break;
#endif
    case 3:
        VG_COVER("patch read");
        res = patch_read(arg_p, &buf[0], size);
        vg_moved(res, PATCH, &buf[0], size);
        break;
    default:
        break;
    }
    vg_end(res);
#ifdef VG_IN_PLACE
    VG_ASSERT(before.fmemory_p == after_p->fmemory_p && before.fpatch_p == after_p->fpatch_p,
              "callbacks keep the files");
#else
    VG_ASSERT(before.ffrom_p == after_p->ffrom_p && before.fto_p == after_p->fto_p
              && before.fpatch_p == after_p->fpatch_p, "callbacks keep the files");
#endif
    return (g.apply_res);
}

void harness(void)
{
    int res;
    int i;

    __CPROVER_havoc_object(&g);
    for (i = 0; i < FILES; i++) {
        g.opened[i] = g.closed[i] = 0;
    }
    g.failed = g.close_failed = g.in_callback = g.io_bad = false;
    g.applies = g.ios = 0;

#ifdef VG_IN_PLACE
    res = detools_apply_patch_in_place_filenames(&name[TO], &name[PATCH], NULL, NULL);
#else
    res = detools_apply_patch_filenames(&name[FROM], &name[PATCH], &name[TO]);
#endif

    for (i = 0; i < FILES; i++) {
        VG_ASSERT(g.closed[i] == g.opened[i], "every file opened is closed exactly once");
    }
    if (g.failed) {
        VG_COVER("a file operation fails");
        VG_ASSERT(res < 0, "a failing file operation is reported");
        VG_ASSERT(g.applies == 0, "nothing is applied");
    } else {
        VG_ASSERT(g.applies == 1, "the patch is applied once");
        if (g.apply_res < 0) {
            VG_COVER("patch not applied");
            VG_ASSERT(res == g.apply_res, "the error is passed on");
        } else if (g.close_failed) {
            VG_COVER("close fails");
            VG_ASSERT(res == -DETOOLS_FILE_CLOSE_FAILED, "failing close is reported");
        } else {
            VG_COVER("success");
            VG_ASSERT(res == g.apply_res, "the size of the new image is passed on");
        }
    }
}
