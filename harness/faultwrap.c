/* Replaces kos_seq_fail() (linked with --wrap) so that faults can be injected at chosen points:
 * a window of VFAIL_LEN consecutive fault points starting at point VFAIL_AT fails.  The window is set from
 * the environment for a whole process, or by the program itself through getenv("VFAIL:..."):
 *   "VFAIL:arm AT LEN"  starts counting fault points now
 *   "VFAIL:off"         stops, returns "<points> <failed>"
 *
 * Reading an element of an array has no cause to fail, its fault point is a test hook only: it is left out.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

char *__real_getenv(const char *name);
int   __wrap_kos_seq_fail(void);
char *__wrap_getenv(const char *name);

static int           mode;          /* 0 - not initialised, 1 - off, 2 - armed */
static long          at, len;
static volatile long count, fired;
static char          text[64];
static __thread int  quiet;

static void report(void)
{
    const char *path = __real_getenv("VFAIL_REPORT");
    FILE       *f    = path ? fopen(path, "w") : 0;
    if (f) {
        fprintf(f, "%ld %ld\n", count, fired);
        fclose(f);
    }
}

int __wrap_kos_seq_fail(void)
{
    long n;

    if ( ! mode) {
        const char *a = __real_getenv("VFAIL_AT");
        const char *l = __real_getenv("VFAIL_LEN");
        mode = 1;
        if (a) {
            at    = strtol(a, 0, 10);
            len   = l ? strtol(l, 0, 10) : 1;
            count = 0;
            mode  = 2;
            if (__real_getenv("VFAIL_REPORT"))
                atexit(report);
        }
    }

    if (mode != 2 || quiet)
        return 0;

    n = __sync_fetch_and_add(&count, 1);
    if (n >= at && n - at < len) {
        __sync_fetch_and_add(&fired, 1);
        return 10;
    }
    return 0;
}

char *__wrap_getenv(const char *name)
{
    if ( ! strncmp(name, "VFAIL:", 6)) {
        if ( ! strncmp(name + 6, "arm ", 4)) {
            char *end;
            at    = strtol(name + 10, &end, 10);
            len   = strtol(end, 0, 10);
            count = 0;
            fired = 0;
            mode  = 2;
            return 0;
        }
        mode = 1;
        snprintf(text, sizeof(text), "%ld %ld", count, fired);
        return text;
    }
    return __real_getenv(name);
}

uint64_t __real_KOS_array_read(void *ctx, uint64_t obj, int idx);
uint64_t __wrap_KOS_array_read(void *ctx, uint64_t obj, int idx);

uint64_t __wrap_KOS_array_read(void *ctx, uint64_t obj, int idx)
{
    const int old = quiet;
    uint64_t  ret;
    quiet = 1;
    ret   = __real_KOS_array_read(ctx, obj, idx);
    quiet = old;
    return ret;
}
