/* Monitor of the NetCDF C library, interposed with LD_PRELOAD.
 *
 * The library (with HDF5 below it) is not thread safe: no two threads of a
 * process may be inside it at once, and no two workers may have one output
 * file open for writing at once.  Every call made through netCDF4-python is
 * counted; a call that is entered while another thread is inside is logged as
 * OVERLAP.  Delays are injected inside the calls, which widens the windows.
 * Writable files are logged with the times they were open, so that overlaps
 * between processes can be found offline.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static void *lib;
static char libname[4096];
static int logfd = -1;
static long delay_us = 0;
static unsigned seed0 = 1;
static atomic_int inside;
static atomic_long calls, overlaps, contended;
/* fault injection: what happens to the fail_at-th operation on a file */
static atomic_long opcount, fail_at;
static int fail_act;            /* 1 error, 2 killed before, 3 killed after */
static char fail_name[64];
static const char *opnames[16384];
static _Atomic(const char *) last;
static atomic_long last_tid;
static atomic_long tids[256];
static __thread int depth;
static __thread unsigned rs;

static long gettid_(void) { return syscall(SYS_gettid); }

static double now(void)
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

static void say(const char *fmt, const char *a, long b, const char *c, long d,
                double e)
{
    if (logfd < 0) return;
    char buf[2048];
    int n = snprintf(buf, sizeof buf, fmt, a, b, c, d, e);
    if (n > (int) sizeof buf) n = sizeof buf;
    if (write(logfd, buf, n) < 0) { }
}

void ncmon_start(const char *path, long us, unsigned seed)
{
    if (logfd >= 0) close(logfd);
    logfd = open(path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    delay_us = us;
    seed0 = seed;
    calls = 0; overlaps = 0; contended = 0; inside = 0;
    for (int i = 0; i < 256; i++) tids[i] = 0;
}

void ncmon_fail(long n, int act) { opcount = 0; fail_at = n; fail_act = act;
                                  fail_name[0] = 0; }
long ncmon_ops(void) { return opcount; }
const char *ncmon_op(long i)
{ return i < 16384 && opnames[i] ? opnames[i] : ""; }
const char *ncmon_failed(void) { return fail_name; }
long ncmon_calls(void) { return calls; }
long ncmon_overlaps(void) { return overlaps; }
long ncmon_threads(void)
{
    long n = 0;
    for (int i = 0; i < 256; i++) n += tids[i] != 0;
    return n;
}

static void after_fork(void) { inside = 0; depth = 0; }

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("NCMON_LOG"), *d = getenv("NCMON_DELAY"),
               *s = getenv("NCMON_SEED");
    pthread_atfork(NULL, NULL, after_fork);
    const char *fa = getenv("NCMON_FAIL_AT"), *ac = getenv("NCMON_FAIL_ACT");
    if (fa && *fa) ncmon_fail(atol(fa), ac ? atoi(ac) : 1);
    if (p && *p)
        ncmon_start(p, d ? atol(d) : 0, s ? (unsigned) atol(s) : 1);
}

static int find(struct dl_phdr_info *i, size_t n, void *x)
{
    const char *b = strrchr(i->dlpi_name, '/');
    if (b && !strncmp(b, "/libnetcdf", 10)) {
        strncpy(libname, i->dlpi_name, sizeof libname - 1);
        return 1;
    }
    return 0;
}

static void *sym(const char *name)
{
    if (!lib) {
        dl_iterate_phdr(find, NULL);
        if (*libname) lib = dlopen(libname, RTLD_LAZY | RTLD_NOLOAD);
    }
    void *p = lib ? dlsym(lib, name) : NULL;
    if (!p) p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "ncmon: %s not found\n", name); _exit(97); }
    return p;
}

static int enter(const char *name)
{
    if (depth++) return 0;
    calls++;
    long me = gettid_();
    for (int i = 0; i < 256; i++) {
        if (tids[i] == me) break;
        long z = 0;
        if (atomic_compare_exchange_strong(&tids[i], &z, me)) break;
    }
    const char *ot = last;
    long otid = last_tid;
    if (atomic_fetch_add(&inside, 1) > 0) {
        if (overlaps++ < 20)
            say("OVERLAP %s tid%ld while %s tid%ld inside %.6f\n", name, me,
                ot ? ot : "?", otid, now());
    }
    last = name;
    last_tid = me;
    if (delay_us > 0) {
        if (!rs) rs = seed0 * 2654435761u + (unsigned) me * 40503u + 1;
        unsigned r = rand_r(&rs) % 16;
        long us = 0;
        if (r == 0) us = rand_r(&rs) % (delay_us + 1);
        else if (r < 3) us = rand_r(&rs) % (delay_us / 20 + 1);
        if (us) usleep(us);
    }
    return 1;
}

static void leave(void)
{
    if (--depth) return;
    atomic_fetch_sub(&inside, 1);
}

#include <signal.h>
/* returns 1 if the operation is to be reported as failed */
static int fault(const char *name)
{
    if (depth != 1) return 0;
    long k = atomic_fetch_add(&opcount, 1);
    if (k < 16384) opnames[k] = name;
    if (k + 1 != fail_at) return 0;
    strncpy(fail_name, name, sizeof fail_name - 1);
    if (logfd >= 0) say("FAULT %s %ld %s %ld %.6f\n", name, (long) fail_at,
                        "act", (long) fail_act, now());
    if (fail_act == 2) kill(getpid(), SIGKILL);
    return fail_act;
}
static void fault_after(int f) { if (f == 3) kill(getpid(), SIGKILL); }
#define EHDFERR (-101)
#define EIO_ 5
#define ENOSPC_ 28

struct wf { int id; double t0; char path[1024]; };
static struct wf wfs[256];
static pthread_mutex_t wm = PTHREAD_MUTEX_INITIALIZER;

static void opened(int id, const char *path)
{
    pthread_mutex_lock(&wm);
    for (int i = 0; i < 256; i++)
        if (!wfs[i].path[0]) {
            wfs[i].id = id;
            wfs[i].t0 = now();
            strncpy(wfs[i].path, path, 1023);
            break;
        }
    pthread_mutex_unlock(&wm);
}

static int writable(int id)
{
    int r = 0;
    pthread_mutex_lock(&wm);
    for (int i = 0; i < 256; i++)
        if (wfs[i].path[0] && wfs[i].id == id) r = 1;
    pthread_mutex_unlock(&wm);
    return r;
}

static void closing(int id)
{
    pthread_mutex_lock(&wm);
    for (int i = 0; i < 256; i++)
        if (wfs[i].path[0] && wfs[i].id == id) {
            char b[2048];
            int n = snprintf(b, sizeof b, "W %d %ld %.6f %.6f %s\n",
                             (int) getpid(), gettid_(), wfs[i].t0, now(),
                             wfs[i].path);
            if (logfd >= 0 && write(logfd, b, n) < 0) { }
            wfs[i].path[0] = 0;
            break;
        }
    pthread_mutex_unlock(&wm);
}

#define A10 long a, long b, long c, long d, long e, long f, long g, long h, \
            long i, long j
#define P10 a, b, c, d, e, f, g, h, i, j
#define REAL(name) \
    static long (*real)(A10); \
    if (!real) real = (long (*)(A10)) sym(#name)
#define WRAP(name) \
    long name(A10) { REAL(name); enter(#name); \
        long r = real(P10); leave(); return r; }
#define WRAPF(name) \
    long name(A10) { REAL(name); enter(#name); int q = fault(#name); \
        long r = q == 1 ? EHDFERR : real(P10); fault_after(q); \
        leave(); return r; }

long nc_open(A10)
{
    REAL(nc_open);
    int o = enter("nc_open"), q = fault("nc_open");
    long r = q == 1 ? EIO_ : real(P10);
    fault_after(q);
    if (o && (int) r == 0 && (b & 1)) opened(*(int *) c, (const char *) a);
    leave();
    return r;
}

long nc_create(A10)
{
    REAL(nc_create);
    int o = enter("nc_create"), q = fault("nc_create");
    long r = q == 1 ? ENOSPC_ : real(P10);
    fault_after(q);
    if (o && (int) r == 0) opened(*(int *) c, (const char *) a);
    leave();
    return r;
}

long nc_close(A10)
{
    REAL(nc_close);
    int o = enter("nc_close");
    /* closing a file that was only read can't lose anything */
    int q = writable((int) a) ? fault("nc_close") : 0;
    if (o && q != 1) closing((int) a);
    /* a file that can't be closed stays open */
    long r = q == 1 ? EHDFERR : real(P10);
    fault_after(q);
    leave();
    return r;
}

long nc_put_vara(A10)
{
    REAL(nc_put_vara);
    enter("nc_put_vara");
    if (logfd >= 0) {
        const size_t *s = (const size_t *) c;
        char x[1200] = "?";
        pthread_mutex_lock(&wm);
        for (int q = 0; q < 256; q++)
            if (wfs[q].path[0] && wfs[q].id == (int) (a & ~0xffffL)) {
                const char *k = strrchr(wfs[q].path, '/');
                strncpy(x, k ? k + 1 : wfs[q].path, 1000);
                break;
            }
        pthread_mutex_unlock(&wm);
        say("P %s %ld %s %ld %.6f\n", x, (long) b, "at",
            s ? (long) (s[0] * 1000) : -1, now());
    }
    int q = fault("nc_put_vara");
    long r = q == 1 ? EHDFERR : real(P10);
    fault_after(q);
    leave();
    return r;
}

#include "ncmon_wrap.h"
