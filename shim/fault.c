/* LD_PRELOAD library that lets reads fail. WFAULT is a list of rules separated by ';':
 *   <substring of path>,<what>,<nth>,<times>,<errno>
 * what: open   the opens nth .. nth+times-1 (counted from 1, per path rule) fail with errno
 *       read   within each of the opens nth .. nth+times-1, reading fails once <offset> bytes were delivered;
 *              written as read@<offset>
 *       intr   every read is interrupted (EINTR) once before it succeeds
 *       short  reads deliver at most <errno> bytes (the last field is the size)
 *       write  writing fails with errno once <offset> bytes were accepted; written as write@<offset>
 *       wintr  every write is interrupted (EINTR) once before it succeeds
 *       wshort writes accept at most <errno> bytes
 *       (the path STDOUT stands for the standard output)
 *       eof    within the opens nth .. nth+times-1 reading ends at <offset> (eof@<offset>)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXR 64
#define MAXFD 4096
struct rule { char sub[256]; char what[16]; long off, nth, times, err; long opens; };
static struct rule rules[MAXR];
static int nrules = -1;
struct fdinfo { int used; int rule[MAXR]; int openno[MAXR]; int n; long pos; int intr; };
static struct fdinfo fds[MAXFD];
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static int (*r_open)(const char *, int, ...);
static int (*r_open64)(const char *, int, ...);
static int (*r_openat)(int, const char *, int, ...);
static ssize_t (*r_read)(int, void *, size_t);
static int (*r_close)(int);
static ssize_t (*r_write)(int, const void *, size_t);

static void init(void) {
    if (nrules >= 0) return;
    pthread_mutex_lock(&mu);
    if (nrules < 0) {
        int n = 0;
        r_open = dlsym(RTLD_NEXT, "open");
        r_open64 = dlsym(RTLD_NEXT, "open64");
        r_openat = dlsym(RTLD_NEXT, "openat");
        r_read = dlsym(RTLD_NEXT, "read");
        r_close = dlsym(RTLD_NEXT, "close");
        const char *e = getenv("WFAULT");
        if (e) {
            char *copy = strdup(e), *save = 0;
            for (char *t = strtok_r(copy, ";", &save); t && n < MAXR; t = strtok_r(0, ";", &save)) {
                struct rule *r = &rules[n];
                char what[64];
                if (sscanf(t, "%255[^,],%63[^,],%ld,%ld,%ld", r->sub, what, &r->nth, &r->times, &r->err) == 5) {
                    char *at = strchr(what, '@');
                    if (at) { r->off = atol(at + 1); *at = 0; }
                    strncpy(r->what, what, sizeof r->what - 1);
                    n++;
                }
            }
            free(copy);
        }
        r_write = dlsym(RTLD_NEXT, "write");
        for (int i = 0; i < n; i++)
            if (!strcmp(rules[i].sub, "STDOUT")) { fds[1].used = 1; fds[1].rule[fds[1].n++] = i; }
        __sync_synchronize();
        nrules = n;
    }
    pthread_mutex_unlock(&mu);
}

/* returns an errno if the open has to fail */
static int before(const char *path, struct fdinfo *fi) {
    memset(fi, 0, sizeof *fi);
    if (!path) return 0;
    int fail = 0;
    pthread_mutex_lock(&mu);
    const char *log = getenv("WFAULT_LOG");
    if (log && strstr(path, ".gz")) {
        int l = r_open(log, O_WRONLY | O_CREAT | O_APPEND, 0600);
        if (l >= 0) {
            char line[4096];
            int k = snprintf(line, sizeof line, "%s\n", path);
            if (r_write(l, line, k) < 0) {}
            r_close(l);
        }
    }
    for (int i = 0; i < nrules; i++) {
        struct rule *r = &rules[i];
        if (!strstr(path, r->sub)) continue;
        long k = ++r->opens;
        int in = k >= r->nth && k < r->nth + r->times;
        if (in && !strcmp(r->what, "open")) { if (!fail) fail = r->err; continue; }
        if (in && strcmp(r->what, "open")) { fi->used = 1; fi->rule[fi->n++] = i; }
    }
    pthread_mutex_unlock(&mu);
    return fail;
}

static int after(int fd, struct fdinfo *fi) {
    if (fd >= 0 && fd < MAXFD) {
        pthread_mutex_lock(&mu);
        fds[fd] = *fi;
        pthread_mutex_unlock(&mu);
    }
    return fd;
}

#define OPENER(name, real)                                           \
    int name(const char *path, int flags, ...) {                     \
        init();                                                      \
        mode_t mode = 0;                                             \
        if (flags & (O_CREAT | O_TMPFILE)) {                         \
            va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); \
        }                                                            \
        struct fdinfo fi;                                            \
        int e = before(path, &fi);                                   \
        if (e) { errno = e; return -1; }                             \
        return after(real(path, flags, mode), &fi);                  \
    }
OPENER(open, r_open)
OPENER(open64, r_open64)

int openat(int dir, const char *path, int flags, ...) {
    init();
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    struct fdinfo fi;
    int e = before(path, &fi);
    if (e) { errno = e; return -1; }
    return after(r_openat(dir, path, flags, mode), &fi);
}

int close(int fd) {
    init();
    if (fd >= 0 && fd < MAXFD) { pthread_mutex_lock(&mu); fds[fd].used = 0; pthread_mutex_unlock(&mu); }
    return r_close(fd);
}

ssize_t read(int fd, void *buf, size_t n) {
    init();
    if (fd < 0 || fd >= MAXFD || !fds[fd].used) return r_read(fd, buf, n);
    struct fdinfo *f = &fds[fd];
    for (int j = 0; j < f->n; j++) {
        struct rule *r = &rules[f->rule[j]];
        if (!strcmp(r->what, "intr")) {
            f->intr = !f->intr;
            if (f->intr) { errno = EINTR; return -1; }
        } else if (!strcmp(r->what, "short")) {
            if (n > (size_t)r->err) n = r->err;
        } else if (!strcmp(r->what, "read")) {
            if (f->pos >= r->off) { errno = r->err; return -1; }
            if (n > (size_t)(r->off - f->pos)) n = r->off - f->pos;
        } else if (!strcmp(r->what, "eof")) {
            if (f->pos >= r->off) return 0;
            if (n > (size_t)(r->off - f->pos)) n = r->off - f->pos;
        }
    }
    ssize_t k = r_read(fd, buf, n);
    if (k > 0) f->pos += k;
    return k;
}

ssize_t write(int fd, const void *buf, size_t n) {
    init();
    if (fd < 0 || fd >= MAXFD || !fds[fd].used) return r_write(fd, buf, n);
    struct fdinfo *f = &fds[fd];
    for (int j = 0; j < f->n && n > 0; j++) {
        struct rule *r = &rules[f->rule[j]];
        if (!strcmp(r->what, "wintr")) {
            f->intr = !f->intr;
            if (f->intr) { errno = EINTR; return -1; }
        } else if (!strcmp(r->what, "wshort")) {
            if (n > (size_t)r->err) n = r->err;
        } else if (!strcmp(r->what, "write")) {
            if (f->pos >= r->off) { errno = r->err; return -1; }
            if (n > (size_t)(r->off - f->pos)) n = r->off - f->pos;
        }
    }
    ssize_t k = r_write(fd, buf, n);
    if (k > 0) f->pos += k;
    return k;
}

/* as several writes, of which the first one counts */
ssize_t writev(int fd, const struct iovec *v, int n) {
    for (int i = 0; i < n; i++)
        if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
    return 0;
}
