/* Fault injector for C26, loaded with LD_PRELOAD. It numbers the file operations of a process
 * on files below VF_ROOT (and, with VF_STDIO, on standard input and output) and makes the
 * operation VF_AT fail in the way VF_KIND says. Everything else passes through.
 *   err    the operation fails (EIO; ENOSPC for writes)
 *   from   this and every later operation of the same sort fails
 *   eintr  reads and writes: interrupted before anything was transferred
 *   short  reads and writes: one byte is transferred
 *   half   reads and writes: half of the bytes are transferred
 *   all1   every read and write from here on transfers at most one byte
 *   all7   the same with seven bytes
 *   exit   the process ends here
 *   torn   writes: half of the bytes are transferred, then the process ends
 * With VF_SEED the system's random numbers are replaced by that seed (they only feed hash tables).
 * With VF_TRACE each operation is appended to that file: number, sort, name. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 1024
static char *names[MAXFD]; /* name below the root of a followed descriptor */
static DIR *dirs[64];
static char *dir_names[64];
static long count, at;
static int trace_fd = -1, ready, tripped;
static const char *kind = "", *root;
static size_t root_len;
static char first_sort;

static void setup(void) {
    if (ready) return;
    ready = 1;
    root = getenv("VF_ROOT");
    if (!root) return;
    root_len = strlen(root);
    const char *v = getenv("VF_AT");
    at = v ? atol(v) : 0;
    v = getenv("VF_KIND");
    kind = v ? v : "";
    v = getenv("VF_TRACE");
    if (v) trace_fd = (int)syscall(SYS_openat, AT_FDCWD, v, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    v = getenv("VF_STDIO");
    if (v) {
        names[0] = strdup("<in>");
        names[1] = strdup("<out>");
    }
}
/* the path below the root, or NULL */
static const char *below(const char *path) {
    static char buf[PATH_MAX];
    setup();
    if (!root || !path) return NULL;
    if (path[0] != '/') {
        char cwd[PATH_MAX];
        if (syscall(SYS_getcwd, cwd, sizeof cwd) < 0) return NULL;
        if ((size_t)snprintf(buf, sizeof buf, "%s/%s", cwd, path) >= sizeof buf) return NULL;
    } else {
        snprintf(buf, sizeof buf, "%s", path);
    }
    if (strncmp(buf, root, root_len) || (buf[root_len] != '/' && buf[root_len] != 0)) return NULL;
    return buf + root_len;
}
/* sorts: o open to read, c open to write, r read, w write, m make directory, d list directory,
 * n rename or unlink. 0 = go on; 1 = fail with errno set; 2 = transfer *max bytes only */
static int step(char sort, const char *name, size_t *max) {
    long k = ++count;
    if (trace_fd >= 0) {
        char line[PATH_MAX + 64];
        int n = snprintf(line, sizeof line, "%ld %c %s\n", k, sort, name);
        syscall(SYS_write, trace_fd, line, n);
    }
    if (!at || k < at) return 0;
    int rw = sort == 'r' || sort == 'w';
    if (k == at) {
        tripped = 1;
        first_sort = sort;
    }
    if (!strcmp(kind, "all1") || !strcmp(kind, "all7")) {
        size_t n = kind[3] - '0';
        if (rw && *max > n) {
            *max = n;
            return 2;
        }
        return 0;
    }
    if (!strcmp(kind, "from") ? sort != first_sort : k != at) return 0;
    if (!strcmp(kind, "err") || !strcmp(kind, "from")) {
        errno = sort == 'w' ? ENOSPC : EIO;
        return 1;
    }
    if (!strcmp(kind, "eintr")) {
        if (!rw) return 0;
        errno = EINTR;
        return 1;
    }
    if (!strcmp(kind, "short") || !strcmp(kind, "half")) {
        if (!rw || *max < 2) return 0;
        *max = kind[0] == 's' ? 1 : *max / 2;
        return 2;
    }
    if (!strcmp(kind, "exit")) syscall(SYS_exit_group, 137);
    if (!strcmp(kind, "torn")) {
        if (sort != 'w' || *max < 2) syscall(SYS_exit_group, 137);
        *max /= 2;
        return 3;
    }
    return 0;
}
static const char *followed(int fd) {
    setup();
    return fd >= 0 && fd < MAXFD ? names[fd] : NULL;
}
static void follow(int fd, const char *name) {
    if (fd >= 0 && fd < MAXFD) {
        free(names[fd]);
        names[fd] = name ? strdup(name) : NULL;
    }
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
    const char *b = dirfd == AT_FDCWD || (path && path[0] == '/') ? below(path) : NULL;
    char name[PATH_MAX];
    if (b) {
        size_t none = 0;
        snprintf(name, sizeof name, "%s", b);
        if (step((flags & O_ACCMODE) == O_RDONLY ? 'o' : 'c', name, &none) == 1) return -1;
    }
    int fd = (int)syscall(SYS_openat, dirfd, path, flags, mode);
    if (fd >= 0) follow(fd, b ? name : NULL);
    return fd;
}
#define MODE(last) \
    mode_t mode = 0; \
    if (flags & (O_CREAT | O_TMPFILE)) { \
        va_list ap; \
        va_start(ap, last); \
        mode = va_arg(ap, mode_t); \
        va_end(ap); \
    }
int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return do_open(d, path, flags, mode); }
int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) {
    setup();
    if (fd > 1) follow(fd, NULL);
    return (int)syscall(SYS_close, fd);
}
ssize_t read(int fd, void *buf, size_t n) {
    const char *f = followed(fd);
    if (f) {
        int r = step('r', f, &n);
        if (r == 1) return -1;
    }
    return syscall(SYS_read, fd, buf, n);
}
ssize_t pread(int fd, void *buf, size_t n, off_t o) {
    const char *f = followed(fd);
    if (f && step('r', f, &n) == 1) return -1;
    return syscall(SYS_pread64, fd, buf, n, o);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { return pread(fd, buf, n, o); }
ssize_t readv(int fd, const struct iovec *v, int c) {
    const char *f = followed(fd);
    if (f) {
        size_t n = 0, want;
        for (int i = 0; i < c; i++) n += v[i].iov_len;
        want = n;
        int r = step('r', f, &n);
        if (r == 1) return -1;
        if (n < want)
            for (int i = 0; i < c; i++)
                if (v[i].iov_len) return syscall(SYS_read, fd, v[i].iov_base, v[i].iov_len < n ? v[i].iov_len : n);
    }
    return syscall(SYS_readv, fd, v, c);
}
ssize_t write(int fd, const void *buf, size_t n) {
    const char *f = followed(fd);
    int r = 0;
    if (f) {
        r = step('w', f, &n);
        if (r == 1) return -1;
    }
    ssize_t w = syscall(SYS_write, fd, buf, n);
    if (r == 3) syscall(SYS_exit_group, 137);
    return w;
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t o) {
    const char *f = followed(fd);
    int r = 0;
    if (f) {
        r = step('w', f, &n);
        if (r == 1) return -1;
    }
    ssize_t w = syscall(SYS_pwrite64, fd, buf, n, o);
    if (r == 3) syscall(SYS_exit_group, 137);
    return w;
}
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return pwrite(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    const char *f = followed(fd);
    if (f) {
        size_t n = 0, want;
        for (int i = 0; i < c; i++) n += v[i].iov_len;
        want = n;
        int r = step('w', f, &n);
        if (r == 1) return -1;
        if (n < want) {
            ssize_t w = 0;
            for (int i = 0; i < c; i++)
                if (v[i].iov_len) {
                    w = syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len < n ? v[i].iov_len : n);
                    break;
                }
            if (r == 3) syscall(SYS_exit_group, 137);
            return w;
        }
    }
    return syscall(SYS_writev, fd, v, c);
}
int mkdir(const char *path, mode_t mode) {
    const char *b = below(path);
    size_t none = 0;
    if (b && step('m', b, &none) == 1) return -1;
    return (int)syscall(SYS_mkdir, path, mode);
}
int mkdirat(int d, const char *path, mode_t mode) {
    const char *b = d == AT_FDCWD || path[0] == '/' ? below(path) : NULL;
    size_t none = 0;
    if (b && step('m', b, &none) == 1) return -1;
    return (int)syscall(SYS_mkdirat, d, path, mode);
}
int rename(const char *a, const char *b) {
    const char *n = below(b);
    size_t none = 0;
    if (n && step('n', n, &none) == 1) return -1;
    return (int)syscall(SYS_rename, a, b);
}
int unlink(const char *a) {
    const char *n = below(a);
    size_t none = 0;
    if (n && step('n', n, &none) == 1) return -1;
    return (int)syscall(SYS_unlink, a);
}
int fsync(int fd) {
    const char *f = followed(fd);
    size_t none = 0;
    if (f && step('n', f, &none) == 1) return -1;
    return (int)syscall(SYS_fsync, fd);
}
int fdatasync(int fd) {
    const char *f = followed(fd);
    size_t none = 0;
    if (f && step('n', f, &none) == 1) return -1;
    return (int)syscall(SYS_fdatasync, fd);
}
/* transfers within the kernel: refused, so that the caller reads and writes */
ssize_t copy_file_range(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (!followed(a) && !followed(b)) return syscall(SYS_copy_file_range, a, x, b, y, n, f);
    errno = ENOSYS;
    return -1;
}
ssize_t sendfile(int a, int b, off_t *o, size_t n) {
    if (!followed(a) && !followed(b)) return syscall(SYS_sendfile, a, b, o, n);
    errno = EINVAL;
    return -1;
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) { return sendfile(a, b, o, n); }
ssize_t splice(int a, off64_t *x, int b, off64_t *y, size_t n, unsigned f) {
    if (!followed(a) && !followed(b)) return syscall(SYS_splice, a, x, b, y, n, f);
    errno = EINVAL;
    return -1;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    const char *v = getenv("VF_SEED");
    if (!v) return syscall(SYS_getrandom, buf, n, flags);
    unsigned long x = strtoul(v, NULL, 10) * 0x9E3779B97F4A7C15ul + 1;
    for (size_t i = 0; i < n; i++) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ((unsigned char *)buf)[i] = (unsigned char)(x >> 32);
    }
    return (ssize_t)n;
}
DIR *opendir(const char *path) {
    static DIR *(*real)(const char *);
    if (!real) real = (DIR * (*)(const char *)) dlsym(RTLD_NEXT, "opendir");
    const char *b = below(path);
    char name[PATH_MAX];
    size_t none = 0;
    if (b) {
        snprintf(name, sizeof name, "%s", b);
        if (step('d', name, &none) == 1) return NULL;
    }
    DIR *d = real(path);
    if (d && b)
        for (int i = 0; i < 64; i++)
            if (!dirs[i]) {
                dirs[i] = d;
                free(dir_names[i]);
                dir_names[i] = strdup(name);
                break;
            }
    return d;
}
static int dir_step(DIR *d) {
    size_t none = 0;
    for (int i = 0; i < 64; i++)
        if (dirs[i] == d) return step('d', dir_names[i], &none);
    return 0;
}
struct dirent64 *readdir64(DIR *d) {
    static struct dirent64 *(*real)(DIR *);
    if (!real) real = (struct dirent64 * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir64");
    if (dir_step(d) == 1) return NULL;
    return real(d);
}
struct dirent *readdir(DIR *d) {
    static struct dirent *(*real)(DIR *);
    if (!real) real = (struct dirent * (*)(DIR *)) dlsym(RTLD_NEXT, "readdir");
    if (dir_step(d) == 1) return NULL;
    return real(d);
}
int closedir(DIR *d) {
    static int (*real)(DIR *);
    if (!real) real = (int (*)(DIR *))dlsym(RTLD_NEXT, "closedir");
    for (int i = 0; i < 64; i++)
        if (dirs[i] == d) dirs[i] = NULL;
    return real(d);
}
