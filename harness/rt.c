/* Native side of the harness interface: replays one input file. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <grp.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *f;
static char line[65536];
/* where reports go: standard output of the process as it was at the start */
static FILE *rep_file;
#define REP (rep_file ? rep_file : stdout)
static char *next(void) {
    if (!f) {
        const char *p = getenv("RSX_INPUT");
        f = p ? fopen(p, "r") : NULL;
        if (!f) { fprintf(stderr, "no RSX_INPUT\n"); exit(76); }
    }
    while (fgets(line, sizeof line, f)) {
        char *e = line + strlen(line);
        while (e > line && (e[-1] == '\n' || e[-1] == ' ' || e[-1] == '\r')) *--e = 0;
        if (line[0] == 'S' || line[0] == 'P') return line;
    }
    fprintf(stderr, "input exhausted\n");
    exit(76);
}
void rsx_sym(uint8_t *p, size_t n) {
    char *l = next();
    if (l[0] != 'S') { fprintf(stderr, "input mismatch\n"); exit(76); }
    char *h = l + 1;
    while (*h == ' ') h++;
    if (strlen(h) != 2 * n) { fprintf(stderr, "input length mismatch\n"); exit(76); }
    for (size_t i = 0; i < n; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); p[i] = (uint8_t)v; }
}
uint32_t rsx_pick(uint32_t n) {
    char *l = next();
    if (l[0] != 'P') { fprintf(stderr, "input mismatch\n"); exit(76); }
    unsigned v = (unsigned)strtoul(l + 1, 0, 10);
    if (v >= n) exit(76);
    return v;
}
void rsx_seed(uint64_t n) { (void)n; }
void rsx_assume(uint8_t c) { if (!c) { fprintf(REP, "END assume\n"); fflush(REP); _Exit(77); } }
void rsx_note(const uint8_t *p, size_t n) {
    fprintf(REP, "NOTE ");
    for (size_t i = 0; i < n; i++) fprintf(REP, "%02x", p[i]);
    fprintf(REP, "\n");
    fflush(REP);
}
void rsx_reach(uint32_t n) { (void)n; }
void rsx_conc(uint8_t *p, size_t n) { (void)p; (void)n; }
void rsx_fail(const uint8_t *p, size_t n) {
    fprintf(REP, "FAIL %.*s\n", (int)n, (const char *)p);
    fflush(REP);
    _Exit(99);
}
uint64_t rsx_param(uint32_t i) {
    const char *p = getenv("RSX_PARAMS");
    while (p && i--) { p = strchr(p, ','); if (p) p++; }
    return p ? strtoull(p, 0, 10) : 0;
}
uint8_t rsx_symbolic(void) { return 0; }

#ifdef RSX_OS
/* ---- programs: an empty working directory, kept standard output, transfers in pieces, failures.
   The working directory is a scratch directory and the process an unprivileged one, so that
   nothing outside can be touched; the parent removes the directory. */
static int on, out_fd = -1;
static uint64_t chunk, eintr, order, fail_at, ops, transfers, failed;
static int rm1(const char *p, const struct stat *st, int fl, struct FTW *w) { (void)st; (void)fl; (void)w; return remove(p); }
static void exited(int, void *);
void rsx_files(void) {
    char dir[] = "/tmp/rsxXXXXXX";
    if (!f) {
        const char *p = getenv("RSX_INPUT");
        f = p ? fopen(p, "r") : NULL;
        if (!f) { fprintf(stderr, "no RSX_INPUT\n"); exit(76); }
    }
    if (!mkdtemp(dir)) exit(76);
    fflush(NULL);
    pid_t c = fork();
    if (c < 0) exit(76);
    if (c) {
        int st = 0;
        while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
        nftw(dir, rm1, 16, FTW_DEPTH | FTW_PHYS);
        _Exit(WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
    }
    struct rlimit l = {64 << 20, 64 << 20};
    setrlimit(RLIMIT_FSIZE, &l);
    if (chdir(dir)) _Exit(76);
    if (geteuid() == 0 && (chown(".", 65534, 65534) || setgroups(0, NULL) || setgid(65534) || setuid(65534))) _Exit(76);
    int r = dup(1);
    rep_file = fdopen(r, "w");
    out_fd = memfd_create("out", 0);
    if (!rep_file || out_fd < 0 || dup2(out_fd, 1) < 0) _Exit(76);
    on = 1;
    on_exit(exited, NULL);
}
extern void (*__init_array_start[])(int, char **, char **) __attribute__((visibility("hidden")));
extern void (*__init_array_end[])(int, char **, char **) __attribute__((visibility("hidden")));
void rsx_args(int n, char **p, char **e) {
    for (void (**i)(int, char **, char **) = __init_array_start; i < __init_array_end; i++) (*i)(n, p, e);
}
void rsx_io(uint64_t c, uint64_t e, uint64_t o, uint64_t fl) {
    chunk = c; eintr = e; order = o; fail_at = fl;
    ops = transfers = failed = 0;
}
uint64_t rsx_failed(void) { return failed; }
static uint64_t mayfail, written;
static void aborted(int sig) {
    (void)sig;
    if (!mayfail) { signal(SIGABRT, SIG_DFL); return; }
    if (mayfail == 2 && written) { fprintf(REP, "FAIL something is written before the failure\n"); fflush(REP); _Exit(99); }
    fprintf(REP, "END exit\n");
    fflush(REP);
    _Exit(0);
}
static int finished;
static void exited(int st, void *x) {
    (void)x;
    if (finished || st == 76) return;
    int bad = !mayfail ? st != 0 : st == 0 && (mayfail == 2 || failed);
    fprintf(REP, bad ? "FAIL %s\n" : "END exit\n", mayfail ? "a failure is not reported" : "the program reports a failure");
    fflush(REP);
    _Exit(bad ? 99 : 0);
}
void rsx_mayfail(uint64_t c) { mayfail = c; written = 0; signal(SIGABRT, c ? aborted : SIG_DFL); }
void rsx_done(void) { finished = 1; fprintf(REP, "END done\n"); fflush(REP); }
size_t rsx_stdout(uint8_t *p, size_t n) {
    struct stat st;
    if (!on || fstat(out_fd, &st)) return 0;
    if (n && pread(out_fd, p, n, 0) != (ssize_t)n) exit(76);
    return st.st_size;
}
static int fails(void) {
    ops++;
    if (fail_at && ops == fail_at) { failed = 1; errno = EIO; return 1; }
    return 0;
}
static int mine(int fd) { return on && fd != 0 && fd != 2 && fd != fileno(REP) && fd != fileno(f); }
int open64(const char *p, int fl, ...) {
    mode_t m = 0;
    if (fl & O_CREAT) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
    if (on && fails()) return -1;
    if (fl & 3) written = 1;
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
ssize_t read(int fd, void *p, size_t n) {
    if (mine(fd)) {
        transfers++;
        if (eintr && (transfers & 1)) { errno = EINTR; return -1; }
        if (fails()) return -1;
        if (chunk && n > chunk) n = chunk;
    }
    return syscall(SYS_read, fd, p, n);
}
ssize_t write(int fd, const void *p, size_t n) {
    if (mine(fd)) {
        transfers++;
        if (eintr && (transfers & 1)) { errno = EINTR; return -1; }
        if (fails()) return -1;
        if (chunk && n > chunk) n = chunk;
    }
    if (mine(fd)) written = 1;
    return syscall(SYS_write, fd, p, n);
}
int mkdir(const char *p, mode_t m) {
    if (on && fails()) return -1;
    written = 1;
    return (int)syscall(SYS_mkdir, p, m);
}
/* directories in an order that is given */
struct list { size_t i, n; struct dirent64 e[]; };
static int by_name(const void *a, const void *b) {
    int c = strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
    return order ? -c : c;
}
DIR *opendir(const char *p) {
    if (on && fails()) return NULL;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p, O_RDONLY | O_DIRECTORY | O_CLOEXEC, 0);
    if (fd < 0) return NULL;
    struct list *l = calloc(1, sizeof *l + 256 * sizeof(struct dirent64));
    char b[4096] __attribute__((aligned(8)));
    long k;
    while ((k = syscall(SYS_getdents64, fd, b, sizeof b)) > 0)
        for (long i = 0; i < k && l->n < 256;) {
            struct dirent64 *d = (struct dirent64 *)(b + i);
            memcpy(&l->e[l->n++], d, d->d_reclen);
            i += d->d_reclen;
        }
    syscall(SYS_close, fd);
    qsort(l->e, l->n, sizeof l->e[0], by_name);
    return (DIR *)l;
}
struct dirent64 *readdir64(DIR *d) {
    struct list *l = (struct list *)d;
    if (on && fails()) return NULL;
    return l->i < l->n ? &l->e[l->i++] : NULL;
}
int closedir(DIR *d) { free(d); return 0; }
int dirfd(DIR *d) { (void)d; return 1000; }
#endif
