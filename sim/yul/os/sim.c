// Puts the operating system seen by the compiler (and the linker it starts) under the simulator:
// randomness, clocks, process ids and processor count come from a seed, heap addresses are shifted by
// it, and file operations below SIM_ROOT are numbered across all processes so that one of them can fail.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

struct shared { volatile uint64_t ops, rnd, clock; volatile uint32_t hit, full, counted[8]; volatile uint32_t logn; char log[1 << 16]; };
static struct shared *S;
static const char *root; static size_t rootlen;
static uint64_t seed = 1, fault_n; static char fault_k[16]; 
static unsigned char ours[4096]; static int child;
#define REAL(name) static __typeof__(name) *real_##name; if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static void init(void) {
  static int done; if (done) return; done = 1;
  const char *e = getenv("SIM_STATE"); root = getenv("SIM_ROOT"); rootlen = root ? strlen(root) : 0;
  if (e) { int fd = syscall(SYS_openat, AT_FDCWD, e, O_RDWR | O_CLOEXEC, 0); if (fd >= 0) { void *p = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (p != MAP_FAILED) S = p; syscall(SYS_close, fd); } }
  if ((e = getenv("SIM_SEED"))) seed = strtoull(e, 0, 10) * 0x9e3779b97f4a7c15ull + 1;
  if ((e = getenv("SIM_FAULT"))) { char *q; fault_n = strtoull(e, &q, 10); if (*q == ':') strncpy(fault_k, q + 1, sizeof fault_k - 1); }
}
__attribute__((constructor)) static void start(void) {
  init(); if (!S) return;
  child = getenv("SIM_PARENT") != 0; setenv("SIM_PARENT", "1", 1);
  size_t n = 16 + seed % 70000; void *p = malloc(n); if (p) memset(p, 1, n);          // shift the heap
  mmap(0, 4096 * (1 + (seed >> 20) % 500), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); // and the mappings
}
static uint64_t next(void) {
  uint64_t x = seed + __sync_add_and_fetch(&S->rnd, 1) * 0xbf58476d1ce4e5b9ull;
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; return x ^ x >> 31;
}
ssize_t getrandom(void *b, size_t n, unsigned f) { init(); if (!S) return syscall(SYS_getrandom, b, n, f); for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)(next() >> 24); return (ssize_t)n; }
int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
static int64_t now_ns(void) { return (int64_t)(seed % 2000000000ull) * 1000000000ll + (int64_t)__sync_add_and_fetch(&S->clock, 1) * 1000; }
int clock_gettime(clockid_t c, struct timespec *t) { init(); if (!S) return (int)syscall(SYS_clock_gettime, c, t); int64_t n = now_ns(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int gettimeofday(struct timeval *t, void *z) { struct timespec s; clock_gettime(0, &s); if (t) { t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; } return 0; }
time_t time(time_t *p) { struct timespec s; clock_gettime(0, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
pid_t getpid(void) { init(); return S ? (pid_t)(2 + seed % 32000) : (pid_t)syscall(SYS_getpid); }
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) { memset(s, 0, n); CPU_SET_S(0, n, s); return 0; }

static void crash(void) { if (child) kill(getppid(), SIGKILL); syscall(SYS_kill, (pid_t)syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
enum { K_OPEN, K_CREATE, K_READ, K_WRITE, K_RENAME, K_META, K_SPAWN };
static const char *KN[] = { "open", "create", "read", "write", "rename", "meta", "spawn" };
static void note(const char *what, const char *kind) {
  char b[64]; int n = snprintf(b, sizeof b, "%s %s\n", what, kind); uint32_t at = __sync_fetch_and_add(&S->logn, n);
  if (at + n < sizeof S->log) memcpy(S->log + at, b, n);
}
static int under(const char *p) { // relative paths are below the root by construction
  if (!root || !p) return 0; if (p[0] != '/') return 1; return strncmp(p, root, rootlen) == 0;
}
// 0: go on; -1: fail with errno set; 1: do half of it, then (for torn) end
static int point(int kind) {
  init(); if (!S || !root) return 0;
  uint64_t me = __sync_fetch_and_add(&S->ops, 1); __sync_fetch_and_add(&S->counted[kind], 1);
  int w = kind == K_CREATE || kind == K_WRITE || kind == K_META || kind == K_RENAME;
  if (S->full && w) { errno = ENOSPC; return -1; }
  if (!fault_k[0] || me < fault_n || S->hit) return 0;
  const char *k = fault_k; int r = 0;
  if (!strcmp(k, "eio")) { errno = EIO; r = -1; }
  else if (!strcmp(k, "eacces")) { if (kind == K_READ || kind == K_WRITE || kind == K_SPAWN) return 0; errno = EACCES; r = -1; }
  else if (!strcmp(k, "emfile")) { if (kind != K_OPEN && kind != K_CREATE && kind != K_SPAWN) return 0; errno = kind == K_SPAWN ? EAGAIN : EMFILE; r = -1; }
  else if (!strcmp(k, "eintr")) { if (kind != K_READ && kind != K_WRITE) return 0; errno = EINTR; r = -1; }
  else if (!strcmp(k, "enospc")) { if (!w) return 0; S->full = 1; errno = ENOSPC; r = -1; if (kind == K_WRITE) r = 2; }
  else if (!strcmp(k, "short")) { if (kind != K_WRITE && kind != K_READ) return 0; r = 1; }
  else if (!strcmp(k, "torn")) { if (kind != K_WRITE) return 0; r = 3; }
  else if (!strcmp(k, "crash")) r = 4;
  else if (!strcmp(k, "child")) { if (!child) return 0; r = 5; }
  if (!r) return 0;
  if (!__sync_bool_compare_and_swap(&S->hit, 0, 1)) return 0;
  note(KN[kind], k);
  if (r == 4) crash();
  if (r == 5) { syscall(SYS_exit_group, 1); }
  return r;
}
static void mark(int fd, int on) { if (fd >= 0 && fd < 4096) ours[fd] = (unsigned char)on; }
static int mine(int fd) { return fd >= 0 && fd < 4096 && ours[fd]; }
static int do_open(int dir, const char *p, int fl, mode_t m) {
  init(); int u = S && under(p);
  if (u && point(fl & O_CREAT ? K_CREATE : K_OPEN) < 0) return -1;
  int fd = (int)syscall(SYS_openat, dir, p, fl, m); if (fd >= 0) mark(fd, u && !(fl & O_DIRECTORY)); return fd;
}
#define MODE mode_t m = 0; if (fl & (O_CREAT | __O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); }
int open(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { MODE return do_open(AT_FDCWD, p, fl | O_LARGEFILE, m); }
int openat(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { MODE return do_open(d, p, fl | O_LARGEFILE, m); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd) { mark(fd, 0); return (int)syscall(SYS_close, fd); }
static ssize_t part(int r, int fd, const void *b, size_t n, off_t off, int pos) {
  size_t h = n / 2; ssize_t k = h ? (pos ? syscall(SYS_pwrite64, fd, b, h, off) : syscall(SYS_write, fd, b, h)) : 0;
  if (r == 3) crash();
  if (k <= 0) { if (r == 1) return pos ? syscall(SYS_pwrite64, fd, b, n, off) : syscall(SYS_write, fd, b, n); errno = ENOSPC; return -1; }
  return k;
}
ssize_t write(int fd, const void *b, size_t n) { if (mine(fd)) { int r = point(K_WRITE); if (r < 0) return -1; if (r) return part(r, fd, b, n, 0, 0); } return syscall(SYS_write, fd, b, n); }
ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) { if (mine(fd)) { int r = point(K_WRITE); if (r < 0) return -1; if (r) return part(r, fd, b, n, o, 1); } return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) { if (mine(fd)) { int r = point(K_WRITE); if (r < 0) return -1; if (r && c > 0) return part(r, fd, v[0].iov_base, v[0].iov_len, 0, 0); } return syscall(SYS_writev, fd, v, c); }
ssize_t read(int fd, void *b, size_t n) { if (mine(fd)) { int r = point(K_READ); if (r < 0) return -1; if (r == 1 && n > 1) n = (n + 1) / 2; } return syscall(SYS_read, fd, b, n); }
ssize_t pread64(int fd, void *b, size_t n, off_t o) { if (mine(fd)) { int r = point(K_READ); if (r < 0) return -1; if (r == 1 && n > 1) n = (n + 1) / 2; } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
int rename(const char *a, const char *b) { init(); if (S && under(b) && point(K_RENAME) < 0) return -1; return (int)syscall(SYS_rename, a, b); }
int mkdir(const char *p, mode_t m) { init(); if (S && under(p) && point(K_META) < 0) return -1; return (int)syscall(SYS_mkdir, p, m); }
int ftruncate64(int fd, off_t n) { if (mine(fd) && point(K_META) < 0) return -1; return (int)syscall(SYS_ftruncate, fd, n); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int posix_spawn(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) { REAL(posix_spawn); init(); if (S && point(K_SPAWN) < 0) return errno; return real_posix_spawn(p, f, a, t, v, e); }
int posix_spawnp(pid_t *p, const char *f, const posix_spawn_file_actions_t *a, const posix_spawnattr_t *t, char *const v[], char *const e[]) { REAL(posix_spawnp); init(); if (S && point(K_SPAWN) < 0) return errno; return real_posix_spawnp(p, f, a, t, v, e); }
