// LD_PRELOAD shim for containment cells: only one uid exists there, so chown() to another id cannot
// really happen.  The call is accepted, the requested owner is remembered per inode in /t/own.log and
// reported back by the stat family, so that what the program does with owners stays observable.
// Device nodes cannot be made either: mknod() makes a FIFO, remembers type and number per inode in
// /t/dev.log, and the stat family reports the device.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/sysmacros.h>
#include <unistd.h>

#define N 65536
static struct { unsigned long ino; int u, g, used; } tab[N];
static int logfd = -1;

static void put(unsigned long ino, int u, int g) {
  unsigned i = (ino * 2654435761u) % N;
  for (int k = 0; k < N && tab[i].used && tab[i].ino != ino; k++) i = (i + 1) % N;
  tab[i].used = 1; tab[i].ino = ino;
  if (u != -1) tab[i].u = u;
  if (g != -1) tab[i].g = g;
}
static int get(unsigned long ino, int *u, int *g) {
  unsigned i = (ino * 2654435761u) % N;
  for (int k = 0; k < N && tab[i].used; k++, i = (i + 1) % N)
    if (tab[i].ino == ino) { *u = tab[i].u; *g = tab[i].g; return 1; }
  return 0;
}
__attribute__((constructor)) static void init(void) {
  logfd = syscall(SYS_open, "/t/own.log", O_RDWR | O_APPEND | O_CLOEXEC, 0);
  if (logfd < 0) return;
  char buf[1 << 16];
  long n, have = 0;
  while ((n = read(logfd, buf + have, sizeof buf - 1 - have)) > 0) {
    have += n;
    buf[have] = 0;
    char *p = buf, *e;
    while ((e = strchr(p, '\n'))) {
      unsigned long ino; int u, g;
      if (sscanf(p, "%lu %d %d", &ino, &u, &g) == 3) put(ino, u, g);
      p = e + 1;
    }
    have = buf + have - p;
    memmove(buf, p, have);
  }
}
static struct { unsigned long ino; int type; unsigned long dev; } devs[4096];
static int ndev = 0, devfd = -1;
static void putdev(unsigned long ino, int type, unsigned long dev) {
  int i;
  for (i = 0; i < ndev && devs[i].ino != ino; i++) ;
  if (i == 4096) return;
  if (i == ndev) ndev++;
  devs[i].ino = ino; devs[i].type = type; devs[i].dev = dev;
}
static int getdev(unsigned long ino, unsigned long *dev) {
  for (int i = 0; i < ndev; i++)
    if (devs[i].ino == ino) { *dev = devs[i].dev; return devs[i].type; }
  return 0;
}
__attribute__((constructor)) static void initdev(void) {
  devfd = syscall(SYS_open, "/t/dev.log", O_RDWR | O_APPEND | O_CLOEXEC, 0);
  if (devfd < 0) return;
  char buf[1 << 16];
  long n = read(devfd, buf, sizeof buf - 1);
  if (n <= 0) return;
  buf[n] = 0;
  for (char *p = buf, *e; (e = strchr(p, '\n')); p = e + 1) {
    unsigned long ino, dev; int type;
    if (sscanf(p, "%lu %d %lu", &ino, &type, &dev) == 3) putdev(ino, type, dev);
  }
}
static void note(const struct stat *st, int u, int g) {
  put(st->st_ino, u, g);
  if (logfd >= 0) {
    char b[64];
    int l = snprintf(b, sizeof b, "%lu %d %d\n", (unsigned long)st->st_ino, u, g);
    if (write(logfd, b, l) < 0) return;
  }
}
static int rawstat(int dfd, const char *p, struct stat *st, int fl) {
  return syscall(SYS_newfstatat, dfd, p, st, fl);
}
static int chown_at(int dfd, const char *p, uid_t u, gid_t g, int fl) {
  struct stat st;
  // really give it to ourselves: fails when the file is not there, drops set-id bits as the kernel does
  if (syscall(SYS_fchownat, dfd, p, 0, 0, fl)) return -1;
  if (rawstat(dfd, p, &st, fl)) return -1;
  note(&st, (int)u, (int)g);
  return 0;
}
int chown(const char *p, uid_t u, gid_t g) { return chown_at(AT_FDCWD, p, u, g, 0); }
int lchown(const char *p, uid_t u, gid_t g) { return chown_at(AT_FDCWD, p, u, g, AT_SYMLINK_NOFOLLOW); }
int fchown(int fd, uid_t u, gid_t g) { return chown_at(fd, "", u, g, AT_EMPTY_PATH); }
int fchownat(int d, const char *p, uid_t u, gid_t g, int fl) { return chown_at(d, p, u, g, fl); }
static int fix(int r, struct stat *st) {
  int u, g, t;
  unsigned long d;
  if (r == 0 && get(st->st_ino, &u, &g)) { st->st_uid = u; st->st_gid = g; }
  if (r == 0 && S_ISFIFO(st->st_mode) && (t = getdev(st->st_ino, &d))) {
    st->st_mode = (st->st_mode & ~S_IFMT) | t;
    st->st_rdev = d;
  }
  return r;
}
int mknodat(int dfd, const char *p, mode_t m, dev_t dev) {
  struct stat st;
  int t = m & S_IFMT, dv = t == S_IFCHR || t == S_IFBLK;
  if (syscall(SYS_mknodat, dfd, p, dv ? (m & ~S_IFMT) | S_IFIFO : m, dv ? 0 : dev)) return -1;
  if ((dv || t == S_IFIFO) && devfd >= 0 && !rawstat(dfd, p, &st, AT_SYMLINK_NOFOLLOW)) {
    putdev(st.st_ino, dv ? t : 0, dev);
    char b[64];
    int l = snprintf(b, sizeof b, "%lu %d %lu\n", (unsigned long)st.st_ino, dv ? t : 0, (unsigned long)dev);
    if (write(devfd, b, l) < 0) return 0;
  }
  return 0;
}
int mknod(const char *p, mode_t m, dev_t dev) { return mknodat(AT_FDCWD, p, m, dev); }
int mkfifoat(int dfd, const char *p, mode_t m) { return mknodat(dfd, p, (m & ~S_IFMT) | S_IFIFO, 0); }
int mkfifo(const char *p, mode_t m) { return mknodat(AT_FDCWD, p, (m & ~S_IFMT) | S_IFIFO, 0); }
int stat(const char *p, struct stat *st) { return fix(rawstat(AT_FDCWD, p, st, 0), st); }
int lstat(const char *p, struct stat *st) { return fix(rawstat(AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW), st); }
int fstat(int fd, struct stat *st) { return fix(rawstat(fd, "", st, AT_EMPTY_PATH), st); }
int fstatat(int d, const char *p, struct stat *st, int fl) { return fix(rawstat(d, p, st, fl), st); }
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *sx) {
  int r = syscall(SYS_statx, d, p, fl, mask, sx), u, g, t;
  unsigned long dv;
  if (r == 0 && get(sx->stx_ino, &u, &g)) { sx->stx_uid = u; sx->stx_gid = g; }
  if (r == 0 && S_ISFIFO(sx->stx_mode) && (t = getdev(sx->stx_ino, &dv))) {
    sx->stx_mode = (sx->stx_mode & ~S_IFMT) | t;
    sx->stx_rdev_major = major(dv);
    sx->stx_rdev_minor = minor(dv);
  }
  return r;
}
