// trc: run a program and stop, kill or disturb it at its Nth file-changing system call.
//   trc -c            count: only counts
//   trc -k N          SIGKILL just before the Nth call
//   trc -e N:ERRNO    the Nth call fails with ERRNO without being carried out
//   trc -E N:ERRNO    the Nth and all later calls of the same kind fail (full disk)
//   trc -s N:SIG      send the signal SIG just before the Nth call
//   trc -p N          stop before the Nth call, write "P" to the -o fd, read one byte from the -i fd: 'c' go on, 'k' kill
// Counted: calls of the program itself (not of the programs it starts) that create, change, rename or
// remove files, and with -l also flock.  the -o fd gets "E <count> <last call number>" at the end.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

static int locks;
static int interesting(struct user_regs_struct *r) {
  switch (r->orig_rax) {
    case SYS_open: return (r->rsi & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    case SYS_openat: return (r->rdx & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) != 0;
    case SYS_write: case SYS_writev: case SYS_pwrite64: return r->rdi > 2;
    case SYS_creat: case SYS_rename: case SYS_renameat: case SYS_renameat2: case SYS_unlink: case SYS_unlinkat: case SYS_mkdir:
    case SYS_mkdirat: case SYS_rmdir: case SYS_symlink: case SYS_symlinkat: case SYS_link: case SYS_linkat: case SYS_chmod: case SYS_fchmod:
    case SYS_fchmodat: case SYS_chown: case SYS_lchown: case SYS_fchown: case SYS_fchownat: case SYS_utimensat: case SYS_utime: case SYS_utimes:
    case SYS_futimesat: case SYS_mknod: case SYS_mknodat: case SYS_truncate: case SYS_ftruncate: case SYS_fsync: case SYS_fdatasync: case 452:
      return 1;
    case SYS_flock: return locks;
  }
  return 0;
}

int main(int argc, char **argv) {
  int o, ofd = 3, ifd = 4, mode = 0, n = -1, err = 0;
  char *s;
  while ((o = getopt(argc, argv, "+clk:e:E:s:p:o:i:")) != -1) switch (o) {
    case 'c': mode = 'c'; break;
    case 'o': ofd = atoi(optarg); break;
    case 'i': ifd = atoi(optarg); break;
    case 'l': locks = 1; break;
    case 'k': case 'p': mode = o; n = atoi(optarg); break;
    case 'e': case 'E': case 's': mode = o; n = strtol(optarg, &s, 10); err = atoi(s + 1); break;
    default: _exit(197);
  }
  argv += optind;
  fcntl(ofd, F_SETFD, FD_CLOEXEC); fcntl(ifd, F_SETFD, FD_CLOEXEC);
  signal(SIGPIPE, SIG_IGN);
  pid_t pid = fork();
  if (pid < 0) { perror("sbx: trc fork"); _exit(199); }
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (ptrace(PTRACE_TRACEME, 0, 0, 0)) { perror("sbx: trc traceme"); _exit(199); }
    raise(SIGSTOP);
    execv(argv[0], argv);
    perror("sbx: trc exec");
    _exit(199);
  }
  int st, in = 0, count = 0, hit = 0;
  long kind = -1;
  if (waitpid(pid, &st, 0) < 0 || !WIFSTOPPED(st)) { fprintf(stderr, "sbx: trc: no stop\n"); _exit(199); }
  if (ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC)) { perror("sbx: trc opts"); _exit(199); }
  int sig = 0, started = 0;
  for (;;) {
    if (ptrace(PTRACE_SYSCALL, pid, 0, sig) && errno == ESRCH) {}
    sig = 0;
    if (waitpid(pid, &st, 0) < 0) break;
    if (WIFEXITED(st) || WIFSIGNALED(st)) break;
    if (!WIFSTOPPED(st)) continue;
    int sg = WSTOPSIG(st);
    if (sg == (SIGTRAP | 0x80)) {
      struct user_regs_struct r;
      if (ptrace(PTRACE_GETREGS, pid, 0, &r)) continue;
      in = !in;
      if (!started) continue;
      if (in) {
        if (!interesting(&r)) continue;
        int me = count++;
        int fire = me == n || (mode == 'E' && hit && (long)r.orig_rax == kind);
        if (!fire) continue;
        kind = r.orig_rax;
        hit = 1;
        if (mode == 'k') { kill(pid, SIGKILL); }
        else if (mode == 's') { kill(pid, err); }
        else if (mode == 'e' || mode == 'E') {
          long nr = r.orig_rax;
          r.orig_rax = -1;
          ptrace(PTRACE_SETREGS, pid, 0, &r);
          ptrace(PTRACE_SYSCALL, pid, 0, 0);
          if (waitpid(pid, &st, 0) < 0 || !WIFSTOPPED(st)) break;
          ptrace(PTRACE_GETREGS, pid, 0, &r);
          r.rax = -err;
          ptrace(PTRACE_SETREGS, pid, 0, &r);
          in = 0;
          (void)nr;
        } else if (mode == 'p') {
          char c = 'k';
          if (write(ofd, "P\n", 2) != 2) c = 'k';
          else if (read(ifd, &c, 1) != 1) c = 'k';
          if (c != 'c') kill(pid, SIGKILL);
        }
      }
    } else if (sg == SIGTRAP) {
      if (st >> 16 == PTRACE_EVENT_EXEC) started = 1;
    } else
      sig = sg;
  }
  char b[64];
  int k = snprintf(b, sizeof b, "E %d %ld\n", count, hit ? kind : -1L);
  if (write(ofd, b, k) != k) {}
  if (WIFSIGNALED(st)) _exit(128 + WTERMSIG(st));
  _exit(WEXITSTATUS(st));
}
