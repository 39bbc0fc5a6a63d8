// sbx: run one command in a containment cell.
//   sbx [-r ROOT] [-d CWD] [-u UID_INSIDE] [-t CPU_SECONDS] [-b BASEUID] [-1] -- argv...
// The child gives up every real privilege: it becomes real uid BASEUID (an otherwise unused,
// unprivileged uid), enters a user namespace of its own where that uid shows up as UID_INSIDE,
// chroots into ROOT and executes argv.  Whatever the code under test does as "root" there can
// only touch files that the check itself created for BASEUID below ROOT.
// Without -1 the parent maps a range of 1000 uids/gids so that chown() inside works too;
// with -1 (or when the parent is not allowed to) only one id is mapped.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

static void die(const char *m) { fprintf(stderr, "sbx: %s: %s\n", m, strerror(errno)); _exit(199); }
static int put(const char *p, const char *s) {
  int fd = open(p, O_WRONLY);
  if (fd < 0) return -1;
  int r = write(fd, s, strlen(s)) == (ssize_t)strlen(s) ? 0 : -1;
  close(fd);
  return r;
}
static pid_t kid;
static void onsig(int s) { if (kid > 0) kill(kid, SIGKILL); _exit(198); (void)s; }

int main(int argc, char **argv) {
  const char *root = 0, *cwd = "/";
  int uid = 0, cpu = 60, base = 61000, single = 0, o;
  while ((o = getopt(argc, argv, "+r:d:u:t:b:1")) != -1) switch (o) {
    case 'r': root = optarg; break;
    case 'd': cwd = optarg; break;
    case 'u': uid = atoi(optarg); break;
    case 't': cpu = atoi(optarg); break;
    case 'b': base = atoi(optarg); break;
    case '1': single = 1; break;
    default: _exit(197);
  }
  argv += optind;
  if (!*argv) _exit(197);
  int a[2], b[2];
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) die("pipe");
  kid = fork();
  if (kid < 0) die("fork");
  if (kid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char c;
    if (setgroups(0, NULL) && errno != EPERM) die("setgroups");
    if (setresgid(base, base, base)) die("setresgid");
    if (setresuid(base, base, base)) die("setresuid");
    prctl(PR_SET_DUMPABLE, 1);
    if (unshare(CLONE_NEWUSER)) die("unshare");
    if (single) {
      char m[64];
      put("/proc/self/setgroups", "deny");
      snprintf(m, sizeof m, "%d %d 1\n", uid, base);
      if (put("/proc/self/uid_map", m)) die("uid_map");
      if (put("/proc/self/gid_map", m)) die("gid_map");
    } else {
      if (write(a[1], "x", 1) != 1) die("sync");
      if (read(b[0], &c, 1) != 1 || c != 'y') { errno = EPERM; die("uid map by parent"); }
    }
    if (setresgid(uid, uid, uid)) die("setresgid inside");
    // keep the namespace capabilities only when acting as root inside
    if (root && chroot(root)) die("chroot");
    if (setresuid(uid, uid, uid)) die("setresuid inside");
    if (chdir(cwd)) die("chdir");
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl = {cpu, cpu + 1};
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 1u << 30;
    setrlimit(RLIMIT_FSIZE, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    umask(022);
  if (getenv("VP_PRELOAD")) setenv("LD_PRELOAD", getenv("VP_PRELOAD"), 1);
  unsetenv("VP_PRELOAD");
    execv(argv[0], argv);
    die(argv[0]);
  }
  signal(SIGTERM, onsig); signal(SIGINT, onsig);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  close(a[1]);
  char c;
  if (!single) {
    if (read(a[0], &c, 1) == 1) {
      char p[64], m[64];
      snprintf(m, sizeof m, "0 %d 1000\n", base);
      snprintf(p, sizeof p, "/proc/%d/uid_map", kid);
      int bad = put(p, m);
      snprintf(p, sizeof p, "/proc/%d/gid_map", kid);
      bad |= put(p, m);
      if (write(b[1], bad ? "n" : "y", 1) != 1) die("sync");
    }
  }
  int st;
  while (waitpid(kid, &st, 0) < 0) if (errno != EINTR) die("wait");
  if (WIFSIGNALED(st)) _exit(128 + WTERMSIG(st));
  _exit(WEXITSTATUS(st));
}
