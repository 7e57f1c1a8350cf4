/* Fault injection at the system-call boundary: every file-system call of this process on files
 * below given folders is trapped (seccomp, SIGSYS) whoever makes it (Python, libc, libstdc++,
 * HDF5, libtiff), and the handler carries it out, makes it fail, cuts it short or ends the
 * process there.  Used in forked children only: a filter cannot be removed. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

enum { K_NONE, K_OPEN, K_WRITE, K_READ, K_MKDIR, K_RENAME, K_REMOVE, K_CLOSE, K_OTHER, K_CREATE, K_OPENDIR };
enum { A_NONE, A_CRASH, A_CRASH_IN_WRITE, A_FAIL, A_FAIL_ALL, A_SHORT };
#define MAXEV 4096
#define MAXFD 1024

struct event { int32_t kind, nr; int64_t count; char name[48]; };
struct event sf_events[MAXEV];
volatile int sf_n, sf_on;
volatile int sf_hit;
int sf_target, sf_action, sf_errno, sf_kinds;
long sf_arg;
static char prefix[512];
static size_t plen;
static unsigned char fds[MAXFD];
int sf_cwd_inside;
int sf_turn_out = -1, sf_turn_in = -1;   /* controlled scheduling: ask before each call, go on when told */

extern char sf_ret[];
long sf_raw(long nr, long a, long b, long c, long d, long e, long f);
__asm__(".text\n.globl sf_raw\nsf_raw:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n"
        " mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl sf_ret\nsf_ret:\n ret\n");

static int inside_path(long dirfd, const char *p) {
  if (!p) return 0;
  if (p[0] == '/') return strncmp(p, prefix, plen) == 0;
  if ((int)dirfd == AT_FDCWD) return sf_cwd_inside;
  return (int)dirfd >= 0 && (int)dirfd < MAXFD && fds[(int)dirfd];
}
static int inside_fd(long fd) { return fd >= 0 && fd < MAXFD && fds[fd]; }

static void handler(int sig, siginfo_t *si, void *vc) {
  greg_t *r = ((ucontext_t *)vc)->uc_mcontext.gregs;
  int saved = errno;
  long nr = si->si_syscall, a = r[REG_RDI], b = r[REG_RSI], c = r[REG_RDX], d = r[REG_R10], e = r[REG_R8], f = r[REG_R9];
  int kind = K_NONE;
  long count = 0;
  const char *name = 0;
  switch (nr) {
    case SYS_open: case SYS_creat: if (inside_path(AT_FDCWD, (char *)a)) { kind = K_OPEN; count = nr == SYS_creat ? O_CREAT | O_WRONLY | O_TRUNC : b; name = (char *)a; } break;
    case SYS_openat: if (inside_path(a, (char *)b)) { kind = K_OPEN; count = c; name = (char *)b; } break;
    case SYS_write: case SYS_pwrite64: if (inside_fd(a)) { kind = K_WRITE; count = c; } break;
    case SYS_writev: if (inside_fd(a)) { kind = K_WRITE; for (long i = 0; i < c; i++) count += ((struct iovec *)b)[i].iov_len; } break;
    case SYS_read: case SYS_pread64: case SYS_readv: if (inside_fd(a)) { kind = K_READ; count = c; } break;
    case SYS_mkdir: if (inside_path(AT_FDCWD, (char *)a)) { kind = K_MKDIR; name = (char *)a; } break;
    case SYS_mkdirat: if (inside_path(a, (char *)b)) { kind = K_MKDIR; name = (char *)b; } break;
    case SYS_rename: case SYS_link: case SYS_symlink: if (inside_path(AT_FDCWD, (char *)b)) { kind = K_RENAME; name = (char *)b; } break;
    case SYS_renameat: case SYS_renameat2: case SYS_linkat: if (inside_path(c, (char *)d)) { kind = K_RENAME; name = (char *)d; } break;
    case SYS_unlink: case SYS_rmdir: if (inside_path(AT_FDCWD, (char *)a)) { kind = K_REMOVE; name = (char *)a; } break;
    case SYS_unlinkat: if (inside_path(a, (char *)b)) { kind = K_REMOVE; name = (char *)b; } break;
    case SYS_close: if (inside_fd(a)) kind = K_CLOSE; break;
    case SYS_ftruncate: case SYS_fallocate: if (inside_fd(a)) { kind = K_OTHER; count = b; } break;
    case SYS_truncate: if (inside_path(AT_FDCWD, (char *)a)) { kind = K_OTHER; count = b; } break;
    case SYS_sendfile: case SYS_splice: case SYS_copy_file_range:
      if (inside_fd(nr == SYS_sendfile ? a : c)) { kind = K_OTHER; count = 0; } break;
  }
  if (kind == K_OPEN && ((count & O_CREAT) || (count & O_ACCMODE) != O_RDONLY)) kind = K_CREATE;
  else if (kind == K_OPEN) {
    struct stat st;
    long at = nr == SYS_openat ? a : AT_FDCWD, path = nr == SYS_openat ? b : a;
    if (sf_raw(SYS_newfstatat, at, path, (long)&st, 0, 0, 0) == 0 && S_ISDIR(st.st_mode)) kind = K_OPENDIR;
  }
  if (kind && sf_on) {
    int k = sf_n++;
    if (sf_turn_out >= 0) {
      char t = 't';
      sf_raw(SYS_write, sf_turn_out, (long)&t, 1, 0, 0, 0);
      sf_raw(SYS_read, sf_turn_in, (long)&t, 1, 0, 0, 0);
    }
    if (k < MAXEV) {
      struct event *ev = &sf_events[k];
      ev->kind = kind; ev->nr = nr; ev->count = count;
      ev->name[0] = 0;
      if (name) {
        size_t l = strlen(name);
        strncpy(ev->name, l > 47 ? name + l - 47 : name, 47);
        ev->name[47] = 0;
      }
    }
    if (k == sf_target || (k > sf_target && sf_action == A_FAIL_ALL && sf_target >= 0 && (sf_kinds >> kind & 1))) {
      sf_hit = 1;
      if (sf_action == A_CRASH) sf_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
      if (sf_action == A_FAIL || sf_action == A_FAIL_ALL) { r[REG_RAX] = -sf_errno; errno = saved; return; }
      if (sf_action == A_CRASH_IN_WRITE || sf_action == A_SHORT) {
        long n = sf_arg, done = 0;
        if (nr == SYS_writev) {
          struct iovec *v = (struct iovec *)b;
          for (long i = 0; i < c && n > 0; i++) {
            long m = (long)v[i].iov_len < n ? (long)v[i].iov_len : n;
            done += sf_raw(SYS_write, a, (long)v[i].iov_base, m, 0, 0, 0);
            n -= m;
          }
        } else if (n > 0) done = sf_raw(nr, a, b, n, d, e, f);
        if (sf_action == A_CRASH_IN_WRITE) sf_raw(SYS_exit_group, 77, 0, 0, 0, 0, 0);
        r[REG_RAX] = done; errno = saved; return;
      }
    }
  }
  long res = sf_raw(nr, a, b, c, d, e, f);
  if ((kind == K_OPEN || kind == K_CREATE || kind == K_OPENDIR) && res >= 0 && res < MAXFD) fds[res] = 1;
  if (nr == SYS_close && a >= 0 && a < MAXFD) fds[a] = 0;
  if ((nr == SYS_dup || nr == SYS_dup2 || nr == SYS_dup3 || (nr == SYS_fcntl && (b == F_DUPFD || b == F_DUPFD_CLOEXEC))) && res >= 0 && res < MAXFD)
    fds[res] = inside_fd(a);
  r[REG_RAX] = res;
  errno = saved;
}

int sf_install(const char *pre) {
  static const int nrs[] = {SYS_open, SYS_creat, SYS_openat, SYS_write, SYS_pwrite64, SYS_writev, SYS_read, SYS_pread64,
    SYS_readv, SYS_mkdir, SYS_mkdirat, SYS_rename, SYS_link, SYS_symlink, SYS_renameat, SYS_renameat2, SYS_linkat, SYS_unlink,
    SYS_rmdir, SYS_unlinkat, SYS_close, SYS_ftruncate, SYS_fallocate, SYS_truncate, SYS_sendfile, SYS_splice,
    SYS_copy_file_range, SYS_dup, SYS_dup2, SYS_dup3, SYS_fcntl};
  enum { N = sizeof nrs / sizeof *nrs };
  struct sock_filter p[N + 12];
  int n = 0;
  uint64_t ip = (uint64_t)(uintptr_t)sf_ret;
  strncpy(prefix, pre, sizeof prefix - 1);
  plen = strlen(prefix);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, arch));
  p[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer));
  p[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)ip, 0, 3);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, instruction_pointer) + 4);
  p[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t)(ip >> 32), 0, 1);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < N; i++)
    p[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], N - i, 0);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  p[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  struct sock_fprog prog = {(unsigned short)n, p};
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = handler;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  if (sigaction(SIGSYS, &sa, 0)) return -errno;
  sigset_t s;
  sigemptyset(&s); sigaddset(&s, SIGSYS); sigprocmask(SIG_UNBLOCK, &s, 0);
  if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -errno;
  if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog)) return -errno;
  return 0;
}
