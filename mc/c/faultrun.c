/* Runs a command and interferes with its file-system calls.

   faultrun PLAN LOG COMMAND ARGS...

   The calls below are numbered from 1, beginning with the first poll or rt_sigaction of the new program (what comes
   before belongs to the dynamic loader); calls on /proc and /sys do not count. PLAN is "-" or a comma-separated list of K:ACTION[N]:
     eN  call K fails with error N (close is executed all the same)
     pN  call K and all later calls of the same number fail with error N
     wN  call K and all later calls that change something, other than on the descriptors 0 to 2, fail with error N
     sN  call K transfers N bytes at most
     tN  as sN, and the process is killed when the call returns
     b   the process is killed before call K
     a   the process is killed after call K
   LOG gets one line per call: number, name, flags (c: changes something, t: transfers, o: on one of the descriptors
   0 to 2), returned value, path or descriptor.  Exit: the code of the command, or 128 + its signal. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define FD 1      /* first argument is a descriptor */
#define PATH 2    /* first argument is a path */
#define ATPATH 4  /* second argument is a path */
#define CHANGE 8
#define TRANSFER 16 /* third argument is a byte count */
#define OPEN 32   /* flags decide whether it changes something */

static const struct call { long nr; const char *name; int kind; } calls[] = {
    {SYS_open, "open", PATH | OPEN}, {SYS_openat, "openat", ATPATH | OPEN}, {SYS_openat2, "openat2", ATPATH | CHANGE},
    {SYS_creat, "creat", PATH | CHANGE}, {SYS_read, "read", FD | TRANSFER}, {SYS_pread64, "pread64", FD | TRANSFER},
    {SYS_readv, "readv", FD}, {SYS_preadv, "preadv", FD}, {SYS_write, "write", FD | CHANGE | TRANSFER},
    {SYS_pwrite64, "pwrite64", FD | CHANGE | TRANSFER}, {SYS_writev, "writev", FD | CHANGE},
    {SYS_pwritev, "pwritev", FD | CHANGE}, {SYS_close, "close", FD}, {SYS_fsync, "fsync", FD | CHANGE},
    {SYS_fdatasync, "fdatasync", FD | CHANGE}, {SYS_rename, "rename", PATH | CHANGE},
    {SYS_renameat, "renameat", ATPATH | CHANGE}, {SYS_renameat2, "renameat2", ATPATH | CHANGE},
    {SYS_unlink, "unlink", PATH | CHANGE}, {SYS_unlinkat, "unlinkat", ATPATH | CHANGE}, {SYS_link, "link", PATH | CHANGE},
    {SYS_linkat, "linkat", ATPATH | CHANGE}, {SYS_symlink, "symlink", PATH | CHANGE},
    {SYS_symlinkat, "symlinkat", PATH | CHANGE}, {SYS_truncate, "truncate", PATH | CHANGE},
    {SYS_ftruncate, "ftruncate", FD | CHANGE}, {SYS_fallocate, "fallocate", FD | CHANGE},
    {SYS_chmod, "chmod", PATH | CHANGE}, {SYS_fchmod, "fchmod", FD | CHANGE}, {SYS_fchmodat, "fchmodat", ATPATH | CHANGE},
    {SYS_chown, "chown", PATH | CHANGE}, {SYS_lchown, "lchown", PATH | CHANGE}, {SYS_fchown, "fchown", FD | CHANGE},
    {SYS_fchownat, "fchownat", ATPATH | CHANGE}, {SYS_stat, "stat", PATH}, {SYS_lstat, "lstat", PATH},
    {SYS_fstat, "fstat", FD}, {SYS_newfstatat, "newfstatat", ATPATH}, {SYS_statx, "statx", ATPATH},
    {SYS_readlink, "readlink", PATH}, {SYS_readlinkat, "readlinkat", ATPATH}, {SYS_getdents, "getdents", FD},
    {SYS_getdents64, "getdents64", FD}, {SYS_lseek, "lseek", FD}, {SYS_mkdir, "mkdir", PATH | CHANGE},
    {SYS_mkdirat, "mkdirat", ATPATH | CHANGE}, {SYS_rmdir, "rmdir", PATH | CHANGE}, {SYS_access, "access", PATH},
    {SYS_faccessat, "faccessat", ATPATH}, {SYS_faccessat2, "faccessat2", ATPATH}, {SYS_utimensat, "utimensat", ATPATH | CHANGE},
    {SYS_copy_file_range, "copy_file_range", FD | CHANGE}, {SYS_sendfile, "sendfile", FD | CHANGE},
    {SYS_splice, "splice", FD | CHANGE}, {SYS_flock, "flock", FD}, {SYS_getcwd, "getcwd", 0}, {SYS_chdir, "chdir", PATH},
    {SYS_fchdir, "fchdir", FD}, {SYS_setxattr, "setxattr", PATH | CHANGE}, {SYS_fsetxattr, "fsetxattr", FD | CHANGE},
    {SYS_memfd_create, "memfd_create", 0}, {SYS_msync, "msync", CHANGE}, {SYS_sync, "sync", CHANGE}, {SYS_syncfs, "syncfs", FD | CHANGE},
};
#define NCALLS (sizeof calls / sizeof *calls)

struct step { long k; char action; long n; } plan[16];
static int nplan;
static struct proc { pid_t pid; int inside; long fake; int fake_keeps; int kill_after; long k; const struct call *c; char what[PATH_MAX]; int flags_o; } procs[64];
static int nprocs;

static struct proc *proc(pid_t p) {
    for (int i = 0; i < nprocs; i++) if (procs[i].pid == p) return &procs[i];
    if (nprocs == 64) exit(99);
    memset(&procs[nprocs], 0, sizeof procs[nprocs]);
    procs[nprocs].pid = p;
    return &procs[nprocs++];
}

static void text(pid_t p, unsigned long long at, char *out) {
    size_t n = 0;
    while (n < PATH_MAX - 1) {
        errno = 0;
        long w = ptrace(PTRACE_PEEKDATA, p, (void *)(at + n), 0);
        if (errno) break;
        for (size_t i = 0; i < sizeof w && n < PATH_MAX - 1; i++, n++) {
            out[n] = ((char *)&w)[i];
            if (!out[n]) return;
        }
    }
    out[n] = 0;
}

int main(int argc, char **argv) {
    if (argc < 4) return 98;
    if (strcmp(argv[1], "-"))
        for (char *s = strtok(argv[1], ","); s; s = strtok(0, ",")) {
            struct step *x = &plan[nplan++];
            char *e;
            x->k = strtol(s, &e, 10);
            x->action = e[1];
            x->n = e[1] ? atol(e + 2) : 0;
        }
    FILE *log = fopen(argv[2], "we");
    if (!log) return 98;
    pid_t root = fork();
    if (!root) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        execv(argv[3], argv + 3);
        _exit(97);
    }
    int st;
    waitpid(root, &st, 0);
    if (ptrace(PTRACE_SETOPTIONS, root, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK) < 0) return 96;
    ptrace(PTRACE_SYSCALL, root, 0, 0);
    int execd = 0, started = 0, killed = 0, code = 95;
    long n = 0;
    for (;;) {
        pid_t p = waitpid(-1, &st, __WALL);
        if (p < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            if (p == root) code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            continue;
        }
        if (!WIFSTOPPED(st)) continue;
        struct proc *q = proc(p);
        int sig = WSTOPSIG(st);
        if (sig != (SIGTRAP | 0x80)) {
            if (st >> 8 == (SIGTRAP | PTRACE_EVENT_EXEC << 8)) execd = 1;
            int event = st >> 16;
            ptrace(PTRACE_SYSCALL, p, 0, event || sig == SIGSTOP || sig == SIGTRAP ? 0 : sig);
            continue;
        }
        struct user_regs_struct r;
        ptrace(PTRACE_GETREGS, p, 0, &r);
        if (!q->inside) {
            q->inside = 1;
            q->c = 0, q->fake = 0, q->kill_after = 0, q->fake_keeps = 0;
            if (execd && (r.orig_rax == SYS_poll || r.orig_rax == SYS_ppoll || r.orig_rax == SYS_rt_sigaction)) started = 1;
            const struct call *c = 0;
            int std = 0, change = 0;
            if (started) for (size_t i = 0; i < NCALLS; i++) if (calls[i].nr == (long)r.orig_rax) c = &calls[i];
            if (c) {
                std = c->kind & FD && r.rdi <= 2;
                change = c->kind & CHANGE;
                if (c->kind & OPEN) change = (c->kind & PATH ? r.rsi : r.rdx) & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC);
                q->flags_o = (change ? 1 : 0) | (c->kind & TRANSFER ? 2 : 0) | (std ? 4 : 0);
                q->what[0] = 0;
                if (c->kind & PATH) text(p, r.rdi, q->what);
                if (c->kind & ATPATH) text(p, r.rsi, q->what);
                if (c->kind & FD || (c->kind & ATPATH && !q->what[0])) {
                    char l[64];
                    snprintf(l, sizeof l, "/proc/%d/fd/%d", p, (int)r.rdi);
                    ssize_t m = readlink(l, q->what, sizeof q->what - 1);
                    q->what[m < 0 ? 0 : m] = 0;
                }
                if (!strncmp(q->what, "/proc/", 6) || !strncmp(q->what, "/sys/", 5)) c = 0;
            }
            if (c) {
                q->c = c;
                q->k = ++n;
                for (int i = 0; i < nplan; i++) {
                    struct step *x = &plan[i];
                    static long pnr[16];
                    int hit = n == x->k;
                    if (hit) pnr[i] = c->nr;
                    if (x->action == 'p') hit |= n > x->k && pnr[i] == c->nr && !std;
                    if (x->action == 'w') hit = n >= x->k && change && !std;
                    if (!hit) continue;
                    switch (x->action) {
                    case 'e': case 'p': case 'w': q->fake = -x->n; q->fake_keeps = c->nr == SYS_close; break;
                    case 's': case 't':
                        if (c->kind & TRANSFER && r.rdx > (unsigned long)x->n) { r.rdx = x->n; ptrace(PTRACE_SETREGS, p, 0, &r); }
                        if (x->action == 't') q->kill_after = 1;
                        break;
                    case 'b': killed = 1; break;
                    case 'a': q->kill_after = 1; break;
                    }
                }
                if (killed) fprintf(log, "%ld %s %s%s%s killed %s\n", n, c->name, q->flags_o & 1 ? "c" : "", q->flags_o & 2 ? "t" : "", q->flags_o & 4 ? "o" : "-", q->what);
                else if (q->fake && !q->fake_keeps) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, p, 0, &r); }
            }
        } else {
            q->inside = 0;
            if (q->c) {
                if (q->fake) { r.rax = q->fake; ptrace(PTRACE_SETREGS, p, 0, &r); }
                fprintf(log, "%ld %s %s%s%s %lld %s\n", q->k, q->c->name, q->flags_o & 1 ? "c" : "", q->flags_o & 2 ? "t" : "", q->flags_o & 4 ? "o" : "-", (long long)r.rax, q->what);
                if (q->kill_after) killed = 1;
            }
        }
        if (killed) {
            for (int i = 0; i < nprocs; i++) kill(procs[i].pid, SIGKILL);
            continue;
        }
        ptrace(PTRACE_SYSCALL, p, 0, 0);
    }
    fclose(log);
    return code;
}
