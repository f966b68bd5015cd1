/* bptrace - syscall-level observer / crash + fault injector for the unmodified binary.
 *
 * Runs a command under ptrace with a seccomp filter that stops only at file-system
 * system calls, serialises those that touch a watched root (so the log order IS the
 * order of effects), and writes one JSON object per effect.  It can kill the whole
 * process tree just before (or just after) the k-th effect, tear a write, inject an
 * errno, or pause the process at an effect and run another command to completion
 * (deterministic interleaving of two processes).
 *
 *   bptrace [opts] -- cmd args...
 *     -o FILE        log (default stderr)
 *     -r ROOT        watched root (repeatable; absolute, canonical)
 *     -c DIR         capture dir: hardlink/copy every file published by rename/link to DIR/<seq>
 *     -R             also record reads (open for reading, directory listing) as events
 *     -k N           SIGKILL before event N (1-based, counting selected events)
 *     -K N           SIGKILL after event N took effect
 *     -T N           if event N is a write: write only half of it, then SIGKILL
 *     -f N:ERRNO     event N fails with ERRNO (number), not executed
 *     -F N:ERRNO     event N and every later event of the same kind fail with ERRNO
 *     -p N:CMD       before event N run CMD (sh -c) to completion (repeatable)
 *     -P EV:SUB:K:CMD  before the K-th event of kind EV whose path contains SUB run CMD (repeatable)
 *     -s R:W         before each selected event write "kind path\\n" to descriptor W and wait for a byte from R
 *     -S SUB         only events whose path contains SUB are counted
 *     -D             record reads from files and directories, too (kind "rdata")
 *     -j SEED        threads are held up at random at system calls, to get other schedules
 *     -C FILE        what the process sees when it opens /proc/cpuinfo
 *     -t SECS        kill after SECS of wall time, "timeout":true in the summary
 *     -m KINDS       comma separated kinds that are counted for -k/-K/-f/-p (default: all mutations)
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT 4096
#define MAXROOT 16
#define MAXP 64

static char *roots[MAXROOT]; static int nroots;
static char *capdir, *cpuinfo; static FILE *lg;
static int want_reads; static long kill_before = -1, kill_after = -1, tear = -1;
static long fail_at = -1, fail_errno; static int fail_sticky; static char *fail_kind;
static struct { long n; char *cmd; } pauses[MAXP]; static int npauses;
static struct { char ev[32]; char sub[256]; long k; char *cmd; long seen; int done; } lpauses[MAXP]; static int nlp;
static char *sub; static int want_data, jit, jmode; static unsigned long jrnd;
static unsigned long rnd(unsigned long n) { jrnd ^= jrnd << 13; jrnd ^= jrnd >> 7; jrnd ^= jrnd << 17; return (jrnd >> 11) % n; }
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static int srd = -1, swr = -1; static double tmo = 0; static char *kinds;
static pid_t mainpid; static long nev; static int killed, timedout;

struct ev { char kind[16]; char path[PATH_MAX], path2[PATH_MAX]; long size; int mut; int isw; };
struct thr { pid_t tid; int used; int insys; int queued; struct ev e; long seq; int inj; int substituted; int held; double due; int slow; };
static struct thr th[MAXT]; static int nth;
static pid_t queue[MAXT]; static int qh, qt; static pid_t busy;

static struct thr *T(pid_t t) {
    for (int i = 0; i < nth; i++) if (th[i].used && th[i].tid == t) return &th[i];
    for (int i = 0; i < nth; i++) if (!th[i].used) { memset(&th[i], 0, sizeof th[i]); th[i].used = 1; th[i].tid = t; return &th[i]; }
    if (nth >= MAXT) { fprintf(stderr, "bptrace: too many threads\n"); exit(2); }
    memset(&th[nth], 0, sizeof th[nth]); th[nth].used = 1; th[nth].tid = t; return &th[nth++];
}
static int rdstr(pid_t t, unsigned long a, char *b, size_t n) {
    size_t got = 0;
    while (got + 1 < n) {
        size_t chunk = 4096 - ((a + got) & 4095); if (chunk > n - 1 - got) chunk = n - 1 - got;
        struct iovec l = { b + got, chunk }, r = { (void *)(a + got), chunk };
        ssize_t k = process_vm_readv(t, &l, 1, &r, 1, 0);
        if (k <= 0) { b[got] = 0; return got ? 0 : -1; }
        char *z = memchr(b + got, 0, k); if (z) return 0; got += k;
    }
    b[n - 1] = 0; return 0;
}
static void fdpath(pid_t t, int fd, char *out) {
    char p[64]; if (fd == AT_FDCWD) snprintf(p, sizeof p, "/proc/%d/cwd", t); else snprintf(p, sizeof p, "/proc/%d/fd/%d", t, fd);
    ssize_t k = readlink(p, out, PATH_MAX - 1); if (k < 0) k = 0; out[k] = 0;
}
/* lexical normalisation of /./ and // and /../ */
static void norm(char *p) {
    char out[PATH_MAX]; size_t n = 0; char *s = p;
    while (*s) {
        while (*s == '/') s++;
        char *e = s; while (*e && *e != '/') e++;
        size_t l = e - s;
        if (l == 0) break;
        if (l == 1 && s[0] == '.') { s = e; continue; }
        if (l == 2 && s[0] == '.' && s[1] == '.') { while (n && out[--n] != '/'); s = e; continue; }
        if (n + l + 2 >= PATH_MAX) break;
        out[n++] = '/'; memcpy(out + n, s, l); n += l; s = e;
    }
    if (!n) out[n++] = '/';
    out[n] = 0; strcpy(p, out);
}
static void atpath(pid_t t, int dfd, unsigned long a, char *out) {
    char s[PATH_MAX]; if (rdstr(t, a, s, sizeof s) < 0) s[0] = 0;
    if (s[0] == '/') { strcpy(out, s); }
    else {
        fdpath(t, dfd, out);
        if (s[0]) { size_t l = strlen(out); snprintf(out + l, PATH_MAX - l, "/%s", s); }
    }
    norm(out);
}
static int watched(const char *p) {
    for (int i = 0; i < nroots; i++) { size_t l = strlen(roots[i]); if (!strncmp(p, roots[i], l) && (p[l] == 0 || p[l] == '/')) return 1; }
    return 0;
}
static void jstr(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static int kindsel(const struct ev *e) {
    if (sub && !strstr(e->path, sub) && !strstr(e->path2, sub)) return 0;
    if (!kinds) return e->mut;
    char b[256]; snprintf(b, sizeof b, ",%s,", kinds); char k[32]; snprintf(k, sizeof k, ",%s,", e->kind); return strstr(b, k) != NULL;
}
/* classify at syscall entry; returns 1 when it is an event we record */
static int classify(pid_t t, struct user_regs_struct *r, struct ev *e) {
    memset(e, 0, sizeof *e); e->mut = 1;
    long a0 = r->rdi, a1 = r->rsi, a2 = r->rdx, a3 = r->r10;
    switch (r->orig_rax) {
    case SYS_open: case SYS_creat: case SYS_openat: case SYS_openat2: {
        long fl; if (r->orig_rax == SYS_open) { atpath(t, AT_FDCWD, a0, e->path); fl = a1; }
        else if (r->orig_rax == SYS_creat) { atpath(t, AT_FDCWD, a0, e->path); fl = O_CREAT | O_WRONLY | O_TRUNC; }
        else if (r->orig_rax == SYS_openat) { atpath(t, (int)a0, a1, e->path); fl = a2; }
        else { atpath(t, (int)a0, a1, e->path); unsigned long h[1] = {0}; struct iovec l = { h, 8 }, rr = { (void *)a2, 8 }; process_vm_readv(t, &l, 1, &rr, 1, 0); fl = h[0]; }
        if (!watched(e->path)) return 0;
        if (fl & O_TMPFILE & ~O_DIRECTORY) { strcpy(e->kind, "create"); return 1; }
        struct stat st; int ex = lstat(e->path, &st) == 0;
        if ((fl & O_CREAT) && !ex) { strcpy(e->kind, "create"); return 1; }
        if ((fl & O_ACCMODE) != O_RDONLY) { if (fl & O_TRUNC) strcpy(e->kind, "trunc"); else { strcpy(e->kind, "openw"); e->mut = 0; } return 1; }
        if (fl & O_TRUNC) { strcpy(e->kind, "trunc"); return 1; }
        e->mut = 0; if (!want_reads) return 0;
        if (!ex) { strcpy(e->kind, "openmiss"); return 1; }
        strcpy(e->kind, S_ISDIR(st.st_mode) ? "list" : "read"); return 1; }
    case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: case SYS_pwritev2:
        fdpath(t, a0, e->path); if (!watched(e->path)) return 0;
        strcpy(e->kind, "write"); e->size = a2; e->isw = (r->orig_rax == SYS_write || r->orig_rax == SYS_pwrite64); return 1;
    case SYS_sendfile: fdpath(t, a0, e->path); if (!watched(e->path)) return 0; fdpath(t, a1, e->path2); strcpy(e->kind, "write"); e->size = a3; return 1;
    case SYS_copy_file_range: fdpath(t, a2, e->path); if (!watched(e->path)) return 0; fdpath(t, a0, e->path2); strcpy(e->kind, "write"); e->size = r->r8; return 1;
    case SYS_read: case SYS_pread64: case SYS_getdents64: if (!want_data) return 0; fdpath(t, a0, e->path); if (!watched(e->path)) return 0; e->mut = 0; strcpy(e->kind, "rdata"); e->size = a2; return 1;
    case SYS_ftruncate: fdpath(t, a0, e->path); if (!watched(e->path)) return 0; strcpy(e->kind, "trunc"); e->size = a1; return 1;
    case SYS_truncate: atpath(t, AT_FDCWD, a0, e->path); if (!watched(e->path)) return 0; strcpy(e->kind, "trunc"); e->size = a1; return 1;
    case SYS_fsync: case SYS_fdatasync: fdpath(t, a0, e->path); if (!watched(e->path)) return 0; strcpy(e->kind, "fsync"); return 1;
    case SYS_rename: atpath(t, AT_FDCWD, a0, e->path); atpath(t, AT_FDCWD, a1, e->path2); strcpy(e->kind, "rename"); return watched(e->path) || watched(e->path2);
    case SYS_renameat: case SYS_renameat2: atpath(t, (int)a0, a1, e->path); atpath(t, (int)a2, a3, e->path2); strcpy(e->kind, "rename"); return watched(e->path) || watched(e->path2);
    case SYS_link: atpath(t, AT_FDCWD, a0, e->path); atpath(t, AT_FDCWD, a1, e->path2); strcpy(e->kind, "link"); return watched(e->path2);
    case SYS_linkat: atpath(t, (int)a0, a1, e->path); atpath(t, (int)a2, a3, e->path2); strcpy(e->kind, "link"); return watched(e->path2);
    case SYS_unlink: atpath(t, AT_FDCWD, a0, e->path); strcpy(e->kind, "unlink"); return watched(e->path);
    case SYS_unlinkat: atpath(t, (int)a0, a1, e->path); strcpy(e->kind, (a2 & AT_REMOVEDIR) ? "rmdir" : "unlink"); return watched(e->path);
    case SYS_rmdir: atpath(t, AT_FDCWD, a0, e->path); strcpy(e->kind, "rmdir"); return watched(e->path);
    case SYS_mkdir: atpath(t, AT_FDCWD, a0, e->path); strcpy(e->kind, "mkdir"); return watched(e->path);
    case SYS_mkdirat: atpath(t, (int)a0, a1, e->path); strcpy(e->kind, "mkdir"); return watched(e->path);
    case SYS_symlink: atpath(t, AT_FDCWD, a1, e->path); strcpy(e->kind, "symlink"); return watched(e->path);
    case SYS_symlinkat: atpath(t, (int)a1, a2, e->path); strcpy(e->kind, "symlink"); return watched(e->path);
    case SYS_chmod: atpath(t, AT_FDCWD, a0, e->path); strcpy(e->kind, "chmod"); return watched(e->path);
    case SYS_fchmod: fdpath(t, a0, e->path); strcpy(e->kind, "chmod"); return watched(e->path);
    case SYS_fchmodat: case 452: atpath(t, (int)a0, a1, e->path); strcpy(e->kind, "chmod"); return watched(e->path);
    case SYS_utimensat: if (a1) atpath(t, (int)a0, a1, e->path); else fdpath(t, a0, e->path); strcpy(e->kind, "utime"); return watched(e->path);
    case SYS_chown: case SYS_lchown: atpath(t, AT_FDCWD, a0, e->path); strcpy(e->kind, "chown"); return watched(e->path);
    case SYS_fchownat: atpath(t, (int)a0, a1, e->path); strcpy(e->kind, "chown"); return watched(e->path);
    }
    return 0;
}
static void killall(void) { killed = 1; for (int i = 0; i < nth; i++) if (th[i].used) syscall(SYS_tgkill, th[i].tid, th[i].tid, SIGKILL), kill(th[i].tid, SIGKILL); kill(mainpid, SIGKILL); }
static void copyfile(const char *a, const char *b) {
    int i = open(a, O_RDONLY), o = open(b, O_CREAT | O_WRONLY | O_TRUNC, 0644); char buf[65536]; ssize_t k;
    if (i >= 0 && o >= 0) while ((k = read(i, buf, sizeof buf)) > 0) if (write(o, buf, k) < 0) break;
    if (i >= 0) close(i);
    if (o >= 0) close(o);
}
static void emit(struct thr *x, long ret) {
    fprintf(lg, "{\"seq\":%ld,\"pid\":%d,\"tid\":%d,\"ev\":\"%s\",\"mut\":%d,\"path\":", x->seq, mainpid, x->tid, x->e.kind, x->e.mut); jstr(lg, x->e.path);
    if (x->e.path2[0]) { fprintf(lg, ",\"path2\":"); jstr(lg, x->e.path2); }
    if (x->e.size) fprintf(lg, ",\"size\":%ld", x->e.size);
    if (x->inj) fprintf(lg, ",\"injected\":1");
    fprintf(lg, ",\"ret\":%ld}\n", ret); fflush(lg);
    if (capdir && ret >= 0 && (!strcmp(x->e.kind, "rename") || !strcmp(x->e.kind, "link"))) {
        struct stat st; char d[PATH_MAX + 64]; snprintf(d, sizeof d, "%s/%d.%ld", capdir, mainpid, x->seq);
        if (!lstat(x->e.path2, &st) && S_ISREG(st.st_mode)) { if (link(x->e.path2, d) < 0) copyfile(x->e.path2, d); }
    }
}
static void runcmd(const char *c) { fflush(lg); pid_t p = fork(); if (!p) { sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK, &s, NULL); execl("/bin/sh", "sh", "-c", c, NULL); _exit(127); } int st; waitpid(p, &st, 0); fprintf(lg, "{\"note\":\"pause-done\",\"status\":%d}\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st)); fflush(lg); }
/* start executing a queued interesting syscall of x */
static void start(struct thr *x) {
    struct user_regs_struct r;
    if (ptrace(PTRACE_GETREGS, x->tid, 0, &r) < 0) { return; }
    /* re-classify: the world may have changed while queued */
    if (!classify(x->tid, &r, &x->e)) { ptrace(PTRACE_CONT, x->tid, 0, 0); return; }
    int sel = kindsel(&x->e);
    if (sel) nev++;
    x->seq = nev; x->inj = 0;
    for (int i = 0; i < nlp; i++) {
        if (!lpauses[i].done && !strcmp(lpauses[i].ev, x->e.kind) && (strstr(x->e.path, lpauses[i].sub) || strstr(x->e.path2, lpauses[i].sub)) && ++lpauses[i].seen == lpauses[i].k) {
            lpauses[i].done = 1; fprintf(lg, "{\"note\":\"pause\",\"before\":\"%s\",\"path\":", x->e.kind); jstr(lg, x->e.path); fprintf(lg, "}\n"); runcmd(lpauses[i].cmd); }
    }
    if (sel && swr >= 0) {
        char b[PATH_MAX * 2 + 32], c; int n = snprintf(b, sizeof b, "%s %s\n", x->e.kind, x->e.path2[0] ? x->e.path2 : x->e.path);
        if (write(swr, b, n) != n || read(srd, &c, 1) != 1) swr = -1;
    }
    if (sel) {
        for (int i = 0; i < npauses; i++) if (pauses[i].n == nev) { fprintf(lg, "{\"note\":\"pause\",\"before\":\"%s\",\"path\":", x->e.kind); jstr(lg, x->e.path); fprintf(lg, "}\n"); runcmd(pauses[i].cmd); }
        if (nev == kill_before) { fprintf(lg, "{\"note\":\"kill-before\",\"ev\":\"%s\",\"path\":", x->e.kind); jstr(lg, x->e.path); if (x->e.path2[0]) { fprintf(lg, ",\"path2\":"); jstr(lg, x->e.path2); } fprintf(lg, "}\n"); fflush(lg); killall(); return; }
        if (nev == tear && x->e.isw) { r.rdx = r.rdx / 2; ptrace(PTRACE_SETREGS, x->tid, 0, &r); }
        if (fail_at > 0 && (nev == fail_at || (fail_sticky && nev > fail_at && fail_kind && !strcmp(fail_kind, x->e.kind)))) {
            if (!fail_kind) fail_kind = strdup(x->e.kind);
            x->inj = 1; r.orig_rax = -1; r.rax = -fail_errno; ptrace(PTRACE_SETREGS, x->tid, 0, &r);
        }
    }
    busy = x->tid; x->insys = 1; ptrace(PTRACE_SYSCALL, x->tid, 0, 0);
}
static void drain(void) {
    while (!busy && qh != qt) {
        pid_t t = queue[qh++ % MAXT]; struct thr *x = T(t);
        if (x->queued) { x->queued = 0; start(x); }
    }
}
/* x stopped at an interesting system call */
static void arrived(struct thr *x) {
    pid_t t = x->tid;
    struct user_regs_struct r; struct ev e;
    if (ptrace(PTRACE_GETREGS, t, 0, &r) < 0) return;
    if (cpuinfo && r.orig_rax == SYS_openat) {
        char p[PATH_MAX]; if (!rdstr(t, r.rsi, p, sizeof p) && !strcmp(p, "/proc/cpuinfo")) {
            unsigned long a = (r.rsp - 8192) & ~15UL; struct iovec l = { cpuinfo, strlen(cpuinfo) + 1 }, rr = { (void *)a, strlen(cpuinfo) + 1 };
            if (process_vm_writev(t, &l, 1, &rr, 1, 0) > 0) { r.rsi = a; ptrace(PTRACE_SETREGS, t, 0, &r); fprintf(lg, "{\"note\":\"cpuinfo\"}\n"); }
            ptrace(PTRACE_CONT, t, 0, 0); return;
        }
    }
    if (!classify(t, &r, &e)) { ptrace(PTRACE_CONT, t, 0, 0); return; }
    x->queued = 1; queue[qt++ % MAXT] = t; drain();
}
static int hold(struct thr *x) {
    if (!x->slow) x->slow = 1 + rnd(4);
    double ms = jmode == 0 ? (rnd(10) ? 0 : rnd(40) / 10.) : jmode == 1 ? (x->slow == 1 ? 1 + rnd(30) / 10. : 0) : rnd(3) ? 0 : rnd(8) / 10.;
    if (ms == 0) return 0;
    x->held = 1; x->due = now() + ms / 1e3; return 1;
}
static void onalrm(int s) { (void)s; timedout = 1; }
int main(int argc, char **argv) {
    lg = stderr; int i;
    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--")) { i++; break; }
        char o = argv[i][1];
        if (o == 'R') { want_reads = 1; continue; }
        if (o == 'D') { want_data = 1; continue; }
        char *v = argv[++i];
        if (!v) return 2;
        switch (o) {
        case 'o': lg = fopen(v, "w"); if (!lg) { perror(v); return 2; } break;
        case 'r': roots[nroots++] = v; break;
        case 'c': capdir = v; break;
        case 'k': kill_before = atol(v); break;
        case 'K': kill_after = atol(v); break;
        case 'T': tear = atol(v); kill_after = tear; break;
        case 'F': fail_sticky = 1; /* fallthrough */
        case 'f': fail_at = atol(v); fail_errno = atol(strchr(v, ':') + 1); break;
        case 'p': pauses[npauses].n = atol(v); pauses[npauses++].cmd = strchr(v, ':') + 1; break;
        case 'P': { char *a = strchr(v, ':'), *b = strchr(a + 1, ':'), *c = strchr(b + 1, ':');
            memcpy(lpauses[nlp].ev, v, a - v); memcpy(lpauses[nlp].sub, a + 1, b - a - 1); lpauses[nlp].k = atol(b + 1); lpauses[nlp++].cmd = c + 1; break; }
        case 's': srd = atoi(v); swr = atoi(strchr(v, ':') + 1); fcntl(srd, F_SETFD, FD_CLOEXEC); fcntl(swr, F_SETFD, FD_CLOEXEC); break;
        case 'C': cpuinfo = v; break;
        case 't': tmo = atof(v); break;
        case 'm': kinds = v; break;
        case 'S': sub = v; break;
        case 'j': jit = 1; jrnd = 88172645463325252UL ^ ((unsigned long)atol(v) * 2654435761UL); for (int j = 0; j < 20; j++) rnd(2); jmode = rnd(3); break;
        default: fprintf(stderr, "bptrace: bad option %s\n", argv[i - 1]); return 2;
        }
    }
    if (i >= argc) return 2;
    fcntl(fileno(lg), F_SETFD, FD_CLOEXEC);
    mainpid = fork();
    if (!mainpid) {
        static const int sys[] = { SYS_open, SYS_creat, SYS_openat, SYS_openat2, SYS_write, SYS_pwrite64, SYS_writev, SYS_pwritev, SYS_pwritev2, SYS_sendfile, SYS_copy_file_range, SYS_ftruncate, SYS_truncate, SYS_fsync, SYS_fdatasync, SYS_rename, SYS_renameat, SYS_renameat2, SYS_link, SYS_linkat, SYS_unlink, SYS_unlinkat, SYS_rmdir, SYS_mkdir, SYS_mkdirat, SYS_symlink, SYS_symlinkat, SYS_chmod, SYS_fchmod, SYS_fchmodat, 452, SYS_utimensat, SYS_chown, SYS_lchown, SYS_fchownat, SYS_read, SYS_pread64, SYS_getdents64, SYS_futex };
        int n = sizeof sys / sizeof *sys - (jit ? 0 : 1) - (jit || want_data ? 0 : 3); struct sock_filter f[256]; int k = 0;
        f[k++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
        for (int j = 0; j < n; j++) f[k++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, sys[j], n - j, 0);
        f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
        f[k++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
        struct sock_fprog p = { k, f };
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
        if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) { perror("seccomp"); _exit(126); }
        execvp(argv[i], argv + i); perror("exec"); _exit(127);
    }
    int st; if (waitpid(mainpid, &st, 0) < 0) return 2;
    if (ptrace(PTRACE_SETOPTIONS, mainpid, 0, PTRACE_O_TRACESECCOMP | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL | PTRACE_O_TRACESYSGOOD) < 0) { perror("setoptions"); return 2; }
    T(mainpid);
    struct sigaction sa = { .sa_handler = onalrm }; sigaction(SIGALRM, &sa, NULL);
    struct timespec t0; clock_gettime(CLOCK_MONOTONIC, &t0);
    if (tmo > 0) { struct timespec dummy; (void)dummy; alarm((unsigned)(tmo + 0.999)); }
    ptrace(PTRACE_CONT, mainpid, 0, 0);
    int mainst = 0;
    for (;;) {
        int holding = 0;
        for (int j = 0; jit && j < nth; j++) if (th[j].used && th[j].held) {
            if (th[j].due > now()) { holding = 1; continue; }
            th[j].held = 0; arrived(&th[j]);
        }
        pid_t t = waitpid(-1, &st, __WALL | (holding ? WNOHANG : 0));
        if (!t) { usleep(150); if (timedout && !killed) killall(); continue; }
        if (t < 0) { if (errno == EINTR) { if (timedout && !killed) killall(); continue; } break; }
        if (WIFEXITED(st) || WIFSIGNALED(st)) {
            struct thr *x = T(t); x->used = 0; x->queued = 0; x->held = 0; if (t == mainpid) mainst = st; if (busy == t) { busy = 0; drain(); }
            continue;
        }
        if (!WIFSTOPPED(st)) continue;
        struct thr *x = T(t); int sig = WSTOPSIG(st), evn = st >> 16;
        if (killed) { kill(t, SIGKILL); ptrace(PTRACE_CONT, t, 0, SIGKILL); continue; }
        if (evn == PTRACE_EVENT_SECCOMP) {
            if (jit && hold(x)) continue;
            arrived(x); continue;
        }
        if (sig == (SIGTRAP | 0x80)) { /* syscall exit of the busy thread */
            if (x->insys) {
                struct user_regs_struct r; ptrace(PTRACE_GETREGS, t, 0, &r);
                x->insys = 0; if (busy == t) busy = 0;
                emit(x, (long)r.rax);
                if (kindsel(&x->e) && x->seq == kill_after) { fprintf(lg, "{\"note\":\"kill-after\",\"ev\":\"%s\",\"path\":", x->e.kind); jstr(lg, x->e.path); if (x->e.path2[0]) { fprintf(lg, ",\"path2\":"); jstr(lg, x->e.path2); } fprintf(lg, "}\n"); fflush(lg); killall(); continue; }
                ptrace(PTRACE_CONT, t, 0, 0); drain(); continue;
            }
            ptrace(PTRACE_CONT, t, 0, 0); continue;
        }
        if (evn == PTRACE_EVENT_CLONE || evn == PTRACE_EVENT_FORK || evn == PTRACE_EVENT_VFORK) { unsigned long nt; ptrace(PTRACE_GETEVENTMSG, t, 0, &nt); T((pid_t)nt); ptrace(PTRACE_CONT, t, 0, 0); continue; }
        if (evn == PTRACE_EVENT_EXEC) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
        if (sig == SIGSTOP || sig == SIGTRAP) { ptrace(PTRACE_CONT, t, 0, 0); continue; }
        ptrace(PTRACE_CONT, t, 0, sig);
    }
    int code = killed ? 137 : WIFEXITED(mainst) ? WEXITSTATUS(mainst) : 128 + WTERMSIG(mainst);
    fprintf(lg, "{\"end\":1,\"status\":%d,\"killed\":%d,\"timeout\":%d,\"events\":%ld}\n", code, killed && !timedout, timedout, nev);
    fclose(lg);
    return timedout ? 124 : code;
}
