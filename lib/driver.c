/*
 * Fork server around the real boxes main() (compiled with -Dmain=boxes_main).
 *
 * Requests arrive on fd 3, replies go to fd 4. Each request is one case: it runs in a freshly forked child, so no
 * static state of the program leaks from one case to the next.
 *
 * request:  u32 length of rest
 *           u32 cpu_seconds, u32 as_mb (0 = unlimited), u32 fsize_mb, u32 flags, u32 perturb
 *           str cwd, u32 argc, str argv.., u32 envc, str env..("K=V")
 *           str stdin_bytes or (flags&1) stdin_path,
 *           str stdout_path (flags & 2), str stderr_path (flags & 4)
 * flags:    1 stdin is a path, 2 stdout is a path, 4 stderr is a path, 8 stdin closed, 16 stdout closed,
 *           32 stdin is a pipe fed by a helper process, 64 stdout is a pipe whose reader is gone (SIGPIPE ignored)
 *           128 fsize counts bytes, not MB, and only applies to files (stderr is a pipe then)
 *           str = u32 length + bytes
 * reply:    u32 wait status, u32 cpu_ms, u32 n + stdout, u32 n + stderr
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

extern int boxes_main(int argc, char *argv[]);
extern char **environ;

static void die(const char *m) { dprintf(2, "driver: %s: %s\n", m, strerror(errno)); _exit(120); }

static int rd(int fd, void *buf, size_t n)
{
    char *p = buf;
    while (n) {
        ssize_t k = read(fd, p, n);
        if (k == 0) return 0;
        if (k < 0) { if (errno == EINTR) continue; die("read"); }
        p += k; n -= k;
    }
    return 1;
}

static void wr(int fd, const void *buf, size_t n)
{
    const char *p = buf;
    while (n) {
        ssize_t k = write(fd, p, n);
        if (k < 0) { if (errno == EINTR) continue; _exit(121); }
        p += k; n -= k;
    }
}

static char *cur, *end;
static uint32_t u32(void)
{
    uint32_t v;
    if (end - cur < 4) die("short request");
    memcpy(&v, cur, 4); cur += 4; return v;
}
static char *str(uint32_t *len)
{
    uint32_t n = u32();
    if ((size_t) (end - cur) < n) die("short string");
    char *s = malloc((size_t) n + 1);
    memcpy(s, cur, n); s[n] = '\0'; cur += n;
    if (len) *len = n;
    return s;
}

/* What is in memory that nobody initialised: malloc() does it with M_PERTURB; the stack, and what realloc() adds: */
static int perturbed;

static __attribute__((noinline, no_sanitize("address"))) void fill_stack(int c)
{
    volatile unsigned char space[200 * 1024];
    for (size_t i = 0; i < sizeof space; i++) space[i] = (unsigned char) (c + (i / 16 % 3) * 0x51);
}

#ifdef WRAP_REALLOC
void *__real_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n)
{
    size_t had = perturbed && p ? malloc_usable_size(p) : 0;
    void *r = __real_realloc(p, n);
    if (perturbed && p && r) {
        size_t has = malloc_usable_size(r);
        if (has > had) memset((char *) r + had, perturbed ^ 0xff, has - had);
    }
    return r;
}
#endif

int main(void)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    for (;;) {
        uint32_t len;
        if (!rd(3, &len, 4)) _exit(0);
        char *req = malloc(len ? len : 1);
        if (!rd(3, req, len)) _exit(0);
        cur = req; end = req + len;
        uint32_t cpu = u32(), as_mb = u32(), fsize = u32(), flags = u32(), perturb = u32();
        char *cwd = str(NULL);
        uint32_t argc = u32();
        char **argv = malloc((argc + 1) * sizeof(char *));
        for (uint32_t i = 0; i < argc; i++) argv[i] = str(NULL);
        argv[argc] = NULL;
        uint32_t envc = u32();
        char **envv = malloc((envc + 1) * sizeof(char *));
        for (uint32_t i = 0; i < envc; i++) envv[i] = str(NULL);
        envv[envc] = NULL;
        uint32_t inlen;
        char *in = str(&inlen);
        char *outp = str(NULL);
        char *errp = str(NULL);

        int ifd = memfd_create("in", 0), ofd = memfd_create("out", 0), efd = memfd_create("err", 0);
        if (ifd < 0 || ofd < 0 || efd < 0) die("memfd");
        int ip[2] = {-1, -1};
        pid_t feeder = 0;
        if (!(flags & 1)) {
            if (flags & 32) {
                if (pipe(ip)) die("pipe");
                feeder = fork();
                if (feeder == 0) {
                    close(ip[0]);
                    signal(SIGPIPE, SIG_DFL);
                    /* odd-sized pieces */
                    size_t off = 0, step = 1 + (perturb & 63);
                    while (off < inlen) {
                        size_t k = inlen - off < step ? inlen - off : step;
                        ssize_t w = write(ip[1], in + off, k);
                        if (w <= 0) _exit(0);
                        off += w;
                        step = step * 3 % 4099 + 1;
                    }
                    _exit(0);
                }
                close(ip[1]);
            } else {
                wr(ifd, in, inlen);
                lseek(ifd, 0, SEEK_SET);
            }
        }
        int ep[2] = {-1, -1};
        if (flags & 128) {                /* limit the size of files by the byte; messages must not be affected */
            if (pipe(ep)) die("pipe");
        }
        pid_t pid = fork();
        if (pid < 0) die("fork");
        if (pid == 0) {
            if (chdir(cwd)) { dprintf(efd, "driver: chdir\n"); _exit(122); }
            if (flags & 1) { ifd = open(in, O_RDONLY); if (ifd < 0) _exit(123); }
            else if (flags & 32) ifd = ip[0];
            if (flags & 2) { ofd = open(outp, O_WRONLY); if (ofd < 0) _exit(124); }
            if (flags & 4) { efd = open(errp, O_WRONLY); if (efd < 0) _exit(125); }
            if (flags & 64) {
                int pp[2];
                if (pipe(pp)) _exit(126);
                close(pp[0]);
                ofd = pp[1];
            }
            if (ep[1] >= 0) efd = ep[1];
            close(3); close(4);
            dup2(ifd, 0); dup2(ofd, 1); dup2(efd, 2);
            for (int i = 5; i < 16; i++) close(i);
            if (ifd > 2) close(ifd);
            if (ofd > 2) close(ofd);
            if (efd > 2) close(efd);
            if (flags & 8) close(0);
            if (flags & 16) close(1);
            struct rlimit rl;
            rl.rlim_cur = cpu; rl.rlim_max = cpu + 1;
            setrlimit(RLIMIT_CPU, &rl);
            if (as_mb) { rl.rlim_cur = rl.rlim_max = (rlim_t) as_mb << 20; setrlimit(RLIMIT_AS, &rl); }
            rl.rlim_cur = rl.rlim_max = (rlim_t) fsize << (flags & 128 ? 0 : 20);
            if (flags & 128) signal(SIGXFSZ, SIG_IGN);
            setrlimit(RLIMIT_FSIZE, &rl);
            alarm(cpu * 20);
            if (perturb) {
                mallopt(M_PERTURB, perturb & 255);
                perturbed = (int) (perturb & 255);
                fill_stack(perturbed);
            }
            environ = envv;
            umask(022);
            exit(boxes_main((int) argc, argv));
        }
        if (ip[0] >= 0) close(ip[0]);
        int st;
        struct rusage ru;
        while (wait4(pid, &st, 0, &ru) < 0 && errno == EINTR) ;
        if (ep[0] >= 0) {
            char buf[4096];
            ssize_t k;
            close(ep[1]);
            while ((k = read(ep[0], buf, sizeof buf)) > 0) wr(efd, buf, k);
            close(ep[0]);
        }
        if (feeder > 0) { kill(feeder, SIGKILL); while (waitpid(feeder, NULL, 0) < 0 && errno == EINTR) ; }
        uint32_t ms = (uint32_t) (ru.ru_utime.tv_sec * 1000 + ru.ru_utime.tv_usec / 1000
                + ru.ru_stime.tv_sec * 1000 + ru.ru_stime.tv_usec / 1000);
        uint32_t v = (uint32_t) st;
        wr(4, &v, 4);
        wr(4, &ms, 4);
        int fds[2] = {ofd, efd};
        for (int i = 0; i < 2; i++) {
            struct stat sb;
            fstat(fds[i], &sb);
            uint32_t n = sb.st_size > (64 << 20) ? (64u << 20) : (uint32_t) sb.st_size;
            wr(4, &n, 4);
            char buf[65536];
            off_t off = 0;
            while (off < n) {
                size_t want = (size_t) (n - off) < sizeof buf ? (size_t) (n - off) : sizeof buf;
                ssize_t k = pread(fds[i], buf, want, off);
                if (k <= 0) _exit(121);
                wr(4, buf, k);
                off += k;
            }
        }
        close(ifd); close(ofd); close(efd);
        for (uint32_t i = 0; i < argc; i++) free(argv[i]);
        for (uint32_t i = 0; i < envc; i++) free(envv[i]);
        free(argv); free(envv); free(cwd); free(in); free(outp); free(errp); free(req);
    }
}
