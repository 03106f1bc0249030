#include "lemma.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <unistd.h>
/* the system: each call is remembered and answers as the case says */
static int forks, answer[2], sids, waits, opened[2], dups, closes, closed_low, chdirs, masks; static mode_t mask_is; static const char *dir_is; static int limit_is, sid_fails, dir_fails, limit_fails;
static int want_exit, may_exit;   /* the code the process has to end with */
#define ENDED "a process that is not the daemon ends"
static int want_waits;
static void ends(int code) {
    zv_check(waits == want_waits, "the first parent waits for its child before it ends");
    zv_check(may_exit, "only a process that is not the daemon ends");
    zv_check(code == want_exit, "a parent ends well and a failure ends with a code");
    zv_reach(ENDED);
}
void exit(int code) { ends(code); abort(); }
void _exit(int code) { ends(code); abort(); }
pid_t fork(void) { return forks < 2 ? answer[forks++] : (pid_t)1; }
pid_t setsid(void) { sids++; if (sid_fails) { errno = EPERM; return -1; } zv_check(forks == 1, "the session is begun by the first child"); return 5; }
pid_t wait(int *s) { waits++; if (s) *s = 0; return 5; }
unsigned int sleep(unsigned int s) { (void)s; return 0; }
int getrlimit(__rlimit_resource_t r, struct rlimit *l) { (void)r; if (limit_fails) return -1; l->rlim_cur = limit_is; l->rlim_max = limit_is; return 0; }
static int files[16];
int close(int fd) { closes++; if (fd >= 0 && fd < 16) { if (!files[fd]) { errno = EBADF; return -1; } files[fd] = 0; } return 0; }
static int lowest(int what) { for (int i = 0; i < 16; i++) if (!files[i]) { files[i] = what; return i; } return -1; }
int open(const char *p, int flags, ...) { return lowest(!strcmp(p, "/dev/null") && (flags & O_ACCMODE) == O_RDWR ? 2 : 3); }
int dup2(int a, int b) { if (a < 0 || a >= 16 || b < 0 || b >= 16 || !files[a]) { errno = EBADF; return -1; } files[b] = files[a]; return b; }
int dup(int fd) { if (fd < 0 || fd >= 16 || !files[fd]) { errno = EBADF; return -1; } return lowest(files[fd]); }
int chdir(const char *p) { chdirs++; dir_is = p; return dir_fails ? -1 : 0; }
mode_t umask(mode_t m) { masks++; mask_is = m; return 022; }
static void start(int a, int b) { answer[0] = a; answer[1] = b; limit_is = 6; for (int i = 0; i < 6; i++) files[i] = 1; }
void lemma_daemon_p20_nf(void) {
    start(0, 0);
    zv_check(zt_daemonize("/ro", 027, 0) == 0, "the daemon goes on");
    zv_check(forks == 2 && sids == 1, "the daemon is the second child, in a session of its own");
    zv_check(files[0] == 2 && files[1] == 2 && files[2] == 2, "input, output and errors of the daemon are the null device");
    zv_check(!files[3] && !files[4] && !files[5], "every other descriptor is closed");
    zv_check(chdirs == 1 && !strcmp(dir_is, "/ro") && masks == 1 && mask_is == 027, "the daemon is in the directory and has the mask asked for");
}
void lemma_nodir_p20_nf(void) {
    start(0, 0);
    zv_check(zt_daemonize(NULL, 0, 0) == 0 && chdirs == 0 && masks == 1 && mask_is == 0, "without a directory the daemon stays where it is");
}
static void back(void) { zv_check(0, "only the daemon goes on"); }
#define ENDS(NAME, A, B, CODE, SET, WAITS) void lemma_##NAME##_p20_nf(void) { start(A, B); may_exit = 1; want_exit = CODE; want_waits = WAITS; SET; zt_daemonize("/ro", 0, 0); back(); zv_reach(ENDED); }
ENDS(parent, 7, 0, 0, , 1) ENDS(child, 0, 7, 0, , 0) ENDS(nofork, -1, 0, 1, , 0) ENDS(nosecond, 0, -1, 1, , 0) ENDS(nosession, 0, 0, 1, sid_fails = 1, 0) ENDS(nolimit, 0, 0, 1, limit_fails = 1, 0) ENDS(badroot, 0, 0, 1, dir_fails = 1, 0)
/* the pid file */
static char name_is[16]; static int made, mode_is, create_fails, write_fails, interrupted, close_fails, writes, short_write, open_now; static char text[32]; static int texts;
int creat(const char *p, mode_t m) { if (create_fails) { errno = EACCES; return -1; } strncpy(name_is, p, 15); mode_is = (int)m; made++; open_now++; files[9] = 4; return 9; }
ssize_t write(int fd, const void *b, size_t n) {
    writes++;
    if (fd != 9 || !files[9]) { errno = EBADF; return -1; }
    if (interrupted-- > 0) { errno = EINTR; return -1; }
    if (write_fails) { errno = ENOSPC; return -1; }
    if (short_write) n--;
    for (size_t i = 0; i < n; i++) if (texts < 31) text[texts++] = ((const char *)b)[i];
    return (ssize_t)n;
}
pid_t getpid(void) { return 4321; }
void lemma_pid_p40_nf(void) {
    zv_check(zt_writepid("/run/x") == 0 && made == 1 && !strcmp(name_is, "/run/x") && mode_is == 0644, "the file asked for is made, readable by all");
    zv_check(texts == 5 && !strcmp(text, "4321\n"), "it holds the number of the process");
    zv_check(!files[9] && closes == 1, "the file is closed");
}
void lemma_pidagain_p40_nf(void) {
    interrupted = 2;
    zv_check(zt_writepid("/run/x") == 0 && !strcmp(text, "4321\n") && writes == 3, "an interrupted write is taken up again");
}
void lemma_pidfails_p40_nf(void) {
    int ok = 0;
    create_fails = 1; ok += zt_writepid("/x") == -1; create_fails = 0;
    write_fails = 1; ok += zt_writepid("/x") == -1 && !files[9]; write_fails = 0;
    short_write = 1; ok += zt_writepid("/x") == -1 && !files[9]; short_write = 0;
    ok += zt_writepid(NULL) == -1;
    zv_check(ok == 4, "a failure is told and leaves no file open");
}
