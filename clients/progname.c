#include "lemma.h"
#include <sys/stat.h>
static const char *env_path, *there, *there2, *cwd, *self;
static int looked;
char *getenv(const char *n) { return strcmp(n, "PATH") ? NULL : (char *)env_path; }
char *getcwd(char *b, size_t n) { if (!cwd || strlen(cwd) >= n) return NULL; strcpy(b, cwd); return b; }
int stat(const char *restrict p, struct stat *restrict s) { looked++; memset(s, 0, sizeof *s); if (there && !strcmp(there, p)) return 0; if (there2 && !strcmp(there2, p)) return 0; errno = ENOENT; return -1; }
ssize_t readlink(const char *restrict p, char *restrict b, size_t n) { size_t l; if (!self) return -1; l = strlen(self); if (l > n) l = n; memcpy(b, self, l); return (ssize_t)l; }
pid_t getpid(void) { return 4711; }
static char big[PATH_MAX + 64];
void lemma_name_p70(void) {
    zv_check(!strcmp(zt_progname(NULL, 0), "*UNKNOWN*"), "an unset name is told as unknown");
    zv_check(!strcmp(zt_progname("/usr/bin/longname", STRIP_DIR), "longname"), "the directory is stripped when asked");
    zv_check(!strcmp(zt_progname(NULL, STRIP_DIR), "longname") && !strcmp(zt_progname("", 0), "longname"), "no name leaves the name that was set");
    zv_check(!strcmp(zt_progname("/u/b", 0), "/u/b"), "the name is kept as given otherwise");
    zv_check(!strcmp(zt_progname("ab", STRIP_DIR), "ab"), "a shorter name leaves nothing of a longer one");
}
void lemma_bigname_p4200(void) {
    char *r;
    memset(big, 'x', PATH_MAX + 40);
    r = zt_progname(big, 0);
    zv_check(r[PATH_MAX - 1] == 'x' && r[PATH_MAX] == 0, "a name that is too long is cut and ended");
}
#define AT(NAME, PROG, PATH, THERE, WANT, WHAT) void lemma_##NAME##_p120_nf(void) { \
    env_path = PATH; there = THERE; cwd = "/cw/d"; self = "/se/lf"; \
    zv_check(!strcmp(zt_progpath(PROG), WANT), WHAT); \
    zv_check(!strcmp(zt_progpath(NULL), WANT) && !strcmp(zt_progpath(""), WANT), "the directory that was found is kept"); }
#define ON "the first directory of PATH that holds the program is its directory"
AT(first, "pr", "/a:/b:/c", "/a/pr", "/a", ON) AT(second, "pr", "/a:/bc:/c", "/bc/pr", "/bc", ON) AT(last, "pr", "/a:/bc:/cd", "/cd/pr", "/cd", ON)
AT(only, "pr", "/us/bi", "/us/bi/pr", "/us/bi", ON) AT(end, "pr", "/a:/b:", "/b/pr", "/b", ON)
AT(nowhere, "pr", "/a:/b", "/x/pr", "/cw/d", "a program that is nowhere on PATH is in the working directory") AT(nothing, "pr", "", "/x/pr", "/cw/d", "a program that is nowhere on PATH is in the working directory")
AT(noenv, "pr", NULL, NULL, "/se", "without PATH the system is asked")
AT(abs, "/us/bi/pr", "/a:/b", "/a/pr", "/us/bi", "an absolute program is in its own directory")
AT(rel, "bi/pr", "/a:/b", "/a/pr", "/cw/d/bi", "a relative program is below the working directory") AT(dot, "./bi/pr", "/a:/b", "/a/pr", "/cw/d/bi", "a relative program is below the working directory")
void lemma_unset_p70(void) { zv_check(!strcmp(zt_progpath(NULL), "*UNKNOWN*"), "an unset directory is told as unknown"); }
void lemma_order_p120_nf(void) {
    env_path = "/a:/b"; cwd = "/c"; there = "/b/pr";
    zt_progpath("pr"); there = "/a/qq";
    zv_check(!strcmp(zt_progpath("qq"), "/a"), "each program is looked for anew");
}
void lemma_emptyentry_p120_nf(void) {
    env_path = "/a::/b"; cwd = "/cw/d"; there = "/b/pr"; there2 = "pr";
    zv_check(!strcmp(zt_progpath("pr"), "/cw/d"), "an empty entry of PATH is the working directory");
}
void lemma_emptyfirst_p120_nf(void) {
    env_path = ":/b"; cwd = "/cw/d"; there = "/b/pr"; there2 = "pr";
    zv_check(!strcmp(zt_progpath("pr"), "/cw/d"), "an empty first entry of PATH is the working directory");
}
void lemma_emptyskip_p120_nf(void) {
    env_path = "/a::/b"; cwd = "/cw/d"; there = "/b/pr"; there2 = 0;
    zv_check(!strcmp(zt_progpath("pr"), "/b"), "a program that is not in the working directory is looked for further on");
}
#define FROM(NAME, CWD, PROG, PATH, THERE, WANT, WHAT) void lemma_from_##NAME##_p120_nf(void) { \
    env_path = PATH; there = THERE; cwd = CWD; self = "/se/lf"; \
    zv_check(!strcmp(zt_progpath(PROG), WANT), WHAT); }
FROM(rootdot, "/", "./bi/pr", "/a", NULL, "/bi", "a relative program is below the root directory")
FROM(rootrel, "/", "bi/pr", "/a", NULL, "/bi", "a relative program is below the root directory")
FROM(here, "/cw/d", "./pr", "/a:/b", "/a/./pr", "/cw/d", "a program in the working directory by its path is not looked for on PATH")
FROM(hereroot, "/", "./pr", "/a:/b", "/a/./pr", "/", "a program in the working directory by its path is not looked for on PATH")
FROM(herenoenv, "/cw/d", "./pr", NULL, NULL, "/cw/d", "a program in the working directory by its path is there without PATH")
FROM(nowhereroot, "/", "pr", "/a:/b", NULL, "/", "a program that is nowhere on PATH is in the working directory")
FROM(longdot, "/a", "./b/c/d/pr", "/a", NULL, "/a/b/c/d", "a relative program is below the working directory")
FROM(up, "/a/b", "../c/pr", "/a", NULL, "/a/b/../c", "a relative program is below the working directory")
