#include "lemma.h"
#include <sys/stat.h>
#include <stdarg.h>
/* the file system is a set of directories; each call of mkdir and stat is decided by it */
static char dirs[8][64];
static int ndirs, made, looked, stops_at, raced_at, wrong_mode; static mode_t want = 0751;
static const char *file;
static void plain(char *o, const char *p) {
    int n = 0;
    for (int i = 0; p[i]; i++) if (!(p[i] == '/' && n && o[n - 1] == '/')) o[n++] = p[i];
    if (n > 1 && o[n - 1] == '/') n--;
    o[n] = 0;
}
static int have(const char *p) {
    for (int i = 0; i < ndirs; i++) if (!strcmp(dirs[i], p)) return 1;
    return file && !strcmp(file, p);
}
static void put(const char *p) { plain(dirs[ndirs++], p); }
int mkdir(const char *p, mode_t m) {
    char a[64], up[64]; int n;
    if (m != want) wrong_mode = 1;
    if (++made == stops_at) { errno = EACCES; return -1; }
    plain(a, p);
    if (!strcmp(a, "/") || have(a)) { errno = EEXIST; return -1; }
    strcpy(up, a); n = (int)strlen(up);
    while (n > 0 && up[n - 1] != '/') n--;
    if (n > 1) { up[n - 1] = 0; if (!have(up)) { errno = ENOENT; return -1; } if (file && !strcmp(up, file)) { errno = ENOTDIR; return -1; } }
    put(a);
    return 0;
}
int stat(const char *restrict p, struct stat *restrict s) {
    char a[64];
    looked++;
    memset(s, 0, sizeof *s);
    plain(a, p);
    s->st_mode = file && !strcmp(a, file) ? S_IFREG | 0644 : S_IFDIR | 0755;
    if (!strcmp(a, "/") || have(a)) return 0;
    if (looked == raced_at) put(a);        /* someone else makes it, right after it was found missing */
    errno = ENOENT;
    return -1;
}
static void none(void) { ndirs = made = looked = stops_at = raced_at = wrong_mode = 0; file = NULL; }

/* path, its directories from the top */
static void upto(int k, const char *a, const char *b, const char *c) { if (k > 0) put(a); if (k > 1) put(b); if (k > 2) put(c); }
static void full(const char *p, const char *a, const char *b, const char *c, int n, int k) {
    char e[64]; int r;
    none(); upto(k, a, b, c);
    r = zt_mkdir(p, 0751, zt_mkdir_create_parent);
    plain(e, p);
    zv_check(r == 0, "with parents asked for a path is made");
    zv_check(have(e), "the directory is there after success");
    zv_check(ndirs == n, "exactly the missing directories are made");
    zv_check(!wrong_mode, "each directory gets the mode asked for");
    zv_check(have(a) && (n < 2 || have(b)) && (n < 3 || have(c)), "each parent is there after success");
    none(); upto(k, a, b, c);
    r = zt_mkdir(p, 0751, (zt_mkdir_flags)0);
    zv_check((r == 0) == (k >= n - 1), "without parents asked for, a path whose parent is missing is refused");
    zv_check(ndirs == (k >= n - 1 ? n : k), "without parents asked for, no parent is made");
    zv_check(made == 1, "without parents asked for, one directory is tried");
}
#define PATH(NAME, P, A, B, C, N) void lemma_make_##NAME##_p40(void) { for (int k = 0; k <= N; k++) full(P, A, B, C, N, k); }
PATH(one, "a", "a", "", "", 1) PATH(two, "a/b", "a", "a/b", "", 2) PATH(three, "a/bc/d", "a", "a/bc", "a/bc/d", 3)
PATH(abs1, "/ab", "/ab", "", "", 1) PATH(abs2, "/a/b", "/a", "/a/b", "", 2) PATH(abs3, "/a/b/c", "/a", "/a/b", "/a/b/c", 3)
PATH(tail, "a/b/", "a", "a/b", "", 2) PATH(twice, "a//b", "a", "a/b", "", 2) PATH(abstail, "/a/b/", "/a", "/a/b", "", 2)
#define MODE(NAME, M) void lemma_mode_##NAME##_p40(void) { \
    none(); want = M; \
    zv_check(zt_mkdir("a/b/c", M, zt_mkdir_create_parent) == 0 && ndirs == 3 && !wrong_mode, "a directory and its parents get exactly the mode asked for"); \
    none(); want = M; \
    zv_check(zt_mkdir("a", M, (zt_mkdir_flags)0) == 0 && ndirs == 1 && !wrong_mode, "a directory gets exactly the mode asked for"); }
MODE(none, 0) MODE(noread, 0300) MODE(group, 02070) MODE(all, 07777)
void lemma_root_p40(void) {
    none();
    zv_check(zt_mkdir("/", 0751, zt_mkdir_create_parent) == 0 && zt_mkdir("/", 0751, (zt_mkdir_flags)0) == 0 && ndirs == 0, "a directory that is there already is success");
}
void lemma_fails_p40(void) {
    for (int at = 1; at <= 5; at++) {
        int r;
        none(); stops_at = at;
        r = zt_mkdir("a/b/c", 0751, zt_mkdir_create_parent);
        /* calls: the path, a, a/b, the path again */
        zv_check(at < 2 || at > 4 || r == -1, "a directory that cannot be made is reported");
        zv_check(r == 0 || !have("a/b/c"), "a failure is not reported as success");
        zv_check(r != 0 || have("a/b/c"), "success means the directory is there");
        zv_check(made <= 5, "a directory that cannot be made is not tried for ever");
    }
    for (int at = 1; at <= 2; at++) {
        none(); put("a"); stops_at = at;
        zv_check((zt_mkdir("a/b", 0751, (zt_mkdir_flags)0) == -1) == (at == 1), "a refused directory is a failure");
    }
}
void lemma_race_p40(void) {
    for (int at = 1; at <= 3; at++) {
        none(); raced_at = at;
        zv_check(zt_mkdir("a/b/c/d", 0751, zt_mkdir_create_parent) == 0 && have("a/b/c/d"), "a parent that someone else makes meanwhile is there");
        zv_check(ndirs == 4, "a parent that someone else makes meanwhile is not lost");
    }
}
void lemma_file_p40(void) {
    none(); file = "a";
    zv_check(zt_mkdir("a/b", 0751, zt_mkdir_create_parent) == -1 && ndirs == 0, "a path through a file is refused");
}
static char far[PATH_MAX + 32];
void lemma_long_p40(void) {
    memset(far, 'a', PATH_MAX + 8);
    none(); stops_at = 1;
    errno = 0;
    zv_check(zt_mkdir(far, 0751, zt_mkdir_create_parent) == -1, "a path that is too long is refused");
    zv_check(errno == ENAMETOOLONG, "a path that is too long is told as that");
    zv_check(zt_find_basedir(far, "x") == NULL, "a path too long to search is refused");
}
void lemma_exists_p40(void) {
    none(); put("a/b"); file = "f";
    zv_check(zt_path_exists("a/b") == 0 && zt_path_exists("f") == 0 && zt_path_exists("/") == 0, "what is there exists");
    zv_check(zt_path_exists("a/c") == -1 && zt_path_exists("g") == -1, "what is not there does not exist");
}
/* the longest directory on the way up from the path that holds the trigger */
static int is(char *r, const char *w) { int ok; if (!r || !w) return !r && !w; ok = !strcmp(r, w); zt_free(r); return ok; }
#define FIND(N) void lemma_find##N##_p70_nf(void) { \
        static const char *at[4] = {"/ho/js/te/.ssh", "/ho/js/.ssh", "/ho/.ssh", "/.ssh"}, *found[4] = {"/ho/js/te/", "/ho/js/", "/ho/", "/"}; \
        const char *want = NULL; \
        none(); \
        for (int i = 3; i >= 0; i--) if ((N) >> i & 1) { put(at[i]); want = found[i]; } \
        zv_check(is(zt_find_basedir("/ho/js/te", ".ssh"), want), "the longest directory that holds the name is found"); \
        zv_check(looked >= 1 && looked <= 5, "each directory on the way up is looked into once"); }
FIND(0) FIND(1) FIND(2) FIND(3) FIND(4) FIND(5) FIND(6) FIND(7) FIND(8) FIND(9) FIND(10) FIND(11) FIND(12) FIND(13) FIND(14) FIND(15)
void lemma_findrel_p70_nf(void) {
    none(); put("ab/x");
    zv_check(is(zt_find_basedir("ab/cd", "x"), "ab/"), "a relative path is searched upwards");
    zv_check(is(zt_find_basedir("ab", "x"), "ab/"), "a relative path of one part is searched");
    zv_check(is(zt_find_basedir("cd/ab", "y"), NULL), "a name that is nowhere is not found");
    zv_check(is(zt_find_basedir("", "y"), NULL), "an empty path holds nothing");
}

/* a file of the name asked for is in the way */
void lemma_inway_p64(void) {
    int r;
    none(); put("a"); file = "a/b";
    r = zt_mkdir("a/b", 0751, (zt_mkdir_flags)0);
    zv_check(r == -1 && errno == EEXIST && ndirs == 1, "a file of the name asked for is no directory");
    none(); put("a"); file = "a/b";
    r = zt_mkdir("a/b", 0751, zt_mkdir_create_parent);
    zv_check(r == -1 && errno == EEXIST && ndirs == 1, "a file of the name asked for is no directory");
    none(); put("a"); put("a/b");
    r = zt_mkdir("a/b", 0751, zt_mkdir_create_parent);
    zv_check(r == 0 && ndirs == 2, "a directory that is there is a success");
}
