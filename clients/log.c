#include "lemma.h"
#include <stdarg.h>
#include <stdio.h>
#include <unistd.h>
#include <time.h>
#include <pthread.h>
#include <syslog.h>
#include <libzt/zt_log/log_private.h>
#include <libzt/zt_log/log_file.h>
#include <libzt/zt_log/log_syslog.h>
extern char zv_out[]; extern int zv_out_len; extern FILE *zv_out_file;
static int eq(const char *a, const char *b) { return strcmp(a, b) == 0; }
#define CLEAR() (zv_out_len = 0, zv_out[0] = 0, zv_out_file = NULL)
/* the surroundings */
static const char *host = "box.example.org";
int gethostname(char *b, size_t n) { if (host == NULL) return -1; strcpy(b, host); return 0; }
int getpid(void) { return 4321; }
time_t time(time_t *t) { if (t) *t = 1000; return 1000; }
static struct tm when;
struct tm *localtime(const time_t *t) { return &when; }
size_t strftime(char *b, size_t n, const char *f, const struct tm *tm) { strcpy(b, "Jan 02 03:04:05 "); return 16; }
char *strerror(int e) { return e == 2 ? "No such file" : "Other"; }
int atexit(void (*fn)(void)) { return 0; }
/* locks: the logger's own and the one for the default logger */
static int held, misuse, mgone;
static const void *lockp[4];
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { for (int i = 0; i < 4; i++) if (lockp[i] == m) misuse |= 1; if (held < 4) lockp[held] = m; held++; return 0; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (held == 0 || lockp[held - 1] != m) misuse |= 2; else { held--; lockp[held] = NULL; } return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (held) misuse |= 4; mgone++; return 0; }
static void *slot[2]; static int who, keys, once;
int pthread_once(pthread_once_t *o, void (*fn)(void)) { if (!once) { once = 1; fn(); } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { keys++; *k = 5; return 0; }
void *pthread_getspecific(pthread_key_t k) { return slot[who]; }
int pthread_setspecific(pthread_key_t k, const void *v) { slot[who] = (void *)v; return 0; }
/* files */
static FILE *opened; static const char *omode, *oname; static int closed, flushed; static char thefile;
FILE *fopen(const char *n, const char *m) { oname = n; omode = m; return opened; }
int fclose(FILE *f) { if (f != opened) misuse |= 8; closed++; return 0; }
int fflush(FILE *f) { flushed++; return 0; }
#define FREE(what) zv_check(held == 0 && misuse == 0, what)
/* a message is written exactly when its level is not above the logger's */
void lemma_level_p90_nf(void) {
    int lim = zv_int(), lev = zv_int();
    zt_log_ty *log = zt_log_stderr(ZT_LOG_RAW);
    zv_assume(lim >= 0 && lim <= zt_log_max && lev >= 0 && lev < zt_log_max);
    zv_check(zt_log_get_level(log) == zt_log_max, "a new logger writes every level");
    zv_check(zt_log_set_level(log, (zt_log_level)lim) == zt_log_max && (int)zt_log_get_level(log) == lim, "the level is set and the former one returned");
    CLEAR();
    zt_log_lprintf(log, (zt_log_level)lev, "a%sb", "X");
    zv_check((zv_out_len != 0) == (lev <= lim), "a message is written exactly when its level is enabled");
    zv_check(lev > lim || (eq(zv_out, "aXb\n") && zv_out_file == stderr), "a message is written as formatted, on a line");
    CLEAR();
    zt_log_lstrerror(log, (zt_log_level)lev, 2, "open %d", 7);
    zv_check((zv_out_len != 0) == (lev <= lim), "an error message is written exactly when its level is enabled");
    zv_check(lev > lim || eq(zv_out, "open 7: No such file\n"), "an error message ends with the description of the error");
    FREE("logging leaves no lock held");
}
static const char *const NAME[8] = { "Emergency", "Alert", "Critical", "Error", "Warning", "Notice", "Info", "Debug" };
void lemma_names_p90_nf(void) {
    zt_log_ty *log = zt_log_stderr(ZT_LOG_WITH_LEVEL);
    for (int i = 0; i < 8; i++) {
        char want[40];
        CLEAR(); zt_log_lprintf(log, (zt_log_level)i, "m%d", i);
        strcpy(want, NAME[i]); strcat(want, ": m"); want[strlen(want) + 1] = 0; want[strlen(want)] = (char)('0' + i); strcat(want, "\n");
        zv_check(eq(zv_out, want), "the name of the level comes before the message");
    }
}
#define PREFIX(N, OPTS, WANT) void lemma_prefix##N##_p90_nf(void) { \
    zt_log_ty *log = zt_log_stderr(ZT_LOG_RAW); \
    zt_progname("prog", 0); \
    zv_check(zt_log_set_opts(log, OPTS) == ZT_LOG_RAW && zt_log_get_opts(log) == (OPTS), "the options are set and the former ones returned"); \
    CLEAR(); zt_log_lprintf(log, zt_log_err, "v=%d 100%%", 5); \
    zv_check(eq(zv_out, WANT "v=5 100%\n"), "the asked for prefixes come before the message"); \
    CLEAR(); ZT_LOG_DEBUG_INFO_AS("f.c", 42, "fn"); zt_log_lprintf(log, zt_log_err, "v=%d", 6); \
    zv_check(eq(zv_out, WANT "v=6: in fn at (f.c:42)\n"), "the place comes after the message"); \
    CLEAR(); zt_log_lprintf(log, zt_log_err, "v=%d", 7); \
    zv_check(eq(zv_out, WANT "v=7\n"), "the place is valid for one message"); \
    FREE("logging leaves no lock held"); }
#define ZT_LOG_DEBUG_INFO_AS(f, l, n) zt_log_set_debug_info(f, l, n)
PREFIX(0, ZT_LOG_RAW, "") PREFIX(1, ZT_LOG_WITH_LEVEL, "Error: ") PREFIX(2, ZT_LOG_WITH_PROGNAME, "prog: ") PREFIX(3, ZT_LOG_WITH_PID, "[4321]: ")
PREFIX(4, ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_PID, "prog[4321]: ") PREFIX(5, ZT_LOG_WITH_DATE, "Jan 02 03:04:05 : ") PREFIX(6, ZT_LOG_WITH_SYSNAME, "box: ")
PREFIX(7, ZT_LOG_EMU_SYSLOG, "Jan 02 03:04:05 box prog[4321]: ") PREFIX(8, ZT_LOG_EMU_SYSLOG | ZT_LOG_WITH_LEVEL, "Jan 02 03:04:05 box prog[4321]: Error: ")
PREFIX(9, ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_LEVEL, "prog: Error: ")
/* text that looks like a format prints as it is */
void lemma_percent_p90_nf(void) {
    zt_log_ty *log = zt_log_stderr(ZT_LOG_WITH_PROGNAME | ZT_LOG_WITH_SYSNAME);
    zt_progname("p%sq", 0); host = "h%d";
    CLEAR(); zt_log_set_debug_info("a%nb.c", 3, "f%s");
    zt_log_lprintf(log, zt_log_err, "x%d", 1);
    zv_check(eq(zv_out, "h%d p%sq: x1: in f%s at (a%nb.c:3)\n"), "a per cent sign in a name is written as it is");
    host = NULL;
    CLEAR(); zt_log_lprintf(log, zt_log_err, "x");
    zv_check(eq(zv_out, "*hostname* p%sq: x\n"), "an unknown host is named so");
}
/* an empty message is a message */
void lemma_empty_p90_nf(void) {
    zt_log_ty *log = zt_log_stderr(ZT_LOG_WITH_LEVEL);
    CLEAR(); zt_log_lprintf(log, zt_log_err, "%s", ""); zv_check(eq(zv_out, "Error: \n"), "a message without text is a line");
    CLEAR(); zt_log_lprintf(log, zt_log_err, ""); zv_check(eq(zv_out, "Error: \n"), "an empty message is a line");
    CLEAR(); zt_log_lstrerror(log, zt_log_err, 2, ""); zv_check(eq(zv_out, "Error: : No such file\n"), "an error without text has its description");
    ZT_LOG_DEBUG_INFO_AS("f.c", 42, "fn");
    CLEAR(); zt_log_lprintf(log, zt_log_err, ""); zv_check(eq(zv_out, "Error: : in fn at (f.c:42)\n"), "an empty message has its place");
    FREE("logging leaves no lock held");
}
/* disabled messages use up the place, too */
void lemma_place_p90_nf(void) {
    const char *f, *n; int l;
    zt_log_ty *log = zt_log_stderr(ZT_LOG_RAW);
    zt_log_set_level(log, zt_log_err);
    zt_log_set_debug_info("f.c", 9, "fn");
    zt_log_get_debug_info(&f, &l, &n);
    zv_check(eq(f, "f.c") && l == 9 && eq(n, "fn"), "the place is noted");
    zt_log_lprintf(log, zt_log_debug, "no");
    CLEAR(); zt_log_lprintf(log, zt_log_err, "yes");
    zv_check(eq(zv_out, "yes\n"), "a message that is not written uses up its place");
    zt_log_set_debug_info("f.c", 9, "fn"); zt_log_lstrerror(log, zt_log_debug, 1, "no");
    CLEAR(); zt_log_lprintf(log, zt_log_err, "yes");
    zv_check(eq(zv_out, "yes\n"), "an error message that is not written uses up its place");
    zt_log_set_debug_info("f.c", 9, "fn");
    CLEAR(); zt_log_lstrerror(log, zt_log_err, 2, "e");
    zv_check(eq(zv_out, "e: No such file: in fn at (f.c:9)\n"), "an error message has its place");
    CLEAR(); zt_log_lprintf(log, zt_log_err, "yes");
    zv_check(eq(zv_out, "yes\n"), "the place of an error message is valid for one message");
    /* another thread */
    zt_log_set_debug_info("f.c", 9, "fn");
    who = 1;
    CLEAR(); zt_log_lprintf(log, zt_log_err, "other");
    zv_check(eq(zv_out, "other\n"), "the place is not that of another thread");
    who = 0;
    CLEAR(); zt_log_lprintf(log, zt_log_err, "mine");
    zv_check(eq(zv_out, "mine: in fn at (f.c:9)\n"), "the place survives messages of other threads");
    zv_check(slot[0] != slot[1] && slot[0] != NULL && slot[1] != NULL && keys == 1, "every thread has its place");
}
/* the default logger */
void lemma_default_p90_nf(void) {
    zt_log_ty *a = zt_log_stderr(ZT_LOG_RAW), *b = zt_log_stderr(ZT_LOG_WITH_LEVEL), *d;
    d = zt_log_logger(NULL);
    zv_check(d != NULL && d != a && d != b, "there is always a default logger");
    CLEAR(); zt_log_lprintf(NULL, zt_log_crit, "m"); zv_check(eq(zv_out, "Critical: m\n"), "the default logger names the level");
    zv_check(zt_log_logger(a) == d, "setting the default returns the former one");
    CLEAR(); zt_log_lprintf(NULL, zt_log_crit, "m"); zv_check(eq(zv_out, "m\n"), "messages without a logger go to the default one");
    zv_check(zt_log_logger(b) == a, "setting the default returns the former one");
    CLEAR(); zt_log_lprintf(NULL, zt_log_crit, "m"); zv_check(eq(zv_out, "Critical: m\n"), "messages without a logger go to the default one");
    CLEAR(); zt_log_lprintf(a, zt_log_crit, "n"); zv_check(eq(zv_out, "n\n"), "a message goes to the logger it names");
    zv_check(zt_log_set_level(NULL, zt_log_err) == zt_log_max && zt_log_get_level(b) == zt_log_err && zt_log_get_level(a) == zt_log_max && zt_log_get_level(NULL) == zt_log_err, "the level without a logger is that of the default one");
    zv_check(zt_log_set_opts(NULL, ZT_LOG_WITH_PID) == ZT_LOG_WITH_LEVEL && zt_log_get_opts(b) == ZT_LOG_WITH_PID && zt_log_get_opts(NULL) == ZT_LOG_WITH_PID && zt_log_get_opts(a) == ZT_LOG_RAW, "the options without a logger are those of the default one");
    zt_log_close(a);
    CLEAR(); zt_log_lprintf(NULL, zt_log_info, "m"); zv_check(eq(zv_out, "[4321]: m\n") == 0 && zv_out_len == 0, "closing another logger keeps the default one and its level");
    zt_log_lprintf(NULL, zt_log_err, "m"); zv_check(eq(zv_out, "[4321]: m\n"), "closing another logger keeps the default one");
    zt_log_close(b);
    CLEAR(); zt_log_lprintf(NULL, zt_log_crit, "m"); zv_check(eq(zv_out, "Critical: m\n"), "closing the default logger brings a new one");
    zv_check(mgone == 2, "closing disposes of the lock");
    zt_log_close(NULL);
    FREE("changing loggers leaves no lock held");
}
static int exclusive; 
void lemma_file_p90_nf(void) {
    zt_log_ty *log;
    opened = (FILE *)&thefile;
    log = zt_log_file("name", ZT_LOG_FILE_APPEND, ZT_LOG_RAW);
    if (log == NULL) return;
    zv_check(eq(oname, "name") && eq(omode, "a"), "appending keeps the file");
    CLEAR(); zt_log_lprintf(log, zt_log_err, "m%d", 1);
    zv_check(zv_out_file == opened && eq(zv_out, "m1\n"), "a file logger writes to its file");
    FREE("a file logger leaves its lock free");
    zt_log_close(log);
    zv_check(closed == 1 && mgone == 1, "closing a file logger closes its file once");
    FREE("closing leaves no lock held");
}
void lemma_over_p90_nf(void) {
    zt_log_ty *log;
    opened = (FILE *)&thefile;
    log = zt_log_file("name", ZT_LOG_FILE_OVERWRITE, ZT_LOG_WITH_LEVEL);
    zv_check(eq(oname, "name") && eq(omode, "w"), "overwriting empties the file");
    CLEAR(); zt_log_lprintf(log, zt_log_err, "m%d", 1);
    zv_check(zv_out_file == opened && eq(zv_out, "Error: m1\n"), "a file logger writes to its file");
    opened = NULL;
    zv_check(zt_log_file("name", ZT_LOG_FILE_OVERWRITE, ZT_LOG_RAW) == NULL, "a file that cannot be opened gives no logger");
}
static int prio = -1, sysopt, sysfac, sysopen, sysclose; static const char *sysname;
void vsyslog(int p, const char *f, va_list ap) { prio = p; vprintf(f, ap); }
void openlog(const char *n, int o, int f) { sysname = n; sysopt = o; sysfac = f; sysopen++; }
void closelog(void) { sysclose++; }
void lemma_syslog_p90_nf(void) {
    static const int P[8] = { LOG_EMERG, LOG_ALERT, LOG_CRIT, LOG_ERR, LOG_WARNING, LOG_NOTICE, LOG_INFO, LOG_DEBUG };
    zt_log_ty *log;
    zt_progname("prog", 0);
    log = zt_log_syslog2(ZT_LOG_WITH_PID, LOG_DAEMON);
    zv_check(eq(sysname, "prog") && sysopt == LOG_PID && sysfac == LOG_DAEMON && sysopen == 1, "the system log is opened in the program's name");
    for (int i = 0; i < 8; i++) {
        CLEAR(); zt_log_lprintf(log, (zt_log_level)i, "m%d", 4);
        zv_check(prio == P[i], "each level has its priority in the system log");
        zv_check(eq(zv_out, "m4\n"), "the system log adds the rest");
    }
    zt_log_set_opts(log, ZT_LOG_WITH_LEVEL | ZT_LOG_WITH_PID);
    CLEAR(); zt_log_lprintf(log, zt_log_info, "m"); zv_check(eq(zv_out, "Info: m\n"), "the level is named when asked for");
    zt_log_close(log);
    zv_check(sysclose == 1, "closing closes the system log");
    zt_log_syslog();
    zv_check(sysopt == LOG_PID && sysfac == LOG_USER, "the ready-made system logger is a user's with process ids");
    zt_log_syslog2(0, LOG_USER);
    zv_check(sysopt == 0, "no process ids unless asked for");
}
