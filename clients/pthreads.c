#include "lemma.h"
#include <sys/time.h>
#include <pthread.h>
#include <libzt/zt_threads.h>
/* the threads library, replaced by one that notes what it is asked and answers as told */
static int answer, calls, kind;
static const void *p1, *p2; static void *(*cb1)(void *); static void *arg1; static struct timespec until;
enum { LOCK = 1, TRY, UNLOCK, SIGNAL, BROADCAST, WAIT, TIMED, CREATE, CANCEL, JOIN, DETACH, MINIT, MGONE, CINIT, CGONE, EXIT };
#define NOTE(k, a, b) (calls++, kind = (k), p1 = (a), p2 = (b))
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { NOTE(MINIT, m, a); return answer; }
int pthread_mutex_destroy(pthread_mutex_t *m) { NOTE(MGONE, m, NULL); return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { NOTE(LOCK, m, NULL); return answer; }
int pthread_mutex_trylock(pthread_mutex_t *m) { NOTE(TRY, m, NULL); return answer; }
int pthread_mutex_unlock(pthread_mutex_t *m) { NOTE(UNLOCK, m, NULL); return answer; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { NOTE(CINIT, c, a); return answer; }
int pthread_cond_destroy(pthread_cond_t *c) { NOTE(CGONE, c, NULL); return 0; }
int pthread_cond_signal(pthread_cond_t *c) { NOTE(SIGNAL, c, NULL); return answer; }
int pthread_cond_broadcast(pthread_cond_t *c) { NOTE(BROADCAST, c, NULL); return answer; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { NOTE(WAIT, c, m); return answer; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { NOTE(TIMED, c, m); until = *t; return answer; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*cb)(void *), void *arg) { NOTE(CREATE, t, a); cb1 = cb; arg1 = arg; if (answer == 0) *t = 4711; return answer; }
static pthread_t who; static void **into; static void *gave;
int pthread_cancel(pthread_t t) { NOTE(CANCEL, NULL, NULL); who = t; return answer; }
int pthread_join(pthread_t t, void **d) { NOTE(JOIN, NULL, d); who = t; return answer; }
int pthread_detach(pthread_t t) { NOTE(DETACH, NULL, NULL); who = t; return answer; }
static int ended;
void pthread_exit(void *v) { zv_check(v == &ended, "ending ends the thread with its result"); exit(0); }
pthread_t pthread_self(void) { return 815; }
static struct timeval clock_now;
int gettimeofday(struct timeval *tv, void *tz) { *tv = clock_now; return 0; }
#define IS(k, a) (calls == 1 && kind == (k) && p1 == (a))
#define ASK(v) (calls = 0, answer = (v))
void lemma_mutex_nf(void) {
    int e = zv_int(); void *m;
    zt_threads_use_pthreads();
    ASK(0); m = zt_threads_alloc_lock(0); zv_check(m != NULL && IS(MINIT, m) && p2 == NULL, "a lock is initialised");
    ASK(e); zv_check(zt_threads_lock(ZT_THREADS_LOCK_BLOCKING, m) == e && IS(LOCK, m), "locking waits for the lock and reports");
    ASK(e); zv_check(zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING, m) == e && IS(TRY, m), "locking without blocking only tries");
    ASK(e); zv_check(zt_threads_lock(ZT_THREADS_LOCK_NONBLOCKING | ZT_THREADS_LOCK_DUMMY, m) == e && IS(TRY, m), "locking without blocking only tries");
    ASK(e); zv_check(zt_threads_unlock(0, m) == e && IS(UNLOCK, m), "unlocking unlocks and reports");
    ASK(0); zt_threads_free_lock(m, 0); zv_check(IS(MGONE, m), "a lock is destroyed");
    zv_assume(e != 0);
    ASK(e); zv_check(zt_threads_alloc_lock(0) == NULL, "a lock that cannot be initialised is not handed out");
}
void lemma_cond_nf(void) {
    int e = zv_int(), b = zv_int(), m; void *c;
    zt_threads_use_pthreads();
    ASK(0); c = zt_threads_cond_alloc(0); zv_check(c != NULL && IS(CINIT, c) && p2 == NULL, "a condition is initialised");
    ASK(e); zv_check(zt_threads_cond_signal(c, 0) == (e ? -1 : 0) && IS(SIGNAL, c), "a signal wakes one and reports");
    zv_assume(b != 0);
    ASK(e); zv_check(zt_threads_cond_signal(c, b) == (e ? -1 : 0) && IS(BROADCAST, c), "a broadcast wakes all and reports");
    ASK(e); zv_check(zt_threads_cond_wait(c, &m, NULL) == (e ? -1 : 0) && IS(WAIT, c) && p2 == &m, "waiting gives up the given lock and reports");
    ASK(0); zt_threads_cond_free(c); zv_check(IS(CGONE, c), "a condition is destroyed");
    zv_assume(e != 0);
    ASK(e); zv_check(zt_threads_cond_alloc(0) == NULL, "a condition that cannot be initialised is not handed out");
}
void lemma_timed_p4(void) {
    int e = zv_int(), m, c; struct timeval tv, was;
    zt_threads_use_pthreads();
    clock_now.tv_sec = (long)zv_ulong(); clock_now.tv_usec = (long)zv_ulong(); tv.tv_sec = (long)zv_ulong(); tv.tv_usec = (long)zv_ulong();
    zv_assume(clock_now.tv_sec >= 0 && clock_now.tv_sec < 0x100000000000L && tv.tv_sec >= 0 && tv.tv_sec < 0x100000000000L);
    zv_assume(clock_now.tv_usec >= 0 && clock_now.tv_usec < 1000000 && tv.tv_usec >= 0 && tv.tv_usec < 1000000);
    was = tv;
    ASK(e); int r = zt_threads_cond_wait(&c, &m, &tv);
    zv_check(IS(TIMED, &c) && p2 == &m, "a bounded wait gives up the given lock");
    zv_check(r == (e == 0 ? 0 : e == ETIMEDOUT ? 1 : -1), "a bounded wait tells a timeout from a failure");
    zv_check(until.tv_nsec >= 0 && until.tv_nsec < 1000000000, "a bounded wait ends at a proper time");
    zv_check((until.tv_sec - clock_now.tv_sec - tv.tv_sec) * 1000000000 + until.tv_nsec == (clock_now.tv_usec + tv.tv_usec) * 1000, "a bounded wait ends after the given time from now");
    zv_check(tv.tv_sec == was.tv_sec && tv.tv_usec == was.tv_usec, "waiting leaves the time alone");
}
static void *body(void *a) { return a; }
void lemma_thread_nf(void) {
    int e = zv_int(), x; void *t, *d;
    zt_threads_use_pthreads();
    t = zt_threads_alloc_thread();
    zv_check(t != NULL, "a thread handle is allocated");
    ASK(0); zv_check(zt_threads_start(t, NULL, body, &x) == 0 && IS(CREATE, t) && p2 == NULL && cb1 == body && arg1 == &x, "a thread is started with its argument");
    ASK(e); zv_check(zt_threads_join(t, &d) == e && calls == 1 && kind == JOIN && who == 4711 && p2 == &d, "joining waits for the thread and hands on its result");
    ASK(e); zv_check(zt_threads_kill(t) == e && calls == 1 && kind == CANCEL && who == 4711, "killing cancels the thread");
    ASK(e); zv_check(zt_threads_detach(t) == e && calls == 1 && kind == DETACH && who == 4711, "detaching detaches the thread");
    zv_check(zt_threads_id() == 815, "the identity is that of the thread");
    zv_assume(e != 0);
    ASK(e); zv_check(zt_threads_start(t, &d, body, &x) == -1 && IS(CREATE, t) && p2 == &d, "a thread that cannot be started is reported");
}
void lemma_end(void) { zt_threads_use_pthreads(); zt_threads_end(&ended); }
