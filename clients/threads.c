#include "lemma.h"
#include <sys/time.h>
#include <libzt/zt_threads.h>
/* a set of primitives that watches how the library uses them; a lock is an int that is 1 while held */
static int mutex[2], cond[2];           /* held?; broadcast count */
static int locks, conds, threads, misuse, starts, joins, ends, started_ok;
static int signals[2], broadcasts[2], thread[8];
static void *joined[8];
static void *(*start_cb[8])(void *); static void *start_arg[8], *start_thr[8];
static void (*while_waiting)(int c);
static int deny, freed;
static void *m_alloc(int type) { if (deny == 1 + locks) return NULL; return locks < 2 ? &mutex[locks++] : NULL; }
static void m_free(zt_threads_mutex *m, int type) { if (m == NULL) misuse |= 4096; freed++; }
static int m_lock(int mode, zt_threads_mutex *m) { if (*(int *)m) misuse |= 1; *(int *)m = 1; return 0; }
static int m_unlock(int mode, zt_threads_mutex *m) { if (!*(int *)m) misuse |= 2; *(int *)m = 0; return 0; }
static zt_threads_cond *c_alloc(int type) { if (deny == 3 + conds) return NULL; return conds < 2 ? &cond[conds++] : NULL; }
static void c_free(zt_threads_cond *c) { if (c == NULL) misuse |= 4096; freed += 10; }
static zt_threadpool *pool;
static int c_signal(zt_threads_cond *c, int broadcast) { int i = c == pool->oput_cond; if (broadcast) broadcasts[i]++; else signals[i]++; return 0; }
static int c_wait(zt_threads_cond *c, zt_threads_mutex *m, struct timeval *tv) {
    int i = c == pool->oput_cond;
    if (m != (i ? pool->oput_mutex : pool->iput_mutex)) misuse |= 4;
    if (!*(int *)m) misuse |= 8;
    *(int *)m = 0;
    if (mutex[0] || mutex[1]) misuse |= 16;
    if (tv == NULL && while_waiting) while_waiting(i);
    *(int *)m = 1;
    return 0;
}
static int t_start(zt_threads_thread *t, zt_threads_attr *a, void *(*cb)(void *), void *arg) {
    if (starts < 8) { start_thr[starts] = t; start_cb[starts] = cb; start_arg[starts] = arg; }
    starts++;
    return 0;
}
static void t_end(void *arg) { if (mutex[0] || mutex[1]) misuse |= 32; ends++; }
static int t_join(zt_threads_thread *t, void **data) { if (mutex[0] || mutex[1]) misuse |= 64; if (joins < 8) joined[joins] = t; joins++; return 0; }
static zt_threads_thread *t_alloc(void) { return threads < 8 ? &thread[threads++] : NULL; }
static unsigned long t_id(void) { return 77; }
static void install(void) {
    struct zt_threads_lock_callbacks l = { m_alloc, m_free, m_lock, m_unlock };
    struct zt_threads_cond_callbacks c = { c_alloc, c_free, c_signal, c_wait };
    struct zt_threads_cntrl_callbacks t = { t_start, t_end, NULL, t_id, t_join, NULL };
    zt_threads_set_lock_callbacks(&l); zt_threads_set_cond_callbacks(&c); zt_threads_set_cntrl_callbacks(&t);
    zt_threads_alloc_thread = t_alloc;
}
#define GUARD(p) do { \
    zv_guard(&(p)->iput_queue, sizeof (p)->iput_queue, (p)->iput_mutex, "the input queue is touched only under its lock"); \
    zv_guard(&(p)->oput_queue, sizeof (p)->oput_queue, (p)->oput_mutex, "the output queue is touched only under its lock"); \
    zv_guard(&(p)->kill, sizeof (p)->kill, &any_held, "the kill flag is touched only under a lock"); } while (0)
static int any_held = 1;
#define BOTH (joined[0] == start_thr[0] ? joined[1] == start_thr[1] : joined[0] == start_thr[1] && joined[1] == start_thr[0])
#define QUIET(what) zv_check(misuse == 0 && !mutex[0] && !mutex[1], what)
/* the pipes: ends 10,11 and 20,21 */
static int pipes, written[2], wrote_locked, closed;
int pipe(int fd[2]) { pipes++; fd[0] = 10 * pipes; fd[1] = 10 * pipes + 1; return 0; }
long write(int fd, const void *p, unsigned long n) {
    if (n != 1) misuse |= 128;
    if (fd == 11) written[0]++; else if (fd == 21) written[1]++; else misuse |= 256;
    return 1;
}
int close(int fd) { closed++; return 0; }
static zt_threadpool *make(int n, int pi, int po) {
    install();
    pool = zt_threadpool_init(n, n, pi, po);
    return pool;
}
/* which of the started threads is the input one */
static int in_thread(zt_threadpool *p) { return start_thr[0] == p->iput_threads[0] ? 0 : 1; }
#define INRUN(p) start_cb[in_thread(p)](p)
#define OUTRUN(p) start_cb[!in_thread(p)](p)
/* workers */
static int work[8], worked, outed[8], outs, finals, inits, item[8], res[8];
static void *w_init(void *arg) { inits++; return &inits; }
static void *w_in(void *init, void *data) {
    if (mutex[0] || mutex[1]) misuse |= 512;
    if (init != &inits) misuse |= 1024;
    if (worked < 8) work[worked] = (int)((int *)data - item);
    worked++;
    return ((int *)data - item) & 1 ? NULL : &res[(int *)data - item];
}
static void *w_out(void *init, void *data) {
    if (mutex[0] || mutex[1]) misuse |= 512;
    if (init != &inits) misuse |= 1024;
    if (outs < 8) outed[outs] = (int)((int *)data - res);
    outs++;
    return ((int *)data - res) & 2 ? data : NULL;
}
static void w_final(void *init, void *data) { if (mutex[0] || mutex[1]) misuse |= 512; if (init != &inits) misuse |= 1024; finals++; }
static void workers(void) {
    struct zt_threadpool_callbacks cb = { NULL, NULL, w_init, w_in, w_out, w_final };
    zt_threadpool_set_callbacks(&cb);
}
/* items go out in the order they came in, one at a time */
void lemma_order_p8_nf(void) {
    zt_threadpool *p = make(1, 0, 0);
    zv_check(p != NULL && locks == 2 && conds == 2, "a pool has two locks and two conditions");
    GUARD(p);
    zv_check(zt_threadpool_get_oput(p) == NULL, "an empty pool has no output");
    QUIET("looking for output leaves the locks free");
    for (int i = 0; i < 4; i++) zv_check(zt_threadpool_insert_oput(p, &res[i]) == 0, "output is taken in");
    QUIET("inserting leaves the locks free");
    zv_check(signals[1] + broadcasts[1] == 4 && signals[0] + broadcasts[0] == 0, "each insertion wakes a waiter of its queue");
    for (int i = 0; i < 4; i++) zv_check(zt_threadpool_get_oput(p) == &res[i], "output is handed out in order");
    zv_check(zt_threadpool_get_oput(p) == NULL, "output is handed out once");
    QUIET("handing out leaves the locks free");
    zt_threadpool_insert_iput(p, &item[0]);
    zv_check(signals[0] + broadcasts[0] == 1, "an input wakes a waiter of its queue");
    zv_check(zt_threadpool_get_oput(p) == NULL, "input is not output");
    QUIET("the locks are free in the end");
}
/* the input loop: drains what is there, sleeps, drains what came while asleep, ends when told to */
static int more, naps;
static void nap_in(int c) {
    if (c != 0) misuse |= 2048;
    if (naps == 0) for (int i = 0; i < more; i++) zt_threadpool_insert_iput(pool, &item[4 + i]);
    if (naps == 1) zt_threadpool_kill(pool);
    naps++;
}
#define INLOOP(N, M) void lemma_in##N##x##M##_p12_nf(void) { \
    zt_threadpool *p = make(1, 0, 0); \
    GUARD(p); \
    workers(); while_waiting = nap_in; more = M; \
    for (int i = 0; i < N; i++) zt_threadpool_insert_iput(p, &item[i]); \
    zt_threadpool_start(p); \
    zv_check(starts == 2 && start_arg[0] == p && start_arg[1] == p, "a thread of each kind is started on the pool"); \
    zv_check(start_thr[in_thread(p)] == p->iput_threads[0] && start_thr[!in_thread(p)] == p->oput_threads[0] && start_cb[0] != start_cb[1], "each thread runs its own loop"); \
    zv_check(INRUN(p) == NULL, "the loop ends when the pool is killed"); \
    QUIET("the input loop uses the locks properly and leaves them free"); \
    zv_check(ends == 1 && inits == 1, "a thread starts and ends once"); \
    zv_check(worked == N + M, "every item is worked on exactly once"); \
    for (int i = 0; i < N + M || i == 0; i++) zv_check(N + M == 0 || work[i] == (i < N ? i : 4 + i - N), "items are worked on in order"); \
    for (int i = 0; i < N + M || i == 0; i++) if (!((i < N ? i : i - N) & 1)) \
        zv_check(N + M == 0 || zt_threadpool_get_oput(p) == &res[i < N ? i : 4 + i - N], "results become output in order"); \
    zv_check(zt_threadpool_get_oput(p) == NULL, "no result, no output"); \
    zv_check(joins == 2 && BOTH, "killing waits for every thread once"); \
    zv_check(broadcasts[0] >= 1 && broadcasts[1] >= 1, "killing wakes every waiter"); }
INLOOP(0, 0) INLOOP(0, 1) INLOOP(1, 0) INLOOP(3, 2) INLOOP(2, 3)
static void nap_out(int c) {
    if (c != 1) misuse |= 2048;
    if (naps == 0) for (int i = 0; i < more; i++) zt_threadpool_insert_oput(pool, &res[4 + i]);
    if (naps == 1) zt_threadpool_kill(pool);
    naps++;
}
#define OUTLOOP(N, M) void lemma_out##N##x##M##_p12_nf(void) { \
    int f = 0; \
    zt_threadpool *p = make(1, 0, 0); \
    GUARD(p); \
    workers(); while_waiting = nap_out; more = M; \
    for (int i = 0; i < N; i++) zt_threadpool_insert_oput(p, &res[i]); \
    zt_threadpool_start(p); \
    zv_check(OUTRUN(p) == NULL, "the loop ends when the pool is killed"); \
    QUIET("the output loop uses the locks properly and leaves them free"); \
    zv_check(ends == 1 && inits == 1, "a thread starts and ends once"); \
    zv_check(outs == N + M && worked == 0, "every output is processed exactly once"); \
    for (int i = 0; i < N + M || i == 0; i++) { int k = i < N ? i : 4 + i - N; zv_check(N + M == 0 || outed[i] == k, "output is processed in order"); if (N + M && k & 2) f++; } \
    zv_check(finals == f, "what an output worker returns is finalised once"); }
OUTLOOP(0, 0) OUTLOOP(0, 1) OUTLOOP(1, 0) OUTLOOP(3, 4)
/* killed before a thread first looks: what is queued is still worked on */
void lemma_drain_p12_nf(void) {
    zt_threadpool *p = make(1, 0, 0);
    GUARD(p);
    workers();
    for (int i = 0; i < 3; i++) { zt_threadpool_insert_iput(p, &item[i]); zt_threadpool_insert_oput(p, &res[i]); }
    zt_threadpool_start(p); zt_threadpool_kill(p);
    INRUN(p);
    zv_check(worked == 3, "queued input is worked on after a kill");
    OUTRUN(p);
    zv_check(outs == 5, "queued output is processed after a kill");
    QUIET("a killed pool leaves the locks free");
    zv_check(naps == 0 && ends == 2, "a killed pool's threads do not wait");
}
/* whoever tests the flag and the queue and then waits holds the lock all along; killing sets the flag under both locks */
static int sig_flag;
static int k_signal(zt_threads_cond *c, int broadcast) {
    if (!*(int *)(c == pool->oput_cond ? pool->oput_mutex : pool->iput_mutex)) sig_flag |= 1;
    if (!broadcast) sig_flag |= 2;
    if (!pool->kill) sig_flag |= 4;
    return 0;
}
void lemma_kill_p8_nf(void) {
    struct zt_threads_cond_callbacks c = { c_alloc, c_free, k_signal, c_wait };
    int r;
    install(); zt_threads_set_cond_callbacks(&c);
    pool = zt_threadpool_init(2, 2, 1, 1);
    zt_threadpool_start(pool);
    int same = 0; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) same += start_cb[i] == start_cb[j];
    zv_check(starts == 4 && same == 8, "as many threads of each kind as asked for are started");
    r = zt_threadpool_kill(pool);
    zv_check(sig_flag == 0, "the flag is up when every waiter is woken, under the lock the waiters sleep with");
    zv_check(r == 0 && written[0] == 1 && written[1] == 1, "killing tells both pipes");
    zv_check(joins == 4, "every thread is waited for");
    for (int i = 0; i < 4; i++) { int n = 0; for (int j = 0; j < 4; j++) n += joined[j] == &thread[i]; zv_check(n == 1, "every thread is waited for once"); }
    QUIET("killing leaves the locks free");
}
void lemma_pipes_p8_nf(void) {
    zt_threadpool *p = make(1, 1, 1);
    int ri = zt_threadpool_iput_fd_reader(p), ro = zt_threadpool_oput_fd_reader(p);
    zv_check(zt_threadpool_iput_fd_writer(p) == ri + 1 && zt_threadpool_oput_fd_writer(p) == ro + 1 && ri + ro == 30 && pipes == 2, "each queue has a pipe of its own");
    zt_threadpool_insert_iput(p, &item[0]); zt_threadpool_insert_iput(p, &item[1]); zt_threadpool_insert_oput(p, &res[0]);
    zv_check(written[ri / 10 - 1] == 2 && written[ro / 10 - 1] == 1, "every insertion tells its pipe");
    QUIET("telling a pipe leaves the locks free");
    locks = conds = pipes = 0; written[0] = written[1] = 0;
    p = make(1, 0, 0);
    zv_check(zt_threadpool_iput_fd_reader(p) == -1 && zt_threadpool_iput_fd_writer(p) == -1 && zt_threadpool_oput_fd_reader(p) == -1 && zt_threadpool_oput_fd_writer(p) == -1, "a pool without pipes has none");
    zt_threadpool_insert_iput(p, &item[0]); zt_threadpool_insert_oput(p, &res[0]); zt_threadpool_kill(p);
    zv_check(pipes == 0 && written[0] == 0 && written[1] == 0 && misuse == 0, "a pool without pipes tells none");
}
/* allocations may fail */
void lemma_nomem_p8(void) {
    zt_threadpool *p = make(2, 1, 1);
    if (p == NULL) { zv_check(closed == 2 * pipes, "a pool that cannot be made closes its pipes"); return; }
    zv_check(p->iput_threads != NULL && p->oput_threads != NULL && p->iput_mutex != NULL && p->oput_mutex != NULL && p->iput_mutex != p->oput_mutex, "a pool is complete");
    int r = zt_threadpool_insert_iput(p, &item[0]);
    zv_check(r == 0 || r == -1, "insertion reports");
    zv_check((r == 0) == (signals[0] + broadcasts[0] == 1) && (r == 0) == (TAILQ_FIRST(&p->iput_queue) != NULL), "an insertion that is reported is made, one that fails changes nothing");
    QUIET("inserting leaves the locks free even without memory");
}
void lemma_nolock_p8_nf(void) {
    for (deny = 1; deny <= 4; deny++) {
        locks = conds = pipes = closed = freed = 0;
        zv_check(make(1, 1, 1) == NULL, "a pool that lacks a lock or condition is not handed out");
        zv_check(closed == 2 * pipes && freed == locks + 10 * conds && misuse == 0, "what was made for it is released");
    }
}
/* which loops run */
static void *my_loop(void *a) { return NULL; }
void lemma_disable_p8_nf(void) {
    zt_threadpool *p = make(2, 0, 0);
    zt_threadpool_disable_oput_loop();
    zt_threadpool_start(p);
    zv_check(starts == 2, "a disabled output loop is not started");
    zt_threadpool_kill(p);
    zv_check(joins == 2 && BOTH, "only started threads are waited for");
    starts = joins = 0; threads = 0;
    struct zt_threadpool_callbacks cb = { NULL, my_loop, NULL, NULL, NULL, NULL };
    zt_threadpool_set_callbacks(&cb); zt_threadpool_disable_iput_loop();
    zt_threadpool_start(p);
    zv_check(starts == 2 && start_cb[0] == my_loop && start_cb[1] == my_loop, "a loop of one's own is started");
    zt_threadpool_kill(p);
    zv_check(joins == 2 && BOTH, "only started threads are waited for");
    starts = 0; threads = 0;
    zt_threadpool_set_callbacks(NULL);
    zt_threadpool_start(p);
    zv_check(starts == 4 && start_cb[0] != my_loop && start_cb[1] != my_loop && start_cb[2] != my_loop && start_cb[3] != my_loop, "the default loops are back");
}
/* installing callbacks */
static int calls, a1; static void *p1, *p2, *p3;
static void *d_alloc(int t) { calls++; a1 = t; return &calls; }
static void d_free(zt_threads_mutex *m, int t) { calls += 10; a1 = t; p1 = m; }
static int d_lock(int mode, zt_threads_mutex *m) { calls += 100; a1 = mode; p1 = m; return 5; }
static int d_unlock(int mode, zt_threads_mutex *m) { calls += 1000; a1 = mode; p1 = m; return 6; }
static void d_cfree(zt_threads_cond *c) { calls += 10; p1 = c; }
static int d_signal(zt_threads_cond *c, int b) { calls += 100; p1 = c; a1 = b; return 7; }
static int d_wait(zt_threads_cond *c, zt_threads_mutex *m, struct timeval *tv) { calls += 1000; p1 = c; p2 = m; p3 = tv; return 8; }
#define RESET() (calls = a1 = 0, p1 = p2 = p3 = NULL)
void lemma_locks(void) {
    struct zt_threads_lock_callbacks l = { d_alloc, d_free, d_lock, d_unlock }, bad;
    int m = zv_int();
    zv_check(zt_threads_alloc_lock(0) == NULL && zt_threads_lock(0, &m) == 0 && zt_threads_unlock(0, &m) == 0, "without callbacks locking does nothing");
    zt_threads_free_lock(&m, 0);
    zv_check(zt_threads_set_lock_callbacks(&l) == 0, "a complete set is taken");
    RESET(); zv_check(zt_threads_alloc_lock(m) == &calls && calls == 1 && a1 == m, "allocating a lock is passed on");
    RESET(); zt_threads_free_lock(&a1, m); zv_check(calls == 10 && p1 == &a1 && a1 == m, "freeing a lock is passed on");
    RESET(); zv_check(zt_threads_lock(m, &p1) == 5 && calls == 100 && p1 == &p1 && a1 == m, "locking is passed on");
    RESET(); zv_check(zt_threads_unlock(m, &p1) == 6 && calls == 1000 && p1 == &p1 && a1 == m, "unlocking is passed on");
    for (int i = 0; i < 4; i++) {
        bad = l;
        if (i == 0) bad.alloc = NULL; else if (i == 1) bad.free = NULL; else if (i == 2) bad.lock = NULL; else bad.unlock = NULL;
        zv_check(zt_threads_set_lock_callbacks(&bad) == -1, "an incomplete set is refused");
        RESET(); zv_check(zt_threads_lock(1, &p1) == 5 && zt_threads_unlock(1, &p1) == 6 && zt_threads_alloc_lock(2) == &calls && calls == 1101, "a refused set leaves the former one in place");
    }
    zv_check(zt_threads_set_lock_callbacks(NULL) == 0, "callbacks can be taken away");
    RESET(); zv_check(zt_threads_alloc_lock(0) == NULL && zt_threads_lock(0, &m) == 0 && zt_threads_unlock(0, &m) == 0 && calls == 0, "callbacks taken away are not called");
}
void lemma_conds(void) {
    struct zt_threads_cond_callbacks l = { d_alloc, d_cfree, d_signal, d_wait }, bad;
    struct timeval tv; int m = zv_int();
    zv_check(zt_threads_cond_alloc(0) == NULL && zt_threads_cond_signal(&m, 0) == 0 && zt_threads_cond_wait(&m, &m, &tv) == 0, "without callbacks conditions do nothing");
    zt_threads_cond_free(&m);
    zv_check(zt_threads_set_cond_callbacks(&l) == 0, "a complete set is taken");
    RESET(); zv_check(zt_threads_cond_alloc(m) == &calls && calls == 1 && a1 == m, "allocating a condition is passed on");
    RESET(); zt_threads_cond_free(&a1); zv_check(calls == 10 && p1 == &a1, "freeing a condition is passed on");
    RESET(); zv_check(zt_threads_cond_signal(&p1, m) == 7 && calls == 100 && p1 == &p1 && a1 == m, "signalling is passed on");
    RESET(); zv_check(zt_threads_cond_wait(&p1, &p2, &tv) == 8 && calls == 1000 && p1 == &p1 && p2 == &p2 && p3 == &tv, "waiting is passed on");
    for (int i = 0; i < 4; i++) {
        bad = l;
        if (i == 0) bad.alloc = NULL; else if (i == 1) bad.free = NULL; else if (i == 2) bad.signal = NULL; else bad.wait = NULL;
        zv_check(zt_threads_set_cond_callbacks(&bad) == -1, "an incomplete set is refused");
        RESET(); zv_check(zt_threads_cond_signal(&p1, 0) == 7 && zt_threads_cond_wait(&p1, &p2, &tv) == 8 && zt_threads_cond_alloc(2) == &calls && calls == 1101, "a refused set leaves the former one in place");
    }
    zv_check(zt_threads_set_cond_callbacks(NULL) == 0, "callbacks can be taken away");
    RESET(); zv_check(zt_threads_cond_alloc(0) == NULL && zt_threads_cond_signal(&m, 1) == 0 && zt_threads_cond_wait(&m, &m, &tv) == 0 && calls == 0, "callbacks taken away are not called");
}
static void *(*p4)(void *);
static int e_start(zt_threads_thread *t, zt_threads_attr *a, void *(*cb)(void *), void *arg) { calls++; p1 = t; p2 = a; p4 = cb; p3 = arg; return 9; }
static void e_end(void *a) { calls += 10; p1 = a; }
static int e_kill(zt_threads_thread *t) { calls += 100; p1 = t; return 11; }
static unsigned long e_id(void) { calls += 1000; return 12; }
static int e_join(zt_threads_thread *t, void **d) { calls += 10000; p1 = t; p2 = d; return 13; }
static int e_detach(zt_threads_thread *t) { calls += 100000; p1 = t; return 14; }
void lemma_cntrl(void) {
    struct zt_threads_cntrl_callbacks l = { e_start, e_end, e_kill, e_id, e_join, e_detach }, bad;
    void *d; int m;
    zv_check(zt_threads_start(&m, &m, my_loop, &d) == 0 && zt_threads_kill(&m) == 0 && zt_threads_join(&m, &d) == 0 && zt_threads_id() == 0 && zt_threads_detach(&m) == -1, "without callbacks nothing is started");
    zt_threads_end(&m);
    zv_check(zt_threads_set_cntrl_callbacks(&l) == 0, "a complete set is taken");
    RESET(); zv_check(zt_threads_start(&m, &p1, my_loop, &d) == 9 && calls == 1 && p1 == &m && p2 == &p1 && p4 == my_loop && p3 == &d, "starting is passed on");
    RESET(); zt_threads_end(&m); zv_check(calls == 10 && p1 == &m, "ending is passed on");
    RESET(); zv_check(zt_threads_kill(&m) == 11 && calls == 100 && p1 == &m, "killing is passed on");
    RESET(); zv_check(zt_threads_id() == 12 && calls == 1000, "the identity is asked for");
    RESET(); zv_check(zt_threads_join(&m, &d) == 13 && calls == 10000 && p1 == &m && p2 == &d, "joining is passed on");
    RESET(); zv_check(zt_threads_detach(&m) == 14 && calls == 100000 && p1 == &m, "detaching is passed on");
    for (int i = 0; i < 2; i++) {
        bad = l;
        if (i == 0) bad.start = NULL; else bad.end = NULL;
        zv_check(zt_threads_set_cntrl_callbacks(&bad) == -1, "an incomplete set is refused");
        RESET(); zv_check(zt_threads_start(&m, &m, my_loop, &d) == 9 && zt_threads_kill(&m) == 11 && calls == 101, "a refused set leaves the former one in place");
    }
    bad = l; bad.kill = NULL; bad.id = NULL; bad.join = NULL; bad.detach = NULL;
    zv_check(zt_threads_set_cntrl_callbacks(&bad) == 0, "only starting and ending are required");
    RESET(); zv_check(zt_threads_kill(&m) == 0 && zt_threads_join(&m, &d) == 0 && zt_threads_id() == 0 && zt_threads_detach(&m) == -1 && calls == 0, "what a set lacks is not called");
    zv_check(zt_threads_set_cntrl_callbacks(NULL) == 0, "callbacks can be taken away");
    RESET(); zv_check(zt_threads_start(&m, &m, my_loop, &d) == 0 && calls == 0, "callbacks taken away are not called");
}
