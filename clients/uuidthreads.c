#include "lemma.h"
#include <time.h>
#include <unistd.h>
#include <libzt/zt_uuid.h>
/* whatever the generator draws; each thread has its own */
#include <pthread.h>
#include <sys/time.h>
static void *slot[2]; static int who, once, same;
int pthread_once(pthread_once_t *o, void (*fn)(void)) { if (!once) { once = 1; fn(); } return 0; }
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = 5; return 0; }
void *pthread_getspecific(pthread_key_t k) { return slot[who]; }
int pthread_setspecific(pthread_key_t k, const void *v) { slot[who] = (void *)v; return 0; }
int gettimeofday(struct timeval *t, void *z) { t->tv_sec = 1700000000; t->tv_usec = 17; return 0; }
time_t time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
int clock_gettime(clockid_t c, struct timespec *t) { t->tv_sec = 1700000000; t->tv_nsec = 17000; return 0; }
pthread_t pthread_self(void) { return (pthread_t)(0x7000 + 0x1000 * who); }
int getpid(void) { return 77; }
/* the generator is only handed to the operations below, so its address is all that matters */
void *calloc(size_t n, size_t m) { return (void *)(uintptr_t)(0x10000 + 0x2000 * who); }
void *malloc(size_t n) { return calloc(n, 1); }
static uint32_t drawn[4]; static int draws; static int seeded[2], early; static zt_random_state *state[2];
static uint32_t seed[2][8]; static size_t seedn[2];
uint32_t zt_random_uint32(zt_random_state *s) { if (!state[who]) state[who] = s; same |= s != state[who] || s == state[!who]; early |= !seeded[who]; return draws < 4 ? drawn[draws++] : 0; }
void zt_random_srandom(zt_random_state *s, uint32_t v) { seeded[who]++; state[who] = s; seed[who][0] = v; seedn[who] = 1; }
void zt_random_initstate(zt_random_state *s, uint32_t k[], size_t n) { seeded[who]++; state[who] = s; for (size_t i = 0; i < n && i < 8; i++) seed[who][i] = k[i]; seedn[who] = n; }
/* two threads whose first uuids are made at the same instant */
void lemma_threads_p20_nf(void) {
    zt_uuid_t u; int differ = 0;
    zt_uuid4(&u); who = 1; draws = 0; zt_uuid4(&u); who = 0; draws = 0; zt_uuid4(&u); who = 1; draws = 0; zt_uuid4(&u);
    zv_check(draws == 4 && !same && state[0] != state[1], "each thread draws from a generator of its own");
    zv_check(seeded[0] == 1 && seeded[1] == 1 && !early, "each thread seeds its generator once");
    if (seedn[0] != seedn[1]) differ = 1;
    for (size_t i = 0; i < seedn[0] && i < seedn[1]; i++) if (seed[0][i] != seed[1][i]) differ = 1;
    zv_check(differ, "threads that start together do not have the same seed");
}
