/* Lemma clients: analysed together with the library, never compiled to a program and never run.
 * zv_assume states what is known of the pre-state, zv_check what must follow on every path. */
#ifndef LEMMA_H
#define LEMMA_H
#ifdef HAVE_CONFIG_H
#include <libzt/zt_config.h>
#endif
#include <zt.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <errno.h>
void zv_assume(int c);
void zv_check(int c, const char *label);
void zv_reach(const char *label);      /* some path must get here */
int zv_int(void);                      /* any value */
unsigned long zv_ulong(void);
void *zv_ptr(void);
/* the library touches the n bytes at p only while *held is not 0 */
void zv_guard(const void *p, unsigned long n, const int *held, const char *label);
#endif
