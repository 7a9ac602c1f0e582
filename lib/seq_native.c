/*
 * Native replay of a schedule: each thread is a coroutine that is resumed
 * for one step at a time; vp_yield() is called in front of every memory
 * access of the instrumented code.
 */
#define _GNU_SOURCE
#include <ucontext.h>
#include <stdint.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include "vp.h"

#define NT 4
static ucontext_t main_ctx, ctx[NT];
static char stacks[NT][262144];
static int cur = -1, started[NT], idle[NT] = {1, 1, 1, 1}, first[NT];
void vp_thread_native(int t);	/* runs one operation: begin, call, end */

static void body(int t)
{
	for (;;) {
		first[t] = 1;
		idle[t] = 0;
		vp_thread_native(t);
		idle[t] = 1;
		swapcontext(&ctx[t], &main_ctx);
	}
}
void vp_yield(void)
{
	if (cur < 0)
		return;
	if (first[cur]) {
		first[cur] = 0;
		return;
	}
	swapcontext(&ctx[cur], &main_ctx);
	first[cur] = 0;
}
static void step(int t)
{
	if (!started[t]) {
		started[t] = 1;
		getcontext(&ctx[t]);
		ctx[t].uc_stack.ss_sp = stacks[t];
		ctx[t].uc_stack.ss_size = sizeof(stacks[t]);
		ctx[t].uc_link = &main_ctx;
		makecontext(&ctx[t], (void (*)(void)) body, 1, t);
	}
	cur = t;
	swapcontext(&main_ctx, &ctx[t]);
	cur = -1;
}
void vp_step0(void) { step(0); }
void vp_step1(void) { step(1); }
void vp_step2(void) { step(2); }
_Bool vp_idle0(void) { return idle[0]; }
_Bool vp_idle1(void) { return idle[1]; }
_Bool vp_idle2(void) { return idle[2]; }

void *vp_cpy2(void *d, const void *s, uint64_t n)
{
	vp_yield();
	memmove(d, s, n / 2);
	vp_yield();
	memmove((char *) d + n / 2, (const char *) s + n / 2, n - n / 2);
	return d;
}
void vp_cpy2v(void *d, const void *s, uint64_t n, _Bool is_volatile) { vp_cpy2(d, s, n); }
int vp_pthread_mutex_lock(void *m);
int vp_pthread_mutex_unlock(void *m);
int vp_pthread_mutex_trylock(void *m);
int vp_n_pthread_mutex_lock(void *m)
{
	vp_yield();
	while (cur >= 0 && *(int *) m != 0)
		swapcontext(&ctx[cur], &main_ctx);
	return vp_pthread_mutex_lock(m);
}
int vp_n_pthread_mutex_unlock(void *m) { vp_yield(); return vp_pthread_mutex_unlock(m); }
int vp_n_pthread_mutex_trylock(void *m) { vp_yield(); return vp_pthread_mutex_trylock(m); }
