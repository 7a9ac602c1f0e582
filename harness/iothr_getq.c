/*
 * fstrm_iothr_get_input_queue() called by NT threads at once: the solver picks
 * which thread performs the next memory access or lock operation.
 */
#include "vp.h"
#include <pthread.h>
#include <signal.h>
#include <string.h>
#include <time.h>
#include <fstrm.h>
#include "iothr_shared.h"

void vp_step0(void);
void vp_step1(void);
void vp_step2(void);
bool vp_idle0(void);
bool vp_idle1(void);
bool vp_idle2(void);

#define HELD(m) (*(int *) (m))
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { HELD(m) = 0; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { vp_assert(HELD(m) == 0, "a lock is free when it is destroyed"); return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { vp_assert(HELD(m) == 0, "no lock is taken twice"); HELD(m) = 1; return 0; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { vp_assert(HELD(m) == 1, "only a held lock is released"); HELD(m) = 0; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { if (HELD(m)) return 16; HELD(m) = 1; return 0; }
int vp_pthread_condattr_init(pthread_condattr_t *a) { return 0; }
int vp_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int vp_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { return 0; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { return 0; }
int vp_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
int vp_pthread_cond_signal(pthread_cond_t *c) { return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { return 0; }
int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return 0; }
int vp_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return 0; }
int vp_sigemptyset(sigset_t *s) { return 0; }
int vp_sigfillset(sigset_t *s) { return 0; }
int vp_sigaddset(sigset_t *s, int n) { return 0; }
int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { return 0; }
int vp_pthread_join(pthread_t t, void **r) { return 0; }
int vp_clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = 100; ts->tv_nsec = 0; return 0; }
fstrm_res fstrm_writer_open(struct fstrm_writer *w) { return fstrm_res_success; }
fstrm_res fstrm_writer_close(struct fstrm_writer *w) { return fstrm_res_success; }
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w) { *w = NULL; return fstrm_res_success; }
fstrm_res fstrm_writer_write(struct fstrm_writer *w, const void *p, size_t n) { return fstrm_res_success; }
fstrm_res fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *v, int n) { return fstrm_res_success; }

struct fstrm_iothr *io;
static struct fstrm_iothr_queue *queue[NQ];
static unsigned nops[NT], handed[NQ], n_handed, snap[NT];
static bool busy[NT];

void vp_op_begin(int t, uint64_t *a)
{
	busy[t] = true;
}
void vp_op_end(int t, uint64_t ret)
{
	struct fstrm_iothr_queue *q = (struct fstrm_iothr_queue *) ret;
	unsigned others = 0;
	for (int i = 0; i < NT; i++)
		if (i != t && busy[i])
			others++;
	if (q == NULL) {
		vp_assert(n_handed + others >= NQ, "no queue is withheld");
		vp_reach("opt: no queue left");
	} else {
		bool known = false;
		for (unsigned i = 0; i < NQ; i++)
			if (q == queue[i]) {
				known = true;
				vp_assert(handed[i] == 0, "each input queue is handed out once");
				handed[i]++;
			}
		vp_assert(known, "the queues handed out are the thread's queues");
		n_handed++;
		vp_reach("opt: a queue");
	}
	busy[t] = false;
	nops[t]++;
}
#ifdef VP_NATIVE
void vp_thread_native(int t)
{
	uint64_t a[4];
	vp_op_begin(t, a);
	struct fstrm_iothr_queue *q = fstrm_iothr_get_input_queue(io);
	vp_op_end(t, (uint64_t) q);
}
#endif
static bool idle(int t) { return t == 0 ? vp_idle0() : t == 1 ? vp_idle1() :
#if NT > 2
	vp_idle2();
#else
	true;
#endif
}

void vp_main(void)
{
	static char w[4];
	struct fstrm_writer *wr = (struct fstrm_writer *) w;
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	fstrm_iothr_options_set_num_input_queues(o, NQ);
	fstrm_iothr_options_set_input_queue_size(o, 2);
	fstrm_iothr_options_set_output_queue_size(o, 2);
	fstrm_iothr_options_set_queue_model(o, FSTRM_IOTHR_QUEUE_MODEL_MPSC);
	io = fstrm_iothr_init(o, &wr);
	vp_assert(io != NULL, "the thread is started");
	for (unsigned i = 0; i < NQ; i++)
		queue[i] = fstrm_iothr_get_input_queue_idx(io, i);
	for (unsigned i = 0; i < PRE; i++) {
		vp_assert(fstrm_iothr_get_input_queue(io) == queue[i], "the queues are handed out in order");
		handed[i]++;
		n_handed++;
	}
	for (unsigned s = 0; s < STEPS; s++) {
		bool any = false;
		for (int t = 0; t < NT; t++)
			if (nops[t] < NOPS)
				any = true;
		if (!any)
			continue;
		uint8_t t = vp_u8();
		vp_assume(t < NT && (!idle(t) || nops[t] < NOPS));
		if (t == 0)
			vp_step0();
		else if (t == 1)
			vp_step1();
#if NT > 2
		else
			vp_step2();
#endif
	}
	for (int t = 0; t < NT; t++)
		vp_assert(nops[t] == NOPS && idle(t), "harness: enough steps");
	vp_assert(n_handed == (NQ < PRE + NT * NOPS ? NQ : PRE + NT * NOPS), "every caller gets a queue while there are any");
	vp_reach("end");
}
