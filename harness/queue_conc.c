/*
 * The input queues under concurrency: NPROD producers insert, one consumer
 * removes, and the solver picks which thread performs the next memory access
 * of the compiled code.
 */
#include "vp.h"
#include <string.h>
#include <pthread.h>
#include "my_queue.h"
#include "queue_shared.h"

extern const struct my_queue_ops QOPS;

#define NT (NPROD + 1)
#define CONS NPROD
#define CAP (SIZE - 1)
void vp_step0(void);
void vp_step1(void);
void vp_step2(void);
bool vp_idle0(void);
bool vp_idle1(void);
bool vp_idle2(void);

/* the mutex, when the code uses one: the first word tells whether it is held */
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { *(int *) m = 0; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { vp_assert(*(int *) m == 0, "the lock is free when the queue is destroyed"); return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { vp_assert(*(int *) m == 0, "the lock is not taken twice"); *(int *) m = 1; return 0; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { vp_assert(*(int *) m == 1, "only a held lock is released"); *(int *) m = 0; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { if (*(int *) m) return 16; *(int *) m = 1; return 0; }

/* An element: producer and sequence number, and a copy to detect mixtures. */
#define ID(p, k) (((p) + 1) * 16u + (k))
struct my_queue *q;
struct elem item[NT];
unsigned level[NT];		/* space or count reported */
static unsigned nops[NT];		/* operations completed */
static unsigned ins_ok[NPROD], ins_ok_all, rem_ok;
static unsigned next[NPROD];		/* next sequence number to be removed */
static unsigned snap_rem[NT], snap_ins[NT], snap_id[NT];
static unsigned before[NPROD][8];	/* of the other producer, at the start of (p, k) */
static bool busy[NT];

static void taken(const struct elem *e)
{
	bool known = false;
	vp_assert(e->not_id == (uint8_t) ~e->id, "elements are removed whole");
	for (unsigned p = 0; p < NPROD; p++) {
		if (e->id == ID(p, next[p])) {
			known = true;
#if NPROD > 1
			vp_assert(next[1 - p] >= before[p][next[p]], "elements of different producers leave in the order they came");
#endif
			next[p]++;
			break;
		}
	}
	vp_assert(known, "each element is removed once, in the order its producer inserted it");
}

void vp_op_begin(int t, uint64_t *a)
{
	busy[t] = true;
	snap_rem[t] = rem_ok;
	snap_ins[t] = ins_ok_all;
	level[t] = 12345;
	if (t != CONS) {
		item[t].id = ID(t, ins_ok[t]);
		item[t].not_id = ~item[t].id;
#if NPROD > 1
		before[t][ins_ok[t]] = ins_ok[1 - t];
#endif
	} else {
		item[t].id = item[t].not_id = 0;
	}
}
void vp_op_end(int t, uint64_t ret)
{
	unsigned others = 0;
	for (unsigned p = 0; p < NPROD; p++)
		if ((int) p != t && busy[p])
			others++;
	unsigned cons = t != CONS && busy[CONS];
	if (t != CONS) {
		if (ret) {
			ins_ok[t]++;
			ins_ok_all++;
			vp_assert(level[t] + ins_ok_all + others >= CAP + snap_rem[t] && level[t] <= CAP, "an insertion reports the remaining space");
			vp_assert(level[t] + snap_ins[t] + 1 <= CAP + rem_ok + cons, "an insertion reports the remaining space");
			vp_reach("opt: inserted");
		} else {
			vp_assert(ins_ok_all + others >= CAP + snap_rem[t], "an insertion fails only when the queue is full");
			vp_assert(level[t] == 0, "a full queue has no space");
			vp_reach("opt: full");
		}
	} else {
		if (ret) {
			taken(&item[t]);
			rem_ok++;
			vp_assert(level[t] + rem_ok >= snap_ins[t], "a removal reports the remaining elements");
			vp_assert(level[t] + rem_ok <= ins_ok_all + others, "a removal reports the remaining elements");
			vp_reach("opt: removed");
		} else {
			vp_assert(rem_ok >= snap_ins[t], "a removal fails only when the queue is empty");
			vp_assert(level[t] == 0, "an empty queue has no elements");
			vp_reach("opt: empty");
		}
	}
	busy[t] = false;
	nops[t]++;
}
#ifdef VP_NATIVE
void vp_thread_native(int t)
{
	uint64_t a[4];
	vp_op_begin(t, a);
	bool r = t == CONS ? QOPS.remove(q, &item[t], &level[t])
			   : QOPS.insert(q, &item[t], &level[t]);
	vp_op_end(t, r);
}
#endif
static bool idle(int t) { return t == 0 ? vp_idle0() : t == 1 ? vp_idle1() :
#if NT > 2
	vp_idle2();
#else
	true;
#endif
}
static unsigned limit(int t) { return t == CONS ? NREM : NINS; }

void vp_main(void)
{
	q = QOPS.init(SIZE, sizeof(struct elem));
	vp_assert(q != NULL, "a queue is created");
	struct elem e = { 7, 7 };
	for (unsigned i = 0; i < ROT; i++) {
		vp_assert(QOPS.insert(q, &e, NULL) && QOPS.remove(q, &e, NULL), "an element passes an empty queue");
	}
	for (unsigned i = 0; i < PRE; i++) {
		e.id = ID(0, i);
		e.not_id = ~e.id;
		vp_assert(QOPS.insert(q, &e, NULL), "elements up to the capacity are accepted");
		ins_ok[0]++;
		ins_ok_all++;
	}
	for (unsigned s = 0; s < STEPS; s++) {
		bool any = false;
		for (int t = 0; t < NT; t++)
			if (nops[t] < limit(t))
				any = true;
		if (!any)
			continue;
		uint8_t t = vp_u8();
		vp_assume(t < NT && (!idle(t) || nops[t] < limit(t)));
		if (t == 0)
			vp_step0();
		else if (t == 1)
			vp_step1();
#if NT > 2
		else
			vp_step2();
#endif
	}
	for (int t = 0; t < NT; t++) {
		vp_assert(nops[t] == limit(t) && idle(t), "harness: enough steps");
	}
	/* what is left */
	for (unsigned i = 0; i < SIZE; i++) {
		if (!QOPS.remove(q, &e, NULL))
			break;
		taken(&e);
		rem_ok++;
	}
	vp_assert(rem_ok == ins_ok_all, "no element is lost");
	QOPS.destroy(&q);
	vp_assert(q == NULL && vp_live == 0, "nothing leaks");
	vp_reach("end");
}
