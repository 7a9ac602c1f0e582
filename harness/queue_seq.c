/*
 * A ring queue used by one thread: any sequence of operations, compared with
 * a list; and which sizes can be created.
 */
#include "vp.h"
#include <pthread.h>
#include <string.h>
#include "my_queue.h"

extern const struct my_queue_ops QOPS;

static int held, made;
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { (void) m; (void) a; made++; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { (void) m; made--; vp_assert(held == 0, "the lock is free when the queue is destroyed"); return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { (void) m; vp_assert(held == 0, "the lock is not taken twice"); held = 1; return 0; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { (void) m; vp_assert(held == 1, "only a held lock is released"); held = 0; return 0; }
int vp_pthread_mutex_trylock(pthread_mutex_t *m) { (void) m; if (held) return 16; held = 1; return 0; }

#ifdef RANGE
void vp_main(void)
{
	long live0 = vp_live;
	unsigned n = vp_u32();
	struct my_queue *q = QOPS.init(n, 1);
	bool pow2 = n >= 2 && (n & (n - 1)) == 0;
	vp_assert((q != NULL) == pow2, "a queue is created exactly for a power of two of at least 2");
	if (q != NULL) {
		vp_reach("created");
		QOPS.destroy(&q);
		vp_assert(q == NULL, "destroy clears the caller's pointer");
		QOPS.destroy(&q);
	} else {
		vp_reach("refused");
	}
	vp_assert(vp_live == live0 && made == 0, "nothing leaks");
	vp_reach("end");
}
#else
#define CAP (SIZE - 1)
static uint8_t ref[ROT + NOPS][ELEM];	/* every element accepted */
static unsigned first, last;

static void op(struct my_queue *q, bool ins, bool report)
{
	uint8_t e[ELEM + 1];
	unsigned lvl = 77;
	if (ins) {
		for (unsigned i = 0; i < ELEM; i++)
			e[i] = vp_u8();
		e[ELEM] = 0x5a;
		bool full = last - first == CAP;
		if (!full)
			memcpy(ref[last], e, ELEM);
		bool ok = QOPS.insert(q, e, report ? &lvl : NULL);
		vp_assert(ok == !full, "an insertion fails exactly if the queue holds one less than its size");
		if (!full)
			last++;
		else
			vp_reach("opt: full");
		if (report)
			vp_assert(lvl == CAP - (last - first), "the space reported is the space left");
	} else {
		for (unsigned i = 0; i <= ELEM; i++)
			e[i] = 0x5a;
		bool empty = last == first;
		bool ok = QOPS.remove(q, e, report ? &lvl : NULL);
		vp_assert(ok == !empty, "a removal fails exactly if the queue is empty");
		if (!empty) {
			for (unsigned i = 0; i < ELEM; i++)
				vp_assert(e[i] == ref[first][i], "elements are removed in order and unchanged");
			first++;
		} else {
			for (unsigned i = 0; i < ELEM; i++)
				vp_assert(e[i] == 0x5a, "a failed removal leaves the element alone");
			vp_reach("opt: empty");
		}
		if (report)
			vp_assert(lvl == last - first, "the count reported is the number of elements left");
	}
	vp_assert(e[ELEM] == 0x5a, "nothing is written after the element");
	vp_assert(held == 0, "the lock is not left held");
}

void vp_main(void)
{
	long live0 = vp_live;
	struct my_queue *q = QOPS.init(SIZE, ELEM);
	vp_assert(q != NULL, "the queue is created");
	vp_assert(QOPS.impl_type() != NULL, "the implementation has a name");
	for (unsigned i = 0; i < ROT; i++) {
		op(q, true, true);
		op(q, false, true);
	}
	for (unsigned i = 0; i < NOPS; i++) {
		bool ins = vp_bool(), report = vp_bool();
		op(q, ins, report);
	}
	QOPS.destroy(&q);
	vp_assert(q == NULL && vp_live == live0 && made == 0, "nothing leaks");
	vp_reach("end");
}
#endif
