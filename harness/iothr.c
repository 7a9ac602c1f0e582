/*
 * The I/O thread (fstrm_iothr), run sequentially: pthread_create records the
 * thread function, the harness calls it, and everything the other threads do
 * happens inside the calls the I/O thread makes (its sleep, its writer). The
 * events are scripts; lengths, times and pointers are symbolic.
 *
 * SCRIPTS: { events, open results, write results }
 *   before the thread starts and while it sleeps:
 *     a b c	submit a frame to input queue 0, 1, 2
 *     n	the same on queue 0, without a deallocation callback
 *     z	submit something invalid to queue 0
 *     >	the thread starts
 *     .	the thread wakes up without a timeout
 *     t	the thread wakes up with a timeout
 *     + - *	time passes: the reopen interval ends / does not end / any
 *     X	fstrm_iothr_destroy()
 *   while the thread is in the writer:
 *     A B C	submit a frame to input queue 0, 1, 2
 *   open and write results: s success, f failure (the last one repeats)
 *   ? is any event of EVSET, any result (paths are explored one by one)
 */
#include "vp.h"
#include <errno.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <string.h>
#include <time.h>
#include <sys/uio.h>
#include <fstrm.h>

struct script { const char *ev, *op, *wr; };
static const struct script scripts[] = { SCRIPTS };
#define NSCRIPTS (sizeof(scripts) / sizeof(scripts[0]))

#ifndef NQ
# define NQ 1
#endif
#ifndef QSIZE
# define QSIZE 4
#endif
#ifndef OUTQ
# define OUTQ 2
#endif
#ifndef HINT
# define HINT 1024
#endif
#ifndef MODEL
# define MODEL FSTRM_IOTHR_QUEUE_MODEL_SPSC
#endif
#ifndef NOTIFY
# define NOTIFY 1
#endif
#ifndef FLUSH
# define FLUSH 1
#endif
#ifndef REOPEN
# define REOPEN 5
#endif
#define MAXI 14
#define CAP (QSIZE - 1)

struct item { unsigned q; uint32_t len; bool accepted, written, freed, cb, closed, slept; int64_t since; };
static struct item it[MAXI];
static unsigned nit;
static uint8_t mem[MAXI][2], tag[MAXI][2];
static unsigned in_queue[NQ];		/* since the thread fell asleep */
static const char *ev, *op, *wr;

static struct fstrm_iothr *io;
static struct fstrm_iothr_queue *queue[NQ];
static void *(*thr_fn)(void *);
static void *thr_arg;
static bool in_thread, in_final, joined, done;
static bool w_open, w_destroyed;
static unsigned n_open_calls, n_signals, n_created;
static int64_t now, now_ns, last_attempt;
static bool attempted;
static clockid_t read_clock, cond_clock;
static bool after_timeout;

/* ---- threads and time ---- */
static long nlocks;
#define HELD(m) (*(int *) (m))
int vp_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { HELD(m) = 0; nlocks++; return 0; }
int vp_pthread_mutex_destroy(pthread_mutex_t *m) { vp_assert(HELD(m) == 0, "a lock is free when it is destroyed"); nlocks--; return 0; }
int vp_pthread_mutex_lock(pthread_mutex_t *m) { vp_assert(HELD(m) == 0, "no lock is taken twice"); HELD(m) = 1; return 0; }
int vp_pthread_mutex_unlock(pthread_mutex_t *m) { vp_assert(HELD(m) == 1, "only a held lock is released"); HELD(m) = 0; return 0; }
int vp_pthread_condattr_init(pthread_condattr_t *a) { return 0; }
int vp_pthread_condattr_destroy(pthread_condattr_t *a) { return 0; }
int vp_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { cond_clock = c; return 0; }
int vp_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { nlocks++; return 0; }
int vp_pthread_cond_destroy(pthread_cond_t *c) { nlocks--; return 0; }
int vp_pthread_cond_signal(pthread_cond_t *c) { n_signals++; return 0; }
int vp_pthread_cond_broadcast(pthread_cond_t *c) { n_signals++; return 0; }
int vp_pthread_sigmask(int how, const sigset_t *s, sigset_t *o) { return 0; }
int vp_sigemptyset(sigset_t *s) { return 0; }
int vp_sigfillset(sigset_t *s) { return 0; }
int vp_sigaddset(sigset_t *s, int n) { return 0; }
int vp_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
	vp_assert(n_created == 0, "one thread is created");
	n_created++;
	thr_fn = fn;
	thr_arg = arg;
	*t = (pthread_t) 77;
	return 0;
}
int vp_clock_gettime(clockid_t c, struct timespec *ts)
{
	read_clock = c;
	ts->tv_sec = in_final && attempted ? last_attempt : now;
	ts->tv_nsec = now_ns;
	return 0;
}

/* ---- the writer ---- */
static struct fstrm_writer *const W = (struct fstrm_writer *) tag;
static void submit_frame(unsigned q, bool cb, bool known);

static bool outcome(const char **s)
{
	bool r = **s == 's';
	if (**s == '?') {
		r = false;
		if (vp_bool())
			r = true;
	}
	if ((*s)[1] != 0)
		(*s)++;
	return r;
}
#ifndef EVSET
# define EVSET ""
#endif
static char any_event(void)
{
	static const char set[] = EVSET;
	unsigned n = vp_u8();
	for (unsigned i = 0; i < sizeof(set) - 1; i++)
		if (n == i)
			return set[i];
	vp_stop();
	return 0;
}
static void writer_events(void)
{
#ifdef ANYW
	if (nit < MAXI - 2 && vp_bool())
		submit_frame(0, true, false);
	return;
#endif
	for (unsigned i = 0; i < 3; i++) {
		if (*ev == 'A')
			submit_frame(0, true, false);
		else if (*ev == 'B')
			submit_frame(1 % NQ, true, false);
		else if (*ev == 'C')
			submit_frame(2 % NQ, true, false);
		else
			return;
		ev++;
	}
}
fstrm_res fstrm_writer_open(struct fstrm_writer *w)
{
	vp_assert(w == W && !w_destroyed, "the thread uses its writer");
	vp_assert(!w_open, "an open writer is not opened again");
	vp_assert(!attempted || now - last_attempt >= REOPEN, "the writer is not reopened before the reopen interval has passed");
	attempted = true;
	last_attempt = now;
	n_open_calls++;
	writer_events();
	if (!outcome(&op)) {
		vp_reach("opt: open fails");
		return fstrm_res_failure;
	}
	w_open = true;
	return fstrm_res_success;
}
static void closed(void)
{
	w_open = false;
	for (unsigned k = 0; k < MAXI; k++) {
		if (k >= nit)
			break;
		it[k].closed = true;	/* the writer was closed while the frame was waiting */
	}
}
fstrm_res fstrm_writer_close(struct fstrm_writer *w)
{
	vp_assert(w == W && !w_destroyed, "the thread uses its writer");
	vp_assert(w_open, "the writer is closed only when it is open");
	closed();
	if (done)
		submit_frame(0, true, false);
	return fstrm_res_success;
}
fstrm_res fstrm_writer_destroy(struct fstrm_writer **w)
{
	vp_assert(*w == W && !w_destroyed, "the writer is destroyed once");
	vp_assert(!w_open, "the writer is closed before it is destroyed");
	vp_assert(joined, "the writer is destroyed after the thread has ended");
	w_destroyed = true;
	*w = NULL;
	return fstrm_res_success;
}
static fstrm_res write_frames(const struct iovec *v, int n)
{
	uint64_t bytes = 0;
	vp_assert(w_open && !w_destroyed, "frames are written only to an open writer");
	vp_assert(n >= 1 && n <= OUTQ, "a batch has at most the configured number of frames");
	for (unsigned i = 0; i < OUTQ; i++) {
		if ((int) i >= n)
			break;
		bool known = false;
		for (unsigned k = 0; k < MAXI; k++) {
			if (k >= nit)
				break;
			if (v[i].iov_base == mem[k]) {
				known = true;
				vp_assert(it[k].accepted && !it[k].written, "each accepted frame is written once");
				vp_assert(!it[k].freed, "no frame is written after it was deallocated");
				vp_assert(v[i].iov_len == it[k].len, "each frame is written with its length");
				it[k].written = true;
				bytes += 4 + (uint64_t) it[k].len;
				for (unsigned j = 0; j < MAXI; j++) {
					if (j >= k)
						break;
					if (it[j].accepted && it[j].q == it[k].q)
						vp_assert(it[j].written || it[j].freed || (!it[j].cb && it[j].closed), "the frames of a queue are written in the order they were submitted");
				}
			}
		}
		vp_assert(known, "only submitted frames are written");
	}
	if (n > 1)
		vp_assert(bytes < HINT, "a batch of several frames stays below the buffer hint");
	writer_events();
	if (!outcome(&wr)) {
		vp_reach("opt: write fails");
		return fstrm_res_failure;
	}
	return fstrm_res_success;
}
fstrm_res fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *v, int n)
{
	vp_assert(w == W, "the thread uses its writer");
	return write_frames(v, n);
}
fstrm_res fstrm_writer_write(struct fstrm_writer *w, const void *p, size_t n)
{
	struct iovec v = { .iov_base = (void *) p, .iov_len = n };
	vp_assert(w == W, "the thread uses its writer");
	return write_frames(&v, 1);
}

/* ---- the other threads ---- */
static void freed(void *data, void *free_data)
{
	bool known = false;
	for (unsigned k = 0; k < MAXI; k++) {
		if (k >= nit)
			break;
		if (data == mem[k]) {
			known = true;
			vp_assert(it[k].accepted && it[k].cb, "only accepted frames are deallocated");
			vp_assert(!it[k].freed, "each frame is deallocated once");
			vp_assert(free_data == tag[k], "the callback gets its own argument");
			vp_assert(it[k].written || !w_open, "a frame is dropped only while the writer is closed");
			it[k].freed = true;
		}
	}
	vp_assert(known, "only submitted frames are deallocated");
}

static void submit_frame(unsigned q, bool cb, bool known)
{
	vp_assert(nit < MAXI, "harness: items");
	unsigned k = nit;
	it[k].q = q;
#ifdef LEN
	it[k].len = LEN;
#else
	it[k].len = vp_u32();
	vp_assume((it[k].len >= 1) & (it[k].len < MAXLEN));
#endif
	it[k].cb = cb;
	it[k].closed = !w_open;
	nit++;
	/* the thread may run before this returns, so it counts as accepted */
	it[k].accepted = true;
	unsigned sig = n_signals;
	fstrm_res res = fstrm_iothr_submit(io, queue[q], mem[k], it[k].len, cb ? freed : NULL, tag[k]);
	if (done && res == fstrm_res_failure) {
		it[k].accepted = false;	/* the thread is shutting down */
		return;
	}
	if (res != fstrm_res_success && res != fstrm_res_again) {
		vp_assert(0, "valid frames are accepted or refused with again");
		vp_stop();
	}
	if (known) {
		vp_assert((res == fstrm_res_success) == (in_queue[q] < CAP), "a frame is accepted exactly if its queue has room");
		if (in_queue[q] < CAP) {
			in_queue[q]++;
			if (CAP - in_queue[q] == NOTIFY)
				vp_assert(n_signals > sig, "the thread is woken when a queue runs full");
		} else {
			vp_reach("opt: full");
		}
	}
	if (res != fstrm_res_success) {
		it[k].accepted = false;
	}
}

static void submit_invalid(void)
{
	fstrm_res res;
	size_t n = vp_size();
	bool null = vp_bool();
	vp_assume((n == 0) | (n >= UINT32_MAX) | null);
	res = fstrm_iothr_submit(io, queue[0], null ? NULL : mem[MAXI - 1], n, freed, tag[MAXI - 1]);
	vp_assert(res == fstrm_res_invalid, "data that no frame can carry is refused as invalid");
	if (res != fstrm_res_invalid)
		vp_stop();
}

static void check_asleep(const struct timespec *ts)
{
	bool pending = false;
	for (unsigned k = 0; k < MAXI; k++) {
		if (k >= nit)
			break;
		if (it[k].accepted && it[k].cb && it[k].written)
			vp_assert(it[k].freed, "a frame is deallocated once it has been written");
		if (!it[k].accepted || it[k].written || it[k].freed || (!it[k].cb && it[k].closed))
			continue;	/* no longer held, or possibly dropped without a callback */
		pending = true;
		vp_assert(!after_timeout || !it[k].slept, "a timeout flushes the output");
		if (!it[k].slept) {
			it[k].slept = true;
			it[k].since = now;
		}
		vp_assert((ts->tv_sec < it[k].since + FLUSH) | ((ts->tv_sec == it[k].since + FLUSH) & (ts->tv_nsec <= now_ns)),
			  "no frame stays in the output buffer longer than the flush timeout");
	}
	vp_assert((ts->tv_sec < now + FLUSH) | ((ts->tv_sec == now + FLUSH) & (ts->tv_nsec <= now_ns)), "the thread sleeps at most the flush timeout");
	vp_assert((ts->tv_nsec >= 0) & (ts->tv_nsec < 1000000000), "the deadline is a valid time");
	if (!pending)
		vp_assert(ts->tv_sec > now, "an idle thread sleeps");
}

static void finish(void)
{
	done = true;
	fstrm_iothr_destroy(&io);
	vp_assert(io == NULL, "destroy clears the caller's pointer");
	vp_assert(joined && w_destroyed, "the thread has ended and the writer is destroyed");
	for (unsigned k = 0; k < MAXI; k++) {
		if (k >= nit)
			break;
		vp_assert(it[k].freed == (it[k].accepted && it[k].cb), "each accepted frame is deallocated exactly once, no other is");
		vp_assert(!it[k].written || it[k].accepted, "only accepted frames are written");
#ifdef HEALTHY
		vp_assert(it[k].written == it[k].accepted, "each accepted frame is written");
#endif
	}
	vp_assert(vp_live == 0 && nlocks == 0, "nothing leaks");
	vp_reach("end");
	vp_stop();
}

int vp_pthread_join(pthread_t t, void **r)
{
	vp_assert(t == (pthread_t) 77 && n_created == 1 && !joined, "the thread is joined once");
	vp_assert(n_signals > 0, "the thread is woken for the shutdown");
	in_final = in_thread;
	if (!in_final)
		in_thread = true;
	thr_fn(thr_arg);
	in_thread = false;
	vp_assert(!w_open, "the thread closes the writer when it ends");
	joined = true;
	return 0;
}

/* what happens until the thread wakes up or starts */
static int events(void)
{
	for (unsigned i = 0; i < 16; i++) {
		char c = *ev;
		vp_assert(c != 0, "harness: the script ends with X");
		ev++;
		if (c == '?')
			c = any_event();
		switch (c) {
		case 'a': submit_frame(0, true, true); break;
		case 'b': submit_frame(1 % NQ, true, true); break;
		case 'c': submit_frame(2 % NQ, true, true); break;
		case 'n': submit_frame(0, false, true); break;
		case 'z': submit_invalid(); break;
		case '>': return 0;
		case '.': after_timeout = false; return 0;
		case 't': after_timeout = true; return ETIMEDOUT;
		case '+': case '-': case '*': {
#ifdef NOW
			int64_t n = c == '*' ? now + 1 : last_attempt + REOPEN - (c == '-');
#else
			int64_t n = (int64_t) vp_u64();
			if (c == '+')
				vp_assume(n - last_attempt >= REOPEN);
			else if (c == '-')
				vp_assume(n - last_attempt < REOPEN);
#endif
			vp_assume((n >= now) & (n - now < (1ll << 40)));
			now = n;
			break;
		}
		case 'X': finish(); return 0;
		default:
			vp_assert(0, "harness: script");
		}
	}
	vp_assert(0, "harness: script");
	return 0;
}

int vp_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts)
{
	vp_assert(!done, "the thread does not sleep once it is told to end");
	if (done)
		vp_stop();
	vp_assert(HELD(m) == 1, "the thread waits with its lock held");
	vp_assert(read_clock == cond_clock, "the deadline is on the clock of the condition");
	vp_assert(w_open || (attempted && now - last_attempt < REOPEN), "the writer is reopened when the reopen interval has passed");
	check_asleep(ts);
	after_timeout = false;
	for (unsigned q = 0; q < NQ; q++)
		in_queue[q] = 0;
	HELD(m) = 0;
	int r = events();
	vp_assert(HELD(m) == 0, "harness: lock");
	HELD(m) = 1;
	return r;
}

static void run(const struct script *s)
{
	ev = s->ev;
	op = s->op;
	wr = s->wr;
#ifdef NOW
	now = NOW;
	now_ns = 500000000;
#else
	now = (int64_t) vp_u64();
	now_ns = vp_u32();
	vp_assume((now >= REOPEN) & (now < (1ll << 40)) & (now_ns < 1000000000));
#endif
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	vp_assert(fstrm_iothr_options_set_num_input_queues(o, NQ) == fstrm_res_success &&
		  fstrm_iothr_options_set_input_queue_size(o, QSIZE) == fstrm_res_success &&
		  fstrm_iothr_options_set_output_queue_size(o, OUTQ) == fstrm_res_success &&
		  fstrm_iothr_options_set_buffer_hint(o, HINT) == fstrm_res_success &&
		  fstrm_iothr_options_set_queue_model(o, MODEL) == fstrm_res_success &&
		  fstrm_iothr_options_set_queue_notify_threshold(o, NOTIFY) == fstrm_res_success &&
		  fstrm_iothr_options_set_flush_timeout(o, FLUSH) == fstrm_res_success &&
		  fstrm_iothr_options_set_reopen_interval(o, REOPEN) == fstrm_res_success, "valid options are accepted");
#ifdef BADOPTS
	/* values out of range change nothing */
# define BAD(opt, cond) do { unsigned v = vp_u32(); vp_assume(cond); \
		if (fstrm_iothr_options_set_##opt(o, v) == fstrm_res_success) { \
			vp_assert(0, "values out of range are refused"); vp_stop(); } } while (0)
	switch (vp_u8()) {
	case 0: BAD(num_input_queues, v == 0); break;
	case 1: BAD(input_queue_size, (v > 16384) | (v == 0) | (v == 6)); break;
	case 2: BAD(output_queue_size, (v < 2) | (v > IOV_MAX)); break;
	case 3: BAD(buffer_hint, (v < 1024) | (v > 65536)); break;
	case 4: BAD(flush_timeout, (v < 1) | (v > 600)); break;
	case 5: BAD(reopen_interval, (v < 1) | (v > 600)); break;
	case 6: BAD(queue_notify_threshold, v == 0); break;
	case 7: BAD(queue_model, (v != FSTRM_IOTHR_QUEUE_MODEL_SPSC) & (v != FSTRM_IOTHR_QUEUE_MODEL_MPSC)); break;
	}
#endif
	struct fstrm_writer *w = W;
#ifdef NULLOPT
	io = fstrm_iothr_init(NULL, &w);
#else
	io = fstrm_iothr_init(o, &w);
#endif
	vp_assert(io != NULL && w == NULL && n_created == 1, "the thread is started and owns the writer");
	fstrm_iothr_options_destroy(&o);
	vp_assert(o == NULL, "destroy clears the caller's pointer");
	for (unsigned q = 0; q < NQ; q++) {
		queue[q] = fstrm_iothr_get_input_queue(io);
		vp_assert(queue[q] != NULL && queue[q] == fstrm_iothr_get_input_queue_idx(io, q), "each input queue is handed out");
		for (unsigned p = 0; p < q; p++)
			vp_assert(queue[p] != queue[q], "each input queue is handed out once");
	}
	vp_assert(fstrm_iothr_get_input_queue(io) == NULL, "no more input queues than configured");
	size_t ix = vp_size();
	vp_assume(ix >= NQ);
	vp_assert(fstrm_iothr_get_input_queue_idx(io, ix) == NULL, "no more input queues than configured");
	events();
	in_thread = true;
	thr_fn(thr_arg);
	vp_assert(0, "the thread runs until it is told to end");
}

void vp_main(void)
{
	unsigned which = vp_u8();
	vp_assume(which < NSCRIPTS);
	for (unsigned i = 0; i < NSCRIPTS; i++)
		if (which == i)
			run(&scripts[i]);
}
