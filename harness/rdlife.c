/*
 * Any sequence of calls on an fstrm_reader, over an in-memory transport where
 * one call may fail. Every opening of the transport gives a new, equal stream.
 *
 *   o open   r read   c close   s y a p f x get_control of START, READY, ACCEPT, STOP, FINISH, undefined   ? any of EVSET
 *
 * RUNS is a list of {two_way, events}; FAULTS of {kind, lo, hi}: the lo-th to
 * hi-th call of this kind fails, one at a time.
 */
#include "vp.h"
#include <stdlib.h>

#define TR_IN 64
#define TR_MAXREQ 12
#define TR_OUT 48
#define TR_FAULTS
#define TR_RECONNECT
#include "tr.h"

#ifndef EVSET
# define EVSET "orcp"
#endif
enum { NONE, OPEN, READ, WRITE, CLOSE };
static const struct run { bool two_way; const char *ev; } runs[] = { RUNS };
static const struct fault { int kind; unsigned lo, hi; } faults[] = { FAULTS };
#define NRUNS (sizeof(runs) / sizeof(runs[0]))
#define NFAULTS (sizeof(faults) / sizeof(faults[0]))

#define NDATA 2
static const unsigned lens[NDATA] = { 1, 2 };

static enum { OPENING, OPENED, CLOSING, CLOSED, FAILED } st;
static bool two;
static unsigned item;		/* next frame of the stream */
static unsigned opens;
static bool seen_stop;
static size_t data_at[NDATA];
static struct fstrm_reader *rd;

static void opening(fstrm_res res, unsigned bad0)
{
	if (T.n_bad != bad0) {
		vp_assert(res != fstrm_res_success, "a failure to open is reported");
		vp_assert(!T.is_open, "the transport is closed after a failure to open");
		vp_reach("opt: failed to open");
		return;
	}
	vp_assert(res == fstrm_res_success, "a reader that is not open can be opened");
	vp_assert(T.is_open && T.in_pos == (two ? 24u : 12u), "opening reads the handshake and no more");
	vp_assert(T.out_len == (two ? 12u : 0u), "opening writes ACCEPT on a two-way stream only");
	st = OPENED;
	item = 0;
	opens++;
}

static void do_open(void)
{
	unsigned bad0 = T.n_bad, n0 = T.n_open_calls;
	bool refuse = st == OPENED || st == CLOSING;
	fstrm_res res = fstrm_reader_open(rd);
	if (refuse) {
		vp_assert(res != fstrm_res_success && T.n_open_calls == n0, "an open reader is not opened again");
		vp_reach("opt: open refused");
	} else {
		vp_assert(T.n_open_calls == n0 + 1, "opening opens the transport once");
		opening(res, bad0);
	}
}

static void do_read(void)
{
	const uint8_t *d = NULL;
	size_t l = 0;
	unsigned bad0 = T.n_bad, n0 = T.n_open_calls, r0 = T.n_read;
	fstrm_res res = fstrm_reader_read(rd, &d, &l);
	if (st == OPENING) {
		vp_assert(T.n_open_calls == n0 + 1, "the first read opens the reader");
		n0++;
		if (T.n_bad != bad0 && T.in_pos < (two ? 24u : 12u)) {
			vp_assert(res != fstrm_res_success, "a failure to open is reported");
			vp_assert(!T.is_open, "the transport is closed after a failure to open");
			return;
		}
		st = OPENED;
		item = 0;
		opens++;
	}
	vp_assert(T.n_open_calls == n0, "only the first read opens the reader");
	switch (st) {
	case OPENED:
		if (T.n_bad != bad0) {
			vp_assert(res != fstrm_res_success, "a failed read is never reported as data");
			vp_assert(!T.is_open, "the transport is closed after a failed read");
			vp_reach("opt: failed read");
			st = FAILED;
		} else if (item < NDATA) {
			vp_assert(res == fstrm_res_success && l == lens[item], "each frame is delivered with its length");
			vp_assert(VP_R_OK(d, l), "the whole frame is readable");
			for (unsigned j = 0; j < lens[item]; j++)
				vp_assert(d[j] == T.in[data_at[item] + j], "each frame is delivered with its bytes");
			item++;
		} else {
			vp_assert(res == fstrm_res_stop, "STOP is reported as the end of the stream");
			st = CLOSING;
			seen_stop = true;
			vp_reach("opt: stop");
		}
		break;
	case CLOSED:
		vp_assert(res == fstrm_res_stop && T.n_read == r0, "a closed reader is at the end of the stream");
		vp_reach("opt: read after close");
		break;
	default:
		vp_assert(res != fstrm_res_success && T.n_read == r0, "nothing is read after the end or a failure");
	}
}

static void do_get(unsigned t)
{
	const struct fstrm_control *c = NULL;
	unsigned bad0 = T.n_bad, n0 = T.n_open_calls, r0 = T.n_read;
	fstrm_res res = fstrm_reader_get_control(rd, (fstrm_control_type) t, &c);
	if (st == OPENING) {
		vp_assert(T.n_open_calls == n0 + 1, "asking for a control frame opens the reader");
		if (T.n_bad != bad0) {
			vp_assert(res != fstrm_res_success, "a failure to open is reported");
			vp_assert(!T.is_open, "the transport is closed after a failure to open");
			return;
		}
		st = OPENED;
		item = 0;
		opens++;
	} else {
		vp_assert(T.n_open_calls == n0 && T.n_read == r0, "asking for a control frame later does no I/O");
	}
	if (res == fstrm_res_success)
		vp_assert(c != NULL, "success comes with a control frame");
	else
		c = NULL;
	bool have = false;
	switch (t) {
	case FSTRM_CONTROL_START: have = opens > 0; break;
	case FSTRM_CONTROL_READY: case FSTRM_CONTROL_ACCEPT: have = two && opens > 0; break;
	case FSTRM_CONTROL_STOP: have = st == CLOSING; break;
	case FSTRM_CONTROL_FINISH: default: vp_assert(res == fstrm_res_failure, "only frames the reader handles can be asked for"); return;
	}
	if (have) {
		vp_assert(res == fstrm_res_success && c != NULL, "a control frame of the stream is available");
		if (c != NULL) {
			fstrm_control_type ct = 99;
			vp_assert(fstrm_control_get_type(c, &ct) == fstrm_res_success && (unsigned) ct == t, "the control frame is the one asked for");
			vp_reach("opt: control frame");
		}
	} else if (!(t == FSTRM_CONTROL_STOP && seen_stop) && T.n_bad == 0) {
		vp_assert(c == NULL, "no control frame is returned before there is one");
	}
}

static void finish(fstrm_res res, unsigned bad0, unsigned c0, const char *what)
{
	if (T.n_bad != bad0) {
		vp_assert(res != fstrm_res_success, "a failure to close is reported");
		vp_reach("opt: failed to close");
	} else {
		vp_assert(res == fstrm_res_success, "an open reader can be closed");
		vp_assert(T.out_len == (two ? 24u : 0u), "closing writes FINISH on a two-way stream only");
		if (two)
			vp_assert(vp_get_be32(T.out) == 0 && vp_get_be32(T.out + 4) == 4 && vp_get_be32(T.out + 8) == FSTRM_CONTROL_ACCEPT &&
				  vp_get_be32(T.out + 12) == 0 && vp_get_be32(T.out + 16) == 4 && vp_get_be32(T.out + 20) == FSTRM_CONTROL_FINISH,
				  "exactly ACCEPT and FINISH are written");
	}
	vp_assert(!T.is_open && T.n_close == c0 + 1, "the transport is closed once");
	st = CLOSED;
}

static void do_close(void)
{
	unsigned bad0 = T.n_bad, c0 = T.n_close, w0 = T.n_write;
	bool open = st == OPENED || st == CLOSING;
	fstrm_res res = fstrm_reader_close(rd);
	if (open) {
		finish(res, bad0, c0, "close");
	} else {
		vp_assert(res != fstrm_res_success && T.n_close == c0 && T.n_write == w0, "a reader that is not open cannot be closed");
		vp_reach("opt: close refused");
	}
}

static void event(char c)
{
	switch (c) {
	case 'o': do_open(); break;
	case 'r': do_read(); break;
	case 's': do_get(FSTRM_CONTROL_START); break;
	case 'y': do_get(FSTRM_CONTROL_READY); break;
	case 'a': do_get(FSTRM_CONTROL_ACCEPT); break;
	case 'p': do_get(FSTRM_CONTROL_STOP); break;
	case 'f': do_get(FSTRM_CONTROL_FINISH); break;
	case 'x': do_get(0); do_get(6); break;
	case 'c': do_close(); break;
	}
}

static void run(const struct run *u, int kind, unsigned at)
{
	memset(&T, 0, sizeof(T));
	long live0 = vp_live;
	st = OPENING;
	two = u->two_way;
	item = opens = 0;
	seen_stop = false;
	if (two)
		in_ctrl(FSTRM_CONTROL_READY);
	in_ctrl(FSTRM_CONTROL_START);
	for (unsigned i = 0; i < NDATA; i++) {
		in_be32(lens[i]);
		data_at[i] = T.in_len;
		for (unsigned j = 0; j < lens[i]; j++)
			T.in[T.in_len++] = vp_u8();
	}
	in_ctrl(FSTRM_CONTROL_STOP);
	T.fail_open_at = kind == OPEN ? at : 0;
	T.fail_read_at = kind == READ ? at : 0;
	T.fail_write_at = kind == WRITE ? at : 0;
	T.fail_close_at = kind == CLOSE ? at : 0;
	T.fail_res = at % 2 ? fstrm_res_stop : fstrm_res_failure;
	struct fstrm_rdwr *tr = tr_rdwr(true, two);
	rd = fstrm_reader_init(NULL, &tr);
	vp_assert(rd != NULL && tr == NULL, "the reader takes ownership of the transport");
	vp_assert(T.n_open_calls == 0, "nothing is opened before it is needed");
	for (unsigned i = 0; u->ev[i] != 0; i++) {
		if (u->ev[i] != '?') {
			event(u->ev[i]);
		} else {
			static const char set[] = EVSET;
			unsigned n = vp_u8(), k;
			for (k = 0; k < sizeof(set) - 1; k++)
				if (n == k)
					break;
			if (k == sizeof(set) - 1)
				vp_stop();
			event(set[k]);
		}
	}
	unsigned bad0 = T.n_bad, c0 = T.n_close;
	bool open = st == OPENED || st == CLOSING;
	fstrm_res res = fstrm_reader_destroy(&rd);
	vp_assert(rd == NULL, "destroy clears the caller's pointer");
	if (open)
		finish(res, bad0, c0, "destroy");
	else
		vp_assert(T.n_close == c0, "destroy closes only what is open");
	vp_assert(T.n_destroy == 1 && !T.is_open, "the transport is closed and destroyed once");
	vp_assert(vp_live == live0, "nothing leaks");
	vp_reach("end");
}

void vp_main(void)
{
	unsigned w = vp_u32();
	unsigned n = 0;
	for (unsigned i = 0; i < NRUNS; i++)
		for (unsigned f = 0; f < NFAULTS; f++)
			for (unsigned k = faults[f].lo; k <= faults[f].hi; k++, n++)
				if (w == n) {
					run(&runs[i], faults[f].kind, k);
					return;
				}
	vp_stop();
}
