/*
 * fstrm_writer over an in-memory transport: a script of open, write, writev
 * and close calls with any content bytes; any one transport call may fail.
 */
#include "vp.h"
#include <stdlib.h>

enum {
	O,	/* fstrm_writer_open */
	W,	/* fstrm_writer_write of `arg` bytes */
	V,	/* fstrm_writer_writev of `arg` frames of 1..3 bytes */
	X,	/* fstrm_writer_close */
};
struct item { int op; unsigned arg; };
struct script { bool two_way; unsigned n; struct item it[8]; };

#ifdef SCRIPTS
# define TR_IN 64
# define TR_MAXREQ 8
# define TR_OUT (OUTSIZE)
# define TR_FAULTS
# define TR_RECONNECT
# include "tr.h"

static const struct script scripts[] = { SCRIPTS };
#define NSCRIPTS (sizeof(scripts) / sizeof(scripts[0]))
static uint8_t exp[TR_OUT];
static size_t exp_len;

static void exp_ctrl(uint32_t t)
{
	vp_put_be32(exp + exp_len, 0);
	vp_put_be32(exp + exp_len + 4, 4);
	vp_put_be32(exp + exp_len + 8, t);
	exp_len += 12;
}

static void exp_frame(const uint8_t *d, unsigned n)
{
	vp_put_be32(exp + exp_len, n);
	for (unsigned i = 0; i < n; i++)
		exp[exp_len + 4 + i] = d[i];
	exp_len += 4 + n;
}

static uint8_t data[MAXDATA];
static struct iovec iov[MAXIOV];

static void run(const struct script *s, unsigned fail_open_at, unsigned fail_read_at, unsigned fail_write_at, unsigned fail_close_at)
{
	memset(&T, 0, sizeof(T));
	vp_live = 0;
	exp_len = 0;
	if (s->two_way) {
		in_ctrl(FSTRM_CONTROL_ACCEPT);
		in_ctrl(FSTRM_CONTROL_FINISH);
	}
	T.fail_open_at = fail_open_at;
	T.fail_read_at = fail_read_at;
	T.fail_res = fail_read_at % 2 ? fstrm_res_stop : fstrm_res_failure;
	T.fail_write_at = fail_write_at;
	T.fail_close_at = fail_close_at;
	struct fstrm_rdwr *rd = tr_rdwr(s->two_way, true);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &rd);
	vp_assert(w != NULL && rd == NULL, "the writer takes ownership of the transport");
	/* fresh: never opened successfully or closed since; live: in a stream */
	bool fresh = true, live = false, lost = false;
	for (unsigned i = 0; i < s->n; i++) {
		unsigned a = s->it[i].arg, bad0 = T.n_bad;
		size_t off = 0;
		fstrm_res res = fstrm_res_failure;
		bool was_live = live, was_lost = lost, implicit = fresh && s->it[i].op != X;
		switch (s->it[i].op) {
		case O:
			res = fstrm_writer_open(w);
			break;
		case W:
			for (unsigned j = 0; j < a; j++)
				data[j] = vp_u8();
			res = fstrm_writer_write(w, data, a);
			break;
		case V:
			for (unsigned j = 0; j < a; j++) {
				iov[j].iov_base = data + off;
				iov[j].iov_len = 1 + j % 3;
				for (unsigned m = 0; m < 1 + j % 3; m++)
					data[off + m] = vp_u8();
				off += 1 + j % 3;
			}
			res = fstrm_writer_writev(w, iov, a);
			break;
		case X:
			res = fstrm_writer_close(w);
			break;
		}
		bool bad = T.n_bad != bad0;
		if (bad) {
			/* the transport failed during this call */
			vp_assert(res != fstrm_res_success, "a transport failure is reported");
			vp_assert(!T.is_open, "the transport is closed after it has failed");
			/* was the stream established before the failure? */
			bool est = was_live || (implicit && s->it[i].op != O &&
				T.out_len == (s->two_way ? 24 : 12));
			lost = live = est && s->it[i].op != X;
			fresh = fresh && !est;
			vp_reach("opt: transport failure");
			continue;
		}
		switch (s->it[i].op) {
		case O:
			if (lost)
				break;		/* close comes first: not defined here */
			vp_assert(res == fstrm_res_success, "a stream can be opened");
			if (!live) {
				exp_len = 0;
				if (s->two_way)
					exp_ctrl(FSTRM_CONTROL_READY);
				exp_ctrl(FSTRM_CONTROL_START);
			}
			live = true;
			fresh = false;
			break;
		case W:
		case V:
			if (s->it[i].op == V && a == 0) {
				vp_assert(res == fstrm_res_success, "writing no frames succeeds");
				break;
			}
			if (implicit) {
				exp_len = 0;
				if (s->two_way)
					exp_ctrl(FSTRM_CONTROL_READY);
				exp_ctrl(FSTRM_CONTROL_START);
				live = true;
				fresh = false;
			}
			if (s->it[i].op == W && a == 0) {
				/* whether this opens the stream is not defined */
				vp_assert(res != fstrm_res_success, "an empty frame is refused");
				if (implicit && T.n_open == 0) {
					live = false;
					fresh = true;
					exp_len = 0;
				}
				break;
			}
			if (!live || lost) {
				vp_assert(res != fstrm_res_success, "frames are refused when no stream is open");
				break;
			}
			vp_assert(res == fstrm_res_success, "frames are written");
			if (s->it[i].op == W) {
				exp_frame(data, a);
			} else {
				off = 0;
				for (unsigned j = 0; j < a; j++) {
					exp_frame(data + off, 1 + j % 3);
					off += 1 + j % 3;
				}
			}
			break;
		case X:
			if (!live || lost) {
				vp_assert(res != fstrm_res_success, "closing is refused when no stream is open");
			} else {
				vp_assert(res == fstrm_res_success, "an open stream can be closed");
				exp_ctrl(FSTRM_CONTROL_STOP);
			}
			live = lost = false;
			vp_assert(!T.is_open, "the transport is closed with the stream");
			break;
		}
		if (live && !lost)
			vp_assert(T.is_open, "the transport stays open with the stream");
		if ((live && !lost) || (s->it[i].op == X && was_live && !was_lost)) {
			vp_assert(T.out_len == exp_len, "exactly the frames of the stream are written");
			for (size_t j = 0; j < exp_len; j++)
				vp_assert(T.out[j] == exp[j], "the stream is written as START, the frames in order, STOP");
		}
	}
	unsigned bad0 = T.n_bad;
	fstrm_writer_destroy(&w);
	vp_assert(w == NULL, "destroy clears the caller's pointer");
	if (live && !lost && T.n_bad == bad0) {
		exp_ctrl(FSTRM_CONTROL_STOP);
		vp_assert(T.out_len == exp_len, "destroying an open writer ends the stream with STOP");
		for (size_t j = 0; j < exp_len; j++)
			vp_assert(T.out[j] == exp[j], "destroying an open writer ends the stream with STOP");
	}
	if (s->two_way && T.n_bad == 0 && T.n_open == 1)
		vp_assert(T.in_pos == T.in_len, "the writer waits for FINISH");
	vp_assert(T.n_destroy == 1 && !T.is_open && T.n_open == T.n_close, "the transport is closed and destroyed at the end");
	vp_assert(vp_live == 0, "nothing leaks");
	vp_reach("end");
}

void vp_main(void)
{
	for (unsigned i = 0; i < NSCRIPTS; i++) {
		const struct script *s = &scripts[i];
		run(s, 0, 0, 0, 0);
#ifdef FAULT_OPEN
		run(s, 1, 0, 0, 0);
		run(s, 2, 0, 0, 0);
		run(s, 0, 0, 0, 1);
#endif
#ifdef FAULT_WRITE
		for (unsigned f = FAULT_LO; f <= FAULT_WRITE; f++)
			run(s, 0, 0, f, 0);
#endif
#ifdef FAULT_READ
		for (unsigned f = FAULT_LO; f <= FAULT_READ; f++)
			run(s, 0, f, 0, 0);
#endif
	}
}

#elif defined(LENGTHS)
/*
 * writev of LENGTHS frames whose lengths are any 64-bit values: the transport
 * checks the vector it is given against the frames, without copying.
 */
# include <fstrm.h>
# include <string.h>
static struct iovec iov[LENGTHS];
static uint8_t base[LENGTHS];
static struct { unsigned n_open, n_close, frame, extra; bool open, head, started; } S;
static fstrm_res s_open(void *o) { S.open = true; S.n_open++; return fstrm_res_success; }
static fstrm_res s_close(void *o) { S.open = false; S.n_close++; return fstrm_res_success; }
static fstrm_res s_write(void *o, const struct iovec *v, int n)
{
	vp_assert(S.open, "no write on a transport that is not open");
	if (!S.started || S.frame == LENGTHS) {
		/* START or STOP */
		vp_assert(n == 1 && v[0].iov_len == 12, "control frames bracket the data frames");
		S.extra++;
		S.started = true;
		return fstrm_res_success;
	}
	for (int i = 0; i < n; i++) {
		vp_assert(S.frame < LENGTHS, "no more frames than were given");
		if (!S.head) {
			vp_assert(v[i].iov_len == 4 && VP_R_OK(v[i].iov_base, 4), "each frame starts with its 32-bit length");
			vp_assert(vp_get_be32(v[i].iov_base) == iov[S.frame].iov_len, "the length of each frame is written in network byte order");
			S.head = true;
		} else {
			vp_assert(v[i].iov_len == iov[S.frame].iov_len && v[i].iov_base == iov[S.frame].iov_base, "the content follows its length");
			S.head = false;
			S.frame++;
		}
	}
	return fstrm_res_success;
}
void vp_main(void)
{
	bool valid = true;
	for (unsigned i = 0; i < LENGTHS; i++) {
		iov[i].iov_base = &base[i];
		iov[i].iov_len = vp_size();
		if (iov[i].iov_len == 0 || iov[i].iov_len > UINT32_MAX)
			valid = false;
	}
	struct fstrm_rdwr *rd = fstrm_rdwr_init(&S);
	fstrm_rdwr_set_open(rd, s_open);
	fstrm_rdwr_set_close(rd, s_close);
	fstrm_rdwr_set_write(rd, s_write);
	struct fstrm_writer *w = fstrm_writer_init(NULL, &rd);
	vp_assert(fstrm_writer_open(w) == fstrm_res_success, "a stream can be opened");
	fstrm_res res = fstrm_writer_writev(w, iov, LENGTHS);
	vp_assert((res == fstrm_res_success) == valid, "frames are written exactly if the stream can express their lengths");
	if (valid) {
		vp_assert(S.frame == LENGTHS && !S.head, "all frames are written");
		vp_reach("written");
	} else {
		vp_assert(S.frame == 0 && !S.head && S.extra == 1, "nothing is written for a frame the stream cannot express");
		vp_reach("refused");
	}
}
#endif
