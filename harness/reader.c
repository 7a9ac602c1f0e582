/*
 * fstrm_reader over an in-memory transport that serves a script: a sequence
 * of data frames of given lengths with any bytes and of control frames, one-
 * or two-way; any one read or write call may fail.
 *
 * SCRIPTS is a list of {two_way, n, {{kind, arg}, ...}}.
 */
#include "vp.h"
#include <stdlib.h>

enum {
	D,	/* data frame of `arg` bytes */
	C,	/* 4-byte control frame of type `arg` */
	U,	/* 4-byte control frame of any type except STOP */
	K,	/* 4-byte control frame of the given type, not one of the five */
	G,	/* control frame of `arg` bytes, any content but the type STOP */
	L,	/* control frame with a length word of any value over 512 */
	Z,	/* data frame with a length word of any value over the maximum */
	S,	/* data frame with any length word but 0 and 4 */
	E,	/* the input ends here */
};
struct item { int kind; unsigned arg; };
struct script { bool two_way; unsigned n; struct item it[8]; };

#define TR_IN (INSIZE)
#define TR_MAXREQ (INSIZE)
#define TR_OUT 64
#define TR_FAULTS
#include "tr.h"

static const struct script scripts[] = { SCRIPTS };
#define NSCRIPTS (sizeof(scripts) / sizeof(scripts[0]))

static void read_script(const struct script *s, unsigned fail_read_at, unsigned fail_write_at)
{
	memset(&T, 0, sizeof(T));
	long live0 = vp_live;
	size_t off[8];
	if (s->two_way)
		in_ctrl(FSTRM_CONTROL_READY);
	in_ctrl(FSTRM_CONTROL_START);
	for (unsigned i = 0; i < s->n; i++) {
		unsigned a = s->it[i].arg;
		switch (s->it[i].kind) {
		case D:
			in_be32(a);
			off[i] = T.in_len;
			for (unsigned j = 0; j < a; j++)
				T.in[T.in_len + j] = vp_u8();
			T.in_len += a;
			break;
		case C:
		case K:
			in_ctrl(a);
			break;
		case U: {
			in_be32(0);
			in_be32(4);
			uint32_t t = vp_u32();
			vp_assume(t != FSTRM_CONTROL_STOP);
			in_be32(t);
			break;
		}
		case G: {
			in_be32(0);
			in_be32(a);
			size_t o = T.in_len;
			for (unsigned j = 0; j < a; j++)
				T.in[o + j] = vp_u8();
			if (a >= 4)
				vp_assume(vp_get_be32(T.in + o) != FSTRM_CONTROL_STOP);
			T.in_len += a;
			break;
		}
		case L: {
			in_be32(0);
			uint32_t w = vp_u32();
			vp_assume(w > 512);
			in_be32(w);
			T.forbid = T.in_len;
			break;
		}
		case S:
			T.sym_len = vp_u32();
			vp_assume(T.sym_len != 0 && T.sym_len != 4);
			T.sym_byte = vp_u8();
			in_be32(T.sym_len);
			T.sym_pos = T.in_len;
			break;
		case Z: {
			uint32_t w = vp_u32();
			vp_assume(w > MAXFRAME);
			in_be32(w);
			T.forbid = T.in_len;
			break;
		}
		}
	}
	T.fail_read_at = fail_read_at;
	T.fail_write_at = fail_write_at;
	T.fail_res = fail_read_at % 2 ? fstrm_res_stop : fstrm_res_failure;
	struct fstrm_rdwr *rd = tr_rdwr(true, s->two_way);
	struct fstrm_reader_options *ro = fstrm_reader_options_init();
#ifdef SYM_MAX
	size_t max = vp_size();
	if (fstrm_reader_options_set_max_frame_size(ro, max) == fstrm_res_success) {
		vp_assert(max >= 512 && max < 0xffffffff, "the maximum frame size is accepted only in its range");
	} else {
		vp_assert(max < 512 || max >= 0xffffffff, "the maximum frame size is accepted in all of its range");
		max = 1048576;
	}
	T.sym_max = max;
	vp_sample = vp_size();
#else
	if (MAXFRAME != 1048576)	/* the default is left as it is */
		vp_assert(fstrm_reader_options_set_max_frame_size(ro, MAXFRAME) == fstrm_res_success, "the maximum frame size can be set");
	T.sym_max = MAXFRAME;
	vp_sample = vp_size();
#endif
	struct fstrm_reader *r = fstrm_reader_init(ro, &rd);
	fstrm_reader_options_destroy(&ro);
	vp_assert(r != NULL && rd == NULL, "the reader takes ownership of the transport");
	bool dead = false, stopped = false, vague = false, loose = false;
	unsigned reads = 0, nr = s->two_way ? 6 : 3;
	size_t pos = s->two_way ? 24 : 12;
	for (unsigned i = 0; i < s->n && !dead && !stopped; i++) {
		/* control frames before the next frame are read on the way */
		unsigned a = s->it[i].arg;
		switch (s->it[i].kind) {
		case K: pos += 12; nr += 3; continue;
		case U: pos += 12; nr += 3; vague = loose = true; continue;
		case G: pos += 8 + a; nr += 3; vague = loose = true; continue;
		}
		const uint8_t *d = NULL;
		size_t l = 0;
		fstrm_res res = fstrm_reader_read(r, &d, &l);
		if (T.broken || (vague && s->it[i].kind != E && res != fstrm_res_success && res != fstrm_res_stop)) {
			/* I/O failed, or a control frame that is not defined here */
			vp_assert(res != fstrm_res_success, "a failed read is never reported as data");
			vp_reach("opt: failed read");
			dead = true;
			break;
		}
		switch (s->it[i].kind) {
		case D:
			vp_assert(res == fstrm_res_success, "each complete frame is delivered");
			vp_assert(l == a, "each frame is delivered with its length");
			vp_assert(VP_R_OK(d, a), "the whole frame is readable");
			for (unsigned j = 0; j < a; j++)
				vp_assert(d[j] == T.in[off[i] + j], "each frame is delivered with its bytes");
			pos += 4 + a;
			nr += 2;
			reads++;
			vp_assert(T.in_pos == pos, "the reader consumes exactly the frames it has delivered");
			T.in_pos = pos;		/* keep it concrete */
			T.n_read = nr;
			vague = false;
			break;
		case C:
			vp_assert(res == fstrm_res_stop, "STOP is reported as the end of the stream");
			stopped = true;
			pos += 12;
			vp_assert(T.in_pos == pos, "STOP ends the stream exactly where it is");
			vp_reach("opt: stop");
			break;
		case S:
			if (T.sym_len <= T.sym_max) {
				vp_assert(res == fstrm_res_success && T.sym_done, "each frame up to the maximum size is delivered");
				vp_assert(l == T.sym_len, "each frame is delivered with its length");
				vp_assert(vp_blk_ok(d, l), "the whole frame is readable");
				if (vp_sample < l && l == T.sym_len)
					vp_assert(vp_blk_get(d) == T.sym_byte, "each frame is delivered with its bytes");
				if (l == T.sym_max)
					vp_reach("opt: exactly the maximum size");
				vp_reach("opt: within the maximum size");
			} else {
				vp_assert(res == fstrm_res_failure && !T.sym_done, "a frame over the maximum size is a failure");
				vp_reach("opt: over the maximum size");
			}
			dead = loose = true;
			break;
		case L:
		case Z:
			vp_assert(res == fstrm_res_failure, "a frame over the limit is a failure");
			vp_assert(T.in_pos <= pos + 8, "no content of a frame over the limit is read");
			vp_reach("opt: over the limit");
			dead = true;
			break;
		case E:
			vp_assert(res != fstrm_res_success, "the end of the input is never data");
			dead = true;
			break;
		}
	}
	if (!loose && (dead || stopped)) {
		const uint8_t *d = NULL;
		size_t l = 0;
		unsigned n_open = T.n_open;
		size_t before = T.in_pos;
		if (n_open == 1 && reads > 0) {
			vp_assert(fstrm_reader_read(r, &d, &l) != fstrm_res_success, "no data after the end of the stream");
			vp_assert(T.in_pos == before && T.n_open == n_open, "nothing is read after the end of the stream");
		}
	}
	if (stopped) {
		bool wf = T.fail_write_at != 0;
		fstrm_res res = fstrm_reader_close(r);
		if (T.broken)
			vp_assert(res != fstrm_res_success, "a failed FINISH is reported");
		else
			vp_assert(res == fstrm_res_success, "the finished stream can be closed");
		const uint8_t *d = NULL;
		size_t l = 0;
		vp_assert(fstrm_reader_read(r, &d, &l) == fstrm_res_stop, "a closed reader stays at the end of the stream");
		vp_assert(fstrm_reader_close(r) == fstrm_res_failure, "a closed reader cannot be closed again");
		if (!T.broken && s->two_way) {
			vp_assert(T.out_len == 24, "exactly ACCEPT and FINISH are written");
			vp_assert(vp_get_be32(T.out) == 0 && vp_get_be32(T.out + 4) == 4 &&
				  vp_get_be32(T.out + 8) == FSTRM_CONTROL_ACCEPT, "ACCEPT is written first");
			vp_assert(vp_get_be32(T.out + 12) == 0 && vp_get_be32(T.out + 16) == 4 &&
				  vp_get_be32(T.out + 20) == FSTRM_CONTROL_FINISH, "FINISH is written last");
		}
		(void) wf;
	}
	if (!s->two_way)
		vp_assert(T.n_write == 0, "nothing is written to a one-way stream");
	fstrm_reader_destroy(&r);
	vp_assert(r == NULL, "destroy clears the caller's pointer");
	vp_assert(T.n_destroy == 1 && !T.is_open && T.n_open == T.n_close && T.n_open <= 1, "the transport is opened once, and closed and destroyed once at the end");
	vp_assert(vp_live == live0, "nothing leaks");
	vp_reach("end");
}

void vp_main(void)
{
	for (unsigned i = 0; i < NSCRIPTS; i++) {
		const struct script *s = &scripts[i];
		read_script(s, 0, 0);
#ifdef FAULT
		unsigned reads = s->two_way ? 6 : 3;
		for (unsigned j = 0; j < s->n; j++)
			reads += s->it[j].kind == D ? 2 : s->it[j].kind == Z ? 1 : s->it[j].kind == L ? 2 : 3;
		for (unsigned f = 1; f <= reads; f++)
			read_script(s, f, 0);
		if (s->two_way) {
			read_script(s, 0, 1);
			read_script(s, 0, 2);
		}
#endif
	}
}
