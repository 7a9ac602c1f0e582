/*
 * Content types in option objects: which are accepted, and that readers and
 * writers keep what was configured when they were made.
 */
#include "vp.h"
#include <stdlib.h>

#define TR_IN 32
#define TR_OUT OUTSIZE
#include "tr.h"

static const unsigned lens[] = { LENS };
#define N (sizeof(lens) / sizeof(lens[0]))
static uint8_t c0[MAXLEN], c1[MAXLEN], c2[MAXLEN], tmp[MAXLEN];
static uint8_t *const ct[3] = { c0, c1, c2 };

#ifdef READER
# define OPTS fstrm_reader_options
# define F(x) fstrm_reader_##x
# define OBJ fstrm_reader
#else
# define OPTS fstrm_writer_options
# define F(x) fstrm_writer_##x
# define OBJ fstrm_writer
#endif

/* the transport's output is one control frame with these content types */
static size_t expect(size_t o, uint32_t type, const bool *have)
{
	size_t size = 4;
	for (unsigned i = 0; i < N; i++)
		if (have[i])
			size += 8 + lens[i];
	vp_assert(T.out_len >= o + 8 + size, "a complete control frame is written");
	vp_assert(vp_get_be32(T.out + o) == 0 && vp_get_be32(T.out + o + 4) == size && vp_get_be32(T.out + o + 8) == type, "the control frame has its type and length");
	size_t p = o + 12;
	for (unsigned i = 0; i < N; i++) {
		if (!have[i])
			continue;
		vp_assert(vp_get_be32(T.out + p) == 1 && vp_get_be32(T.out + p + 4) == lens[i], "each content type is written with its length");
		p += 8;
		for (unsigned j = 0; j < lens[i]; j++)
			vp_assert(T.out[p + j] == ct[i][j], "each content type is written as it was configured");
		p += lens[i];
	}
	return p;
}

static void use(struct OBJ *x, const bool *have)
{
	memset(&T, 0, sizeof(T));
#ifdef READER
	in_ctrl(FSTRM_CONTROL_READY);
	in_ctrl(FSTRM_CONTROL_START);
	vp_assert(fstrm_reader_open(x) == fstrm_res_success, "the reader can be opened");
	size_t o = expect(0, FSTRM_CONTROL_ACCEPT, have);
	vp_assert(T.out_len == o, "exactly ACCEPT is written");
#else
	in_ctrl(FSTRM_CONTROL_ACCEPT);
	vp_assert(fstrm_writer_open(x) == fstrm_res_success, "the writer can be opened");
	size_t o = expect(0, FSTRM_CONTROL_READY, have);
	bool one[N] = { false };
	for (unsigned i = 0; i < N; i++)
		if (have[i]) {
			one[i] = true;
			break;
		}
	o = expect(o, FSTRM_CONTROL_START, one);
	vp_assert(T.out_len == o, "exactly READY and START are written");
	in_ctrl(FSTRM_CONTROL_FINISH);
#endif
	F(destroy)(&x);
	vp_assert(x == NULL, "destroy clears the caller's pointer");
	vp_assert(T.n_destroy == 1 && !T.is_open, "the transport is closed and destroyed");
}

void vp_main(void)
{
	long live0 = vp_live;
	/* a transport without the method that is needed */
#ifdef READER
	struct fstrm_rdwr *bad = tr_rdwr(false, true);
#else
	struct fstrm_rdwr *bad = tr_rdwr(true, false);
#endif
	struct fstrm_rdwr *bad0 = bad;
	vp_assert(F(init)(NULL, &bad) == NULL && bad == bad0, "a transport without the needed method is refused, and remains the caller's");
	fstrm_rdwr_destroy(&bad);
	bool have[N] = { false }, now[N] = { false }, none[N] = { false };
	struct OPTS *o = F(options_init)();
	struct OBJ *x[3];
	for (unsigned k = 0; k < N; k++) {
		/* one after another: in two steps */
		for (unsigned j = 0; j < lens[k]; j++)
			ct[k][j] = tmp[j] = vp_u8();
		fstrm_res res = F(options_add_content_type)(o, tmp, lens[k]);
		vp_assert((res == fstrm_res_success) == (lens[k] <= 256), "exactly content types of at most 256 bytes are accepted");
		memset(tmp, 0xee, MAXLEN);
		now[k] = lens[k] <= 256;
		if (k == N - 2) {
			for (unsigned i = 0; i < N; i++)
				have[i] = now[i];
			struct fstrm_rdwr *rd = tr_rdwr(true, true);
			x[0] = F(init)(o, &rd);
			vp_assert(x[0] != NULL && rd == NULL, "the transport is taken over");
		}
	}
	struct fstrm_rdwr *rd = tr_rdwr(true, true);
	x[1] = F(init)(o, &rd);
	rd = tr_rdwr(true, true);
	x[2] = F(init)(NULL, &rd);
	vp_assert(x[1] != NULL && x[2] != NULL && rd == NULL, "the transport is taken over");
	F(options_destroy)(&o);
	vp_assert(o == NULL, "destroy clears the caller's pointer");
	F(options_destroy)(&o);
	use(x[1], now);
	use(x[0], have);
	use(x[2], none);
	vp_assert(vp_live == live0, "nothing leaks");
	vp_reach("end");
}
