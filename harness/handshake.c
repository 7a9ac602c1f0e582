/*
 * The content type negotiation of readers and writers over an in-memory
 * transport: content types of given lengths with any bytes.
 *
 * MINE:  lengths of the content types this end is configured with
 * PEER:  lengths of the content types in the peer's READY (reader) or ACCEPT
 *        (writer) frame
 * STARTT: lengths of the content types in the peer's START frame (reader)
 */
#include "vp.h"
#include <stdlib.h>
#ifndef W
# define W 8
# define TR_IN 128
# define TR_MAXREQ 65
# define TR_OUT 128
#else
# define TR_IN 1100
# define TR_MAXREQ 520
# define TR_OUT 1100
#endif
#include "tr.h"

#define COUNT(a) (sizeof(a) / sizeof((a)[0]) - 1)
static const unsigned mine_len[] = { MINE 0 };
static const unsigned peer_len[] = { PEER 0 };
static const unsigned start_len[] = { STARTT 0 };
#define NMINE COUNT(mine_len)
#define NPEER COUNT(peer_len)
#define NSTART COUNT(start_len)

/*
 * Case split on the outcomes of the content type comparisons: `cases` fixes
 * the outcome of each comparison in turn, and the real comparison is assumed
 * to agree. All outcome sequences together cover every value of the bytes,
 * and within one sequence the control flow of the code under test is fixed.
 */
static unsigned cases, ncmp;
fstrm_res vp_fstrm_control_match_field_content_type(const struct fstrm_control *c, const uint8_t *m, const size_t l)
{
	fstrm_res real = fstrm_control_match_field_content_type(c, m, l);
	bool say = cases >> ncmp & 1;
	ncmp++;
	if (ncmp > NCASES)
		return real;
	vp_assume((real == fstrm_res_success) == say);
	return say ? fstrm_res_success : fstrm_res_failure;
}

static uint8_t mine[4][W], peer[4][W], startt[2][W];

static void in_types(uint32_t type, uint8_t t[][W], const unsigned *len, unsigned n)
{
	uint32_t size = 4;
	for (unsigned i = 0; i < n; i++)
		size += 8 + len[i];
	in_be32(0);
	in_be32(size);
	in_be32(type);
	for (unsigned i = 0; i < n; i++) {
		in_be32(1);
		in_be32(len[i]);
		for (unsigned j = 0; j < len[i]; j++)
			T.in[T.in_len + j] = t[i][j];
		T.in_len += len[i];
	}
}

static bool same(const uint8_t *a, unsigned la, const uint8_t *b, unsigned lb)
{
	if (la != lb)
		return false;
	for (unsigned i = 0; i < la; i++)
		if (a[i] != b[i])
			return false;
	return true;
}

/* Does the written output at offset o hold exactly this control frame? */
static size_t out_types(size_t o, uint32_t type, uint8_t t[][W], const unsigned *len, const bool *sel, unsigned n)
{
	uint32_t size = 4;
	for (unsigned i = 0; i < n; i++)
		if (sel[i])
			size += 8 + len[i];
	vp_assert(T.out_len >= o + 8 + size, "the control frame is written completely");
	vp_assert(vp_get_be32(T.out + o) == 0, "a control frame starts with the escape sequence");
	vp_assert(vp_get_be32(T.out + o + 4) == size, "the control frame carries exactly the negotiated content types");
	vp_assert(vp_get_be32(T.out + o + 8) == type, "the control frame has the type this step of the handshake calls for");
	size_t p = o + 12;
	for (unsigned i = 0; i < n; i++) {
		if (!sel[i])
			continue;
		vp_assert(p + 8 + len[i] <= TR_OUT, "harness: output bound");
		vp_assert(vp_get_be32(T.out + p) == 1 && vp_get_be32(T.out + p + 4) == len[i], "the control frame carries exactly the negotiated content types");
		for (unsigned j = 0; j < len[i]; j++)
			vp_assert(T.out[p + 8 + j] == t[i][j], "the control frame carries exactly the negotiated content types");
		p += 8 + len[i];
	}
	return o + 8 + size;
}

static void run(void)
{
	memset(&T, 0, sizeof(T));
	ncmp = 0;
	vp_live = 0;
	for (unsigned i = 0; i < NMINE; i++)
		vp_bytes(mine[i], mine_len[i]);
	for (unsigned i = 0; i < NPEER; i++)
		vp_bytes(peer[i], peer_len[i]);
	for (unsigned i = 0; i < NSTART; i++)
		vp_bytes(startt[i], start_len[i]);
	bool all[4] = { true, true, true, true };
	size_t base = 0;

#if defined(READER)
	struct fstrm_reader_options *ro = fstrm_reader_options_init();
	for (unsigned i = 0; i < NMINE; i++) {
		uint8_t tmp[W];
		memcpy(tmp, mine[i], W);
		vp_assert(fstrm_reader_options_add_content_type(ro, tmp, mine_len[i]) == fstrm_res_success, "content types up to 256 bytes can be configured");
		memset(tmp, 0, W);
	}
	/* which of mine are in the peer's offer? */
	bool offer[4] = { false, false, false, false };
	for (unsigned i = 0; i < NMINE; i++) {
		offer[i] = NPEER == 0;
		for (unsigned j = 0; j < NPEER; j++)
			if (same(mine[i], mine_len[i], peer[j], peer_len[j]))
				offer[i] = true;
	}
	bool good = NMINE == 0 || NSTART == 0;
	for (unsigned i = 0; i < NMINE; i++)
		if (NSTART > 0 && same(mine[i], mine_len[i], startt[0], start_len[0]))
			good = true;
	if (NSTART > 1)
		good = false;
# ifdef TWICE
	/* an earlier stream read by the same reader */
#  ifdef TWOWAY
	in_ctrl(FSTRM_CONTROL_READY);
#  endif
	in_ctrl(FSTRM_CONTROL_START);
	in_ctrl(FSTRM_CONTROL_STOP);
# endif
# ifdef TWOWAY
	in_types(TYPE1, peer, peer_len, NPEER);
	if (TYPE1 != FSTRM_CONTROL_READY)
		good = false;
# endif
	in_types(TYPE2, startt, start_len, NSTART);
	if (TYPE2 != FSTRM_CONTROL_START)
		good = false;
	size_t hs = T.in_len;
	struct fstrm_rdwr *rd = tr_rdwr(true,
# ifdef TWOWAY
		true
# else
		false
# endif
		);
	struct fstrm_reader *r = fstrm_reader_init(ro, &rd);
	fstrm_reader_options_destroy(&ro);
# ifdef TWICE
	const uint8_t *d;
	size_t l0;
	ncmp = NCASES;		/* the real comparison decides */
	vp_assert(fstrm_reader_open(r) == fstrm_res_success, "a stream without a content type is accepted");
	vp_assert(fstrm_reader_read(r, &d, &l0) == fstrm_res_stop, "the end of the first stream");
	vp_assert(fstrm_reader_close(r) == fstrm_res_success, "the first stream is closed");
	ncmp = 0;
	base = T.out_len;
# endif
	fstrm_res res = fstrm_reader_open(r);
	vp_assert((res == fstrm_res_success) == good, "a stream is accepted exactly if its START carries no type or a type the reader wants");
# ifdef TWOWAY
	if (TYPE1 == FSTRM_CONTROL_READY)
		vp_assert(out_types(base, FSTRM_CONTROL_ACCEPT, mine, mine_len, offer, NMINE) == T.out_len, "the reader writes exactly one ACCEPT");
	else
		vp_assert(T.out_len == base, "the reader answers only a READY");
# else
	vp_assert(T.n_write == 0, "nothing is written to a one-way stream");
# endif
	if (res == fstrm_res_success) {
		vp_assert(T.in_pos == hs, "the handshake consumes exactly its own frames");
		vp_assert(T.is_open, "an open reader has an open transport");
		const struct fstrm_control *c = NULL;
		vp_assert(fstrm_reader_get_control(r, FSTRM_CONTROL_START, &c) == fstrm_res_success && c != NULL, "the START frame is available");
		fstrm_control_type t = 0;
		vp_assert(fstrm_control_get_type(c, &t) == fstrm_res_success && t == FSTRM_CONTROL_START, "the START frame is available");
		size_t n = 99;
		vp_assert(fstrm_control_get_num_field_content_type(c, &n) == fstrm_res_success && n == NSTART, "the START frame is available as it was received");
		if (NSTART == 1) {
			const uint8_t *p = NULL;
			size_t l = 0;
			vp_assert(fstrm_control_get_field_content_type(c, 0, &p, &l) == fstrm_res_success && l == start_len[0], "the START frame is available as it was received");
			for (unsigned j = 0; j < start_len[0]; j++)
				vp_assert(p[j] == startt[0][j], "the START frame is available as it was received");
		}
		vp_reach("opt: accepted");
	} else {
		vp_assert(!T.is_open, "a failed handshake closes the transport");
		vp_reach("opt: refused");
	}
	fstrm_reader_destroy(&r);
#else
	struct fstrm_writer_options *wo = fstrm_writer_options_init();
	for (unsigned i = 0; i < NMINE; i++) {
		uint8_t tmp[W];
		memcpy(tmp, mine[i], W);
		vp_assert(fstrm_writer_options_add_content_type(wo, tmp, mine_len[i]) == fstrm_res_success, "content types up to 256 bytes can be configured");
		memset(tmp, 0, W);
	}
	bool good = true, pick[4] = { false, false, false, false };
# ifdef TWOWAY
	/* any of mine that the peer accepts; none configured: nothing to agree on */
	good = NMINE == 0;
	bool found = false;
	for (unsigned i = 0; i < NMINE; i++) {
		bool in = NPEER == 0;
		for (unsigned j = 0; j < NPEER; j++)
			if (same(mine[i], mine_len[i], peer[j], peer_len[j]))
				in = true;
		if (in && !found) {
			found = good = true;
			pick[i] = true;
		}
	}
	in_types(TYPE1, peer, peer_len, NPEER);
	if (TYPE1 != FSTRM_CONTROL_ACCEPT)
		good = false;
	size_t hs = T.in_len;
	in_ctrl(TYPE2);
# else
	pick[0] = NMINE > 0;
	size_t hs = 0;
# endif
	struct fstrm_rdwr *rd = tr_rdwr(
# ifdef TWOWAY
		true
# else
		false
# endif
		, true);
	struct fstrm_writer *w = fstrm_writer_init(wo, &rd);
	fstrm_writer_options_destroy(&wo);
	fstrm_res res = fstrm_writer_open(w);
	vp_assert((res == fstrm_res_success) == good, "the writer opens exactly if the peer accepts one of its content types");
	size_t o = 0;
# ifdef TWOWAY
	o = out_types(o, FSTRM_CONTROL_READY, mine, mine_len, all, NMINE);
# endif
	if (res == fstrm_res_success) {
		vp_assert(T.is_open && T.in_pos == hs, "the handshake consumes exactly its own frames");
		o = out_types(o, FSTRM_CONTROL_START, mine, mine_len, pick, NMINE);
		vp_assert(o == T.out_len, "nothing but the handshake is written");
		res = fstrm_writer_close(w);
		bool none[4] = { false, false, false, false };
		o = out_types(o, FSTRM_CONTROL_STOP, mine, mine_len, none, 0);
		vp_assert(o == T.out_len, "STOP ends the stream");
# ifdef TWOWAY
		vp_assert((res == fstrm_res_success) == (TYPE2 == FSTRM_CONTROL_FINISH), "closing succeeds exactly if the peer answers STOP with FINISH");
		vp_assert(T.in_pos == T.in_len, "the writer waits for the answer to STOP");
# else
		vp_assert(res == fstrm_res_success, "closing succeeds");
# endif
		vp_reach("opt: accepted");
	} else {
		vp_assert(o == T.out_len, "no START without agreement");
		vp_reach("opt: refused");
	}
	vp_assert(!T.is_open, "the transport is closed in the end");
	fstrm_writer_destroy(&w);
#endif
# ifndef TWICE
#  define TWICE 0
# endif
	vp_assert(T.n_destroy == 1 && T.n_open == 1 + TWICE && T.n_close == 1 + TWICE && !T.is_open, "opened, closed and destroyed exactly once");
	vp_assert(vp_live == 0, "nothing leaks");
	vp_reach("end");
}

void vp_main(void)
{
#ifndef CASE_LO
# define CASE_LO 0
# define CASE_HI (1u << NCASES)
#endif
	/* the jobs of one configuration together cover every case */
	unsigned which = vp_u8();
	vp_assume(which >= CASE_LO && which < CASE_HI);
	for (unsigned i = CASE_LO; i < CASE_HI; i++) {
		if (which == i) {
			cases = i;
			run();
		}
	}
}
