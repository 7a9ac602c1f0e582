/*
 * Control frame codec (fstrm_control_*): C01 encode layout and round trip,
 * C02 decode grammar, C03 limits, C04 content type matching.
 */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <fstrm.h>

#define HDR FSTRM_CONTROL_FLAG_WITH_HEADER
#define CT_MAX 256u
#define CF_MAX 512u

/* ---- reference grammar, written from the Frame Streams specification ---- */
#ifndef MAXF
#define MAXF 80
#endif
struct ref {
	bool ok;
	uint32_t type;
	unsigned n;
	size_t off[MAXF + 1], len[MAXF + 1];
};

static void ref_decode(struct ref *r, const uint8_t *b, size_t n, bool hdr)
{
	size_t o = 0;
	r->ok = false;
	r->n = 0;
	r->type = 0;
	if (hdr) {
		if (n < 8 || vp_get_be32(b) != 0)
			return;
		if (vp_get_be32(b + 4) != n - 8)
			return;
		o = 8;
	}
	if (n - o > CF_MAX || n - o < 4)
		return;
	r->type = vp_get_be32(b + o);
	o += 4;
	if (r->type < 1 || r->type > 5)
		return;
	for (unsigned k = 0; k < MAXF + 1; k++) {
		if (o >= n)
			break;
		if (n - o < 8 || vp_get_be32(b + o) != 1)
			return;
		uint32_t l = vp_get_be32(b + o + 4);
		if (l > CT_MAX || l > n - o - 8)
			return;
		r->off[r->n] = o + 8;
		r->len[r->n] = l;
		r->n++;
		o += 8 + (size_t) l;
	}
	if (r->type == FSTRM_CONTROL_START && r->n > 1)
		return;
	if ((r->type == FSTRM_CONTROL_STOP || r->type == FSTRM_CONTROL_FINISH) && r->n > 0)
		return;
	r->ok = true;
}

#ifdef DECODE_ANY
static void check_decoded(const struct fstrm_control *c, const struct ref *r,
			  const uint8_t *b)
{
	fstrm_control_type ty = 0;
	size_t m = 12345;
	vp_assert(fstrm_control_get_type(c, &ty) == fstrm_res_success && ty == r->type,
		  "decoded type is the type on the wire");
	vp_assert(fstrm_control_get_num_field_content_type(c, &m) == fstrm_res_success && m == r->n,
		  "decoded content type count is the count on the wire");
	for (unsigned i = 0; i < MAXF; i++) {
		const uint8_t *d = NULL;
		size_t l = 0;
		if (i >= r->n)
			break;
		vp_assert(fstrm_control_get_field_content_type(c, i, &d, &l) == fstrm_res_success,
			  "each decoded content type can be read");
		vp_assert(l == r->len[i], "decoded content type has the length on the wire");
		for (size_t j = 0; j < N - 4; j++)
			if (j < l)
				vp_assert(d[j] == b[r->off[i] + j], "decoded content type bytes are those on the wire");
	}
	const uint8_t *d = NULL;
	size_t l = 0;
	vp_assert(fstrm_control_get_field_content_type(c, r->n, &d, &l) != fstrm_res_success,
		  "no content type beyond the last");
}
#endif

/* ---- harnesses ---- */
#if defined(DECODE_ANY)
/* Every byte string of length 0..N, with or without the outer header. */
void vp_main(void)
{
	static uint8_t buf[N];
	bool hdr = DECODE_ANY;
	vp_bytes(buf, N);
	size_t n = vp_range(0, N);
#ifdef EXACT
	uint8_t *b = malloc(n);
	memcpy(b, buf, n);
#else
	uint8_t *b = buf;
#endif
	struct ref r;
	ref_decode(&r, b, n, hdr);
	struct fstrm_control *c = fstrm_control_init();
#ifdef REUSE
	/* the object is reused: whatever it held before must not survive */
	uint8_t old[2];
	vp_bytes(old, 2);
	fstrm_control_set_type(c, 1 + (vp_u8() % 5));
	fstrm_control_add_field_content_type(c, old, 2);
	fstrm_control_add_field_content_type(c, old, 1);
#endif
	fstrm_res res = fstrm_control_decode(c, b, n, hdr ? HDR : 0);
	vp_assert(res == fstrm_res_success || res == fstrm_res_failure, "decode returns success or failure");
	if (r.ok)
		vp_assert(res == fstrm_res_success, "every well-formed control frame is accepted");
	else
		vp_assert(res != fstrm_res_success, "every malformed control frame is rejected");
	if (r.ok && res == fstrm_res_success) {
		vp_reach("accepted");
		check_decoded(c, &r, b);
	}
	if (!r.ok)
		vp_reach("rejected");
#ifdef EXACT
	free(b);
#endif
	fstrm_control_destroy(&c);
	vp_assert(c == NULL, "destroy clears the caller's pointer");
	vp_assert(vp_live == 0, "decode and destroy leak nothing");
	vp_reach("end");
}

#elif defined(DECODE_SHAPE)
/*
 * Structurally concrete frames up to and beyond the size limits: field
 * lengths, frame length and trailing garbage are fixed per shape, the type and
 * all content bytes are symbolic.
 */
struct shape { unsigned nf; unsigned len[6]; int cut; bool hdr; int hdr_delta; bool exp; };
static const struct shape shapes[] = { SHAPES };
#define NSHAPES (sizeof(shapes) / sizeof(shapes[0]))

static void one(const struct shape *s)
{
	size_t total = 4;
	for (unsigned i = 0; i < s->nf; i++)
		total += 8 + s->len[i];
	/* cut < 0: drop bytes at the end; cut > 0: append garbage */
	size_t n = total + s->cut + (s->hdr ? 8 : 0);
	size_t cap = total + 8 + (s->cut > 0 ? s->cut : 0);
	uint8_t *full = malloc(cap);
	uint8_t pat = vp_u8(), pat2 = vp_u8();
	uint32_t type = vp_u32();
	size_t o = 0;
	if (s->hdr) {
		vp_put_be32(full, 0);
		vp_put_be32(full + 4, (uint32_t) (n - 8 + s->hdr_delta));
		o = 8;
	}
	vp_put_be32(full + o, type);
	o += 4;
	for (unsigned i = 0; i < s->nf; i++) {
		vp_put_be32(full + o, 1);
		vp_put_be32(full + o + 4, s->len[i]);
		o += 8;
		memset(full + o, pat, s->len[i]);
		if (s->len[i] > 0) {
			full[o] = pat2;
			full[o + s->len[i] - 1] = (uint8_t) (pat2 + i + 1);
		}
		o += s->len[i];
	}
	if (s->cut > 0)
		memset(full + o, 0, s->cut);
	uint8_t *b = malloc(n);		/* exact size: any over-read is out of bounds */
	memcpy(b, full, n);
	struct fstrm_control *c = fstrm_control_init();
	fstrm_res res = fstrm_control_decode(c, b, n, s->hdr ? HDR : 0);
	bool tyok = type >= 1 && type <= 5;
	if (type == FSTRM_CONTROL_START && s->nf > 1) tyok = false;
	if ((type == FSTRM_CONTROL_STOP || type == FSTRM_CONTROL_FINISH) && s->nf > 0) tyok = false;
	if (s->exp && tyok) {
		vp_assert(res == fstrm_res_success, "every well-formed control frame is accepted");
		fstrm_control_type ty = 0;
		size_t m = 12345;
		vp_assert(fstrm_control_get_type(c, &ty) == fstrm_res_success && ty == type,
			  "decoded type is the type on the wire");
		vp_assert(fstrm_control_get_num_field_content_type(c, &m) == fstrm_res_success && m == s->nf,
			  "decoded content type count is the count on the wire");
		for (unsigned i = 0; i < s->nf; i++) {
			const uint8_t *d = NULL;
			size_t l = 0;
			vp_assert(fstrm_control_get_field_content_type(c, i, &d, &l) == fstrm_res_success &&
				  l == s->len[i], "decoded content type has the length on the wire");
			if (l > 0) {
				vp_assert(d[0] == (l == 1 ? (uint8_t) (pat2 + i + 1) : pat2), "first content byte kept");
				vp_assert(d[l - 1] == (uint8_t) (pat2 + i + 1), "last content byte kept");
				if (l > 2)
					vp_assert(d[1] == pat && d[l - 2] == pat && d[l / 2] == pat, "inner content bytes kept");
			}
		}
	} else {
		vp_assert(res != fstrm_res_success, "every malformed control frame is rejected");
	}
	fstrm_control_destroy(&c);
	free(b);
	free(full);
	vp_assert(vp_live == 0, "decode and destroy leak nothing");
}

void vp_main(void)
{
	for (unsigned i = 0; i < NSHAPES; i++)
		one(&shapes[i]);
	vp_reach("end");
}

#elif defined(ENCODE)
/*
 * Any control object built through the public API: K content types (K fixed
 * per job) whose lengths are symbolic in 0..L, any type, with or without
 * header, into a buffer of any size.
 */
void vp_main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	uint8_t ct[K ? K : 1][L];
	size_t len[K ? K : 1];
	uint32_t type = vp_u32();
	bool settype = fstrm_control_set_type(c, type) == fstrm_res_success;
	vp_assert(settype == (type >= 1 && type <= 5), "only the five known types can be set");
	vp_assume(settype);
	for (unsigned i = 0; i < K; i++) {
		vp_bytes(ct[i], L);
		len[i] = vp_range(0, L);
		fstrm_res res = fstrm_control_add_field_content_type(c, ct[i], len[i]);
		vp_assert(res == fstrm_res_success, "a content type within the limit can be added");
		/* the caller's buffer is not referenced afterwards */
	}
	bool hdr = vp_bool();
	uint32_t flags = hdr ? HDR : 0;
	/* what should be emitted */
	unsigned n = K;
	if (type == FSTRM_CONTROL_START && n > 1) n = 1;
	if (type == FSTRM_CONTROL_STOP || type == FSTRM_CONTROL_FINISH) n = 0;
	uint8_t exp[12 + K * (8 + L)];
	size_t o = 0;
	if (hdr) o = 8;
	vp_put_be32(exp + o, type);
	o += 4;
	for (unsigned i = 0; i < K; i++) {
		if (i >= n) break;
		vp_put_be32(exp + o, 1);
		vp_put_be32(exp + o + 4, (uint32_t) len[i]);
		o += 8;
		for (size_t j = 0; j < L; j++)
			if (j < len[i])
				exp[o + j] = ct[i][j];
		o += len[i];
	}
	if (hdr) {
		vp_put_be32(exp, 0);
		vp_put_be32(exp + 4, (uint32_t) (o - 8));
	}
	size_t sz = 999;
	vp_assert(fstrm_control_encoded_size(c, &sz, flags) == fstrm_res_success, "size query succeeds within the limits");
	vp_assert(sz == o, "size query equals the specified layout size");
	uint8_t out[sizeof(exp) + 8];
	uint8_t fill = vp_u8();
	memset(out, fill, sizeof(out));
	size_t avail = vp_range(0, sizeof(out));
	size_t got = avail;
	fstrm_res res = fstrm_control_encode(c, out, &got, flags);
	vp_assert((res == fstrm_res_success) == (avail >= o), "encode succeeds exactly when the buffer is large enough");
	if (res == fstrm_res_success) {
		vp_reach("encoded");
		vp_assert(got == o, "encode reports the number of bytes it wrote");
		for (size_t i = 0; i < sizeof(out); i++) {
			if (i < o)
				vp_assert(out[i] == exp[i], "encoded bytes are the specified layout");
			else
				vp_assert(out[i] == fill, "nothing is written past the encoded frame");
		}
		struct fstrm_control *d = fstrm_control_init();
		vp_assert(fstrm_control_decode(d, out, got, flags) == fstrm_res_success, "an encoded frame decodes");
		fstrm_control_type ty = 0;
		size_t m = 77;
		vp_assert(fstrm_control_get_type(d, &ty) == fstrm_res_success && ty == type, "type survives the round trip");
		vp_assert(fstrm_control_get_num_field_content_type(d, &m) == fstrm_res_success && m == n, "content type count survives the round trip");
		for (unsigned i = 0; i < K; i++) {
			const uint8_t *p = NULL;
			size_t l = 0;
			if (i >= n) break;
			vp_assert(fstrm_control_get_field_content_type(d, i, &p, &l) == fstrm_res_success && l == len[i],
				  "content type length survives the round trip");
			for (size_t j = 0; j < L; j++)
				if (j < l)
					vp_assert(p[j] == ct[i][j], "content type bytes survive the round trip");
		}
		fstrm_control_destroy(&d);
	} else {
		vp_reach("too small");
		for (size_t i = 0; i < sizeof(out); i++)
			vp_assert(out[i] == fill, "a failed encode writes nothing");
	}
	fstrm_control_reset(c);
	size_t m = 5;
	fstrm_control_type ty;
	fstrm_control_get_num_field_content_type(c, &m);
	vp_assert(m == 0 && fstrm_control_get_type(c, &ty) != fstrm_res_success, "reset empties the object");
	fstrm_control_destroy(&c);
	vp_assert(vp_live == 0, "nothing leaks");
	vp_reach("end");
}

#elif defined(ENCODE_SHAPE)
/*
 * Limits: concrete content type lengths around 256 and frame sizes around 512.
 */
struct shape { uint32_t type; unsigned nf; unsigned len[6]; };
static const struct shape shapes[] = { SHAPES };
#define NSHAPES (sizeof(shapes) / sizeof(shapes[0]))

static void one(const struct shape *s, bool hdr)
{
	struct fstrm_control *c = fstrm_control_init();
	uint8_t pat = vp_u8(), pat2 = vp_u8();
	uint32_t type = s->type;
	uint8_t *ct = malloc(600);
	memset(ct, pat, 600);
	fstrm_control_set_type(c, type);
	bool all_added = true;
	for (unsigned i = 0; i < s->nf; i++) {
		uint8_t *x = malloc(s->len[i]);	/* exact: no over-read */
		memset(x, pat, s->len[i]);
		if (s->len[i] > 0) { x[0] = pat2; x[s->len[i] - 1] = (uint8_t) (pat2 + i + 1); }
		fstrm_res r = fstrm_control_add_field_content_type(c, x, s->len[i]);
		if (r != fstrm_res_success) {
			all_added = false;
			vp_assert(s->len[i] > CT_MAX, "a content type within the limit can be added");
		}
		free(x);
	}
	if (!all_added)
		goto out;
	unsigned n = s->nf;
	if (type == FSTRM_CONTROL_START && n > 1) n = 1;
	if (type == FSTRM_CONTROL_STOP || type == FSTRM_CONTROL_FINISH) n = 0;
	size_t o = 4 + (hdr ? 8 : 0);
	bool legal = true;
	for (unsigned i = 0; i < s->nf; i++) {
		if (i >= n) break;
		o += 8 + s->len[i];
		if (s->len[i] > CT_MAX) legal = false;
	}
	if (o - (hdr ? 8 : 0) > CF_MAX) legal = false;
	size_t sz = 7;
	fstrm_res rs = fstrm_control_encoded_size(c, &sz, hdr ? HDR : 0);
	uint8_t *out = malloc(o);	/* exact: no over-write */
	size_t got = o;
	fstrm_res re = fstrm_control_encode(c, out, &got, hdr ? HDR : 0);
	vp_assert((re == fstrm_res_success) == (rs == fstrm_res_success), "encode and the size query agree on what is encodable");
	if (!legal)
		vp_assert(re != fstrm_res_success, "a frame or content type over the limits is never emitted");
	else if (o <= CF_MAX)
		vp_assert(re == fstrm_res_success, "a frame within the limits can be encoded");
	if (re == fstrm_res_success) {
		vp_assert(sz == o && got == o, "size query and bytes written agree");
		vp_assert(!hdr || (vp_get_be32(out) == 0 && vp_get_be32(out + 4) == o - 8), "outer header is escape and length");
		struct fstrm_control *d = fstrm_control_init();
		vp_assert(fstrm_control_decode(d, out, got, hdr ? HDR : 0) == fstrm_res_success, "an encoded frame decodes");
		size_t m = 77;
		vp_assert(fstrm_control_get_num_field_content_type(d, &m) == fstrm_res_success && m == n, "content type count survives the round trip");
		for (unsigned i = 0; i < s->nf; i++) {
			const uint8_t *p = NULL;
			size_t l = 0;
			if (i >= n) break;
			vp_assert(fstrm_control_get_field_content_type(d, i, &p, &l) == fstrm_res_success && l == s->len[i],
				  "content type length survives the round trip");
			if (l > 0)
				vp_assert(p[l - 1] == (uint8_t) (pat2 + i + 1), "last byte survives the round trip");
			if (l > 1)
				vp_assert(p[0] == pat2, "first byte survives the round trip");
			if (l > 2)
				vp_assert(p[l / 2] == pat, "inner byte survives the round trip");
		}
		fstrm_control_destroy(&d);
		vp_reach("encoded");
	}
	free(out);
out:
	free(ct);
	fstrm_control_destroy(&c);
	vp_assert(vp_live == 0, "nothing leaks");
}

void vp_main(void)
{
	for (unsigned i = 0; i < NSHAPES; i++) {
		one(&shapes[i], false);
		one(&shapes[i], true);
	}
	vp_reach("end");
}

#elif defined(MATCH)
/* Content type matching, K types of symbolic length 0..L against any probe. */
void vp_main(void)
{
	struct fstrm_control *c = fstrm_control_init();
	uint8_t ct[K ? K : 1][L], probe[L + 1];
	size_t len[K ? K : 1];
	uint32_t type = vp_u32();
	vp_assume(type >= 1 && type <= 5);
	fstrm_control_set_type(c, type);
	for (unsigned i = 0; i < K; i++) {
		vp_bytes(ct[i], L);
		len[i] = vp_range(0, L);
		fstrm_control_add_field_content_type(c, ct[i], len[i]);
	}
	vp_bytes(probe, L + 1);
	size_t pl = vp_range(0, L + 1);
	bool null = vp_bool();
	if (null) pl = 0;
	unsigned n = K;
	if (type == FSTRM_CONTROL_START && n > 1) n = 1;
	bool exp = false;
	if (type != FSTRM_CONTROL_STOP && type != FSTRM_CONTROL_FINISH) {
		if (n == 0) {
			exp = true;
		} else if (!null) {
			for (unsigned i = 0; i < K; i++) {
				if (i >= n) break;
				bool eq = len[i] == pl;
				for (size_t j = 0; j < L; j++)
					if (j < pl && j < len[i] && ct[i][j] != probe[j])
						eq = false;
				if (eq)
					exp = true;
			}
		}
	}
	fstrm_res r = fstrm_control_match_field_content_type(c, null ? NULL : probe, pl);
	vp_assert((r == fstrm_res_success) == exp, "match succeeds exactly when the frame allows the content type");
	if (r == fstrm_res_success)
		vp_reach("match");
	else
		vp_reach("no match");
	fstrm_control_destroy(&c);
	vp_assert(vp_live == 0, "nothing leaks");
	vp_reach("end");
}
#endif
