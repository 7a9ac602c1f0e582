/*
 * A transport for fstrm_rdwr made of two byte arrays. Reads are served from
 * `in`, writes are appended to `out`; every call is counted and checked
 * against the lifecycle the rdwr interface promises (no I/O on a transport
 * that is not open, no double open, no use after destroy).
 */
#ifndef TR_H
#define TR_H
#include <string.h>
#include <fstrm.h>
#include "vp.h"

#ifndef TR_IN
#define TR_IN 64
#endif
#ifndef TR_MAXREQ
#define TR_MAXREQ TR_IN
#endif
#ifndef TR_OUT
#define TR_OUT 64
#endif

struct tr {
	uint8_t in[TR_IN];
	size_t in_len, in_pos;
	uint8_t out[TR_OUT];
	size_t out_len;
	unsigned n_open, n_close, n_destroy, n_read, n_write;
	bool is_open, destroyed, fail_open, broken;
	size_t fail_write_at;	/* the n-th write call from now fails (0: never) */
	size_t fail_read_at;	/* likewise for reads */
	unsigned n_open_calls, n_bad, fail_open_at, fail_close_at;
	fstrm_res fail_res;
	size_t sym_pos;
	uint32_t sym_len, sym_max;
	uint8_t sym_byte;	/* the byte at index vp_sample */
	bool sym_done;
	size_t forbid;		/* no read may start at this position */
	size_t max_request;
};
static struct tr T;
static fstrm_res tr_eof_res = fstrm_res_failure;

static fstrm_res tr_open(void *obj)
{
	struct tr *t = obj;
	vp_assert(t == &T, "transport callbacks receive the registered object");
	vp_assert(!t->destroyed, "no open after destroy");
	vp_assert(!t->is_open, "a transport is not opened again while it is open");
#ifdef TR_RECONNECT
	t->n_open_calls++;
	if (t->n_open_calls == t->fail_open_at) {
		t->n_bad++;
		return fstrm_res_failure;
	}
	t->out_len = t->in_pos = 0;	/* a new connection */
	t->broken = false;
#endif
	t->n_open++;
	if (t->fail_open)
		return fstrm_res_failure;
	t->is_open = true;
	return fstrm_res_success;
}

static fstrm_res tr_close(void *obj)
{
	struct tr *t = obj;
	vp_assert(t == &T, "transport callbacks receive the registered object");
	vp_assert(!t->destroyed, "no close after destroy");
	vp_assert(t->is_open, "a transport is closed only while it is open");
	t->n_close++;
	t->is_open = false;
#ifdef TR_RECONNECT
	if (t->n_close == t->fail_close_at) {
		t->n_bad++;
		return fstrm_res_failure;
	}
#endif
	return fstrm_res_success;
}

static fstrm_res tr_destroy(void *obj)
{
	struct tr *t = obj;
	vp_assert(t == &T, "transport callbacks receive the registered object");
	vp_assert(!t->destroyed, "a transport is destroyed once");
	t->destroyed = true;
	t->n_destroy++;
	return fstrm_res_success;
}

static fstrm_res tr_read(void *obj, void *data, size_t count)
{
	struct tr *t = obj;
	vp_assert(t == &T, "transport callbacks receive the registered object");
	vp_assert(t->is_open && !t->destroyed, "no read on a transport that is not open");
	t->n_read++;
	if (t->sym_pos != 0 && t->in_pos == t->sym_pos && !t->sym_done) {
		/* the payload of a frame of symbolic length */
		if (count == 4)
			vp_stop();	/* length 4 is excluded where the script sets this up */
		vp_assert(t->sym_len <= t->sym_max, "nothing of a frame over the limit is read");
		vp_assert(count <= t->sym_len, "the reader never reads past the frame");
		vp_assume(count == t->sym_len);
		vp_assert(vp_blk_ok(data, count), "the read buffer is large enough for the frame");
		t->sym_done = true;
		vp_blk_put(data, count, t->sym_byte);
		return fstrm_res_success;
	}
	if (t->forbid != 0 && t->in_pos == t->forbid) {
		vp_assert(0, "nothing of a frame over the limit is read");
		vp_stop();
	}
	vp_assert(!t->broken, "no read after a failed read or write");
#ifdef TR_FAULTS
	if (t->n_read == t->fail_read_at) {
		t->broken = true;
		t->n_bad++;
		return t->fail_res;
	}
#endif
	if (count > t->max_request)
		t->max_request = count;
	if (count > t->in_len - t->in_pos) {
		t->broken = true;
		t->n_bad++;
		return tr_eof_res;
	}
	if (count == 4) {
		uint32_t v = (uint32_t) t->in[t->in_pos] |
			     (uint32_t) t->in[t->in_pos + 1] << 8 |
			     (uint32_t) t->in[t->in_pos + 2] << 16 |
			     (uint32_t) t->in[t->in_pos + 3] << 24;
#ifdef VP_NATIVE
		memcpy(data, &v, 4);
#else
		*(uint32_t *) data = v;
#endif
	} else {
#ifndef VP_NATIVE
		/* byte-wise: cheaper than a symbolic-size copy at these sizes */
		if (TR_MAXREQ > 64) {
			memcpy(data, t->in + t->in_pos, count);
		} else for (size_t i = 0; i < TR_MAXREQ; i++) {
			if (i >= count)
				break;
			((uint8_t *) data)[i] = t->in[t->in_pos + i];
		}
		__CPROVER_assert(count <= TR_MAXREQ, "vp: harness request bound");
#else
		memcpy(data, t->in + t->in_pos, count);
#endif
	}
	t->in_pos += count;
	return fstrm_res_success;
}

static fstrm_res tr_write(void *obj, const struct iovec *iov, int iovcnt)
{
	struct tr *t = obj;
	vp_assert(t == &T, "transport callbacks receive the registered object");
	vp_assert(t->is_open && !t->destroyed, "no write on a transport that is not open");
	vp_assert(iovcnt > 0, "a write carries at least one buffer");
	t->n_write++;
	vp_assert(!t->broken, "no write after a failed read or write");
	if (t->n_write == t->fail_write_at) {
		t->broken = true;
		t->n_bad++;
		return fstrm_res_failure;
	}
	for (int i = 0; i < iovcnt; i++) {
		const uint8_t *p = iov[i].iov_base;
		for (size_t j = 0; j < TR_OUT; j++) {
			if (j >= iov[i].iov_len)
				break;
			vp_assert(t->out_len < TR_OUT, "writes no more than can be expected");
			if (t->out_len < TR_OUT)
				t->out[t->out_len++] = p[j];
		}
		vp_assert(iov[i].iov_len <= TR_OUT, "writes no more than can be expected");
	}
	return fstrm_res_success;
}

static struct fstrm_rdwr *tr_rdwr(bool can_read, bool can_write)
{
	struct fstrm_rdwr *rd = fstrm_rdwr_init(&T);
	fstrm_rdwr_set_destroy(rd, tr_destroy);
	fstrm_rdwr_set_open(rd, tr_open);
	fstrm_rdwr_set_close(rd, tr_close);
	if (can_read)
		fstrm_rdwr_set_read(rd, tr_read);
	if (can_write)
		fstrm_rdwr_set_write(rd, tr_write);
	return rd;
}

/* stream building */
static inline void in_be32(uint32_t v)
{
	vp_put_be32(T.in + T.in_len, v);
	T.in_len += 4;
}
static inline void in_ctrl(uint32_t type)
{
	in_be32(0); in_be32(4); in_be32(type);
}
#endif
