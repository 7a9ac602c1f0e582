/*
 * The transport object: any sequence of calls on it, methods missing or not,
 * any results.
 */
#include "vp.h"
#include <sys/uio.h>
#include <fstrm.h>

static int obj;
static unsigned n_open, n_close, n_read, n_write, n_destroy;
static fstrm_res ro, rc, rr, rw, rd;
static uint8_t buf[4];
static struct iovec iov[2];
static size_t want_count;
static int want_n;
static fstrm_res m_open(void *o) { vp_assert(o == &obj, "methods receive the object"); n_open++; return ro; }
static fstrm_res m_close(void *o) { vp_assert(o == &obj, "methods receive the object"); n_close++; return rc; }
static fstrm_res m_destroy(void *o) { vp_assert(o == &obj, "methods receive the object"); n_destroy++; return rd; }
static fstrm_res m_read(void *o, void *d, size_t n)
{
	vp_assert(o == &obj && d == buf && n == want_count, "a read is passed on unchanged");
	n_read++;
	return rr;
}
static fstrm_res m_write(void *o, const struct iovec *v, int n)
{
	vp_assert(o == &obj && v == iov && n == want_n, "a write is passed on unchanged");
	n_write++;
	return rw;
}
static fstrm_res any_res(void)
{
	unsigned v = vp_u8();
	return v == 0 ? fstrm_res_success : v == 1 ? fstrm_res_failure : v == 2 ? fstrm_res_stop : v == 3 ? fstrm_res_again : fstrm_res_invalid;
}

void vp_main(void)
{
	long live0 = vp_live;
	bool ho = vp_bool(), hr = vp_bool(), hw = vp_bool(), hd = vp_bool();
	struct fstrm_rdwr *t = fstrm_rdwr_init(&obj);
	vp_assert(t != NULL, "a transport object is made");
	if (ho) fstrm_rdwr_set_open(t, m_open);
	fstrm_rdwr_set_close(t, m_close);
	if (hr) fstrm_rdwr_set_read(t, m_read);
	if (hw) fstrm_rdwr_set_write(t, m_write);
	if (hd) fstrm_rdwr_set_destroy(t, m_destroy);
	bool open = false;
	for (unsigned i = 0; i < STEPS; i++) {
		unsigned o0 = n_open, c0 = n_close, r0 = n_read, w0 = n_write;
		unsigned op = vp_u8();
		fstrm_res res;
		rc = any_res();
		switch (op) {
		case 0:
			if (open)	/* opening twice is up to the method */
				break;
			ro = any_res();
			res = fstrm_rdwr_open(t);
			vp_assert(n_open == o0 + ho, "open invokes the method if there is one");
			vp_assert(res == (ho ? ro : fstrm_res_failure), "the result of open is the method's, or a failure without one");
			if (ho && ro == fstrm_res_success) {
				open = true;
				vp_reach("opened");
			}
			vp_assert(n_close == c0, "nothing else is done");
			break;
		case 1:
			res = fstrm_rdwr_close(t);
			vp_assert(n_close == c0 + open, "close invokes the method exactly if the transport is open");
			if (open)
				vp_assert(res == rc, "the result of close is the method's");
			open = false;
			break;
		case 2:
			rr = any_res();
			want_count = vp_size();
			res = fstrm_rdwr_read(t, buf, want_count);
			vp_assert(n_read == r0 + (open & hr), "read invokes the method exactly if the transport is open and there is one");
			vp_assert(res == (open & hr ? rr : fstrm_res_failure), "the result of read is the method's, or a failure without one");
			if (open & hr) {
				vp_assert(n_close == c0 + (rr != fstrm_res_success), "a failed read closes the transport");
				open = rr == fstrm_res_success;
				vp_reach("read");
			} else
				vp_assert(n_close == c0, "nothing else is done");
			break;
		case 3:
			rw = any_res();
			want_n = vp_int();
			res = fstrm_rdwr_write(t, iov, want_n);
			vp_assert(n_write == w0 + (open & hw), "write invokes the method exactly if the transport is open and there is one");
			vp_assert(res == (open & hw ? rw : fstrm_res_failure), "the result of write is the method's, or a failure without one");
			if (open & hw) {
				vp_assert(n_close == c0 + (rw != fstrm_res_success), "a failed write closes the transport");
				open = rw == fstrm_res_success;
				vp_reach("written");
			} else
				vp_assert(n_close == c0, "nothing else is done");
			break;
		}
	}
	rd = any_res();
	fstrm_res res = fstrm_rdwr_destroy(&t);
	vp_assert(t == NULL && n_destroy == hd && res == (hd ? rd : fstrm_res_success), "destroy invokes the method once if there is one, and has its result");
	vp_assert(fstrm_rdwr_destroy(&t) == fstrm_res_success && n_destroy == hd, "destroying nothing does nothing");
	vp_assert(vp_live == live0, "nothing leaks");
	vp_reach("end");
}
