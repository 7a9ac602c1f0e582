/*
 * fstrm_capture: the real program runs from its main() over a model of
 * libevent, stdio and the clock. The events are scripted; the harness is what
 * event_base_dispatch() does.
 *
 *   o       a connection is accepted          0 1    select a connection
 *   frames, queued on the selected connection:
 *   R r q w READY with [own], [], [other own], [other]
 *   S s x   START with own, none, other     v V y Y READY and START with a prefix, an extension of own
 *   D d     data of 5 and of 1 byte           b B    data frame of exactly the buffer size, one more
 *   G       a data frame of 2 * buffer size + 1
 *   l k K g only the first 9 bytes of a data frame of length 2^32-1, 2^32-4, 2^31, 2^16
 *   P F A   STOP, FINISH, ACCEPT              u      control frame of any unknown type
 *   M       READY of the maximum length, with own
 *   z Z m   control frame of length 3, 513, START with a byte too much
 *   !       deliver everything queued at once .      deliver it byte by byte
 *   /       deliver it in two parts, split anywhere
 *   W       the output buffer is drained      E X    end of the connection, error
 *   T       time passes                       H U    SIGHUP, SIGUSR1
 *   ?       any of the events in EVSET
 * The end of the script is the shutdown.
 */
#include "vp.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <event2/buffer.h>
#include <event2/bufferevent.h>
#include <event2/event.h>
#include <event2/listener.h>
#include <fstrm.h>
#include "libmy/argv.h"

int cap_main(int argc, char **argv);

#ifndef HW
# define HW 48
#endif
#ifndef NCONN
# define NCONN 2
#endif
#ifndef MAXC
# define MAXC 0
#endif
#ifndef SPLIT
# define SPLIT 0
#endif
#ifndef DEBUG
# define DEBUG 0
#endif
#ifndef EVSET
# define EVSET "RSDPF!"
#endif
#ifndef FAULT_LO
# define FAULT_LO 1
#endif
#ifndef FAULTS
# define FAULTS 0
#endif
#define CTL 3			/* length of the content type */

static const struct run { const char *ev; const char *out; } runs[] = { SCRIPTS };
#define NRUNS (sizeof runs / sizeof *runs)
static const char *out_name;

static char own[CTL + 1] = "abc", other[CTL + 1] = "abx";
static char shorter[] = "ab", longer[] = "abcd";
static unsigned ct_len(const char *s)
{
	return s == shorter ? 2 : s == longer ? 4 : CTL;
}
/* The content types may have symbolic bytes, not a symbolic length. */
size_t vp_strlen(const char *s)
{
	size_t n = 0;
	if (s == own)
		return CTL;
	while (n < 300 && s[n] != 0)
		n++;
	return n;
}

/* ---- faults: the n-th fallible call on the output fails ---- */
static unsigned n_call, fault_at;
static bool faulted;
static bool fails(void)
{
	n_call++;
	if (n_call == fault_at) {
		faulted = true;
		return true;
	}
	return false;
}

/* ---- the output files ---- */
#define NFILES 5
#ifndef FSIZE
# define FSIZE 200
#endif
static uint8_t x0[FSIZE], x1[FSIZE], x2[FSIZE], x3[FSIZE], x4[FSIZE];	/* expected contents (separate objects are cheaper) */
static uint8_t *const xd[NFILES] = { x0, x1, x2, x3, x4 };
static unsigned xn[NFILES];
static struct ofile { unsigned n; bool open; } of[NFILES];	/* what has been written */
static int nfiles, nx = -1;
static int cur_file = -1;
static time_t now, opened_at;
static bool over;

static struct ofile *file_of(FILE *fp)
{
	if (out_name[0] == '-' && out_name[1] == 0) {
		vp_assert(fp == stdout, "the output goes to standard output");
		if (cur_file < 0) {
			cur_file = nfiles++;
			of[cur_file].open = true;
		}
		vp_assert(of[cur_file].open, "standard output is not used after it has been closed");
		return &of[cur_file];
	}
	vp_assert(cur_file >= 0 && fp == (FILE *) &of[cur_file] && of[cur_file].open, "only the open output file is used");
	return &of[cur_file];
}
int vp_open(const char *name, int flags, ...)
{
	vp_assert(cur_file < 0 || !of[cur_file].open, "the previous output file has been closed");
	vp_assert((flags & O_ACCMODE) == O_WRONLY && (flags & O_CREAT) && (flags & O_TRUNC) && !(flags & O_APPEND), "the output file is created empty, for writing");
	vp_assert(name[0] == 'f' && name[1] == 0, "the configured output file is opened");
	if (fails())
		return -1;
	vp_assert(nfiles < NFILES, "harness: files");
	cur_file = nfiles++;
	return 100 + cur_file;
}
FILE *vp_fdopen(int fd, const char *m)
{
	vp_assert(fd == 100 + cur_file && !of[cur_file].open, "the opened descriptor is used");
	if (fails())
		return NULL;
	of[cur_file].open = true;
	return (FILE *) &of[cur_file];
}
FILE *vp_fopen(const char *name, const char *m)
{
	vp_assert(m[0] == 'w', "the output file is created empty, for writing");
	int fd = vp_open(name, O_WRONLY | O_CREAT | O_TRUNC);
	if (fd < 0)
		return NULL;
	of[cur_file].open = true;
	return (FILE *) &of[cur_file];
}
int vp_close(int fd)
{
	vp_assert(fd == 100 + cur_file && !of[cur_file].open, "no other descriptor is closed");
	return 0;
}
int vp_fclose(FILE *fp)
{
	file_of(fp)->open = false;
	return fails() ? EOF : 0;
}
int vp_fflush(FILE *fp)
{
	if (fp == stderr)
		return 0;
	file_of(fp);
	return 0;
}
size_t vp_fwrite(const void *p, size_t size, size_t n, FILE *fp)
{
	struct ofile *f = file_of(fp);
	size_t len = size * n;
	vp_assert(!faulted, "nothing is written after an error");
	if (fails())
		return 0;
	vp_assert(f->n + len <= xn[cur_file], "the output file consists of START, the captured frames in order, and STOP");
	if (f->n + len > xn[cur_file])
		vp_stop();
	const uint8_t *x = xd[cur_file] + f->n, *q = p;
	bool eq = true;
	for (size_t i = 0; i < len; i++)
		eq &= x[i] == q[i];
	vp_assert(eq, "the output file consists of START, the captured frames in order, and STOP");
	f->n += len;
	return n;
}
int vp_fflush_unlocked(FILE *fp) { return vp_fflush(fp); }
size_t vp_fwrite_unlocked(const void *p, size_t size, size_t n, FILE *fp) { return vp_fwrite(p, size, n, fp); }
int vp_fprintf(FILE *fp, const char *fmt, ...) { vp_assert(fp == stderr, "messages go to standard error"); return 0; }
int vp_vfprintf(FILE *fp, const char *fmt, va_list ap) { vp_assert(fp == stderr, "messages go to standard error"); return 0; }
int vp_fputs(const char *s, FILE *fp) { vp_assert(fp == stderr, "messages go to standard error"); return 0; }
int vp_fputc(int c, FILE *fp) { vp_assert(fp == stderr, "messages go to standard error"); return 0; }
int vp_isatty(int fd) { return 0; }
int vp_remove(const char *p) { return 0; }
time_t vp_time(time_t *t) { if (t) *t = now; return now; }
void vp_tzset(void) { }
struct tm *vp_localtime_r(const time_t *t, struct tm *tm) { tm->tm_sec = 1; return tm; }
struct tm *vp_gmtime_r(const time_t *t, struct tm *tm) { tm->tm_sec = 2; return tm; }
size_t vp_strftime(char *s, size_t n, const char *fmt, const struct tm *tm)
{
	vp_assert(fmt[0] == 'f' && tm->tm_sec == 2, "the file name is built from the time in the requested zone");
	s[0] = 'f';
	s[1] = 0;
	return 1;
}
int vp_sigaction(int s, const struct sigaction *a, struct sigaction *o) { return 0; }
int vp_sigemptyset(sigset_t *s) { return 0; }
void vp_exit(int code)
{
	vp_assert(code != 0, "the program gives up with a failure status");
	vp_assert(faulted, "the program gives up only when an output operation failed");
	vp_reach("opt: gives up");
	vp_stop();
#ifdef VP_NATIVE
	_Exit(0);
#endif
}

/* ---- command line ---- */
char argv_program[256] = "capture";
char *argv_version_string;
static char opt_sock[] = "/s";
int argv_process(argv_t *args, const int n, char **v)
{
	for (unsigned i = 0; i < 40 && args[i].ar_short_arg != ARGV_LAST; i++) {
		void *p = args[i].ar_variable;
		switch (args[i].ar_short_arg) {
		case 't': *(char **) p = own; break;
		case 'u': *(char **) p = opt_sock; break;
		case 'w': *(char **) p = (char *) out_name; break;
		case 'b': *(int *) p = HW; break;
		case 'c': *(int *) p = MAXC; break;
		case 's': *(int *) p = SPLIT; break;
		case 'd': *(int *) p = DEBUG; break;
		default:
			if (args[i].ar_long_arg != NULL && args[i].ar_long_arg[0] == 'g' && out_name[0] == 'f')
				*(bool *) p = true;		/* --gmtime */
		}
	}
	return 0;
}
int argv_usage(const argv_t *args, const int w) { return 0; }
void argv_cleanup(const argv_t *args) { }

/* ---- libevent ---- */
#define NCH 64
#ifndef BSIZE
# define BSIZE 200
#endif
struct evbuffer { uint8_t *d; size_t start, len; };
struct bufferevent {
	bufferevent_data_cb rd, wr;
	bufferevent_event_cb ev;
	void *arg;
	bool used, open, rd_on, wr_on;
	size_t high;
	struct evbuffer in, out;
	size_t *chunk_end;		/* end offsets of the chunks in 'in' */
	unsigned nch, ch0;
};
static size_t ce0[NCH], ce1[NCH], ce2[NCH];
static size_t *const ces[3] = { ce0, ce1, ce2 };
/* what each peer sends, and the answers it expects */
#define ANS 64
static uint8_t pd0[BSIZE], pd1[BSIZE], pd2[BSIZE], pa0[ANS], pa1[ANS], pa2[ANS];
static uint8_t *const pds[3] = { pd0, pd1, pd2 }, *const pas[3] = { pa0, pa1, pa2 };
struct evconnlistener { evconnlistener_cb cb; void *arg; bool on; };
struct event { event_callback_fn cb; void *arg; int sig; };
struct event_base { int x; };
static struct event_base base;
static struct evconnlistener lis;
static struct bufferevent be[NCONN];
static size_t expected_answer(struct bufferevent *e);
static struct event sigs[4];
static int nsigs;
static int n_acc, last_fd;

struct event_base *event_base_new(void) { return &base; }
void event_base_free(struct event_base *b) { }
int event_base_loopexit(struct event_base *b, const struct timeval *tv) { return 0; }
struct event *event_new(struct event_base *b, evutil_socket_t fd, short what, event_callback_fn cb, void *arg)
{
	vp_assert(nsigs < 4, "harness: signals");
	struct event *e = &sigs[nsigs++];
	e->cb = cb;
	e->arg = arg;
	e->sig = fd;
	return e;
}
int event_add(struct event *e, const struct timeval *tv) { return 0; }
void event_free(struct event *e) { }
struct evconnlistener *evconnlistener_new_bind(struct event_base *b, evconnlistener_cb cb, void *arg, unsigned fl, int backlog, const struct sockaddr *sa, int len)
{
	lis.cb = cb;
	lis.arg = arg;
	lis.on = true;
	return &lis;
}
void evconnlistener_free(struct evconnlistener *l) { }
struct event_base *evconnlistener_get_base(struct evconnlistener *l) { return &base; }
void evconnlistener_set_error_cb(struct evconnlistener *l, evconnlistener_errorcb cb) { }
int evconnlistener_enable(struct evconnlistener *l) { l->on = true; return 0; }
int evconnlistener_disable(struct evconnlistener *l) { l->on = false; return 0; }
struct bufferevent *bufferevent_socket_new(struct event_base *b, evutil_socket_t fd, int opts)
{
	vp_assert(opts & BEV_OPT_CLOSE_ON_FREE, "the socket is closed with its connection");
	struct bufferevent *e = &be[fd - 200];
	e->used = e->open = true;
	e->wr_on = true;
	e->in.d = pds[fd - 200];
	e->out.d = pas[fd - 200];
	e->chunk_end = ces[fd - 200];
	return e;
}
static void live(struct bufferevent *e) { vp_assert(e->open, "a closed connection is not used"); }
void bufferevent_free(struct bufferevent *e) { live(e); e->open = false; }
void bufferevent_setcb(struct bufferevent *e, bufferevent_data_cb r, bufferevent_data_cb w, bufferevent_event_cb v, void *arg)
{
	live(e);
	e->rd = r;
	e->wr = w;
	e->ev = v;
	e->arg = arg;
}
void bufferevent_setwatermark(struct bufferevent *e, short what, size_t lo, size_t hi) { live(e); if (what & EV_READ) e->high = hi; }
int bufferevent_enable(struct bufferevent *e, short what) { live(e); if (what & EV_READ) e->rd_on = true; if (what & EV_WRITE) e->wr_on = true; return 0; }
int bufferevent_disable(struct bufferevent *e, short what) { live(e); if (what & EV_READ) e->rd_on = false; if (what & EV_WRITE) e->wr_on = false; return 0; }
struct evbuffer *bufferevent_get_input(struct bufferevent *e) { live(e); return &e->in; }
struct evbuffer *bufferevent_get_output(struct bufferevent *e) { live(e); return &e->out; }
evutil_socket_t bufferevent_getfd(struct bufferevent *e) { live(e); return 200; }
int bufferevent_write(struct bufferevent *e, const void *d, size_t n)
{
	live(e);
	vp_assert(e->out.len + n <= expected_answer(e), "the answers are exactly those of the protocol");
	if (e->out.len + n > expected_answer(e))
		vp_stop();
	const uint8_t *x = e->out.d + e->out.len, *q = d;
	bool eq = true;
	for (size_t i = 0; i < n; i++)
		eq &= x[i] == q[i];
	vp_assert(eq, "the answers are encoded as specified");
	e->out.len += n;
	return 0;
}
static struct bufferevent *be_of(struct evbuffer *b)
{
	for (int i = 0; i < NCONN; i++)
		if (b == &be[i].in) {
			live(&be[i]);
			return &be[i];
		}
	vp_assert(0, "only the input buffer is read");
	return &be[0];
}
size_t evbuffer_get_length(const struct evbuffer *b) { be_of((struct evbuffer *) b); return b->len; }
ev_ssize_t evbuffer_copyout(struct evbuffer *b, void *p, size_t n)
{
	be_of(b);
	if (n > b->len)
		n = b->len;
	for (size_t i = 0; i < n; i++)
		((uint8_t *) p)[i] = b->d[b->start + i];
	return n;
}
unsigned char *evbuffer_pullup(struct evbuffer *b, ev_ssize_t n)
{
	be_of(b);
	if (n < 0)
		n = b->len;
	if ((size_t) n > b->len)
		return NULL;
	return b->d + b->start;
}
int evbuffer_drain(struct evbuffer *b, size_t n)
{
	struct bufferevent *e = be_of(b);
	if (n > b->len)
		n = b->len;
	b->start += n;
	b->len -= n;
	while (e->ch0 < e->nch && e->chunk_end[e->ch0] <= b->start)
		e->ch0++;
	return 0;
}
int evbuffer_peek(struct evbuffer *b, ev_ssize_t len, struct evbuffer_ptr *ptr, struct evbuffer_iovec *v, int nv)
{
	struct bufferevent *e = be_of(b);
	size_t at = b->start, want = len < 0 ? b->len : (size_t) len;
	int k = 0;
	vp_assert(ptr == NULL, "harness: peek position");
	for (unsigned c = e->ch0; c < e->nch && (len < 0 ? at < b->start + b->len : at - b->start < want); c++) {
		if (k < nv) {
			v[k].iov_base = b->d + at;
			v[k].iov_len = e->chunk_end[c] - at;
		}
		k++;
		at = e->chunk_end[c];
	}
	return k;
}
ev_ssize_t evbuffer_read_unused(void) { return 0; }
int evbuffer_remove(struct evbuffer *b, void *p, size_t n)
{
	int r = evbuffer_copyout(b, p, n);
	evbuffer_drain(b, r);
	return r;
}
int evutil_closesocket(evutil_socket_t s) { vp_assert(0, "no socket is closed on its own"); return 0; }

/* ---- the peers and the reference ---- */
#define NFR 16
enum { X_READY, X_START, X_DATA, X_STOPPED, X_CLOSED };
static struct peer {
	uint8_t *d, *ans;
	size_t n, sent;			/* bytes queued and delivered */
	unsigned nfr, done;
	int state;
	size_t nans;
	bool garbage;			/* the rest belongs to an endless frame */
} pe[NCONN];
static struct fr { char k; unsigned end, at; } fr[NCONN][NFR];
static size_t expected_answer(struct bufferevent *e) { return pe[e - be].nans; }
static int cur;
static int expect_open;

static size_t put_ctl(uint8_t *p, uint32_t type, const char *a, const char *b)
{
	size_t n = 12;
	vp_put_be32(p, 0);
	vp_put_be32(p + 8, type);
	for (int k = 0; k < 2; k++) {
		const char *s = k ? b : a;
		if (s == NULL)
			continue;
		vp_put_be32(p + n, 1);
		vp_put_be32(p + n + 4, ct_len(s));
		for (unsigned i = 0; i < 4; i++)
			if (i < ct_len(s))
				p[n + 8 + i] = s[i];
		n += 8 + ct_len(s);
	}
	vp_put_be32(p + 4, n - 8);
	return n;
}
static void x_put(const uint8_t *p, size_t n)
{
	vp_assert(xn[nx] + n <= FSIZE, "harness: expected output");
	for (size_t i = 0; i < n; i++)
		xd[nx][xn[nx] + i] = p[i];
	xn[nx] += n;
}
static void x_open(void)
{
	uint8_t t[64];
	nx++;
	opened_at = now;
	x_put(t, put_ctl(t, FSTRM_CONTROL_START, own, NULL));
}
static void x_close(void)
{
	uint8_t t[64];
	x_put(t, put_ctl(t, FSTRM_CONTROL_STOP, NULL, NULL));
}
static void x_ans(struct peer *p, uint32_t type, const char *a)
{
	p->nans += put_ctl(p->ans + p->nans, type, a, NULL);
}
static void x_drop(struct peer *p)
{
	p->state = X_CLOSED;
	expect_open--;
}
static void x_frame(struct peer *p, unsigned i)
{
	struct fr *f = &fr[p - pe][i];
	char k = f->k;
	size_t at = f->at, n = f->end - at;

	if (p->state == X_CLOSED)
		return;
	switch (k) {
	case 'B': case 'G':
		return;			/* over the buffer size: skipped */
	case 'D': case 'd': case 'b':
		if (p->state != X_DATA) {
			x_drop(p);
			return;
		}
		x_put(p->d + at, n);
		if (SPLIT > 0 && now >= opened_at + SPLIT) {
			x_close();
			x_open();
		}
		return;
	case 'R': case 'r': case 'q': case 'M':
		if (p->state != X_READY)
			break;
		x_ans(p, FSTRM_CONTROL_ACCEPT, own);
		p->state = X_START;
		return;
	case 'S': case 's':
		if (p->state != X_START)
			break;
		p->state = X_DATA;
		return;
	case 'P':
		if (p->state != X_DATA)
			break;
		x_ans(p, FSTRM_CONTROL_FINISH, NULL);
		p->state = X_STOPPED;
		return;
	}
	x_drop(p);
}
static void q_frame(char k)
{
	struct peer *p = &pe[cur];
	size_t n0 = p->n;
	uint8_t *b = p->d + p->n;
	size_t l = 0, n = 0;
	vp_assert(p->n + 64 <= BSIZE && p->nfr < NFR, "harness: queued bytes");
	switch (k) {
	case 'R': n = put_ctl(b, FSTRM_CONTROL_READY, own, NULL); break;
	case 'r': n = put_ctl(b, FSTRM_CONTROL_READY, NULL, NULL); break;
	case 'q': n = put_ctl(b, FSTRM_CONTROL_READY, other, own); break;
	case 'w': n = put_ctl(b, FSTRM_CONTROL_READY, other, NULL); break;
	case 'M': {
		/* the largest control frame: READY with a type of 256 bytes, one of 225 and own */
		n = put_ctl(b, FSTRM_CONTROL_READY, own, NULL);
		for (int k = 0; k < 2; k++) {
			unsigned tl = k ? 225 : 256;
			vp_put_be32(b + n, 1);
			vp_put_be32(b + n + 4, tl);
			vp_bytes(b + n + 8, tl);
			n += 8 + tl;
		}
		vp_put_be32(b + 4, n - 8);
		vp_assert(n == 8 + FSTRM_CONTROL_FRAME_LENGTH_MAX, "harness: largest control frame");
		break;
	}
	case 'v': n = put_ctl(b, FSTRM_CONTROL_READY, shorter, NULL); break;
	case 'V': n = put_ctl(b, FSTRM_CONTROL_READY, longer, NULL); break;
	case 'y': n = put_ctl(b, FSTRM_CONTROL_START, shorter, NULL); break;
	case 'Y': n = put_ctl(b, FSTRM_CONTROL_START, longer, NULL); break;
	case 'S': n = put_ctl(b, FSTRM_CONTROL_START, own, NULL); break;
	case 's': n = put_ctl(b, FSTRM_CONTROL_START, NULL, NULL); break;
	case 'x': n = put_ctl(b, FSTRM_CONTROL_START, other, NULL); break;
	case 'P': n = put_ctl(b, FSTRM_CONTROL_STOP, NULL, NULL); break;
	case 'F': n = put_ctl(b, FSTRM_CONTROL_FINISH, NULL, NULL); break;
	case 'A': n = put_ctl(b, FSTRM_CONTROL_ACCEPT, own, NULL); break;
	case 'u': {
		uint32_t t = vp_u32();
		vp_assume((t == 0) | (t > 5));
		n = put_ctl(b, t, NULL, NULL);
		break;
	}
	case 'z': n = put_ctl(b, FSTRM_CONTROL_STOP, NULL, NULL) - 1; vp_put_be32(b + 4, 3); break;
	case 'Z': vp_put_be32(b, 0); vp_put_be32(b + 4, 513); n = 8; break;
	case 'm': n = put_ctl(b, FSTRM_CONTROL_START, own, NULL) + 1; vp_put_be32(b + 4, n - 8); b[n - 1] = 0; break;
	case 'l': case 'k': case 'K': case 'g':
		vp_put_be32(b, k == 'l' ? 0xffffffff : k == 'k' ? 0xfffffffc : k == 'K' ? 0x80000000 : 0x10000);
		n = 9;
		break;
	case 'D': l = 5; break;
	case 'd': l = 1; break;
	case 'b': l = HW - 4; break;
	case 'B': l = HW - 3; break;
	case 'G': l = 2 * HW + 1; break;
	default: vp_assert(0, "harness: event");
	}
	if (l > 0) {
		vp_put_be32(b, l);
		vp_bytes(b + 4, l);
		n = 4 + l;
	}
	p->n += n;
	if (!p->garbage) {
		fr[cur][p->nfr].k = k;
		fr[cur][p->nfr].at = n0;
		fr[cur][p->nfr].end = p->n;
		if (k == 'l' || k == 'k' || k == 'K' || k == 'g')
			p->garbage = true;
		else
			p->nfr++;
	}
}
static void compare(void)
{
	struct peer *p = &pe[cur];
	vp_assert(be[cur].open == (p->state != X_CLOSED), "a connection is closed exactly when its peer breaks the protocol");
	vp_assert(be[cur].out.len == p->nans, "the answers are exactly those of the protocol");
	vp_assert(!MAXC || lis.on == (expect_open < MAXC), "connections are accepted exactly while fewer than the maximum are open");
}
static void give(size_t n)
{
	struct peer *p = &pe[cur];
	struct bufferevent *e = &be[cur];
	while (n > 0 && e->open) {
		size_t room = e->high > 0 ? e->high - e->in.len : n;
		vp_assert(e->rd_on && e->in.len < e->high, "the connection is not stuck");
		size_t m = n < room ? n : room;
		vp_assert(e->in.start + e->in.len + m <= BSIZE && e->nch < NCH, "harness: input");
		e->in.len += m;
		e->chunk_end[e->nch++] = e->in.start + e->in.len;
		p->sent += m;
		n -= m;
		while (p->done < p->nfr && fr[cur][p->done].end <= p->sent)
			x_frame(p, p->done++);
		e->rd(e, e->arg);
		compare();
	}
	p->sent += n;
}
static void deliver(char how)
{
	struct peer *p = &pe[cur];
	size_t n = p->n - p->sent;
	if (how == '.') {
		for (size_t i = 0; i < BSIZE && i < n; i++)
			give(1);
	} else if (how == '/') {
		size_t k = vp_range(0, BSIZE);
		for (size_t i = 1; i < BSIZE && i < n; i++)
			if (k == i) {
				give(i);
				give(n - i);
				return;
			}
		vp_stop();
	} else
		give(n);
}
static int runno;
static void event(char k)
{
	struct bufferevent *e = &be[cur];
	switch (k) {
	case 'o':
		if (!lis.on)
			break;
		vp_assert(n_acc < NCONN, "harness: connections");
		cur = n_acc++;
		expect_open++;
		lis.cb(&lis, 200 + cur, NULL, 0, lis.arg);
		vp_assert(e == e && be[cur].open && be[cur].rd_on && be[cur].high == HW, "an accepted connection is read, into a buffer of the configured size");
		compare();
		break;
	case '0': case '1': case '2': cur = k - '0'; break;
	case '!': case '.': case '/': deliver(k); break;
	case 'W':
		if (e->open && e->wr_on) {
			if (pe[cur].state == X_STOPPED)
				x_drop(&pe[cur]);
			e->wr(e, e->arg);
			compare();
		}
		break;
	case 'E': case 'X':
		if (e->open) {
			x_drop(&pe[cur]);
			errno = EIO;
			e->ev(e, BEV_EVENT_READING | (k == 'E' ? BEV_EVENT_EOF : BEV_EVENT_ERROR), e->arg);
			compare();
		}
		break;
	case 'T': now += (time_t) vp_range(0, 2 * SPLIT + 1); break;
	case 'H': case 'U':
		for (int i = 0; i < nsigs; i++)
			if (sigs[i].sig == (k == 'H' ? SIGHUP : SIGUSR1)) {
				if (k == 'U' && out_name[0] == 'f') {
					x_close();
					x_open();
				}
				sigs[i].cb(sigs[i].sig, EV_SIGNAL, sigs[i].arg);
			}
		break;
	default: q_frame(k);
	}
}
int event_base_dispatch(struct event_base *b)
{
	const char *s = runs[runno].ev;
	vp_assert(nsigs == 2, "both signals are handled");
	for (unsigned i = 0; i < 64 && s[i] != 0; i++) {
		if (s[i] == '?') {
			size_t k = vp_range(0, sizeof EVSET - 2);
			unsigned j;
			for (j = 0; j < sizeof EVSET - 1; j++)
				if (k == j)
					break;
			if (j < sizeof EVSET - 1)
				event((EVSET)[j]);
			else
				vp_stop();
		} else
			event(s[i]);
	}
	x_close();
	over = true;
	return 0;
}

static void one(void)
{
	static char *av[] = { "capture", NULL };
	out_name = runs[runno].out;
#ifdef SYMCT
	bool differ = false;
	for (int i = 0; i < CTL; i++) {
		own[i] = vp_u8();
		vp_assume(own[i] != 0);
		other[i] = vp_u8();
		differ |= other[i] != own[i];
	}
	vp_assume(differ);
#endif
#ifndef VP_NATIVE
	static char so, se;
	stdout = (FILE *) &so;
	stderr = (FILE *) &se;
#endif
	now = 1000;
	for (int c = 0; c < NCONN; c++) {
		pe[c].d = pds[c];
		pe[c].ans = pas[c];
	}
	x_open();
	int rc = cap_main(1, av);
	if (faulted) {
		vp_assert(rc != 0, "a failed output operation ends the program with a failure");
		vp_reach("opt: main fails");
		return;
	}
	vp_assert(rc == 0 && over, "the program runs until it is told to stop, and succeeds");
	vp_assert(nfiles == nx + 1, "exactly the expected output files are written");
	for (int f = 0; f < NFILES; f++) {
		if (f >= nfiles)
			break;
		vp_assert(!of[f].open, "every output file is closed");
		vp_assert(of[f].n == xn[f], "the output file has exactly the expected length");
	}
	if (expect_open == 0)
		vp_assert(vp_live == 0, "the memory of closed connections is freed");
	vp_reach("end");
}
void vp_main(void)
{
	unsigned w = vp_u8(), f = vp_u8();
	vp_assume(w < NRUNS && f <= FAULTS && (FAULTS == 0 || f >= FAULT_LO));
	/* one state per run: nothing one run leaves behind reaches another */
	for (unsigned i = 0; i < NRUNS; i++)
		for (unsigned k = 0; k <= FAULTS; k++)
			if (w == i && f == k) {
				runno = i;
				fault_at = k;
				one();
				return;
			}
}
