/*
 * fstrm_dump (-DDUMP) and fstrm_replay: the real program runs from its main()
 * with the real reader, writer and file transport, over models of stdio and,
 * for fstrm_replay, of the socket transports.
 *
 * RUNS is a list of {"files", out}: the input files, separated by blanks, and
 * whether fstrm_dump has an output file. A file is made of
 *
 *   s o x k y  START with no, the own, another, an empty content type, an
 *              extension of the own one (the own one is own[])
 *   1 .. 9     a data frame of that many bytes         b    one of 40 bytes
 *   u c        a control frame of unknown type, ACCEPT
 *   p          STOP                                    m    the file is missing
 *   t          the input ends within a data frame      h    ... within its length
 *   z Z        a frame of a length of 2^20 + 1, 2^32 - 1  q  READY instead of START
 *
 * FAULTS is a list of {kind, lo, hi}: the lo-th to hi-th call of this kind
 * fails, one at a time.
 */
#include "vp.h"
#include <ctype.h>
#include <setjmp.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fstrm.h>
#include "libmy/argv.h"

int prog_main(int argc, char **argv);

enum { NONE, FREAD, FWRITE, FOPENW, FCLOSEW, NOPEN, NWRITE, NREAD, NCLOSE };
static const struct runspec { const char *files; int out; } runs[] = { RUNS };
static const struct fault { int kind; unsigned lo, hi; } faults[] = { FAULTS };
#define NRUNS (sizeof(runs) / sizeof(runs[0]))
#define NFAULTS (sizeof(faults) / sizeof(faults[0]))
#ifndef FSIZE
# define FSIZE 120
#endif
#ifndef CTL
# define CTL 3
#endif
#define MAXF 3
#define XSIZE (FSIZE * MAXF)

static int fault_kind;
static unsigned fault_at, n_calls[NCLOSE + 1];
static bool faulted;		/* the call that fails was made */
static bool fails(int kind)
{
	if (++n_calls[kind] == fault_at && kind == fault_kind) {
		faulted = true;
		return true;
	}
	return false;
}

static char own[8] = "abc", other[8] = "abx", longer[8] = "abcd";

/* ---- files ---- */
static uint8_t f0[FSIZE], f1[FSIZE], f2[FSIZE];
static uint8_t *const fd[MAXF] = { f0, f1, f2 };
static char name0[] = "0", name1[] = "1", name2[] = "2", name_out[] = "o";
static char *const names[MAXF] = { name0, name1, name2 };
static struct vfile { unsigned len, pos; bool missing, open, eof, err; } vf[MAXF];
static struct vout { bool open; unsigned opens; } vo;
static unsigned nfiles;

/* what must be written: all of it if nothing fails */
static uint8_t X[XSIZE];
static unsigned xn, xpos;
static bool x_over;
static void x8(uint8_t b) { X[xn++] = b; }
static void x32(uint32_t v) { x8(v >> 24); x8(v >> 16); x8(v >> 8); x8(v); }
static void xctl(uint32_t type, const char *ct, unsigned n)
{
	x32(0);
	x32(4 + (ct ? 8 + n : 0));
	x32(type);
	if (ct) {
		x32(1);
		x32(n);
		for (unsigned i = 0; i < n; i++)
			x8((uint8_t) ct[i]);
	}
}
static void sink(const uint8_t *p, size_t n)
{
	vp_assert(n <= xn - xpos, "nothing is written but the frames of the input");
	if (n > xn - xpos) {
		x_over = true;
		return;
	}
	for (size_t i = 0; i < XSIZE; i++) {
		if (i >= n)
			break;
		vp_assert(p[i] == X[xpos + i], "exactly the frames of the input are written");
	}
	xpos += n;
}

static int tag0, tag1, tag2, tag_o;		/* what the FILE pointers point to */
static int *const tags[MAXF] = { &tag0, &tag1, &tag2 };
static int in_file(FILE *fp)
{
	return fp == (FILE *) &tag0 ? 0 : fp == (FILE *) &tag1 ? 1 : fp == (FILE *) &tag2 ? 2 : -1;
}
FILE *vp_fopen(const char *name, const char *mode)
{
	for (unsigned i = 0; i < nfiles; i++)
		if (name[0] == names[i][0] && name[1] == 0) {
			vp_assert(mode[0] == 'r' && (mode[1] == 0 || mode[1] == 'b'), "input files are only read");
			vp_assert(!vf[i].open, "a file is opened once at a time");
			if (vf[i].missing)
				return NULL;
			vf[i].open = true;
			vf[i].eof = vf[i].err = false;
			vf[i].pos = 0;
			return (FILE *) tags[i];
		}
#ifdef DUMP
	vp_assert(name[0] == 'o' && name[1] == 0, "only the named files are opened");
	vp_assert(mode[0] == 'w' && (mode[1] == 0 || mode[1] == 'b') && !vo.open && vo.opens == 0, "the output file is created once");
	vo.opens++;
	if (fails(FOPENW))
		return NULL;
	vo.open = true;
	return (FILE *) &tag_o;
#else
	vp_assert(0, "only the named files are opened");
	return NULL;
#endif
}
size_t vp_fread(void *p, size_t size, size_t n, FILE *fp)
{
	int fi = in_file(fp);
	vp_assert(fi >= 0 && vf[fi].open, "only an open file is read");
	if (fi < 0 || size == 0 || n == 0)
		return 0;
	struct vfile *f = &vf[fi];
	vp_assert(!f->err && !f->eof, "nothing is read after the end or an error");
	if (fails(FREAD)) {
		f->err = true;
		/* what was read before is written, and the end */
		xn = xpos;
		xctl(FSTRM_CONTROL_STOP, NULL, 0);
		return 0;
	}
	size_t want = size * n, have = f->len - f->pos;
	size_t k = want <= have ? want : have;
	const uint8_t *d = fd[fi] + f->pos;
#ifndef VP_NATIVE
	if (k == 4)	/* as a word, so that its value stays known */
		*(uint32_t *) p = (uint32_t) d[0] | (uint32_t) d[1] << 8 | (uint32_t) d[2] << 16 | (uint32_t) d[3] << 24;
	else
#endif
	for (size_t i = 0; i < FSIZE; i++) {
		if (i >= k)
			break;
		((uint8_t *) p)[i] = d[i];
	}
	f->pos += k;
	if (k < want)
		f->eof = true;
	return k / size;
}
size_t vp_fread_unlocked(void *p, size_t size, size_t n, FILE *fp) { return vp_fread(p, size, n, fp); }
int vp_feof(FILE *fp) { int i = in_file(fp); return i >= 0 && vf[i].eof; }
int vp_ferror(FILE *fp) { int i = in_file(fp); return i >= 0 && vf[i].err; }
int vp_fclose(FILE *fp)
{
	int i = in_file(fp);
	if (i >= 0) {
		vp_assert(vf[i].open, "an open file is closed once");
		vf[i].open = false;
		return 0;
	}
	vp_assert(fp == (FILE *) &tag_o && vo.open, "only an open file is closed");
	vo.open = false;
	if (fails(FCLOSEW))
		return EOF;
	return 0;
}
int vp_fflush(FILE *fp) { return 0; }
int vp_setvbuf(FILE *fp, char *b, int m, size_t n) { return 0; }

/* ---- standard output ---- */
static unsigned t_frame, t_byte, t_state;
static unsigned tn;
#define TMAX 8
static uint8_t *t_data[TMAX];
static unsigned t_len[TMAX];
static const char hexdigit[] = "0123456789abcdef";
/* ' "' data '"\n' per frame: the next character must be c */
static void out_char(char c)
{
#ifdef PRINT
	char want;
	vp_assert(t_frame < tn, "nothing but the data frames is printed");
	if (t_frame >= tn)
		return;
	uint8_t b = t_byte < t_len[t_frame] ? t_data[t_frame][t_byte] : 0;
	bool graph = (b >= 0x20) & (b <= 0x7e);
	switch (t_state) {
	case 0: want = ' '; t_state = 1; break;
	case 1: want = '"'; t_state = 2; break;
	case 2:
		if (t_byte == t_len[t_frame]) {
			want = '"';
			t_state = 6;
		} else if (b == '"') {
			want = '\\';
			t_state = 3;
		} else if (graph) {
			want = (char) b;
			t_byte++;
		} else {
			want = '\\';
			t_state = 4;
		}
		break;
	case 3: want = '"'; t_state = 2; t_byte++; break;
	case 4: want = 'x'; t_state = 5; break;
	case 5: want = hexdigit[b >> 4]; t_state = 7; break;
	case 7: want = hexdigit[b & 15]; t_state = 2; t_byte++; break;
	default: want = '\n'; t_state = t_byte = 0; t_frame++; break;
	}
	vp_assert(c == want, "each data frame is printed, quoted, in order");
#endif
}
static bool is_out(FILE *fp)
{
#ifdef DUMP
	if (fp == stdout)
		return true;
#endif
	vp_assert(fp == stderr, "messages go to standard error");
	return false;
}
int vp_fputc(int c, FILE *fp) { if (is_out(fp)) out_char((char) c); return c; }
int vp_putc(int c, FILE *fp) { return vp_fputc(c, fp); }
int vp_putchar(int c) { return vp_fputc(c, stdout); }
int vp_fputs(const char *s, FILE *fp)
{
	if (is_out(fp))
		for (unsigned i = 0; i < 80 && s[i] != 0; i++)
			out_char(s[i]);
	return 1;
}
int vp_puts(const char *s) { vp_fputs(s, stdout); out_char('\n'); return 1; }
/* (a macro: va_list cannot be passed on) */
#ifdef PRINT
# define OUT_FMT(fmt) do { \
	va_list ap; \
	va_start(ap, fmt); \
	for (unsigned i = 0; i < 80 && fmt[i] != 0; i++) { \
		if (fmt[i] != '%') { \
			out_char(fmt[i]); \
			continue; \
		} \
		while (fmt[i + 1] == '0' || fmt[i + 1] == '2' || fmt[i + 1] == 'h') \
			i++; \
		i++; \
		if (fmt[i] == 'c') { \
			out_char((char) va_arg(ap, int)); \
		} else if (fmt[i] == 'x') { \
			unsigned v = va_arg(ap, unsigned); \
			out_char(hexdigit[(v >> 4) & 15]); \
			out_char(hexdigit[v & 15]); \
		} else if (fmt[i] == 's') { \
			vp_fputs(va_arg(ap, const char *), stdout); \
		} else { \
			vp_assert(fmt[i] == '%', "harness: unknown format"); \
			out_char('%'); \
		} \
	} \
	va_end(ap); \
} while (0)
#else
# define OUT_FMT(fmt) do { } while (0)
#endif
int vp_fprintf(FILE *fp, const char *fmt, ...)
{
	if (is_out(fp))
		OUT_FMT(fmt);
	return 1;
}
int vp_printf(const char *fmt, ...)
{
	OUT_FMT(fmt);
	return 1;
}
size_t vp_fwrite(const void *p, size_t size, size_t n, FILE *fp)
{
	if (fp == (FILE *) &tag_o) {
		vp_assert(vo.open, "only an open file is written");
		if (fails(FWRITE))
			return 0;
		sink(p, size * n);
		return n;
	}
	if (is_out(fp))
		for (size_t i = 0; i < FSIZE && i < size * n; i++)
			out_char(((const char *) p)[i]);
	return n;
}
size_t vp_fwrite_unlocked(const void *p, size_t size, size_t n, FILE *fp) { return vp_fwrite(p, size, n, fp); }
#ifndef VP_NATIVE
static unsigned short ctab[384];
static const unsigned short *ctab_p = ctab + 128;
const unsigned short **__ctype_b_loc(void) { return &ctab_p; }
static int file_a, file_b, file_c;
#endif
size_t vp_strlen(const char *s)
{
	size_t n = 0;
	if (s == own)
		return CTL;
	while (n < 300 && s[n] != 0)
		n++;
	return n;
}

#ifndef DUMP
/* ---- the socket transports ---- */
static bool net_open, use_tcp, dead;
static unsigned n_net_open, n_destroyed, nread;
static fstrm_res net_op_open(void *o)
{
	vp_assert(!net_open && n_net_open == 0, "the server is connected to once");
	n_net_open++;
	if (fails(NOPEN))
		return fstrm_res_failure;
	net_open = true;
	return fstrm_res_success;
}
static fstrm_res net_op_close(void *o)
{
	vp_assert(net_open, "the connection is closed once");
	net_open = false;
	return fails(NCLOSE) ? fstrm_res_failure : fstrm_res_success;
}
static fstrm_res net_op_destroy(void *o) { n_destroyed++; return fstrm_res_success; }
static uint8_t replies[64];
static unsigned rn;
static fstrm_res net_op_read(void *o, void *p, size_t n)
{
	vp_assert(net_open && !dead, "only an open connection is read");
	if (fails(NREAD) || n > rn - nread) {
		dead = true;
		return nread % 2 ? fstrm_res_stop : fstrm_res_failure;
	}
	const uint8_t *d = replies + nread;
#ifndef VP_NATIVE
	if (n == 4)
		*(uint32_t *) p = (uint32_t) d[0] | (uint32_t) d[1] << 8 | (uint32_t) d[2] << 16 | (uint32_t) d[3] << 24;
	else
#endif
	for (size_t i = 0; i < 24; i++) {
		if (i >= n)
			break;
		((uint8_t *) p)[i] = d[i];
	}
	nread += n;
	return fstrm_res_success;
}
static fstrm_res net_op_write(void *o, const struct iovec *iov, int n)
{
	vp_assert(net_open && !dead, "only an open connection is written");
	if (fails(NWRITE)) {
		dead = true;
		return fstrm_res_failure;
	}
	for (int i = 0; i < n; i++)
		sink(iov[i].iov_base, iov[i].iov_len);
	return fstrm_res_success;
}
static int uopt, topt;
static char sockpath[] = "/s", addr[] = "10.0.0.1", port[] = "4711";
static unsigned given;
struct fstrm_unix_writer_options *fstrm_unix_writer_options_init(void) { return (struct fstrm_unix_writer_options *) &uopt; }
void fstrm_unix_writer_options_destroy(struct fstrm_unix_writer_options **o) { *o = NULL; }
void fstrm_unix_writer_options_set_socket_path(struct fstrm_unix_writer_options *o, const char *p)
{
	vp_assert(p == sockpath, "the given socket is used");
	given |= 1;
}
struct fstrm_tcp_writer_options *fstrm_tcp_writer_options_init(void) { return (struct fstrm_tcp_writer_options *) &topt; }
void fstrm_tcp_writer_options_destroy(struct fstrm_tcp_writer_options **o) { *o = NULL; }
void fstrm_tcp_writer_options_set_socket_address(struct fstrm_tcp_writer_options *o, const char *p)
{
	vp_assert(p == addr, "the given address is used");
	given |= 2;
}
void fstrm_tcp_writer_options_set_socket_port(struct fstrm_tcp_writer_options *o, const char *p)
{
	vp_assert(p == port, "the given port is used");
	given |= 4;
}
static struct fstrm_writer *net_writer(const struct fstrm_writer_options *wo)
{
	struct fstrm_rdwr *rd = fstrm_rdwr_init(&net_open);
	fstrm_rdwr_set_open(rd, net_op_open);
	fstrm_rdwr_set_close(rd, net_op_close);
	fstrm_rdwr_set_destroy(rd, net_op_destroy);
	fstrm_rdwr_set_read(rd, net_op_read);
	fstrm_rdwr_set_write(rd, net_op_write);
	return fstrm_writer_init(wo, &rd);
}
struct fstrm_writer *fstrm_unix_writer_init(const struct fstrm_unix_writer_options *o, const struct fstrm_writer_options *wo)
{
	vp_assert(!use_tcp && given == 1, "a UNIX transport is used with --unix");
	return net_writer(wo);
}
struct fstrm_writer *fstrm_tcp_writer_init(const struct fstrm_tcp_writer_options *o, const struct fstrm_writer_options *wo)
{
	vp_assert(use_tcp && given == 6, "a TCP transport is used with --tcp");
	return net_writer(wo);
}
int vp_inet_pton(int af, const char *p, void *d)
{
	vp_assert(p == addr, "the given address is used");
	return af == 2;
}
unsigned long vp_strtoul(const char *p, char **end, int base)
{
	vp_assert(p == port, "the given port is used");
	if (end)
		*end = (char *) p + 4;
	return 4711;
}

/* ---- command line ---- */
char argv_program[256] = "replay";
char *argv_version_string;
int argv_process(argv_t *args, const int n, char **v)
{
	for (unsigned i = 0; i < 40 && args[i].ar_short_arg != ARGV_LAST; i++) {
		void *p = args[i].ar_variable;
		switch (args[i].ar_short_arg) {
		case 't': *(char **) p = own; break;
		case 'u': if (!use_tcp) *(char **) p = sockpath; break;
		case 'a': if (use_tcp) *(char **) p = addr; break;
		case 'p': if (use_tcp) *(char **) p = port; break;
		case 'r': {
			argv_array_t *a = p;
			a->aa_entry_n = (int) nfiles;
			a->aa_entries = (void *) names;
			break;
		}
		}
	}
	return 0;
}
int argv_usage(const argv_t *args, const int w) { return 0; }
void argv_cleanup(const argv_t *args) { }
#endif

/* ---- the runs ---- */
static bool complete, readable, want_out;	/* every input file ends with STOP; START can be read */
static unsigned x_min;		/* what is certainly written, if no call fails */

static void done(int code)
{
#ifdef DUMP
	vp_assert(!vf[0].open, "the input file is closed");
	vp_assert(!vo.open, "the output file is closed");
	if (faulted || !complete) {
		vp_assert(code != EXIT_SUCCESS, "a failure is reported by the exit status");
		vp_reach("opt: failure");
	} else {
		vp_assert(code == EXIT_SUCCESS, "a complete copy is a success");
		vp_reach("opt: success");
	}
	if (want_out && readable && !faulted)
		vp_assert(xpos >= x_min, "every frame before the end of the input is written");
	if (want_out && complete && !faulted)
		vp_assert(xpos == xn, "the whole stream is written");
	if (!want_out)
		vp_assert(vo.opens == 0, "nothing is created without an output file");
# ifdef PRINT
	if (fault_kind == NONE || !faulted)
		vp_assert(t_frame == tn && t_state == 0, "every data frame is printed");
# endif
#else
	if (faulted && fault_kind != FREAD && fault_kind != NCLOSE) {
		vp_assert(code != EXIT_SUCCESS, "a failure to send is reported by the exit status");
		vp_reach("opt: failure");
	} else if (!faulted) {
		vp_assert(code == EXIT_SUCCESS, "sending everything is a success");
		vp_assert(xpos == xn, "every frame of the matching files is sent");
		vp_reach("opt: success");
	}
	if (!faulted || fault_kind == FREAD) {
		vp_assert(!net_open && n_destroyed == 1, "the connection is closed at the end");
		for (unsigned i = 0; i < MAXF; i++)
			vp_assert(!vf[i].open, "the input files are closed");
	}
#endif
	vp_reach("end");
}
void vp_exit(int code)
{
	done(code);
	vp_stop();
#ifdef VP_NATIVE
	_Exit(0);
#endif
	for (;;) ;
}

static void build_file(unsigned k, const char *s, unsigned from)
{
	struct vfile *f = &vf[k];
	uint8_t *d = fd[k];
	bool started = false, match = false, stopped = false, ended = false;
#define P8(v) (d[f->len++] = (uint8_t) (v))
#define P32(v) do { P8((v) >> 24); P8((v) >> 16); P8((v) >> 8); P8(v); } while (0)
	bool bad = true;
	for (unsigned i = from; s[i] != 0 && s[i] != ' '; i++) {
		char c = s[i];
		const char *ct = c == 'o' ? own : c == 'x' ? other : c == 'y' ? longer : c == 'k' ? "" : NULL;
		unsigned n = c == 'k' ? 0 : c == 'y' ? CTL + 1 : CTL;
		switch (c) {
		case 'm': f->missing = true; break;
		case 's': case 'o': case 'x': case 'y': case 'k': case 'q':
			P32(0u);
			P32(4 + (ct ? 8 + n : 0u));
			P32(c == 'q' ? FSTRM_CONTROL_READY : FSTRM_CONTROL_START);
			if (ct) {
				P32(1u);
				P32(n);
				for (unsigned j = 0; j < n; j++)
					P8(ct[j]);
			}
			started = c != 'q';
#ifdef DUMP
			match = started;
			if (started)
				xctl(FSTRM_CONTROL_START, ct, n);
#else
			match = c == 's' || c == 'o';
#endif
			break;
		case 't': P32(3u); P8(vp_u8()); ended = true; break;
		case 'h': P8(0); P8(0); ended = true; break;
		case 'z': P32(1048577u); ended = true; break;
		case 'Z': P32(0xffffffffu); ended = true; break;
		case 'u': P32(0u); P32(4u); P32(77u); break;
		case 'c': P32(0u); P32(4u); P32(1u); break;
		case 'p': P32(0u); P32(4u); P32(FSTRM_CONTROL_STOP); if (!ended) stopped = ended = true; break;
		default: {
			unsigned l = c == 'b' ? 40 : (unsigned) (c - '0');
			bool copy = match && !ended;
			P32(l);
			if (copy) {
				x32(l);
#ifdef PRINT
				t_data[tn] = d + f->len;
				t_len[tn++] = l;
#endif
			}
			for (unsigned j = 0; j < l; j++) {
				uint8_t b = vp_u8();
				P8(b);
				if (copy)
					x8(b);
			}
		}
		}
	}
	if (f->missing || !started || !stopped)
		complete = false;
	readable = started && !f->missing;
	(void) bad;
}

static void run(const struct runspec *r, int kind, unsigned at)
{
	long live0 = vp_live;
	fault_kind = kind;
	fault_at = at;
	want_out = r->out & 1;
#ifdef SYMCT
	/* any content types, of these lengths */
	for (unsigned i = 0; i < CTL; i++) {
		own[i] = (char) vp_u8();
		vp_assume(own[i] != 0);
		longer[i] = own[i];
		other[i] = i == SYMCT - 1 ? (char) (own[i] ^ 1) : own[i];
	}
	longer[CTL] = (char) vp_u8();
#endif
#ifndef VP_NATIVE
	stdin = (FILE *) &file_a;
	stdout = (FILE *) &file_b;
	stderr = (FILE *) &file_c;
	for (int i = 0x20; i <= 0x7e; i++)
		ctab[128 + i] = (unsigned short) _ISprint;
#endif
	complete = true;
#ifndef DUMP
	use_tcp = r->out & 1;
	xctl(FSTRM_CONTROL_READY, own, CTL);
	xctl(FSTRM_CONTROL_START, own, CTL);
	static const uint8_t accept[12] = { 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 1 }, finish[12] = { 0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 0, 5 };
	for (unsigned i = 0; i < 12; i++)
		replies[rn++] = accept[i];
	for (unsigned i = 0; i < 12; i++)
		replies[rn++] = finish[i];
#endif
	unsigned i = 0;
	for (;;) {
		build_file(nfiles++, r->files, i);
		while (r->files[i] != 0 && r->files[i] != ' ')
			i++;
		if (r->files[i] == 0)
			break;
		i++;
	}
	x_min = xn;
	xctl(FSTRM_CONTROL_STOP, NULL, 0);
	static char arg0[] = "prog";
	char *argv[] = { arg0, name0, want_out ? name_out : NULL, NULL };
	int rv = prog_main(want_out ? 3 : 2, argv);
	done(rv);
#ifdef DUMP
	vp_assert(vp_live == live0, "nothing leaks");
#endif
	(void) live0;
}

void vp_main(void)
{
	unsigned w = vp_u32();
	unsigned n = 0;
	for (unsigned i = 0; i < NRUNS; i++)
		for (unsigned f = 0; f < NFAULTS; f++)
			for (unsigned k = faults[f].lo; k <= faults[f].hi; k++, n++)
				if (w == n) {
					run(&runs[i], faults[f].kind, k);
					return;
				}
	vp_stop();
}
