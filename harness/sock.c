/*
 * The TCP and Unix socket transports, driven through the fstrm_rdwr they
 * build, over a model of the socket calls with every result symbolic.
 *
 * The harness takes the place of fstrm_writer_init() to get hold of the
 * transport; TCP or UNIX selects which one is built.
 */
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fstrm.h>

static struct fstrm_rdwr *R;
static struct fstrm_writer *const W = (struct fstrm_writer *) &R;
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *wo, struct fstrm_rdwr **rd)
{
	R = *rd;
	*rd = NULL;
	return W;
}

/* ---- model of the socket calls ------------------------------------- */
#define MAXFD 8
static struct { bool open, cloexec, connected; } fdt[MAXFD];
static int nfd;
static struct { int family; char path[128]; size_t path_len; uint16_t port; uint8_t addr[16]; socklen_t len; bool match; } want;
static unsigned n_sock_fail, n_conn_fail, n_io_fail, n_close_fail;
static bool quiet;	/* socket() and connect() just work */

static bool fd_ok(int fd) { return fd >= 3 && fd < 3 + nfd && fdt[fd - 3].open; }

int vp_socket(int domain, int type, int proto)
{
	if (!quiet) {
		uint8_t o = vp_u8();
		if (o == 1) {
			n_sock_fail++;
			errno = vp_bool() ? EMFILE : EACCES;
			return -1;
		}
		if (o == 2 && (type & SOCK_CLOEXEC)) {
			/* a kernel without SOCK_CLOEXEC */
			errno = EINVAL;
			return -1;
		}
	}
	vp_assert(domain == want.family, "the socket has the family of the address");
	vp_assert((type & ~SOCK_CLOEXEC) == SOCK_STREAM && (proto == 0), "a stream socket is created");
	vp_assert(nfd < MAXFD, "harness: descriptor bound");
	fdt[nfd].open = true;
	fdt[nfd].connected = false;
	fdt[nfd].cloexec = type & SOCK_CLOEXEC;
	return 3 + nfd++;
}

int vp_fcntl(int fd, int cmd, ...)
{
	__builtin_va_list ap;
	vp_assert(fd_ok(fd), "only an open descriptor is used");
	if (cmd == F_GETFD)
		return fdt[fd - 3].cloexec ? FD_CLOEXEC : 0;
	vp_assert(cmd == F_SETFD, "harness: fcntl commands");
	__builtin_va_start(ap, cmd);
	fdt[fd - 3].cloexec = __builtin_va_arg(ap, int) & FD_CLOEXEC;
	__builtin_va_end(ap);
	return 0;
}

int vp_connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	vp_assert(fd_ok(fd) && !fdt[fd - 3].connected, "a fresh descriptor is connected");
#ifdef UNIX
	const struct sockaddr_un *un = (const void *) sa;
	vp_assert(len >= offsetof(struct sockaddr_un, sun_path) + want.path_len + 1 && len <= sizeof(*un), "the address length covers the path");
	vp_assert(un->sun_family == AF_UNIX, "the address has the family of the socket");
	for (size_t i = 0; i <= want.path_len; i++)
		vp_assert(un->sun_path[i] == want.path[i], "the socket is connected to the configured path");
#else
	if (want.family == AF_INET) {
		const struct sockaddr_in *in = (const void *) sa;
		vp_assert(len == sizeof(*in) && in->sin_family == AF_INET, "the address has the family of the socket");
		vp_assert(memcmp(&in->sin_addr, want.addr, 4) == 0, "the socket is connected to the configured address");
		vp_assert(ntohs(in->sin_port) == want.port, "the socket is connected to the configured port");
	} else {
		const struct sockaddr_in6 *in6 = (const void *) sa;
		vp_assert(len == sizeof(*in6) && in6->sin6_family == AF_INET6, "the address has the family of the socket");
		vp_assert(memcmp(&in6->sin6_addr, want.addr, 16) == 0, "the socket is connected to the configured address");
		vp_assert(ntohs(in6->sin6_port) == want.port, "the socket is connected to the configured port");
	}
#endif
	if (!quiet && vp_u8() == 1) {
		n_conn_fail++;
		errno = ECONNREFUSED;
		return -1;
	}
	fdt[fd - 3].connected = true;
	return 0;
}

int vp_close(int fd)
{
	vp_assert(fd_ok(fd), "only an open descriptor is closed");
	fdt[fd - 3].open = false;
	if (!quiet && vp_u8() == 1) {
		n_close_fail++;
		errno = EIO;
		return -1;
	}
	return 0;
}

/*
 * The results of successive sendmsg() or read() calls: c all, p some but not
 * all of it, i interrupted, f error, z end of file. The sizes of the partial
 * results are symbolic.
 */
static const char *script;
static unsigned spos;
static void some_error(void)
{
	int e = vp_int();
	vp_assume((e > 0) & (e < 134) & (e != EINTR) & (e != EAGAIN));
	errno = e;
}

/* What is to be sent: NIOV buffers of any lengths. */
#ifndef NIOV
# define NIOV 1
#endif
static struct { const uint8_t *p; size_t n; } snd[NIOV];

ssize_t vp_sendmsg(int fd, const struct msghdr *m, int flags)
{
	vp_assert(fd_ok(fd) && fdt[fd - 3].connected, "data is sent on the connected descriptor");
	vp_assert(flags & MSG_NOSIGNAL, "a peer that went away raises no signal");
	vp_assert(m->msg_name == NULL && m->msg_control == NULL, "nothing but the data is sent");
	vp_assert(m->msg_iovlen <= 1024, "no more buffers than the system accepts");
	/* the buffers offered continue exactly where the system stopped */
	unsigned k = 0;
	size_t total = 0;
	for (unsigned i = 0; i < NIOV; i++)
		if (k == i && snd[i].n == 0)
			k = i + 1;
	for (unsigned j = 0; j < NIOV; j++) {
		if (j >= m->msg_iovlen || m->msg_iov[j].iov_len == 0)
			continue;
		vp_assert(k < NIOV, "nothing is sent beyond the data");
		if (k >= NIOV)
			vp_stop();
		vp_assert((const uint8_t *) m->msg_iov[j].iov_base == snd[k].p, "sending continues with the first unsent byte");
		vp_assert(m->msg_iov[j].iov_len == snd[k].n, "no byte is left out");
		total += snd[k].n;
		k++;
	}
	vp_assert(k == NIOV, "no byte is left out");
	vp_assert(total > 0, "nothing is sent after everything was sent");
	if (script[spos] == 0) {
		vp_assert(0, "nothing is sent after everything was sent or an error");
		vp_stop();
	}
	switch (script[spos++]) {
	case 'i':
		errno = EINTR;
		return -1;
	case 'f':
		n_io_fail++;
		errno = EPIPE;
		return -1;
	case 'p': {
		errno = EINTR;	/* means nothing */
		size_t r = vp_size(), left = r;
		vp_assume(r > 0 && r < total);
		for (unsigned i = 0; i < NIOV; i++) {
			size_t q = left < snd[i].n ? left : snd[i].n;
			snd[i].p += q;
			snd[i].n -= q;
			left -= q;
		}
		return (ssize_t) r;
	}
	default:
		for (unsigned i = 0; i < NIOV; i++)
			snd[i].n = 0;
		return (ssize_t) total;
	}
}

static uint8_t *r_buf;
static size_t r_n, r_got;
ssize_t vp_read(int fd, void *buf, size_t n)
{
	vp_assert(fd_ok(fd) && fdt[fd - 3].connected, "data is read from the connected descriptor");
	vp_assert((uint8_t *) buf == r_buf + r_got, "reading continues behind the last byte");
	vp_assert(n == r_n - r_got && n > 0, "no more than the requested bytes are read");
	if (script[spos] == 0) {
		vp_assert(0, "nothing is read after everything was read or an error");
		vp_stop();
	}
	switch (script[spos++]) {
	case 'i':
		errno = EINTR;
		return -1;
	case 'f':
		n_io_fail++;
		some_error();
		return -1;
	case 'z':
		errno = EINTR;	/* means nothing */
		n_io_fail++;
		return 0;
	case 'p': {
		size_t r = vp_size();
		vp_assume(r > 0 && r < n);
		errno = EINTR;	/* means nothing */
		r_got += r;
		return (ssize_t) r;
	}
	default:
		r_got += n;
		return (ssize_t) n;
	}
}

#ifdef TCP
static unsigned fam;	/* what the address is: 4, 6 or neither */
int vp_inet_pton(int af, const char *src, void *dst)
{
	vp_assert(src[0] == 'a' && src[1] == 'd' && src[2] == 0, "the configured address is parsed");
	if ((af == AF_INET && fam == 4) || (af == AF_INET6 && fam == 6)) {
		memcpy(dst, want.addr, fam == 4 ? 4 : 16);
		want.family = af;
		return 1;
	}
	return 0;
}
/* strtoul() as specified by C, for strings of up to PORT characters */
# ifndef PORT
#  define PORTLEN 2
# else
#  define PORTLEN PORT
# endif
static int digit(char c)
{
	if (c >= '0' && c <= '9')
		return c - '0';
	c |= 32;
	return c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99;
}
unsigned long vp_strtoul(const char *s, char **end, int base)
{
	enum { SPACE, SIGN, DIGITS, DONE } st = SPACE;
	unsigned long v = 0;
	bool neg = false, skip = false;
	unsigned stop = 0;
	vp_assert(base == 0 || base == 10, "harness: base");
	for (unsigned i = 0; i <= PORTLEN; i++) {
		if (st == DONE)
			continue;
		if (skip) {
			skip = false;
			continue;
		}
		if (st == SPACE && (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r')))
			continue;
		if (st == SPACE && (s[i] == '+' || s[i] == '-')) {
			neg = s[i] == '-';
			st = SIGN;
			continue;
		}
		if (st != DIGITS) {
			if (base == 0) {
				base = 10;
				if (s[i] == '0' && (s[i + 1] | 32) == 'x' && digit(s[i + 2]) < 16) {
					base = 16;
					skip = true;
					st = DIGITS;
					continue;
				}
				if (s[i] == '0')
					base = 8;
			}
			st = DIGITS;
		}
		if (digit(s[i]) >= base) {
			st = DONE;
			continue;
		}
		v = v * base + digit(s[i]);
		stop = i + 1;
	}
	if (end != NULL)
		*end = (char *) s + stop;
	return neg ? -v : v;
}
#endif

#ifdef PORT
# define ADDRBYTE vp_u8()
#else
# define ADDRBYTE (uint8_t) (i + 1)
#endif
#ifndef PATHLEN
# define PATHLEN 5
#endif
static struct fstrm_writer *make(void)
{
	struct fstrm_writer *w;
#ifdef UNIX
	static char path[PATHLEN + 1];
	for (unsigned i = 0; i < PATHLEN; i++) {
#ifdef MAKE
		path[i] = (char) vp_u8();
		vp_assume(path[i] != 0);
#else
		path[i] = "/tmp/"[i];
#endif
	}
	want.family = AF_UNIX;
	want.path_len = PATHLEN;
	memcpy(want.path, path, PATHLEN < 127 ? PATHLEN + 1 : 127);
	struct fstrm_unix_writer_options *o = fstrm_unix_writer_options_init();
#ifdef MAKE
	if (vp_bool())
#endif
		fstrm_unix_writer_options_set_socket_path(o, "another");
	fstrm_unix_writer_options_set_socket_path(o, path);
	memset(path, 'x', PATHLEN);
	w = fstrm_unix_writer_init(o, NULL);
	fstrm_unix_writer_options_destroy(&o);
	vp_assert(o == NULL, "destroy clears the caller's pointer");
#else
	for (unsigned i = 0; i < 16; i++)
		want.addr[i] = ADDRBYTE;
# ifndef PORT
	fam = FAM;
# else
	fam = vp_u8();
# endif
	struct fstrm_tcp_writer_options *o = fstrm_tcp_writer_options_init();
	fstrm_tcp_writer_options_set_socket_address(o, "ad");
# ifdef PORT
	static char port[PORT + 1];
	for (unsigned i = 0; i < PORT; i++)
		port[i] = (char) vp_u8();
	fstrm_tcp_writer_options_set_socket_port(o, port);
	char *end;
	unsigned long v = vp_strtoul(port, &end, 0);
	bool valid = *end == 0 && port[0] != 0 && v <= 65535;
	bool empty = port[0] == 0;
	memset(port, 'x', PORT);
# else
	fstrm_tcp_writer_options_set_socket_port(o, "53");
	unsigned long v = 53;
# endif
	want.port = (uint16_t) v;
	w = fstrm_tcp_writer_init(o, NULL);
	fstrm_tcp_writer_options_destroy(&o);
	vp_assert(o == NULL, "destroy clears the caller's pointer");
# ifdef PORT
	if (!empty)	/* whether an empty port means port 0 is not defined */
		vp_assert((w != NULL) == (valid && (fam == 4 || fam == 6)), "a writer is created exactly for a numeric address and a port number up to 65535");
# endif
#endif
	return w;
}

static bool any_open(void)
{
	for (int i = 0; i < MAXFD; i++)
		if (fdt[i].open)
			return true;
	return false;
}

#ifndef MAXLEN
# define MAXLEN UINT32_MAX
#endif
static fstrm_res send_any(const char *how)
{
	static uint8_t mem[NIOV][1];
	struct iovec iov[NIOV];
	script = how;
	spos = 0;
	for (unsigned i = 0; i < NIOV; i++) {
		snd[i].p = mem[i];
		snd[i].n = vp_range(1, MAXLEN);
		iov[i].iov_base = mem[i];
		iov[i].iov_len = snd[i].n;
	}
	return fstrm_rdwr_write(R, iov, NIOV);
}

static fstrm_res recv_any(const char *how)
{
	static uint8_t buf[1];
	script = how;
	spos = 0;
	r_buf = buf;
	r_n = vp_range(1, MAXLEN);
	r_got = 0;
	return fstrm_rdwr_read(R, buf, r_n);
}

#ifndef MAXLEN
# define MAXLEN UINT32_MAX
#endif
#ifndef SCRIPTS
# define SCRIPTS ""
#endif
static void transfer(const char *how)
{
	size_t len = strlen(how);
	bool good = how[len - 1] == 'c';
	nfd = 0;
	memset(fdt, 0, sizeof(fdt));
	quiet = true;
	struct fstrm_writer *w = make();
	vp_assert(w == W, "a writer is created");
	vp_assert(fstrm_rdwr_open(R) == fstrm_res_success, "the transport opens");
#ifdef SEND
	fstrm_res res = send_any(how);
	vp_assert((res == fstrm_res_success) == good, "a write fails exactly if the system reports an error");
	if (good)
		for (unsigned i = 0; i < NIOV; i++)
			vp_assert(snd[i].n == 0, "a successful write has sent every byte");
#else
	fstrm_res res = recv_any(how);
	vp_assert((res == fstrm_res_success) == good, "a read fails exactly if the system reports an error or the end");
	if (good)
		vp_assert(r_got == r_n, "a successful read has filled the buffer");
#endif
	if (!good) {
		vp_assert(!any_open(), "a failed transfer closes the connection");
		vp_reach("failed");
	} else {
		vp_reach("done");
	}
	vp_assert(spos == len, "an interrupted transfer is continued");
}

void vp_main(void)
{
	fstrm_res res;
#if defined(SEND) || defined(RECV)
	static const char *const scripts[] = { SCRIPTS };
	unsigned n = sizeof(scripts) / sizeof(scripts[0]);
	unsigned which = vp_u8();
	vp_assume(which < n);
	for (unsigned i = 0; i < n; i++)
		if (which == i)
			transfer(scripts[i]);
#elif defined(LIFE)
	struct fstrm_writer *w = make();
	vp_assert(w == W, "a writer is created");
	for (unsigned i = 0; i < LIFE; i++) {
		bool was = any_open();
		unsigned f0 = n_sock_fail + n_conn_fail, c0 = n_close_fail, i0 = n_io_fail;
		uint8_t op = vp_u8();
		vp_assume(op < 4);
		switch (op) {
		case 0:
			res = fstrm_rdwr_open(R);
			vp_assert((res == fstrm_res_success) == (n_sock_fail + n_conn_fail == f0), "opening fails exactly if the system reports an error");
			vp_assert(any_open() == (was || res == fstrm_res_success), "a descriptor is held exactly while the transport is open");
			break;
		case 1:
			res = fstrm_rdwr_close(R);
			vp_assert(!any_open(), "close releases the descriptor");
			vp_assert((res == fstrm_res_success) == (n_close_fail == c0), "an error in close is reported");
			break;
		case 2:
			res = send_any(vp_bool() ? "c" : "f");
			vp_assert((res == fstrm_res_success) == (was && n_io_fail == i0), "a write succeeds exactly on an open transport without errors");
			vp_assert(any_open() == (res == fstrm_res_success), "a descriptor is held exactly while the transport is open");
			break;
		case 3:
			res = recv_any(vp_bool() ? "c" : vp_bool() ? "f" : "z");
			vp_assert((res == fstrm_res_success) == (was && n_io_fail == i0), "a read succeeds exactly on an open transport without errors");
			vp_assert(any_open() == (res == fstrm_res_success), "a descriptor is held exactly while the transport is open");
			break;
		}
		unsigned held = 0;
		for (int j = 0; j < MAXFD; j++) {
			held += fdt[j].open;
			if (fdt[j].open)
				vp_assert(fdt[j].cloexec && fdt[j].connected, "the connection is not inherited by other programs");
		}
		vp_assert(held <= 1, "no more than one descriptor is held");
	}
	(void) fstrm_rdwr_close(R);
	vp_assert(!any_open(), "no descriptor leaks");
	(void) fstrm_rdwr_destroy(&R);
	vp_assert(vp_live == 0, "no memory leaks");
	vp_reach("end");
#else
	/* MAKE: construction */
	quiet = true;
	struct fstrm_writer *w = make();
# ifdef UNIX
	vp_assert((w != NULL) == (PATHLEN <= 107), "a path is accepted exactly if it fits into a socket address");
# endif
	if (w != NULL) {
		vp_assert(fstrm_rdwr_open(R) == fstrm_res_success, "the transport opens");
		vp_assert(fstrm_rdwr_close(R) == fstrm_res_success, "the transport closes");
		(void) fstrm_rdwr_destroy(&R);
		vp_reach("opt: created");
	} else {
		vp_reach("opt: refused");
	}
	vp_assert(vp_live == 0, "no memory leaks");
	vp_reach("end");
#endif
	(void) res;
}
