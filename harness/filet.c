/*
 * The file transport, driven through the fstrm_rdwr it builds, over a model
 * of stdio with every result symbolic.
 */
#include "vp.h"
#include <stdio.h>
#include <string.h>
#include <fstrm.h>

static struct fstrm_rdwr *R;
struct fstrm_writer *fstrm_writer_init(const struct fstrm_writer_options *wo, struct fstrm_rdwr **rd)
{
	R = *rd;
	*rd = NULL;
	return (struct fstrm_writer *) &R;
}
struct fstrm_reader *fstrm_reader_init(const struct fstrm_reader_options *ro, struct fstrm_rdwr **rd)
{
	R = *rd;
	*rd = NULL;
	return (struct fstrm_reader *) &R;
}

#define NF 6
static struct { char c; } files[NF];
static int nopen = -1;		/* index of the open file; std stream: NF */
static unsigned nf;
static bool eof, err;
static unsigned n_fail, n_eof, n_fopen;
static bool is_std;
static const char *mode;
#define STD (mode[0] == 'r' ? stdin : stdout)
static char path[3];

static bool good_fp(FILE *fp)
{
	if (nopen < 0)
		return false;
	return nopen == NF ? fp == STD : fp == (FILE *) &files[nopen];
}
FILE *vp_fopen(const char *p, const char *m)
{
	vp_assert(!is_std && p[0] == path[0] && p[1] == path[1] && (p[1] == 0 || p[2] == 0), "the configured file is opened");
	vp_assert(m[0] == mode[0] && (m[1] == 0 || m[1] == 'b'), "a reader opens for reading, a writer for writing");
	vp_assert(nopen < 0, "a file is not opened twice");
	n_fopen++;
	if (vp_bool()) {
		n_fail++;
		return NULL;
	}
	nopen = nf;
	vp_assert(nf < NF, "harness: files");
	nf++;
	eof = err = false;
	return (FILE *) &files[nopen];
}
/* on first use of the std stream it counts as open */
static void touch(FILE *fp)
{
	if (is_std && fp == STD && nopen < 0) {
		nopen = NF;
		eof = err = false;
	}
}
static bool may_std;	/* the transport has been opened */
int vp_fclose(FILE *fp)
{
	if (may_std)
		touch(fp);
	vp_assert(good_fp(fp), "only the open file is closed");
	nopen = -1;
	may_std = false;
	if (vp_bool()) {
		n_fail++;
		return EOF;
	}
	return 0;
}
static uint8_t *r_buf;
static size_t r_n, r_got;
size_t vp_fread(void *p, size_t size, size_t n, FILE *fp)
{
	if (may_std)
		touch(fp);
	vp_assert(good_fp(fp), "only the open file is read");
	vp_assert((uint8_t *) p == r_buf + r_got && (size == 1 || n == 1) && size * n == r_n - r_got, "exactly the requested bytes are read");
	if (vp_bool()) {
		r_got = r_n;
		return n;
	}
	if (vp_bool()) {
		eof = true;
		n_eof++;
	} else {
		err = true;
		n_fail++;
	}
	return 0;
}
int vp_feof(FILE *fp) { vp_assert(good_fp(fp), "only the open file is used"); return eof; }
int vp_ferror(FILE *fp) { vp_assert(good_fp(fp), "only the open file is used"); return err; }
#define NIOV 3
static struct iovec snd[NIOV];
static unsigned s_i;
size_t vp_fwrite(const void *p, size_t size, size_t n, FILE *fp)
{
	if (may_std)
		touch(fp);
	vp_assert(good_fp(fp), "only the open file is written");
	vp_assert(s_i < NIOV, "nothing is written beyond the data");
	vp_assert(p == snd[s_i].iov_base && (size == 1 || n == 1) && size * n == snd[s_i].iov_len, "the buffers are written completely and in order");
	if (vp_bool()) {
		n_fail++;
		return n > 1 ? n - 1 : 0;
	}
	s_i++;
	return n;
}
int vp_fflush(FILE *fp) { vp_assert(good_fp(fp), "only the open file is used"); return 0; }

void vp_main(void)
{
	static uint8_t mem[NIOV][8];
	vp_assume(stdin != stdout && (void *) stdin != (void *) 0 && stdout != NULL);
#ifndef VP_NATIVE
	for (int i = 0; i < NF; i++)
		__CPROVER_assume((void *) stdin != (void *) &files[i] && (void *) stdout != (void *) &files[i]);
#endif
#ifdef READER
	mode = "r";
#else
	mode = "w";
#endif
	path[0] = (char) vp_u8();
	path[1] = (char) vp_u8();
	vp_assume(path[0] != 0);
	if (path[1] == 0)
		path[2] = 0;
	is_std = path[0] == '-' && path[1] == 0;
	struct fstrm_file_options *o = fstrm_file_options_init();
	struct fstrm_rdwr *none = NULL;
#ifdef READER
	vp_assert(fstrm_file_reader_init(o, NULL) == NULL, "a path is required");
	fstrm_file_options_set_file_path(o, "zz");
	fstrm_file_options_set_file_path(o, path);
	vp_assert(fstrm_file_reader_init(o, NULL) != NULL && R != NULL, "a reader is created");
#else
	vp_assert(fstrm_file_writer_init(o, NULL) == NULL, "a path is required");
	fstrm_file_options_set_file_path(o, "zz");
	fstrm_file_options_set_file_path(o, path);
	vp_assert(fstrm_file_writer_init(o, NULL) != NULL && R != NULL, "a writer is created");
#endif
	fstrm_file_options_destroy(&o);
	vp_assert(o == NULL, "destroy clears the caller's pointer");
	bool open = false;
	fstrm_res res;
	for (unsigned i = 0; i < STEPS; i++) {
		unsigned f0 = n_fail, e0 = n_eof;
		uint8_t op = vp_u8();
		vp_assume(op < 3);
		if (op == 0) {
			if (open)
				continue;
			may_std = true;
			res = fstrm_rdwr_open(R);
			vp_assert((res == fstrm_res_success) == (n_fail == f0), "opening fails exactly if the system reports an error");
			open = res == fstrm_res_success;
			vp_assert(!open || is_std || nopen >= 0, "the file is open");
		} else if (op == 1) {
			res = fstrm_rdwr_close(R);
			vp_assert((res == fstrm_res_success) == (n_fail == f0), "an error in close is reported");
			vp_assert(nopen < 0 && !(open && may_std), "close closes the file");
			open = false;
		} else {
#ifdef READER
			r_buf = mem[0];
			r_got = 0;
			r_n = vp_range(1, UINT32_MAX);
			res = fstrm_rdwr_read(R, r_buf, r_n);
			if (!open)
				vp_assert(res == fstrm_res_failure, "reading needs an open file");
			else if (n_eof != e0)
				vp_assert(res == fstrm_res_stop, "the end of the file ends the stream");
			else if (r_got != r_n)
				vp_assert(res == fstrm_res_failure, "a read error is reported");
			else
				vp_assert(res == fstrm_res_success, "a complete read succeeds");
#else
			unsigned cnt = (unsigned) vp_range(1, NIOV);
			struct iovec iov[NIOV];
			for (unsigned j = 0; j < NIOV; j++) {
				snd[j].iov_base = mem[j];
				snd[j].iov_len = vp_range(1, UINT32_MAX);
				iov[j] = snd[j];
			}
			s_i = 0;
			res = fstrm_rdwr_write(R, iov, (int) cnt);
			if (!open)
				vp_assert(res == fstrm_res_failure && s_i == 0, "writing needs an open file");
			else if (n_fail != f0)
				vp_assert(res == fstrm_res_failure, "a write error is reported");
			else
				vp_assert(res == fstrm_res_success && s_i == cnt, "a write that succeeds wrote every buffer");
#endif
			if (res != fstrm_res_success)
				vp_assert(nopen < 0 && !(open && may_std), "a failed transfer closes the file");
			open = open && res == fstrm_res_success;
		}
	}
	(void) fstrm_rdwr_close(R);
	vp_assert(nopen < 0, "no file stays open");
	(void) fstrm_rdwr_destroy(&R);
	vp_assert(vp_live == 0, "nothing leaks");
	vp_reach("end");
	(void) none;
}
