/*
 * vp_rt.c - runtime shared by all harnesses, compiled WITHOUT the renaming
 * -D flags, so malloc/free below are the real (CBMC library or libc) ones.
 */
#include "vp.h"
#include <stdlib.h>
#include <string.h>

long vp_live;
size_t vp_sample;

#ifdef VP_NATIVE
#include <stdio.h>
#include <unistd.h>

static FILE *vp_in;
static int vp_in_opened;

uint64_t vp_next(void)
{
	unsigned long long v = 0;
	if (!vp_in_opened) {
		const char *p = getenv("VP_INPUT");
		vp_in_opened = 1;
		if (p != NULL)
			vp_in = fopen(p, "r");
	}
	if (vp_in == NULL || fscanf(vp_in, "%llu", &v) != 1)
		return 0;
	return v;
}
void vp_fail(const char *msg)
{
	fprintf(stderr, "VP-FAIL: %s\n", msg);
	fflush(NULL);
	_exit(42);
}
void vp_reject(const char *msg)
{
	fprintf(stderr, "VP-ASSUME: %s\n", msg);
	fflush(NULL);
	_exit(77);
}
void vp_finish(void)
{
	fprintf(stderr, "VP-DONE\n");
	fflush(NULL);
	_exit(0);
}
bool vp_native_w_ok(void *p, size_t n)
{
	volatile uint8_t *q = p;
	if (n > 0) { q[0] = q[0]; q[n - 1] = q[n - 1]; }	/* ASan decides */
	return true;
}
bool vp_native_r_ok(const void *p, size_t n)
{
	const volatile uint8_t *q = p;
	if (n > 0) { (void) q[0]; (void) q[n - 1]; }
	return true;
}
int main(void)
{
	vp_main();
	fprintf(stderr, "VP-DONE\n");
	fflush(NULL);
	_exit(0);
}
#else
uint64_t vp_nd_log;
int main(void)
{
	vp_main();
	return 0;
}
#endif

#if defined(VP_BLK) && !defined(VP_NATIVE)
/*
 * Block model for payload buffers of symbolic (32-bit) size: the block knows
 * its size, holds VP_BLK real bytes, and tracks the contents at the one
 * symbolic index vp_sample.
 */
struct blk { size_t n; uint8_t sample; uint8_t mem[VP_BLK] __attribute__((aligned(16))); };
#define BLK(p) ((struct blk *) ((uint8_t *) (p) - offsetof(struct blk, mem)))
static void *blk_new(size_t n)
{
	struct blk *b = malloc(sizeof(*b));
	b->n = n;
	return b->mem;
}
bool vp_blk_ok(const void *p, size_t n)
{
	return __CPROVER_POINTER_OFFSET(p) == offsetof(struct blk, mem) && BLK(p)->n >= n;
}
void vp_blk_put(void *p, size_t n, uint8_t v) { if (vp_sample < n) BLK(p)->sample = v; }
uint8_t vp_blk_get(const void *p) { return BLK(p)->sample; }
void *vp_malloc(size_t n) { vp_live++; return blk_new(n); }
void *vp_calloc(size_t m, size_t n)
{
	struct blk *b = calloc(1, sizeof(*b));
	b->n = m * n;
	vp_live++;
	return b->mem;
}
void vp_free(void *p)
{
	if (p != NULL) {
		vp_live--;
		free(BLK(p));
	}
}
void *vp_realloc(void *p, size_t n)
{
	struct blk *q = malloc(sizeof(*q));
	if (p == NULL)
		vp_live++;
	else {
		*q = *BLK(p);
		free(BLK(p));
	}
	q->n = n;
	return q->mem;
}
#else
#if defined(VP_NOFREE) && !defined(VP_NATIVE)
/* The library's allocator branches on every call: avoided when the paths are explored one by one. */
# define malloc(n) __CPROVER_allocate((n), 0)
# define calloc(m, n) __CPROVER_allocate((m) * (n), 1)
# define free(p) ((void) 0)
#endif
bool vp_blk_ok(const void *p, size_t n)
{
	return VP_R_OK(p, n);
}
void vp_blk_put(void *p, size_t n, uint8_t v) { if (vp_sample < n) ((uint8_t *) p)[vp_sample] = v; }
uint8_t vp_blk_get(const void *p) { return ((const uint8_t *) p)[vp_sample]; }
void *vp_malloc(size_t n)
{
	void *p = malloc(n);
	vp_live++;
	return p;
}
void *vp_calloc(size_t m, size_t n)
{
	void *p = calloc(m, n);
	vp_live++;
	return p;
}
void vp_free(void *p)
{
	if (p != NULL) {
		vp_live--;
		free(p);
	}
}
void *vp_realloc(void *p, size_t n)
{
#ifdef VP_NATIVE
	if (p == NULL)
		vp_live++;
	return realloc(p, n);
#else
	void *q = malloc(n);
	if (p == NULL) {
		vp_live++;
		return q;
	}
	size_t old = __CPROVER_OBJECT_SIZE(p);
	if (old > n)
		old = n;
	if (old > 0)
		memcpy(q, p, old);
	free(p);
	return q;
#endif
}
#endif
char *vp_strdup(const char *s)
{
	size_t n = strlen(s) + 1;
	char *p = malloc(n);
	vp_live++;
	memcpy(p, s, n);
	return p;
}
