/*
 * vp.h - the small vocabulary every harness is written in.
 *
 * The same harness is compiled twice: by goto-cc for CBMC, where vp_u8() and
 * friends are unconstrained symbolic values, and (with -DVP_NATIVE) by gcc for
 * the replay of a counterexample, where they are read back, in order, from the
 * file named by $VP_INPUT.
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

#ifdef VP_NATIVE
uint64_t vp_next(void);
void vp_fail(const char *msg);
void vp_reject(const char *msg);
# define vp_assert(c, msg) do { if (!(c)) vp_fail(msg); } while (0)
# define vp_assume(c)      do { if (!(c)) vp_reject(#c); } while (0)
# define vp_reach(label)   do { } while (0)
# define vp_stop()         vp_finish()
void vp_finish(void);
static inline uint8_t  vp_u8(void)  { return (uint8_t) vp_next(); }
static inline uint16_t vp_u16(void) { return (uint16_t) vp_next(); }
static inline uint32_t vp_u32(void) { return (uint32_t) vp_next(); }
static inline uint64_t vp_u64(void) { return vp_next(); }
static inline size_t   vp_size(void){ return (size_t) vp_next(); }
static inline int      vp_int(void) { return (int) vp_next(); }
static inline bool     vp_bool(void){ return (bool) (vp_next() & 1); }
# define VP_W_OK(p, n) vp_native_w_ok((p), (n))
# define VP_R_OK(p, n) vp_native_r_ok((p), (n))
bool vp_native_w_ok(void *p, size_t n);
bool vp_native_r_ok(const void *p, size_t n);
#else
extern uint64_t vp_nd_log;
uint8_t  nondet_vp_u8(void);
uint16_t nondet_vp_u16(void);
uint32_t nondet_vp_u32(void);
uint64_t nondet_vp_u64(void);
int      nondet_vp_int(void);
# define vp_assert(c, msg) __CPROVER_assert((c), "vp: " msg)
# define vp_assume(c)      __CPROVER_assume(c)
# define vp_reach(label)   __CPROVER_assert(0, "reach: " label)
# define vp_stop()         __CPROVER_assume(0)
static inline uint8_t  vp_u8(void)  { uint8_t v = nondet_vp_u8();   vp_nd_log = v; return v; }
static inline uint16_t vp_u16(void) { uint16_t v = nondet_vp_u16(); vp_nd_log = v; return v; }
static inline uint32_t vp_u32(void) { uint32_t v = nondet_vp_u32(); vp_nd_log = v; return v; }
static inline uint64_t vp_u64(void) { uint64_t v = nondet_vp_u64(); vp_nd_log = v; return v; }
static inline size_t   vp_size(void){ size_t v = nondet_vp_u64();   vp_nd_log = v; return v; }
static inline int      vp_int(void) { int v = nondet_vp_int();      vp_nd_log = (uint64_t) v; return v; }
static inline bool     vp_bool(void){ uint8_t v = nondet_vp_u8();   __CPROVER_assume(v <= 1); vp_nd_log = v; return v; }
# define VP_W_OK(p, n) __CPROVER_w_ok((p), (n))
# define VP_R_OK(p, n) __CPROVER_r_ok((p), (n))
#endif

/* A symbolic value in [lo, hi]. */
static inline size_t vp_range(size_t lo, size_t hi)
{
	size_t v = vp_size();
	vp_assume(v >= lo && v <= hi);
	return v;
}

/* Fill n bytes with symbolic values (n is a constant wherever this is used). */
static inline void vp_bytes(void *p, size_t n)
{
	for (size_t vp_i = 0; vp_i < n; vp_i++)
		((uint8_t *) p)[vp_i] = vp_u8();
}

static inline uint32_t vp_get_be32(const uint8_t *p)
{
	return (uint32_t) p[0] << 24 | (uint32_t) p[1] << 16 |
	       (uint32_t) p[2] << 8 | (uint32_t) p[3];
}

static inline void vp_put_be32(uint8_t *p, uint32_t v)
{
	p[0] = (uint8_t) (v >> 24); p[1] = (uint8_t) (v >> 16);
	p[2] = (uint8_t) (v >> 8);  p[3] = (uint8_t) v;
}

/* Allocation bookkeeping: number of live heap blocks the code under test holds. */
extern long vp_live;
/*
 * With -DVP_BLK=n: payload buffers of any symbolic size, contents tracked at
 * the one symbolic index vp_sample.
 */
extern size_t vp_sample;
bool vp_blk_ok(const void *p, size_t n);
void vp_blk_put(void *p, size_t n, uint8_t v);
uint8_t vp_blk_get(const void *p);

/* Every harness defines this; vp_rt.c calls it. */
void vp_main(void);
#endif
