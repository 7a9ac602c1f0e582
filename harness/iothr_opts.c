/* The option setters of the I/O thread, for every value. */
#include "vp.h"
#include <limits.h>
#include <fstrm.h>

static bool pow2(unsigned v)
{
	bool r = false;
	for (unsigned i = 0; i < 32; i++)
		r |= v == 1u << i;
	return r;
}

void vp_main(void)
{
	struct fstrm_iothr_options *o = fstrm_iothr_options_init();
	vp_assert(o != NULL, "options are created");
	for (unsigned round = 0; round < 2; round++) {
		unsigned v = vp_u32();
		vp_assert((fstrm_iothr_options_set_buffer_hint(o, v) == fstrm_res_success) == (v >= 1024 && v <= 65536), "buffer_hint is 1024..65536");
		vp_assert((fstrm_iothr_options_set_flush_timeout(o, v) == fstrm_res_success) == (v >= 1 && v <= 600), "flush_timeout is 1..600");
		vp_assert((fstrm_iothr_options_set_input_queue_size(o, v) == fstrm_res_success) == (v >= 2 && v <= 16384 && pow2(v)), "input_queue_size is a power of two in 2..16384");
		vp_assert((fstrm_iothr_options_set_num_input_queues(o, v) == fstrm_res_success) == (v >= 1), "num_input_queues is at least 1");
		vp_assert((fstrm_iothr_options_set_output_queue_size(o, v) == fstrm_res_success) == (v >= 2 && v <= IOV_MAX), "output_queue_size is 2..IOV_MAX");
		vp_assert((fstrm_iothr_options_set_queue_notify_threshold(o, v) == fstrm_res_success) == (v >= 1), "queue_notify_threshold is at least 1");
		vp_assert((fstrm_iothr_options_set_reopen_interval(o, v) == fstrm_res_success) == (v >= 1 && v <= 600), "reopen_interval is 1..600");
		vp_assert((fstrm_iothr_options_set_queue_model(o, (fstrm_iothr_queue_model) v) == fstrm_res_success) ==
			  (v == FSTRM_IOTHR_QUEUE_MODEL_SPSC || v == FSTRM_IOTHR_QUEUE_MODEL_MPSC), "queue_model is SPSC or MPSC");
	}
	fstrm_iothr_options_destroy(&o);
	vp_assert(o == NULL && vp_live == 0, "options are destroyed");
	fstrm_iothr_options_destroy(&o);
	vp_reach("end");
}
