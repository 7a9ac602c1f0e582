From 2815344ac447f18445937395725b488d0e915c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 01/19] fix: accept any of the writer's content types in the
 ACCEPT frame

The match flag was left false when the first configured content type was
not in the ACCEPT frame but a later one was, so negotiation failed.
---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..fb42cf6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From e3bdbd69fe35b77ece66d30a2f3e3f4c8f520116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 02/19] fix: report failure for frames over the reader's
 maximum frame size

The result still held success from reading the frame length, so
fstrm_reader_read() returned success without setting its outputs.
---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..ae18d27 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -309,8 +309,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From 511451fb49fe5a7597d3a924d1d4eb0c596aecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 03/19] fix: resume partial sends where they stopped

After a partial sendmsg() the message vector still started at its first
element, so bytes already sent were sent again, and the loop that skips
sent elements could run past the end of the array.
---
 fstrm/tcp_writer.c  | 13 ++++++++-----
 fstrm/unix_writer.c | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..4f06715 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -191,15 +191,18 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		while (cur < iovcnt && written >= (ssize_t) iov[cur].iov_len)
+		       written -= iov[cur++].iov_len;
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Continue with the part that has not been sent yet. */
+		msg.msg_iov = (struct iovec *) &iov[cur];
+		msg.msg_iovlen = iovcnt - cur;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..3dad41b 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -177,15 +177,18 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 		if (cur == 0 && written == (ssize_t) nbytes)
 			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		while (cur < iovcnt && written >= (ssize_t) iov[cur].iov_len)
+		       written -= iov[cur++].iov_len;
 
 		if (cur == iovcnt)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Continue with the part that has not been sent yet. */
+		msg.msg_iov = (struct iovec *) &iov[cur];
+		msg.msg_iovlen = iovcnt - cur;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
-- 
2.43.0


From 6abd33831c1145817a9ea51632b30148edb98986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 04/19] fix: reject input queue sizes that are not a power of 2

The option setter accepted every even number, but the queue only works
with (and its init function only accepts) powers of 2.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..96a5fff 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -162,7 +162,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    (input_queue_size & (input_queue_size - 1)) != 0)
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From 5f9359876cff0ea835e720240da066d9d49e6d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 05/19] fix: clean up a partially initialized fstrm_iothr
 without joining its thread

The failure path called fstrm_iothr_destroy(), which uses the condition
variable, thread, writer and queues that have not been set up yet.
---
 fstrm/iothr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 96a5fff..144ee7b 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -331,7 +331,13 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 
 	return iothr;
 fail:
-	fstrm_iothr_destroy(&iothr);
+	/* The I/O thread and its synchronization objects don't exist yet. */
+	if (iothr->queues != NULL) {
+		for (size_t i = 0; i < iothr->opt.num_input_queues; i++)
+			iothr->queue_ops->destroy(&iothr->queues[i].q);
+		my_free(iothr->queues);
+	}
+	my_free(iothr);
 	return NULL;
 }
 
-- 
2.43.0


From a65dd39c48c8be743a3c8ef54e363254375f3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 06/19] fix: close the transport when opening or reading a
 stream fails

A failed handshake or a malformed frame left the transport open: its file
descriptor leaked, and another open attempt opened it a second time.
---
 fstrm/reader.c | 9 +++++----
 fstrm/writer.c | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index ae18d27..a6fdc32 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -265,13 +265,13 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(r->rdwr);
+		return res;
 	}
 
 	r->state = fstrm_reader_state_opened;
@@ -352,6 +352,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 	}
 fail:
 	r->state = fstrm_reader_state_failed;
+	(void)fstrm_rdwr_close(r->rdwr);
 	return res;
 }
 
diff --git a/fstrm/writer.c b/fstrm/writer.c
index fb42cf6..29cee46 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,13 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(w->rdwr);
+		return res;
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From 221485d529d727ce6531017a43cc434464b3ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:03 +0000
Subject: [PATCH 07/19] fix: do not leak the STOP frame of an earlier stream
 when a reader is reopened

---
 fstrm/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index a6fdc32..698616c 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -344,6 +344,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 					FSTRM_CONTROL_FINISH, NULL);
 				*/
 				r->state = fstrm_reader_state_closing;
+				fstrm_control_destroy(&r->control_stop);
 				r->control_stop = r->control_tmp;
 				r->control_tmp = NULL;
 				return fstrm_res_stop;
-- 
2.43.0


From f39174d000c5d45774c19ace2a76033b9ce0a4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 08/19] fix: do not write data frames whose length the stream
 cannot express

An empty frame was written as a bare escape sequence, and the length of a
frame over 4 GB was truncated, corrupting the rest of the stream.
---
 fstrm/writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index 29cee46..1d199a6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -397,6 +397,15 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/*
+	 * A zero frame length is the escape sequence for control frames, and
+	 * the frame length is a 32-bit field.
+	 */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len > UINT32_MAX))
+			return fstrm_res_failure;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
-- 
2.43.0


From 8d37cdd60798852813b7cc80187ea059daee62ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 09/19] fix: ignore control frames of unknown types within a
 stream

The specification in control.h requires a decoder to ignore them for
forward compatibility, but the reader failed.
---
 fstrm/rdwr.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index dc181ba..497ebdc 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -185,6 +185,25 @@ fstrm__rdwr_read_control_frame(struct fstrm_rdwr *rdwr,
 	if (res != fstrm_res_success)
 		return res;
 
+	/*
+	 * For forward compatibility, control frames of unknown types that occur
+	 * within the stream must be ignored. Leave this to the caller.
+	 */
+	if (!with_escape && type != NULL && len_control_frame >= sizeof(tmp)) {
+		memcpy(&tmp, control_frame, sizeof(tmp));
+		switch (ntohl(tmp)) {
+		case FSTRM_CONTROL_ACCEPT:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_START:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_STOP:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_READY:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_FINISH:
+			break;
+		default:
+			*type = (fstrm_control_type) ntohl(tmp);
+			return fstrm_res_success;
+		}
+	}
+
 	/* Decode the control frame. */
 	assert(control != NULL);
 	res = fstrm_control_decode(control,
-- 
2.43.0


From d38bc5c4956cc12c414122c52f22f932a0bda110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 10/19] fix: fstrm_capture: do not overflow the total length of
 a frame

For frame lengths of 0xFFFFFFFC and up the 32-bit total wrapped around to
0..3, which made the incomplete frame look complete.
---
 src/fstrm_capture.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..6802039 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -86,7 +86,7 @@ struct conn {
 	struct capture		*ctx;
 	conn_state		state;
 	uint32_t		len_frame_payload;
-	uint32_t		len_frame_total;
+	size_t			len_frame_total;
 	size_t			len_buf;
 	size_t			bytes_read;
 	size_t			bytes_skip;
@@ -624,7 +624,7 @@ close_write_file(struct capture *ctx)
 static void
 process_data_frame(struct conn *conn)
 {
-	conn_log(CONN_TRACE, conn, "processing data frame (%u bytes)",
+	conn_log(CONN_TRACE, conn, "processing data frame (%zu bytes)",
 		 conn->len_frame_total);
 
 	/*
@@ -913,7 +913,7 @@ load_control_frame(struct conn *conn)
 		return false;
 	}
 	conn_log_data(CONN_TRACE, conn, control_frame, conn->len_frame_total,
-		      "reading control frame (%u bytes): ", conn->len_frame_total);
+		      "reading control frame (%zu bytes): ", conn->len_frame_total);
 
 	/* Decode the control frame. */
 	res = fstrm_control_decode(conn->control,
@@ -994,11 +994,11 @@ can_read_full_frame(struct conn *conn)
 	 * exactly 'len_frame_total'.
 	 */
 	if (conn->len_buf < conn->len_frame_total) {
-		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %u)",
+		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %zu)",
 			 conn->len_buf, conn->len_frame_total);
 		if (conn->len_frame_total > conn->ctx->capture_highwater) {
 			conn_log(CONN_WARNING, conn,
-				"Skipping %u byte message (%zd buffer)",
+				"Skipping %zu byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
-- 
2.43.0


From ce2f6572ff0c44cc78cffc7dcb8417b38d6a771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 11/19] fix: fstrm_capture: start skipping an oversized frame
 immediately

When the input buffer was already filled up to its high watermark, nothing
was drained, so no more input could arrive and the connection stalled.
---
 src/fstrm_capture.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 6802039..5ff79e6 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1002,6 +1002,7 @@ can_read_full_frame(struct conn *conn)
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
+			return true;
 		}
 		return false;
 	}
-- 
2.43.0


From b4893823af9ede34217ce2d771beeed00a73f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 12/19] fix: fstrm_capture: accept control frames of the
 maximum length

The limit excludes the escape sequence and the control frame length.
---
 src/fstrm_capture.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 5ff79e6..47db4c4 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -901,7 +901,7 @@ load_control_frame(struct conn *conn)
 	uint8_t *control_frame = NULL;
 
 	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
+	if (conn->len_frame_total > FSTRM_CONTROL_FRAME_LENGTH_MAX + 2*sizeof(uint32_t)) {
 		/* Malformed. */
 		return false;
 	}
-- 
2.43.0


From fa92d37c5c636a8828a70f3d2e2eb9e41aa45ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 13/19] fix: fstrm_capture: only capture data frames between
 START and STOP

Data frames sent before the handshake had completed, or after STOP, were
written to the output file, whatever their content type.
---
 src/fstrm_capture.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 47db4c4..b91be4e 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1058,6 +1058,11 @@ cb_read(struct bufferevent *bev, void *arg)
 		/* Process the frame. */
 		if (conn->len_frame_payload > 0) {
 			/* This is a data frame. */
+			if (conn->state != CONN_STATE_READING_DATA) {
+				/* Not between START and STOP, shut down the connection. */
+				cb_close_conn(conn->bev, 0, conn);
+				return;
+			}
 			process_data_frame(conn);
 
 			/* Check if it's time to rotate the output file. */
-- 
2.43.0


From 1e26abdad0c192e1567a52d4f11d8807df7259ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 14/19] fix: fstrm_iothr: do not truncate the number of queued
 output bytes

A frame of 4 GiB - 4 bytes or more made the 32-bit counter wrap to a small
value, so the frame did not force a flush when it exceeded the buffer hint.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 144ee7b..bb8bd14 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -111,7 +111,7 @@ struct fstrm_iothr {
 	unsigned			outq_idx;
 	struct iovec			*outq_iov;
 	struct fstrm__iothr_queue_entry	*outq_entries;
-	unsigned			outq_nbytes;
+	size_t				outq_nbytes;
 };
 
 struct fstrm_iothr_options *
-- 
2.43.0


From 6e89a009576df70c310018ed2a1160767895edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 15/19] fix: fstrm_iothr: do not extend the flush timeout when
 woken up early

Each wakeup started a new flush timeout, so with wakeups less than
flush_timeout seconds apart unflushed data could remain in the output buffer
until it was full.
---
 fstrm/iothr.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index bb8bd14..cb0c54a 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -603,6 +603,8 @@ static void *
 fstrm__iothr_thr(void *arg)
 {
 	struct fstrm_iothr *iothr = (struct fstrm_iothr *)arg;
+	struct timespec ts;
+	bool pending = false;
 
 	fstrm__iothr_thr_setup();
 	fstrm__iothr_maybe_open(iothr);
@@ -624,25 +626,34 @@ fstrm__iothr_thr(void *arg)
 		if (count != 0)
 			continue;
 
-		struct timespec ts;
+		/*
+		 * Keep the deadline if there was already data in the output
+		 * buffer, so that waking up early does not extend the time it
+		 * remains there.
+		 */
+		if (!pending || iothr->outq_idx == 0) {
 #if HAVE_CLOCK_GETTIME
 #if HAVE_PTHREAD_CONDATTR_SETCLOCK
-		int rv = clock_gettime(iothr->clkid_pthread, &ts);
+			int rv = clock_gettime(iothr->clkid_pthread, &ts);
 #else
-		int rv = clock_gettime(CLOCK_REALTIME, &ts);
+			int rv = clock_gettime(CLOCK_REALTIME, &ts);
 #endif
-		assert(rv == 0);
+			assert(rv == 0);
 #else
-		my_gettime(-1, &ts);
+			my_gettime(-1, &ts);
 #endif
-		ts.tv_sec += iothr->opt.flush_timeout;
+			ts.tv_sec += iothr->opt.flush_timeout;
+		}
+		pending = (iothr->outq_idx > 0);
 
 		pthread_mutex_lock(&iothr->cv_lock);
 		res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
 		pthread_mutex_unlock(&iothr->cv_lock);
 
-		if (res == ETIMEDOUT)
+		if (res == ETIMEDOUT) {
 			fstrm__iothr_flush_output(iothr);
+			pending = false;
+		}
 	}
 
 	return NULL;
-- 
2.43.0


From ddcb0daed8c51d21caa2a375347ea7f635d68b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:58 +0000
Subject: [PATCH 16/19] fix: report a failure to write the last buffered output
 (fstrm_capture)

---
 src/fstrm_capture.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index b91be4e..0c47161 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -608,9 +608,14 @@ close_write_file(struct capture *ctx)
 		if (!close_write_stop(ctx))
 			return false;
 
-		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		/* Close the FILE object. Buffered data may fail to be written. */
+		int ret = fclose(ctx->output_file);
 		ctx->output_file = NULL;
+		if (ret != 0) {
+			fprintf(stderr, "%s: failed to write output file: %s\n",
+				argv_program, strerror(errno));
+			return false;
+		}
 	}
 
 	/* Success. */
-- 
2.43.0


From 09f4a8cf07e99bdd78123cee194a1e6dcd9feb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:58 +0000
Subject: [PATCH 17/19] fix: refuse to open a reader whose transport is still
 open

---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 698616c..6ce3d34 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -255,7 +255,9 @@ fstrm_reader_open(struct fstrm_reader *r)
 {
 	fstrm_res res;
 
-	if (r->state == fstrm_reader_state_opened)
+	/* In the closing state, the transport is still open. */
+	if (r->state == fstrm_reader_state_opened ||
+	    r->state == fstrm_reader_state_closing)
 		return fstrm_res_failure;
 
 	res = fstrm_rdwr_open(r->rdwr);
-- 
2.43.0


From 6479ecd834bee44606648b7cc87adea722d5aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:55 +0000
Subject: [PATCH 18/19] fix: fstrm_reader_get_control() fails when there is no
 such control frame

---
 fstrm/reader.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 6ce3d34..be4d266 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -449,5 +449,9 @@ fstrm_reader_get_control(struct fstrm_reader *r,
 		return fstrm_res_failure;
 	}
 
+	/* There may be no such control frame, or not yet. */
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
-- 
2.43.0


From c7e231b2b39d05a670b4bbc07c3966ac69363ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:09 +0000
Subject: [PATCH 19/19] fix: report a failure to finish the stream by the exit
 status (fstrm_replay)

---
 src/fstrm_replay.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..16d2468 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -284,9 +284,11 @@ int main(int argc, char **argv)
 	}
 
 	res = fstrm_writer_close(w);
-	if (res != fstrm_res_success)
-		fputs("Error: fstrm_writer_close() failed", stderr);
-
 	fstrm_writer_destroy(&w);
+	if (res != fstrm_res_success) {
+		fputs("Error: fstrm_writer_close() failed\n", stderr);
+		return EXIT_FAILURE;
+	}
+
 	return 0;
 }
-- 
2.43.0

