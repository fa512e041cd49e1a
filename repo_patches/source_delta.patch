From bf61e29a8bbc89e19dd97410c37d4c549ac31d95 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 01/28] fix: control: reject over-long content types in
 fstrm_control_add_field_content_type()

control.h documents that adding a "Content Type" field fails when the
string is too long, but the function always succeeded and left an object
that could not be encoded.
---
 fstrm/control.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fstrm/control.c b/fstrm/control.c
index 297e7f3..6f754af 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -167,6 +167,11 @@ fstrm_control_add_field_content_type(struct fstrm_control *c,
 				     size_t len_content_type)
 {
 	fs_buf ctype;
+
+	/* Enforce limit on "Content Type" payload length. */
+	if (len_content_type > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)
+		return fstrm_res_failure;
+
 	ctype.len = len_content_type;
 	ctype.data = my_malloc(ctype.len);
 	memcpy(ctype.data, content_type, ctype.len);
-- 
2.43.0


From 2ff9710aa1ad4ef4eff5e7d2cf42683d035af483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:24 +0000
Subject: [PATCH 02/28] fix: control: apply the control frame length limit to
 the payload only

FSTRM_CONTROL_FRAME_LENGTH_MAX limits the control frame payload, excluding
the escape sequence and the length field. With
FSTRM_CONTROL_FLAG_WITH_HEADER the encoder counted these 8 bytes too, so
frames with payloads of 505..512 bytes could be decoded but not encoded.
---
 fstrm/control.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/fstrm/control.c b/fstrm/control.c
index 6f754af..dbe6f86 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -371,14 +371,6 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 {
 	size_t len = 0;
 
-	if (flags & FSTRM_CONTROL_FLAG_WITH_HEADER) {
-		/* Escape: 32-bit BE integer. */
-		len += sizeof(uint32_t);
-
-		/* Frame length: 32-bit BE integer. */
-		len += sizeof(uint32_t);
-	}
-
 	/* Control type: 32-bit BE integer. */
 	len += sizeof(uint32_t);
 
@@ -411,10 +403,21 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 			break;
 	}
 
-	/* Sanity check the overall length. */
+	/*
+	 * Sanity check the length of the control frame payload. This limit does
+	 * not apply to the escape sequence and the control frame length.
+	 */
 	if (len > FSTRM_CONTROL_FRAME_LENGTH_MAX)
 		return fstrm_res_failure;
 
+	if (flags & FSTRM_CONTROL_FLAG_WITH_HEADER) {
+		/* Escape: 32-bit BE integer. */
+		len += sizeof(uint32_t);
+
+		/* Frame length: 32-bit BE integer. */
+		len += sizeof(uint32_t);
+	}
+
 	*len_control_frame = len;
 	return fstrm_res_success;
 }
-- 
2.43.0


From 281d2baafd8c07abda88b8dd7597c6b9c1141e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:07 +0000
Subject: [PATCH 03/28] fix: writer: reject data frame payloads that cannot be
 framed

---
 fstrm/writer.c | 9 +++++++++
 fstrm/writer.h | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..85e2c24 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -396,6 +396,15 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/*
+	 * A data frame length is a non-zero 32-bit quantity. (A length of zero
+	 * is the escape sequence that introduces a control frame.)
+	 */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len > UINT32_MAX))
+			return fstrm_res_failure;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
diff --git a/fstrm/writer.h b/fstrm/writer.h
index 40e00ca..5d716e7 100644
--- a/fstrm/writer.h
+++ b/fstrm/writer.h
@@ -189,7 +189,7 @@ fstrm_writer_close(struct fstrm_writer *w);
  * \param[in] data
  *	Buffer containing the data frame payload.
  * \param[in] len_data
- *	The number of bytes in `data`.
+ *	The number of bytes in `data`. Must be between 1 and 2^32-1, inclusive.
  *
  * \retval #fstrm_res_success
  *	The data frame was successfully written.
-- 
2.43.0


From 889cbe0ad30645956b7720e74566455244a50559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 04/28] fix: reader: return failure for data frames above the
 maximum frame size

---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..ae18d27 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -309,8 +309,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From 0ea0bad81555f5aeea7781f90b616d9b4d61fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 05/28] fix: writer: accept an ACCEPT frame matching any of our
 content types

---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index 85e2c24..6f39484 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From 5a51b9685ca4bd9de721d0b12ecf0b300d563ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 06/28] fix: rdwr: reject control frames too short to hold a
 control frame type

---
 fstrm/rdwr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index dc181ba..c7f77f7 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -176,7 +176,8 @@ fstrm__rdwr_read_control_frame(struct fstrm_rdwr *rdwr,
 	const size_t len_control_frame = ntohl(tmp);
 
 	/* Sanity check the control frame length. */
-	if (len_control_frame > FSTRM_CONTROL_FRAME_LENGTH_MAX)
+	if (len_control_frame < sizeof(uint32_t) ||
+	    len_control_frame > FSTRM_CONTROL_FRAME_LENGTH_MAX)
 		return fstrm_res_failure;
 
 	/* Read the control frame. */
-- 
2.43.0


From 4fcf10098712a7da7ec37355a71b0472784a6c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 07/28] fix: reader: ignore control frames of unknown types
 within a stream

---
 fstrm/rdwr.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index c7f77f7..dda6655 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -186,8 +186,28 @@ fstrm__rdwr_read_control_frame(struct fstrm_rdwr *rdwr,
 	if (res != fstrm_res_success)
 		return res;
 
-	/* Decode the control frame. */
 	assert(control != NULL);
+
+	/*
+	 * Control frames of unknown types cannot be decoded. Leave it up to the
+	 * caller to ignore or reject them.
+	 */
+	memcpy(&tmp, control_frame, sizeof(tmp));
+	switch (ntohl(tmp)) {
+	case FSTRM_CONTROL_ACCEPT:
+	case FSTRM_CONTROL_START:
+	case FSTRM_CONTROL_STOP:
+	case FSTRM_CONTROL_READY:
+	case FSTRM_CONTROL_FINISH:
+		break;
+	default:
+		fstrm_control_reset(control);
+		if (type != NULL)
+			*type = (fstrm_control_type) ntohl(tmp);
+		return fstrm_res_success;
+	}
+
+	/* Decode the control frame. */
 	res = fstrm_control_decode(control,
 				   control_frame, len_control_frame,
 				   flags);
-- 
2.43.0


From 1fb4e8ba80db1a5fe0b79512411f48be646fab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 08/28] fix: reader: do not leak the STOP frame of a previous
 stream

---
 fstrm/reader.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index ae18d27..78b23e4 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -344,6 +344,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 					FSTRM_CONTROL_FINISH, NULL);
 				*/
 				r->state = fstrm_reader_state_closing;
+				fstrm_control_destroy(&r->control_stop);
 				r->control_stop = r->control_tmp;
 				r->control_tmp = NULL;
 				return fstrm_res_stop;
-- 
2.43.0


From ea01fce44114d55073f12da6e2cf9b2242ab53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:54 +0000
Subject: [PATCH 09/28] fix: reader, writer: do not leave the transport open
 after a failure

---
 fstrm/reader.c | 14 +++++++++-----
 fstrm/writer.c |  8 ++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 78b23e4..f590dcc 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -255,8 +255,11 @@ fstrm_reader_open(struct fstrm_reader *r)
 {
 	fstrm_res res;
 
-	if (r->state == fstrm_reader_state_opened)
+	if (r->state == fstrm_reader_state_opened ||
+	    r->state == fstrm_reader_state_closing)
+	{
 		return fstrm_res_failure;
+	}
 
 	res = fstrm_rdwr_open(r->rdwr);
 	if (res != fstrm_res_success)
@@ -265,13 +268,13 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(r->rdwr);
+		return res;
 	}
 
 	r->state = fstrm_reader_state_opened;
@@ -353,6 +356,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 	}
 fail:
 	r->state = fstrm_reader_state_failed;
+	(void)fstrm_rdwr_close(r->rdwr);
 	return res;
 }
 
diff --git a/fstrm/writer.c b/fstrm/writer.c
index 6f39484..f4f77c3 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,13 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(w->rdwr);
+		return res;
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From 369f7b26383988136662f02bea3baab55a37d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 10/28] fix: tcp_writer, unix_writer: resume partial writes
 where they stopped

---
 fstrm/tcp_writer.c  | 25 ++++++++++++-------------
 fstrm/unix_writer.c | 25 ++++++++++++-------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..aaad9b9 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -168,9 +168,7 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 {
 	struct fstrm__tcp_writer *w = obj;
 
-	size_t nbytes = 0;
 	ssize_t written = 0;
-	int cur = 0;
 	struct msghdr msg = {
 		.msg_iov = (struct iovec *) /* Grr! */ iov,
 		.msg_iovlen = iovcnt,
@@ -179,27 +177,28 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 	if (unlikely(!w->connected))
 		return fstrm_res_failure;
 
-	for (int i = 0; i < iovcnt; i++)
-		nbytes += iov[i].iov_len;
-
 	for (;;) {
 		do {
 			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
 		} while (written == -1 && errno == EINTR);
 		if (written == -1)
 			return fstrm_res_failure;
-		if (cur == 0 && written == (ssize_t) nbytes)
-			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip past what has been written. */
+		while (msg.msg_iovlen > 0 &&
+		       written >= (ssize_t) msg.msg_iov[0].iov_len)
+		{
+			written -= msg.msg_iov[0].iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+		}
 
-		if (cur == iovcnt)
+		if (msg.msg_iovlen == 0)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..06da780 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -154,9 +154,7 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 {
 	struct fstrm__unix_writer *w = obj;
 
-	size_t nbytes = 0;
 	ssize_t written = 0;
-	int cur = 0;
 	struct msghdr msg = {
 		.msg_iov = (struct iovec *) /* Grr! */ iov,
 		.msg_iovlen = iovcnt,
@@ -165,27 +163,28 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 	if (unlikely(!w->connected))
 		return fstrm_res_failure;
 
-	for (int i = 0; i < iovcnt; i++)
-		nbytes += iov[i].iov_len;
-
 	for (;;) {
 		do {
 			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
 		} while (written == -1 && errno == EINTR);
 		if (written == -1)
 			return fstrm_res_failure;
-		if (cur == 0 && written == (ssize_t) nbytes)
-			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip past what has been written. */
+		while (msg.msg_iovlen > 0 &&
+		       written >= (ssize_t) msg.msg_iov[0].iov_len)
+		{
+			written -= msg.msg_iov[0].iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+		}
 
-		if (cur == iovcnt)
+		if (msg.msg_iovlen == 0)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
-- 
2.43.0


From 6cfc4e089d3c23720583d1ada8eb532bda1149a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 11/28] fix: iothr: flush within the flush timeout even when
 woken early

The flush deadline was recomputed every time the I/O thread went to sleep, so
wakeups caused by fstrm_iothr_submit() kept pushing it back and data could
remain unflushed for many times flush_timeout.
---
 fstrm/iothr.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..8b158f1 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -601,6 +601,14 @@ fstrm__iothr_thr(void *arg)
 	fstrm__iothr_thr_setup();
 	fstrm__iothr_maybe_open(iothr);
 
+	/*
+	 * Time of the next flush. This must not be pushed back when the I/O
+	 * thread is woken early, otherwise a steady trickle of wakeups could
+	 * hold up unflushed data for much longer than the flush timeout.
+	 */
+	struct timespec ts;
+	bool flush_pending = false;
+
 	for (;;) {
 		int res;
 		unsigned count;
@@ -618,25 +626,29 @@ fstrm__iothr_thr(void *arg)
 		if (count != 0)
 			continue;
 
-		struct timespec ts;
+		if (!flush_pending) {
 #if HAVE_CLOCK_GETTIME
 #if HAVE_PTHREAD_CONDATTR_SETCLOCK
-		int rv = clock_gettime(iothr->clkid_pthread, &ts);
+			int rv = clock_gettime(iothr->clkid_pthread, &ts);
 #else
-		int rv = clock_gettime(CLOCK_REALTIME, &ts);
+			int rv = clock_gettime(CLOCK_REALTIME, &ts);
 #endif
-		assert(rv == 0);
+			assert(rv == 0);
 #else
-		my_gettime(-1, &ts);
+			my_gettime(-1, &ts);
 #endif
-		ts.tv_sec += iothr->opt.flush_timeout;
+			ts.tv_sec += iothr->opt.flush_timeout;
+			flush_pending = true;
+		}
 
 		pthread_mutex_lock(&iothr->cv_lock);
 		res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
 		pthread_mutex_unlock(&iothr->cv_lock);
 
-		if (res == ETIMEDOUT)
+		if (res == ETIMEDOUT) {
 			fstrm__iothr_flush_output(iothr);
+			flush_pending = false;
+		}
 	}
 
 	return NULL;
-- 
2.43.0


From e60ea321c5e1b88be82562279fdb9325f1d3626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 12/28] fix: iothr: do not lose the shutdown wakeup

fstrm_iothr_destroy() set shutting_down and signalled the condition variable
without holding its mutex. If the I/O thread had just checked shutting_down and
was about to wait, the wakeup was lost and destroy took up to flush_timeout
seconds.
---
 fstrm/iothr.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 8b158f1..b711f33 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -366,8 +366,10 @@ fstrm_iothr_destroy(struct fstrm_iothr **iothr)
 		 * Signal the I/O thread that a shutdown is in progress.
 		 * This waits for the I/O thread to finish.
 		 */
+		pthread_mutex_lock(&(*iothr)->cv_lock);
 		(*iothr)->shutting_down = true;
 		pthread_cond_signal(&(*iothr)->cv);
+		pthread_mutex_unlock(&(*iothr)->cv_lock);
 		pthread_join((*iothr)->thr, NULL);
 		pthread_cond_destroy(&(*iothr)->cv);
 		pthread_mutex_destroy(&(*iothr)->cv_lock);
@@ -641,8 +643,14 @@ fstrm__iothr_thr(void *arg)
 			flush_pending = true;
 		}
 
+		/*
+		 * A shutdown that was requested since the check above has
+		 * already sent its wakeup, so don't wait for it.
+		 */
+		res = 0;
 		pthread_mutex_lock(&iothr->cv_lock);
-		res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
+		if (!iothr->shutting_down)
+			res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
 		pthread_mutex_unlock(&iothr->cv_lock);
 
 		if (res == ETIMEDOUT) {
-- 
2.43.0


From 7a1a3e5964ec3459a5634b56a41251cae52fb8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 13/28] fix: iothr: do not lose the low watermark wakeup

fstrm_iothr_submit() signalled the condition variable without holding its mutex,
so a notification sent between the I/O thread finding its queues empty and
waiting was lost. As it is only sent when the threshold is crossed, the queue
then filled up and refused messages until the flush timeout expired.
---
 fstrm/iothr.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index b711f33..d15139d 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -103,6 +103,9 @@ struct fstrm_iothr {
 	pthread_cond_t			cv;
 	pthread_mutex_t			cv_lock;
 
+	/* Whether the low watermark was reached, protected by cv_lock. */
+	bool				notified;
+
 	/* Used to return unique queues from fstrm_iothr_get_queue(). */
 	pthread_mutex_t			get_queue_lock;
 	unsigned			get_queue_idx;
@@ -439,8 +442,12 @@ fstrm_iothr_submit(struct fstrm_iothr *iothr, struct fstrm_iothr_queue *ioq,
 	entry.free_data = free_data;
 
 	if (likely(len > 0) && iothr->queue_ops->insert(ioq->q, &entry, &space)) {
-		if (space == iothr->opt.queue_notify_threshold)
+		if (space == iothr->opt.queue_notify_threshold) {
+			pthread_mutex_lock(&iothr->cv_lock);
+			iothr->notified = true;
 			pthread_cond_signal(&iothr->cv);
+			pthread_mutex_unlock(&iothr->cv_lock);
+		}
 		return fstrm_res_success;
 	} else {
 		return fstrm_res_again;
@@ -644,13 +651,14 @@ fstrm__iothr_thr(void *arg)
 		}
 
 		/*
-		 * A shutdown that was requested since the check above has
-		 * already sent its wakeup, so don't wait for it.
+		 * A shutdown or low watermark notification since the checks
+		 * above has already sent its wakeup, so don't wait for it.
 		 */
 		res = 0;
 		pthread_mutex_lock(&iothr->cv_lock);
-		if (!iothr->shutting_down)
+		if (!iothr->shutting_down && !iothr->notified)
 			res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
+		iothr->notified = false;
 		pthread_mutex_unlock(&iothr->cv_lock);
 
 		if (res == ETIMEDOUT) {
-- 
2.43.0


From 534d380d950e778e19e61e2c3e10a00b1107ca0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 14/28] fix: iothr: accept only powers of two as
 input_queue_size

Other even values were accepted, contrary to the documentation, and then made
fstrm_iothr_init() fail and crash while cleaning up.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index d15139d..84b68c4 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -165,7 +165,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    (input_queue_size & (input_queue_size - 1)) != 0)
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From 2cfeaff98917b91b632b92ea3b5f85a7e2810daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:37 +0000
Subject: [PATCH 15/28] fix: fstrm_capture: handle SIGTERM and SIGINT in the
 event loop

event_base_loopexit() was called from a signal handler. It is not
async-signal-safe, and a signal that arrived just before the event loop
started to wait was not noticed until some other event occurred.
---
 src/fstrm_capture.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..7da6544 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -107,6 +107,8 @@ struct capture {
 	struct evconnlistener	*ev_connlistener;
 	struct event		*ev_sighup;
 	struct event		*ev_sigusr1;
+	struct event		*ev_sigterm;
+	struct event		*ev_sigint;
 
 	FILE			*output_file;
 	char			*output_fname;
@@ -1143,6 +1145,14 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 	}
 }
 
+static void
+do_shutdown(__attribute__((unused)) evutil_socket_t sig,
+	    __attribute__((unused)) short events, void *user_data)
+{
+	struct capture *ctx = user_data;
+	event_base_loopexit(ctx->ev_base, NULL);
+}
+
 static bool
 setup_event_loop(struct capture *ctx)
 {
@@ -1177,31 +1187,27 @@ setup_event_loop(struct capture *ctx)
 				       &g_program_ctx);
 	evsignal_add(ctx->ev_sigusr1, NULL);
 
+	/* Register our SIGTERM and SIGINT handlers. */
+	ctx->ev_sigterm = evsignal_new(ctx->ev_base, SIGTERM, &do_shutdown,
+				       &g_program_ctx);
+	evsignal_add(ctx->ev_sigterm, NULL);
+	ctx->ev_sigint = evsignal_new(ctx->ev_base, SIGINT, &do_shutdown,
+				      &g_program_ctx);
+	evsignal_add(ctx->ev_sigint, NULL);
+
 	/* Success. */
 	return true;
 }
 
-static void
-shutdown_handler(int signum __attribute__((unused)))
-{
-	event_base_loopexit(g_program_ctx.ev_base, NULL);
-}
-
 static bool
 setup_signals(void)
 {
 	struct sigaction sa = {
-		.sa_handler = shutdown_handler,
+		.sa_handler = SIG_IGN,
 	};
 
 	if (sigemptyset(&sa.sa_mask) != 0)
 		return false;
-	if (sigaction(SIGTERM, &sa, NULL) != 0)
-		return false;
-	if (sigaction(SIGINT, &sa, NULL) != 0)
-		return false;
-
-	sa.sa_handler = SIG_IGN;
 	if (sigaction(SIGPIPE, &sa, NULL) != 0)
 		return false;
 
@@ -1217,6 +1223,10 @@ cleanup(struct capture *ctx)
 		event_free(ctx->ev_sighup);
 	if (ctx->ev_sigusr1 != NULL)
 		event_free(ctx->ev_sigusr1);
+	if (ctx->ev_sigterm != NULL)
+		event_free(ctx->ev_sigterm);
+	if (ctx->ev_sigint != NULL)
+		event_free(ctx->ev_sigint);
 	if (ctx->ev_connlistener != NULL)
 		evconnlistener_free(ctx->ev_connlistener);
 	if (ctx->ev_base != NULL)
-- 
2.43.0


From 7bfa192d442252699cfbd9eb71fca7bc3407a186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:51 +0000
Subject: [PATCH 16/28] fix: fstrm_capture: accept control frames up to the
 documented maximum length

The limit of 512 bytes was applied to the frame including its 8 byte header,
so that READY frames with 504 to 512 bytes were refused.
---
 src/fstrm_capture.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 7da6544..569d988 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -902,8 +902,13 @@ load_control_frame(struct conn *conn)
 	fstrm_res res;
 	uint8_t *control_frame = NULL;
 
-	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
+	/*
+	 * Check if the frame is too big. The limit applies to the control frame
+	 * payload, without the escape sequence and the control frame length.
+	 */
+	if (conn->len_frame_total >
+	    FSTRM_CONTROL_FRAME_LENGTH_MAX + 2*sizeof(uint32_t))
+	{
 		/* Malformed. */
 		return false;
 	}
-- 
2.43.0


From f79b240e0b740b9f4df224a1c21e7bc2f67d8390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 17/28] fix: fstrm_capture: refuse data frames outside of START
 and STOP

Data frames were recorded in any connection state: before the content
type had been negotiated, and after STOP.
---
 src/fstrm_capture.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 569d988..32b9d84 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -960,6 +960,15 @@ can_read_full_frame(struct conn *conn)
 	/* Account for the frame length field. */
 	conn->len_frame_total += sizeof(uint32_t);
 
+	/* Data frames are only allowed between START and STOP. */
+	if (conn->len_frame_payload > 0 &&
+	    conn->state != CONN_STATE_READING_DATA)
+	{
+		conn_log(CONN_WARNING, conn, "unexpected data frame");
+		cb_close_conn(conn->bev, 0, conn);
+		return false;
+	}
+
 	/* Account for the length of the frame payload. */
 	conn->len_frame_total += conn->len_frame_payload;
 
-- 
2.43.0


From 520ad61e2e0002244a623a545cf7eed5a76f2536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 18/28] fix: fstrm_capture: do not overflow the total frame
 length

For a data frame length of 0xfffffffc or more, adding the length of the
frame length field wrapped around, and the output was corrupted or the
program looped forever.
---
 src/fstrm_capture.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 32b9d84..786fbe0 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -30,6 +30,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <inttypes.h>
 #include <signal.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -86,10 +87,10 @@ struct conn {
 	struct capture		*ctx;
 	conn_state		state;
 	uint32_t		len_frame_payload;
-	uint32_t		len_frame_total;
+	uint64_t		len_frame_total;
 	size_t			len_buf;
 	size_t			bytes_read;
-	size_t			bytes_skip;
+	uint64_t		bytes_skip;
 	size_t			count_read;
 	struct bufferevent	*bev;
 	struct evbuffer		*ev_input;
@@ -626,7 +627,7 @@ close_write_file(struct capture *ctx)
 static void
 process_data_frame(struct conn *conn)
 {
-	conn_log(CONN_TRACE, conn, "processing data frame (%u bytes)",
+	conn_log(CONN_TRACE, conn, "processing data frame (%" PRIu64 " bytes)",
 		 conn->len_frame_total);
 
 	/*
@@ -920,7 +921,7 @@ load_control_frame(struct conn *conn)
 		return false;
 	}
 	conn_log_data(CONN_TRACE, conn, control_frame, conn->len_frame_total,
-		      "reading control frame (%u bytes): ", conn->len_frame_total);
+		      "reading control frame (%" PRIu64 " bytes): ", conn->len_frame_total);
 
 	/* Decode the control frame. */
 	res = fstrm_control_decode(conn->control,
@@ -1010,11 +1011,11 @@ can_read_full_frame(struct conn *conn)
 	 * exactly 'len_frame_total'.
 	 */
 	if (conn->len_buf < conn->len_frame_total) {
-		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %u)",
+		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %" PRIu64 ")",
 			 conn->len_buf, conn->len_frame_total);
 		if (conn->len_frame_total > conn->ctx->capture_highwater) {
 			conn_log(CONN_WARNING, conn,
-				"Skipping %u byte message (%zd buffer)",
+				"Skipping %" PRIu64 " byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
@@ -1059,10 +1060,10 @@ cb_read(struct bufferevent *bev, void *arg)
 
 		/* Skip bytes of oversized frames. */
 		if (conn->bytes_skip > 0) {
-			size_t skip = conn->bytes_skip;
+			size_t skip = conn->len_buf;
 
-			if (skip > conn->len_buf)
-				skip = conn->len_buf;
+			if (skip > conn->bytes_skip)
+				skip = conn->bytes_skip;
 
 			conn_log(CONN_TRACE, conn, "Skipping %zd bytes", skip);
 			evbuffer_drain(conn->ev_input, skip);
-- 
2.43.0


From 0e38068768cb620a89a4806f5f27d566fd03b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:55 +0000
Subject: [PATCH 19/28] fix: argv: do not read beyond the end of the argument
 array

Checking the last argument of the array for ARGV_OR looked at the entry
after ARGV_LAST first.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..218c3f7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From ef163edc0fe31cb3dd5db1c5d8bddb6d3282b41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 20/28] fix: fstrm_capture: report failures to write buffered
 output

Errors of fflush() and fclose() were ignored, so that the program could
exit successfully although output had been lost.
---
 src/fstrm_capture.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 786fbe0..dc9e2d6 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -496,7 +496,8 @@ open_write_start(struct capture *ctx)
 	n_written = fwrite(control_frame, len_control_frame, 1, ctx->output_file);
 	if (n_written != 1)
 		goto fail;
-	(void) fflush(ctx->output_file);
+	if (fflush(ctx->output_file) != 0)
+		goto fail;
 
 	/* Success. */
 	ctx->bytes_written += len_control_frame;
@@ -611,9 +612,14 @@ close_write_file(struct capture *ctx)
 		if (!close_write_stop(ctx))
 			return false;
 
-		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		/* Close the FILE object. Buffered data is written here. */
+		int ret = fclose(ctx->output_file);
 		ctx->output_file = NULL;
+		if (ret != 0) {
+			fprintf(stderr, "%s: failed to close output file: %s\n",
+				argv_program, strerror(errno));
+			return false;
+		}
 	}
 
 	/* Success. */
@@ -1155,7 +1161,12 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 {
 	struct capture *ctx = user_data;
 	if (ctx->output_file) {
-		fflush(ctx->output_file);
+		/* Flush the output file, fail hard if unsuccessful. */
+		if (fflush(ctx->output_file) != 0) {
+			fprintf(stderr, "%s: %s: fflush() failed: %s\n",
+				argv_program, __func__, strerror(errno));
+			exit(EXIT_FAILURE);
+		}
 		fprintf(stderr, "%s: received SIGHUP, flushing output\n", argv_program);
 	}
 }
-- 
2.43.0


From aaa88e6981581b807c1393363747142e9c6d67fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 21/28] fix: fstrm_dump, fstrm_replay: notice a missing STOP
 frame

fstrm_reader_get_control() succeeds and returns no frame if none was read,
so that truncated input was treated like a complete stream.
---
 src/fstrm_dump.c   | 4 ++++
 src/fstrm_replay.c | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_dump.c b/src/fstrm_dump.c
index cf7e38e..e955361 100644
--- a/src/fstrm_dump.c
+++ b/src/fstrm_dump.c
@@ -77,6 +77,10 @@ print_stop_frame(struct fstrm_reader *r)
 	res = fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &control);
 	if (res != fstrm_res_success)
 		return res;
+	if (control == NULL) {
+		/* The input ended without a STOP frame. */
+		return fstrm_res_failure;
+	}
 	fputs("FSTRM_CONTROL_STOP.\n", stderr);
 
 	return fstrm_res_success;
diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..5747fb8 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -251,7 +251,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 		} else if (res == fstrm_res_stop) {
 			/* Normal end of data stream. */
 			res = fstrm_reader_get_control(r, FSTRM_CONTROL_STOP, &control);
-			if (res != fstrm_res_success) {
+			if (res != fstrm_res_success || control == NULL) {
 				fprintf(stderr, "Error: unable to read STOP frame from %s.\n", fname);
 			}
 			break;
-- 
2.43.0


From 4c0bb72a448e5c1f858d40adc0260679c1957c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 22/28] fix: fstrm_dump: report failure to write to standard
 output

---
 src/fstrm_dump.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fstrm_dump.c b/src/fstrm_dump.c
index e955361..c790fd8 100644
--- a/src/fstrm_dump.c
+++ b/src/fstrm_dump.c
@@ -229,5 +229,11 @@ out:
 		fstrm_writer_destroy(&w);
 	}
 
+	/* Report failures to write the frame data to stdout. */
+	if (fflush(stdout) != 0 || ferror(stdout)) {
+		fprintf(stderr, "Error: unable to write to standard output.\n");
+		rv = EXIT_FAILURE;
+	}
+
 	return rv;
 }
-- 
2.43.0


From 4cb78e7334a3accacbdfecce314ef45c86487665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 23/28] fix: fstrm_replay: report failure to close the stream

---
 src/fstrm_replay.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 5747fb8..20ab772 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -266,7 +266,7 @@ process_file(const char *fname, struct fstrm_writer *w)
 
 int main(int argc, char **argv)
 {
-	int i;
+	int i, rv = EXIT_SUCCESS;
 	fstrm_res res;
 	struct fstrm_writer *w = NULL;
 
@@ -284,9 +284,11 @@ int main(int argc, char **argv)
 	}
 
 	res = fstrm_writer_close(w);
-	if (res != fstrm_res_success)
+	if (res != fstrm_res_success) {
 		fputs("Error: fstrm_writer_close() failed", stderr);
+		rv = EXIT_FAILURE;
+	}
 
 	fstrm_writer_destroy(&w);
-	return 0;
+	return rv;
 }
-- 
2.43.0


From 682cf7de83d00a4820659342d89bb91561ab9461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 24/28] fix: fstrm_capture: refuse --unix together with --tcp

As documented, only one of them may be given; the TCP address was silently
ignored.
---
 src/fstrm_capture.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index dc9e2d6..9fa707b 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -326,6 +326,9 @@ parse_args(const int argc, char **argv, struct capture *ctx)
 	if (g_program_args.str_read_unix == NULL &&
 	    g_program_args.str_read_tcp_address == NULL)
 		usage("One of --unix or --tcp must be set");
+	if (g_program_args.str_read_unix != NULL &&
+	    g_program_args.str_read_tcp_address != NULL)
+		usage("Only one of --unix or --tcp may be set");
 	if (g_program_args.str_read_tcp_address != NULL &&
 	    g_program_args.str_read_tcp_port == NULL)
 		usage("If --tcp is set, --port must also be set");
-- 
2.43.0


From 6a4a5c5a3d2c847657c9d7deaeb0677f9e4db0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 25/28] fix: argv: grow the queue of options which need a value

The queue had room for one option per argument, but several options can be
given in one argument or come from a file of arguments.
---
 libmy/argv.c | 88 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 218c3f7..1efaa57 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -31,7 +31,7 @@
 
 /* internal routines -- we need this because of recusion */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp);
 
 #define LOC_SNPRINTF(...)	(void)snprintf(__VA_ARGS__);
@@ -2162,7 +2162,7 @@ static	int	check_opt(const int queue_head, const int queue_tail)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	file_args(const char *path, argv_t *grid,
-			  argv_t **queue_list, int *queue_head_p,
+			  argv_t ***queue_list, int *queue_head_p,
 			  int *queue_tail_p, int *okay_bp)
 {
   char	**argv, **argv_p;
@@ -2269,6 +2269,48 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static int queue_push
+ *
+ * DESCRIPTION:
+ *
+ * Append an option to our queue of options which need a value.
+ *
+ * RETURNS:
+ *
+ * Success - 0
+ *
+ * Failure - -1
+ *
+ * ARGUMENTS:
+ *
+ * queue_list <-> Pointer to our option queue, which is grown if needed.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * match_p - Option to append, NULL for the special file argument.
+ */
+static	int	queue_push(argv_t ***queue_list, int *queue_head_p,
+			   argv_t *match_p)
+{
+  argv_t	**new_list;
+  
+  /* grow the queue when the allocated space is used up */
+  if (*queue_head_p % ARRAY_INCR == 0) {
+    new_list = (argv_t **)realloc(*queue_list, sizeof(argv_t *) *
+				  (*queue_head_p + ARRAY_INCR));
+    if (new_list == NULL) {
+      return ERROR;
+    }
+    *queue_list = new_list;
+  }
+  
+  (*queue_list)[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+  return NOERROR;
+}
+
 /*
  * static void do_arg
  *
@@ -2300,7 +2342,7 @@ static	void	file_args(const char *path, argv_t *grid,
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
-		       argv_t **queue_list, int *queue_head_p, int *okay_bp)
+		       argv_t ***queue_list, int *queue_head_p, int *okay_bp)
 {
   if (! argv_multi_accept_b) {
     /*
@@ -2356,8 +2398,9 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
     }
   }
   else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+    if (queue_push(queue_list, queue_head_p, match_p) != NOERROR) {
+      *okay_bp = ARGV_FALSE;
+    }
   }
 }
 
@@ -2433,7 +2476,7 @@ static	int	is_number(const char *str)
  * arguments specified in the env variable are somehow invalid.
  */
 static	void	do_list(argv_t *grid, const int arg_c, char **argv,
-			argv_t **queue_list, int *queue_head_p,
+			argv_t ***queue_list, int *queue_head_p,
 			int *queue_tail_p, int *okay_bp)
 {
   argv_t	*grid_p, *match_p;
@@ -2541,8 +2584,9 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  if (queue_push(queue_list, queue_head_p, NULL) != NOERROR) {
+	    *okay_bp = ARGV_FALSE;
+	  }
 	}
 	continue;
       }
@@ -2708,7 +2752,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	  if (char_c == 0 && is_number(*arg_p)
 	      && *queue_head_p > *queue_tail_p) {
 	    
-	    match_p = queue_list[*queue_tail_p];
+	    match_p = (*queue_list)[*queue_tail_p];
 	    /*
 	     * NOTE: we don't advance the queue tail here unless we
 	     * find out that we can use it below
@@ -2751,7 +2795,7 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
     if (grid->ar_short_arg != ARGV_LAST && *queue_head_p > *queue_tail_p) {
       
       /* pull the variable waiting for a value from the queue */
-      match_p = queue_list[*queue_tail_p];
+      match_p = (*queue_list)[*queue_tail_p];
       (*queue_tail_p)++;
       
       /* HACK: is this the file argument */
@@ -3124,7 +3168,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   int		okay_b = ARGV_TRUE;
   argv_t	*arg_p;
   argv_t	**queue_list = NULL;
-  int		queue_head = 0, queue_tail = 0, env_n, total_arg_n;
+  int		queue_head = 0, queue_tail = 0, env_n;
   
   if (args == NULL) {
     args = empty;
@@ -3186,22 +3230,10 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
 
   /* preprocess environmental args */
   env_vect_p = preprocess_env_args(&environ_p, &env_n);
-  total_arg_n = arg_n + env_n;
 
-  /* allocate our value queue */
-  if (total_arg_n > 0) {
-    /* allocate our argument queue */
-    queue_list = (argv_t **)malloc(sizeof(argv_t *) * total_arg_n);
-    if (queue_list == NULL) {
-      return ERROR;
-    }
-    queue_head = 0;
-    queue_tail = 0;
-  }
-  
   /* do the env args before? */
   if (argv_process_env_b && (! argv_env_after_b) && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3209,12 +3241,12 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* do the external args */
-  do_list(args, arg_n - 1, argv + 1, queue_list, &queue_head, &queue_tail,
+  do_list(args, arg_n - 1, argv + 1, &queue_list, &queue_head, &queue_tail,
 	  &okay_b);
   
   /* DO the env args after? */
   if (argv_process_env_b && argv_env_after_b && env_vect_p != NULL) {
-    do_list(args, env_n, env_vect_p, queue_list, &queue_head, &queue_tail,
+    do_list(args, env_n, env_vect_p, &queue_list, &queue_head, &queue_tail,
 	    &okay_b);
     free(env_vect_p);
     free(environ_p);
@@ -3233,9 +3265,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
   }
   
   /* if we allocated the space then free it */
-  if (arg_n > 0) {
-    free(queue_list);
-  }
+  free(queue_list);
   
   /* was there an error? */
   if (! okay_b) {
-- 
2.43.0


From 9f4f980bd633da7c056f5b0217d0c1bb61ea6903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 26/28] fix: argv: do not dereference NULL if a number follows
 the file argument

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 1efaa57..9a8109a 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2750,7 +2750,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && (*queue_list)[*queue_tail_p] != NULL) {
 	    
 	    match_p = (*queue_list)[*queue_tail_p];
 	    /*
-- 
2.43.0


From 849223254d07eb29729051df99193f575bea01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:36 +0000
Subject: [PATCH 27/28] fix: iothr: make the first open attempt right away

The time of the last attempt started at 0 and was compared with the
monotonic clock, so within reopen_interval seconds of system startup no
attempt to open the writer was made, and entries were discarded.
---
 fstrm/iothr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 84b68c4..25ad533 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -83,6 +83,9 @@ struct fstrm_iothr {
 	/* Last time the writer's 'open' method was called. */
 	time_t				last_open_attempt;
 
+	/* Whether an attempt to open 'writer' has been made yet. */
+	bool				open_attempted;
+
 	/* Allocated array of input queues, size opt.num_input_queues. */
 	struct fstrm_iothr_queue	*queues;
 
@@ -581,10 +584,11 @@ fstrm__iothr_maybe_open(struct fstrm_iothr *iothr)
 	my_gettime(-1, &ts);
 #endif
 	since = ts.tv_sec - iothr->last_open_attempt;
-	if (since < (time_t) iothr->opt.reopen_interval)
+	if (iothr->open_attempted && since < (time_t) iothr->opt.reopen_interval)
 		return;
 
 	/* Attempt to open the transport. */
+	iothr->open_attempted = true;
 	iothr->last_open_attempt = ts.tv_sec;
 	if (fstrm__iothr_open(iothr) != fstrm_res_success)
 		return;
-- 
2.43.0


From fc3bcbf304fb632bcb0df723c0b38807f1f68826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 28/28] fix: refuse empty and negative TCP ports

An empty port was taken as port 0, and strtoul() wraps negative numbers, so
that e.g. -18446744073709551536 was taken as port 80.
---
 fstrm/tcp_writer.c  | 7 +++++++
 src/fstrm_capture.c | 8 ++++++++
 src/fstrm_replay.c  | 5 +++++
 3 files changed, 20 insertions(+)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index aaad9b9..8d61907 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -222,6 +222,13 @@ fstrm__tcp_writer_fill_socket_port(struct fstrm__tcp_writer *w,
 		return fstrm_res_failure;
 	}
 
+	/* strtoul() also accepts empty strings and wraps negative numbers. */
+	if (endptr == twopt->socket_port ||
+	    strchr(twopt->socket_port, '-') != NULL)
+	{
+		return fstrm_res_failure;
+	}
+
 	if (w->ss.ss_family == AF_INET) {
 		struct sockaddr_in *sai = (struct sockaddr_in *) &w->ss;
 		sai->sin_port = htons(port);
diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 9fa707b..c863649 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -411,6 +411,14 @@ open_read_tcp(struct capture *ctx)
 		return false;
 	}
 
+	/* strtoul() also accepts empty strings and wraps negative numbers. */
+	if (endptr == ctx->args->str_read_tcp_port ||
+	    strchr(ctx->args->str_read_tcp_port, '-') != NULL)
+	{
+		usage("Failed to parse TCP listen port");
+		return false;
+	}
+
 	if (inet_pton(AF_INET, ctx->args->str_read_tcp_address, &sai->sin_addr) == 1) {
 		sai->sin_family = AF_INET;
 		sai->sin_port = htons(port);
diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 20ab772..243b768 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -170,6 +170,11 @@ init_writer(void)
 	        if (*endptr != '\0' || port > UINT16_MAX)
 	                usage("Failed to parse TCP listen port");
 
+		/* strtoul() also accepts empty strings and wraps negative numbers. */
+		if (endptr == g_program_args.tcp_port ||
+		    strchr(g_program_args.tcp_port, '-') != NULL)
+			usage("Failed to parse TCP listen port");
+
 		/* Parse TCP listen address. */
 		if ((inet_pton(AF_INET, g_program_args.tcp_address, &sin) != 1) &&
 		    (inet_pton(AF_INET6, g_program_args.tcp_address, &sin6) != 1))
-- 
2.43.0

