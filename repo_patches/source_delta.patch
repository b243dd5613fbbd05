From 011d775251aacbd4bd986a4105eed00a652ed8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 01/14] fix: buffer capacity alignment truncated to 32 bits

The alignment mask was computed on an unsigned int, so a request of 4 GiB or
more was cut down to its low 32 bits and the caller then wrote past the end
of the allocated data. Sizes close to SIZE_MAX wrapped to 0.
---
 src/pomp_buffer.c | 2 ++
 src/pomp_buffer.h | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 028e537..c6b0f9b 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -397,6 +397,8 @@ int pomp_buffer_ensure_capacity(struct pomp_buffer *buf, size_t capacity)
 
 	/* Resize internal data if needed */
 	if (capacity > buf->capacity) {
+		if (capacity > SIZE_MAX - (POMP_BUFFER_ALLOC_STEP - 1))
+			return -ENOMEM;
 		capacity = POMP_BUFFER_ALIGN_ALLOC_SIZE(capacity);
 		return pomp_buffer_set_capacity(buf, capacity);
 	}
diff --git a/src/pomp_buffer.h b/src/pomp_buffer.h
index b2d55be..8e9025a 100644
--- a/src/pomp_buffer.h
+++ b/src/pomp_buffer.h
@@ -48,7 +48,8 @@
 
 /** Align size up to next allocation step */
 #define POMP_BUFFER_ALIGN_ALLOC_SIZE(_x) \
-	(((_x) + POMP_BUFFER_ALLOC_STEP - 1) & (~(POMP_BUFFER_ALLOC_STEP - 1)))
+	(((size_t)(_x) + POMP_BUFFER_ALLOC_STEP - 1) & \
+	(~((size_t)POMP_BUFFER_ALLOC_STEP - 1)))
 
 /** Maximum number of file descriptor that can be put in a buffer */
 #define POMP_BUFFER_MAX_FD_COUNT	4
-- 
2.43.0


From 171b6d80bb12df5ca2115d0874c6800b503a7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 02/14] fix: dangling data pointer after setting buffer
 capacity to 0

realloc(ptr, 0) frees the data and returns NULL, which was reported as
-ENOMEM while the buffer kept the freed pointer and its old capacity.
---
 src/pomp_buffer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index c6b0f9b..ca5f212 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -294,6 +294,15 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
 	POMP_RETURN_ERR_IF_FAILED(capacity >= buf->len, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 
+	/* Release internal data if nothing needs to be stored, the result of
+	 * realloc with a null size can not be told apart from an error */
+	if (capacity == 0) {
+		free(buf->data);
+		buf->data = NULL;
+		buf->capacity = 0;
+		return 0;
+	}
+
 	/* Resize internal data */
 	data = realloc(buf->data, capacity);
 	if (data == NULL)
-- 
2.43.0


From 98cb87af5747632a41a12bacbef60ec139469c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:29 +0000
Subject: [PATCH 03/14] fix: buffer bounds checks wrapping around SIZE_MAX

'*pos + n' was allowed to wrap, in which case the check passed and data was
read or written out of the bounds of the buffer.
---
 src/pomp_buffer.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index ca5f212..48f4b74 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -52,7 +52,8 @@ int pomp_buffer_get_fd(const struct pomp_buffer *buf, size_t off)
 {
 	int32_t v = 0;
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
-	POMP_RETURN_ERR_IF_FAILED(off + sizeof(v) <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(off <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(sizeof(v) <= buf->len - off, -EINVAL);
 
 	/* Read value, don't care about byte order, it can only be used with
 	 * local unix sockets */
@@ -76,7 +77,8 @@ int pomp_buffer_register_fd(struct pomp_buffer *buf, size_t off, int fd)
 	int32_t v = 0;
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
-	POMP_RETURN_ERR_IF_FAILED(off + sizeof(v) <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(off <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(sizeof(v) <= buf->len - off, -EINVAL);
 
 	/* Make sure there isn't too many fds already put in buffer */
 	if (buf->fdcount >= POMP_BUFFER_MAX_FD_COUNT) {
@@ -426,6 +428,7 @@ int pomp_buffer_write(struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(pos != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
+	POMP_RETURN_ERR_IF_FAILED(n <= SIZE_MAX - *pos, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
 	res = pomp_buffer_ensure_capacity(buf, *pos + n);
@@ -510,7 +513,8 @@ int pomp_buffer_read(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len - *pos, -EINVAL);
 
 	/* Copy data */
 	memcpy(p, buf->data + *pos, n);
@@ -529,7 +533,8 @@ int pomp_buffer_cread(const struct pomp_buffer *buf, size_t *pos,
 	POMP_RETURN_ERR_IF_FAILED(p != NULL, -EINVAL);
 
 	/* Make sure there is enough room in data buffer */
-	POMP_RETURN_ERR_IF_FAILED(*pos + n <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(*pos <= buf->len, -EINVAL);
+	POMP_RETURN_ERR_IF_FAILED(n <= buf->len - *pos, -EINVAL);
 
 	/* Simply set start of data */
 	*p = buf->data + *pos;
-- 
2.43.0


From 47afc7499a7af1a149af007431e2c0a2410e7cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:52 +0000
Subject: [PATCH 04/14] fix: position and length advanced by a failed file
 descriptor write

When the fd could not be duplicated or the buffer already holds the maximum
number of fds, the position passed by the caller was nevertheless updated and
4 dummy bytes were left in the buffer.
---
 src/pomp_buffer.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index 48f4b74..d8ac3ce 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -474,11 +474,11 @@ int pomp_buffer_write_fd(struct pomp_buffer *buf, size_t *pos, int fd)
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
 	POMP_RETURN_ERR_IF_FAILED(fd >= 0, -EINVAL);
 
-	/* Remember position at which fd will be written, write a dummy value */
-	off = *pos;
-	res = pomp_buffer_write(buf, pos, &dummy, sizeof(dummy));
-	if (res < 0)
-		goto error;
+	/* Make sure there isn't too many fds already put in buffer */
+	if (buf->fdcount >= POMP_BUFFER_MAX_FD_COUNT) {
+		POMP_LOGE("Too many file descriptors put in buffer");
+		return -ENFILE;
+	}
 
 	/* Duplicate file descriptor */
 	dupfd = dup(fd);
@@ -488,6 +488,12 @@ int pomp_buffer_write_fd(struct pomp_buffer *buf, size_t *pos, int fd)
 		goto error;
 	}
 
+	/* Remember position at which fd will be written, write a dummy value */
+	off = *pos;
+	res = pomp_buffer_write(buf, pos, &dummy, sizeof(dummy));
+	if (res < 0)
+		goto error;
+
 	/* Register fd in buffer */
 	res = pomp_buffer_register_fd(buf, off, dupfd);
 	if (res < 0)
-- 
2.43.0


From 77cf74d2e5868c7acb755f6e925119ee21ce5d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:53 +0000
Subject: [PATCH 05/14] fix: file descriptors leaked when a buffer is truncated

pomp_buffer_clear only closes the descriptors whose slot lies in the used
length, those put after a shorter length set with pomp_buffer_set_len were
never closed (and with new data written over the slot, an unrelated descriptor
was closed).
---
 src/pomp_buffer.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/pomp_buffer.c b/src/pomp_buffer.c
index d8ac3ce..0dd9d34 100644
--- a/src/pomp_buffer.c
+++ b/src/pomp_buffer.c
@@ -319,9 +319,28 @@ int pomp_buffer_set_capacity(struct pomp_buffer *buf, size_t capacity)
  */
 int pomp_buffer_set_len(struct pomp_buffer *buf, size_t len)
 {
+	uint32_t i = 0, count = 0;
+	size_t off = 0;
+	int fd = 0;
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(len <= buf->capacity, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf->refcount <= 1, -EPERM);
+
+	/* Release file descriptors that are no more in the used length */
+	for (i = 0; i < buf->fdcount; i++) {
+		off = buf->fdoffs[i];
+		if (off <= len && sizeof(int32_t) <= len - off) {
+			buf->fdoffs[count++] = off;
+			continue;
+		}
+		fd = pomp_buffer_get_fd(buf, off);
+		if (fd >= 0 && close(fd) < 0)
+			POMP_LOG_FD_ERRNO("close", fd);
+	}
+	for (i = count; i < buf->fdcount; i++)
+		buf->fdoffs[i] = 0;
+	buf->fdcount = count;
+
 	buf->len = len;
 	return 0;
 }
-- 
2.43.0


From fe790e16a90eec74aef9f94bb22c5065dc8d1926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:09 +0000
Subject: [PATCH 06/14] fix: undefined shift when decoding an overlong varint

A varint received with more than 10 bytes made the decoder shift a 64-bit value
by 64 or more.
---
 src/pomp_decoder.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index e9039f0..8237cc7 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -160,6 +160,11 @@ static int decoder_read_varint(struct pomp_decoder *dec, uint8_t type,
 	/* Decode value */
 	*v = 0;
 	do {
+		/* Value does not fit in 64 bits */
+		if (shift >= 64) {
+			POMP_LOGW("decoder : invalid varint");
+			return -EINVAL;
+		}
 		res = pomp_buffer_readb(dec->msg->buf, &dec->pos, &b);
 		if (res < 0)
 			return res;
-- 
2.43.0


From beb298c42450c3d3e56ddee61baf440dcd34186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:09 +0000
Subject: [PATCH 07/14] fix: string silently truncated in allocated message
 dump

The room asked for a string did not count its two quotes, the end of the dump
was lost when the buffer was exactly 1 or 2 bytes too small.
---
 src/pomp_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 8237cc7..7277c50 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -598,7 +598,7 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 		break;
 
 	case POMP_PROT_DATA_TYPE_STR:
-		res = dump_append(ctx, 6 + (uint32_t)strlen(v->cstr),
+		res = dump_append(ctx, 8 + (uint32_t)strlen(v->cstr),
 				", STR:'%s'", v->cstr);
 		break;
 
-- 
2.43.0


From d5fbc7590e1d7edd14f13d05af1481841318cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:09 +0000
Subject: [PATCH 08/14] fix: allocation failure ignored during message dump

pomp_msg_adump returned success with the arguments missing when the
destination could not be resized.
---
 src/pomp_decoder.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pomp_decoder.c b/src/pomp_decoder.c
index 7277c50..e093b56 100644
--- a/src/pomp_decoder.c
+++ b/src/pomp_decoder.c
@@ -464,6 +464,7 @@ struct pomp_decoder_dump_ctx {
 	uint32_t	maxdst;	/**< Max length of destination */
 	uint32_t	pos;	/**< Current position in destination */
 	int		grow;	/**< Automatically grow destination */
+	int		error;	/**< Error during append (negative errno) */
 };
 
 /**
@@ -628,6 +629,10 @@ static int decoder_dump_cb(struct pomp_decoder *dec, uint8_t type,
 	}
 
 out:
+	/* Remember error, the walk is only told to stop */
+	if (res < 0)
+		ctx->error = res;
+
 	/* Continue if no errors and destination not full */
 	return res == 0 && (ctx->pos < ctx->maxdst || ctx->grow);
 }
@@ -650,6 +655,8 @@ static int decoder_dump(struct pomp_decoder *dec,
 
 	/* Arguments */
 	res = pomp_decoder_walk(dec, &decoder_dump_cb, ctx, 1);
+	if (res == 0)
+		res = ctx->error;
 	if (res < 0)
 		goto out;
 
-- 
2.43.0


From 647dbdb0c6a1c8882e1ebf22a6b9896f0de06584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:13 +0000
Subject: [PATCH 09/14] fix: out of bounds accesses with buffer arguments given
 as strings

The hexadecimal string was not checked against the given length: a string too
short was read past its end, a null length wrote in an empty allocation and a
string with an odd number of digits was converted to wrong bytes.
---
 src/pomp_encoder.c | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/pomp_encoder.c b/src/pomp_encoder.c
index ee87eef..3ea14c0 100644
--- a/src/pomp_encoder.c
+++ b/src/pomp_encoder.c
@@ -209,19 +209,29 @@ static int encoder_write_size_u32(struct pomp_encoder *enc, uint32_t n)
  * @param decodepos : string to decode.
  * @param len : len in bytes of the resulting string.
  * @param out : allocated output buffer.
+ * @return 0 in case of success, negative errno value in case of error.
  */
 static int parse_buffer_argv(const char *decodepos, uint32_t len, void *out)
 {
 	uint32_t i = 0;
-	/* first byte should be padded with 0 if len is odd */
-	if (strlen(decodepos) % 2 == 1)
-		sscanf(decodepos, "%hhx", &(((uint8_t *)out)[0]));
-	else
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[0]));
-	decodepos += 2;
-	for (i = 1; i < len; i++) {
-		sscanf(decodepos, "%2hhx", &(((uint8_t *)out)[i]));
-		decodepos += 2;
+	size_t slen = strlen(decodepos);
+	uint8_t *dst = out;
+
+	/* Make sure there is enough digits for the given length */
+	if (slen / 2 + slen % 2 < len) {
+		POMP_LOGW("encoder : buffer argument too short");
+		return -EINVAL;
+	}
+
+	for (i = 0; i < len; i++) {
+		/* first byte should be padded with 0 if len is odd */
+		int width = (i == 0 && slen % 2 == 1) ? 1 : 2;
+		if (sscanf(decodepos, width == 1 ? "%1hhx" : "%2hhx",
+				&dst[i]) != 1) {
+			POMP_LOGW("encoder : invalid buffer argument");
+			return -EINVAL;
+		}
+		decodepos += width;
 	}
 	return 0;
 }
@@ -377,6 +387,13 @@ again:
 				} else {
 					int argbufferpos = argidx;
 					const char *decodepos;
+					if (argidx >= argc
+							|| argv[argidx] == NULL) {
+						res = -EINVAL;
+						/* codecheck_ignore[LONG_LINE] */
+						POMP_LOGW("Missing buf argument");
+						goto out;
+					}
 					/*go to next argument to get size*/
 					argidx++;
 					/* codecheck_ignore[LONG_LINE] */
@@ -390,9 +407,10 @@ again:
 					}
 					decodepos = argv[argbufferpos];
 					/* codecheck_ignore[LONG_LINE] */
-					parse_buffer_argv(decodepos, len, v.buf);
+					res = parse_buffer_argv(decodepos, len, v.buf);
 					/* codecheck_ignore[LONG_LINE] */
-					res = pomp_encoder_write_buf(enc, v.buf, len);
+					if (res == 0)
+						res = pomp_encoder_write_buf(enc, v.buf, len);
 					free(v.buf);
 				}
 			} else if (*fmt++ != '%' || *fmt++ != 'u') {
-- 
2.43.0


From 41723689391f13c2e6c96939dab9319010fae347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:13 +0000
Subject: [PATCH 10/14] fix: protocol decoder stuck after a failed message
 allocation

When the memory for a message could not be allocated, the internal message kept
its empty buffer and all next headers were refused with -EPERM: no message was
ever decoded again.
---
 src/pomp_prot.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 4e891ba..ac8580d 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -103,7 +103,13 @@ static int pomp_prot_alloc_msg(struct pomp_prot *prot, uint32_t msgid,
 	res = pomp_msg_init(prot->msg, msgid);
 	if (res < 0)
 		return res;
-	return pomp_buffer_ensure_capacity(prot->msg->buf, size);
+
+	/* In case of error, the message shall not keep its buffer otherwise it
+	 * could not be initialized again for next header */
+	res = pomp_buffer_ensure_capacity(prot->msg->buf, size);
+	if (res < 0)
+		(void)pomp_msg_clear(prot->msg);
+	return res;
 }
 
 /**
-- 
2.43.0


From f106c9c7e22729836de05c815e387fc349efbdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:13 +0000
Subject: [PATCH 11/14] fix: decoded message not set to NULL when more data is
 required

---
 src/pomp_prot.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index ac8580d..359650c 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -299,6 +299,7 @@ int pomp_prot_decode_msg(struct pomp_prot *prot, const void *buf,
 	POMP_RETURN_ERR_IF_FAILED(prot != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(buf != NULL, -EINVAL);
 	POMP_RETURN_ERR_IF_FAILED(msg != NULL, -EINVAL);
+	*msg = NULL;
 
 	/* If idle, start a new parsing */
 	if (prot->state == POMP_PROT_STATE_IDLE)
-- 
2.43.0


From acafb2a44615352630baaf253cd3ecf571318bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:13 +0000
Subject: [PATCH 12/14] fix: message lost when preceded by a partial magic

A byte not matching the magic was always dropped, even when it was the first
byte of the real header ('P' or 'PO' followed by a complete message).
The message was then skipped.
---
 src/pomp_prot.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pomp_prot.c b/src/pomp_prot.c
index 359650c..7b7cb99 100644
--- a/src/pomp_prot.c
+++ b/src/pomp_prot.c
@@ -126,6 +126,13 @@ static void pomp_prot_check_magic(struct pomp_prot *prot, int idx, int val,
 		POMP_LOGW("Bad header magic %d : 0x%02x(0x%02x)",
 			idx, prot->headerbuf[idx], val);
 		prot->state = POMP_PROT_STATE_HEADER_MAGIC_0;
+
+		/* The mismatching byte can be the start of the next header */
+		if (prot->headerbuf[idx] == POMP_PROT_HEADER_MAGIC_0) {
+			prot->headerbuf[0] = POMP_PROT_HEADER_MAGIC_0;
+			prot->offheader = 1;
+			prot->state = POMP_PROT_STATE_HEADER_MAGIC_1;
+		}
 	} else {
 		prot->state = state;
 	}
-- 
2.43.0


From 2c88a294236f2e5135cbc46687d5710f8232dc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:35 +0000
Subject: [PATCH 13/14] fix: out of bounds read when formatting a full length
 unix address

sun_path is not null terminated when the path takes all of it.
---
 src/pomp_addr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pomp_addr.c b/src/pomp_addr.c
index 2008ca8..ab45967 100644
--- a/src/pomp_addr.c
+++ b/src/pomp_addr.c
@@ -182,10 +182,15 @@ int pomp_addr_format(char *buf, uint32_t buflen, const struct sockaddr *addr,
 		POMP_RETURN_ERR_IF_FAILED(addrlen >= sizeof(struct sockaddr_un),
 				-EINVAL);
 		addr_un = (const struct sockaddr_un *)addr;
+		/* The path is not null terminated if it fills the array */
 		if (addr_un->sun_path[0] == '\0')
-			snprintf(buf, buflen, "unix:@%s", addr_un->sun_path+1);
+			snprintf(buf, buflen, "unix:@%.*s",
+					(int)sizeof(addr_un->sun_path) - 1,
+					addr_un->sun_path+1);
 		else
-			snprintf(buf, buflen, "unix:%s", addr_un->sun_path);
+			snprintf(buf, buflen, "unix:%.*s",
+					(int)sizeof(addr_un->sun_path),
+					addr_un->sun_path);
 		break;
 
 	default:
-- 
2.43.0


From 16cc11614fc7df12f4319f919a0cdfb7cabdad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:35 +0000
Subject: [PATCH 14/14] fix: invalid timespec given to watchdog wait

When the nanoseconds add up to exactly one second, the timespec is not valid
and pthread_cond_timedwait returns immediately with EINVAL: the watchdog thread
was spinning until the end of the monitored section.
---
 src/pomp_watchdog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pomp_watchdog.c b/src/pomp_watchdog.c
index 6c054df..7c05f12 100644
--- a/src/pomp_watchdog.c
+++ b/src/pomp_watchdog.c
@@ -54,8 +54,8 @@ static void get_absolute_timeout(uint32_t delay, struct timespec *timeout)
 
 	timeout->tv_sec += delay / 1000;
 	timeout->tv_nsec += (delay % 1000) * 1000000;
-	while (timeout->tv_nsec > 1000000000) {
-		/* over one billion nsec, add 1 sec */
+	while (timeout->tv_nsec >= 1000000000) {
+		/* one billion nsec or more, add 1 sec */
 		timeout->tv_sec++;
 		timeout->tv_nsec -= 1000000000;
 	}
-- 
2.43.0

