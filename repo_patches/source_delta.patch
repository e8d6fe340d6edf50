From 2ee98f2960a4ad399c4674ef25151de7868f05aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 01/39] fix: integer_rounddown_pow_of_two returned 0 for
 arguments above 2^31

---
 src/data/integer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/integer.c b/src/data/integer.c
index 44a3815..18c4daa 100644
--- a/src/data/integer.c
+++ b/src/data/integer.c
@@ -32,6 +32,11 @@ uint32_t integer_rounddown_pow_of_two(uint32_t i)
 	{
 		return 0;
 	}
+	if (i > 0x80000000U)
+	{
+		// roundup does not fit in 32 bits, but the highest power of two does.
+		return 0x80000000U;
+	}
 	uint32_t roundup_integer = integer_roundup_pow_of_two(i);
 	if (roundup_integer == i)
 	{
-- 
2.43.0


From 6ddbf706c846f6c8b471c476bbccccdbaa69707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 02/39] fix: lcu_base64_encode rejected one-byte input

---
 src/data/base64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/base64.c b/src/data/base64.c
index 2d7b613..40c06bd 100644
--- a/src/data/base64.c
+++ b/src/data/base64.c
@@ -24,13 +24,13 @@ int lcu_base64_encode(char* out_buf_encoded, const char* src_buf_plain, const si
 {
 	size_t i;
 	char* p;
-    if (src_buf_len < 2)
+    if (src_buf_len < 1)
     {
         return -1;
     }
 
 	p = out_buf_encoded;
-	for (i = 0; i < src_buf_len - 2; i += 3)
+	for (i = 0; i + 2 < src_buf_len; i += 3)
 	{
 		*p++ = basis_64[(src_buf_plain[i] >> 2) & 0x3F];
 		*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |
-- 
2.43.0


From a17448f9655f61778eda991c8867a5a7e7364ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 03/39] fix: strnutf8len read one byte beyond max_count before
 checking the limit

---
 src/mem/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..82cfa34 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -187,7 +187,7 @@ size_t strnutf8len(const char* utf8str, size_t max_count)
 {
 	size_t code_points = 0;
 	size_t chars_count = 0;
-	while (*utf8str && chars_count < max_count) 
+	while (chars_count < max_count && *utf8str) 
 	{
 		code_points += ((*utf8str & 0xC0) != 0x80);
 		++utf8str;
-- 
2.43.0


From 1aedb8a88d9969d8913e12a77278afa0d40a59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 04/39] fix: str_char2hex wrote beyond the output buffer when
 truncating and cut the last digit of an exact fit

---
 src/mem/strings.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 82cfa34..3cb9dda 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -201,17 +201,27 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 {
 #define ONE_HEX_STR_SIZE (3U)
 	size_t len_hex_str = 0U;
+	if (out_hex_str_capacity == 0U)
+	{
+		return 0U;
+	}
 	out_hex_str[0] = '\0';
 
 	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
-		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
+		int ret_head = snprintf(out_hex_str, out_hex_str_capacity, "hex truncated(%zu):", chars_count);
+		len_hex_str = (ret_head < 0) ? 0U : (size_t)ret_head;
+		if (len_hex_str >= out_hex_str_capacity)
+		{
+			len_hex_str = out_hex_str_capacity - 1U; // the mark itself was cut.
+		}
+		// only the bytes that fit behind the mark.
+		chars_count = (out_hex_str_capacity - 1U - len_hex_str) / ONE_HEX_STR_SIZE;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From 38578d436e7dc7a573c01bcb20acb9c2dd26f85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:37 +0000
Subject: [PATCH 05/39] fix: strreplace looped forever on an empty pattern

---
 src/mem/strings.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 3cb9dda..a840396 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -114,7 +114,8 @@ char* strreplace(char const* const original,
 	const char* patloc;
 
 	// find how many times the pattern occurs in the original string
-	for (oriptr = original; NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+	// (an empty pattern never occurs, otherwise the search would not advance)
+	for (oriptr = original; patlen && NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 	{
 		++patcnt;
 	}
@@ -129,7 +130,7 @@ char* strreplace(char const* const original,
 		// copy the original string, 
 		// replacing all the instances of the pattern
 		char* retptr = returned;
-		for (oriptr = original; (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
+		for (oriptr = original; patlen && (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 		{
 			size_t const skplen = patloc - oriptr;
 			// copy the section until the occurrence of the pattern
-- 
2.43.0


From 33c61aae877aa370a61ac1f2796e78c539573b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:11 +0000
Subject: [PATCH 06/39] fix: stringbuilder_appendnstr read beyond the string
 when len exceeds its length

---
 src/mem/stringbuilder.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..f922e6e 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -111,10 +111,8 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		return -1;
 	}
-	if (len == 0)
-	{
-		len = strlen(str);
-	}
+	// len never exceeds the real length of the string.
+	len = (len == 0) ? strlen(str) : strnlen(str, len);
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From 9fca069750beb400205df970cf16aff4724cf42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 07/39] fix: stringbuilder_appendf took a formatting error for
 a huge length

---
 src/mem/stringbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index f922e6e..caaf5be 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -138,12 +138,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	int format_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (format_len < 1)
 	{
 		return -2;
 	}
+	size_t len = (size_t)format_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From 19305a93c349ae18c1888be3eec188fcf203e053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 08/39] fix: RingBuffer_create_with_mem made a ring of capacity
 0 from more than 2GB memory

---
 src/ring/ringbuffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 17debbc..84c1e07 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -44,7 +44,7 @@ static inline uint32_t pri_roundup_pow_of_two(uint32_t x)
 	{
 		counter++;
 	}
-	return (uint32_t)(2 << counter);
+	return (uint32_t)(2U << counter); // 0 if it exceeds 32bit
 }
 
 struct __ring_buffer_t
@@ -75,7 +75,8 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 	if (!pri_is_power_of_2(ring_buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, ring_buf_size);
-		ring_buf_size = (pri_roundup_pow_of_two(ring_buf_size) >> 1);
+		const uint32_t roundup_size = pri_roundup_pow_of_two(ring_buf_size);
+		ring_buf_size = roundup_size ? (roundup_size >> 1) : 0x80000000U;
 		RING_LOGW("%s changed buf_size to %u ", __func__, ring_buf_size);
 	}
 	ring_buffer_handle ring_buffer_p = (ring_buffer_handle)buf;
-- 
2.43.0


From cd72f2cf61186291203f2afb25eb4b3d9b6ca602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 09/39] fix: msg_queue_pop did not report the size of the
 popped message

---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..9e0887b 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size; // tell caller the real size of the popped msg
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From a4ad99eed9f53d576941875d5fd67541002c6224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 10/39] fix: msg_queue_destroy dereferenced NULL when called
 twice

---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 9e0887b..76e6c04 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -120,7 +120,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !(*msg_queue_pp) || !((*msg_queue_pp)->ring_buf_p))
 	{
 		return;
 	}
-- 
2.43.0


From 6e4b8e11c45d4f2a898d1d749fd8096045dc9cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:25 +0000
Subject: [PATCH 11/39] fix: auto_cover_buf_read aborted for a request of 2GB
 or more instead of reporting not enough data

---
 src/ring/autocover_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index e468983..fe925e4 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -100,7 +100,7 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	}
 	ASSERT_ABORT(real_can_read_len <= (int)ring_available_data);
 
-	if (target && real_can_read_len >= (int)request_read_len)
+	if (target && real_can_read_len >= 0 && (uint32_t)real_can_read_len >= request_read_len)
 	{
 		//perform discard
 		const uint32_t should_discard_len = ring_available_data - real_can_read_len;
@@ -135,7 +135,7 @@ int auto_cover_buf_read(__in const auto_cover_buf_handle buf_handle,
 		return available_read_data;
 	}
 	int real_read_len;
-	if (available_read_data < (int)req_read_len)
+	if ((uint32_t)available_read_data < req_read_len)
 	{
 		//error: not enough data, we NOT perform read operation.
 		real_read_len = AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH;
-- 
2.43.0


From ec66ed2e8f7518f59f7892eef79cb62658bf9f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:44 +0000
Subject: [PATCH 12/39] fix: array_new_with_init_capacity accepted sizes whose
 product overflows (storage smaller than the capacity)

---
 src/data/array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data/array.c b/src/data/array.c
index 7d3246b..29e63b2 100644
--- a/src/data/array.c
+++ b/src/data/array.c
@@ -49,6 +49,10 @@ array_t* array_new_with_init_capacity(size_t element_size, size_t init_capacity)
 	{
         init_capacity = 4;
 	}
+	if (element_size == 0 || init_capacity > (SIZE_MAX - sizeof(array_t)) / element_size)
+	{
+        return NULL;
+	}
 	array_t* array = (array_t*)calloc(1, sizeof(array_t) + element_size * init_capacity);
     if (array == NULL)
     {
-- 
2.43.0


From 2eddbff5fae34852bddb037b4f28e67a8b42ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 13/39] fix: hashmap_foreach went on with the next bucket after
 the callback asked to stop

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..5214e00 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -368,12 +368,13 @@ void hashmap_clear(hashmap_t* map)
 
 void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 	size_t i;
+	bool keep_going = true;
 	if (!map)
 	{
 		return;
 	}
 	hashmap_enter(map);
-	for (i = 0; i < map->bucketCount; i++)
+	for (i = 0; keep_going && i < map->bucketCount; i++)
 	{
 		Entry* entry = map->buckets[i];
 		while (entry != NULL)
@@ -381,6 +382,7 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 			Entry* next = entry->next;
 			if (!callback(entry->key, entry->value, context))
 			{
+				keep_going = false;
 				break;
 			}
 			entry = next;
-- 
2.43.0


From 99384dc0828a60df7cad6b387258ab4370c39683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:07 +0000
Subject: [PATCH 14/39] fix: msg_queue_handler computed the buffer size for a
 message above 1GB in int, so it overflowed and the handler stopped

---
 src/ring/msg_queue_handler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue_handler.c b/src/ring/msg_queue_handler.c
index 9ccc864..25b56e1 100644
--- a/src/ring/msg_queue_handler.c
+++ b/src/ring/msg_queue_handler.c
@@ -27,7 +27,7 @@ static size_t pri_roundup_power2(size_t n)
 		{
 			++counter;
 		}
-		n = (2 << counter);
+		n = ((size_t)2 << counter);
 	}
 	return n;
 }
-- 
2.43.0


From 964cdec59a2e7ee3a9d3e0f9ff1eb57389238c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:49 +0000
Subject: [PATCH 15/39] fix: file_logger truncated the file it had just written
 when it rotated twice within one millisecond

---
 src/log/file_logger.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 78e2601..4cc263d 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -220,7 +220,8 @@ static int handle_log_queue_msg(queue_msg_t* msg_p, void* user_data)
 		path_buffer[MAX_FULL_PATH_SIZE - 1] = '\0';
 		snprintf(path_buffer, MAX_FULL_PATH_SIZE - 1, "%s%s%s.log", 
 			handle->cfg.log_folder_path, handle->cfg.log_file_name_prefix, cur_time);
-		handle->cur_fp = fopen(path_buffer, "wb");
+		// append: the name only has millisecond precision, the same file must not be truncated by a quick rotation
+		handle->cur_fp = fopen(path_buffer, "ab");
 		handle->cur_log_file_size_counter = 0U;
 	}
 	if (!handle->cur_fp)
-- 
2.43.0


From 16bea524f3b46b0656753cae8d5081fe70f85df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:50 +0000
Subject: [PATCH 16/39] fix: file_logger_log copied a text of 2GB or more
 beyond its message buffer

---
 src/log/file_logger.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/log/file_logger.c b/src/log/file_logger.c
index 4cc263d..54f2b8d 100644
--- a/src/log/file_logger.c
+++ b/src/log/file_logger.c
@@ -124,6 +124,11 @@ int file_logger_log(file_logger_handle handle, void* log_msg, size_t msg_size)
 #define MAX_RETRY_LOG_TIMES_IF_FAIL (2)
 	msg_q_code_e status = MSG_Q_CODE_BUF_NOT_ENOUGH;
 	int retry_counter = 0;
+
+	if (msg_size > (size_t)INT32_MAX - sizeof(queue_msg_t))
+	{
+		return (int)status; // the length of a queue message can not represent it
+	}
 	
 	FILE_LOGGER_LOCK(handle);
 	do
-- 
2.43.0


From e86890477df804ceb8dfb3ce2069f6302efa5aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:33 +0000
Subject: [PATCH 17/39] fix: mplite_freemem shifted a signed int into its sign
 bit

---
 src/mem/mplite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/mplite.c b/src/mem/mplite.c
index fb488c1..6206a7a 100644
--- a/src/mem/mplite.c
+++ b/src/mem/mplite.c
@@ -237,7 +237,7 @@ MPLITE_API int mplite_maxmem(mplite_t* handle)
 MPLITE_API int mplite_freemem(mplite_t* handle)
 {
 	int total;
-	int blocksize;
+	unsigned int blocksize;
 	int i;
 
 	if (NULL == handle) return 0;
-- 
2.43.0


From c2ac5a884b53164ea5feb4037af6132008b2ca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:34 +0000
Subject: [PATCH 18/39] fix: mplite_init looped forever for a minimum
 allocation above 1GB

---
 src/mem/mplite.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mem/mplite.c b/src/mem/mplite.c
index 6206a7a..db478f5 100644
--- a/src/mem/mplite.c
+++ b/src/mem/mplite.c
@@ -64,7 +64,8 @@ MPLITE_API int mplite_init(mplite_t* handle, const void* buf,
 
 	/* Check the parameters */
 	if ((NULL == handle) || (NULL == buf) ||
-		(buf_size <= 0) || (min_alloc <= 0))
+		(buf_size <= 0) || (min_alloc <= 0) ||
+		(min_alloc > MPLITE_MAX_ALLOC_SIZE))
 	{
 		return MPLITE_ERR_INVPAR;
 	}
-- 
2.43.0


From 2e567e0f66d0d385d9cbc1b6514deec33e7bbec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:39 +0000
Subject: [PATCH 19/39] fix: lcu_realloc lost the content of the block when
 allocations are not tracked

---
 src/mem/allocator.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..cc91749 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -146,6 +146,12 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (allocation_tracker_resize_for_canary(size) == size)
+	{
+		//not tracked: only the C allocator knows the size of ptr.
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0


From 8222bda73bb830ace1da27d9c88c2395307534ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:40 +0000
Subject: [PATCH 20/39] fix: lcu_calloc returned a too small block when count *
 size overflows

---
 src/mem/allocator.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index cc91749..cb6ddb0 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -107,6 +107,10 @@ void* lcu_malloc(size_t size)
 
 void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_path, const char* func_name, int file_line)
 {
+	if (item_size && item_count > (size_t)-1 / item_size)
+	{
+		return NULL;
+	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
 	void* ptr = calloc(1, real_size);
-- 
2.43.0


From 8977f3a0d36198396318a52c5998dfdf43a2d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:41 +0000
Subject: [PATCH 21/39] fix: lcu_malloc, lcu_calloc and lcu_realloc wrapped
 around for huge sizes and returned a too small block

---
 src/mem/allocator.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index cb6ddb0..67a7bd7 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -92,6 +92,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL;
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -113,6 +117,10 @@ void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_pat
 	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if (real_size < request_size)
+	{
+		return NULL;
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
@@ -144,6 +152,10 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return NULL;
 	}
 
+	if (size > (size_t)-1 - 2048U)
+	{
+		return NULL;
+	}
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
-- 
2.43.0


From 31e5ab2b54aedb6f1d32152ad613a2e9a25ebc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:41 +0000
Subject: [PATCH 22/39] fix: lcu_strndup read beyond len when the text is not
 terminated within it

---
 src/mem/allocator.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 67a7bd7..a3c6b57 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -62,11 +62,7 @@ char* lcu_strdup(const char* str)
 
 char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, const char* func_name, int file_line)
 {
-	size_t size = strlen(str);
-	if (len < size)
-	{
-		size = len;
-	}
+	size_t size = strnlen(str, len);
 	size_t real_size = allocation_tracker_resize_for_canary(size + 1);
 	void* ptr = malloc(real_size);
 	if (!ptr)
-- 
2.43.0


From 9804e1530e52a61e01dc5ac335ef74af6ef9e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:08 +0000
Subject: [PATCH 23/39] fix: second-to-date conversion is exact after 2038 and
 west of UTC on the first day

The count of seconds was cut to 32 bits, and the hour became negative for
instants before the local start of 1970-01-01.
---
 src/time/time_util.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index 0955a69..ef8a818 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -192,21 +192,21 @@ int time_util_fast_second2date(const time_t* p_unix_sec, struct tm* lt, int time
 	#define kDaysFromYear       (153)
 	#define kMagicUnkonwnFirst  (146097)
 	#define kMagicUnkonwnSec    (1461)
-	lt->tm_sec = (*p_unix_sec) % kMinutesInHour;
-	int minutes = ((int)(*p_unix_sec) / kMinutesInHour);
-	lt->tm_min = minutes % kMinutesInHour; //nn
-	int hours = minutes / kMinutesInHour + timezone_hour;
-	lt->tm_hour = hours % kHoursInDay; // hh
-	lt->tm_mday = hours / kHoursInDay;
-	int a = lt->tm_mday + kDaysFromUnixTime;
-	int b = (a * 4 + 3) / kMagicUnkonwnFirst;
-	int c = (-b * kMagicUnkonwnFirst) / 4 + a;
-	int d = ((c * 4 + 3) / kMagicUnkonwnSec);
-	int e = (-d * kMagicUnkonwnSec) / 4 + c;
-	int m = (5 * e + 2) / kDaysFromYear;
+	/* 64-bit: a 32-bit count of seconds ends in 2038. one day more, then less: hours is not negative west of UTC on the first day */
+	const int64_t minutes = (int64_t)(*p_unix_sec) / kMinutesInHour;
+	const int64_t hours = minutes / kMinutesInHour + timezone_hour + kHoursInDay;
+	lt->tm_sec = (int)((int64_t)(*p_unix_sec) % kMinutesInHour);
+	lt->tm_min = (int)(minutes % kMinutesInHour); //nn
+	lt->tm_hour = (int)(hours % kHoursInDay); // hh
+	const int64_t a = hours / kHoursInDay - 1 + kDaysFromUnixTime;
+	const int64_t b = (a * 4 + 3) / kMagicUnkonwnFirst;
+	const int64_t c = (-b * kMagicUnkonwnFirst) / 4 + a;
+	const int64_t d = ((c * 4 + 3) / kMagicUnkonwnSec);
+	const int e = (int)((-d * kMagicUnkonwnSec) / 4 + c);
+	const int m = (5 * e + 2) / kDaysFromYear;
 	lt->tm_mday = -(kDaysFromYear * m + 2) / 5 + e + 1;
 	lt->tm_mon = (-m / 10) * 12 + m + 2;
-	lt->tm_year = b * 100 + d - 6700 + (m / 10);
+	lt->tm_year = (int)(b * 100 + d - 6700 + (m / 10));
 	return 0;
 }
 
-- 
2.43.0


From 4e52ee1cc908f02550ed737eba61e45f6dcc26c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:16 +0000
Subject: [PATCH 24/39] fix: an empty time cache is not a hit for the first
 second of 1970

The zero-initialised cache matched second 0 in zone 0, and the four bytes
before the buffer were overwritten.
---
 src/time/time_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/time_util.c b/src/time/time_util.c
index ef8a818..03b7ec7 100644
--- a/src/time/time_util.c
+++ b/src/time/time_util.c
@@ -248,7 +248,7 @@ static inline int get_time_str(char str[TIME_STR_SIZE], struct timeval* tval_p,
 	{
 		time_cache_t* cache_p = &g_time_caches[GET_TIME_FORMAT_TYPE(time_format)];
 		TIME_UTIL_RD_LOCK(&cache_p->rw_lock); // lock rdlock
-		if (cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
+		if (cache_p->format_cache[0] && cache_p->timezone_hour == timezone_hour && cache_p->tval.tv_sec == tval_p->tv_sec)
 		{	// hit cache, just copy whole cached time string
 			ftime_len = (int)strlcpy(str, cache_p->format_cache, TIME_STR_SIZE);
 			bool update_millis = cache_p->tval.tv_usec != tval_p->tv_usec;
-- 
2.43.0


From fe1e63692941bd428bdd751637a7b0061bc73919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:44 +0000
Subject: [PATCH 25/39] fix: append the separator only where it fits instead of
 overwriting the last character of the path

---
 src/file/file_util.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 1f859e4..3e19dee 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -35,6 +35,10 @@ int file_util_append_slash_on_path_if_needed(__inout char* folder_path, __in con
 		return -1;
 	}
 	size_t path_len = strnlen(folder_path, folder_path_size);
+	if (path_len >= folder_path_size)
+	{
+		return -3; // not terminated
+	}
 	while (path_len > 0 && ' ' == folder_path[path_len - 1])
 	{
 		--path_len;
@@ -48,10 +52,12 @@ int file_util_append_slash_on_path_if_needed(__inout char* folder_path, __in con
 	{
 		return 0;
 	}
-	const size_t slash_location = (path_len + 1) < folder_path_size ?
-		path_len : (path_len - 1);
-	folder_path[slash_location] = slash_char;
-	folder_path[slash_location + 1] = '\0';
+	if (path_len + 1 >= folder_path_size)
+	{
+		return -3; // no room for the slash
+	}
+	folder_path[path_len] = slash_char;
+	folder_path[path_len + 1] = '\0';
 	return 0;
 }
 
-- 
2.43.0


From 0fe652b0e522081a07a319ee470dd0aa15118d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:44 +0000
Subject: [PATCH 26/39] fix: refuse a path of exactly MAX_FOLDER_PATH_LEN
 characters, which left no room for the terminator

---
 src/file/file_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 3e19dee..6198467 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -77,7 +77,7 @@ int file_util_mkdirs(__in const char* folder_path)
 	}
 	int ret;
 	size_t dir_path_len = strlen(folder_path);
-	if (dir_path_len > MAX_FOLDER_PATH_LEN)
+	if (dir_path_len >= MAX_FOLDER_PATH_LEN)
 	{
 		return -2; // dir too long
 	}
-- 
2.43.0


From d91bbac77a54450f6e3060ccd5b7962e3eaca4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:44 +0000
Subject: [PATCH 27/39] fix: refuse transfers whose byte count does not fit the
 int that reports it

---
 src/file/file_util.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 6198467..5a6c1ba 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -2,6 +2,7 @@
 #include "file/file_util.h"
 #include "mem/strings.h"
 #include <sys/stat.h>
+#include <limits.h>
 
 #ifdef _WIN32
 #include <io.h>
@@ -146,6 +147,10 @@ int file_util_write(__in int file_handle, __in void* buffer, __in size_t max_cha
 static int pri_internal_rw_file(int file_handle, void* buffer, size_t max_char_count, rw_func_t target_func)
 {
 	int cur_char_count = 0;
+	if (max_char_count > (size_t)INT_MAX)
+	{
+		return -1; // the count could not be returned
+	}
 	do
 	{
 		int once_op_size = (int)target_func(file_handle, (char*)buffer + cur_char_count, max_char_count - cur_char_count);
@@ -233,7 +238,7 @@ int file_util_read_all(__in const char* file_path, __out char** out_alloced_file
 	*out_file_byte_len = (int)file_size;
 	do
 	{
-		if (file_size < 1)
+		if (file_size < 1 || file_size > (long)INT_MAX)
 		{
 			ret = -3;
 			break;
-- 
2.43.0


From 29e115dc9c621ada2b94d0654056ac603730853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:44 +0000
Subject: [PATCH 28/39] fix: report a read error of file_util_read_txt instead
 of success

---
 src/file/file_util.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/file_util.c b/src/file/file_util.c
index 5a6c1ba..1b38f80 100644
--- a/src/file/file_util.c
+++ b/src/file/file_util.c
@@ -205,6 +205,10 @@ int file_util_read_txt(__in const char* file_path,
 			break;
 		}
 	}
+	if (0 == ret && ferror(fp))
+	{
+		ret = -2; // not every line was read
+	}
 	fclose(fp);
 	return ret;
 }
-- 
2.43.0


From 7e04e97404e5ff6043e595d867f7b7f13cdeeb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:37:14 +0000
Subject: [PATCH 29/39] fix: report a key without a value also after an earlier
 line in error

---
 src/file/ini_reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_reader.c b/src/file/ini_reader.c
index 634a4d3..9ae4bcd 100644
--- a/src/file/ini_reader.c
+++ b/src/file/ini_reader.c
@@ -220,7 +220,7 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, value) && !error)
                     error = lineno;
             }
-            else if (!error) {
+            else {
                 /* No '=' or ':' found on name[=:]value line */
 #if INI_ALLOW_NO_VALUE
                 *end = '\0';
@@ -228,7 +228,8 @@ int ini_reader_parse_stream(ini_reader reader, void* stream, ini_reader_handler
                 if (!HANDLER(user, section, name, NULL) && !error)
                     error = lineno;
 #else
-                error = lineno;
+                if (!error)
+                    error = lineno;
 #endif
             }
         }
-- 
2.43.0


From c2b143c47896a88e4eb3948cc661085e1e504d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 30/39] fix: forget the last used section when it is deleted

---
 src/file/ini_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 957cf5c..db09468 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -422,6 +422,10 @@ ini_parser_code_e ini_parser_delete_section(ini_parser_handle parser_p, const ch
 	{
 		return INI_PARSER_CODE_NOT_FOUND_SECTION_KEY;
 	}
+	if (parser_p->p_last_used_section == p_section)
+	{
+		parser_p->p_last_used_section = NULL;
+	}
 	list_free(p_section->plist_section);
 	return list_remove(parser_p->plist_sections, p_section) ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
-- 
2.43.0


From 5a5c6d1495dd81be728d88de3effd2c1e3a0a46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 31/39] fix: stop ini_parser_foreach in all sections when the
 handler asks to

---
 src/file/ini_parser.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index db09468..7aecc16 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -219,9 +219,8 @@ static bool iter_foreach_section(void* data, void* context)
 		return true; // just ignored empty section and continue
 	}
 
-	list_foreach(context_p->p_section_info->plist_section,
+	return NULL == list_foreach(context_p->p_section_info->plist_section,
 		iter_foreach_section_key_value, context_p);
-	return true;
 }
 
 ini_parser_code_e ini_parser_foreach(ini_parser_handle parser_p, ini_parser_handler handler, void* user)
-- 
2.43.0


From 1a32b023708d68458c73139fae6a7742ee1c8479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 32/39] fix: refuse a missing section and names or values that
 would be cut

---
 src/file/ini_parser.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 7aecc16..c9c298d 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -306,7 +306,7 @@ static key_value_t* iter_section_for_search_target_kv(list_t* section, const cha
 ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	const char* section, const char* key, const char* value)
 {
-	if (!parser_p || !key || '\0' == key[0])
+	if (!parser_p || !section || !key || '\0' == key[0])
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
@@ -316,6 +316,11 @@ ini_parser_code_e ini_parser_put_string(ini_parser_handle parser_p,
 	{
 		return INI_PARSER_CODE_INVALID_PARAM;
 	}
+	if (section_len >= SECTION_NAME_MAX_SIZE || key_len >= SECTION_NAME_MAX_SIZE
+		|| (value && strlen(value) >= INI_VALUE_STACK_SIZE))
+	{
+		return INI_PARSER_CODE_INVALID_PARAM; // would be cut and not be found again
+	}
 	section_info_t* target_section = search_target_section(parser_p, true, section, section_len);
 	if (!target_section)
 	{
-- 
2.43.0


From 5535dc175b18285a0360d65189d0c71f96673bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 33/39] fix: release the new section's list when the section
 cannot be added

---
 src/file/ini_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index c9c298d..6c15e54 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -278,6 +278,7 @@ static section_info_t* search_target_section(ini_parser_handle parser_p, bool au
 		strlcpy(target_section->section_name, section, sizeof(target_section->section_name));
 		if (false == list_append(parser_p->plist_sections, target_section))
 		{
+			list_free(target_section->plist_section);
 			allocator_my_free(target_section);
 			return NULL;
 		}
-- 
2.43.0


From 7cdd05b717496e52716ad298d0681d349360e1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 34/39] fix: report a dump that ran out of memory between
 entries

---
 src/file/ini_parser.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 6c15e54..2056aa4 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -467,10 +467,17 @@ static bool iter_section_for_dump(void* data, void* context)
 	{
 		return false; // error occurred on foreach last section, break chain.
 	}
-	stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name);
+	if (0 != (dump_ctx->ret_code = stringbuilder_appendf(dump_ctx->sb, "[%s]\r\n", (char*)p_section->section_name)))
+	{
+		return false;
+	}
 	list_foreach(p_section->plist_section, iter_key_value_for_dump, dump_ctx);
-	stringbuilder_appendstr(dump_ctx->sb, "\r\n");
-	return true;
+	if (0 != dump_ctx->ret_code)
+	{
+		return false;
+	}
+	dump_ctx->ret_code = stringbuilder_appendstr(dump_ctx->sb, "\r\n");
+	return 0 == dump_ctx->ret_code;
 }
 
 static stringbuilder_t* pri_dump_ini(ini_parser_handle parser_p)
-- 
2.43.0


From 8fa4aaccea29c9f9e9ae22177d8c489e4a839d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:37 +0000
Subject: [PATCH 35/39] fix: close the file when saving fails and report a
 failed write

---
 src/file/ini_parser.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/file/ini_parser.c b/src/file/ini_parser.c
index 2056aa4..6d5cd70 100644
--- a/src/file/ini_parser.c
+++ b/src/file/ini_parser.c
@@ -573,13 +573,14 @@ ini_parser_code_e ini_parser_save(ini_parser_handle parser_p, const char* file_p
 		{
 			free(ini_str);
 		}
+		fclose(fp);
 		return INI_PARSER_CODE_FAILED;
 	}
 	size_t ini_str_len = strlen(ini_str);
-	fwrite(ini_str, 1, ini_str_len, fp);
+	const bool is_written = (ini_str_len == fwrite(ini_str, 1, ini_str_len, fp)) && (0 == fflush(fp));
 	free(ini_str);
 	fclose(fp);
-	return INI_PARSER_CODE_SUCCEED;
+	return is_written ? INI_PARSER_CODE_SUCCEED : INI_PARSER_CODE_FAILED;
 }
 
 ini_parser_code_e ini_parser_has_section_key(ini_parser_handle parser_p, const char* section, const char* key)
-- 
2.43.0


From e96b7a2218d13d26dbb2f886441e17b4ff6056f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:52 +0000
Subject: [PATCH 36/39] fix: str_params_create_str leaks the key of a repeated
 entry and stores entries it had no memory for

---
 src/mem/str_params.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 0407bd2..d5ef257 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -129,7 +129,25 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 			value = strdup("");
 		}
 		/* we replaced a value */
+		if (!key || !value)
+		{
+			free(key);
+			free(value);
+			goto label_err_pair;
+		}
+		errno = 0;
 		old_val = hashmap_put(parms->map, key, value);
+		if (old_val)
+		{
+			/* the map keeps the key it already has */
+			free(key);
+		}
+		else if (errno == ENOMEM)
+		{
+			free(key);
+			free(value);
+			goto label_err_pair;
+		}
 		RELEASE_OWNERSHIP(value);
 		RELEASE_OWNERSHIP(old_val);
 		RELEASE_OWNERSHIP(key);
@@ -144,6 +162,8 @@ str_params_ptr str_params_create_str(const char* delimiter, const char* param_st
 	}
 	free(str);
 	return parms;
+label_err_pair:
+	free(str);
 label_err_strdup:
 	str_params_destroy(parms);
 label_err_create_str_parms:
-- 
2.43.0


From 9f0fd0b765b22e1ccc49b1712abed9556ac9050c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:52 +0000
Subject: [PATCH 37/39] fix: str_params_get_long/get_int report a number that
 does not fit instead of another one

---
 src/mem/str_params.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index d5ef257..07cfffb 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -6,6 +6,7 @@
 #include "mem/str_params.h"
 
 #include <errno.h>
+#include <limits.h>
 #include <stdint.h>
 #include "mem/strings.h"
 #include "data/hashmap.h"
@@ -289,11 +290,19 @@ int str_params_get_long(str_params_ptr params, const char* key, long* out_val)
 	{
 		return -ENOENT;
 	}
+	int saved_errno = errno;
+	errno = 0;
 	long val = strtol(value, &end, 0);
+	bool out_of_range = (errno == ERANGE);
+	errno = saved_errno;
 	if (*value == '\0' || *end != '\0')
 	{
 		return -EINVAL;
 	}
+	if (out_of_range)
+	{
+		return -ERANGE;
+	}
 	*out_val = val;
 	return 0;
 }
@@ -302,9 +311,13 @@ int str_params_get_int(str_params_ptr params, const char* key, int* out_val)
 {
 	long long_num;
 	int ret = str_params_get_long(params, key, &long_num);
+	if (ret == 0 && (long_num < INT_MIN || long_num > INT_MAX))
+	{
+		return -ERANGE;
+	}
 	if (ret == 0)
 	{
-		*out_val = long_num;
+		*out_val = (int)long_num;
 	}
 	return ret;
 }
-- 
2.43.0


From 24ccdf3814559fee620e2717c8d5246c2f376d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:57:52 +0000
Subject: [PATCH 38/39] fix: str_params_to_str reports running out of memory
 instead of returning an empty text

---
 src/mem/str_params.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mem/str_params.c b/src/mem/str_params.c
index 07cfffb..f33436f 100644
--- a/src/mem/str_params.c
+++ b/src/mem/str_params.c
@@ -355,6 +355,7 @@ typedef struct
 {
 	char* str;
 	str_params_ptr params_ptr;
+	bool failed;
 }combine_strings_ctx;
 
 static bool combine_strings(void* key, void* value, void* context)
@@ -381,6 +382,7 @@ static bool combine_strings(void* key, void* value, void* context)
 		new_str = NULL;
 	}
 	combine_ctx->str = NULL;
+	combine_ctx->failed = true;
 	return false;
 }
 
@@ -390,8 +392,13 @@ char* str_params_to_str(str_params_ptr params)
 	{
 	   .str = NULL,
 	   .params_ptr = params,
+	   .failed = false,
 	};
 	hashmap_foreach(params->map, combine_strings, &ctx);
+	if (ctx.failed)
+	{
+		return NULL;
+	}
 	return (ctx.str != NULL) ? ctx.str : strdup("");
 }
 
-- 
2.43.0


From cbb8afee3ea1c1bda71e6e58929d7737c39db13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:05 +0000
Subject: [PATCH 39/39] fix: hashmap_put leaves ENOMEM in errno for an entry it
 stored when only the expansion failed

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index 5214e00..c60ba1a 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,12 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int saved_errno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion: the entry is in the map all the same, so this is no failure to report.
+		errno = saved_errno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0

