From 0ca3a5d98ce8ebb980c970f30a515d6d63108119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:16 +0000
Subject: [PATCH 01/31] fix: sc_heap_add() must not grow the heap's size when
 allocation fails

---
 heap/sc_heap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/heap/sc_heap.c b/heap/sc_heap.c
index 984223d..35ad136 100644
--- a/heap/sc_heap.c
+++ b/heap/sc_heap.c
@@ -82,7 +82,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 	size_t i, cap, m;
 	void *exp;
 
-	if (++h->size >= h->cap) {
+	if (h->size + 1 >= h->cap) {
 		cap = h->cap != 0 ? h->cap * 2 : 4;
 		m = cap * 2 * sizeof(*h->elems);
 
@@ -95,7 +95,7 @@ bool sc_heap_add(struct sc_heap *h, int64_t key, void *data)
 		h->cap = cap;
 	}
 
-	i = h->size;
+	i = ++h->size;
 	while (i != 1 && key < h->elems[i / 2].key) {
 		h->elems[i] = h->elems[i / 2];
 		i /= 2;
-- 
2.43.0


From ac7ababeab003be32ac6cf0706c7e4cc9b663874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 02/31] fix: sc_buf bounds checks must not overflow on huge
 positions and lengths

---
 buffer/sc_buf.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index f04acc2..2ff7ee2 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -39,6 +39,12 @@
 
 #define NULL_LEN SC_BUF_MAX
 
+// Check if 'len' bytes at 'pos' are in [0, end), without integer overflow.
+static bool sc_buf_in_range(uint64_t pos, uint64_t len, uint64_t end)
+{
+	return pos <= end && len <= end - pos;
+}
+
 bool sc_buf_init(struct sc_buf *b, uint64_t cap)
 {
 	void *m = NULL;
@@ -253,7 +259,7 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
 {
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -269,7 +275,7 @@ static uint16_t sc_buf_peek_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -287,7 +293,7 @@ static uint64_t sc_buf_peek_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -306,7 +312,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || pos + sizeof(*val) > b->wpos) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		*val = 0;
 		return 0;
@@ -325,7 +331,7 @@ static uint64_t sc_buf_peek_64_pos(struct sc_buf *b, uint64_t pos,
 static uint64_t sc_buf_set_8_pos(struct sc_buf *b, uint64_t pos,
 				 const uint8_t *val)
 {
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -340,7 +346,7 @@ static uint64_t sc_buf_set_16_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -358,7 +364,7 @@ static uint64_t sc_buf_set_32_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -378,7 +384,7 @@ static uint64_t sc_buf_set_64_pos(struct sc_buf *b, uint64_t pos,
 {
 	unsigned char *p;
 
-	if (b->err != 0 || (pos + sizeof(*val) > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, sizeof(*val), b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -452,7 +458,7 @@ uint64_t sc_buf_peek_64(struct sc_buf *b)
 uint64_t sc_buf_peek_data(struct sc_buf *b, uint64_t pos, unsigned char *dest,
 			  uint64_t len)
 {
-	if (b->err != 0 || (pos + len > b->wpos)) {
+	if (b->err != 0 || !sc_buf_in_range(pos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return 0;
@@ -506,7 +512,7 @@ void sc_buf_set_64(struct sc_buf *b, uint64_t val)
 uint64_t sc_buf_set_data(struct sc_buf *b, uint64_t offset, const void *src,
 			 uint64_t len)
 {
-	if (b->err != 0 || (offset + len > b->cap)) {
+	if (b->err != 0 || !sc_buf_in_range(offset, len, b->cap)) {
 		b->err |= SC_BUF_CORRUPT;
 		return 0;
 	}
@@ -585,7 +591,8 @@ const char *sc_buf_get_str(struct sc_buf *b)
 		return NULL;
 	}
 
-	if (b->rpos + len + 1 > b->wpos) {
+	if (len == UINT64_MAX ||
+	    !sc_buf_in_range(b->rpos, len + 1, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -604,7 +611,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 		return NULL;
 	}
 
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_in_range(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		return NULL;
 	}
@@ -617,7 +624,7 @@ void *sc_buf_get_blob(struct sc_buf *b, uint64_t len)
 
 void sc_buf_get_data(struct sc_buf *b, void *dest, uint64_t len)
 {
-	if (b->rpos + len > b->wpos) {
+	if (!sc_buf_in_range(b->rpos, len, b->wpos)) {
 		b->err |= SC_BUF_CORRUPT;
 		memset(dest, 0, len);
 		return;
-- 
2.43.0


From 3a98a9d978859632e5368eec6d5f48000befa66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 03/31] fix: sc_buf_get_str() must reject strings without
 terminating nul

---
 buffer/sc_buf.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 2ff7ee2..81c71a9 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -598,6 +598,11 @@ const char *sc_buf_get_str(struct sc_buf *b)
 	}
 
 	str = (char *) b->mem + b->rpos;
+	if (str[len] != '\0') {
+		b->err |= SC_BUF_CORRUPT;
+		return NULL;
+	}
+
 	b->rpos += len + 1;
 
 	return str;
-- 
2.43.0


From 4513d979fe4a7be50fc6d0dcf0a902c2a92e34c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 04/31] fix: sc_buf_reserve() must not overflow when computing
 the new capacity

---
 buffer/sc_buf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 81c71a9..9d4c155 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -107,13 +107,17 @@ bool sc_buf_reserve(struct sc_buf *b, uint64_t len)
 	uint64_t size;
 	void *m;
 
-	if (b->wpos + len > b->cap) {
+	if (!sc_buf_in_range(b->wpos, len, b->cap)) {
 		if (b->ref) {
 			goto err;
 		}
 
+		if (b->cap >= SC_BUF_MAX - 4096 || len > SC_BUF_MAX - b->cap) {
+			goto err;
+		}
+
 		size = ((b->cap + len + 4095) / 4096) * 4096;
-		if (size > b->limit || b->cap >= SC_BUF_MAX - 4096) {
+		if (size > b->limit) {
 			goto err;
 		}
 
-- 
2.43.0


From 7e6e7b9d1a0129a2a6b052a804bf7038180c8985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 05/31] fix: sc_buf_shrink() must not reallocate wrapped memory
 or grow the buffer

---
 buffer/sc_buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 9d4c155..a450e68 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -143,11 +143,14 @@ bool sc_buf_shrink(struct sc_buf *b, uint64_t len)
 
 	sc_buf_compact(b);
 
-	if (len > b->cap || b->wpos >= len) {
+	if (b->ref || len > b->cap || b->wpos >= len) {
 		return true;
 	}
 
 	len = ((len + 4095) / 4096) * 4096;
+	if (len >= b->cap) {
+		return true;
+	}
 
 	tmp = sc_buf_realloc(b->mem, len);
 	if (tmp == NULL) {
-- 
2.43.0


From 393ca97cfb50509c96336fe571fb9818f01fd878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 06/31] fix: sc_buf_move() must not consume bytes the
 destination did not take

---
 buffer/sc_buf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index a450e68..09d90d1 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -258,10 +258,11 @@ void sc_buf_move(struct sc_buf *dest, struct sc_buf *src)
 	uint64_t quota = sc_buf_quota(dest);
 	uint64_t size = sc_buf_size(src);
 	uint64_t copy = quota < size ? quota : size;
+	uint64_t wpos = dest->wpos;
 	void *from = &src->mem[src->rpos];
 
 	sc_buf_put_raw(dest, from, copy);
-	src->rpos += copy;
+	src->rpos += dest->wpos - wpos;
 }
 
 static uint16_t sc_buf_peek_8_pos(struct sc_buf *b, uint64_t pos, uint8_t *val)
-- 
2.43.0


From f816bb48ff258f22392836c39f2f44900fa597c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 07/31] fix: sc_buf_put_fmt() must reserve space for the
 terminating nul

---
 buffer/sc_buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index 09d90d1..d72a713 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -764,7 +764,7 @@ void sc_buf_put_fmt(struct sc_buf *b, const char *fmt, ...)
 	wr = (uint64_t) rc;
 
 	if (wr >= quota) {
-		if (!sc_buf_reserve(b, wr + len_bytes)) {
+		if (!sc_buf_reserve(b, wr + len_bytes + 1)) {
 			return;
 		}
 
-- 
2.43.0


From 114791e20eb04b7b336ed31290d7a09c0209d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:26 +0000
Subject: [PATCH 08/31] fix: sc_buf_put_text() must not leave the read position
 behind the write position on failure

---
 buffer/sc_buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/buffer/sc_buf.c b/buffer/sc_buf.c
index d72a713..08dd36e 100644
--- a/buffer/sc_buf.c
+++ b/buffer/sc_buf.c
@@ -830,6 +830,7 @@ void sc_buf_put_text(struct sc_buf *b, const char *fmt, ...)
 	return;
 
 clean_up:
+	sc_buf_set_rpos(b, 0);
 	sc_buf_set_wpos(b, 0);
 }
 
-- 
2.43.0


From 16ad2f53d853abd779fa6ad0e7de93df74977e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 09/31] fix: sc_queue must accept additions again once there is
 room after an allocation failure

---
 queue/sc_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/queue/sc_queue.h b/queue/sc_queue.h
index fa50512..2f0224b 100644
--- a/queue/sc_queue.h
+++ b/queue/sc_queue.h
@@ -91,6 +91,8 @@
 			(q)->cap = _cap;                                       \
 			sc_queue_free((q)->elems);                             \
 			(q)->elems = _dst;                                     \
+		} else {                                                       \
+			(q)->oom = (q)->elems == NULL;                         \
 		}                                                              \
 	} while (0)
 
-- 
2.43.0


From 01647863dfd7c4964844678c1a9bb67ad8d0135a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 10/31] fix: sc_array_del() must not shadow the caller's
 variable named idx

---
 array/sc_array.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/array/sc_array.h b/array/sc_array.h
index cefca91..959445f 100644
--- a/array/sc_array.h
+++ b/array/sc_array.h
@@ -148,12 +148,12 @@
  */
 #define sc_array_del(a, i)                                                     \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
                                                                                \
-		const size_t _cnt = (a)->size - (idx) - 1;                     \
+		const size_t _cnt = (a)->size - (_idx) - 1;                    \
 		if (_cnt > 0) {                                                \
-			memmove(&((a)->elems[idx]), &((a)->elems[idx + 1]),    \
+			memmove(&((a)->elems[_idx]), &((a)->elems[_idx + 1]),  \
 				_cnt * sizeof(*((a)->elems)));                 \
 		}                                                              \
 		(a)->size--;                                                   \
@@ -171,9 +171,9 @@
  */
 #define sc_array_del_unordered(a, i)                                           \
 	do {                                                                   \
-                size_t idx = (i);                                              \
-		assert(idx < (a)->size);                                       \
-		(a)->elems[idx] = (a)->elems[(--(a)->size)];                   \
+                size_t _idx = (i);                                             \
+		assert(_idx < (a)->size);                                      \
+		(a)->elems[_idx] = (a)->elems[(--(a)->size)];                  \
 	} while (0)
 
 /**
-- 
2.43.0


From 1d1fb3f9a68bde7552780f450b812058c9894ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 11/31] fix: sc_map_init() must fail when the capacity cannot
 be rounded up to a power of two

---
 map/sc_map.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map/sc_map.c b/map/sc_map.c
index c81b124..5378225 100644
--- a/map/sc_map.c
+++ b/map/sc_map.c
@@ -107,6 +107,10 @@
 		}                                                              \
 		v++;                                                           \
                                                                                \
+		if (v == 0) {                                                  \
+			return NULL;                                           \
+		}                                                              \
+                                                                               \
 		*cap = v;                                                      \
 		t = sc_map_calloc(v + 1, sizeof(*t));                          \
 		return t ? &t[1] : NULL;                                       \
-- 
2.43.0


From da6ba46e5b02309ca6509b810bd9408b3c876a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:26 +0000
Subject: [PATCH 12/31] fix: sc_str_replace() must terminate when the string to
 be replaced is empty

---
 string/sc_str.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/string/sc_str.c b/string/sc_str.c
index 4d378b9..addf1f9 100644
--- a/string/sc_str.c
+++ b/string/sc_str.c
@@ -371,6 +371,11 @@ bool sc_str_replace(char **str, const char *replace, const char *with)
 		return false;
 	}
 
+	// Empty string never matches.
+	if (rep_len == 0) {
+		return true;
+	}
+
 	meta = sc_str_meta(*str);
 	orig = *str;
 	orig_end = *str + meta->len;
-- 
2.43.0


From 4e7c18c54114939cd357bcea83ddfe7b6bc4e9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 13/31] fix: sc_uri_create() must look for delimiters only in
 the component they delimit and reject invalid schemes and ports

---
 uri/sc_uri.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/uri/sc_uri.c b/uri/sc_uri.c
index 4c0ce36..2ffa848 100644
--- a/uri/sc_uri.c
+++ b/uri/sc_uri.c
@@ -54,11 +54,16 @@ struct sc_uri *sc_uri_create(const char *str)
 
 	char *scheme, *userinfo = "", *host = "", *port = "";
 	char *path, *query = "", *fragment = "";
-	char *ptr, *dest, *parse_end;
+	char *ptr, *end, *dest, *parse_end;
 	char *pos = (char *) str;
 	struct sc_uri *uri;
 
-	if (str == NULL || (ptr = strstr(pos, ":")) == NULL) {
+	if (str == NULL) {
+		return NULL;
+	}
+
+	ptr = pos + strcspn(pos, ":/?#");
+	if (ptr == pos || *ptr != ':') {
 		return NULL;
 	}
 
@@ -70,14 +75,16 @@ struct sc_uri *sc_uri_create(const char *str)
 		authority_len = 2;
 		pos += authority_len;
 
-		ptr = strchr(pos, '@');
+		end = pos + strcspn(pos, "/?#");
+
+		ptr = memchr(pos, '@', end - pos);
 		if (ptr != NULL) {
 			userinfo = pos;
 			userinfo_len = ptr - pos + strlen("@");
 			pos = ptr + 1;
 		}
 
-		ptr = pos + strcspn(pos, *pos == '[' ? "]" : ":/?#");
+		ptr = pos + strcspn(pos, *pos == '[' ? "]/?#" : ":/?#");
 		host = pos;
 		host_len = ptr - pos + (*host == '[');
 		pos = host + host_len;
@@ -86,15 +93,15 @@ struct sc_uri *sc_uri_create(const char *str)
 			return NULL;
 		}
 
-		ptr = strchr(pos, ':');
-		if (ptr != NULL) {
-			if (*(ptr + 1) == '\0') {
+		if (*pos == ':') {
+			ptr = pos;
+			if (*(ptr + 1) < '0' || *(ptr + 1) > '9') {
 				return NULL;
 			}
 
 			errno = 0;
 			val = strtoul(ptr + 1, &parse_end, 10);
-			if (errno != 0 || val > 65536) {
+			if (errno != 0 || val > 65535) {
 				return NULL;
 			}
 
@@ -102,15 +109,18 @@ struct sc_uri *sc_uri_create(const char *str)
 			port_len = parse_end - ptr;
 			pos = port + port_len;
 		}
+
+		if (pos != end) {
+			return NULL;
+		}
 	}
 
 	path = pos;
 	path_len = strcspn(path, "?#");
 	pos = path + path_len;
 
-	ptr = strchr(pos, '?');
-	if (ptr != NULL) {
-		query = ptr;
+	if (*pos == '?') {
+		query = pos;
 		query_len = strcspn(query, "#");
 		pos = query + query_len;
 	}
-- 
2.43.0


From 3de8fb1610579b05a5cd42ef9a04b45e40449491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:50 +0000
Subject: [PATCH 14/31] fix: sc_timer must keep wheel slots aligned with the
 clock and timeouts relative to the latest timestamp

The wheel dropped the remainder of each poll and all ticks beyond one
revolution, so timers of unrelated slots fired up to a whole revolution
late, and polls shorter than a tick did not update the timestamp that
later timeouts are documented to be relative to.
---
 timer/sc_timer.c | 17 +++++------------
 timer/sc_timer.h |  1 -
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/timer/sc_timer.c b/timer/sc_timer.c
index 81e02e9..f45a5e7 100644
--- a/timer/sc_timer.c
+++ b/timer/sc_timer.c
@@ -61,8 +61,6 @@ void sc_timer_clear(struct sc_timer *t)
 {
 	const uint32_t cap = t->wheel * WHEEL_COUNT;
 
-	t->head = 0;
-
 	for (uint32_t i = 0; i < cap; i++) {
 		t->list[i].timeout = SC_TIMER_INVALID;
 		t->list[i].data = NULL;
@@ -114,7 +112,7 @@ static bool expand(struct sc_timer *t)
 uint64_t sc_timer_add(struct sc_timer *t, uint64_t timeout, uint64_t type,
 		      void *data)
 {
-	const uint32_t offset = (uint32_t) (timeout / TICK + t->head);
+	const uint32_t offset = (uint32_t) ((timeout + t->timestamp) / TICK);
 	const uint32_t pos = offset & (WHEEL_COUNT - 1);
 	uint64_t id;
 	uint32_t seq, index, wheel_pos;
@@ -164,19 +162,14 @@ void sc_timer_cancel(struct sc_timer *t, uint64_t *id)
 uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 			  void (*callback)(void *, uint64_t, uint64_t, void *))
 {
-	const uint64_t time = timestamp - t->timestamp;
+	const uint64_t ticks = timestamp / TICK - t->timestamp / TICK;
 	uint64_t timeout;
 	uint32_t wheel, base;
-	uint32_t head = t->head;
-	uint32_t wheels = (uint32_t) (sc_timer_min(time / TICK, WHEEL_COUNT));
+	uint32_t head = (uint32_t) (t->timestamp / TICK) & (WHEEL_COUNT - 1);
+	uint32_t wheels = (uint32_t) (sc_timer_min(ticks, WHEEL_COUNT));
 	struct sc_timer_data *item;
 
-	if (wheels == 0) {
-		return sc_timer_min(TICK - time, TICK);
-	}
-
 	t->timestamp = timestamp;
-	t->head = (t->head + wheels) & (WHEEL_COUNT - 1);
 
 	while (wheels-- > 0) {
 		wheel = t->wheel;
@@ -201,5 +194,5 @@ uint64_t sc_timer_timeout(struct sc_timer *t, uint64_t timestamp, void *arg,
 		head = (head + 1) & (WHEEL_COUNT - 1);
 	}
 
-	return sc_timer_min(TICK - time, TICK);
+	return TICK - (timestamp % TICK);
 }
diff --git a/timer/sc_timer.h b/timer/sc_timer.h
index a7605f2..7555245 100644
--- a/timer/sc_timer.h
+++ b/timer/sc_timer.h
@@ -56,7 +56,6 @@ struct sc_timer_data {
 
 struct sc_timer {
 	uint64_t timestamp;
-	uint32_t head;
 	uint32_t wheel;
 	struct sc_timer_data *list;
 };
-- 
2.43.0


From 6a7f2aed2c295528c0a7b4d60d111224c7da37f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 15/31] fix: sc_option_at must not read past a lone '-'
 argument

---
 option/sc_option.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/option/sc_option.c b/option/sc_option.c
index 58ccf50..ca7634f 100644
--- a/option/sc_option.c
+++ b/option/sc_option.c
@@ -50,7 +50,8 @@ char sc_option_at(struct sc_option *opt, int index, char **value)
 	pos++; // Skip first '-'
 	if (*pos != '-') {
 		for (int i = 0; i < opt->count; i++) {
-			if (*pos == opt->options[i].letter &&
+			if (*pos != '\0' &&
+			    *pos == opt->options[i].letter &&
 			    strchr("= \0", *(pos + 1)) != NULL) {
 				id = *pos;
 				pos++; // skip letter
-- 
2.43.0


From 060b1a118eaab5bcac1444c9809be20770f14d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 16/31] fix: sc_size_to_bytes must refuse negative sizes
 instead of overflowing

---
 sc/sc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sc/sc.c b/sc/sc.c
index e47cad8..ef4e0ea 100644
--- a/sc/sc.c
+++ b/sc/sc.c
@@ -141,7 +141,7 @@ int64_t sc_size_to_bytes(const char *buf)
 
 	errno = 0;
 	val = strtoll(buf, &parse_end, 10);
-	if (errno != 0 || parse_end == buf) {
+	if (errno != 0 || parse_end == buf || val < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From f33ab29765913c1e40be1c339468a6a9f5717d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:00 +0000
Subject: [PATCH 17/31] fix: sc_time_sleep must divide before narrowing to
 time_t

---
 time/sc_time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/sc_time.c b/time/sc_time.c
index 03e00db..d945197 100644
--- a/time/sc_time.c
+++ b/time/sc_time.c
@@ -151,7 +151,7 @@ int sc_time_sleep(uint64_t millis)
 	int rc;
 	struct timespec t, rem;
 
-	rem.tv_sec = (time_t) millis / 1000;
+	rem.tv_sec = (time_t) (millis / 1000);
 	rem.tv_nsec = (long) (millis % 1000) * 1000000;
 
 	do {
-- 
2.43.0


From 54b8e81a3653799d5f5ff585c00a0f48de2a83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 18/31] fix: sc_cond_term must return a negative value on error
 as documented

---
 condition/sc_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/condition/sc_cond.c b/condition/sc_cond.c
index d332c40..239536a 100644
--- a/condition/sc_cond.c
+++ b/condition/sc_cond.c
@@ -168,7 +168,7 @@ int sc_cond_term(struct sc_cond *c)
 
 	c->init = false;
 
-	return errno;
+	return errno != 0 ? -1 : 0;
 }
 
 void sc_cond_signal(struct sc_cond *c, void *data)
-- 
2.43.0


From 4e54796cf9f5b51919af793033ab515792ff4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 19/31] fix: sc_thread_start and sc_thread_join must return -1
 on error and not keep the id of a thread that was not created

---
 thread/sc_thread.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thread/sc_thread.c b/thread/sc_thread.c
index 7dd1db1..d68d077 100644
--- a/thread/sc_thread.c
+++ b/thread/sc_thread.c
@@ -135,6 +135,8 @@ int sc_thread_start(struct sc_thread *t, void *(*fn)(void *), void *arg)
 	rc = pthread_create(&t->id, &attr, fn, arg);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		t->id = 0;
+		rc = -1;
 	}
 
 	// This may only fail with EINVAL.
@@ -155,6 +157,7 @@ int sc_thread_join(struct sc_thread *t, void **ret)
 	rc = pthread_join(t->id, &val);
 	if (rc != 0) {
 		strncpy(t->err, strerror(rc), sizeof(t->err) - 1);
+		rc = -1;
 	}
 
 	t->id = 0;
-- 
2.43.0


From 12fff18766d8a4432e11f9a3afcd2c5ea391d809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:33 +0000
Subject: [PATCH 20/31] fix: sc_mmap_msync must flush up to the end of the
 requested range

---
 memory-map/sc_mmap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/memory-map/sc_mmap.c b/memory-map/sc_mmap.c
index 249ed64..3fc828f 100644
--- a/memory-map/sc_mmap.c
+++ b/memory-map/sc_mmap.c
@@ -316,9 +316,10 @@ int sc_mmap_term(struct sc_mmap *m)
 int sc_mmap_msync(struct sc_mmap *m, size_t offset, size_t len)
 {
 	int rc;
-	char *p = (char *) m->ptr + (offset & ~(m->page_size - 1));
+	size_t diff = offset & (m->page_size - 1);
+	char *p = (char *) m->ptr + (offset - diff);
 
-	rc = msync(p, len, MS_SYNC);
+	rc = msync(p, len + diff, MS_SYNC);
 	if (rc != 0) {
 		strncpy(m->err, strerror(errno), sizeof(m->err) - 1);
 	}
-- 
2.43.0


From 91342ab5063d599d58e8e63884a0b597bafc5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:26 +0000
Subject: [PATCH 21/31] fix: sc_signal_vsnprintf must not write to a buffer of
 size zero

---
 signal/sc_signal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 030ac75..46487e3 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -103,7 +103,9 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 		switch (*pos) {
 		case '\0': {
-			*out = '\0';
+			if (sz != 0) {
+				*out = '\0';
+			}
 			return (int) (out - buf);
 		}
 		case '%': {
-- 
2.43.0


From 0d208666e89168437966987af9fe23d1458f5d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:26 +0000
Subject: [PATCH 22/31] fix: sc_signal_vsnprintf must not negate the smallest
 integer

---
 signal/sc_signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 46487e3..9c258f7 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -133,7 +133,7 @@ int sc_signal_vsnprintf(char *buf, size_t sz, const char *fmt, va_list va)
 
 				} else if (*pos == 'd') {
 					i = get_int(va, pos - orig);
-					u = (uint64_t) (i < 0 ? -i : i);
+					u = i < 0 ? 0 - (uint64_t) i : (uint64_t) i;
 
 					do {
 						c = (char) ('0' + (u % 10));
-- 
2.43.0


From e3e80302ce6f6d588052ab8a442f8bf04e354ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:26 +0000
Subject: [PATCH 23/31] fix: sc_signal_log must not write when the format is
 not supported

---
 signal/sc_signal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signal/sc_signal.c b/signal/sc_signal.c
index 9c258f7..d17c787 100644
--- a/signal/sc_signal.c
+++ b/signal/sc_signal.c
@@ -526,6 +526,10 @@ void sc_signal_log(int fd, char *buf, size_t sz, char *fmt, ...)
 	wr = sc_signal_vsnprintf(buf, sz, fmt, args);
 	va_end(args);
 
+	if (wr < 0) {
+		return;
+	}
+
 	rc = (int) write(fd, buf, (size_t) wr);
 	(void) rc;
 }
-- 
2.43.0


From 4834c8c81d29163d50a61f1c3b0ebea44df5321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 24/31] fix: sc_sock_set_rcvtimeo/sndtimeo must convert
 milliseconds to microseconds

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f44d7c2..f5ca0a2 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -281,7 +281,7 @@ int sc_sock_set_rcvtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
@@ -301,7 +301,7 @@ int sc_sock_set_sndtimeo(struct sc_sock *s, int ms)
 	void *p;
 
 	struct timeval tv = {
-		.tv_usec = ms % 1000,
+		.tv_usec = (ms % 1000) * 1000,
 		.tv_sec = ms / 1000,
 	};
 
-- 
2.43.0


From 8015711463efe5f25590e7e67f5903644a25fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 25/31] fix: sc_sock_listen must refuse unix paths that do not
 fit instead of truncating them

---
 socket/sc_sock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index f5ca0a2..8f6b21a 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -322,6 +322,11 @@ static int sc_sock_bind_unix(struct sc_sock *s, const char *host)
 		.sun_family = AF_UNIX,
 	};
 
+	if (strlen(host) >= sizeof(addr.sun_path)) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	strncpy(addr.sun_path, host, sizeof(addr.sun_path) - 1);
 	sc_unlink(host);
 
-- 
2.43.0


From 337ba611ca0ad6516ffac8061c4ba8c8edb09014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 26/31] fix: unix domain sockets must be set blocking or
 nonblocking as asked

---
 socket/sc_sock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 8f6b21a..43b5e54 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -354,6 +354,11 @@ static int sc_sock_bind(struct sc_sock *s, const char *host, const char *port)
 
 		s->fdt.fd = fd;
 
+		rc = sc_sock_set_blocking(s, s->blocking);
+		if (rc != 0) {
+			goto error_unix;
+		}
+
 		rc = sc_sock_bind_unix(s, host);
 		if (rc != 0) {
 			goto error_unix;
@@ -470,6 +475,11 @@ static int sc_sock_connect_unix(struct sc_sock *s, const char *addr)
 
 	strcpy(un.sun_path, addr);
 
+	rc = sc_sock_set_blocking(s, s->blocking);
+	if (rc != 0) {
+		goto err;
+	}
+
 	rc = connect(s->fdt.fd, (struct sockaddr *) &un, sizeof(un));
 	if (rc != 0) {
 		goto err;
-- 
2.43.0


From 90f75e338606584e51fef9c456084bf750723ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 27/31] fix: sc_sock_local_str/remote_str must not print
 uninitialised memory for unnamed unix sockets

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index 43b5e54..bb56a77 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -830,7 +830,7 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getsockname(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
@@ -846,7 +846,7 @@ const char *sc_sock_local_str(struct sc_sock *sock, char *buf, size_t len)
 const char *sc_sock_remote_str(struct sc_sock *sock, char *buf, size_t len)
 {
 	int rc;
-	struct sockaddr_storage st;
+	struct sockaddr_storage st = {0};
 	socklen_t storage_len = sizeof(st);
 
 	rc = getpeername(sock->fdt.fd, (struct sockaddr *) &st, &storage_len);
-- 
2.43.0


From 65dabc08a6c27d11313e4b5446e9248360087588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 28/31] fix: sc_sock_local_str/remote_str must not pass NULL to
 printf when inet_ntop fails

---
 socket/sc_sock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/socket/sc_sock.c b/socket/sc_sock.c
index bb56a77..bb29728 100644
--- a/socket/sc_sock.c
+++ b/socket/sc_sock.c
@@ -808,14 +808,14 @@ static const char *sc_sock_print_storage(struct sc_sock *sock,
 		addr = (struct sockaddr_in *) storage;
 		dst = sc_sock_addr(sock, AF_INET, &addr->sin_addr, tmp,
 				   sizeof(tmp));
-		snprintf(buf, len, "%s:%d", dst, ntohs(addr->sin_port));
+		snprintf(buf, len, "%s:%d", dst ? dst : "", ntohs(addr->sin_port));
 		break;
 
 	case AF_INET6:
 		addr6 = (struct sockaddr_in6 *) storage;
 		dst = sc_sock_addr(sock, AF_INET6, &addr6->sin6_addr, tmp,
 				   sizeof(tmp));
-		snprintf(buf, len, "%s:%d", dst, ntohs(addr6->sin6_port));
+		snprintf(buf, len, "%s:%d", dst ? dst : "", ntohs(addr6->sin6_port));
 		break;
 
 	case AF_UNIX:
-- 
2.43.0


From b1588ba3b978e18d2fc59a64bcda95b932de8b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 29/31] fix: sc_log_init must return a negative value on
 failure and not mark the logger initialised

---
 logger/sc_log.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index bd5da24..d66a80c 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -182,11 +182,12 @@ int sc_log_init(void)
 	rc = sc_log_mutex_init(&sc_log.mtx);
 	if (rc != 0) {
 		errno = rc;
+		return -1;
 	}
 
 	sc_log.init = true;
 
-	return rc;
+	return 0;
 }
 
 int sc_log_term(void)
-- 
2.43.0


From 5e45027c96021985b3555c8b74b1d2f294935008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 30/31] fix: sc_log_set_file must set errno when a file name is
 too long

---
 logger/sc_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index d66a80c..ebcbb0e 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -281,6 +281,7 @@ int sc_log_set_file(const char *prev, const char *current)
 
 	if (strlen(prev) >= sizeof(sc_log.prev_file) - 1 ||
 	    strlen(current) >= sizeof(sc_log.current_file) - 1) {
+		errno = ENAMETOOLONG;
 		goto error;
 	}
 
-- 
2.43.0


From 29b88564c114cf8502b20ded5aa015d0d374bef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:33 +0000
Subject: [PATCH 31/31] fix: log file rotation must count the header of each
 line

---
 logger/sc_log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/logger/sc_log.c b/logger/sc_log.c
index ebcbb0e..5b06d3f 100644
--- a/logger/sc_log.c
+++ b/logger/sc_log.c
@@ -351,7 +351,7 @@ static int sc_log_print_header(FILE *fp, enum sc_log_level level)
 		return -1;
 	}
 
-	return 0;
+	return rc;
 }
 
 static int sc_log_stdout(enum sc_log_level level, const char *fmt, va_list va)
@@ -381,6 +381,8 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		return -1;
 	}
 
+	sc_log.file_size += rc;
+
 	size = vfprintf(sc_log.fp, fmt, va);
 	if (size < 0) {
 		return -1;
@@ -400,7 +402,7 @@ static int sc_log_file(enum sc_log_level level, const char *fmt, va_list va)
 		sc_log.file_size = 0;
 	}
 
-	return rc;
+	return 0;
 }
 
 int sc_log_log(enum sc_log_level level, const char *fmt, ...)
-- 
2.43.0

