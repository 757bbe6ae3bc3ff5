From 1608cc484729c42ee071dd44a0b0410f4133c8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:36 +0000
Subject: [PATCH 01/54] fix: get and cgi must report output errors

stdio buffers the last part of the object, and nobody looked at the result
of flushing it, so a full disk (or /dev/full) gave a truncated object and
exit status zero.
---
 main_cgi.c | 6 ++++++
 main_get.c | 8 ++++++++
 2 files changed, 14 insertions(+)

diff --git a/main_cgi.c b/main_cgi.c
index 43155ac..c5ace68 100644
--- a/main_cgi.c
+++ b/main_cgi.c
@@ -164,5 +164,11 @@ main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	GetJob_Iter(gj, get_iter, NULL, gzip);
 
 	GetJob_Delete(&gj);
+
+	/* The data has not been delivered until it has left stdio */
+	if (fflush(stdout) || ferror(stdout)) {
+		fprintf(stderr, "Output error\n");
+		exit(1);
+	}
 	return (0);
 }
diff --git a/main_get.c b/main_get.c
index 306a2b5..da27a8b 100644
--- a/main_get.c
+++ b/main_get.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -185,6 +186,13 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		}
 	}
 
+	/* The data has not been delivered until it has left stdio */
+	if (fflush(gp->dst) || ferror(gp->dst) ||
+	    fflush(gp->hdr) || ferror(gp->hdr)) {
+		fprintf(stderr, "Output error: %s\n", strerror(errno));
+		exit(1);
+	}
+
 	FREE_OBJ(gp);
 	GetJob_Delete(&gj);
 	return (0);
-- 
2.43.0


From 59a2067f502d648de8dc245fae694d31643789f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 02/54] fix: get -z and cgi must not pass off a truncated silo
 as success

Rsilo_ReadGZChunk() silently stopped at a short read and none of the
callers could tell.  Treat it like Rsilo_ReadChunk() does.
---
 aardwarc.h | 2 +-
 rsilo.c    | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..43a7eb3 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -207,7 +207,7 @@ void Rsilo_NextHeader(struct rsilo *);
 struct header *Rsilo_ReadHeader(struct rsilo *);
 uintmax_t Rsilo_ReadChunk(struct rsilo *, byte_iter_f *, void *);
 int64_t Rsilo_BodyLen(const struct rsilo *);
-int Rsilo_ReadGZChunk(struct rsilo *, byte_iter_f *, void *);
+off_t Rsilo_ReadGZChunk(struct rsilo *, byte_iter_f *, void *);
 off_t Rsilo_Tell(const struct rsilo *);
 void Rsilo_SkipCRNL(struct rsilo *rs);
 
diff --git a/rsilo.c b/rsilo.c
index 0f06b93..b69d201 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -224,7 +224,7 @@ Rsilo_NextHeader(struct rsilo *rs)
 
 /* Read a WARC body ---------------------------------------------------*/
 
-int
+off_t
 Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 {
 	int		ps = getpagesize();
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
-- 
2.43.0


From 32a7c4242f27eea25ec76c14f3cb23a00dd26293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:15 +0000
Subject: [PATCH 03/54] fix: reserve enough header space for very compressible
 segments

deflate compresses up to 1032:1, so the Content-Length of a segment can be
four digits longer than silo.max_size, and WARC-Segment-Total-Length longer
still.  When the padding was used up, store aborted in Wsilo_Commit() with
part of the object committed.
---
 segjob.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/segjob.c b/segjob.c
index 731f373..20e3840 100644
--- a/segjob.c
+++ b/segjob.c
@@ -125,12 +125,13 @@ segjob_newseg(struct segjob *sj)
 	Header_Set(sg->hdr, "WARC-Block-Digest", "sha256:%s", digest);
 
 	/*
-	 * We reserve two extra digits to allow up to 99% compression.
+	 * We reserve four extra digits because deflate can compress up
+	 * to 1032:1.
 	 * This also covers the case where data is already gzip'ed and
 	 * the C-L-G is longer than the C-L
 	 */
 	im = sj->aa->silo_maxsize;
-	Header_Set(sg->hdr, "Content-Length", "00%jd", im);
+	Header_Set(sg->hdr, "Content-Length", "0000%jd", im);
 
 	if (sg->segno == 1) {
 		pad += Header_Len("WARC-Segment-Number", "1");
@@ -141,8 +142,8 @@ segjob_newseg(struct segjob *sj)
 		Header_Set_Ref(sg->hdr, "WARC-Segment-Origin-ID", digest);
 
 		/* In case this becomes the last segment */
-		im = sj->size + sj->aa->silo_maxsize;
-		pad += Header_Len("WARC-Segment-Total-Length", "%00jd", im);
+		pad += Header_Len("WARC-Segment-Total-Length",
+		    "%jd", INTMAX_MAX);
 	}
 
 	REPLACE(digest, NULL);
-- 
2.43.0


From 4e61a2e605aa549785268e40acf429d90fbeb341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 04/54] fix: get must find objects which share their ID with a
 segment

A continuation segment has the digest of its content as ID, so two segments
with the same content have the same ID, as does an independent object with
that content.  Getjob gave up, or asserted, on the first index entry with
the right key, even when it was one of the others.  The same goes for an
object with the content of a warcinfo record, and for any object whose key
starts with the 32 bits used to find the next segment.
---
 getjob.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/getjob.c b/getjob.c
index 846881e..ab6f6a4 100644
--- a/getjob.c
+++ b/getjob.c
@@ -89,10 +89,11 @@ getjob_iter(void *priv, const char *key,
 
 	p = Header_Get_Id(hdr);
 	if ((flag & IDX_F_WARCINFO) && !strcasecmp(p, gj->id)) {
+		/* The same ID may also be an object, keep looking */
 		gj->err = "ID is warcinfo segment";
 		Header_Destroy(&hdr);
 		Rsilo_Close(&rs);
-		return (-1);
+		return (0);
 	}
 	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
 	if (gjs == NULL) {
@@ -102,14 +103,20 @@ getjob_iter(void *priv, const char *key,
 			return (0);
 		}
 		if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG)) {
+			/* The same ID may also be an object, keep looking */
 			gj->err = "ID is continuation segment";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* Not a continuation segment, see below. */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
@@ -129,12 +136,16 @@ getjob_iter(void *priv, const char *key,
 		assert(im >= 0);
 		segno = im;
 		if (segno != gjs->segno + 1) {
+			/*
+			 * Segments with identical content have the same ID,
+			 * so this may just be another one of those.
+			 */
 			gj->err =
 			    "Index Inconsistency: "
 			    "Continuation out of order.";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	}
 
-- 
2.43.0


From ce3120333f89dead1e7767a033f493f91471d3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 05/54] fix: store -i must accept an ID with the WARC-Record-ID
 prefix

It passed validation, but was used as if it had no prefix, so store aborted
and left a stale hold behind.
---
 main_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_store.c b/main_store.c
index 79236b7..0d8c5f0 100644
--- a/main_store.c
+++ b/main_store.c
@@ -179,7 +179,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		if (i_arg != NULL) {
-			e = IDX_Valid_Id(aa, i_arg, NULL);
+			e = IDX_Valid_Id(aa, i_arg, &i_arg);
 			if (e != NULL) {
 				fprintf(stderr, "Illegal id (-i): %s\n", e);
 				exit(1);
-- 
2.43.0


From 4b816867db5541ee2e606671865f18e34c2f9afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:55 +0000
Subject: [PATCH 06/54] fix: filter must recognize IDs in upper case hex

They were accepted, but compared case-sensitively to the lower case keys
of the index, and therefore always reported as missing.
---
 main_filter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..9b92ec8 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -173,6 +174,9 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		}
 		REPLACE(c1->id, p);
 		AN(c1->id);
+		/* The index delivers keys in lower case */
+		for (p = c1->id; *p != '\0'; p++)
+			*p = (char)tolower(*p);
 		c2 = VTAILQ_LAST(&candidates, candhead);
 		ncand++;
 		VTAILQ_INSERT_TAIL(&candidates, c1, list);
-- 
2.43.0


From b2621dac1061301c0b81acc8f7a843990012382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 07/54] fix: filter must work when IDs are shorter than 96 bits

The key of an index entry always has 24 hex digits, and comparing all of
them to a shorter ID never matched, so every object was reported missing.
---
 main_filter.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 9b92ec8..51ecfa5 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -112,20 +112,26 @@ filter_iter(void *priv, const char *key,
 {
 	struct cand *c;
 	struct filt *fp;
+	size_t kl;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
 	(void)flag;
 	(void)cont;
 
+	/* An ID can be shorter than the 96 bits of the key */
+	kl = strlen(key);
+	if (kl > fp->aa->id_size)
+		kl = fp->aa->id_size;
+
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
 	if (next_cand == NULL || strcmp(key, fp->last) < 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
-	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
+	while (next_cand != NULL && strncmp(next_cand->id, key, kl) < 0)
 		next_cand = VTAILQ_NEXT(next_cand, sortlist);
 	while (next_cand != NULL &&
-	    !strncmp(key, next_cand->id, strlen(key))) {
+	    !strncmp(key, next_cand->id, kl)) {
 		c = next_cand;
 		next_cand = VTAILQ_NEXT(c, sortlist);
 		if (!s_flag || !filter_s_check(fp, silo, offset, c->id)) {
-- 
2.43.0


From 315b485c620f52f6ab2fe4ae33bad72fd2782e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 08/54] fix: filter -s must check all index entries with the
 same key

When two objects share the 96 bits in the index, and the header of the
first did not match the ID, the second was never looked at.
---
 main_filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index 51ecfa5..8ea8d14 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -125,7 +125,7 @@ filter_iter(void *priv, const char *key,
 
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
-	if (next_cand == NULL || strcmp(key, fp->last) < 0)
+	if (next_cand == NULL || strcmp(key, fp->last) <= 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
 	while (next_cand != NULL && strncmp(next_cand->id, key, kl) < 0)
-- 
2.43.0


From 386ee3e40a432cb18da5b5723c91730f846b0866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:41 +0000
Subject: [PATCH 09/54] fix: filter must not count warcinfo and continuation
 records as objects

Get refuses to deliver those, so an object which happens to have the same
content, and therefore the same ID, is missing until it is stored.  In
particular stow would not send such a file.
---
 main_filter.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index 8ea8d14..590f086 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -115,9 +115,14 @@ filter_iter(void *priv, const char *key,
 	size_t kl;
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
-	(void)flag;
 	(void)cont;
 
+	/* Only objects can be found, not warcinfo or pieces of objects. */
+	if (flag & IDX_F_WARCINFO)
+		return (0);
+	if ((flag & IDX_F_SEGMENTED) && !(flag & IDX_F_FIRSTSEG))
+		return (0);
+
 	/* An ID can be shorter than the 96 bits of the key */
 	kl = strlen(key);
 	if (kl > fp->aa->id_size)
-- 
2.43.0


From 242a1393ddc7c7e3b4330eb7b2c58717c1862199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 10/54] fix: stow must survive more than one job per invocation

The manifest of the first job was left on the ack_list, so that the first
response in the next job was matched up with it.
---
 main_stow.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_stow.c b/main_stow.c
index a3b1ad3..0faed77 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -480,6 +480,7 @@ data_resp(struct stow_job *sj, char *p, size_t len)
 				__func__, __LINE__, cp->digest, pp);
 		}
 		AZ(strncmp(cp->digest, pp, strlen(pp)));
+		VTAILQ_REMOVE(&ack_list, cp, list);
 		metadata(sj, cp);
 		return;
 	}
-- 
2.43.0


From f8602bb5912cd4665ac940c058489d7d91ab0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 11/54] fix: stow must not finish before all missing files have
 been stored

When the manifest already was in the archive, but more than one of the
files was not, the metadata was sent and the connection closed with files
still waiting, or stow got stuck.
---
 main_stow.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 0faed77..bf738af 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -618,7 +618,12 @@ stevedore_out(int fd, void *priv, int revents)
 			exit(2);
 		}
 	}
-	if (sj->meta != NULL)
+	/*
+	 * The manifest may be in the archive already, even if some of
+	 * the files are not, so wait until they are all acknowledged.
+	 */
+	if (sj->meta != NULL && send_fd < 0 &&
+	    VTAILQ_EMPTY(&get_list) && VTAILQ_EMPTY(&ack_list))
 		send_metadata(sj, fd);
 
 	AN(stevedore_0_ev);
-- 
2.43.0


From 1d016fcc96c43962ac8071008e303e52e8b28fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 12/54] fix: stow must not deadlock against the stevedore

With thousands of missing files, the stevedore blocks writing filter
responses, while stow blocks writing file data, and neither reads.
Write so little at a time that stow never blocks.
---
 main_stow.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index bf738af..de38471 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -30,6 +30,7 @@
 #include <ctype.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <poll.h>
 #include <sha256.h>
 #include <stdio.h>
@@ -576,7 +577,13 @@ stevedore_out(int fd, void *priv, int revents)
 		proto_out(fd, PROTO_FILTER, cp->digest, j);
 	}
 	if (send_fd > 0) {
-		i = read(send_fd, buf, sizeof buf);
+		/*
+		 * Writing must never block:  If the stevedore is stuck
+		 * writing responses to us, it will not read anything.
+		 * POLLOUT promises room for PIPE_BUF, some of which the
+		 * filter requests above may have used.
+		 */
+		i = read(send_fd, buf, PIPE_BUF / 2);
 		assert(i >= 0);
 		proto_out(fd, PROTO_DATA, buf, i);
 		if (i > 0)
-- 
2.43.0


From 886cb87adfb99feaf28b49f145dae96d0a8a5e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 13/54] fix: index lookups must not seek to before the first
 record

When an index had few or no keys in the first bucket, or had far fewer
records than estimated because duplicates were merged, the seek ended up
before or inside the bucket header, which was then compared as if it were
a record, and the lookup reported that the ID did not exist.
---
 index.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/index.c b/index.c
index 71a1e23..c8fad62 100644
--- a/index.c
+++ b/index.c
@@ -357,8 +357,8 @@ bucket_seek(const void *rec, FILE *f)
 	long bucket;
 	uint64_t id;
 	unsigned nbucket;
-	unsigned nrec;
-	int64_t off;
+	uint64_t nrec;
+	int64_t off, start;
 
 	AN(rec);
 	AN(f);
@@ -369,6 +369,9 @@ bucket_seek(const void *rec, FILE *f)
 	nbucket = (id >> 40) & 0xff;
 	nrec = id & 0xffffffffff;
 
+	/* The first record comes right after the buckets */
+	start = 1L << (nbucket + 3);
+
 	frac = be64dec(rec);
 	bucket = (long)(frac >> (64 - nbucket));
 	if (bucket > 0) {
@@ -378,10 +381,13 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
+		off += (int64_t)frac;
+		off *= 32;
+		if (off < start)
+			off = start;
+		AZ(fseeko(f, off, SEEK_SET));
 	} else {
-		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
+		AZ(fseeko(f, start, SEEK_SET));
 	}
 }
 
-- 
2.43.0


From 4b7881a3dbf8f240c1f4f43e5910be7843d65273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 14/54] fix: index lookups with short IDs must skip empty
 buckets

The matches may all be in a later bucket than the one the short ID starts
in, and if that one is empty, the seek went past the end of the index.
---
 index.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/index.c b/index.c
index c8fad62..d6c022f 100644
--- a/index.c
+++ b/index.c
@@ -251,6 +251,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 /**********************************************************************/
 
 #define INDEX_ID	0x4161L
+#define BUCKET_EMPTY	(1LL << 31)
 
 struct bucket {
 	unsigned		magic;
@@ -303,7 +304,7 @@ bucket_new(off_t nrec_estimate)
 
 	bp->buckets = calloc(sizeof *bp->buckets, bp->nbucket);
 	for (u = 0; u < bp->nbucket; u++)
-		bp->buckets[u] = 1ULL << 31;
+		bp->buckets[u] = BUCKET_EMPTY;
 	AN(bp->buckets);
 
 	return (bp);
@@ -375,12 +376,21 @@ bucket_seek(const void *rec, FILE *f)
 	frac = be64dec(rec);
 	bucket = (long)(frac >> (64 - nbucket));
 	if (bucket > 0) {
-		frac >>= 40;	// top 24 bits
-		frac *= nrec;	// full 64 bit fraction
-		frac >>= 24;	// predicted record number
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
+		while (off == BUCKET_EMPTY && ++bucket < (1L << nbucket)) {
+			/*
+			 * A short key can match records in later buckets,
+			 * none of which come before the start of theirs.
+			 */
+			frac = (uint64_t)bucket << (64 - nbucket);
+			assert(1 == fread(buf, sizeof buf, 1, f));
+			off = (int64_t)be64dec(buf);
+		}
+		frac >>= 40;	// top 24 bits
+		frac *= nrec;	// full 64 bit fraction
+		frac >>= 24;	// predicted record number
 		off += (int64_t)frac;
 		off *= 32;
 		if (off < start)
-- 
2.43.0


From f82d91c39117f66edd898c62ba91088487073207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 15/54] fix: index lookups must not miss entries while
 housekeeping runs

Housekeeping moves entries from appendix to housekeep to sorted, but the
files were read in another order, so entries could escape the reader.
---
 index.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index d6c022f..0c18466 100644
--- a/index.c
+++ b/index.c
@@ -410,9 +410,14 @@ static const struct idxfiles {
 	const char	*suff;
 	int		sorted;
 } idxfiles[] = {
-	{ SUFF_SORTED,		1 },
+	/*
+	 * In the order housekeeping moves entries along, so an entry
+	 * cannot move from a file we have yet to read to one we already
+	 * have read.
+	 */
 	{ SUFF_APPENDIX,	0 },
 	{ SUFF_HOUSEKEEP,	0 },
+	{ SUFF_SORTED,		1 },
 	{ NULL, 0}
 };
 
@@ -449,9 +454,9 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
+		VSB_delete(vsb);
 		if (f == NULL)
 			continue;
-		VSB_delete(vsb);
 		if (idf->sorted)
 			bucket_seek(key_p, f);
 		do {
-- 
2.43.0


From 62e4c890c64a21a416a7b8d84c0b727784099f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:34 +0000
Subject: [PATCH 16/54] fix: index entries must not get lost if inserted during
 housekeeping

An entry written to the appendix after housekeeping had renamed it and
read to the end of it, disappeared when housekeeping removed the file.
---
 index.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/index.c b/index.c
index 0c18466..d3c7219 100644
--- a/index.c
+++ b/index.c
@@ -136,6 +136,7 @@
 #include <stdlib.h>
 
 #include <sys/endian.h>
+#include <sys/stat.h>
 
 #include "vdef.h"
 
@@ -228,6 +229,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 	uint8_t rec[32];
 	int fd, i;
 	struct vsb *vsb;
+	struct stat st, st2;
 
 	assert(aa->id_size >= 16);
 
@@ -240,11 +242,21 @@ uint32_t silo, uint64_t offset, const char *cont)
 		idx_key_bin(rec + 28, cont, 4);
 
 	vsb = idx_filename(aa, "appendix");
-	fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
-	assert(fd >= 0);
-	i = write(fd, rec, sizeof rec);
-	assert(i == (int)sizeof rec);
-	assert(close(fd) == 0);
+	do {
+		fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
+		assert(fd >= 0);
+		i = write(fd, rec, sizeof rec);
+		assert(i == (int)sizeof rec);
+
+		/*
+		 * If housekeeping took the appendix away under us, it may
+		 * already have read past where we wrote, so do it again.
+		 * Should it have seen the entry, the duplicate is harmless.
+		 */
+		AZ(fstat(fd, &st));
+		i = stat(VSB_data(vsb), &st2);
+		assert(close(fd) == 0);
+	} while (i || st.st_ino != st2.st_ino || st.st_dev != st2.st_dev);
 	VSB_delete(vsb);
 }
 
-- 
2.43.0


From 301d3f6daa1f3ad8ba2564edb50f8d2d1eb9c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 17/54] fix: install silos before making index entries for them

If store crashed in between, or if somebody else looked at the index at
the wrong time, the index had entries for a silo which did not exist, and
everything which tried to follow those asserted.
---
 wsilo.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..7bb2524 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -468,13 +468,16 @@ Wsilo_Install(struct wsilo **slp)
 
 	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
+	 *
+	 * Must happen before any index entries are inserted, they
+	 * should never point to something which is not there.
 	 */
 	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	if (sl->silo_no == sl->aa->cache_first_non_silo) {
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
@@ -489,7 +492,8 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 	struct vsb *vsb;
 	ssize_t s;
 	int i, done = 0;
-	uint32_t sn;
+	uint32_t sn, idx;
+	off_t off;
 	struct aardwarc *aa;
 	const char *t;
 
@@ -561,8 +565,11 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
-	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
+	sn = sl->silo_no;
+	idx = sl->idx;
+	off = sl->hd_start;
 	Wsilo_Install(&sl);
+	IDX_Insert(aa, id, idx, sn, off, rid);
 }
 
 void
-- 
2.43.0


From 9751baaffe77f9fd8b9a35722f863085b939980c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:10 +0000
Subject: [PATCH 18/54] fix: check that the silo is not there once we have the
 hold

Another process could install the silo and release its hold between our
check and our hold, and we would then fail to install ours, and assert.
---
 wsilo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wsilo.c b/wsilo.c
index 7bb2524..07820c3 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -167,6 +167,15 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 		exit(2);
 	}
 
+	if (!stat(VSB_data(vsb), &st)) {
+		/* Somebody else installed it before we got the hold */
+		AZ(unlink(VSB_data(vsb2)));
+		AZ(close(fd));
+		VSB_delete(vsb);
+		VSB_delete(vsb2);
+		return (NULL);
+	}
+
 	ALLOC_OBJ(sl, WSILO_MAGIC);
 	if (sl == NULL)
 		return (NULL);
-- 
2.43.0


From 19186c18792374c7aa8557264e10180e66fa7e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:16 +0000
Subject: [PATCH 19/54] fix: commit the segments of an object in reverse order

If store did not get to commit all the segments, the ones it did commit
were reachable through the index, and get would fail half way through the
object.  Storing the object again did not help if it split differently.
---
 segjob.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/segjob.c b/segjob.c
index 20e3840..ad16e4d 100644
--- a/segjob.c
+++ b/segjob.c
@@ -67,7 +67,7 @@ struct segjob {
 	const char		*ident;
 
 	int			nseg;
-	VTAILQ_HEAD(,segment)	segments;
+	VTAILQ_HEAD(segments_head,segment) segments;
 	struct segment		*cur_seg;
 	struct SHA256Context	sha256_payload[1];
 	struct SHA256Context	sha256_segment[1];
@@ -367,7 +367,11 @@ SegJob_Commit(struct segjob *sj)
 		return (id);
 	}
 
-	VTAILQ_FOREACH(sg, &sj->segments, list) {
+	/*
+	 * Commit the segments in reverse order, so that the first segment,
+	 * and thereby the object, does not exist until all of it does.
+	 */
+	VTAILQ_FOREACH_REVERSE(sg, &sj->segments, segments_head, list) {
 		if (sg->segno == 1)
 			Header_Set(sg->hdr, "WARC-Segment-Number", "1");
 		else
-- 
2.43.0


From 92d31ee5c363a01ab62d7461c477091ca4fdd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 20/54] fix: store must not commit a truncated object after a
 read error

A read error anywhere but in the first block was treated as end of file.
---
 aardwarc.h   | 1 +
 main_store.c | 6 ++++++
 segjob.c     | 7 +++++++
 3 files changed, 14 insertions(+)

diff --git a/aardwarc.h b/aardwarc.h
index 43a7eb3..6b9de43 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -192,6 +192,7 @@ void proto_dispatch_evs(void);
 struct segjob *SegJob_New(struct aardwarc *, const struct header *,
     const char *);
 void SegJob_Feed(struct segjob *, const void *ptr, ssize_t len);
+void SegJob_Abandon(struct segjob *);
 char *SegJob_Commit(struct segjob *);
 
 /* silo.c */
diff --git a/main_store.c b/main_store.c
index 0d8c5f0..6fef458 100644
--- a/main_store.c
+++ b/main_store.c
@@ -268,6 +268,12 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
 
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		SegJob_Abandon(sj);
+		exit(1);
+	}
+
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
 
diff --git a/segjob.c b/segjob.c
index ad16e4d..6132af0 100644
--- a/segjob.c
+++ b/segjob.c
@@ -95,6 +95,13 @@ segjob_destroy(struct segjob *sj)
 	FREE_OBJ(sj);
 }
 
+void
+SegJob_Abandon(struct segjob *sj)
+{
+
+	segjob_destroy(sj);
+}
+
 static void
 segjob_newseg(struct segjob *sj)
 {
-- 
2.43.0


From ce676e54b627f0c6213526fa2c429ee8236acdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 21/54] fix: a failed append must not leave half a record in
 the silo

Store asserted after a short write, for instance because the disk was full,
and left the silo such that audit and reindex assert when they get there.
Undo the append, and fall back to installing the new silo.
---
 wsilo.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 07820c3..174d834 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -440,11 +440,18 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 		before = lseek(fds, 0, SEEK_END);
 		s = writev(fds, iov, 2);
 		after = lseek(fds, 0, SEEK_END);
-		assert(s >= 0);
-		assert((size_t)s == wlen);
-		assert((off_t)s == (after - before));
 
 		AZ(munmap(p, roundup(sl->hold_len, ps)));
+
+		if (s < 0 || (size_t)s != wlen) {
+			/* Leave no half record behind for others to find */
+			fprintf(stderr, "Cannot append to silo %s: %s\n",
+			    VSB_data(fn), s < 0 ? strerror(errno) : "Short write");
+			AZ(ftruncate(fds, before));
+			break;
+		}
+		assert((off_t)s == (after - before));
+
 		// fprintf(stderr, "DEBUG: Wsilo_Append(%u) %ju\n", silono, need);
 
 		need = lseek(fds, 0, SEEK_CUR);
-- 
2.43.0


From 90e58a9fc6fa965ba5e723b37c7663d39863b356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 22/54] fix: audit must cope with missing and out of order
 segments

The loop condition was inverted, so that audit never finished if a segment
was missing, and failed to find segments which come before their predecessor.
Also audit the remaining objects when one lacks a segment.
---
 main_audit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..16df9b2 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -235,10 +235,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			}
 			ap = apn;
 		}
-	} while (ap == ap1);
+	} while (ap != ap1);
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From 2e9ba64766cc9917a0169958d54b9df66d904393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 23/54] fix: audit -i ignore-metadata-record-id must also apply
 to segmented objects

---
 main_audit.c | 60 +++++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 16df9b2..a5f48f9 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -152,15 +152,37 @@ audit_add_one_segment(struct aardwarc *aa, struct audit *ap0, struct audit *ap)
 	Rsilo_Close(&rs);
 }
 
+static void
+audit_check_ident(struct aardwarc *aa, struct vsb *err, struct audit *ap,
+    const char *dig)
+{
+	char *oldid;
+	const char *type;
+	char newid[SHA256_DIGEST_STRING_LENGTH];
+
+	type = Header_Get(ap->hdr, "WARC-Type");
+	AN(type);
+	if (strcmp(type, "metadata") || !ignore_metadata_record_id) {
+		oldid = strdup(Header_Get_Id(ap->hdr));
+		AN(oldid);
+
+		Ident_Create(aa, ap->hdr, dig, newid);
+
+		if (strcmp(oldid, newid)) {
+			VSB_printf(err, "ERROR: WARC-Record-ID difference\n");
+			VSB_printf(err, "\tis:\t\t%s\n", oldid);
+			VSB_printf(err, "\tshould be:\t%s\n", newid);
+		}
+		free(oldid);
+	}
+}
+
 static void
 audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
     struct audit *apn)
 {
 	char buf[64];
 	char dig[SHA256_DIGEST_STRING_LENGTH];
-	char id[SHA256_DIGEST_STRING_LENGTH];
-
-	(void)aa;
 
 	bprintf(buf, "%jd", (intmax_t)ap0->sz);
 	audit_check_header(err, apn, "WARC-Segment-Total-Length", buf);
@@ -168,12 +190,7 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	(void)SHA256_End(ap0->sha256, dig);
 	audit_check_digest_header(err, ap0, "WARC-Payload-Digest", dig);
 
-	Ident_Create(aa, ap0->hdr, dig, id);
-	if (strcmp(id, Header_Get_Id(ap0->hdr))) {
-		VSB_printf(err, "ERROR: %s difference\n", "WARC-Record-ID");
-		VSB_printf(err, "\tis:\t\t%s\n", Header_Get_Id(ap0->hdr));
-		VSB_printf(err, "\tshould be:\t%s\n", id);
-	}
+	audit_check_ident(aa, err, ap0, dig);
 }
 
 static int
@@ -241,31 +258,6 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 	return (-1);
 }
 
-static void
-audit_check_ident(struct aardwarc *aa, struct vsb *err, struct audit *ap,
-    const char *dig)
-{
-	char *oldid;
-	const char *type;
-	char newid[SHA256_DIGEST_STRING_LENGTH];
-
-	type = Header_Get(ap->hdr, "WARC-Type");
-	AN(type);
-	if (strcmp(type, "metadata") || !ignore_metadata_record_id) {
-		oldid = strdup(Header_Get_Id(ap->hdr));
-		AN(oldid);
-
-		Ident_Create(aa, ap->hdr, dig, newid);
-
-		if (strcmp(oldid, newid)) {
-			VSB_printf(err, "ERROR: WARC-Record-ID difference\n");
-			VSB_printf(err, "\tis:\t\t%s\n", oldid);
-			VSB_printf(err, "\tshould be:\t%s\n", newid);
-		}
-		free(oldid);
-	}
-}
-
 static int
 audit_one(struct aardwarc *aa, struct vsb *err, struct audit *ap)
 {
-- 
2.43.0


From a88b040240f32a056cf5a437064a18a493a0ab01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 24/54] fix: audit must not stop at the first missing silo
 number

Silo numbers can be skipped, for instance because of a stale hold, and the
silos after the gap were never looked at.
---
 main_audit.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index a5f48f9..66c6ba6 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -367,6 +367,16 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_iter_silo(void *priv, const void *fn, ssize_t silono)
+{
+	struct aardwarc *aa;
+
+	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
+	(void)fn;	/* Will not stay around for segments */
+	return (audit_silo(aa, NULL, (int)silono));
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -384,7 +394,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -411,9 +421,7 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		(void)Silo_Iter(aa, audit_iter_silo, aa);
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
-- 
2.43.0


From a306da9aa1a4467ca2633c71bbd7550fa5d7392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 25/54] fix: rebuild must not write past the end of its buffer

---
 main_rebuild.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 2feeef0..f76e6b3 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -238,7 +238,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	z_stream	zs[1];
 	int		ps = getpagesize();
 	unsigned char	ibuf[ps * 16];
-	unsigned char	obuf[ps * 16];
+	unsigned char	obuf[ps * 16 + 1];
 	FILE		*fi;
 	size_t		rz;
 	ssize_t		oz;
@@ -266,7 +266,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	do {
 		zs->next_out = (void*)obuf;
-		zs->avail_out = sizeof obuf;
+		zs->avail_out = sizeof obuf - 1;
 		if (!zs->avail_in) {
 			rz = fread(ibuf, 1, sizeof ibuf, fi);
 			if (!rz)
@@ -275,7 +275,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 			zs->avail_in = rz;
 		}
 		i = inflate(zs, 0);
-		oz = sizeof obuf - zs->avail_out;
+		oz = sizeof obuf - 1 - zs->avail_out;
 		obuf[oz] = '\0';
 		rebuild_process(rb, obuf, oz);
 		if (i == Z_STREAM_END) {
-- 
2.43.0


From 52e6d771ca2b8708659641d3de715c1b036c3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 26/54] fix: dumpindex -t must not hide segmented objects

---
 main_dumpindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index 77fcb25..f1b8427 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -57,7 +57,7 @@ dumpindex_iter(void *priv, const char *key,
 	uint32_t *u;
 
 	u = priv;
-	if (*u != 0 && flag != *u)
+	if (*u != 0 && !(flag & *u))
 		return (0);
 	printf("%s 0x%08x %8u %12jd %s\n", key, flag, silo, offset, cont);
 	return(0);
-- 
2.43.0


From 03da7db65713de6a4c94de084bd375c948b4f708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 27/54] fix: housekeeping must merge duplicate index entries

---
 index.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index d3c7219..d752a00 100644
--- a/index.c
+++ b/index.c
@@ -595,7 +595,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 {
 	int retval = 0;
 	int fd;
-	ssize_t sz;
+	ssize_t sz, j, k;
 	int i;
 
 	i = link(VSB_data(vsba), VSB_data(vsbh));
@@ -639,7 +639,13 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 			break;
 		AZ(sz & 0x1f);
 		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
-		idx_merge(aa, spc, sz);
+		/* The merge only drops duplicates of already sorted entries */
+		for (j = k = 32; k < sz; k += 32)
+			if (memcmp(spc + k, spc + j - 32, 32)) {
+				memmove(spc + j, spc + k, 32);
+				j += 32;
+			}
+		idx_merge(aa, spc, j);
 	} while (sz == (ssize_t)aa->index_sort_size);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
-- 
2.43.0


From 40b87d40c6af8e0b59c83605709982af46c7dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:36 +0000
Subject: [PATCH 28/54] fix: audit must refuse an unknown -i argument

It printed the usage and went on to audit without it, exit status zero.
---
 main_audit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main_audit.c b/main_audit.c
index 66c6ba6..2c6623d 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -409,8 +409,10 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		case 'i':
 			if (!strcmp(optarg, "ignore-metadata-record-id"))
 				ignore_metadata_record_id = 1;
-			else
+			else {
 				usage_audit(a0, a00, "Unknown -i argument.");
+				exit(1);
+			}
 			break;
 		default:
 			usage_audit(a0, a00, "Unknown option error.");
-- 
2.43.0


From 002b895774055c288c74e517baf4d269f6708112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 29/54] fix: audit must report silos it cannot open

It said nothing about them, and did not audit the silos after them either.
---
 main_audit.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 2c6623d..35c6bf8 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -309,8 +310,11 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 
 	rs = Rsilo_Open(aa, fn, nsilo, 0);
-	if (rs == NULL)
-		return (-1);
+	if (rs == NULL) {
+		printf("ERROR: Cannot open silo %s #%d: %s\n",
+		    fn != NULL ? fn : "", nsilo, strerror(errno));
+		return (0);
+	}
 	printf("Audit silo %s #%d\n", fn, nsilo);
 
 	vsberr = VSB_new_auto();
-- 
2.43.0


From fb3f13abd7bcd317558d2c8f4a6e16bb1d2d1a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:26 +0000
Subject: [PATCH 30/54] fix: audit must not accept a total length in the first
 segment

WARC-Segment-Total-Length belongs in the last segment, in the first one it was
not looked at, whatever it said.
---
 main_audit.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main_audit.c b/main_audit.c
index 35c6bf8..716011a 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -288,6 +288,10 @@ audit_one(struct aardwarc *aa, struct vsb *err, struct audit *ap)
 		ap->segment = strtoul(is, &p, 0);
 		if (p == is || (p != NULL && *p != '\0'))
 			VSB_printf(err, "ERROR: Bad WARC-Segment-Number\n");
+		if (ap->segment == 1 &&
+		    Header_Get(ap->hdr, "WARC-Segment-Total-Length") != NULL)
+			VSB_printf(err,
+			    "ERROR: WARC-Segment-Total-Length in first segment\n");
 	}
 
 	if (is == NULL || strcmp(is, "1"))
-- 
2.43.0


From b5e4cd50b3582022e5d60c5ae3cda0731bc06987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:59 +0000
Subject: [PATCH 31/54] fix: reindex gave left over segments the successors of
 others

Segments which are left over after matching those of the silos up are
looked up in the index, but any segment with the same ID would do, so
that a segment could get the successor another one with the same
content has, even if it is the last one.
---
 main_reindex.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2d0049e..e636ef1 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -125,14 +125,16 @@ reindex_iter(void *priv, const char *key,
 {
 	struct seg *seg, *seg2;
 
-	(void)silo;
-	(void)offset;
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
+		/* Other segments can have the same content, hence ID */
+		if (seg->silono != (ssize_t)silo || seg->off != offset)
+			continue;
 		if (!strncmp(key, seg->id, 16)) {
-			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
-			    seg->off, cont);
+			if (!seg->done)
+				IDX_Insert(priv, seg->id, seg->flg,
+				    seg->silono, seg->off, cont);
 			seg->done++;
 			drop_seg(seg);
 		}
-- 
2.43.0


From 3e15b2d823b19b1c561eea60e5fb3b475770bd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:38 +0000
Subject: [PATCH 32/54] fix: commands must report errors on standard output

Nobody looked at whether what store, filter, dumpindex etc. print made it
out of stdio, so with a full disk the exit status was zero anyway.
---
 main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 005be74..dc058e8 100644
--- a/main.c
+++ b/main.c
@@ -196,5 +196,12 @@ main(int argc, char **argv)
 	VSB_delete(vsb2);
 	VSB_delete(vsb3);
 
-	return (call_main(a0, aa, argc, argv));
+	ch = call_main(a0, aa, argc, argv);
+
+	/* What was printed has not been delivered until it has left stdio */
+	if ((fflush(stdout) || ferror(stdout)) && ch == 0) {
+		fprintf(stderr, "Output error\n");
+		ch = 1;
+	}
+	return (ch);
 }
-- 
2.43.0


From fc78f54160221a39e5c35ab47eaa2ffefc579257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:44 +0000
Subject: [PATCH 33/54] fix: store must give up if it cannot create directories

When mkdir(2) fails, Wsilo_New() fails, and Wsilo_Next() tried the next
silo number for ever.  Somebody else having made the directory in the
meantime is not a failure.
---
 wsilo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 174d834..f38f0ca 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -99,7 +99,7 @@ silo_mkparentdir(const char *path)
 		if (i < 0)
 			return (i);
 		i = mkdir(p, 0755);
-		if (i < 0)
+		if (i < 0 && errno != EEXIST)
 			return (i);
 		i = stat(p, &st);
 	}
@@ -138,7 +138,7 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	if (j) {
 		fprintf(stderr, "MKDIR %d %d %s\n",
 		    j, errno, strerror(errno));
-		return (NULL);
+		exit(2);
 	}
 
 	if (!stat(VSB_data(vsb2), &st)) {
-- 
2.43.0


From fea5a615cb28f5a0580aa5f4e677c8aa09d5e1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:20 +0000
Subject: [PATCH 34/54] fix: index lookups must not ignore unreadable index
 files

If an index file could not be opened or read, its entries were simply not
found, so that dumpindex and filter gave wrong results without any error,
and store stored things again.
---
 index.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index d752a00..76c3dd0 100644
--- a/index.c
+++ b/index.c
@@ -467,8 +467,9 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
 		VSB_delete(vsb);
-		if (f == NULL)
+		if (f == NULL && errno == ENOENT)
 			continue;
+		AN(f);
 		if (idf->sorted)
 			bucket_seek(key_p, f);
 		do {
@@ -498,6 +499,7 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 			i = func(priv, key, be32dec(rec + 12),
 			    be32dec(rec + 16), off, cont);
 		} while (i == 0);
+		AZ(ferror(f));
 		AZ(fclose(f));
 		if (i)
 			break;
-- 
2.43.0


From f3452029f4045253df263bf04db3fd395abba422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:26 +0000
Subject: [PATCH 35/54] fix: housekeeping must not lose index entries on I/O
 errors

A sorted index which could not be opened was taken for not being there,
a read error for the end of the file, and write errors before the last
one were ignored, all of which lost entries when the result was renamed.
Also report failure with the exit status.
---
 aardwarc.h          |  2 +-
 index.c             | 29 ++++++++++++++++++++---------
 main_housekeeping.c |  4 +---
 main_reindex.c      |  3 +--
 4 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 6b9de43..855682f 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -152,7 +152,7 @@ typedef int idx_iter_f(void *priv, const char *key,
 int IDX_Iter(const struct aardwarc *aa, const char *key_part,
     idx_iter_f *func, void *priv);
 
-void IDX_Resort(const struct aardwarc *aa);
+int IDX_Resort(const struct aardwarc *aa);
 
 const char *IDX_Valid_Id(const struct aardwarc *,
     const char *id, const char **nid);
diff --git a/index.c b/index.c
index 76c3dd0..02109d5 100644
--- a/index.c
+++ b/index.c
@@ -353,13 +353,13 @@ bucket_write(const struct bucket *bp, FILE *f)
 		((int64_t)bp->bbucket << 40) |
 		(int64_t)bp->nrec;
 
-	fflush(f);
+	AZ(fflush(f));
 	AZ(fseeko(f, 0, SEEK_SET));
 	for (i = 0; i < bp->nbucket; i++) {
 		be64enc(buf, bp->buckets[i]);
 		assert(1 == fwrite(buf, 8, 1, f));
 	}
-	fflush(f);
+	AZ(fflush(f));
 }
 
 static void
@@ -527,6 +527,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	assert(f1 != NULL || errno == ENOENT);
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
@@ -569,6 +570,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 			sz = fwrite(rec, 32, 1, f2);
 			assert(sz == 1);
 		}
+		AZ(ferror(f1));
 		AZ(fclose(f1));
 	}
 	while (len > 0)  {
@@ -624,7 +626,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
@@ -648,19 +649,19 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 				j += 32;
 			}
 		idx_merge(aa, spc, j);
-	} while (sz == (ssize_t)aa->index_sort_size);
+	} while (1);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
 	return (retval);
 }
 
-void
+int
 IDX_Resort(const struct aardwarc *aa)
 {
 
 	struct vsb *vsba, *vsbh, *vsb4;
 	uint8_t	*spc;
-	int fdh;
+	int fdh, retval = -1;
 
 	vsb4 = idx_filename(aa, SUFF_HOLD);
 
@@ -670,7 +671,14 @@ IDX_Resort(const struct aardwarc *aa)
 		    "Housekeeping 'hold' already file exists (%s)\n",
 		    VSB_data(vsb4));
 		VSB_delete(vsb4);
-		return;
+		return (0);
+	}
+	if (fdh < 0) {
+		fprintf(stderr,
+		    "Error opening housekeeping 'hold' (%s): %s\n",
+		    VSB_data(vsb4), strerror(errno));
+		VSB_delete(vsb4);
+		return (-1);
 	}
 
 	spc = malloc(aa->index_sort_size);
@@ -682,8 +690,9 @@ IDX_Resort(const struct aardwarc *aa)
 		vsba = idx_filename(aa, SUFF_APPENDIX);
 		vsbh = idx_filename(aa, SUFF_HOUSEKEEP);
 
-		while(idx_attempt_merge(aa, spc, vsba, vsbh) > 0)
-			continue;
+		do {
+			retval = idx_attempt_merge(aa, spc, vsba, vsbh);
+		} while (retval > 0);
 
 		VSB_delete(vsba);
 		VSB_delete(vsbh);
@@ -691,4 +700,6 @@ IDX_Resort(const struct aardwarc *aa)
 	}
 	AZ(unlink(VSB_data(vsb4)));
 	AZ(close(fdh));
+	VSB_delete(vsb4);
+	return (retval);
 }
diff --git a/main_housekeeping.c b/main_housekeeping.c
index bf63902..0baafe0 100644
--- a/main_housekeeping.c
+++ b/main_housekeeping.c
@@ -72,7 +72,5 @@ main_housekeeping(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	AZ(argc);
 	AZ(*argv);
 
-	IDX_Resort(aa);
-
-	return (0);
+	return (IDX_Resort(aa) ? 1 : 0);
 }
diff --git a/main_reindex.c b/main_reindex.c
index e636ef1..ba8371e 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -259,8 +259,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		Rsilo_NextHeader(rs);
 	}
 	Rsilo_Close(&rs);
-	IDX_Resort(aa);
-	return (0);
+	return (IDX_Resort(aa));
 }
 
 static void
-- 
2.43.0


From 6e0310f5991082da36bfef9723517aba8ac82afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:43 +0000
Subject: [PATCH 36/54] fix: a short write must not ruin the index appendix

If the disk filled up in the middle of an index entry, the half entry was
left in the appendix, and all commands which read the index failed from
then on.
---
 index.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index.c b/index.c
index 02109d5..2385b00 100644
--- a/index.c
+++ b/index.c
@@ -246,6 +246,11 @@ uint32_t silo, uint64_t offset, const char *cont)
 		fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
 		assert(fd >= 0);
 		i = write(fd, rec, sizeof rec);
+		if (i > 0 && i < (int)sizeof rec) {
+			/* Nobody can read what follows half a record */
+			AZ(fstat(fd, &st));
+			AZ(ftruncate(fd, st.st_size - st.st_size % 32));
+		}
 		assert(i == (int)sizeof rec);
 
 		/*
-- 
2.43.0


From 50c49d985ea291e764b91d43fcc3b130390597fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:08 +0000
Subject: [PATCH 37/54] fix: reindex and audit must not ignore silos they
 cannot get at

Silo_Iter() took any failure to stat(2) a silo for the silo not being
there, and returned success even if the function it called for the silos
did not, so reindex left silos out with exit status zero.
---
 main_audit.c | 3 ++-
 silo.c       | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 716011a..d43624d 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -431,7 +431,8 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		(void)Silo_Iter(aa, audit_iter_silo, aa);
+		if (Silo_Iter(aa, audit_iter_silo, aa))
+			printf("ERROR: Not all silos could be examined\n");
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
diff --git a/silo.c b/silo.c
index a99e7b1..f4fd148 100644
--- a/silo.c
+++ b/silo.c
@@ -28,6 +28,8 @@
  */
 
 #include <errno.h>
+#include <stdio.h>
+#include <string.h>
 #include <sys/stat.h>
 
 #include "vdef.h"
@@ -107,7 +109,12 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 		i = stat(VSB_data(vsb), &st);
 		if (!i && S_ISREG(st.st_mode))
 			retval = func(priv, VSB_data(vsb), u);
+		else if (i && errno != ENOENT) {
+			fprintf(stderr, "Cannot stat silo %s: %s\n",
+			    VSB_data(vsb), strerror(errno));
+			retval = -1;
+		}
 		VSB_delete(vsb);
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From 67e3056dc545509da4777fd7b374a6b02d480a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 38/54] fix: rebuild and filter must report I/O errors

---
 main_filter.c  | 8 ++++++++
 main_rebuild.c | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index 590f086..b79dec6 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -195,6 +195,10 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		if (c2 != NULL && strcmp(c2->id, c1->id) > 0)
 			retval = 1;
 	}
+	if (ferror(fi)) {
+		fprintf(stderr, "Input read error\n");
+		exit(1);
+	}
 	return (retval);
 }
 
@@ -311,5 +315,9 @@ main_filter(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		FREE_OBJ(c);
 	}
 	FREE_OBJ(fp);
+	if (fo != stdout && (fflush(fo) || ferror(fo))) {
+		fprintf(stderr, "Output error\n");
+		return (1);
+	}
 	return (0);
 }
diff --git a/main_rebuild.c b/main_rebuild.c
index f76e6b3..b48f3ab 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -249,7 +249,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	if (fi == NULL) {
 		fprintf(stderr,
 		    "Cannot open %s: %s\n", (const char*)fn, strerror(errno));
-		return (0);
+		return (-1);
 	}
 	fprintf(stderr, "SILO NO %zd FN %s\n", silono, (const char *)fn);
 	VSB_clear(rb->vsb);
@@ -287,6 +287,12 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 
 	AZ(close(rb->fdo));
 
+	if (i != Z_OK || ferror(fi)) {
+		fprintf(stderr, "Cannot read %s\n", (const char*)fn);
+		AZ(fclose(fi));
+		return (-1);
+	}
+	AZ(fclose(fi));
 	return(0);
 }
 
-- 
2.43.0


From 2e6f576a3594228917520015af805f75e60adb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:52 +0000
Subject: [PATCH 39/54] fix: stow: do not report success when the stevedore
 never acknowledged the metadata

---
 main_stow.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_stow.c b/main_stow.c
index de38471..b925377 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -103,6 +103,7 @@ struct stow_job {
 	SHA256_CTX		mtree_sha;
 
 	struct subj		*meta;
+	int			stowed;
 
 	FILE *			missing;
 	FILE *			changed;
@@ -541,6 +542,7 @@ stevedore_in(int fd, void *priv, int revents)
 		break;
 	case PROTO_META:
 		fprintf(stderr, "STOWED as %s\n", (char*)u);
+		sj->stowed = 1;
 		proto_del_ev(&stevedore_0_ev);
 		break;
 	default:
@@ -783,6 +785,10 @@ main_stow(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			    WEXITSTATUS(st), WTERMSIG(st), WCOREDUMP(st));
 			exit(2);
 		}
+		if (!sj->stowed) {
+			fprintf(stderr, "Job %s did not complete\n", sj->job);
+			exit(2);
+		}
 
 		fprintf(stderr, "Done job %s\n", sj->job);
 	}
-- 
2.43.0


From baa024fe2e6d1e04fd67d8e21b22fd9ffc4e47e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 40/54] fix: stevedore: wait for the reply to one metadata
 object before reading on

---
 main_stevedore.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..3e6d8f3 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -414,6 +414,8 @@ input(int fd, void *priv, int revents)
 			AZ(close(meta_job->fd_to));
 			meta_job->fd_to = -1;
 			meta_job = NULL;
+			/* As for PROTO_DATA, and meta_line() needs stdin_ev */
+			proto_ctl_ev(stdin_ev, 0);
 		}
 		break;
 	default:
-- 
2.43.0


From d643a2ecaa60db42a8334b8e97ce76391af6702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 41/54] fix: stevedore: end of input in the middle of an object
 hung the stevedore

---
 main_stevedore.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index 3e6d8f3..b2a6584 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -306,6 +306,16 @@ start_meta(char *ref)
 
 /**********************************************************************/
 
+static void
+input_eof(void)
+{
+
+	proto_del_ev(&stdin_ev);
+	/* The job would wait for the rest, and we for the job */
+	if (store_job != NULL || meta_job != NULL)
+		exit(3);
+}
+
 static void v_matchproto_(proto_ev_func_f)
 input(int fd, void *priv, int revents)
 {
@@ -318,7 +328,7 @@ input(int fd, void *priv, int revents)
 	(void)revents;
 	i = proto_in(fd, &cmd, &size);
 	if (i == 0) {
-		proto_del_ev(&stdin_ev);
+		input_eof();
 		return;
 	}
 	if (i != 1)
@@ -337,8 +347,9 @@ input(int fd, void *priv, int revents)
 			while (size > j) {
 				i = read(0, fp->id + j, size - j);
 				if (i == 0) {
-					proto_del_ev(&stdin_ev);
+					VTAILQ_REMOVE(&filter_queue, fp, list);
 					FREE_OBJ(fp);
+					input_eof();
 					return;
 				}
 				j += i;
@@ -386,7 +397,7 @@ input(int fd, void *priv, int revents)
 			while (size > j) {
 				i = read(0, buf + j, size - j);
 				if (i == 0) {
-					proto_del_ev(&stdin_ev);
+					input_eof();
 					return;
 				}
 				j += i;
@@ -426,8 +437,10 @@ input(int fd, void *priv, int revents)
 				i = read(0, buf, size);
 			else
 				i = read(0, buf, sizeof buf);
-			if (i == 0)
+			if (i == 0) {
+				input_eof();
 				return;
+			}
 			size -= i;
 		}
 		break;
-- 
2.43.0


From 878fc5afcfad722e664f5b40eb3ea096916575b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 42/54] fix: stevedore: do not answer filter requests when the
 filter failed

---
 main_stevedore.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/main_stevedore.c b/main_stevedore.c
index b2a6584..a103378 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -184,15 +184,18 @@ static int
 filter_end(struct job *jp)
 {
 	uint8_t buf[4];
+	unsigned u;
 
 	CHECK_OBJ_NOTNULL(jp, JOB_MAGIC);
 	filter_job = NULL;
 
-	if (jp->filter_skip) {
-		be32enc(buf, jp->filter_skip);
+	/* Only if the job succeeded do we know that nothing was missing */
+	u = jp->filter_skip;
+	job_end(jp);
+	if (u) {
+		be32enc(buf, u);
 		proto_out(1, PROTO_FILTER, buf, sizeof buf);
 	}
-	job_end(jp);
 	if (!VTAILQ_EMPTY(&filter_queue))
 		start_filter();
 	return (0);
-- 
2.43.0


From 514a0f3ec48d51690bba7ce273c9049ba19c7c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 43/54] fix: one spelling of the -r reference

The reference goes into the ID of a metadata object.  It was taken as
spelled, so upper case hex digits or prefix gave another ID, and the
same metadata about the same object was stored again.
---
 main_store.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/main_store.c b/main_store.c
index 6fef458..f48d60c 100644
--- a/main_store.c
+++ b/main_store.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <fcntl.h>
 #include <stdio.h>
@@ -99,7 +100,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	struct header *hdr;
 	struct getjob *gj;
 	struct segjob *sj;
-	char *id;
+	char *id, *p;
 	const char *a00 = *argv;
 	char *ibuf_ptr;
 	const char *r_arg = NULL;
@@ -186,15 +187,15 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			}
 		}
 
-		e = IDX_Valid_Id(aa, r_arg, NULL);
+		e = IDX_Valid_Id(aa, r_arg, &r_arg);
 		if (e != NULL) {
 			usage_store(a0, a00, e);
 			exit(1);
 		}
-		if (strlen(r_arg) == aa->id_size)
-			ref = Digest2Ident(aa, r_arg);
-		else
-			ref = r_arg;
+		/* One spelling of the reference, it goes into the ID */
+		ref = p = Digest2Ident(aa, r_arg);
+		for (p += strlen(aa->prefix); *p != '\0'; p++)
+			*p = (char)tolower(*p);
 	}
 
 	/* Figure out the input file ----------------------------------*/
-- 
2.43.0


From 3ee65b145832163634a7c33080f01df70ff33f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:38 +0000
Subject: [PATCH 44/54] fix: reindex took the number of a silo from its file
 name

The file name need not start with the number, nor have a directory part.
---
 main_reindex.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index ba8371e..2fc8c07 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -35,6 +35,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "vdef.h"
@@ -205,6 +206,24 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 		try_seg(aa, seg2);
 }
 
+struct silo_number {
+	struct stat	st;
+	ssize_t		silono;
+};
+
+static int v_matchproto_(byte_iter_f)
+silo_number_iter(void *priv, const void *fn, ssize_t silono)
+{
+	struct silo_number *sn = priv;
+	struct stat st;
+
+	if (stat(fn, &st) ||
+	    st.st_dev != sn->st.st_dev || st.st_ino != sn->st.st_ino)
+		return (0);
+	sn->silono = silono;
+	return (1);
+}
+
 static int v_matchproto_(byte_iter_f)
 silo_iter(void *priv, const void *fn, ssize_t silono)
 {
@@ -214,7 +233,8 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 	off_t off, segno;
 	intmax_t im;
 	uint32_t flg;
-	const char *p, *wt;
+	const char *wt;
+	struct silo_number sn;
 
 	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
 
@@ -223,10 +243,15 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		return (-1);
 
 	if (silono < 0) {
-		p = strrchr(fn, '/');
-		AN(p);
-		p++;
-		silono = (ssize_t)strtoul(p, NULL, 10);
+		/* The file name need not start with the number */
+		if (stat(fn, &sn.st) ||
+		    Silo_Iter(aa, silo_number_iter, &sn) != 1) {
+			fprintf(stderr, "Not a silo of this archive: %s\n",
+			    (const char *)fn);
+			Rsilo_Close(&rs);
+			return (-1);
+		}
+		silono = sn.silono;
 	}
 
 	while (1) {
-- 
2.43.0


From 7e7e6e54ab194385bb2e9c0112f460355dbcf4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 45/54] fix: reindex must not insert index entries which are
 there already

Segments which got matched again ended up in the index twice.
---
 main_reindex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2fc8c07..bcc9b22 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -126,6 +126,8 @@ reindex_iter(void *priv, const char *key,
 {
 	struct seg *seg, *seg2;
 
+	(void)priv;
+	(void)cont;
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
@@ -133,9 +135,7 @@ reindex_iter(void *priv, const char *key,
 		if (seg->silono != (ssize_t)silo || seg->off != offset)
 			continue;
 		if (!strncmp(key, seg->id, 16)) {
-			if (!seg->done)
-				IDX_Insert(priv, seg->id, seg->flg,
-				    seg->silono, seg->off, cont);
+			/* It is in the index already */
 			seg->done++;
 			drop_seg(seg);
 		}
-- 
2.43.0


From 9f6d4e6043e35909ef0d6681191e8c9602430f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 46/54] fix: mksilo must refuse what is not one silo number

Anything which is not a number made silo zero, bigger numbers than there are
got truncated, and further arguments were ignored.
---
 main_mksilo.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/main_mksilo.c b/main_mksilo.c
index 30bddeb..bb80cac 100644
--- a/main_mksilo.c
+++ b/main_mksilo.c
@@ -27,7 +27,10 @@
  *
  */
 
+#include <ctype.h>
 #include <fcntl.h>
+#include <inttypes.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -53,7 +56,8 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
 	int ch, retval = 0;
 	const char *a00 = *argv;
-	unsigned u;
+	uintmax_t u;
+	char *p;
 	struct wsilo *ws;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
@@ -77,8 +81,16 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		usage_mksilo(a0, a00, "No silo#.");
 		exit(1);
 	}
-	u = strtoul(argv[0], NULL, 0);
-	ws = Wsilo_New(aa, u);
+	if (argc > 1) {
+		usage_mksilo(a0, a00, "Too many silo#.");
+		exit(1);
+	}
+	u = strtoumax(argv[0], &p, 0);
+	if (!isdigit(argv[0][0]) || *p != '\0' || u > UINT32_MAX) {
+		usage_mksilo(a0, a00, "Bad silo#.");
+		exit(1);
+	}
+	ws = Wsilo_New(aa, (uint32_t)u);
 	if (ws == NULL) {
 		usage_mksilo(a0, a00, "Could not.");
 		exit(1);
-- 
2.43.0


From 34ffbebe7b5a81e84995dbf200ae7f94e4a6d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:56 +0000
Subject: [PATCH 47/54] fix: stow must cope with long directory names

The vis(3) encoding makes a path up to four times as long as it is.
---
 main_stow.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index b925377..886e35a 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -113,7 +113,6 @@ static VTAILQ_HEAD(,stow_job)	job_list = VTAILQ_HEAD_INITIALIZER(job_list);
 
 /**********************************************************************/
 
-static char mtree_path[4096];
 static int mtree_type_dir;
 static struct dir *pwd;
 static int send_fd = -1;
@@ -122,7 +121,7 @@ static void
 mtree_interpret(char *line)
 {
 	char *word, *w0;
-	char *p, *digest;
+	char *digest;
 	int dir = mtree_type_dir;
 	struct dir *dp = NULL;
 	struct subj *cp;
@@ -140,10 +139,6 @@ mtree_interpret(char *line)
 				mtree_type_dir = 0;
 		}
 	} else if (!strcmp(word, "..")) {
-		p = strrchr(mtree_path, '/');
-		if (p == NULL)
-			p = mtree_path;
-		*p = '\0';
 		AN(pwd);
 		pwd = pwd->parent;
 	} else {
@@ -179,13 +174,15 @@ mtree_interpret(char *line)
 			VTAILQ_INSERT_TAIL(&subj_list, cp, list);
 			proto_ctl_ev(stevedore_0_ev, 1);
 		} else {
-			strcat(mtree_path, "/");
-			strcat(mtree_path, w0);
-			// printf("D %s\n", mtree_path + 1);
 			ALLOC_OBJ(dp, DIR_MAGIC);
 			AN(dp);
-			dp->dirname = strdup(mtree_path + 1);
+			if (pwd == NULL)
+				dp->dirname = strdup(w0);
+			else if (asprintf(&dp->dirname, "%s/%s",
+			    pwd->dirname, w0) < 0)
+				dp->dirname = NULL;
 			AN(dp->dirname);
+			// printf("D %s\n", dp->dirname);
 			dp->parent = pwd;
 			pwd = dp;
 			VTAILQ_INSERT_TAIL(&dir_list, dp, list);
-- 
2.43.0


From c2bac7ca7ddfbd0e39e0ad5b20653b36e017b10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:02 +0000
Subject: [PATCH 48/54] fix: a configuration with a syntax error must be
 refused

Everything after the error was ignored, settings got their default values.
---
 config.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/config.c b/config.c
index 925cc65..20e7ad5 100644
--- a/config.c
+++ b/config.c
@@ -106,7 +106,7 @@ config_parse(struct config *cfg)
 				return ("Section colon trouble");
 			*r = '\0';
 			VTAILQ_FOREACH(sc, &cfg->sections, list)
-				if (!strcmp(sc->name, p))
+				if (!strcasecmp(sc->name, p))
 					return ("Duplicate sections");
 			ALLOC_OBJ(sc, SECTION_MAGIC);
 			AN(sc);
@@ -199,8 +199,13 @@ Config_Read(const char *fn)
 	}
 	cfg->space[st.st_size] = '\0';
 	e = config_parse(cfg);
-	if (e != NULL)
+	if (e != NULL) {
+		/* What comes after the trouble has not been read */
 		fprintf(stderr, "Config = %s\n", e);
+		config_destroy(cfg);
+		errno = EINVAL;
+		return (NULL);
+	}
 
 	return (cfg);
 }
-- 
2.43.0


From 75ddccd441878a89f971feae17d618dd90e6c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:08 +0000
Subject: [PATCH 49/54] fix: impossible settings must be refused

Settings with more or less than one value silently got the default value,
negative and enormous sizes came out as something else, and a silo.basename
without a number was accepted.
---
 aardwarc.c | 71 ++++++++++++++++++++++++++++++++++++------------------
 vnum.c     |  7 +++++-
 2 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/aardwarc.c b/aardwarc.c
index 611c362..7e156f5 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -43,13 +43,51 @@
 
 #include "aardwarc.h"
 
+/*
+ * A setting which has a default value: If it is in the config it must
+ * have precisely one value.
+ */
+
+static int
+setting(const struct aardwarc *aa, struct vsb *err, const char *name,
+    const char **pp, const char *dflt)
+{
+
+	if (!Config_Get(aa->cfg, name, pp, NULL))
+		return (0);
+	if (errno != ENOENT) {
+		VSB_printf(err, "'%s' must have precisely one value.\n", name);
+		return (-1);
+	}
+	*pp = dflt;
+	return (0);
+}
+
+static int
+size_setting(const struct aardwarc *aa, struct vsb *err, const char *name,
+    off_t *dst, const char *dflt)
+{
+	const char *p, *p2;
+	uintmax_t um;
+
+	if (setting(aa, err, name, &p, dflt))
+		return (-1);
+	p2 = VNUM_2bytes(p, &um, 0);
+	if (p2 != NULL) {
+		VSB_printf(err, "'%s' size \"%s\":\t%s\n", name, p, p2);
+		return (-1);
+	}
+	*dst = (off_t)um;
+	return (0);
+}
+
 struct aardwarc *
 AardWARC_New(const char *config_file, struct vsb *err)
 {
 	int e;
 	struct aardwarc *aa;
-	const char *p, *p2;
-	uintmax_t um;
+	const char *p;
+	static const char pct_u[] = "%u";
 
 	ALLOC_OBJ(aa, AARDWARC_MAGIC);
 	if (aa == NULL)
@@ -104,22 +142,15 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "silo.max_size", &p, NULL))
-			p = "3.5G";
-
-		p2 = VNUM_2bytes(p, &um, 0);
-		if (p2 != NULL) {
-			VSB_printf(err,
-			    "'silo.max_size' size \"%s\":\t%s\n", p, p2);
+		if (size_setting(aa, err,
+		    "silo.max_size", &aa->silo_maxsize, "3.5G"))
 			break;
-		}
-		aa->silo_maxsize = (off_t)um;
-		assert(um == (uintmax_t)aa->silo_maxsize);
 
-		if (Config_Get(aa->cfg, "silo.basename", &p, NULL))
-			p = "%08u.warc.gz";
+		if (setting(aa, err, "silo.basename", &p, "%08u.warc.gz"))
+			break;
 
-		if (fmtcheck(p, "%u") != p) {
+		/* (fmtcheck allows the first argument to have fewer patterns) */
+		if (fmtcheck(p, pct_u) != p || fmtcheck(pct_u, p) != pct_u) {
 			VSB_printf(err,
 			    "'silo.basename' wrong format. %s\n",
 			    "Must have a single %u compatible printf-pattern");
@@ -132,15 +163,9 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "index.sort_size", &p, NULL))
-			p = "10M";
-		p2 = VNUM_2bytes(p, &um, 0);
-		if (p2 != NULL) {
-			VSB_printf(err,
-			    "'index.sort_size' size \"%s\":\t%s\n", p, p2);
+		if (size_setting(aa, err,
+		    "index.sort_size", &aa->index_sort_size, "10M"))
 			break;
-		}
-		aa->index_sort_size = (off_t)um;
 		aa->index_sort_size &= ~0x1f;
 		if (aa->index_sort_size < 4096) {
 			VSB_printf(err,
diff --git a/vnum.c b/vnum.c
index 052f95a..e6e4d2f 100644
--- a/vnum.c
+++ b/vnum.c
@@ -42,6 +42,7 @@
 static const char err_miss_num[] = "Missing number";
 static const char err_invalid_num[] = "Invalid number";
 static const char err_abs_req[] = "Absolute number required";
+static const char err_too_big[] = "Too big";
 static const char err_invalid_suff[] = "Invalid suffix";
 
 /**********************************************************************
@@ -106,10 +107,12 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 		return (err_miss_num);
 
 	fval = VNUMpfx(p, &end);
-	if (isnan(fval))
+	if (isnan(fval) || fval < 0)
 		return (err_invalid_num);
 
 	if (end == NULL) {
+		if (fval >= 0x1p63)
+			return (err_too_big);
 		*r = (uintmax_t)fval;
 		return (NULL);
 	}
@@ -156,6 +159,8 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 			return (err_invalid_suff);
 	}
 
+	if (fval >= 0x1p63)
+		return (err_too_big);
 	*r = (uintmax_t)round(fval);
 	return (NULL);
 }
-- 
2.43.0


From 5e06138a4ba71238b7798e28f9c82805a3767cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:15 +0000
Subject: [PATCH 50/54] fix: no warcinfo.body in the configuration is not an
 error

Store died of it, leaving a hold on a silo.  And a field without a value was
written as (null).
---
 warcinfo.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/warcinfo.c b/warcinfo.c
index 2f43b29..4313dc0 100644
--- a/warcinfo.c
+++ b/warcinfo.c
@@ -66,7 +66,10 @@ c_iter(void *priv, const char *name, const char *arg)
 		return(0);
 	if (!strcasecmp(name, "title:"))
 		return(0);
-	VSB_printf(wi->body, "%s %s\r\n", name, arg);
+	if (arg == NULL)
+		VSB_printf(wi->body, "%s\r\n", name);
+	else
+		VSB_printf(wi->body, "%s %s\r\n", name, arg);
 	return (0);
 }
 
@@ -97,7 +100,8 @@ Warcinfo_New(const struct aardwarc *aa, struct wsilo *wsl, uint32_t silono)
 	wi->body = VSB_new_auto();
 	AN(wi->body);
 	VSB_printf(wi->body, "title: %s\r\n", r);
-	AZ(Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter));
+	/* It is OK if there is none */
+	(void)Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter);
 	VSB_printf(wi->body, "format: WARC file version 1.1\r\n");
 	VSB_printf(wi->body, "conformsTo: %s\r\n",
 	    "http://iipc.github.io/warc-specifications/"
-- 
2.43.0


From 9c4894dbcdd4a1e0c704ddcd8bdc53cbe9a89ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 51/54] fix: stow aborts if filtering ends after storing

The stevedore answers the filter requests from another process than
the one which stores, and the last answer may come after "STOWED".
---
 main_stow.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 886e35a..d4e0094 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -455,8 +455,9 @@ filter_resp(struct stow_job *sj, uint8_t *p, size_t len)
 	} else {
 		WRONG("Wrong 1-cmd");
 	}
-	AN(stevedore_0_ev);
-	proto_ctl_ev(stevedore_0_ev, 1);
+	/* The stevedore may be done storing before it is done filtering */
+	if (stevedore_0_ev)
+		proto_ctl_ev(stevedore_0_ev, 1);
 }
 
 static void
-- 
2.43.0


From 2bb85f57222760169cef0fa1d61e34f732d5ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 52/54] fix: end of the stevedore's stderr is not the end of
 the session

stow dropped the connection when stderr came to an end, so that it
aborted if the configured command closes or redirects it.  Drop the
connection when stdout ends, which it did not.
---
 main_stow.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index d4e0094..5bd88b0 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -314,10 +314,7 @@ diag(int fd, void *priv, int revents)
 		buf[i] = '\0';
 		fprintf(stderr, "DIAG: <%s>\n", buf);
 	} else {
-		if (stevedore_0_ev)
-			proto_del_ev(&stevedore_0_ev);
-		if (stevedore_1_ev)
-			proto_del_ev(&stevedore_1_ev);
+		/* Not the end of the session, which is for stdout to tell */
 		proto_del_ev(&stevedore_2_ev);
 	}
 }
@@ -514,6 +511,8 @@ stevedore_in(int fd, void *priv, int revents)
 	i = proto_in(fd, &cmd, &sz);
 	if (i == 0) {
 		fprintf(stderr, "EOF STEVEDORE\n");
+		if (stevedore_0_ev)
+			proto_del_ev(&stevedore_0_ev);
 		proto_del_ev(&stevedore_1_ev);
 		return;
 	}
-- 
2.43.0


From d63bd100cb3a92bf5deb4b6e63eafbf276f3644e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:41 +0000
Subject: [PATCH 53/54] fix: rebuild of large records with a WARC-Record-Digest

Records from before WARC-Block-Digest are collected in a buffer of BUFSIZ bytes,
which larger ones overran.
---
 main_rebuild.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index b48f3ab..e2c0007 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -52,7 +52,7 @@ struct rebuild {
 	int				fdo;
 
 	char				hdrbuf[BUFSIZ];
-	unsigned char			fixbuf[BUFSIZ];
+	unsigned char			*fixbuf;
 	size_t				hdrlen;
 	struct vsb			*vsb;
 	int				state;
@@ -105,6 +105,9 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			if (q != NULL) {
 				rb->state = 3;
 				rb->rlen = 0;
+				assert(rb->clen >= 0);
+				rb->fixbuf = realloc(rb->fixbuf, rb->clen + 1);
+				AN(rb->fixbuf);
 				SHA256_Init(rb->sha256);
 				continue;
 			}
@@ -165,10 +168,14 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			rb->body_start = lseek(rb->fdo, 0, SEEK_CUR);
 			Gzip_InitDeflate(rb->zs);
 			Gzip_AddAa(rb->zs);
-			rb->zs->avail_in = rb->clen;
-			rb->zs->next_in = rb->fixbuf;
-			rb->rlen = 0;
-			rb->state = 11;
+			rb->rlen = rb->clen;
+			rb->state = 10;
+			for (ll = 0; ll < rb->clen; ll += oz) {
+				oz = sizeof rb->obuf / 2;
+				if (rb->clen - ll < oz)
+					oz = rb->clen - ll;
+				rebuild_process(rb, rb->fixbuf + ll, oz);
+			}
 			continue;
 		}
 		if (rb->state == 10) {
@@ -341,6 +348,7 @@ main_rebuild(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		retval |= rebuild_silo_iter(rb, *argv++, -1);
 
 	VSB_destroy(&rb->vsb);
+	free(rb->fixbuf);
 	FREE_OBJ(rb);
 	return (retval);
 }
-- 
2.43.0


From a26c8ba401c80d469edf624989c0aac02ac13b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:25 +0000
Subject: [PATCH 54/54] fix: cgi must not send gzip to clients which say
 gzip;q=0

---
 main_cgi.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/main_cgi.c b/main_cgi.c
index c5ace68..d439d99 100644
--- a/main_cgi.c
+++ b/main_cgi.c
@@ -29,6 +29,7 @@
 
 #include <stdio.h>
 #include <string.h>
+#include <strings.h>
 #include <stdlib.h>
 #include <unistd.h>
 
@@ -59,6 +60,32 @@ get_iter(void *priv, const void *ptr, ssize_t len)
 	return (0);
 }
 
+/* Something like "deflate, gzip;q=0.8" but not like "gzip;q=0" ---------*/
+
+static int
+accepts_gzip(const char *p)
+{
+	const char *e;
+
+	for (; p != NULL; p = strchr(p, ',')) {
+		p += strspn(p, ", \t");
+		if (strncasecmp(p, "gzip", 4))
+			continue;
+		p += 4;
+		e = p + strspn(p, " \t");
+		if (*e == '\0' || *e == ',')
+			return (1);
+		if (*e != ';')
+			continue;
+		e++;
+		e += strspn(e, " \t");
+		if (strncasecmp(e, "q=", 2))
+			return (1);
+		return (strtod(e + 2, NULL) > 0);
+	}
+	return (0);
+}
+
 int v_matchproto_(main_f)
 main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
@@ -112,8 +139,8 @@ main_cgi(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	}
 
 	p = getenv("HTTP_ACCEPT_ENCODING");
-	if (p != NULL && strstr(p, "gzip"))
-		gzip = 1;
+	if (p != NULL)
+		gzip = accepts_gzip(p);
 
 	if (*id == '/')
 		id++;
-- 
2.43.0

