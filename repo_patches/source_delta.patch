From c478195777d558921e7e14351624982fad7e6ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 01/59] fix: Keep index lookups inside the record part of the
 sorted index

bucket_seek() did not account for the size of the bucket header, and the
predicted record number could become negative for keys which sort before
the first record in their bucket.  Lookups either asserted on fseeko()
returning EINVAL, or mistook the bucket header for index records.
---
 index.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/index.c b/index.c
index 71a1e23..4c7d891 100644
--- a/index.c
+++ b/index.c
@@ -378,8 +378,12 @@ bucket_seek(const void *rec, FILE *f)
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
 		assert(1 == fread(buf, sizeof buf, 1, f));
 		off = (int64_t)be64dec(buf);
-		frac += off;
-		AZ(fseeko(f, (long)frac * 32, SEEK_SET));
+		off += (int64_t)frac;
+		if (off < 0)
+			off = 0;
+		off *= 32;
+		off += 1L << (nbucket + 3);	// skip the buckets
+		AZ(fseeko(f, off, SEEK_SET));
 	} else {
 		AZ(fseeko(f, 1L << (nbucket + 3), SEEK_SET));
 	}
-- 
2.43.0


From 806bb7270733ab60d06c716eb05867457d0d4c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:20 +0000
Subject: [PATCH 02/59] fix: Audit all silos, not only those before the first
 unused number

Silo numbers can be unused (mksilo, or a silo reserved by a store which
in the end was appended to an earlier silo), so iterate like reindex does.
---
 main_audit.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index b8c5e22..dfc3698 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -375,6 +375,15 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	return (0);
 }
 
+static int v_matchproto_(byte_iter_f)
+audit_silo_iter(void *priv, const void *ptr, ssize_t len)
+{
+
+	(void)ptr;
+	(void)audit_silo(priv, NULL, (int)len);
+	return (0);
+}
+
 static
 void
 usage_audit(const char *a0, const char *a00, const char *err)
@@ -392,7 +401,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch, i;
+	int ch;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -419,9 +428,7 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		i = 0;
-		while (!audit_silo(aa, NULL, i++))
-			continue;
+		(void)Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
 		while (argc-- > 0)
 			if (audit_silo(aa, *argv++, -1))
-- 
2.43.0


From 688f6342969ddc38f6393c591a4a8874d53a5d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 03/59] fix: Ignore index records which are not the segment
 being looked for

The four byte 'next segment' field can match any kind of record, and
segments with identical contents have identical IDs, so a mismatch only
means that the search must continue.  Likewise a warcinfo or continuation
segment must not hide an object with the same contents.
---
 getjob.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/getjob.c b/getjob.c
index 846881e..4589fca 100644
--- a/getjob.c
+++ b/getjob.c
@@ -92,7 +92,7 @@ getjob_iter(void *priv, const char *key,
 		gj->err = "ID is warcinfo segment";
 		Header_Destroy(&hdr);
 		Rsilo_Close(&rs);
-		return (-1);
+		return (0);
 	}
 	gjs = VTAILQ_LAST(&gj->segs, getjobseg_head);
 	if (gjs == NULL) {
@@ -105,11 +105,16 @@ getjob_iter(void *priv, const char *key,
 			gj->err = "ID is continuation segment";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	} else {
 		p = Header_Get(hdr, "WARC-Segment-Origin-ID");
-		AN(p);
+		if (p == NULL) {
+			/* The next field is ambiguous, see below */
+			Header_Destroy(&hdr);
+			Rsilo_Close(&rs);
+			return (0);
+		}
 		assert(p[0] == '<');
 		p++;
 		assert(!memcmp(p, gj->aa->prefix, strlen(gj->aa->prefix)));
@@ -129,12 +134,13 @@ getjob_iter(void *priv, const char *key,
 		assert(im >= 0);
 		segno = im;
 		if (segno != gjs->segno + 1) {
+			/* Segments with identical content have the same ID */
 			gj->err =
 			    "Index Inconsistency: "
 			    "Continuation out of order.";
 			Header_Destroy(&hdr);
 			Rsilo_Close(&rs);
-			return (-1);
+			return (0);
 		}
 	}
 
-- 
2.43.0


From b970ccf09ba6fef0f394e478756fe7d78e860a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 04/59] fix: Commit the first segment of an object last

Otherwise a store which is interrupted between segments leaves an object
which looks like it is in the archive, but cannot be retrieved, and the
next attempt to store it is rejected as "already in archive".
---
 segjob.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/segjob.c b/segjob.c
index 731f373..bd488e1 100644
--- a/segjob.c
+++ b/segjob.c
@@ -67,7 +67,7 @@ struct segjob {
 	const char		*ident;
 
 	int			nseg;
-	VTAILQ_HEAD(,segment)	segments;
+	VTAILQ_HEAD(segment_head, segment) segments;
 	struct segment		*cur_seg;
 	struct SHA256Context	sha256_payload[1];
 	struct SHA256Context	sha256_segment[1];
@@ -366,7 +366,11 @@ SegJob_Commit(struct segjob *sj)
 		return (id);
 	}
 
-	VTAILQ_FOREACH(sg, &sj->segments, list) {
+	/*
+	 * Last segment first, so that the object does not appear to be in
+	 * the archive before all of it is.
+	 */
+	VTAILQ_FOREACH_REVERSE(sg, &sj->segments, segment_head, list) {
 		if (sg->segno == 1)
 			Header_Set(sg->hdr, "WARC-Segment-Number", "1");
 		else
-- 
2.43.0


From 6ad1f6cd513374a50f27498a1285008070a8aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 05/59] fix: Link the new silo in place before adding its
 records to the index

The other way around, anybody looking the object up in between, or ever
after if we do not get to the link(2), trips over index records which
point into nowhere.
---
 wsilo.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 534f1c6..8dd3cb4 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -468,13 +468,15 @@ Wsilo_Install(struct wsilo **slp)
 
 	TAKE_OBJ_NOTNULL(sl, slp, WSILO_MAGIC);
 
-	IDX_Insert(sl->aa,
-	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	/*
 	 * We don't use rename(2) because it wouldn't fail if the
 	 * destination silo already exists.
 	 */
 	AZ(link(VSB_data(sl->hold_fn), VSB_data(sl->silo_fn)));
+
+	/* Only index what can be found in a silo */
+	IDX_Insert(sl->aa,
+	    sl->warcinfo_id, IDX_F_WARCINFO, sl->silo_no, 0, NULL);
 	if (sl->silo_no == sl->aa->cache_first_non_silo) {
 		sl->aa->cache_first_non_silo++;
 		AardWARC_WriteCache(sl->aa);
@@ -489,7 +491,8 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 	struct vsb *vsb;
 	ssize_t s;
 	int i, done = 0;
-	uint32_t sn;
+	uint32_t sn, idx;
+	off_t off;
 	struct aardwarc *aa;
 	const char *t;
 
@@ -561,8 +564,11 @@ Wsilo_Commit(struct wsilo **slp, int segd, const char *id, const char *rid)
 		if (rid == NULL)
 			sl->idx |= IDX_F_LASTSEG;
 	}
-	IDX_Insert(aa, id, sl->idx, sl->silo_no, sl->hd_start, rid);
+	sn = sl->silo_no;
+	idx = sl->idx;
+	off = sl->hd_start;
 	Wsilo_Install(&sl);
+	IDX_Insert(aa, id, idx, sn, off, rid);
 }
 
 void
-- 
2.43.0


From 46fa5ec2f05322334c34d372f9ce8e6c1eaed254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 06/59] fix: Recheck that the silo does not exist once we have
 its hold

Another process may have installed the silo and released the hold since
we checked, in which case the link(2) at the end fails, after we have
written the entire object to a silo we cannot use.
---
 wsilo.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/wsilo.c b/wsilo.c
index 8dd3cb4..826d238 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -167,6 +167,15 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 		exit(2);
 	}
 
+	if (!stat(VSB_data(vsb), &st)) {
+		/* Somebody else installed it before we got the hold */
+		AZ(unlink(VSB_data(vsb2)));
+		AZ(close(fd));
+		VSB_delete(vsb);
+		VSB_delete(vsb2);
+		return (NULL);
+	}
+
 	ALLOC_OBJ(sl, WSILO_MAGIC);
 	if (sl == NULL)
 		return (NULL);
-- 
2.43.0


From 274b4b6082079368a749f39053291b5541792fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 07/59] fix: Tolerate simultaneous creation of silo directories

If another process creates the directory first, mkdir(2) returns EEXIST
and we would skip the rest of the silos in that directory.  For any other
error, Wsilo_Next() would try the next silo number, for ever.
---
 wsilo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 826d238..2a276c1 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -99,7 +99,7 @@ silo_mkparentdir(const char *path)
 		if (i < 0)
 			return (i);
 		i = mkdir(p, 0755);
-		if (i < 0)
+		if (i < 0 && errno != EEXIST)
 			return (i);
 		i = stat(p, &st);
 	}
@@ -138,7 +138,7 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	if (j) {
 		fprintf(stderr, "MKDIR %d %d %s\n",
 		    j, errno, strerror(errno));
-		return (NULL);
+		exit(2);
 	}
 
 	if (!stat(VSB_data(vsb2), &st)) {
-- 
2.43.0


From 985049612532b1f385a3e6abf1ab2bb6d3bb212f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:11 +0000
Subject: [PATCH 08/59] fix: Do not leave partial records in silos

If writev(2) comes up short, because the filesystem is full for instance,
take what we wrote back, and try elsewhere.  The silo would otherwise be
unreadable from that point on.
---
 wsilo.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wsilo.c b/wsilo.c
index 2a276c1..d0ac951 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -440,11 +440,15 @@ silo_attempt_append(const struct wsilo *sl, uint32_t silono,
 		before = lseek(fds, 0, SEEK_END);
 		s = writev(fds, iov, 2);
 		after = lseek(fds, 0, SEEK_END);
-		assert(s >= 0);
-		assert((size_t)s == wlen);
+		AZ(munmap(p, roundup(sl->hold_len, ps)));
+		if (s < 0 || (size_t)s != wlen) {
+			/* Do not leave half a record in the silo */
+			if (after != before)
+				AZ(ftruncate(fds, before));
+			break;
+		}
 		assert((off_t)s == (after - before));
 
-		AZ(munmap(p, roundup(sl->hold_len, ps)));
 		// fprintf(stderr, "DEBUG: Wsilo_Append(%u) %ju\n", silono, need);
 
 		need = lseek(fds, 0, SEEK_CUR);
-- 
2.43.0


From b6d3f405befb12e0bc906e59fc5b9fcf4b6381a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 09/59] fix: Search the index files in the order records move
 between them

Housekeeping moves records from the appendix to the sorted index, a
reader which had already searched the sorted index would not find them
if they were moved before it got around to the appendix.
---
 index.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 4c7d891..b339037 100644
--- a/index.c
+++ b/index.c
@@ -392,15 +392,19 @@ bucket_seek(const void *rec, FILE *f)
 /*
  * Since the index is small enough that we have a risk of collisions,
  * the only way to lookup is to iterate all possible matches.
+ *
+ * Records move from the appendix, via the housekeeping snapshot, to the
+ * sorted index, so we must search in that order, or we could miss records
+ * which are moved from a file we have yet to search to one we already have.
  */
 
 static const struct idxfiles {
 	const char	*suff;
 	int		sorted;
 } idxfiles[] = {
-	{ SUFF_SORTED,		1 },
 	{ SUFF_APPENDIX,	0 },
 	{ SUFF_HOUSEKEEP,	0 },
+	{ SUFF_SORTED,		1 },
 	{ NULL, 0}
 };
 
-- 
2.43.0


From f83741bcb2ecd2aab856176dd49fc6051833d893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 10/59] fix: Do not lose index records written to a retired
 appendix

If housekeeping takes the appendix between our open and our write, the
record lands in the snapshot after it was read, and is lost when the
snapshot is removed.  Check that the file is still the appendix and add
the record again if not, duplicates are weeded out by the merge.
---
 index.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/index.c b/index.c
index b339037..12af5dd 100644
--- a/index.c
+++ b/index.c
@@ -135,6 +135,7 @@
 #include <string.h>
 #include <stdlib.h>
 
+#include <sys/stat.h>
 #include <sys/endian.h>
 
 #include "vdef.h"
@@ -227,6 +228,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 {
 	uint8_t rec[32];
 	int fd, i;
+	struct stat st1, st2;
 	struct vsb *vsb;
 
 	assert(aa->id_size >= 16);
@@ -240,10 +242,24 @@ uint32_t silo, uint64_t offset, const char *cont)
 		idx_key_bin(rec + 28, cont, 4);
 
 	vsb = idx_filename(aa, "appendix");
-	fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
-	assert(fd >= 0);
-	i = write(fd, rec, sizeof rec);
-	assert(i == (int)sizeof rec);
+	while (1) {
+		fd = open(VSB_data(vsb), O_WRONLY | O_CREAT | O_APPEND, 0644);
+		assert(fd >= 0);
+		i = write(fd, rec, sizeof rec);
+		assert(i == (int)sizeof rec);
+
+		/*
+		 * If the appendix was taken for housekeeping after we opened
+		 * it, our record may have come too late to be merged.
+		 */
+		AZ(fstat(fd, &st1));
+		i = stat(VSB_data(vsb), &st2);
+		if (i == 0 && st1.st_dev == st2.st_dev &&
+		    st1.st_ino == st2.st_ino)
+			break;
+		assert(i == 0 || errno == ENOENT);
+		assert(close(fd) == 0);
+	}
 	assert(close(fd) == 0);
 	VSB_delete(vsb);
 }
-- 
2.43.0


From 40030a51301cb27fedb945d0f80ed79fa7d492e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:08 +0000
Subject: [PATCH 11/59] fix: Do not free the sort buffer twice

IDX_Resort() owns it, and frees it.
---
 index.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/index.c b/index.c
index 12af5dd..b78603e 100644
--- a/index.c
+++ b/index.c
@@ -613,7 +613,6 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		fprintf(stderr,
 		    "Error opening housekeeping snapshot: %s\n",
 		    strerror(errno));
-		free(spc);
 		return (-1);
 	}
 
-- 
2.43.0


From 3dabf836de8899210ea1907a709dbacdadd82c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:13 +0000
Subject: [PATCH 12/59] fix: Do not housekeep the index without the hold

Any other error than EEXIST was treated as success.
---
 index.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/index.c b/index.c
index b78603e..3229821 100644
--- a/index.c
+++ b/index.c
@@ -654,6 +654,13 @@ IDX_Resort(const struct aardwarc *aa)
 		VSB_delete(vsb4);
 		return;
 	}
+	if (fdh < 0) {
+		fprintf(stderr,
+		    "Could not create housekeeping 'hold' file (%s): %s\n",
+		    VSB_data(vsb4), strerror(errno));
+		VSB_delete(vsb4);
+		return;
+	}
 
 	spc = malloc(aa->index_sort_size);
 	if (spc == NULL) {
-- 
2.43.0


From 8f88c420690593ee9fb2a8fc4821ef0d89e55c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 13/59] fix: Do not take I/O errors for the end of the index

Otherwise housekeeping can throw away all the records after a failing
read of the sorted index, and lookups report existing objects missing.
---
 index.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/index.c b/index.c
index 3229821..1e13b3d 100644
--- a/index.c
+++ b/index.c
@@ -356,13 +356,13 @@ bucket_write(const struct bucket *bp, FILE *f)
 		((int64_t)bp->bbucket << 40) |
 		(int64_t)bp->nrec;
 
-	fflush(f);
+	AZ(fflush(f));
 	AZ(fseeko(f, 0, SEEK_SET));
 	for (i = 0; i < bp->nbucket; i++) {
 		be64enc(buf, bp->buckets[i]);
 		assert(1 == fwrite(buf, 8, 1, f));
 	}
-	fflush(f);
+	AZ(fflush(f));
 }
 
 static void
@@ -457,15 +457,18 @@ IDX_Iter(const struct aardwarc *aa, const char *key_part,
 	for (idf = idxfiles; idf->suff != NULL; idf++) {
 		vsb = idx_filename(aa, idf->suff);
 		f = fopen(VSB_data(vsb), "r");
+		assert(f != NULL || errno == ENOENT);
+		VSB_delete(vsb);
 		if (f == NULL)
 			continue;
-		VSB_delete(vsb);
 		if (idf->sorted)
 			bucket_seek(key_p, f);
 		do {
 			i = fread(rec, 1, sizeof rec, f);
-			if (i == 0)
+			if (i == 0) {
+				assert(!ferror(f));
 				break;
+			}
 			assert(i == (int)sizeof rec);
 			i = 0;
 
@@ -516,6 +519,7 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 
 	vsb1 = idx_filename(aa, SUFF_SORTED);
 	f1 = fopen(VSB_data(vsb1), "r");
+	assert(f1 != NULL || errno == ENOENT);
 
 	bprintf(buf, "tmp.%jd", (intmax_t)getpid());
 	vsb2 = idx_filename(aa, buf);
@@ -538,8 +542,10 @@ idx_merge(const struct aardwarc *aa, const uint8_t *ptr, ssize_t len)
 		bucket_skip(f1);
 		while (1) {
 			sz = fread(rec, 32, 1, f1);
-			if (sz == 0)
+			if (sz == 0) {
+				assert(!ferror(f1));
 				break;
+			}
 			assert(memcmp(rec, recl, 32) >= 0);
 			memcpy(recl, rec, 32);
 			assert(sz == 1);
-- 
2.43.0


From 77b981b9c1c2cf3c341a842a708eed1353786297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:42 +0000
Subject: [PATCH 14/59] fix: Merge all of the housekeeping snapshot, however
 much we can read at a time

read(2) returns at most 2GB on many systems, a larger index.sort_size
made us stop after that much, and throw the rest of the snapshot away.
---
 index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.c b/index.c
index 1e13b3d..00bc15f 100644
--- a/index.c
+++ b/index.c
@@ -636,7 +636,7 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 		AZ(sz & 0x1f);
 		qsort(spc, ((size_t)sz) >> 5, 32, idx_cmp);
 		idx_merge(aa, spc, sz);
-	} while (sz == (ssize_t)aa->index_sort_size);
+	} while (sz > 0);
 	AZ(close(fd));
 	AZ(unlink(VSB_data(vsbh)));
 	return (retval);
-- 
2.43.0


From dfb665f0592bdea6bb5b1e1a18cef32019db1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:18 +0000
Subject: [PATCH 15/59] fix: Accept -i arguments which are full URIs

The ID was validated with the prefix, but then used as if it had none.
---
 main_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_store.c b/main_store.c
index 79236b7..0d8c5f0 100644
--- a/main_store.c
+++ b/main_store.c
@@ -179,7 +179,7 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			exit(1);
 		}
 		if (i_arg != NULL) {
-			e = IDX_Valid_Id(aa, i_arg, NULL);
+			e = IDX_Valid_Id(aa, i_arg, &i_arg);
 			if (e != NULL) {
 				fprintf(stderr, "Illegal id (-i): %s\n", e);
 				exit(1);
-- 
2.43.0


From 02d6ce563f87e11632904bb5ba69da5ec778e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 16/59] fix: Do not take a read error for the end of the input

The object was stored truncated, and reported as stored.
---
 main_store.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main_store.c b/main_store.c
index 0d8c5f0..b0ee1fa 100644
--- a/main_store.c
+++ b/main_store.c
@@ -267,6 +267,10 @@ main_store(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		if (rlen > 0)
 			SegJob_Feed(sj, ibuf_ptr, rlen);
 	} while (rlen > 0);
+	if (rlen < 0) {
+		fprintf(stderr, "Input file read error: %s\n", strerror(errno));
+		exit(1);
+	}
 
 	id = SegJob_Commit(sj);
 	printf("%s\n", id);
-- 
2.43.0


From de2d3c0fb8234ef536b37c3b0add3abf51842b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:29 +0000
Subject: [PATCH 17/59] fix: Report output errors

A full disk or similar truncated the output without anybody noticing.
---
 main.c        |  8 +++++++-
 main_filter.c |  5 +++++
 main_get.c    | 12 ++++++++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/main.c b/main.c
index 005be74..bb2008c 100644
--- a/main.c
+++ b/main.c
@@ -196,5 +196,11 @@ main(int argc, char **argv)
 	VSB_delete(vsb2);
 	VSB_delete(vsb3);
 
-	return (call_main(a0, aa, argc, argv));
+	ch = call_main(a0, aa, argc, argv);
+	if (fflush(stdout) || ferror(stdout)) {
+		fprintf(stderr, "Write error on stdout: %s\n",
+		    strerror(errno));
+		ch |= 1;
+	}
+	return (ch);
 }
diff --git a/main_filter.c b/main_filter.c
index 91bcfc1..e95ea04 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -296,5 +296,10 @@ main_filter(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		FREE_OBJ(c);
 	}
 	FREE_OBJ(fp);
+	if (ofile != NULL && (ferror(fo) | fclose(fo)) != 0) {
+		fprintf(stderr, "Write error on %s: %s\n",
+		    ofile, strerror(errno));
+		return (1);
+	}
 	return (0);
 }
diff --git a/main_get.c b/main_get.c
index 306a2b5..936551e 100644
--- a/main_get.c
+++ b/main_get.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
@@ -135,6 +136,11 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
+		if (gp->dst == NULL) {
+			fprintf(stderr, "Cannot open %s: %s\n",
+			    of, strerror(errno));
+			exit(1);
+		}
 		gp->hdr = stdout;
 	} else {
 		gp->dst = stdout;
@@ -185,6 +191,12 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		}
 	}
 
+	if (of != NULL && fclose(gp->dst) != 0) {
+		fprintf(stderr, "Write error on %s: %s\n",
+		    of, strerror(errno));
+		exit(1);
+	}
+
 	FREE_OBJ(gp);
 	GetJob_Delete(&gj);
 	return (0);
-- 
2.43.0


From 9ff5f3d3f8ae625e5006f35e2d2034e2d87e2e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 18/59] fix: Make filter find IDs in upper case

Like all the other operations do.
---
 main_filter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main_filter.c b/main_filter.c
index e95ea04..d074b20 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <ctype.h>
 #include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -173,6 +174,8 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		}
 		REPLACE(c1->id, p);
 		AN(c1->id);
+		for (p = c1->id; *p != '\0'; p++)
+			*p = (char)tolower(*p);
 		c2 = VTAILQ_LAST(&candidates, candhead);
 		ncand++;
 		VTAILQ_INSERT_TAIL(&candidates, c1, list);
-- 
2.43.0


From a37e4bfa8212651c44b41ebaa7f58a66eff1a76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:11 +0000
Subject: [PATCH 19/59] fix: Make filter work with IDs shorter than 96 bits

The index pads them with zeros, which we should not compare.
---
 main_filter.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index d074b20..8f01051 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -107,16 +107,22 @@ filter_s_check(const struct filt *fp, uint32_t silo, int64_t offset,
 }
 
 static int v_matchproto_(idx_iter_f)
-filter_iter(void *priv, const char *key,
+filter_iter(void *priv, const char *ikey,
     uint32_t flag, uint32_t silo, int64_t offset, const char *cont)
 {
 	struct cand *c;
 	struct filt *fp;
+	char key[65];
 
 	CAST_OBJ_NOTNULL(fp, priv, FILT_MAGIC);
 	(void)flag;
 	(void)cont;
 
+	/* Short IDs are zero padded in the index */
+	strlcpy(key, ikey, sizeof key);
+	if (strlen(key) > fp->aa->id_size)
+		key[fp->aa->id_size] = '\0';
+
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
 	if (next_cand == NULL || strcmp(key, fp->last) < 0)
-- 
2.43.0


From 440cd35c55cb39f5f4f9b49f45853c15150b6c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 20/59] fix: Make filter -s check all records with the same key

IDs can be identical as far as the index goes, and then we have to
compare all of them to all the records.
---
 main_filter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_filter.c b/main_filter.c
index 8f01051..87750da 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -125,7 +125,7 @@ filter_iter(void *priv, const char *ikey,
 
 	if (VTAILQ_EMPTY(&sorted))
 		return (1);
-	if (next_cand == NULL || strcmp(key, fp->last) < 0)
+	if (next_cand == NULL || strcmp(key, fp->last) <= 0)
 		next_cand = VTAILQ_FIRST(&sorted);
 	strlcpy(fp->last, key, sizeof fp->last);
 	while (next_cand != NULL && strcmp(next_cand->id, key) < 0)
-- 
2.43.0


From 6452201417aabf6e1151a7284f4573e43e58caf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 21/59] fix: Make audit try all segmented objects to the end

The loop condition was inverted, so that audit would look only once for
the next segments if it found some, and forever if it did not, and one
incomplete object made us skip all the remaining ones.
---
 main_audit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index dfc3698..9cfdbfd 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -235,10 +235,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			}
 			ap = apn;
 		}
-	} while (ap == ap1);
+	} while (ap != ap1);
 
 	printf("ERROR: Failed to find segment %d\n", ap->segment + 1);
-	return (0);
+	return (-1);
 }
 
 static void
-- 
2.43.0


From c56cc454ae1c017e41236165b7cf530702d7fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 22/59] fix: Make audit -i ignore-metadata-record-id work for
 segmented metadata

---
 main_audit.c | 60 +++++++++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 9cfdbfd..312eb4a 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -152,15 +152,37 @@ audit_add_one_segment(struct aardwarc *aa, struct audit *ap0, struct audit *ap)
 	Rsilo_Close(&rs);
 }
 
+static void
+audit_check_ident(struct aardwarc *aa, struct vsb *err, struct audit *ap,
+    const char *dig)
+{
+	char *oldid;
+	const char *type;
+	char newid[SHA256_DIGEST_STRING_LENGTH];
+
+	type = Header_Get(ap->hdr, "WARC-Type");
+	AN(type);
+	if (strcmp(type, "metadata") || !ignore_metadata_record_id) {
+		oldid = strdup(Header_Get_Id(ap->hdr));
+		AN(oldid);
+
+		Ident_Create(aa, ap->hdr, dig, newid);
+
+		if (strcmp(oldid, newid)) {
+			VSB_printf(err, "ERROR: WARC-Record-ID difference\n");
+			VSB_printf(err, "\tis:\t\t%s\n", oldid);
+			VSB_printf(err, "\tshould be:\t%s\n", newid);
+		}
+		free(oldid);
+	}
+}
+
 static void
 audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
     struct audit *apn)
 {
 	char buf[64];
 	char dig[SHA256_DIGEST_STRING_LENGTH];
-	char id[SHA256_DIGEST_STRING_LENGTH];
-
-	(void)aa;
 
 	bprintf(buf, "%jd", (intmax_t)ap0->sz);
 	audit_check_header(err, apn, "WARC-Segment-Total-Length", buf);
@@ -168,12 +190,7 @@ audit_final_pending(struct aardwarc *aa, struct vsb *err, struct audit *ap0,
 	(void)SHA256_End(ap0->sha256, dig);
 	audit_check_digest_header(err, ap0, "WARC-Payload-Digest", dig);
 
-	Ident_Create(aa, ap0->hdr, dig, id);
-	if (strcmp(id, Header_Get_Id(ap0->hdr))) {
-		VSB_printf(err, "ERROR: %s difference\n", "WARC-Record-ID");
-		VSB_printf(err, "\tis:\t\t%s\n", Header_Get_Id(ap0->hdr));
-		VSB_printf(err, "\tshould be:\t%s\n", id);
-	}
+	audit_check_ident(aa, err, ap0, dig);
 }
 
 static int
@@ -241,31 +258,6 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 	return (-1);
 }
 
-static void
-audit_check_ident(struct aardwarc *aa, struct vsb *err, struct audit *ap,
-    const char *dig)
-{
-	char *oldid;
-	const char *type;
-	char newid[SHA256_DIGEST_STRING_LENGTH];
-
-	type = Header_Get(ap->hdr, "WARC-Type");
-	AN(type);
-	if (strcmp(type, "metadata") || !ignore_metadata_record_id) {
-		oldid = strdup(Header_Get_Id(ap->hdr));
-		AN(oldid);
-
-		Ident_Create(aa, ap->hdr, dig, newid);
-
-		if (strcmp(oldid, newid)) {
-			VSB_printf(err, "ERROR: WARC-Record-ID difference\n");
-			VSB_printf(err, "\tis:\t\t%s\n", oldid);
-			VSB_printf(err, "\tshould be:\t%s\n", newid);
-		}
-		free(oldid);
-	}
-}
-
 static int
 audit_one(struct aardwarc *aa, struct vsb *err, struct audit *ap)
 {
-- 
2.43.0


From 1ca696c9a3eba8bbcb5376353390aee6d5f3ab22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 23/59] fix: Do not make audit mix segments from different
 copies of an object

Two simultaneous stores of the same object, or a retry of one which was
interrupted, leave segments with the same number and origin, but they
need not be split the same places.
---
 main_audit.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main_audit.c b/main_audit.c
index 312eb4a..356ed8f 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -197,7 +197,7 @@ static int
 audit_one_pending(struct aardwarc *aa, struct vsb *err)
 {
 	struct audit *ap0, *ap1, *ap, *apn, *aps;
-	const char *origin, *oid, *p;
+	const char *origin, *oid, *date, *p;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	VTAILQ_FOREACH(ap0, &segment_list, list) {
@@ -215,6 +215,8 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 	audit_add_one_segment(aa, ap0, ap0);
 
 	oid = Header_Get_Id(ap0->hdr);
+	date = Header_Get(ap0->hdr, "WARC-Date");
+	AN(date);
 	ap = ap0;
 	do {
 		ap1 = ap;
@@ -235,6 +237,10 @@ audit_one_pending(struct aardwarc *aa, struct vsb *err)
 			origin += strlen(oid);
 			if (*origin++ != '>')
 				continue;
+			/* There may be (parts of) other copies */
+			p = Header_Get(apn->hdr, "WARC-Date");
+			if (p == NULL || strcmp(p, date))
+				continue;
 			audit_add_one_segment(aa, ap0, apn);
 			VTAILQ_REMOVE(&segment_list, apn, list);
 			p = Header_Get(apn->hdr, "WARC-Segment-Total-Length");
-- 
2.43.0


From 48be400f51addce7334243a7f276479f36fbc8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:34 +0000
Subject: [PATCH 24/59] fix: Do not make reindex mix segments from different
 copies of an object

Two simultaneous stores of the same object, or a retry of one which was
interrupted, leave segments with the same number and origin, but they
need not be split the same places.
---
 main_reindex.c | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 2d0049e..d9d13aa 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -50,6 +50,7 @@ struct seg {
 	char			*id;
 	uint32_t		flg;
 	char			*parent;
+	char			*date;
 	ssize_t			silono;
 	off_t			off, segno;
 	VTAILQ_ENTRY(seg)	list;
@@ -86,6 +87,7 @@ drop_seg(struct seg *seg)
 	AN(seg->done);
 	REPLACE(seg->id, NULL);
 	REPLACE(seg->parent, NULL);
+	REPLACE(seg->date, NULL);
 	FREE_OBJ(seg);
 	nsegs--;
 }
@@ -108,14 +110,31 @@ emit_seg(const struct aardwarc *aa, struct seg *seg, struct seg *seg2)
 		drop_seg(seg2);
 }
 
+/*
+ * There may be (parts of) more than one copy of an object, if it was stored
+ * simultaneously or the store operation was interrupted.  The segments of
+ * these do not belong together, but their dates tell them apart.
+ */
+
+static int
+cmp_seg(const struct aardwarc *aa, const struct seg *s1, const struct seg *s2)
+{
+	int i;
+
+	i = strncmp(s1->parent, s2->parent, aa->id_size);
+	if (i == 0)
+		i = strcmp(s1->date, s2->date);
+	return (i);
+}
+
 static void
 try_seg(const struct aardwarc *aa, struct seg *seg)
 {
 	struct seg *seg2;
 
 	seg2 = VTAILQ_NEXT(seg, list);
-	if (seg2 != NULL && !seg2->done && seg2->segno + 1 == seg->segno &&
-	    !strncmp(seg2->parent, seg->parent, aa->id_size))
+	if (seg2 != NULL && !seg2->done && !seg->used &&
+	    seg2->segno + 1 == seg->segno && !cmp_seg(aa, seg2, seg))
 		emit_seg(aa, seg2, seg);
 }
 
@@ -147,7 +166,9 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 	const char *id;
 	const char *parent;
 	const char *tl;
+	const char *date;
 	struct seg *seg, *seg2;
+	int i;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	AN(hdr);
@@ -172,6 +193,9 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 	nsegs++;
 	REPLACE(seg->id, id);
 	REPLACE(seg->parent, parent);
+	date = Header_Get(hdr, "WARC-Date");
+	AN(date);
+	REPLACE(seg->date, date);
 	seg->flg = flg;
 	seg->off = off;
 	seg->segno = segno;
@@ -185,9 +209,10 @@ got_seg(const struct aardwarc *aa, const struct header *hdr,
 	}
 
 	VTAILQ_FOREACH(seg2, &segs, list) {
-		if (strncmp(seg2->parent, seg->parent, aa->id_size) < 0)
+		i = cmp_seg(aa, seg2, seg);
+		if (i < 0)
 			continue;
-		if (strncmp(seg2->parent, seg->parent, aa->id_size) > 0)
+		if (i > 0)
 			break;
 		if (seg2->segno < seg->segno)
 			break;
-- 
2.43.0


From e4cd288b63bef28dd748c29b2bcdad1b72144b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 25/59] fix: Do not take a read error for the end of gzip'ed
 bodies

---
 rsilo.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rsilo.c b/rsilo.c
index 0f06b93..d7da7dd 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -242,8 +242,7 @@ Rsilo_ReadGZChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 		if (sz > rs->silo_bodylen)
 			sz = rs->silo_bodylen;
 		sz = read(rs->silo_fd, ibuf, sz);
-		if (sz <= 0)
-			return(0);
+		assert(sz > 0);
 		ll += sz;
 		j = func(priv, ibuf, sz);
 		if (j)
-- 
2.43.0


From 6adc3179ce558a8f05daa66b274541a999bcffb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:32 +0000
Subject: [PATCH 26/59] fix: Do not leave the manifest on stow's list of
 pending acknowledgements

The next job would take it for its own first object.
---
 main_stow.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/main_stow.c b/main_stow.c
index a3b1ad3..0faed77 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -480,6 +480,7 @@ data_resp(struct stow_job *sj, char *p, size_t len)
 				__func__, __LINE__, cp->digest, pp);
 		}
 		AZ(strncmp(cp->digest, pp, strlen(pp)));
+		VTAILQ_REMOVE(&ack_list, cp, list);
 		metadata(sj, cp);
 		return;
 	}
-- 
2.43.0


From 8c10cc7a4155d2d85a18e7f8d6a2a4e82a08c3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 27/59] fix: Do not report stow jobs as done when they were not
 stowed

---
 main_stow.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/main_stow.c b/main_stow.c
index 0faed77..50fb718 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -102,6 +102,7 @@ struct stow_job {
 	SHA256_CTX		mtree_sha;
 
 	struct subj		*meta;
+	int			stowed;
 
 	FILE *			missing;
 	FILE *			changed;
@@ -540,6 +541,7 @@ stevedore_in(int fd, void *priv, int revents)
 		break;
 	case PROTO_META:
 		fprintf(stderr, "STOWED as %s\n", (char*)u);
+		sj->stowed = 1;
 		proto_del_ev(&stevedore_0_ev);
 		break;
 	default:
@@ -771,6 +773,10 @@ main_stow(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			    WEXITSTATUS(st), WTERMSIG(st), WCOREDUMP(st));
 			exit(2);
 		}
+		if (!sj->stowed) {
+			fprintf(stderr, "Job %s was not stowed\n", sj->job);
+			exit(2);
+		}
 
 		fprintf(stderr, "Done job %s\n", sj->job);
 	}
-- 
2.43.0


From 84ec2a0326b4d466a01d8e65b1603364e0ca5bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 28/59] fix: Do not send stow metadata until all objects are
 stowed

The manifest can already be in the archive when some of the objects are not,
and the connection is closed when the metadata is acknowledged.
---
 main_stow.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main_stow.c b/main_stow.c
index 50fb718..7afd207 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -620,7 +620,8 @@ stevedore_out(int fd, void *priv, int revents)
 			exit(2);
 		}
 	}
-	if (sj->meta != NULL)
+	if (sj->meta != NULL && send_fd < 0 &&
+	    VTAILQ_EMPTY(&get_list) && VTAILQ_EMPTY(&ack_list))
 		send_metadata(sj, fd);
 
 	AN(stevedore_0_ev);
-- 
2.43.0


From 6e38611e045317bddd8089dd45145262d37a4c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 29/59] fix: Do not deadlock stow and stevedore when many
 objects are missing

The stevedore does not read while it writes responses, so stow must not
block sending data until it has received them all.

Also do not stop listening to the stevedore's end of the pipe when a
file has just been opened, but nothing has been sent from it.
---
 main_stow.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 7afd207..2d4b57f 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -577,6 +577,17 @@ stevedore_out(int fd, void *priv, int revents)
 			j = sj->id_size;
 		proto_out(fd, PROTO_FILTER, cp->digest, j);
 	}
+	if (!VTAILQ_EMPTY(&subj_list))
+		return;
+	if (!VTAILQ_EMPTY(&wait_list)) {
+		/*
+		 * The stevedore does not read while it sends us responses,
+		 * so do not get stuck sending until we have received them.
+		 */
+		AN(stevedore_0_ev);
+		proto_ctl_ev(stevedore_0_ev, 0);
+		return;
+	}
 	if (send_fd > 0) {
 		i = read(send_fd, buf, sizeof buf);
 		assert(i >= 0);
@@ -587,8 +598,6 @@ stevedore_out(int fd, void *priv, int revents)
 		AZ(close(send_fd));
 		send_fd = -1;
 	}
-	if (!VTAILQ_EMPTY(&subj_list))
-		return;
 
 	cp = VTAILQ_FIRST(&get_list);
 	if (cp != NULL) {
@@ -619,6 +628,7 @@ stevedore_out(int fd, void *priv, int revents)
 			/* XXX handle cp */
 			exit(2);
 		}
+		return;
 	}
 	if (sj->meta != NULL && send_fd < 0 &&
 	    VTAILQ_EMPTY(&get_list) && VTAILQ_EMPTY(&ack_list))
-- 
2.43.0


From ef247727581d7cf9eca1b43d6a36575a7ae3025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 30/59] fix: Do not hang the stevedore when it loses the
 connection inside an object

---
 main_stevedore.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/main_stevedore.c b/main_stevedore.c
index 1f8f30f..e1ac020 100644
--- a/main_stevedore.c
+++ b/main_stevedore.c
@@ -318,6 +318,9 @@ input(int fd, void *priv, int revents)
 	(void)revents;
 	i = proto_in(fd, &cmd, &size);
 	if (i == 0) {
+		/* Don't wait for a job which is waiting for us */
+		if (store_job != NULL || meta_job != NULL)
+			exit(3);
 		proto_del_ev(&stdin_ev);
 		return;
 	}
-- 
2.43.0


From 1248f1e643690733a245063d45c4280b5a39e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:47 +0000
Subject: [PATCH 31/59] fix: Do not ignore I/O errors on stow's temporary files

---
 main_stow.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index 2d4b57f..de16384 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -350,6 +350,7 @@ metafile(const struct stow_job *sj, int fd, struct vsb *vsb, FILE *f)
 		if (sz > 0)
 			proto_out(fd, PROTO_META, buf, sz);
 	} while (sz > 0);
+	AZ(ferror(f));
 }
 
 static void
@@ -366,7 +367,8 @@ send_metadata(struct stow_job *sj, int fd)
 
 	VSB_printf(vsb, "[\n    \"STOW3.0\",\n    {\n");
 
-	fflush(sj->changed);
+	AZ(fflush(sj->changed));
+	AZ(ferror(sj->changed));
 	if (ftello(sj->changed) > 0) {
 		VSB_printf(vsb, "\t\"changed\": {\n");
 		metafile(sj, fd, vsb, sj->changed);
@@ -374,7 +376,8 @@ send_metadata(struct stow_job *sj, int fd)
 	}
 	AZ(fclose(sj->changed));
 
-	fflush(sj->missing);
+	AZ(fflush(sj->missing));
+	AZ(ferror(sj->missing));
 	if (ftello(sj->missing) > 0) {
 		VSB_printf(vsb, "\t\"missing\": {\n");
 		metafile(sj, fd, vsb, sj->missing);
@@ -605,7 +608,7 @@ stevedore_out(int fd, void *priv, int revents)
 		VTAILQ_REMOVE(&get_list, cp, list);
 		VTAILQ_INSERT_TAIL(&ack_list, cp, list);
 		if (cp->directory == NULL) {
-			fflush(sj->mtree_tmp);
+			AZ(fflush(sj->mtree_tmp));
 			send_fd = fileno(sj->mtree_tmp);
 			(void)lseek(send_fd, 0, SEEK_SET);
 			printf("SEND\t${MTREE}\n");
-- 
2.43.0


From a4c224566bc4a49677bad53ffd6ca5c48c62d796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:52 +0000
Subject: [PATCH 32/59] fix: Do not use truncated strings when out of memory

Index records could end up in 'index.ap' if the filename ran out of memory.
---
 vsb.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vsb.c b/vsb.c
index e51a28a..b5f6eb9 100644
--- a/vsb.c
+++ b/vsb.c
@@ -377,8 +377,10 @@ VSB_vprintf(struct vsb *s, const char *fmt, va_list ap)
 	 * vsnprintf() returns the amount that would have been copied,
 	 * given sufficient space, so don't over-increment s_len.
 	 */
-	if (VSB_FREESPACE(s) < len)
+	if (VSB_FREESPACE(s) < len) {
 		len = VSB_FREESPACE(s);
+		s->s_error = ENOMEM;
+	}
 	s->s_len += len;
 	if (!VSB_HASROOM(s) && !VSB_CANEXTEND(s))
 		s->s_error = ENOMEM;
-- 
2.43.0


From 9336200f855cf7c2204aa6f0715a0ef0f7fe20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:41 +0000
Subject: [PATCH 33/59] fix: Do not take a read error for the end of filter's
 input

---
 main_filter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main_filter.c b/main_filter.c
index 87750da..5394c6d 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -189,6 +189,10 @@ read_file(const struct aardwarc *aa, FILE *fi)
 		if (c2 != NULL && strcmp(c2->id, c1->id) > 0)
 			retval = 1;
 	}
+	if (ferror(fi)) {
+		fprintf(stderr, "Read error: %s\n", strerror(errno));
+		exit(1);
+	}
 	return (retval);
 }
 
-- 
2.43.0


From 86e9b7d2b21e0a2e4fd3731b6c13d4e83384782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 34/59] fix: Do not index records which are still being written

---
 aardwarc.h     |  1 +
 main_reindex.c |  7 ++++++-
 rsilo.c        | 10 ++++++++++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/aardwarc.h b/aardwarc.h
index 2413f47..116d10c 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -209,6 +209,7 @@ uintmax_t Rsilo_ReadChunk(struct rsilo *, byte_iter_f *, void *);
 int64_t Rsilo_BodyLen(const struct rsilo *);
 int Rsilo_ReadGZChunk(struct rsilo *, byte_iter_f *, void *);
 off_t Rsilo_Tell(const struct rsilo *);
+off_t Rsilo_Size(const struct rsilo *);
 void Rsilo_SkipCRNL(struct rsilo *rs);
 
 /* silo_write.c */
diff --git a/main_reindex.c b/main_reindex.c
index d9d13aa..75ced36 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -257,6 +257,12 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		hdr = Rsilo_ReadHeader(rs);
 		if (hdr == NULL)
 			break;
+		Rsilo_NextHeader(rs);
+		if (Rsilo_Tell(rs) > Rsilo_Size(rs)) {
+			/* Still being written, that may yet fail */
+			Header_Destroy(&hdr);
+			break;
+		}
 
 		flg = 0;
 		wt = Header_Get(hdr, "WARC-Type");
@@ -279,7 +285,6 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 
 		Header_Destroy(&hdr);
-		Rsilo_NextHeader(rs);
 	}
 	Rsilo_Close(&rs);
 	IDX_Resort(aa);
diff --git a/rsilo.c b/rsilo.c
index d7da7dd..82bfbe6 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -30,6 +30,7 @@
 #include <fcntl.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #define ZLIB_CONST
@@ -155,6 +156,15 @@ Rsilo_Tell(const struct rsilo *rs)
 	return (o);
 }
 
+off_t
+Rsilo_Size(const struct rsilo *rs)
+{
+	struct stat st[1];
+
+	CHECK_OBJ_NOTNULL(rs, RSILO_MAGIC);
+	AZ(fstat(rs->silo_fd, st));
+	return (st->st_size);
+}
 
 /* Read a WARC header -------------------------------------------------*/
 
-- 
2.43.0


From 5a62fbf5a7678edebb756975acd0e7e2fe9acb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 35/59] fix: Only rematch segments with their own index records

When only some silos are reindexed, the next segment of the left over ones
is taken from the existing index, but segments with identical content have
the same ID, so the record found could belong to a different object.
---
 main_reindex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/main_reindex.c b/main_reindex.c
index 75ced36..5729aef 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -144,12 +144,12 @@ reindex_iter(void *priv, const char *key,
 {
 	struct seg *seg, *seg2;
 
-	(void)silo;
-	(void)offset;
 	if (!(flag & IDX_F_SEGMENTED))
 		return(0);
 	VTAILQ_FOREACH_SAFE(seg, &segs, list, seg2) {
-		if (!strncmp(key, seg->id, 16)) {
+		/* Other objects may have a segment with the same ID */
+		if (!strncmp(key, seg->id, 16) &&
+		    silo == seg->silono && offset == seg->off) {
 			IDX_Insert(priv, seg->id, seg->flg, seg->silono,
 			    seg->off, cont);
 			seg->done++;
-- 
2.43.0


From 36d606895c186d1f3a1f97644a22be6d62afde19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 36/59] fix: Do not carry on after failing to write to the
 connection

The messages which were not sent are about objects which must be stowed.
---
 proto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/proto.c b/proto.c
index 968017e..7556f90 100644
--- a/proto.c
+++ b/proto.c
@@ -243,6 +243,7 @@ proto_out(int fd, unsigned cmd, const void *ptr, size_t len)
 	if ((size_t)sz != iov[0].iov_len + iov[1].iov_len) {
 		fprintf(stderr, "Write error on connection: %s\n",
 		    strerror(errno));
+		exit(3);
 	}
 }
 
-- 
2.43.0


From 634038a0c5d7247b5dd958f008033c4cc273327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 37/59] fix: Do not leave the hold behind when out of memory

---
 wsilo.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wsilo.c b/wsilo.c
index d0ac951..9bace68 100644
--- a/wsilo.c
+++ b/wsilo.c
@@ -177,8 +177,13 @@ Wsilo_New(struct aardwarc *aa, uint32_t silono)
 	}
 
 	ALLOC_OBJ(sl, WSILO_MAGIC);
-	if (sl == NULL)
+	if (sl == NULL) {
+		AZ(unlink(VSB_data(vsb2)));
+		AZ(close(fd));
+		VSB_delete(vsb);
+		VSB_delete(vsb2);
 		return (NULL);
+	}
 	sl->hold_fd = -1;
 
 	AN(vsb);
-- 
2.43.0


From 48e8b3a8340dfb759664f496e202cc6ef44f2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 38/59] fix: Find partial IDs which begin in an empty bucket of
 the index

---
 index.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/index.c b/index.c
index 00bc15f..8944cf6 100644
--- a/index.c
+++ b/index.c
@@ -271,6 +271,7 @@ uint32_t silo, uint64_t offset, const char *cont)
 struct bucket {
 	unsigned		magic;
 #define BUCKET_MAGIC		0x62759ee1
+#define BUCKET_EMPTY		(1LL << 31)
 	unsigned		bbucket;
 	uint64_t		nrec;
 	uint64_t		nbucket;
@@ -319,7 +320,7 @@ bucket_new(off_t nrec_estimate)
 
 	bp->buckets = calloc(sizeof *bp->buckets, bp->nbucket);
 	for (u = 0; u < bp->nbucket; u++)
-		bp->buckets[u] = 1ULL << 31;
+		bp->buckets[u] = BUCKET_EMPTY;
 	AN(bp->buckets);
 
 	return (bp);
@@ -392,8 +393,14 @@ bucket_seek(const void *rec, FILE *f)
 		frac *= nrec;	// full 64 bit fraction
 		frac >>= 24;	// predicted record number
 		AZ(fseeko(f, bucket * 8, SEEK_SET));
-		assert(1 == fread(buf, sizeof buf, 1, f));
-		off = (int64_t)be64dec(buf);
+		do {
+			/*
+			 * Partial keys may span buckets, and the first of
+			 * these may have no records.
+			 */
+			assert(1 == fread(buf, sizeof buf, 1, f));
+			off = (int64_t)be64dec(buf);
+		} while (off == BUCKET_EMPTY && ++bucket < (1L << nbucket));
 		off += (int64_t)frac;
 		if (off < 0)
 			off = 0;
-- 
2.43.0


From 23cd1076341a809729a04283e1918f5076ca5788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:34 +0000
Subject: [PATCH 39/59] fix: Do not skip silos which cannot be read

---
 main_audit.c   | 24 +++++++++++++++---------
 main_rebuild.c |  3 ++-
 main_reindex.c |  8 ++++++--
 silo.c         | 27 +++++++++++++++++++++------
 4 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/main_audit.c b/main_audit.c
index 356ed8f..619f066 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -315,8 +316,15 @@ audit_silo(struct aardwarc *aa, const char *fn, int nsilo)
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 
 	rs = Rsilo_Open(aa, fn, nsilo, 0);
-	if (rs == NULL)
-		return (-1);
+	if (rs == NULL) {
+		if (fn != NULL)
+			fprintf(stderr, "Cannot open %s: %s\n",
+			    fn, strerror(errno));
+		else
+			fprintf(stderr, "Cannot open silo #%d: %s\n",
+			    nsilo, strerror(errno));
+		return (1);
+	}
 	printf("Audit silo %s #%d\n", fn, nsilo);
 
 	vsberr = VSB_new_auto();
@@ -378,8 +386,7 @@ audit_silo_iter(void *priv, const void *ptr, ssize_t len)
 {
 
 	(void)ptr;
-	(void)audit_silo(priv, NULL, (int)len);
-	return (0);
+	return (audit_silo(priv, NULL, (int)len));
 }
 
 static
@@ -399,7 +406,7 @@ usage_audit(const char *a0, const char *a00, const char *err)
 int v_matchproto_(main_f)
 main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 {
-	int ch;
+	int ch, retval = 0;
 	const char *a00 = *argv;
 	struct audit *ap;
 	struct vsb *err;
@@ -426,11 +433,10 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argv += optind;
 
 	if (argc == 0) {
-		(void)Silo_Iter(aa, audit_silo_iter, aa);
+		retval |= Silo_Iter(aa, audit_silo_iter, aa);
 	} else {
 		while (argc-- > 0)
-			if (audit_silo(aa, *argv++, -1))
-				break;
+			retval |= audit_silo(aa, *argv++, -1);
 	}
 
 	err = VSB_new_auto();
@@ -443,5 +449,5 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	}
 	VSB_destroy(&err);
 
-	return (0);
+	return (retval);
 }
diff --git a/main_rebuild.c b/main_rebuild.c
index 2feeef0..4aad814 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -28,6 +28,7 @@
  */
 
 #include <fcntl.h>
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -249,7 +250,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	if (fi == NULL) {
 		fprintf(stderr,
 		    "Cannot open %s: %s\n", (const char*)fn, strerror(errno));
-		return (0);
+		return (1);
 	}
 	fprintf(stderr, "SILO NO %zd FN %s\n", silono, (const char *)fn);
 	VSB_clear(rb->vsb);
diff --git a/main_reindex.c b/main_reindex.c
index 5729aef..047b179 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -32,6 +32,7 @@
  *	Handle duplicates (reindex2)
  */
 
+#include <errno.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -242,8 +243,11 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 	CAST_OBJ_NOTNULL(aa, priv, AARDWARC_MAGIC);
 
 	rs = Rsilo_Open(aa, fn, silono, 0);
-	if (rs == NULL)
-		return (-1);
+	if (rs == NULL) {
+		fprintf(stderr,
+		    "Cannot open %s: %s\n", (const char*)fn, strerror(errno));
+		return (1);
+	}
 
 	if (silono < 0) {
 		p = strrchr(fn, '/');
diff --git a/silo.c b/silo.c
index a99e7b1..a2a8f2d 100644
--- a/silo.c
+++ b/silo.c
@@ -28,6 +28,8 @@
  */
 
 #include <errno.h>
+#include <stdio.h>
+#include <string.h>
 #include <sys/stat.h>
 
 #include "vdef.h"
@@ -100,14 +102,27 @@ Silo_Iter(const struct aardwarc *aa, byte_iter_f *func, void *priv)
 		numpart(vsb, 0, u);
 		AZ(VSB_finish(vsb));
 		i = stat(VSB_data(vsb), &st);
-		if (i && errno == ENOENT)
+		if (i && errno == ENOENT) {
+			VSB_delete(vsb);
 			break;
-		VSB_delete(vsb);
-		vsb = Silo_Filename(aa, u, 0);
-		i = stat(VSB_data(vsb), &st);
-		if (!i && S_ISREG(st.st_mode))
+		}
+		if (!i) {
+			VSB_delete(vsb);
+			vsb = Silo_Filename(aa, u, 0);
+			i = stat(VSB_data(vsb), &st);
+			if (i && errno == ENOENT) {
+				VSB_delete(vsb);
+				continue;
+			}
+		}
+		if (i) {
+			fprintf(stderr, "Cannot stat %s: %s\n",
+			    VSB_data(vsb), strerror(errno));
+			retval = 1;
+		} else if (S_ISREG(st.st_mode)) {
 			retval = func(priv, VSB_data(vsb), u);
+		}
 		VSB_delete(vsb);
 	}
-	return (0);
+	return (retval);
 }
-- 
2.43.0


From 03bddf00d00a5bf4b7f8ba1891137cd6688c5b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 40/59] fix: Do not take a read error for the end of the silo
 in rebuild

---
 main_rebuild.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/main_rebuild.c b/main_rebuild.c
index 4aad814..2faee81 100644
--- a/main_rebuild.c
+++ b/main_rebuild.c
@@ -118,6 +118,7 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			Header_Destroy(&rb->h);
 			rb->hdrlen = 0;
 			rb->body_start = lseek(rb->fdo, 0, SEEK_CUR);
+			assert(rb->body_start >= 0);
 
 			Gzip_InitDeflate(rb->zs);
 			Gzip_AddAa(rb->zs);
@@ -164,6 +165,7 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			rb->hdrlen = 0;
 
 			rb->body_start = lseek(rb->fdo, 0, SEEK_CUR);
+			assert(rb->body_start >= 0);
 			Gzip_InitDeflate(rb->zs);
 			Gzip_AddAa(rb->zs);
 			rb->zs->avail_in = rb->clen;
@@ -207,9 +209,11 @@ rebuild_process(struct rebuild *rb, const unsigned char *ptr, ssize_t len)
 			}
 			assert(deflateEnd(rb->zs) == Z_OK);
 			ll = lseek(rb->fdo, 0, SEEK_CUR);
-			(void)lseek(rb->fdo, rb->body_start, SEEK_SET);
+			assert(ll > rb->body_start);
+			assert(lseek(rb->fdo, rb->body_start, SEEK_SET) ==
+			    rb->body_start);
 			Gzip_WriteAa(rb->fdo, ll - rb->body_start);
-			(void)lseek(rb->fdo, ll, SEEK_SET);
+			assert(lseek(rb->fdo, ll, SEEK_SET) == ll);
 			wz = write(rb->fdo,
 			    Gzip_crnlcrnl, sizeof Gzip_crnlcrnl);
 			assert(wz == sizeof Gzip_crnlcrnl);
@@ -243,7 +247,7 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 	FILE		*fi;
 	size_t		rz;
 	ssize_t		oz;
-	int		i;
+	int		i, retval = 0;
 
 	CAST_OBJ_NOTNULL(rb, priv, REBUILD_MAGIC);
 	fi = fopen(fn, "rb");
@@ -286,9 +290,15 @@ rebuild_silo_iter(void *priv, const void *fn, ssize_t silono)
 		}
 	} while (i == Z_OK);
 
+	if (ferror(fi) || i != Z_OK || zs->total_in || rb->state) {
+		fprintf(stderr, "Cannot read all of %s\n", (const char*)fn);
+		retval = 1;
+	}
+	(void)inflateEnd(zs);
+	AZ(fclose(fi));
 	AZ(close(rb->fdo));
 
-	return(0);
+	return(retval);
 }
 
 static void
-- 
2.43.0


From 3422c620f8083207c7a792a5795f8b3e45f82cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 41/59] fix: Do not carry on in the wrong place when seeking in
 a silo fails

---
 rsilo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsilo.c b/rsilo.c
index 82bfbe6..f71b39e 100644
--- a/rsilo.c
+++ b/rsilo.c
@@ -200,7 +200,7 @@ Rsilo_ReadHeader(struct rsilo *rs)
 
 	rs->silo_bodylen = Gzip_ReadAa(zs->next_in, zs->avail_in);
 
-	(void)lseek(rs->silo_fd, -(off_t)zs->avail_in, SEEK_CUR);
+	assert(lseek(rs->silo_fd, -(off_t)zs->avail_in, SEEK_CUR) >= 0);
 
 	i = inflateEnd(zs);
 	assert(i == Z_OK);
@@ -302,7 +302,7 @@ Rsilo_ReadChunk(struct rsilo *rs, byte_iter_f *func, void *priv)
 	} while (i >= Z_OK && i != Z_STREAM_END && j == 0);
 
 	if (zs->avail_in > 0)
-		(void)lseek(rs->silo_fd, -(off_t)zs->avail_in, SEEK_CUR);
+		assert(lseek(rs->silo_fd, -(off_t)zs->avail_in, SEEK_CUR) >= 0);
 
 	rs->silo_where = RS_CRLF;
 	i = inflateEnd(zs);
-- 
2.43.0


From 5c382c417e9707aeca933063314be7a4b42a1a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:18 +0000
Subject: [PATCH 42/59] fix: Do not list records by ID whose ID only begins
 like the one asked for

---
 main_byid.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/main_byid.c b/main_byid.c
index 1de27a1..fb5ad8c 100644
--- a/main_byid.c
+++ b/main_byid.c
@@ -55,6 +55,7 @@ struct privs {
 	unsigned		magic;
 #define PRIVS_MAGIC		0x37ea975a
 	struct aardwarc *aa;
+	const char	*nid;
 	int		retval;
 };
 
@@ -77,6 +78,12 @@ byid_iter(void *priv, const char *key,
 	hdr = Rsilo_ReadHeader(rs);
 	AN(hdr);
 	p = Header_Get_Id(hdr);
+	if (strncasecmp(p, pp->nid, strlen(pp->nid))) {
+		/* The index only holds the first part of the ID */
+		Header_Destroy(&hdr);
+		Rsilo_Close(&rs);
+		return (0);
+	}
 	printf("id %s", p);
 	p = Header_Get(hdr, "WARC-Type");
 	printf(" wt %s", p);
@@ -124,6 +131,7 @@ main_byid(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			fprintf(stderr, "Invalid ID-fragment\n");
 			exit(1);
 		}
+		privs->nid = nid;
 		(void)IDX_Iter(aa, nid, byid_iter, privs);
 	}
 	if (ok)
-- 
2.43.0


From c90a62b2173628b81b8add4eb22912688e573fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:24 +0000
Subject: [PATCH 43/59] fix: Refuse invalid ID-fragments in dumpindex instead
 of asserting or dumping other IDs

---
 main_dumpindex.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index 77fcb25..d6da323 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -101,7 +101,13 @@ main_dumpindex(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	if (argc == 0)
 		(void)IDX_Iter(aa, NULL, dumpindex_iter, &u);
 	else
-		for (;argc > 0; argc--, argv++)
+		for (;argc > 0; argc--, argv++) {
+			if (strspn(*argv, "0123456789abcdefABCDEF") !=
+			    strlen(*argv) || strlen(*argv) > aa->id_size) {
+				fprintf(stderr, "Invalid ID-fragment\n");
+				exit(1);
+			}
 			(void)IDX_Iter(aa, *argv, dumpindex_iter, &u);
+		}
 	return (0);
 }
-- 
2.43.0


From db4a43ca434842cb47a1046fa5e2748371d421df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:29 +0000
Subject: [PATCH 44/59] fix: Do not make another silo than the one asked for
 when mksilo's argument is not a silo number

---
 main_mksilo.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/main_mksilo.c b/main_mksilo.c
index 30bddeb..c1e9d75 100644
--- a/main_mksilo.c
+++ b/main_mksilo.c
@@ -27,7 +27,10 @@
  *
  */
 
+#include <ctype.h>
+#include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -54,6 +57,8 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	int ch, retval = 0;
 	const char *a00 = *argv;
 	unsigned u;
+	unsigned long ul;
+	char *p;
 	struct wsilo *ws;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
@@ -77,7 +82,14 @@ main_mksilo(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		usage_mksilo(a0, a00, "No silo#.");
 		exit(1);
 	}
-	u = strtoul(argv[0], NULL, 0);
+	errno = 0;
+	ul = strtoul(argv[0], &p, 0);
+	if (argc > 1 || !isdigit((unsigned char)*argv[0]) || *p != '\0' ||
+	    errno != 0 || ul > UINT_MAX) {
+		usage_mksilo(a0, a00, "Invalid silo#.");
+		exit(1);
+	}
+	u = (unsigned)ul;
 	ws = Wsilo_New(aa, u);
 	if (ws == NULL) {
 		usage_mksilo(a0, a00, "Could not.");
-- 
2.43.0


From 5f5c439049e3a9e6587923299f5d2a688e7c1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 45/59] fix: Do not audit after an unknown -i argument

---
 main_audit.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/main_audit.c b/main_audit.c
index 619f066..726cd8f 100644
--- a/main_audit.c
+++ b/main_audit.c
@@ -421,8 +421,10 @@ main_audit(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		case 'i':
 			if (!strcmp(optarg, "ignore-metadata-record-id"))
 				ignore_metadata_record_id = 1;
-			else
+			else {
 				usage_audit(a0, a00, "Unknown -i argument.");
+				exit(1);
+			}
 			break;
 		default:
 			usage_audit(a0, a00, "Unknown option error.");
-- 
2.43.0


From 5d0476d142c1c4073e34ab545af9d77cd19a7509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 46/59] fix: Do not truncate get's output file when there is
 nothing to put in it

---
 main_get.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/main_get.c b/main_get.c
index 936551e..18b2ea0 100644
--- a/main_get.c
+++ b/main_get.c
@@ -134,6 +134,17 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	gp->zip = zip;
 	SHA256_Init(gp->sha256);
 
+	vsb = VSB_new_auto();
+	AN(vsb);
+
+	gj = GetJob_New(aa, *argv, vsb);
+	if (gj == NULL) {
+		AZ(VSB_finish(vsb));
+		fprintf(stderr, "%s\n", VSB_data(vsb));
+		exit (1);
+	}
+	VSB_delete(vsb);
+
 	if (of != NULL) {
 		gp->dst = fopen(of, "w");
 		if (gp->dst == NULL) {
@@ -147,16 +158,6 @@ main_get(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		gp->hdr = stderr;
 	}
 
-	vsb = VSB_new_auto();
-	AN(vsb);
-
-	gj = GetJob_New(aa, *argv, vsb);
-	if (gj == NULL) {
-		AZ(VSB_finish(vsb));
-		fprintf(stderr, "%s\n", VSB_data(vsb));
-		exit (1);
-	}
-	VSB_delete(vsb);
 	hdr1 = GetJob_Header(gj, 1);
 	AN(hdr1);
 	hdr9 = GetJob_Header(gj, 0);
-- 
2.43.0


From 1685579502acdf165c55bef30988a7e2c703950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:46 +0000
Subject: [PATCH 47/59] fix: Refuse arguments to housekeeping instead of
 asserting

---
 main_housekeeping.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/main_housekeeping.c b/main_housekeeping.c
index bf63902..118e36d 100644
--- a/main_housekeeping.c
+++ b/main_housekeeping.c
@@ -69,8 +69,10 @@ main_housekeeping(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	argc -= optind;
 	argv += optind;
 
-	AZ(argc);
-	AZ(*argv);
+	if (argc != 0) {
+		usage_housekeeping(a0, a00, "No arguments allowed.");
+		exit(1);
+	}
 
 	IDX_Resort(aa);
 
-- 
2.43.0


From d534a11845178befca6b6d6ba96849b925538d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:16 +0000
Subject: [PATCH 48/59] fix: Do not exit 0 from housekeeping which failed

---
 aardwarc.h          |  2 +-
 index.c             | 13 ++++++++-----
 main_housekeeping.c |  4 +---
 main_reindex.c      |  2 +-
 4 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/aardwarc.h b/aardwarc.h
index 116d10c..2c72563 100644
--- a/aardwarc.h
+++ b/aardwarc.h
@@ -152,7 +152,7 @@ typedef int idx_iter_f(void *priv, const char *key,
 int IDX_Iter(const struct aardwarc *aa, const char *key_part,
     idx_iter_f *func, void *priv);
 
-void IDX_Resort(const struct aardwarc *aa);
+int IDX_Resort(const struct aardwarc *aa);
 
 const char *IDX_Valid_Id(const struct aardwarc *,
     const char *id, const char **nid);
diff --git a/index.c b/index.c
index 8944cf6..1885220 100644
--- a/index.c
+++ b/index.c
@@ -649,13 +649,14 @@ idx_attempt_merge(const struct aardwarc *aa, uint8_t *spc,
 	return (retval);
 }
 
-void
+int
 IDX_Resort(const struct aardwarc *aa)
 {
 
 	struct vsb *vsba, *vsbh, *vsb4;
 	uint8_t	*spc;
 	int fdh;
+	int i = -1;
 
 	vsb4 = idx_filename(aa, SUFF_HOLD);
 
@@ -665,14 +666,14 @@ IDX_Resort(const struct aardwarc *aa)
 		    "Housekeeping 'hold' already file exists (%s)\n",
 		    VSB_data(vsb4));
 		VSB_delete(vsb4);
-		return;
+		return (0);
 	}
 	if (fdh < 0) {
 		fprintf(stderr,
 		    "Could not create housekeeping 'hold' file (%s): %s\n",
 		    VSB_data(vsb4), strerror(errno));
 		VSB_delete(vsb4);
-		return;
+		return (-1);
 	}
 
 	spc = malloc(aa->index_sort_size);
@@ -684,8 +685,9 @@ IDX_Resort(const struct aardwarc *aa)
 		vsba = idx_filename(aa, SUFF_APPENDIX);
 		vsbh = idx_filename(aa, SUFF_HOUSEKEEP);
 
-		while(idx_attempt_merge(aa, spc, vsba, vsbh) > 0)
-			continue;
+		do
+			i = idx_attempt_merge(aa, spc, vsba, vsbh);
+		while (i > 0);
 
 		VSB_delete(vsba);
 		VSB_delete(vsbh);
@@ -693,4 +695,5 @@ IDX_Resort(const struct aardwarc *aa)
 	}
 	AZ(unlink(VSB_data(vsb4)));
 	AZ(close(fdh));
+	return (i);
 }
diff --git a/main_housekeeping.c b/main_housekeeping.c
index 118e36d..11864ee 100644
--- a/main_housekeeping.c
+++ b/main_housekeeping.c
@@ -74,7 +74,5 @@ main_housekeeping(const char *a0, struct aardwarc *aa, int argc, char **argv)
 		exit(1);
 	}
 
-	IDX_Resort(aa);
-
-	return (0);
+	return (IDX_Resort(aa) ? 1 : 0);
 }
diff --git a/main_reindex.c b/main_reindex.c
index 047b179..6682a34 100644
--- a/main_reindex.c
+++ b/main_reindex.c
@@ -291,7 +291,7 @@ silo_iter(void *priv, const void *fn, ssize_t silono)
 		Header_Destroy(&hdr);
 	}
 	Rsilo_Close(&rs);
-	IDX_Resort(aa);
+	(void)IDX_Resort(aa);
 	return (0);
 }
 
-- 
2.43.0


From ad84051ba003dead1f27d8b819d1c33c878a83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:50 +0000
Subject: [PATCH 49/59] fix: Refuse negative and too large sizes in the
 configuration

---
 vnum.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vnum.c b/vnum.c
index 052f95a..f11cc80 100644
--- a/vnum.c
+++ b/vnum.c
@@ -110,6 +110,8 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 		return (err_invalid_num);
 
 	if (end == NULL) {
+		if (fval < 0. || fval >= 9223372036854775808.)
+			return (err_invalid_num);
 		*r = (uintmax_t)fval;
 		return (NULL);
 	}
@@ -156,6 +158,9 @@ VNUM_2bytes(const char *p, uintmax_t *r, uintmax_t rel)
 			return (err_invalid_suff);
 	}
 
-	*r = (uintmax_t)round(fval);
+	fval = round(fval);
+	if (fval < 0. || fval >= 9223372036854775808.)
+		return (err_invalid_num);
+	*r = (uintmax_t)fval;
 	return (NULL);
 }
-- 
2.43.0


From cd27a5be5ee09531ff55f3c24591cdce9db51a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 50/59] fix: Refuse malformed size and name settings instead of
 using the default

---
 aardwarc.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/aardwarc.c b/aardwarc.c
index 611c362..ac8699d 100644
--- a/aardwarc.c
+++ b/aardwarc.c
@@ -46,7 +46,7 @@
 struct aardwarc *
 AardWARC_New(const char *config_file, struct vsb *err)
 {
-	int e;
+	int e, i;
 	struct aardwarc *aa;
 	const char *p, *p2;
 	uintmax_t um;
@@ -104,8 +104,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "silo.max_size", &p, NULL))
+		i = Config_Get(aa->cfg, "silo.max_size", &p, NULL);
+		if (i == ENOENT)
 			p = "3.5G";
+		else if (i) {
+			VSB_printf(err,
+			    "'silo.max_size' must have a single value.\n");
+			break;
+		}
 
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
@@ -116,8 +122,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 		aa->silo_maxsize = (off_t)um;
 		assert(um == (uintmax_t)aa->silo_maxsize);
 
-		if (Config_Get(aa->cfg, "silo.basename", &p, NULL))
+		i = Config_Get(aa->cfg, "silo.basename", &p, NULL);
+		if (i == ENOENT)
 			p = "%08u.warc.gz";
+		else if (i) {
+			VSB_printf(err,
+			    "'silo.basename' must have a single value.\n");
+			break;
+		}
 
 		if (fmtcheck(p, "%u") != p) {
 			VSB_printf(err,
@@ -132,8 +144,14 @@ AardWARC_New(const char *config_file, struct vsb *err)
 			break;
 		}
 
-		if (Config_Get(aa->cfg, "index.sort_size", &p, NULL))
+		i = Config_Get(aa->cfg, "index.sort_size", &p, NULL);
+		if (i == ENOENT)
 			p = "10M";
+		else if (i) {
+			VSB_printf(err,
+			    "'index.sort_size' must have a single value.\n");
+			break;
+		}
 		p2 = VNUM_2bytes(p, &um, 0);
 		if (p2 != NULL) {
 			VSB_printf(err,
-- 
2.43.0


From c7feac64caa343a22ef94d1ba332fdf60ba18ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:30 +0000
Subject: [PATCH 51/59] fix: Do not work with the first part of a malformed
 configuration

---
 config.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/config.c b/config.c
index 925cc65..f8f988e 100644
--- a/config.c
+++ b/config.c
@@ -199,8 +199,12 @@ Config_Read(const char *fn)
 	}
 	cfg->space[st.st_size] = '\0';
 	e = config_parse(cfg);
-	if (e != NULL)
+	if (e != NULL) {
 		fprintf(stderr, "Config = %s\n", e);
+		config_destroy(cfg);
+		errno = EINVAL;
+		return (NULL);
+	}
 
 	return (cfg);
 }
-- 
2.43.0


From 6985ad30cad44c778a442bc54d837268e83197e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 52/59] fix: Do not truncate filter's output file before its
 input was found good

---
 main_filter.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/main_filter.c b/main_filter.c
index 5394c6d..450235b 100644
--- a/main_filter.c
+++ b/main_filter.c
@@ -255,15 +255,6 @@ main_filter(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	if (argc == 0)
 		needs_sort |= read_file(aa, stdin);
 
-	if (ofile != NULL) {
-		fo = fopen(ofile, "w");
-		if (fo == NULL) {
-			fprintf(stderr, "Cannot open %s: %s\n",
-			    ofile, strerror(errno));
-			exit (1);
-		}
-	}
-
 	for (;argc > 0; argc--, argv++) {
 		if (!strcmp(*argv, "-")) {
 			if (stdin_done++) {
@@ -282,6 +273,16 @@ main_filter(const char *a0, struct aardwarc *aa, int argc, char **argv)
 			AZ(fclose(fi));
 		}
 	}
+
+	if (ofile != NULL) {
+		fo = fopen(ofile, "w");
+		if (fo == NULL) {
+			fprintf(stderr, "Cannot open %s: %s\n",
+			    ofile, strerror(errno));
+			exit (1);
+		}
+	}
+
 	if (needs_sort) {
 		cp = calloc(ncand, sizeof *cp);
 		AN(cp);
-- 
2.43.0


From 5d94b1e31439628816cb9d8f35c8120b1fa50d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:43 +0000
Subject: [PATCH 53/59] fix: do not pass over a configuration file which is
 there but cannot be used

---
 main.c | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/main.c b/main.c
index bb2008c..ba7b4f4 100644
--- a/main.c
+++ b/main.c
@@ -32,6 +32,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
+#include <sys/stat.h>
 
 #include "vdef.h"
 
@@ -102,6 +103,27 @@ call_main(const char *a0, struct aardwarc *aa, int argc, char **argv)
 	return (mp->func(a0, aa, argc, argv));
 }
 
+static struct aardwarc *
+try_config(const char *fn, struct vsb *vsb)
+{
+	struct aardwarc *aa;
+	struct stat st;
+
+	if (stat(fn, &st) && (errno == ENOENT || errno == ENOTDIR)) {
+		VSB_printf(vsb, "Cannot open %s: %s\n", fn, strerror(errno));
+		AZ(VSB_finish(vsb));
+		return (NULL);
+	}
+	aa = AardWARC_New(fn, vsb);
+	AZ(VSB_finish(vsb));
+	if (aa == NULL) {
+		/* Do not use another archive than this one is about */
+		fprintf(stderr, "%s:\n%s", fn, VSB_data(vsb));
+		exit(2);
+	}
+	return (aa);
+}
+
 int
 main(int argc, char **argv)
 {
@@ -166,17 +188,12 @@ main(int argc, char **argv)
 		home = getenv("HOME");
 		if (home != NULL) {
 			bprintf(buf, "%s/.aardwarc.conf", home);
-			aa = AardWARC_New(buf, vsb1);
-			AZ(VSB_finish(vsb1));
-		}
-		if (aa == NULL) {
-			aa = AardWARC_New("/etc/aardwarc.conf", vsb2);
-			AZ(VSB_finish(vsb2));
-		}
-		if (aa == NULL) {
-			aa = AardWARC_New("/usr/local/etc/aardwarc.conf", vsb3);
-			AZ(VSB_finish(vsb3));
+			aa = try_config(buf, vsb1);
 		}
+		if (aa == NULL)
+			aa = try_config("/etc/aardwarc.conf", vsb2);
+		if (aa == NULL)
+			aa = try_config("/usr/local/etc/aardwarc.conf", vsb3);
 		if (aa == NULL) {
 			fprintf(stderr, "No config file found, tried:\n");
 			if (buf[0] != '\0')
-- 
2.43.0


From 9b1704cec0cac883407c7f1e232497add90ea423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:45 +0000
Subject: [PATCH 54/59] fix: do not overrun a static buffer when stowing deep
 directory trees

---
 main_stow.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/main_stow.c b/main_stow.c
index de16384..aaf2d10 100644
--- a/main_stow.c
+++ b/main_stow.c
@@ -112,7 +112,6 @@ static VTAILQ_HEAD(,stow_job)	job_list = VTAILQ_HEAD_INITIALIZER(job_list);
 
 /**********************************************************************/
 
-static char mtree_path[4096];
 static int mtree_type_dir;
 static struct dir *pwd;
 static int send_fd = -1;
@@ -121,7 +120,7 @@ static void
 mtree_interpret(char *line)
 {
 	char *word, *w0;
-	char *p, *digest;
+	char *digest;
 	int dir = mtree_type_dir;
 	struct dir *dp = NULL;
 	struct subj *cp;
@@ -139,10 +138,6 @@ mtree_interpret(char *line)
 				mtree_type_dir = 0;
 		}
 	} else if (!strcmp(word, "..")) {
-		p = strrchr(mtree_path, '/');
-		if (p == NULL)
-			p = mtree_path;
-		*p = '\0';
 		AN(pwd);
 		pwd = pwd->parent;
 	} else {
@@ -178,13 +173,15 @@ mtree_interpret(char *line)
 			VTAILQ_INSERT_TAIL(&subj_list, cp, list);
 			proto_ctl_ev(stevedore_0_ev, 1);
 		} else {
-			strcat(mtree_path, "/");
-			strcat(mtree_path, w0);
-			// printf("D %s\n", mtree_path + 1);
 			ALLOC_OBJ(dp, DIR_MAGIC);
 			AN(dp);
-			dp->dirname = strdup(mtree_path + 1);
+			if (pwd == NULL)
+				dp->dirname = strdup(w0);
+			else if (asprintf(&dp->dirname, "%s/%s",
+			    pwd->dirname, w0) < 0)
+				dp->dirname = NULL;
 			AN(dp->dirname);
+			// printf("D %s\n", dp->dirname);
 			dp->parent = pwd;
 			pwd = dp;
 			VTAILQ_INSERT_TAIL(&dir_list, dp, list);
-- 
2.43.0


From b1fca5e9284a4875326cf8608f318b109b62dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:59 +0000
Subject: [PATCH 55/59] fix: list segmented objects, too, with dumpindex -t

The index record of a segmented object has further flags set, so the
comparison for equality never listed one.
---
 main_dumpindex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main_dumpindex.c b/main_dumpindex.c
index d6da323..21481c9 100644
--- a/main_dumpindex.c
+++ b/main_dumpindex.c
@@ -57,7 +57,7 @@ dumpindex_iter(void *priv, const char *key,
 	uint32_t *u;
 
 	u = priv;
-	if (*u != 0 && flag != *u)
+	if (*u != 0 && (flag & *u) == 0)
 		return (0);
 	printf("%s 0x%08x %8u %12jd %s\n", key, flag, silo, offset, cont);
 	return(0);
-- 
2.43.0


From d2e8aa88ae1c4da5a5688777cd2dc4c6986e01da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:26 +0000
Subject: [PATCH 56/59] fix: do not note silos as staged for backup before they
 are

If the run was interrupted between the two renames, what had been added
to the silos it picked was not offered again.
---
 utilities/select_silos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index af1494d..25797dc 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -307,8 +307,6 @@ def main(sdir):
         fo.write("%s %.3f %d\n" % (s.fn, s.last_tm, s.last_sz))
     fo.close()
 
-    os.rename(SILODATES + ".new", SILODATES)
-
 if __name__ == "__main__":
 
     snew = STAGING + ".new"
@@ -330,4 +328,7 @@ if __name__ == "__main__":
 
     os.rename(snew, STAGING)
 
+    # Only what can be found in STAGING has been staged
+    os.rename(SILODATES + ".new", SILODATES)
+
     shutil.rmtree(sold, ignore_errors=True)
-- 
2.43.0


From 5bb8a5e5a8cced10b08e5be727492cb24076d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:26 +0000
Subject: [PATCH 57/59] fix: notice when the backup staging area fills up

Errors on closing a file are only reported by an explicit close(), so the
tails of files which did not fit were silently lost.
---
 utilities/select_silos.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/utilities/select_silos.py b/utilities/select_silos.py
index 25797dc..202b91b 100644
--- a/utilities/select_silos.py
+++ b/utilities/select_silos.py
@@ -219,6 +219,8 @@ def Encrypt_File(sfn, dfn):
         authentication.update(b)
         integrity.update(b)
         fo.write(b)
+    fo.close()
+    fi.close()
 
     b = encryption.finalize()
     assert len(b) == 0	# CTR mode
@@ -227,11 +229,13 @@ def Encrypt_File(sfn, dfn):
 			    # integrity.update(b)
 			    # fo.write(b)
 
-    open(dfn + ".hmac", "w").write(authentication.finalize().hex() + "\n")
-    open(dfn + ".sha256", "w").write(
-        "SHA256 (%s) = " % os.path.basename(dfn) +
-        integrity.finalize().hex() + "\n"
-    )
+    with open(dfn + ".hmac", "w") as fo:
+        fo.write(authentication.finalize().hex() + "\n")
+    with open(dfn + ".sha256", "w") as fo:
+        fo.write(
+            "SHA256 (%s) = " % os.path.basename(dfn) +
+            integrity.finalize().hex() + "\n"
+        )
 
 
 class Silo():
-- 
2.43.0


From caecc09af4d65b78bb31e20a825d518ad872c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:48 +0000
Subject: [PATCH 58/59] fix: do not abort when the configuration has no
 warcinfo.body

Creating a silo asserted, leaving a hold file behind which makes the
silo number unusable for good.  The section has no mandatory contents.
---
 warcinfo.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcinfo.c b/warcinfo.c
index 2f43b29..1d0afe0 100644
--- a/warcinfo.c
+++ b/warcinfo.c
@@ -27,6 +27,7 @@
  *
  */
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include <sha256.h>
@@ -79,6 +80,7 @@ Warcinfo_New(const struct aardwarc *aa, struct wsilo *wsl, uint32_t silono)
 	struct vsb *vsb;
 	void *ptr;
 	ssize_t len, len2;
+	int i;
 
 	CHECK_OBJ_NOTNULL(aa, AARDWARC_MAGIC);
 	AN(wsl);
@@ -97,7 +99,8 @@ Warcinfo_New(const struct aardwarc *aa, struct wsilo *wsl, uint32_t silono)
 	wi->body = VSB_new_auto();
 	AN(wi->body);
 	VSB_printf(wi->body, "title: %s\r\n", r);
-	AZ(Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter));
+	i = Config_Iter(aa->cfg, "warcinfo.body", wi, c_iter);
+	assert(i == 0 || i == ENOENT);
 	VSB_printf(wi->body, "format: WARC file version 1.1\r\n");
 	VSB_printf(wi->body, "conformsTo: %s\r\n",
 	    "http://iipc.github.io/warc-specifications/"
-- 
2.43.0


From 1bb639504ac2bd1da6a8b79864fe95cc87ed159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:48 +0000
Subject: [PATCH 59/59] fix: do not print a NULL pointer into the warcinfo
 record

A name without a value in the warcinfo.body section is legal.
---
 warcinfo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcinfo.c b/warcinfo.c
index 1d0afe0..026b1a2 100644
--- a/warcinfo.c
+++ b/warcinfo.c
@@ -67,7 +67,7 @@ c_iter(void *priv, const char *name, const char *arg)
 		return(0);
 	if (!strcasecmp(name, "title:"))
 		return(0);
-	VSB_printf(wi->body, "%s %s\r\n", name, arg);
+	VSB_printf(wi->body, "%s %s\r\n", name, arg == NULL ? "" : arg);
 	return (0);
 }
 
-- 
2.43.0

