From 03ad547b3df6e81b7f880ff7e82806e725f0f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:38 +0000
Subject: [PATCH 01/12] fix: resume past a two-page checkpoint group without
 skipping a block

find_head() started its scan one user page after the last programmed
checkpoint group.  With a checkpoint period of 2 (256-byte pages, or two
pages per block) the next user page is in the following group, so when
the last group of a block was the newest one the scan began in the next
block (and could run over the tail) and data was lost after a restart.
---
 dhara/journal.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 87743c3..41e541a 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -368,9 +368,7 @@ static int find_root(struct dhara_journal *j, dhara_page_t start,
 static int find_head(struct dhara_journal *j, dhara_page_t start,
 		     dhara_error_t *err)
 {
-	j->head = next_upage(j, start);
-	if (!j->head)
-		roll_stats(j);
+	j->head = start;
 
 	/* Starting from the last good checkpoint, find either:
 	 *
-- 
2.43.0


From 908c6be7d33ecbf3b49f1efa604fd3f9d9ac785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 02/12] fix: don't report success when a block's first
 checkpoint can't be written

With a checkpoint period of 2, the user page of the first group is block
aligned when its checkpoint page is programmed.  If that program failed,
recover_from() returned 0, and the write was reported as successful even
though it had gone with the bad block.
---
 dhara/journal.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 41e541a..5131e9a 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -793,17 +793,22 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 		return 0;
 	}
 
-	/* We don't need to check for immediate recover, because that'll
-	 * never happen -- we're not block-aligned.
-	 */
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
 	hdr_set_tail(j->page_buf, j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
-	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0)
-		return recover_from(j, my_err, err);
+	if (dhara_nand_prog(j->nand, j->head + 1, j->page_buf, &my_err) < 0) {
+		/* If the group was the first in its block, then no recovery
+		 * is started, but the page we just wrote is gone with the
+		 * block. The caller needs to write it again.
+		 */
+		if (!recover_from(j, my_err, err))
+			dhara_set_error(err, DHARA_E_RECOVER);
+
+		return -1;
+	}
 
 	j->flags &= ~DHARA_JOURNAL_F_DIRTY;
 
-- 
2.43.0


From 5a0fa48c7bbaf7a51aa273088c140d0e553a5431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 03/12] fix: skip the tail forward when it is inside a block
 that went bad

The tail was only moved past a bad block when it was at the start of it.
If it was further in, garbage collection went on to read the metadata of
the failed checkpoint group, and from then on every write failed with an
ECC error.
---
 dhara/journal.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 5131e9a..fdb2120 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -534,6 +534,15 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 	if (j->head == j->tail)
 		return DHARA_PAGE_NONE;
 
+	/* If the block went bad after the tail moved into it, then whatever
+	 * was still needed was rewritten during recovery. Skip the rest.
+	 */
+	if (!is_aligned(j->tail, j->nand->log2_ppb) &&
+	    !align_eq(j->tail, j->head, j->nand->log2_ppb) &&
+	    dhara_nand_is_bad(j->nand, j->tail >> j->nand->log2_ppb))
+		j->tail = next_block(j->nand,
+			j->tail >> j->nand->log2_ppb) << j->nand->log2_ppb;
+
 	if (is_aligned(j->tail, j->nand->log2_ppb)) {
 		dhara_block_t blk = j->tail >> j->nand->log2_ppb;
 		int i;
@@ -766,7 +775,6 @@ static void finish_recovery(struct dhara_journal *j)
 		dhara_nand_mark_bad(j->nand,
 			j->recover_meta >> j->nand->log2_ppb);
 
-	/* Was the tail on this page? Skip it forward */
 	clear_recovery(j);
 }
 
-- 
2.43.0


From 60432934ae905fd6697f8ae76c4f59a7fb953e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 04/12] fix: recover from a block failure while the journal is
 empty

With no root, recovery enumerated pages starting from the block number
of DHARA_PAGE_NONE: reads went outside the chip, and a non-existent block
was finally marked bad.
---
 dhara/journal.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/dhara/journal.c b/dhara/journal.c
index fdb2120..ac4a9ae 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -666,6 +666,13 @@ static void restart_recovery(struct dhara_journal *j, dhara_page_t old_head)
 	else
 		j->flags |= DHARA_JOURNAL_F_BAD_META;
 
+	/* If the journal was empty, there's nothing to enumerate */
+	if (j->recover_next == DHARA_PAGE_NONE) {
+		j->tail = j->head;
+		j->root = DHARA_PAGE_NONE;
+		return;
+	}
+
 	/* Start recovery again. Reset the source enumeration to
 	 * the start of the original bad block, and reset the
 	 * destination enumeration to the newly found good
@@ -746,6 +753,22 @@ static int recover_from(struct dhara_journal *j,
 		return 0;
 	}
 
+	/* Is the journal empty? Then there's nothing to rewrite, but the
+	 * bad block may still hold the last checkpoint. All we need is a
+	 * new one before it can be marked bad.
+	 */
+	if (j->root == DHARA_PAGE_NONE) {
+		j->tail = j->head;
+		j->recover_root = old_head;
+		j->recover_next = DHARA_PAGE_NONE;
+		hdr_clear_user(j->page_buf, j->nand->log2_page_size);
+
+		j->flags |= DHARA_JOURNAL_F_RECOVERY |
+			    DHARA_JOURNAL_F_ENUM_DONE;
+		dhara_set_error(err, DHARA_E_RECOVER);
+		return -1;
+	}
+
 	j->recover_root = j->root;
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
-- 
2.43.0


From 76db952390295eb8bbc37afcdab774d72cd6b08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 05/12] fix: don't lose synced sectors if power fails during
 bad-block recovery

When a block failed part-way through a checkpoint group, recovery wrote
new checkpoints whose paths still led to pages of that group, while its
metadata existed only on a dump page that a resume knows nothing about.
If power was lost between such a checkpoint and the end of recovery, the
resumed map had lost sectors which were already durable.  Rewrite the
pages of the unfinished group first: they always fit in front of the
first checkpoint.
---
 dhara/map.c | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/dhara/map.c b/dhara/map.c
index 48ec45e..88e6f0d 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -266,11 +266,33 @@ static int pad_queue(struct dhara_map *m, dhara_error_t *err)
 	return dhara_journal_copy(&m->journal, p, root_meta, err);
 }
 
+/* If metadata was still buffered when the block failed, then it's been
+ * dumped on a page which only we know about. Rewrite the pages it belongs
+ * to before anything else, so that they're not needed by the checkpoints
+ * written while recovery is in progress: we might be resumed from one.
+ */
+static int recover_buffered(struct dhara_map *m, dhara_error_t *err)
+{
+	const struct dhara_journal *j = &m->journal;
+	const dhara_page_t last = j->recover_root;
+	dhara_page_t p;
+
+	if (j->recover_meta == DHARA_PAGE_NONE)
+		return 0;
+
+	for (p = last & ~((1 << j->log2_ppc) - 1); p <= last; p++)
+		if (raw_gc(m, p, err) < 0)
+			return -1;
+
+	return 0;
+}
+
 /* Attempt to recover the journal */
 static int try_recover(struct dhara_map *m, dhara_error_t cause,
 		       dhara_error_t *err)
 {
 	int restart_count = 0;
+	int restart = 1;
 
 	if (cause != DHARA_E_RECOVER) {
 		dhara_set_error(err, cause);
@@ -278,15 +300,22 @@ static int try_recover(struct dhara_map *m, dhara_error_t cause,
 	}
 
 	while (dhara_journal_in_recovery(&m->journal)) {
-		dhara_page_t p = dhara_journal_next_recoverable(&m->journal);
 		dhara_error_t my_err;
 		int ret;
 
-		if (p == DHARA_PAGE_NONE)
-			ret = pad_queue(m, &my_err);
-		else
-			ret = raw_gc(m, p, &my_err);
+		if (restart) {
+			ret = recover_buffered(m, &my_err);
+		} else {
+			const dhara_page_t p =
+				dhara_journal_next_recoverable(&m->journal);
+
+			if (p == DHARA_PAGE_NONE)
+				ret = pad_queue(m, &my_err);
+			else
+				ret = raw_gc(m, p, &my_err);
+		}
 
+		restart = ret < 0;
 		if (ret < 0) {
 			if (my_err != DHARA_E_RECOVER) {
 				dhara_set_error(err, my_err);
-- 
2.43.0


From f4aaab586d7c45b9b5cc27e8ddf8e4674135be08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 06/12] fix: don't dump another group's metadata at the start
 of recovery

After a resume the head may be in the middle of a group, while the root
is the last page of the group before it.  If the next program failed, the
(empty) metadata of the head's group was dumped, and then used as if it
were that of the root's group: every page there was taken for garbage,
and the sectors reachable through them were lost.
---
 dhara/journal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index ac4a9ae..6ec6804 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -773,8 +773,12 @@ static int recover_from(struct dhara_journal *j,
 	j->recover_next =
 		j->recover_root & ~((1 << j->nand->log2_ppb) - 1);
 
-	/* Are we holding buffered metadata? Dump it first. */
+	/* Are we holding buffered metadata? Dump it first. There's none
+	 * if we were resumed in the middle of a group, and haven't
+	 * written anything since.
+	 */
 	if (!is_aligned(old_head, j->log2_ppc) &&
+	    align_eq(old_head, j->root, j->log2_ppc) &&
 	    dump_meta(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From 442d1307bdc051d4853a8483f2d1aac33e6637c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 07/12] fix: don't count a bad block again on each failed
 attempt to skip it

When the journal was full and the head was on a bad block, every further
attempt to write counted that block again, so that the journal's capacity
shrank, and kept shrinking.
---
 dhara/journal.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 6ec6804..3cb7dd6 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -613,6 +613,9 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 		return -1;
 	}
 
+	/* The block we're leaving was bad */
+	j->bb_current++;
+
 	j->head = next << j->nand->log2_ppb;
 	if (!j->head)
 		roll_stats(j);
@@ -645,7 +648,6 @@ static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-		j->bb_current++;
 		if (skip_block(j, err) < 0)
 			return -1;
 	}
@@ -713,7 +715,6 @@ static int dump_meta(struct dhara_journal *j, dhara_error_t *err)
 			return -1;
 		}
 
-		j->bb_current++;
 		dhara_nand_mark_bad(j->nand, j->head >> j->nand->log2_ppb);
 
 		if (skip_block(j, err) < 0)
@@ -736,7 +737,6 @@ static int recover_from(struct dhara_journal *j,
 	}
 
 	/* Advance to the next free page */
-	j->bb_current++;
 	if (skip_block(j, err) < 0)
 		return -1;
 
-- 
2.43.0


From 309ac72d62acbfed151afa552a74e07cbfa249b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:42 +0000
Subject: [PATCH 08/12] fix: leave a block between head and tail after skipping
 bad blocks

The check that the head won't catch up with the tail was made only before
bad blocks were skipped. If a block holds just one user page, then the head
could run into the tail, and a full journal became an empty one.
---
 dhara/journal.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index 3cb7dd6..d726c46 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -626,25 +626,26 @@ static int skip_block(struct dhara_journal *j, dhara_error_t *err)
 /* Make sure the head pointer is on a ready-to-program page. */
 static int prepare_head(struct dhara_journal *j, dhara_error_t *err)
 {
-	const dhara_page_t next = next_upage(j, j->head);
 	int i;
 
-	/* We can't write if doing so would cause the head pointer to
-	 * roll onto the same block as the last-synced tail.
-	 */
-	if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
-	    !align_eq(next, j->head, j->nand->log2_ppb)) {
-		dhara_set_error(err, DHARA_E_JOURNAL_FULL);
-		return -1;
-	}
-
-	j->flags |= DHARA_JOURNAL_F_DIRTY;
-	if (!is_aligned(j->head, j->nand->log2_ppb))
-		return 0;
-
 	for (i = 0; i < DHARA_MAX_RETRIES; i++) {
+		const dhara_page_t next = next_upage(j, j->head);
 		const dhara_block_t blk = j->head >> j->nand->log2_ppb;
 
+		/* We can't write if doing so would cause the head
+		 * pointer to roll onto the same block as the
+		 * last-synced tail.
+		 */
+		if (align_eq(next, j->tail_sync, j->nand->log2_ppb) &&
+		    !align_eq(next, j->head, j->nand->log2_ppb)) {
+			dhara_set_error(err, DHARA_E_JOURNAL_FULL);
+			return -1;
+		}
+
+		j->flags |= DHARA_JOURNAL_F_DIRTY;
+		if (!is_aligned(j->head, j->nand->log2_ppb))
+			return 0;
+
 		if (!dhara_nand_is_bad(j->nand, blk))
 			return dhara_nand_erase(j->nand, blk, err);
 
-- 
2.43.0


From 8c0c22fa665a69662e46d947054e1952f69998ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 09/12] fix: peek at a journal with only bad blocks left in it

With nothing but bad blocks between tail and head, the journal is empty, but
dhara_journal_peek() returned the head page, which isn't written yet, as if
it was an item.
---
 dhara/journal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index d726c46..acd33ad 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -552,8 +552,10 @@ dhara_page_t dhara_journal_peek(struct dhara_journal *j)
 			    !dhara_nand_is_bad(j->nand, blk)) {
 				j->tail = blk << j->nand->log2_ppb;
 
-				if (j->tail == j->head)
+				if (j->tail == j->head) {
 					j->root = DHARA_PAGE_NONE;
+					return DHARA_PAGE_NONE;
+				}
 
 				return j->tail;
 			}
-- 
2.43.0


From 327cebbdfa413d3ad837d5cd1d6c502ab0fa05b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 10/12] fix: gftool: find BCH generators over GF(2^16)

Minimal polynomials of degree 16, and sums of logarithms, don't fit the type
of field elements, and were cut short.
---
 tools/gftool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/gftool.c b/tools/gftool.c
index 43388ff..eb4139a 100644
--- a/tools/gftool.c
+++ b/tools/gftool.c
@@ -167,7 +167,7 @@ static void gf_dump(const gf_elem_t *tab)
 		printf("\n");
 }
 
-static inline gf_elem_t mod_s(gf_elem_t x)
+static inline gf_elem_t mod_s(unsigned int x)
 {
 	return (x >= gf_order) ? (x - gf_order) : x;
 }
@@ -271,7 +271,7 @@ static gf_elem_t eval_poly(poly_t p, gf_elem_t x)
 }
 
 /* Find the minimal polynomial of the given element */
-static gf_elem_t minimal(gf_elem_t x)
+static poly_t minimal(gf_elem_t x)
 {
 	poly_t i;
 
-- 
2.43.0


From 442929a6405f28f070dde2ceca349f97923e661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:00 +0000
Subject: [PATCH 11/12] fix: don't copy a page which garbage collection has
 moved and erased

---
 dhara/map.c | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/dhara/map.c b/dhara/map.c
index 88e6f0d..73edaeb 100644
--- a/dhara/map.c
+++ b/dhara/map.c
@@ -397,9 +397,49 @@ int dhara_map_write(struct dhara_map *m, dhara_sector_t dst,
 	return 0;
 }
 
+/* Find out which sector's data is on the given page, if it's current. */
+static int sector_at(struct dhara_map *m, dhara_page_t p,
+		     dhara_sector_t *s, dhara_error_t *err)
+{
+	const dhara_page_t ppc_mask = (1 << m->journal.log2_ppc) - 1;
+	uint8_t meta[DHARA_META_SIZE];
+	dhara_page_t current;
+	dhara_error_t my_err;
+
+	*s = DHARA_SECTOR_NONE;
+
+	/* There's no metadata for checkpoint pages */
+	if ((p & ppc_mask) == ppc_mask)
+		return 0;
+
+	if (dhara_journal_read_meta(&m->journal, p, meta, err) < 0)
+		return -1;
+
+	if (meta_get_id(meta) == DHARA_SECTOR_NONE)
+		return 0;
+
+	if (dhara_map_find(m, meta_get_id(meta), &current, &my_err) < 0) {
+		if (my_err == DHARA_E_NOT_FOUND)
+			return 0;
+
+		dhara_set_error(err, my_err);
+		return -1;
+	}
+
+	if (current == p)
+		*s = meta_get_id(meta);
+
+	return 0;
+}
+
 int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 			dhara_sector_t dst, dhara_error_t *err)
 {
+	dhara_sector_t s;
+
+	if (sector_at(m, src, &s, err) < 0)
+		return -1;
+
 	for (;;) {
 		uint8_t meta[DHARA_META_SIZE];
 		dhara_error_t my_err;
@@ -408,6 +448,15 @@ int dhara_map_copy_page(struct dhara_map *m, dhara_page_t src,
 		if (prepare_write(m, dst, meta, err) < 0)
 			return -1;
 
+		/* Garbage collection moves pages, and it might have gone
+		 * far enough to erase this one.
+		 */
+		if (s != DHARA_SECTOR_NONE &&
+		    dhara_map_find(m, s, &src, err) < 0) {
+			m->count = old_count;
+			return -1;
+		}
+
 		if (!dhara_journal_copy(&m->journal, src, meta, &my_err))
 			break;
 
-- 
2.43.0


From 03888f1d9d16ffd20bad763f55607d0047fe0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:56:01 +0000
Subject: [PATCH 12/12] fix: keep the old tail in checkpoints written during
 recovery

Entries dequeued since the last checkpoint, because they had been written
again, were lost if power failed after a checkpoint in the middle of a
bad-block recovery: the new copies weren't covered by it yet.
---
 dhara/journal.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dhara/journal.c b/dhara/journal.c
index acd33ad..7ffff4f 100644
--- a/dhara/journal.c
+++ b/dhara/journal.c
@@ -833,7 +833,13 @@ static int push_meta(struct dhara_journal *j, const uint8_t *meta,
 
 	hdr_put_magic(j->page_buf);
 	hdr_set_epoch(j->page_buf, j->epoch);
-	hdr_set_tail(j->page_buf, j->tail);
+	/* Until recovery is complete, what's been dequeued since the last
+	 * checkpoint might still be needed.
+	 */
+	hdr_set_tail(j->page_buf,
+		((j->flags & DHARA_JOURNAL_F_RECOVERY) &&
+		 !(j->flags & DHARA_JOURNAL_F_ENUM_DONE)) ?
+		j->tail_sync : j->tail);
 	hdr_set_bb_current(j->page_buf, j->bb_current);
 	hdr_set_bb_last(j->page_buf, j->bb_last);
 
-- 
2.43.0

