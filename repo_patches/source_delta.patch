From 6a3346f22eb163f9af77af82163fce40b13c4165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 1/9] fix: advance the buffer after a short read in
 read_partial_or_die

read_partial_or_die restarted every read at the beginning of the
caller's buffer, so a short read corrupted the data that was already
transferred.  Continue at the first byte not read yet.
---
 lib/fd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/fd.cc b/lib/fd.cc
index dbbfb48..e3ff15e 100644
--- a/lib/fd.cc
+++ b/lib/fd.cc
@@ -389,6 +389,7 @@ namespace crucible {
 				THROW_ERROR(runtime_error, "read: somehow read more bytes (" << rv << ") than requested (" << size << ")");
 			}
 			if (rv == 0) break;
+			buf = static_cast<char *>(buf) + rv;
 			size_read += rv;
 			size -= rv;
 			// CHATTER("read " << rv << " bytes from fd " << fd);
-- 
2.43.0


From 1cf6d173a0c26cb24d3b65bc26d1a930dc66747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:02 +0000
Subject: [PATCH 2/9] fix: reject BeesFileRange::shrink_end that would empty or
 invert the range

shrink_begin refuses to remove the whole range or more, but shrink_end
compared delta with the absolute end offset instead of the size, so it
could leave begin >= end, and BeesRangePair::shrink_end could shrink one
side and throw on the other.
---
 src/bees-types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bees-types.cc b/src/bees-types.cc
index 665f20d..7d75456 100644
--- a/src/bees-types.cc
+++ b/src/bees-types.cc
@@ -196,7 +196,7 @@ off_t
 BeesFileRange::shrink_end(off_t delta)
 {
 	THROW_CHECK1(invalid_argument, delta, delta > 0);
-	THROW_CHECK2(invalid_argument, delta, m_end, m_end >= delta);
+	THROW_CHECK3(invalid_argument, delta, m_begin, m_end, delta < m_end - m_begin);
 	m_end -= delta;
 	return m_end;
 }
-- 
2.43.0


From b581299bbe23972cd862000865508fd24859b8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 3/9] fix: check the length of a ByteVector sub-range against
 the parent buffer

The check compared start + length with m_size + length, which is always
true when start <= m_size, so a sub-range could extend past the end of
the buffer it was taken from.
---
 lib/bytevector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bytevector.cc b/lib/bytevector.cc
index df2b430..25cc3ed 100644
--- a/lib/bytevector.cc
+++ b/lib/bytevector.cc
@@ -76,7 +76,7 @@ namespace crucible {
 	{
 		THROW_CHECK0(out_of_range, that.m_ptr);
 		THROW_CHECK2(out_of_range, start, that.m_size, start <= that.m_size);
-		THROW_CHECK2(out_of_range, start + length, that.m_size + length, start + length <= that.m_size + length);
+		THROW_CHECK3(out_of_range, start, length, that.m_size, length <= that.m_size - start);
 		m_ptr = Pointer(that.m_ptr, that.m_ptr.get() + start);
 		m_size = length;
 	}
-- 
2.43.0


From 058d870195c09bb57a519d40d36a452bf71e697c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 4/9] fix: do not parse tree search results after the last
 EOVERFLOW

The retry loop ended before trying the 64K buffer, and when the last
attempt failed with EOVERFLOW the untouched nr_items and uninitialized
buffer were parsed as search results.  Try 64K when nothing fit in less,
and fail if that is still too small.
---
 lib/fs.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/fs.cc b/lib/fs.cc
index 356d803..862cda7 100644
--- a/lib/fs.cc
+++ b/lib/fs.cc
@@ -771,6 +771,7 @@ namespace crucible {
 		size_t buf_size = max(m_buf_size, sizeof(btrfs_ioctl_search_args_v2) + sizeof(btrfs_ioctl_search_header));
 		ByteVector ioctl_arg;
 		btrfs_ioctl_search_args_v2 *ioctl_ptr;
+		int rv;
 		do {
 			// ioctl buffer size does not include search key header or buffer size
 			ioctl_arg = ByteVector(buf_size + sizeof(btrfs_ioctl_search_args_v2));
@@ -781,7 +782,7 @@ namespace crucible {
 				(*s_debug_ostream) << "bisk " << (ioctl_ptr->key) << "\n";
 			}
 			// Don't bother supporting V1.  Kernels that old have other problems.
-			int rv = ioctl(fd, BTRFS_IOC_TREE_SEARCH_V2, ioctl_arg.data());
+			rv = ioctl(fd, BTRFS_IOC_TREE_SEARCH_V2, ioctl_arg.data());
 			++s_calls;
 			if (rv != 0 && errno == ENOENT) {
 				// If we are searching a tree that is deleted or no longer exists, just return an empty list
@@ -813,7 +814,13 @@ namespace crucible {
 			if (ioctl_ptr->key.nr_items == 0) {
 				++s_loops_empty;
 			}
-		} while (buf_size < 65536);
+			// do raise it that far if the first item did not fit, because then we have no items at all
+		} while (buf_size < 65536 || (rv != 0 && buf_size == 65536));
+
+		// The first item still does not fit.  The kernel did not fill in nr_items or the buffer.
+		if (rv != 0 && errno == EOVERFLOW) {
+			return false;
+		}
 
 		// ioctl changes nr_items, this has to be copied back
 		static_cast<btrfs_ioctl_search_key&>(*this) = ioctl_ptr->key;
-- 
2.43.0


From f947d00ac0365d08478496c5ec118f1f70838af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:19 +0000
Subject: [PATCH 5/9] fix: do not lose hash table changes made while an extent
 is being written

---
 src/bees-hash.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/bees-hash.cc b/src/bees-hash.cc
index 7581fe1..98ac99f 100644
--- a/src/bees-hash.cc
+++ b/src/bees-hash.cc
@@ -119,6 +119,10 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// Copy the extent because we might be stuck writing for a while
 		ByteVector extent_copy(dirty_extent, dirty_extent_end);
 
+		// Mark extent clean before releasing the lock, so that any change
+		// made while the copy is being written marks it dirty again
+		m_extent_metadata.at(extent_index).m_dirty = false;
+
 		// Release the lock
 		lock.unlock();
 
@@ -130,13 +134,17 @@ BeesHashTable::flush_dirty_extent(uint64_t extent_index)
 		// const size_t dirty_extent_size   = dirty_extent_end - dirty_extent;
 		// bees_unreadahead(m_fd, dirty_extent_offset, dirty_extent_size);
 
-		// Mark extent clean if write was successful
-		lock.lock();
-		m_extent_metadata.at(extent_index).m_dirty = false;
-
 		wrote_extent = true;
 	});
 
+	// Extent is still dirty if write was not successful
+	if (!wrote_extent) {
+		if (!lock.owns_lock()) {
+			lock.lock();
+		}
+		m_extent_metadata.at(extent_index).m_dirty = true;
+	}
+
 	return wrote_extent;
 }
 
-- 
2.43.0


From 2ff26a02fa32688a65ba29168eeb6ae4ba5d19d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 6/9] fix: hold the position of the inode while it is queued or
 being crawled

---
 src/bees-roots.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index b3025d0..d01f37b 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -209,7 +209,8 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			.m_hold = this_crawl->hold_state(this_state),
+			// this_state may already be past this inode, so hold the position of the inode
+			.m_hold = this_crawl->hold_state(bfc_state),
 			.m_state = bfc_state,
 			.m_offset = this_range.begin(),
 		});
-- 
2.43.0


From ee206eafa71218ed65ce97302a4a188de722ce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:55 +0000
Subject: [PATCH 7/9] fix: scan an extent again if it was locked by another
 task

---
 src/bees-roots.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index d01f37b..ae51649 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -1736,6 +1736,10 @@ BeesFileCrawl::scan_one_ref()
 						m_hold = new_holder;
 					} else {
 						BEESCOUNT(crawl_again);
+						// Go back to this extent.  The task is rescheduled
+						// when the lock on the extent is released.
+						m_offset = bti.offset();
+						return false;
 					}
 				}
 			} else {
-- 
2.43.0


From 1f7d609b1823d238e2f620374fb57d68bbd39790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:13 +0000
Subject: [PATCH 8/9] fix: save the scan position while an extent tree scan is
 in progress

---
 src/bees-roots.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index ae51649..90b77f4 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -2545,7 +2545,9 @@ BeesCrawl::get_state_end() const
 ProgressTracker<BeesCrawlState>::ProgressHolder
 BeesCrawl::hold_state(const BeesCrawlState &bcs)
 {
-	return m_state.hold(bcs);
+	const auto rv = m_state.hold(bcs);
+	m_ctx->roots()->crawl_state_set_dirty();
+	return rv;
 }
 
 void
-- 
2.43.0


From df79fec9133e1eaa4f5234b41939142aa56d28c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:13 +0000
Subject: [PATCH 9/9] fix: hold the position of a file from when it is found
 until it is scanned

---
 src/bees-roots.cc | 23 +++++++++++++----------
 src/bees.h        |  3 ++-
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/bees-roots.cc b/src/bees-roots.cc
index 90b77f4..5c1afd5 100644
--- a/src/bees-roots.cc
+++ b/src/bees-roots.cc
@@ -177,7 +177,8 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 	const auto this_state = this_crawl->get_state_end();
 	BEESNOTE("Crawling inode " << this_state);
 	BEESTRACE("Crawling inode " << this_state);
-	const auto this_range = this_crawl->pop_front();
+	ProgressTracker<BeesCrawlState>::ProgressHolder this_hold;
+	const auto this_range = this_crawl->pop_front(this_hold);
 	if (!this_range) {
 		return false;
 	}
@@ -200,17 +201,14 @@ BeesScanModeSubvol::crawl_one_inode(const shared_ptr<BeesCrawl>& this_crawl)
 		ostringstream oss;
 		oss << "crawl_" << subvol << "_" << inode;
 		const auto task_title = oss.str();
-		// this_state.m_objectid was advanced to inode+1 by peek_front()->fetch_extents().
-		// Fix: use the actual inode from this_range so BtrfsExtentDataFetcher finds
-		// the correct inode (exact-match search).
-		auto bfc_state = this_state;
-		bfc_state.m_objectid = inode;
+		// this_state may be past this inode already, or pop_front may have started a new crawl.
+		// this_hold has the inode and transids we need for BtrfsExtentDataFetcher.
+		const auto bfc_state = this_hold->get();
 		const auto bfc = make_shared<BeesFileCrawl>((BeesFileCrawl) {
 			.m_ctx = m_ctx,
 			.m_crawl = this_crawl,
 			.m_roots = m_roots,
-			// this_state may already be past this inode, so hold the position of the inode
-			.m_hold = this_crawl->hold_state(bfc_state),
+			.m_hold = this_hold,
 			.m_state = bfc_state,
 			.m_offset = this_range.begin(),
 		});
@@ -2478,8 +2476,11 @@ BeesCrawl::fetch_extents()
 		return restart_crawl_unlocked();
 	}
 	auto new_state = old_state;
-	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	new_state.m_offset = 0;
+	// Hold the position of this object until it has been scanned, not merely found
+	new_state.m_objectid = m_next_extent_data.objectid();
+	m_next_extent_hold = hold_state(new_state);
+	new_state.m_objectid = max(m_next_extent_data.objectid() + m_btof.scale_size(), m_next_extent_data.objectid());
 	set_state(new_state);
 	return true;
 }
@@ -2521,12 +2522,14 @@ BeesCrawl::peek_front()
 }
 
 BeesFileRange
-BeesCrawl::pop_front()
+BeesCrawl::pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold)
 {
 	unique_lock<mutex> lock(m_mutex);
 	fetch_extents_harder();
 	BtrfsTreeItem rv;
 	swap(rv, m_next_extent_data);
+	hold = m_next_extent_hold;
+	m_next_extent_hold.reset();
 	return bti_to_bfr(rv);
 }
 
diff --git a/src/bees.h b/src/bees.h
index 7c0cfca..4052fee 100644
--- a/src/bees.h
+++ b/src/bees.h
@@ -524,6 +524,7 @@ class BeesCrawl {
 
 	mutex					m_mutex;
 	BtrfsTreeItem				m_next_extent_data;
+	ProgressTracker<BeesCrawlState>::ProgressHolder	m_next_extent_hold;
 	bool					m_deferred = false;
 	bool					m_finished = false;
 
@@ -540,7 +541,7 @@ class BeesCrawl {
 public:
 	BeesCrawl(shared_ptr<BeesContext> ctx, BeesCrawlState initial_state);
 	BeesFileRange peek_front();
-	BeesFileRange pop_front();
+	BeesFileRange pop_front(ProgressTracker<BeesCrawlState>::ProgressHolder &hold);
 	ProgressTracker<BeesCrawlState>::ProgressHolder hold_state(const BeesCrawlState &bcs);
 	BeesCrawlState get_state_begin();
 	BeesCrawlState get_state_end() const;
-- 
2.43.0

