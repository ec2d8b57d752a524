From e67fac96bb784b0845b72bc953fc2d97b855c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 01/32] fix: match mapping base URI and path literally

The base URI/path of a mapping was used as an unescaped regular
expression, so "http://example.org" also matched "http://exampleXorg",
and bases with characters such as + or ( failed or raised re.error.
---
 resync/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 76d3e07..a97e1be 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -178,7 +178,7 @@ class Map:
         slashes. However, a match of just self.dst_path withouth a trailing
         slash will return self.src_path with a trailing slash.
         """
-        m = re.match(self.dst_path + "(/.*)?$", dst_file)
+        m = re.match(re.escape(self.dst_path) + r"(/.*)?\Z", dst_file, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
@@ -195,7 +195,7 @@ class Map:
         slashes. However, a match of just self.src_path withouth a trailing
         slash will return self.dst_path with a trailing slash.
         """
-        m = re.match(self.src_uri + "(/.*)?$", src_uri)
+        m = re.match(re.escape(self.src_uri) + r"(/.*)?\Z", src_uri, re.DOTALL)
         if (m is None):
             return(None)
         rel_path = m.group(1)
-- 
2.43.0


From 585ae979ea155f5c16d243c47deac406beaac671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 02/32] fix: do not map source URIs with .. segments outside
 destination

A source URI such as http://example.org/../../etc/x was mapped to a
destination path outside of the mapped destination directory, so that a
sync would write or delete files there.
---
 resync/mapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resync/mapper.py b/resync/mapper.py
index a97e1be..ca916f8 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -201,6 +201,8 @@ class Map:
         rel_path = m.group(1)
         if rel_path is None:
             rel_path = '/'
+        if '..' in rel_path.split('/'):
+            return(None)  # never map to a path outside of dst_path
         return self.dst_path + rel_path
 
     def unsafe(self):
-- 
2.43.0


From d54b3317ca4180992a8cb3fc24a918f3597b92b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:39 +0000
Subject: [PATCH 03/32] fix: strip all trailing slashes from mapping URI and
 path

The greedy group meant that just one of several trailing slashes was
removed, contrary to what the rest of Map relies upon.
---
 resync/mapper.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index ca916f8..57e9dfd 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -162,10 +162,7 @@ class Map:
 
     def strip_trailing_slashes(self, path):
         """Return input path minus any trailing slashes."""
-        m = re.match(r"(.*)/+$", path)
-        if (m is None):
-            return(path)
-        return(m.group(1))
+        return(path.rstrip('/'))
 
     def dst_to_src(self, dst_file):
         """Return the src URI from the dst filepath.
-- 
2.43.0


From 1b0b75db2c8f722f658abc48a914d99a698ee244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:44 +0000
Subject: [PATCH 04/32] fix: detect duplicate mappings that differ only in
 trailing slashes

---
 resync/mapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/resync/mapper.py b/resync/mapper.py
index 57e9dfd..b524ce5 100644
--- a/resync/mapper.py
+++ b/resync/mapper.py
@@ -62,19 +62,20 @@ class Mapper():
                         "Bad mapping argument (%s), got %s" %
                         (mapping, str(entry)))
                 (src_uri, dst_path) = entry
+                new_map = Map(src_uri, dst_path)
                 # Check for dupes
                 for map in self.mappings:
-                    if (src_uri == map.src_uri):
+                    if (new_map.src_uri == map.src_uri):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "source URI %s (with destination path %s)" %
                             (src_uri, dst_path))
-                    if (dst_path == map.dst_path):
+                    if (new_map.dst_path == map.dst_path):
                         raise MapperError(
                             "Attempt to set duplicate mapping for "
                             "destination path %s (with source URI %s)" %
                             (dst_path, src_uri))
-                self.mappings.append(Map(src_uri, dst_path))
+                self.mappings.append(new_map)
 
     def default_src_uri(self):
         """Default src_uri from mapping.
-- 
2.43.0


From d669055c5fbca721f7e6ad0ee39f92d0856189b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:48 +0000
Subject: [PATCH 05/32] fix: compare whole path segments in strict URL
 authority check

With master http://example.org/a/x the sibling path /ab/ was accepted
because it has /a as a string prefix.
---
 resync/url_authority.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/url_authority.py b/resync/url_authority.py
index 7697e20..38a423e 100644
--- a/resync/url_authority.py
+++ b/resync/url_authority.py
@@ -68,6 +68,6 @@ class UrlAuthority(object):
             # b.example.org
         path = os.path.dirname(s.path)
         if (self.strict and path != self.master_path
-                and not path.startswith(self.master_path)):
+                and not path.startswith(self.master_path.rstrip('/') + '/')):
             return(False)
         return(True)
-- 
2.43.0


From c44440a47e8058e75a83857595e5d4f9314cd97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:45 +0000
Subject: [PATCH 06/32] fix: make sorted_iter() iterators independent

The iteration state was stored on the collection so that a second
iteration started before the first was finished made both go wrong, for
example in nested loops or when comparing a list with itself.
---
 resync/resource_list.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/resync/resource_list.py b/resync/resource_list.py
index 41518c1..43bd7d3 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -35,14 +35,7 @@ class SortedIterMixin(object):
 
     def sorted_iter(self):
         """Iterator over all the resources in this dict by sorted key order."""
-        self._sorted_iter_next_list = sorted(self.keys(), reverse=True)
-        return iter(self._sorted_iter_next, None)
-
-    def _sorted_iter_next(self):
-        if (len(self._sorted_iter_next_list) > 0):
-            return self[self._sorted_iter_next_list.pop()]
-        else:
-            return None
+        return iter([self[uri] for uri in sorted(self.keys())])
 
 
 class ResourceListDict(dict, SortedIterMixin):
-- 
2.43.0


From a0003cac3a358f64637a7e17e500be5786c7b399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 07/32] fix: make ResourceSet iterators independent

As for ResourceListDict, iteration state must not be kept on the
collection.
---
 resync/resource_set.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/resync/resource_set.py b/resync/resource_set.py
index ccd77bd..25a7ab3 100644
--- a/resync/resource_set.py
+++ b/resync/resource_set.py
@@ -17,15 +17,7 @@ class ResourceSet(dict):
 
     def __iter__(self):
         """Iterator over all the resources in this ResourceSet."""
-        self._iter_next_list = sorted(self.keys())
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+        return(iter([self[uri] for uri in sorted(self.keys())]))
 
     def add(self, resource, replace=False):
         """Add just a single resource."""
-- 
2.43.0


From 047064bcdbea093a6d00769c69d24abe10d15957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 08/32] fix: make CapabilitySet iterators independent and in
 documented order

Iteration state must not be kept on the collection, and capabilities that
are not known were given in insertion order instead of alphabetically.
---
 resync/capability_list.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/resync/capability_list.py b/resync/capability_list.py
index 9d27ba0..9b50d89 100644
--- a/resync/capability_list.py
+++ b/resync/capability_list.py
@@ -35,7 +35,7 @@ class CapabilitySet(ResourceSet):
         by using uri order for duplicates and adding any unknown ones
         at the end
         """
-        self._iter_next_list = []
+        in_order = []
         # look through all resources and build capability to uri index
         uris = {}
         for uri in self.keys():
@@ -47,21 +47,14 @@ class CapabilitySet(ResourceSet):
         for cap in self.order:
             if (cap in uris):
                 for uri in sorted(uris[cap]):
-                    self._iter_next_list.append(uri)
+                    in_order.append(self[uri])
                 del uris[cap]
         # add any left over capabilities we don't know about in alphabetical
         # order
-        for cap in uris:
+        for cap in sorted(uris, key=lambda name: name or ''):
             for uri in sorted(uris[cap]):
-                self._iter_next_list.append(uri)
-        self._iter_next_list.reverse()
-        return(iter(self._iter_next, None))
-
-    def _iter_next(self):
-        if (len(self._iter_next_list) > 0):
-            return(self[self._iter_next_list.pop()])
-        else:
-            return(None)
+                in_order.append(self[uri])
+        return(iter(in_order))
 
 
 class CapabilityList(ListBase):
-- 
2.43.0


From 6b7fbd6e5191e519056b790dc411782a23921417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 09/32] fix: check authority also for an explicitly given
 change list

The loop was inside the test for the default change list, so no check was
made with --changelist-uri.
---
 resync/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 8474cc6..35c8df9 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -399,12 +399,12 @@ class Client(object):
             uauth_cs = UrlAuthority(change_list, self.strictauth)
             if (not change_list_uri):
                 uauth_sm = UrlAuthority(self.sitemap)
-                for resource in src_change_list:
-                    if (not uauth_cs.has_authority_over(resource.uri)
-                            and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
-                        raise ClientFatalError(
-                            "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
-                            (change_list, resource.uri))
+            for resource in src_change_list:
+                if (not uauth_cs.has_authority_over(resource.uri)
+                        and (change_list_uri or not uauth_sm.has_authority_over(resource.uri))):
+                    raise ClientFatalError(
+                        "Aborting as change list (%s) mentions resource at a location it does not have authority over (%s), override with --noauth" %
+                        (change_list, resource.uri))
         # 5. Prune entries before starting timestamp and dupe changes for a
         # resource
         num_skipped = src_change_list.prune_updates_before(from_timestamp, spec_version=self.spec_version)
-- 
2.43.0


From 4162decdfa2f5ea34bde2681adeafd76ce228218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 10/32] fix: change nothing on disk in a dry run

A dry run created destination directories and recorded the latest
timestamp as client state, after which a real incremental sync would skip
the changes not applied.
---
 resync/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 35c8df9..0352284 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -316,7 +316,7 @@ class Client(object):
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
         # 6. Store last timestamp to allow incremental sync
-        if (not audit_only and self.last_timestamp > 0):
+        if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -469,7 +469,7 @@ class Client(object):
         self.log_status(incremental=True, created=num_created, updated=num_updated,
                         deleted=num_deleted, to_delete=to_delete)
         # 8. Record last timestamp we have seen
-        if (self.last_timestamp > 0):
+        if (not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
             self.logger.info(
                 "Written last timestamp %s for incremental sync" %
@@ -494,14 +494,14 @@ class Client(object):
 
         Returns the number of resources updated/created (0 or 1)
         """
-        path = os.path.dirname(filename)
-        distutils.dir_util.mkpath(path)
         num_updated = 0
         if (self.dryrun):
             self.logger.info(
                 "dryrun: would GET %s --> %s" %
                 (resource.uri, filename))
         else:
+            path = os.path.dirname(filename)
+            distutils.dir_util.mkpath(path)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
-- 
2.43.0


From 4411c2016bbb51cbed9d666d25674fc5ff3ec47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 11/32] fix: do not record local file times as source timestamp
 in baseline sync

The time of a file that exists only at the destination was recorded as
the last source timestamp seen, so that the next incremental sync could
skip changes made at the source before that time.
---
 resync/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resync/client.py b/resync/client.py
index 0352284..7c99c4f 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -310,11 +310,15 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             self.logger.info("updated: %s -> %s" % (uri, filename))
             num_updated += self.update_resource(resource, filename, 'updated')
+        # Resources to delete are known only from the local copies, so their
+        # timestamps must not move the source timestamp recorded
+        source_timestamp = self.last_timestamp
         for resource in deleted:
             uri = resource.uri
             filename = self.mapper.src_to_dst(uri)
             num_deleted += self.delete_resource(resource,
                                                 filename, allow_deletion)
+        self.last_timestamp = source_timestamp
         # 6. Store last timestamp to allow incremental sync
         if (not audit_only and not self.dryrun and self.last_timestamp > 0):
             ClientState().set_state(self.sitemap, self.last_timestamp)
-- 
2.43.0


From 0b9ceee9c2aa3442e02c759382d271f3c8de0e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 12/32] fix: count only changes actually applied in incremental
 sync

Failures ignored with ignore_failures, and dry runs, were reported as
resources created or updated.
---
 resync/client.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 7c99c4f..743ed65 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -458,12 +458,10 @@ class Client(object):
             filename = self.mapper.src_to_dst(uri)
             if (resource.change == 'updated'):
                 self.logger.info("updated: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'updated')
-                num_updated += 1
+                num_updated += self.update_resource(resource, filename, 'updated')
             elif (resource.change == 'created'):
                 self.logger.info("created: %s -> %s" % (uri, filename))
-                self.update_resource(resource, filename, 'created')
-                num_created += 1
+                num_created += self.update_resource(resource, filename, 'created')
             elif (resource.change == 'deleted'):
                 num_deleted += self.delete_resource(
                     resource, filename, allow_deletion)
-- 
2.43.0


From 8ef61dd3b04680c6f15df1ce2c3244693152e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 13/32] fix: prune the hashes that are not in the source list,
 not those that are

---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 743ed65..67dd038 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -793,8 +793,8 @@ class Client(object):
     def prune_hashes(self, hashes, list_type):
         """Prune any hashes not in source resource or change list."""
         discarded = []
-        for hash in hashes:
-            if (hash in self.hashes):
+        for hash in list(self.hashes):
+            if (hash not in hashes):
                 self.hashes.discard(hash)
                 discarded.append(hash)
         self.logger.info("Not calculating %s hash(es) on destination as not present "
-- 
2.43.0


From d3d08bf960c0917566ac1184d9717cd043b881c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 14/32] fix: provide hashes() for change lists also

Incremental sync with hashes failed with AttributeError because only
ResourceList had a hashes() method.
---
 resync/list_base_with_index.py | 13 +++++++++++++
 resync/resource_list.py        | 13 -------------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index b8f74ef..980e780 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -407,6 +407,19 @@ class ListBaseWithIndex(ListBase):
             sitemap_prefix = basename[:-4]
         return(sitemap_prefix + ("%05d" % (part_number)) + sitemap_suffix)
 
+    def hashes(self):
+        """Return set of hashes uses in this list."""
+        hashes = set()
+        if (self.resources is not None):
+            for resource in self:
+                if (resource.md5 is not None):
+                    hashes.add('md5')
+                if (resource.sha1 is not None):
+                    hashes.add('sha-1')
+                if (resource.sha256 is not None):
+                    hashes.add('sha-256')
+        return(hashes)
+
     def is_file_uri(self, uri):
         """Return true if uri looks like a local file URI, false otherwise.
 
diff --git a/resync/resource_list.py b/resync/resource_list.py
index 43bd7d3..3a57006 100644
--- a/resync/resource_list.py
+++ b/resync/resource_list.py
@@ -204,16 +204,3 @@ class ResourceList(ListBaseWithIndex):
             src_cur = next(src_iter, None)
         # have now gone through both lists
         return(same, updated, deleted, created)
-
-    def hashes(self):
-        """Return set of hashes uses in this resource_list."""
-        hashes = set()
-        if (self.resources is not None):
-            for resource in self:
-                if (resource.md5 is not None):
-                    hashes.add('md5')
-                if (resource.sha1 is not None):
-                    hashes.add('sha-1')
-                if (resource.sha256 is not None):
-                    hashes.add('sha-256')
-        return(hashes)
-- 
2.43.0


From 5497008eb013a083c6ef745f454737070df4c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 15/32] fix: do not take https: and other long schemes for
 local files

is_file_uri() accepted just schemes of 3 or 4 characters as URIs.
---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 980e780..4cf5591 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -426,7 +426,7 @@ class ListBaseWithIndex(ListBase):
         Test is to see whether have either an explicit file: URI or whether
         there is no scheme name.
         """
-        return(re.match(r'file:', uri) or not re.match(r'\w{3,4}:', uri))
+        return(re.match(r'file:', uri) or not re.match(r'\w{3,}:', uri))
 
 
 class ListBaseIndexError(Exception):
-- 
2.43.0


From cf14af1440bfc32bb11519586938734a307b41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:05 +0000
Subject: [PATCH 16/32] fix: apply check_url_authority to component sitemaps of
 a remote index

The check was in the branch for a local sitemapindex with local component
files, and never made for the URLs of a remote sitemapindex.
---
 resync/list_base_with_index.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 4cf5591..8b7c960 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -151,14 +151,14 @@ class ListBaseWithIndex(ListBase):
                 self.logger.info(
                     "Mapped %s to local file %s" %
                     (remote_uri, sitemap_uri))
-            else:
-                # The individual sitemaps should be at a URL (scheme/server/path)
-                # that the sitemapindex URL can speak authoritatively about
-                if (self.check_url_authority
-                        and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
-                    raise ListBaseIndexError(
-                        "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
-                        (sitemapindex_uri, sitemap_uri))
+        else:
+            # The individual sitemaps should be at a URL (scheme/server/path)
+            # that the sitemapindex URL can speak authoritatively about
+            if (self.check_url_authority
+                    and not UrlAuthority(sitemapindex_uri).has_authority_over(sitemap_uri)):
+                raise ListBaseIndexError(
+                    "The sitemapindex (%s) refers to sitemap at a location it does not have authority over (%s)" %
+                    (sitemapindex_uri, sitemap_uri))
         try:
             fh = url_or_file_open(sitemap_uri)
             self.num_files += 1
-- 
2.43.0


From 63044fe87ed9b675910c4ff19b46a000c03f95ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 17/32] fix: read index documents for lists that store
 resources in a list

Archive documents use a plain list, which has no uris() or add() method,
so that reading any of them from an index failed with AttributeError.
---
 resync/list_base_with_index.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index 8b7c960..c871135 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -126,10 +126,10 @@ class ListBaseWithIndex(ListBase):
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemaps = self.resources
+            sitemap_uris = sorted(self.uris())
             self.resources = self.resources_class()
-            self.logger.info("Now reading %d sitemaps" % len(sitemaps.uris()))
-            for sitemap_uri in sorted(sitemaps.uris()):
+            self.logger.info("Now reading %d sitemaps" % len(sitemap_uris))
+            for sitemap_uri in sitemap_uris:
                 self.read_component_sitemap(
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
@@ -179,7 +179,7 @@ class ListBaseWithIndex(ListBase):
         component = sitemap.parse_xml(fh=fh, sitemapindex=False)
         # Copy resources into self, check any metadata
         for r in component:
-            self.resources.add(r)
+            self.add(r)
         # FIXME - if rel="up" check it goes to correct place
         # FIXME - check capability
 
-- 
2.43.0


From 4e7ad064640089505552571673dbb67f7674c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:15 +0000
Subject: [PATCH 18/32] fix: respect max_sitemap_entries of 1 or None in
 get_resources_chunk()

With a limit of 1 all chunks but the first had 2 entries, and with no
limit write() failed with TypeError.
---
 resync/list_base_with_index.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index c871135..ccf7ecc 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -377,10 +377,13 @@ class ListBaseWithIndex(ListBase):
         chunk.default_capability()
         if (first is not None):
             chunk.add(first)
-        for r in resource_iter:
-            chunk.add(r)
-            if (len(chunk) >= self.max_sitemap_entries):
-                break
+        if (self.max_sitemap_entries is None
+                or len(chunk) < self.max_sitemap_entries):
+            for r in resource_iter:
+                chunk.add(r)
+                if (self.max_sitemap_entries is not None
+                        and len(chunk) >= self.max_sitemap_entries):
+                    break
         # Get next to see whether there are more resources
         try:
             nxt = next(resource_iter)
-- 
2.43.0


From d917d105408986dc8d39d4fc8d210fcdd019e0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 19/32] fix: raise error for as_xml_part() just past the last
 part

When the number of entries is a multiple of max_sitemap_entries an empty
component sitemap was returned for the first part number too high.
---
 resync/list_base_with_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index ccf7ecc..d6fc2e3 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -259,7 +259,7 @@ class ListBaseWithIndex(ListBase):
                 (len(self), str(
                     self.max_sitemap_entries)))
         start = part_number * self.max_sitemap_entries
-        if (start > len(self)):
+        if (start >= len(self)):
             raise ListBaseIndexError(
                 "Request for component sitemap with part_number too high, would start at entry %d yet the list has only %d entries" %
                 (start, len(self)))
-- 
2.43.0


From 634ef21003ef3485127478ad2be28f7681e2cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 20/32] fix: use whole path segments for the common path prefix
 of dump files

For files in /a/bc and /a/bd the prefix /a/b was used, which is not a
directory of either, so that the names in the archive were ../bc/... and
../bd/... outside the place where it is unpacked.
---
 resync/dump.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resync/dump.py b/resync/dump.py
index 0405718..61b5264 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -140,8 +140,10 @@ class Dump(object):
             if (path_prefix is None):
                 path_prefix = os.path.dirname(resource.path)
             else:
-                path_prefix = os.path.commonprefix(
-                    [path_prefix, os.path.dirname(resource.path)])
+                # add / to compare whole path segments
+                path_prefix = os.path.dirname(os.path.commonprefix(
+                    [os.path.join(path_prefix, ''),
+                     os.path.join(os.path.dirname(resource.path), '')]))
             size = os.path.getsize(resource.path)
             if (resource.length is not None):
                 if (check_length and resource.length != size):
-- 
2.43.0


From 8df8a240d4790c40dc060d15ca402690a1500ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:29 +0000
Subject: [PATCH 21/32] fix: accept --checksum without --hash

---
 resync/client_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resync/client_utils.py b/resync/client_utils.py
index 02a6ba1..ff43b43 100644
--- a/resync/client_utils.py
+++ b/resync/client_utils.py
@@ -212,7 +212,7 @@ def process_shared_misc_options(args, include_remote=False):
     Parse options that the resync-sync, resync-build and resync-explorer scripts use.
     """
     if args.checksum:
-        args.hash.append('md5')
+        args.hash = (args.hash or []) + ['md5']
     if include_remote:
         if args.access_token:
             set_url_or_file_open_config('bearer_token', args.access_token)
-- 
2.43.0


From 80d6ff061e045c4bb292e9cad1083ad66b7d9303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 22/32] fix: read at, completed, from and until of listed
 resources

These attributes of <rs:md> in <url> and <sitemap> elements are written
but were ignored when reading.
---
 resync/sitemap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index 0cf5271..a795ab8 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -339,7 +339,8 @@ class Sitemap(object):
             # have on element, look at attributes
             md = self.md_from_etree(md_elements[0], context=loc)
             # simple attributes that map directly to Resource object attributes
-            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type'):
+            for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
+                        'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
                     setattr(resource, att, md[att])
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
-- 
2.43.0


From 9033cc4d1306e03711413cb0bc850d59f2ab35bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 23/32] fix: raise SitemapParseError for bad datetimes in
 sitemap

As documented for resource_from_etree(), instead of ValueError.
---
 resync/sitemap.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index a795ab8..d349297 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -329,7 +329,10 @@ class Sitemap(object):
             raise SitemapParseError(
                 "Multiple <lastmod> elements while parsing <url> in sitemap")
         elif (len(lastmod_elements) == 1):
-            resource.lastmod = lastmod_elements[0].text
+            try:
+                resource.lastmod = lastmod_elements[0].text
+            except ValueError as e:
+                raise SitemapParseError("Bad <lastmod> for %s (%s)" % (loc, str(e)))
         # proceed to look for other resource attributes in an rs:md element
         md_elements = etree.findall('{' + RS_NS + "}md")
         if (len(md_elements) > 1):
@@ -342,7 +345,10 @@ class Sitemap(object):
             for att in ('capability', 'change', 'datetime', 'length', 'path', 'mime_type',
                         'md_at', 'md_completed', 'md_from', 'md_until'):
                 if (att in md):
-                    setattr(resource, att, md[att])
+                    try:
+                        setattr(resource, att, md[att])
+                    except ValueError as e:
+                        raise SitemapParseError("Bad %s in <rs:md> for %s (%s)" % (att, loc, str(e)))
             # The ResourceSync beta spec lists md5, sha-1 and sha-256 fixity
             # digest types. Parse and warn of errors ignored.
             if ('hash' in md):
-- 
2.43.0


From e6660962611fa3f8e6d7fee4e68201e916119220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:44 +0000
Subject: [PATCH 24/32] fix: do not mangle local paths when looking for a
 resource list

lstrip('file:///') removes any of these characters, so that absolute
paths became relative and names starting with f, i, l or e were cut.
---
 resync/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 67dd038..5cb58e7 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -181,7 +181,6 @@ class Client(object):
         errors = []
         for uri in [urljoin(self.sitemap, '.well-known/resourcesync'),
                     urljoin(uri_host, '.well-known/resourcesync')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 rluri = self.find_resource_list_from_source_description(uri)
                 return(self.read_resource_list(rluri))
@@ -191,7 +190,6 @@ class Client(object):
         for uri in [urljoin(self.sitemap, 'resourcelist.xml'),
                     urljoin(self.sitemap, 'sitemap.xml'),
                     urljoin(uri_host, 'sitemap.xml')]:
-            uri = uri.lstrip('file:///')  # urljoin adds this for local files
             try:
                 return(self.read_resource_list(uri))
             except ClientError as e:
-- 
2.43.0


From 2e47b4fdaac4ac2c0550230ec59e58b2958dd19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 25/32] fix: show HEAD response for a URI in explorer

code and headers of the response are not callable, so that following any
remote resource ended with a TypeError.
---
 resync/explorer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/explorer.py b/resync/explorer.py
index 3e3a3bc..af8b116 100644
--- a/resync/explorer.py
+++ b/resync/explorer.py
@@ -278,8 +278,8 @@ class Explorer(Client):
         if (re.match(r'^\w+:', uri)):
             # Looks like a URI
             with url_or_file_open(uri, method='HEAD') as response:
-                status_code = response.code()
-                headers = response.headers()
+                status_code = str(response.getcode())
+                headers = response.headers
         else:
             # Mock up response if we have a local file
             (status_code, headers) = self.head_on_file(uri)
-- 
2.43.0


From 91141fbfc9884d1587cd486cb85056ae3cb4ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:46 +0000
Subject: [PATCH 26/32] fix: download failures other than I/O errors are
 reported like others

---
 resync/client.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index 5cb58e7..d5fc5ee 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -8,6 +8,8 @@ except ImportError:  # pragma: no cover  python2
 import os.path
 import datetime
 import distutils.dir_util
+from distutils.errors import DistutilsFileError
+from http.client import HTTPException
 import re
 import time
 import logging
@@ -501,10 +503,10 @@ class Client(object):
                 (resource.uri, filename))
         else:
             path = os.path.dirname(filename)
-            distutils.dir_util.mkpath(path)
             # 1. GET
             for try_i in range(1, self.tries + 1):
                 try:
+                    distutils.dir_util.mkpath(path)
                     with url_or_file_open(resource.uri, timeout=self.timeout) as fh_in:
                         with open(filename, 'wb') as fh_out:
                             shutil.copyfileobj(fh_in, fh_out)
@@ -523,7 +525,8 @@ class Client(object):
                             return(num_updated)
                         else:
                             raise ClientFatalError(msg)
-                except IOError as e:
+                except (IOError, HTTPException, DistutilsFileError, ValueError) as e:
+                    # includes bad responses, bad URIs and directories that can't be made
                     msg = "Failed to GET %s -- %s" % (resource.uri, str(e))
                     if (self.ignore_failures):
                         self.logger.warning(msg)
-- 
2.43.0


From f4a739e87bbf10b7e956751195fbcfe58de2d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 27/32] fix: reject datetimes with line end or digits other
 than 0-9

---
 resync/w3c_datetime.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/resync/w3c_datetime.py b/resync/w3c_datetime.py
index e5544d5..6ea02cf 100644
--- a/resync/w3c_datetime.py
+++ b/resync/w3c_datetime.py
@@ -78,7 +78,7 @@ def str_to_datetime(s, context='datetime'):
     if (s == ''):
         raise ValueError('Attempt to set empty %s' % (context))
     # Make a date into a full datetime
-    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?$", s)
+    m = re.match(r"\d\d\d\d(\-\d\d(\-\d\d)?)?\Z", s, re.ASCII)
     if (m is not None):
         if (m.group(1) is None):
             s += '-01-01'
@@ -86,7 +86,7 @@ def str_to_datetime(s, context='datetime'):
             s += '-01'
         s += 'T00:00:00Z'
     # Now have datetime with timezone info
-    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?$", s)
+    m = re.match(r"(.*\d{2}:\d{2}:\d{2})(\.\d+)([^\d].*)?\Z", s, re.ASCII)
     # Chop out fractional seconds if present
     fractional_seconds = 0
     if (m is not None):
@@ -102,7 +102,7 @@ def str_to_datetime(s, context='datetime'):
     # with dt.tzinfo module but this has variation in behavior
     # between python 2.6 and 2.7... so do here for now
     m = re.match(r"(\d\d\d\d\-\d\d\-\d\dT\d\d:\d\d(:\d\d)?)(Z|([+-])"
-                 r"(\d\d):(\d\d))$", s)
+                 r"(\d\d):(\d\d))\Z", s, re.ASCII)
     if (m is None):
         raise ValueError("Bad datetime format (%s)" % s)
     str = m.group(1) + 'Z'
-- 
2.43.0


From 5feb7bb21dd673ebff2d9d41a48a32d78042ad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 28/32] fix: judge the capability a sitemap states, not one
 left over in the container

Parsing a document that states no capability into a list that had one
from before (say from an earlier document) was accepted as if stated.
---
 resync/sitemap.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/resync/sitemap.py b/resync/sitemap.py
index d349297..715ea27 100644
--- a/resync/sitemap.py
+++ b/resync/sitemap.py
@@ -203,6 +203,7 @@ class Sitemap(object):
         in_preamble = True
         self.resources_created = 0
         seen_top_level_md = False
+        stated_capability = None  # as stated in this document
         for e in list(etree.getroot()):
             # look for <rs:md> and <rs:ln>, first <url>/<sitemap> ends
             # then look for resources in <url>/<sitemap> blocks.
@@ -219,6 +220,7 @@ class Sitemap(object):
                             "Multiple <rs:md> at top level of sitemap")
                     else:
                         resources.md = self.md_from_etree(e, 'preamble')
+                        stated_capability = resources.md.get('capability')
                         seen_top_level_md = True
                 else:
                     raise SitemapParseError(
@@ -231,17 +233,18 @@ class Sitemap(object):
                         "Found <rs:ln> after first <url> in sitemap")
         # check that we read to right capability document
         if (capability is not None):
-            if ('capability' not in resources.md):
+            if (stated_capability is None):
                 if (capability == 'resourcelist'):
                     self.logger.warning(
                         'No capability specified in sitemap, assuming resourcelist')
                     resources.md['capability'] = 'resourcelist'
+                    stated_capability = 'resourcelist'
                 else:
                     raise SitemapParseError("Expected to read a %s document, but no capability specified in sitemap" %
                                             (capability))
-            if (resources.md['capability'] != capability):
+            if (stated_capability != capability):
                 raise SitemapParseError("Expected to read a %s document, got %s" %
-                                        (capability, resources.md['capability']))
+                                        (capability, stated_capability))
         # return the resource container object
         return(resources)
 
-- 
2.43.0


From d0a72b9d74af03036dd995e8e7be5ecf3b295530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 29/32] fix: read indexes of change lists, entries of an index
 are not added to the list

---
 resync/list_base_with_index.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/resync/list_base_with_index.py b/resync/list_base_with_index.py
index d6fc2e3..5cb0db4 100644
--- a/resync/list_base_with_index.py
+++ b/resync/list_base_with_index.py
@@ -107,7 +107,12 @@ class ListBaseWithIndex(ListBase):
             pass
         self.logger.info("Read sitemap/sitemapindex from %s" % (uri))
         s = self.new_sitemap()
-        s.parse_xml(fh=fh, resources=self, capability=self.capability_name)
+        # The entries of an index are not resources of this list, and need
+        # not be acceptable as such (no change type for example), so they
+        # must not be added before we know what we read
+        doc = ListBase(md=self.md, ln=self.ln)
+        s.parse_xml(fh=fh, resources=doc, capability=self.capability_name)
+        self.md, self.ln = doc.md, doc.ln
         # what did we read? sitemap or sitemapindex?
         if (s.parsed_index):
             # sitemapindex
@@ -117,16 +122,17 @@ class ListBaseWithIndex(ListBase):
                     (uri))
             self.logger.info(
                 "Parsed as sitemapindex, %d sitemaps" %
-                (len(
-                    self.resources)))
+                (len(doc)))
             sitemapindex_is_file = self.is_file_uri(uri)
             if (index_only):
                 # don't read the component sitemaps
+                for r in doc:
+                    self.add(r)
                 self.sitemapindex = True
                 return
             # now loop over all entries to read each sitemap and add to
             # resources
-            sitemap_uris = sorted(self.uris())
+            sitemap_uris = sorted(doc.uris())
             self.resources = self.resources_class()
             self.logger.info("Now reading %d sitemaps" % len(sitemap_uris))
             for sitemap_uri in sitemap_uris:
@@ -134,6 +140,8 @@ class ListBaseWithIndex(ListBase):
                     uri, sitemap_uri, s, sitemapindex_is_file)
         else:
             # sitemap
+            for r in doc:
+                self.add(r)
             self.logger.info("Parsed as sitemap, %d resources" %
                              (len(self.resources)))
 
-- 
2.43.0


From 6ca60a90a97165520bbc3a11e0b5e7ecaac12f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 30/32] fix: list files in a dump under the names that they are
 stored under

---
 resync/dump.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resync/dump.py b/resync/dump.py
index 61b5264..fb6c1ad 100644
--- a/resync/dump.py
+++ b/resync/dump.py
@@ -193,7 +193,8 @@ class Dump(object):
         by self.check_files().
         """
         if (not self.path_prefix):
-            return(real_path)
+            # normalized and relative as are the names that ZipFile stores
+            return(os.path.normpath(real_path).lstrip(os.sep))
         else:
             return(os.path.relpath(real_path, self.path_prefix))
 
-- 
2.43.0


From 79024f5146786aa5353cc4d13f42d047d4cbffd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:53 +0000
Subject: [PATCH 31/32] fix: leave out a file that cannot be read for its
 digests instead of ending the disk scan

---
 resync/resource_list_builder.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resync/resource_list_builder.py b/resync/resource_list_builder.py
index 32db1ad..25c3a73 100644
--- a/resync/resource_list_builder.py
+++ b/resync/resource_list_builder.py
@@ -174,6 +174,7 @@ class ResourceListBuilder():
         try:
             uri = self.mapper.dst_to_src(file)  # might throw MapperError
             file_stat = os.stat(file)
+            hashes = Hashes(self.set_hashes, file) if self.set_hashes else None
         except OSError as e:
             self.logger.warning("Ignoring file '%s' (error: %s)" % (file, str(e)))
             return
@@ -181,8 +182,8 @@ class ResourceListBuilder():
         r = Resource(uri=uri, timestamp=timestamp)
         if self.set_path:  # add full local path
             r.path = file
-        if self.set_hashes:  # add any hashes requested
-            Hashes(self.set_hashes, file).set(r)
+        if hashes:  # add any hashes requested
+            hashes.set(r)
         if self.set_length:  # add length
             r.length = file_stat.st_size
         resource_list.add(r)
-- 
2.43.0


From 45fb2bb984b2a6852611236594039c89249b54b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:45 +0000
Subject: [PATCH 32/32] fix: reading an index as reference list fails when
 indexes are disabled

With allow_multifile off, the component sitemaps listed in a reference
index were taken for the resources, giving a change list that states
every resource as created and every component as deleted.
---
 resync/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resync/client.py b/resync/client.py
index d5fc5ee..46c1642 100644
--- a/resync/client.py
+++ b/resync/client.py
@@ -763,12 +763,12 @@ class Client(object):
         The name parameter is used just in output messages to say what type
         of resource list is being read.
         """
-        rl = ResourceList()
+        rl = ResourceList(allow_multifile=self.allow_multifile)
         self.logger.info(
             "Reading %s resource list from %s ..." %
             (name, ref_sitemap))
         rl.mapper = self.mapper
-        rl.read(uri=ref_sitemap, index_only=(not self.allow_multifile))
+        rl.read(uri=ref_sitemap)
         num_entries = len(rl.resources)
         self.logger.info(
             "Read %s resource list with %d entries in %d sitemaps" %
-- 
2.43.0

