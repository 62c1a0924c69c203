From 51ffcb14641d8095e1292df0331b6fd3ed37deff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 01/40] fix: reset empty MST's layer so that the next add makes
 a canonical root

---
 arroba/mst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 9892ffb..188d2d0 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -415,7 +415,11 @@ class MST:
         Raises:
           KeyError: if key doesn't exist
         """
-        return self.delete_recurse(key).trim_top()
+        tree = self.delete_recurse(key).trim_top()
+        if not tree.get_entries():
+            # empty trees are always layer 0, regardless of the last key's layer
+            tree.layer = 0
+        return tree
 
     def delete_recurse(self, key):
         """Deletes the value and subtree, if any, at the given key.
-- 
2.43.0


From 764c9cacc27e3609a66814f6c9d8fb556025ab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:29 +0000
Subject: [PATCH 02/40] fix: null_diff reports up to date node CIDs for edited
 trees

---
 arroba/diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/diff.py b/arroba/diff.py
index 4ad1835..d645a03 100644
--- a/arroba/diff.py
+++ b/arroba/diff.py
@@ -161,7 +161,7 @@ def null_diff(tree):
         if isinstance(entry, Leaf):
             diff.record_add(entry.key, entry.value)
         else:
-            diff.record_new_cid(entry.pointer)
+            diff.record_new_cid(entry.get_pointer())
 
     return diff
 
-- 
2.43.0


From 3f17155974a3dcab05f4ce4482a6455abf3df846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:49 +0000
Subject: [PATCH 03/40] fix: tid_to_int accepts bytes TIDs, as documented

---
 arroba/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/util.py b/arroba/util.py
index 0cb1e7d..84d19aa 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -194,6 +194,9 @@ def tid_to_int(tid):
     if not isinstance(tid, (str, bytes)) or len(tid) != 13:
         raise ValueError(f'Expected 13-character str or bytes; got {tid}')
 
+    if isinstance(tid, bytes):
+        tid = tid.decode()
+
     encoded = tid.replace('-', '')[:-2]  # strip clock id
     return s32decode(encoded)
 
-- 
2.43.0


From 819785851826854e58fc116319395548d7d470d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 04/40] fix: next_tid never returns the same TID to two threads

---
 arroba/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/util.py b/arroba/util.py
index 84d19aa..74043d8 100644
--- a/arroba/util.py
+++ b/arroba/util.py
@@ -8,6 +8,7 @@ from numbers import Integral
 import os
 import random
 import re
+import threading
 import time
 from urllib.parse import urlparse
 
@@ -33,6 +34,7 @@ DOMAIN_RE = re.compile(r'^[^/:;@?!\']+\.[^/:@_?!\']+$')
 # resistant. we use the same clockid for all TIDs coming from this runtime.
 _clockid = random.randint(0, 31)
 _tid_ts_last = 0  # microseconds
+_tid_lock = threading.Lock()  # for _tid_ts_last
 
 S32_CHARS = '234567abcdefghijklmnopqrstuvwxyz'
 
@@ -219,8 +221,10 @@ def next_tid():
 
     # enforce that we're at least 1us after the last TID to prevent TIDs moving
     # backwards if system clock drifts backwards
-    _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
-    return int_to_tid(_tid_ts_last)
+    with _tid_lock:
+        ts = _tid_ts_last = max(time_ns() // 1000, _tid_ts_last + 1)
+
+    return int_to_tid(ts)
 
 
 def at_uri(did, collection, rkey):
-- 
2.43.0


From a79c51286e463e3933d218c5d6c84eab9948f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:41 +0000
Subject: [PATCH 05/40] fix: memcache leases expire, also with fractional
 expirations, and never outlive memcache's copy

---
 arroba/memcache.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arroba/memcache.py b/arroba/memcache.py
index 6e40eff..1b3594f 100644
--- a/arroba/memcache.py
+++ b/arroba/memcache.py
@@ -1,6 +1,7 @@
 """Utilities for caching data in memcache."""
 from datetime import timedelta
 import logging
+import math
 import time
 
 import webutil.util
@@ -59,11 +60,15 @@ class Lease:
         delay = self.initial_retry_delay
 
         for attempt in range(self.retries + 1):
+            # measure expiration from before the call so that we never think we
+            # still hold the lease after memcache has expired it
+            expires_at = webutil.util.now() + self.expiration
             # add returns True if the key didn't exist and was set,
-            # False if it already existed
+            # False if it already existed.
+            # memcache expirations are whole seconds, and 0 means never, so round up
             if self.client.add(self.key, 'locked', noreply=False,
-                               expire=int(self.expiration.total_seconds())):
-                self.expires_at = webutil.util.now() + self.expiration
+                               expire=math.ceil(self.expiration.total_seconds())):
+                self.expires_at = expires_at
                 logger.debug(f'acquired memcache lease {self.key}')
                 return
 
@@ -79,7 +84,7 @@ class Lease:
         """Release the lease if we still hold it (hasn't expired)."""
         assert self.expires_at
 
-        if webutil.util.now() <= self.expires_at:
+        if webutil.util.now() < self.expires_at:
             self.client.delete(self.key)
             logger.debug(f'released memcache lease {self.key}')
         else:
-- 
2.43.0


From 16b7420faa66cd2c7822576ff2ca4761fbf8637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 06/40] fix: rollback_plc returns the DidPlc it documents

---
 arroba/did.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/did.py b/arroba/did.py
index dd10ecc..f023878 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -321,7 +321,7 @@ def rollback_plc(did, rotation_key, num_operations=1,
     op['prev'] = log[-1]['cid']
     op.pop('sig', None)
 
-    write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
+    return write_plc_operation(op, rotation_key=rotation_key, did=did, post_fn=post_fn)
 
 
 def encode_did_key(pubkey):
-- 
2.43.0


From ba194f3c3cdc05c35666cf4589a187ea474f4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 07/40] fix: a rejected commit no longer leaves its first
 writes in the in-memory repo's tree

---
 arroba/storage.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 7a90ed6..1543100 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -555,6 +555,9 @@ class Storage:
         if len(writes) > MAX_OPERATIONS_PER_COMMIT:
             raise ValueError(f'Too many operations ({len(writes)}), max is {MAX_OPERATIONS_PER_COMMIT}')
 
+        # only applied to repo below, once we've stored the new blocks, so that a
+        # rejected commit leaves repo untouched. (it may be the stored object itself!)
+        mst = repo.mst
         ops = []
         for write in copy.copy(writes):
             assert isinstance(write, Write), type(write)
@@ -564,12 +567,12 @@ class Storage:
             # https://github.com/bluesky-social/proposals/tree/main/0006-sync-iteration#commit-validation-mst-operation-inversion
             prev_cid = None
             if write.action in (Action.UPDATE, Action.DELETE):
-                if not (prev_cid := repo.mst.get(path)):
+                if not (prev_cid := mst.get(path)):
                     raise ValueError(f"{path} doesn't exist in repo")
 
             if write.action == Action.DELETE:
                 logger.debug('deleting from MST')
-                repo.mst = repo.mst.delete(path)
+                mst = mst.delete(path)
                 logger.debug('  done')
                 ops.append(CommitOp(action=Action.DELETE, path=path,
                                     cid=None, prev_cid=prev_cid))
@@ -589,23 +592,23 @@ class Storage:
 
             if write.action == Action.CREATE:
                 logger.debug('adding to MST')
-                repo.mst = repo.mst.add(path, block.cid)
+                mst = mst.add(path, block.cid)
                 logger.debug('  done')
                 ops.append(op)
             else:
                 assert write.action == Action.UPDATE
-                orig_pointer = repo.mst.get_pointer()
+                orig_pointer = mst.get_pointer()
                 logger.debug('updating MST')
-                repo.mst = repo.mst.update(path, block.cid)
+                mst = mst.update(path, block.cid)
                 logger.debug('  done')
-                if repo.mst.get_pointer() != orig_pointer:
+                if mst.get_pointer() != orig_pointer:
                     # no-op updates are invalid in ATProto, so only include this
                     # update operation if it changes the the record and MST.
                     # https://github.com/snarfed/arroba/issues/52#issuecomment-2825755142
                     ops.append(op)
 
         logger.debug('loading unstored MST blocks')
-        root, unstored_blocks = repo.mst.get_unstored_blocks()
+        root, unstored_blocks = mst.get_unstored_blocks()
         logger.debug('  done')
         for block in unstored_blocks.values():
             block.repo = repo_did
@@ -634,12 +637,13 @@ class Storage:
 
         # update repo head
         if repo.did:
+            repo.mst = mst
             repo.head = commit_data.commit
             logger.info(f'Updating {repo.did} head {repo.head.cid}')
             self.store_repo(repo)
             logger.debug('  done')
 
-        orig_repo.mst = repo.mst
+        orig_repo.mst = mst
         orig_repo.head = commit_block
         return commit_data
 
-- 
2.43.0


From dc3ea47c77a213fbc4db5b26d25a3c4f6f9198ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 08/40] fix: activate_repo does nothing if the repo is
 tombstoned, as documented

---
 arroba/storage.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 1543100..3d05ca0 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -286,6 +286,11 @@ class Storage:
         Args:
           repo (Repo)
         """
+        # check the stored repo, since repo itself may be out of date
+        stored = self.load_repo(repo.did)
+        if stored and stored.status == TOMBSTONED:
+            return
+
         self._set_repo_status(repo, None)
         block = self.write_event(repo=repo, type='account', active=True)
 
-- 
2.43.0


From 18c6202954a0c2440d2ba19c6b3a355fb274538b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 09/40] fix: commits through an out of date Repo object raise
 InactiveRepo too

---
 arroba/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 3d05ca0..9b1d1c5 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -550,6 +550,8 @@ class Storage:
             assert repo.did
             repo_did = repo.did
             repo = self.load_repo(repo_did)
+            if repo.status:  # orig_repo's status was out of date
+                raise InactiveRepo(repo.did, repo.status)
             prev = repo.head.cid  # for the new commit
 
         commit_blocks = {}  # maps CID to Block
-- 
2.43.0


From f54a4d591d18fe896979a56a8e544b5bc4a0e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 10/40] fix: store a commit's blocks in the same transaction as
 its repo's new head

---
 arroba/datastore_storage.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 55c2f0c..85c2047 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -872,16 +872,18 @@ class DatastoreStorage(Storage, NdbMixin):
             seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
         return AtpBlock.create(repo_did=repo_did, data=obj, seq=seq).to_block()
 
+    # if we're in a transaction, eg a commit, this joins it, so that its blocks are
+    # only stored if it succeeds. otherwise, when a commit fails or is retried, its
+    # blocks would be left behind and served as an event.
     @ndb_context
-    @ndb.non_transactional()
+    @ndb.transactional(join=True)
     def write_blocks(self, blocks):
+        blocks = list(blocks)
         keys = [AtpBlock(id=b.cid.encode('base32')).key for b in blocks]
-        existing = AtpBlock.query(AtpBlock.key.IN(keys)).fetch(keys_only=True)
-        existing_cids = [key.id() for key in existing]
-        new = [AtpBlock.from_block(b) for b in blocks
-               if b.cid.encode('base32') not in existing_cids]
-        logger.debug(f'  {len(new)} new {len(existing)} existing')
-        ndb.transaction(lambda: ndb.put_multi(new), join=True)
+        existing = ndb.get_multi(keys)
+        new = [AtpBlock.from_block(b) for b, got in zip(blocks, existing) if not got]
+        logger.debug(f'  {len(new)} new {len(blocks) - len(new)} existing')
+        ndb.put_multi(new)
 
     @ndb_context
     @ndb.transactional(retries=10)
-- 
2.43.0


From bee937f4bb37d8a39c57e8ac7e4470a4fd21bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:40 +0000
Subject: [PATCH 11/40] fix: when a Datastore commit's transaction is retried
 after it was applied, don't commit it again

---
 arroba/datastore_storage.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 85c2047..daa5e86 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -886,7 +886,18 @@ class DatastoreStorage(Storage, NdbMixin):
         ndb.put_multi(new)
 
     @ndb_context
-    @ndb.transactional(retries=10)
     def _commit(self, *args, **kwargs):
         """Just runs :meth:`Storage._commit` in a transaction."""
-        return super()._commit(*args, **kwargs)
+        attempt = None
+
+        @ndb.transactional(retries=10)
+        def commit():
+            nonlocal attempt
+            # if the datastore returned an error for an earlier attempt, but still
+            # applied it, we're done. don't commit the same writes and seq again!
+            if attempt and AtpBlock.get_by_id(attempt.commit.cid.encode('base32')):
+                return attempt
+            attempt = super(DatastoreStorage, self)._commit(*args, **kwargs)
+            return attempt
+
+        return commit()
-- 
2.43.0


From 0cbb0eecce0a2392124a40f83d07ca917a78c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 12/40] fix: a failed Datastore commit doesn't leave its head
 and tree in the caller's Repo object

---
 arroba/datastore_storage.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index daa5e86..b520841 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -886,8 +886,9 @@ class DatastoreStorage(Storage, NdbMixin):
         ndb.put_multi(new)
 
     @ndb_context
-    def _commit(self, *args, **kwargs):
+    def _commit(self, repo, *args, **kwargs):
         """Just runs :meth:`Storage._commit` in a transaction."""
+        orig = repo.mst, repo.head
         attempt = None
 
         @ndb.transactional(retries=10)
@@ -897,7 +898,12 @@ class DatastoreStorage(Storage, NdbMixin):
             # applied it, we're done. don't commit the same writes and seq again!
             if attempt and AtpBlock.get_by_id(attempt.commit.cid.encode('base32')):
                 return attempt
-            attempt = super(DatastoreStorage, self)._commit(*args, **kwargs)
+            attempt = super(DatastoreStorage, self)._commit(repo, *args, **kwargs)
             return attempt
 
-        return commit()
+        try:
+            return commit()
+        except BaseException:
+            # undo Storage._commit, since the transaction didn't go through
+            repo.mst, repo.head = orig
+            raise
-- 
2.43.0


From 222ecf7a310d1b33eda5c4fedf3457631abfe7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:13 +0000
Subject: [PATCH 13/40] fix: AtpBlock.to_block sets Block.repo to a DID, as
 documented, not a Key

---
 arroba/datastore_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index b520841..6b259f2 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -189,7 +189,7 @@ class AtpBlock(ndb.Model):
                                 prev_cid=CID.decode(op.prev_cid) if op.prev_cid else None)
                for op in self.ops]
         return Block(cid=self.cid, encoded=self.encoded, seq=self.seq, ops=ops,
-                     time=self.created, repo=self.repo)
+                     time=self.created, repo=self.repo.id())
 
     @classmethod
     def from_block(cls, block):
-- 
2.43.0


From ef289cdd868f1cef4aad14d6e5d427635a5fcfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:00 +0000
Subject: [PATCH 14/40] fix: MemoryStorage.read_many_raw leaves out missing
 blocks, like Datastore's

---
 arroba/storage.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 9b1d1c5..767edfc 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -729,8 +729,10 @@ class MemoryStorage(Storage):
         return found
 
     def read_many_raw(self, cids):
+        cids = list(cids)
         blocks = [self.blocks.get(CID.decode(cid)) for cid in cids]
-        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)}
+        return {cid: (block.encoded, block.seq) for cid, block in zip(cids, blocks)
+                if block}
 
     def read_blocks_by_seq(self, start=0, repo=None):
         assert start >= 0
-- 
2.43.0


From f8f2fbc17ec0fb0db27f2f2466244c113a91874a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 15/40] fix: reading events from seq 0 skips imported repos'
 blocks instead of failing

---
 arroba/storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 767edfc..e752c26 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -402,7 +402,8 @@ class Storage:
             return CommitData(blocks=blocks, commit=commit_block,
                               prev=commit_block.decoded.get('prev'))
 
-        for block in self.read_blocks_by_seq(start=start, repo=repo):
+        # imported repos' blocks have seq 0, ie they're not part of any event
+        for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
                 if commit_block:
-- 
2.43.0


From 065028ac1685ed13d59100ec6871426a6891906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 16/40] fix: MemoryStorage.write returns the stored block when
 it already exists

---
 arroba/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index e752c26..feab5db 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -749,8 +749,7 @@ class MemoryStorage(Storage):
             seq = self.sequences.allocate(SUBSCRIBE_REPOS_NSID)
 
         block = Block(decoded=obj, seq=seq, repo=repo_did)
-        self.blocks.setdefault(block.cid, block)
-        return block
+        return self.blocks.setdefault(block.cid, block)
 
     def write_blocks(self, blocks):
         for block in blocks:
-- 
2.43.0


From 5e5c35ee5d8297702a709f0179e2a9dc48728477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:37 +0000
Subject: [PATCH 17/40] fix: listRepos returns the head commit's rev, also for
 imported repos

---
 arroba/xrpc_sync.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6fd632f..511dd58 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -97,7 +97,7 @@ def list_repos(input, limit=500, cursor=None):
         repo_obj = {
             'did': repo.did,
             'head': repo.head.cid.encode('base32'),
-            'rev': util.int_to_tid(repo.head.seq, clock_id=0),
+            'rev': repo.head.decoded['rev'],
             'active': repo.status is None,
         }
         if repo.status:
-- 
2.43.0


From 666f56056b39f938f254e87d251ade3e936b9457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:08 +0000
Subject: [PATCH 18/40] fix: sync.getRecord's proof includes the nodes on the
 record's path

---
 arroba/xrpc_sync.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 511dd58..6c20582 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -220,7 +220,8 @@ def get_record(input, did=None, collection=None, rkey=None):
 
     # include covering proof for a create of this record
     create = Block(decoded=record,
-                   ops=[CommitOp(Action.CREATE, collection, block.cid)])
+                   ops=[CommitOp(Action.CREATE, f'{collection}/{rkey}',
+                                 block.cid)])
     proofs = repo.mst.add_covering_proofs(CommitData(commit=create, blocks={}))
     proof_blocks = [car.Block(data=val.encoded) for val in proofs.values()]
 
-- 
2.43.0


From 08e65d77882b8cc60f2c65fd23a62db76926989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 19/40] fix: allow ~ in MST keys, since it's valid in record
 keys

---
 arroba/mst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arroba/mst.py b/arroba/mst.py
index 188d2d0..795b049 100644
--- a/arroba/mst.py
+++ b/arroba/mst.py
@@ -60,7 +60,7 @@ from .util import dag_cbor_cid
 
 logger = logging.getLogger(__name__)
 
-_VALID_KEY_RE = re.compile(r'[a-zA-Z0-9_\-:.]+')
+_VALID_KEY_RE = re.compile(r'[a-zA-Z0-9_~\-:.]+')
 
 Entry = namedtuple('Entry', [
     'p',  # int, length of prefix that this data key shares with the prev data key
-- 
2.43.0


From e51a564f99622186ee5c025a41c70f907b9bb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 20/40] fix: listRecords cursor is exclusive, so that following
 it always ends

---
 arroba/xrpc_repo.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index d1a7f8b..0ee15f6 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -98,12 +98,7 @@ def list_records(input, repo=None, collection=None, limit=50, cursor=None,
                  reverse=None,
                  # DEPRECATED
                  rkeyStart=None, rkeyEnd=None):
-    """Handler for `com.atproto.repo.listRecords` XRPC method.
-
-    KNOWN ISSUE: cursor is interpreted as inclusive, so whenever a cursor is
-    used, the response includes the last record returned in the previous
-    response.
-    """
+    """Handler for `com.atproto.repo.listRecords` XRPC method."""
     if SUPPORTED_COLLECTIONS and collection not in SUPPORTED_COLLECTIONS:
         return {'records': []}
 
@@ -120,8 +115,11 @@ def list_records(input, repo=None, collection=None, limit=50, cursor=None,
 
     start = cursor or f'{collection}/'
     entries = list(itertools.islice(
-        itertools.takewhile(lambda entry: entry.key.startswith(f'{collection}/'),
-                            repo.mst.walk_leaves_from(key=start)),
+        # cursor is exclusive
+        (entry for entry in itertools.takewhile(
+            lambda entry: entry.key.startswith(f'{collection}/'),
+            repo.mst.walk_leaves_from(key=start))
+         if entry.key != cursor),
         limit))
     blocks = server.storage.read_many([e.value for e in entries])
     records = [blocks[e.value].decoded for e in entries]
-- 
2.43.0


From 6d11746e3ae1a907abda08ef72135b6a59234591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 21/40] fix: deleteRecord returns an object, so that XRPC calls
 to it succeed

---
 arroba/xrpc_repo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arroba/xrpc_repo.py b/arroba/xrpc_repo.py
index 0ee15f6..5f9668e 100644
--- a/arroba/xrpc_repo.py
+++ b/arroba/xrpc_repo.py
@@ -84,7 +84,7 @@ def delete_record(input):
     repo = server.load_repo(input['repo'])
     record = repo.get_record(input['collection'], input['rkey'])
     if record is None:
-        return  # noop
+        return {}  # noop
 
     server.storage.commit(repo, [Write(
         action=Action.DELETE,
@@ -92,6 +92,8 @@ def delete_record(input):
         rkey=input['rkey'],
     )])
 
+    return {}
+
 
 @server.server.method('com.atproto.repo.listRecords')
 def list_records(input, repo=None, collection=None, limit=50, cursor=None,
-- 
2.43.0


From c88c8bca7e14edd134d9fbe9c3341aafa3b29c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 22/40] fix: createSession requires REPO_PASSWORD before it
 hands out REPO_TOKEN

---
 arroba/xrpc_server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arroba/xrpc_server.py b/arroba/xrpc_server.py
index 0862117..9da7cc8 100644
--- a/arroba/xrpc_server.py
+++ b/arroba/xrpc_server.py
@@ -15,6 +15,10 @@ def create_session(input):
     if not repo:
         raise ValueError(f'Repo {id} not found')
 
+    password = os.environ.get('REPO_PASSWORD')
+    if not password or input['password'] != password:
+        raise ValueError('Invalid password')
+
     # TODO: generate JWT
     token = os.environ['REPO_TOKEN']
     return {
-- 
2.43.0


From e0db9f28fe764cca16771a91b988e54c163ac4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 23/40] fix: read_events_by_seq never mistakes a record for a
 commit or event

---
 arroba/storage.py | 52 +++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index feab5db..2a9cfc0 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -385,9 +385,25 @@ class Storage:
         """
         assert start >= 0
 
-        seq = commit_block = blocks = None
+        def make_events(blocks):
+            """Yields the event(s) in a single sequence number's blocks."""
+            commit_fields = {'version', 'did', 'rev', 'prev', 'data', 'sig'}
+            commits = [b for b in blocks.values() if b.decoded.keys() == commit_fields]
+            if not commits:  # non-commit message(s)
+                for block in blocks.values():
+                    # we shouldn't have any dangling blocks that we don't serve
+                    assert block.decoded.get('$type', '').startswith(
+                        'com.atproto.sync.subscribeRepos#'), f'seq {block.seq}'
+                    yield block.decoded
+                return
+
+            # records can look like events or commits too! if we have more than one
+            # commit here, the real one is the one with ops, since it at least wrote
+            # the other record(s)
+            commit_block = commits[0]
+            if len(commits) > 1:
+                commit_block = next(b for b in commits if b.ops)
 
-        def make_commit():
             for op in commit_block.ops:
                 if (op.action in (Action.CREATE, Action.UPDATE)
                         and op.cid not in blocks):
@@ -399,36 +415,24 @@ class Storage:
             if mst_root not in blocks:
                 blocks[mst_root] = self.read(mst_root)
 
-            return CommitData(blocks=blocks, commit=commit_block,
-                              prev=commit_block.decoded.get('prev'))
+            yield CommitData(blocks=blocks, commit=commit_block,
+                             prev=commit_block.decoded.get('prev'))
+
+        seq = None
+        blocks = {}  # maps CID to Block
 
         # imported repos' blocks have seq 0, ie they're not part of any event
         for block in self.read_blocks_by_seq(start=max(start, 1), repo=repo):
             assert block.seq
             if block.seq != seq:  # switching to a new commit's blocks
-                if commit_block:
-                    yield make_commit()
-                else:
-                    # we shouldn't have any dangling blocks that we don't serve
-                    assert not blocks
+                yield from make_events(blocks)
                 seq = block.seq
-                blocks = {}  # maps CID to Block
-                commit_block = None
-
-            if block.decoded.get('$type', '').startswith(
-                    'com.atproto.sync.subscribeRepos#'):  # non-commit message
-                yield block.decoded
-                continue
+                blocks = {}
 
             blocks[block.cid] = block
-            commit_fields = ['version', 'did', 'rev', 'prev', 'data', 'sig']
-            if block.decoded.keys() == set(commit_fields):
-                commit_block = block
-
-        # final commit
-        if blocks:
-            assert commit_block, f'seq {seq}'
-            yield make_commit()
+
+        # final event(s)
+        yield from make_events(blocks)
 
     def has(self, cid):
         """Checks if a given :class:`CID` is currently stored.
-- 
2.43.0


From ffca089baaaae6297ab9b1200167951a41deb3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 24/40] fix: MemcacheSequences doesn't count on a sequence
 batch whose transaction failed

---
 arroba/datastore_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 6b259f2..96db111 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -366,11 +366,12 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
                 stored_seq.next = seq + MEMCACHE_SEQUENCE_BATCH
                 logger.info(f'allocating {MEMCACHE_SEQUENCE_BATCH} seqs batch for {nsid}, up to {stored_seq.next}')
                 stored_seq.put()
-            self.max_seqs[nsid] = stored_seq.next
+            return stored_seq.next
 
         with self.max_seqs_lock:
             if self.max_seqs.get(nsid, 0) - seq < MEMCACHE_SEQUENCE_BUFFER:
-                alloc_batch()
+                # only once the transaction has committed
+                self.max_seqs[nsid] = alloc_batch()
 
         assert seq and seq <= self.max_seqs[nsid], (seq, self.max_seqs[nsid])
         logger.info(f'allocated seq {seq}')
-- 
2.43.0


From d5e20d0f481d3ad4aade3373985364e3d1179acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 25/40] fix: MemcacheSequences reads the stored sequence in a
 transaction, not from ndb's cache

---
 arroba/datastore_storage.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 96db111..2866833 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -350,9 +350,16 @@ class MemcacheSequences(storage.Sequences, NdbMixin):
         key = self._memcache_key(nsid)
         seq = self.memcache.incr(key, 1)
         if seq is None:  # not in memcache
+            # in a transaction so that we don't use a stale cached entity, and don't
+            # overwrite one that another process just created
+            @ndb.transactional(propagation=context.TransactionOptions.INDEPENDENT,
+                               join=None)
+            def stored_next():
+                return AtpSequence.get_or_insert(nsid, next=1).next
+
             with self.max_seqs_lock:
                 # can't use last() because it looks in memcache
-                self.max_seqs[nsid] = AtpSequence.get_or_insert(nsid, next=1).next - 1
+                self.max_seqs[nsid] = stored_next() - 1
                 # we'll allocate a new batch below
                 if self.memcache.add(key, self.max_seqs[nsid]):
                     logger.info(f'initialized memcache sequence counter {key} to {self.max_seqs[nsid]}')
-- 
2.43.0


From 6e0031621d63a748002b4eeccb6f11b8dda1041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:16 +0000
Subject: [PATCH 26/40] fix: DatastoreSequences.last doesn't return ndb's stale
 cached entity

---
 arroba/datastore_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 2866833..4bd7afb 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -304,7 +304,8 @@ class DatastoreSequences(storage.Sequences, NdbMixin):
         Returns:
           integer, last sequence number for this NSID, or None if we don't know it
         """
-        if seq := AtpSequence.get_by_id(nsid):
+        # other processes allocate too, so don't use a stale cached entity
+        if seq := AtpSequence.get_by_id(nsid, use_cache=False, use_global_cache=False):
             return seq.next - 1
 
 
-- 
2.43.0


From 67cdbd65df81871e78b24062946f80671ed89127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 27/40] fix: MemorySequences.allocate never returns the same
 number to two threads

---
 arroba/storage.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index 2a9cfc0..bd33368 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -8,6 +8,7 @@ import copy
 from enum import auto, Enum
 import itertools
 import logging
+import threading
 
 
 import dag_cbor
@@ -665,15 +666,18 @@ class MemorySequences(Sequences):
 
     Attributes:
       sequences (dict): {str NSID: int next sequence number}
+      lock (threading.Lock): for sequences
     """
     def __init__(self):
         self.sequences = {}
+        self.lock = threading.Lock()
 
     def allocate(self, nsid):
         assert nsid
-        next = self.sequences.setdefault(nsid, 1)
+        with self.lock:
+            next = self.sequences.setdefault(nsid, 1)
+            self.sequences[nsid] += 1
         logger.info(f'Allocated seq {next}')
-        self.sequences[nsid] += 1
         return next
 
     def last(self, nsid):
-- 
2.43.0


From 1c4f2a13b9b16dabde014c5c0b8724c41a679987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 28/40] fix: firehose subscribers with a cursor don't get the
 same event twice, or one before their cursor

---
 arroba/firehose.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 4328a66..0aef1d2 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -123,19 +123,18 @@ def subscribe(cursor=None):
     # if this cursor behind our rollback window, load the window between the two
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
+    last_seq = None if cursor is None else cursor - 1  # last seq that we've emitted
     rollback_start = rollback[0][1]['seq'] if rollback else 0
     if cursor is not None and cursor < rollback_start:
         log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
         pre_rollback = []  # events prior to rollback window that we load here
-        last_seq = None
         for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
             header, payload = process_event(event)
 
-            if last_seq and payload['seq'] <= last_seq:
+            if payload['seq'] <= last_seq:
                 non_monotonic(payload['seq'], last_seq, event)
                 continue
-            last_seq = payload['seq']
 
             with lock:
                 # have we reached the rollback window?
@@ -161,6 +160,7 @@ def subscribe(cursor=None):
 
             log(f'Emitting pre-rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
             pre_rollback.append((header, payload))
+            last_seq = payload['seq']
             yield (header, payload)
 
     # hand off to rollback window and new events
@@ -169,8 +169,11 @@ def subscribe(cursor=None):
             handoff = rollback.copy()
         log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
         for header, payload in handoff:
-            if payload['seq'] >= cursor:
+            # other subscribers may have merged events into rollback that we've
+            # already emitted
+            if payload['seq'] > last_seq:
                 log(f'Emitting rollback {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
+                last_seq = payload['seq']
                 yield (header, payload)
 
     # enqueue subscriber and serve live!
@@ -178,14 +181,12 @@ def subscribe(cursor=None):
     try:
         with lock:
             if cursor is not None:
-                last_seq = handoff[-1][1]['seq']
-                assert last_seq >= rollback[0][1]["seq"]
+                assert handoff[-1][1]['seq'] >= rollback[0][1]["seq"]
 
                 for header, payload in rollback:
                     if payload['seq'] > last_seq:
                         log(f'Emitting rollback (catch-up) {payload["seq"]} {payload.get("did") or payload.get("repo")} {header.get("t")}', DEBUG)
                         subscriber.put_nowait((header, payload))
-                        last_seq = payload['seq']
 
             log(f'streaming new events after {rollback[-1][1]["seq"] if rollback else 0}')
             subscribers.append(subscriber)
@@ -193,7 +194,10 @@ def subscribe(cursor=None):
         # let these get garbage collected
         handoff = pre_rollback = None
         while True:
-            yield subscriber.get()
+            header, payload = subscriber.get()
+            # cursor may be ahead of the collector
+            if last_seq is None or payload['seq'] > last_seq:
+                yield (header, payload)
 
     finally:
         log('removing subscriber')
-- 
2.43.0


From 8cc76bce321ba3ad379a3e874cb30ab230137aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 29/40] fix: firehose subscribers get events that the rollback
 window hasn't loaded or has dropped while they read storage

---
 arroba/firehose.py | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 0aef1d2..1e8c7f4 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -120,16 +120,26 @@ def subscribe(cursor=None):
     if cursor:
         log(f'starting with cursor {cursor}')
 
+    def first_seq():
+        """Returns the first seq in rollback, or that could be if it's empty."""
+        return rollback[0][1]['seq'] if rollback else collector.last_seq + 1
+
     # if this cursor behind our rollback window, load the window between the two
     # manually, for this subscriber
     handoff = None     # deque; copy of rollback window for when we transition to it
+    pre_rollback = []  # events prior to rollback window that we load here
     last_seq = None if cursor is None else cursor - 1  # last seq that we've emitted
-    rollback_start = rollback[0][1]['seq'] if rollback else 0
-    if cursor is not None and cursor < rollback_start:
-        log(f'cursor {cursor} is behind rollback start {rollback_start}; loading rest manually')
 
-        pre_rollback = []  # events prior to rollback window that we load here
-        for i, event in enumerate(server.storage.read_events_by_seq(start=cursor)):
+    while cursor is not None and handoff is None:
+        with lock:
+            rollback_start = first_seq()
+            if last_seq + 1 >= rollback_start:
+                handoff = rollback.copy()
+                break
+
+        log(f'{last_seq + 1} is behind rollback start {rollback_start}; loading rest manually')
+
+        for event in server.storage.read_events_by_seq(start=last_seq + 1):
             header, payload = process_event(event)
 
             if payload['seq'] <= last_seq:
@@ -138,8 +148,8 @@ def subscribe(cursor=None):
 
             with lock:
                 # have we reached the rollback window?
-                if payload['seq'] >= rollback[0][1]['seq']:
-                    rollback_start = rollback[0][1]['seq']
+                if payload['seq'] >= first_seq():
+                    rollback_start = first_seq()
                     handoff = rollback.copy()
 
                     remaining_len = rollback.maxlen - len(rollback)
@@ -152,8 +162,8 @@ def subscribe(cursor=None):
                             log(f'merging {pre_rollback[0][1]["seq"]}-{pre_rollback[-1][1]["seq"]} into rollback')
                             assert len(rollback) + len(pre_rollback) <= rollback.maxlen, \
                                 (len(rollback), len(pre_rollback))
-                            assert pre_rollback[-1][1]['seq'] < rollback[0][1]['seq'],\
-                                (pre_rollback[-1][1]['seq'], rollback[0][1]['seq'])
+                            assert pre_rollback[-1][1]['seq'] < rollback_start,\
+                                (pre_rollback[-1][1]['seq'], rollback_start)
                             rollback.extendleft(reversed(pre_rollback))
 
                     break
@@ -163,11 +173,16 @@ def subscribe(cursor=None):
             last_seq = payload['seq']
             yield (header, payload)
 
+        else:
+            # if the rollback window moved while we were reading, there may be newer
+            # events before it that we haven't seen yet. if so, keep reading
+            with lock:
+                if first_seq() <= rollback_start:
+                    handoff = rollback.copy()
+
     # hand off to rollback window and new events
     if cursor is not None:
-        if not handoff:
-            handoff = rollback.copy()
-        log(f'serving rollback from {max(cursor, handoff[0][1]["seq"])}')
+        log(f'serving rollback from {last_seq + 1}')
         for header, payload in handoff:
             # other subscribers may have merged events into rollback that we've
             # already emitted
@@ -181,7 +196,9 @@ def subscribe(cursor=None):
     try:
         with lock:
             if cursor is not None:
-                assert handoff[-1][1]['seq'] >= rollback[0][1]["seq"]
+                # make sure rollback hasn't dropped anything we haven't emitted
+                assert (len(rollback) < rollback.maxlen
+                        or last_seq >= rollback[0][1]['seq'] - 1)
 
                 for header, payload in rollback:
                     if payload['seq'] > last_seq:
@@ -332,9 +349,8 @@ class Collector(threading.Thread):
                 # different than going backward. (as of 2026-01-15, going backward
                 # breaks Bluesky's own relays for our PDS, they have to do a manual
                 # reconnect to fix that. :/ )
-                self.last_seq = cur_seq
-
                 with lock:
+                    self.last_seq = cur_seq
                     rollback.append((header, payload))
                     for subscriber in subscribers:
                         # subscriber here is an unbounded SimpleQueue, so put should
-- 
2.43.0


From f4d197106825628d5f3cdc689e76acf96bb3d480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 30/40] fix: AtpRemoteBlob isn't stored as fetched before its
 body has been read

---
 arroba/datastore_storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 4bd7afb..0cf1407 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -527,9 +527,8 @@ class AtpRemoteBlob(ndb.Model):
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
-            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
-        finally:
             self.put()
+            raise requests.HTTPError(f"Couldn't fetch blob: {e}")
 
         # check type, size
         self.mime_type = (resp.headers.get('Content-Type')
-- 
2.43.0


From 90c49baf10dc65bb346b6f2bdced56fa9db25ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 31/40] fix: a blob's size from an earlier, oversized fetch
 doesn't refuse a refetch without Content-Length

---
 arroba/datastore_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index 0cf1407..fc20540 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -540,9 +540,9 @@ class AtpRemoteBlob(ndb.Model):
         try:
             length = self.size = int(length)
         except (TypeError, ValueError):
-            pass  # read body and check length manually below
+            length = None  # read body and check length manually below
 
-        if self.size and self.size > BLOB_MAX_BYTES:
+        if length and length > BLOB_MAX_BYTES:
             self.put()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
-- 
2.43.0


From d9c48bbc8f71e4fb7ca7c84562b9e57fc9083338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 32/40] fix: an oversized blob refetch doesn't keep the old CID
 with the new size and type

---
 arroba/datastore_storage.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index fc20540..b019da2 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -543,6 +543,7 @@ class AtpRemoteBlob(ndb.Model):
             length = None  # read body and check length manually below
 
         if length and length > BLOB_MAX_BYTES:
+            self.cid = None  # whatever we fetched before, it's something else now
             self.put()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
-- 
2.43.0


From c1b085f3e664d7958b15f0cf0b14d54cddf5d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 33/40] fix: getBlob skips URLs that have grown over
 BLOB_MAX_BYTES and uses the CID's other URLs

---
 arroba/xrpc_sync.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arroba/xrpc_sync.py b/arroba/xrpc_sync.py
index 6c20582..ea22ebf 100644
--- a/arroba/xrpc_sync.py
+++ b/arroba/xrpc_sync.py
@@ -6,7 +6,7 @@ import os
 
 from carbox import car
 import dag_cbor
-from lexrpc.base import XrpcError
+from lexrpc.base import ValidationError, XrpcError
 from lexrpc.server import Redirect
 from multiformats import CID
 from multiformats.multibase import MultibaseKeyError, MultibaseValueError
@@ -246,7 +246,7 @@ def get_blob(input, did=None, cid=None):
 
         try:
             blob.maybe_fetch(get_fn=webutil.util.session.get)
-        except requests.RequestException:
+        except (requests.RequestException, ValidationError):
             continue
 
         if not blob.status:
-- 
2.43.0


From ebed5bbcdeebdae537b65b9fe0c1cb27449b78c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 34/40] fix: a refetched blob doesn't keep the width, height,
 and duration of its earlier content

---
 arroba/datastore_storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index b019da2..e1c4f16 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -580,6 +580,8 @@ class AtpRemoteBlob(ndb.Model):
         Args:
           content (bytes)
         """
+        self.width = self.height = self.duration = None
+
         try:
             media_info = MediaInfo.parse(BytesIO(content))
             tracks = media_info.video_tracks or media_info.image_tracks
-- 
2.43.0


From dec8186934e948fe20732bb9202667c4ebfab20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 35/40] fix: a repo added to a blob while it's being fetched
 isn't lost

---
 arroba/datastore_storage.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/arroba/datastore_storage.py b/arroba/datastore_storage.py
index e1c4f16..3afc59d 100644
--- a/arroba/datastore_storage.py
+++ b/arroba/datastore_storage.py
@@ -497,6 +497,13 @@ class AtpRemoteBlob(ndb.Model):
         blob.validate(max_size=max_size, accept_types=accept_types, name=name)
         return blob
 
+    @ndb.transactional()
+    def _put_keep_repos(self):
+        """Stores this blob, with any repos that have been added to it meanwhile."""
+        if stored := self.key.get():
+            self.repos = stored.repos + [r for r in self.repos if r not in stored.repos]
+        self.put()
+
     def maybe_fetch(self, get_fn=requests.get):
         """Fetches the blob from its URL and updates its metadata, if necessary.
 
@@ -527,7 +534,7 @@ class AtpRemoteBlob(ndb.Model):
         except OSError as e:
             if not self.cid:
                 self.status = 'inactive'
-            self.put()
+            self._put_keep_repos()
             raise requests.HTTPError(f"Couldn't fetch blob: {e}")
 
         # check type, size
@@ -544,7 +551,7 @@ class AtpRemoteBlob(ndb.Model):
 
         if length and length > BLOB_MAX_BYTES:
             self.cid = None  # whatever we fetched before, it's something else now
-            self.put()
+            self._put_keep_repos()
             raise ValidationError(f'{url} Content-Length {length} is over BLOB_MAX_BYTES')
 
         # calculate CID and update blob
@@ -553,7 +560,7 @@ class AtpRemoteBlob(ndb.Model):
         self.size = len(resp.content)
         self.generate_metadata(resp.content)
         self.status = None
-        self.put()
+        self._put_keep_repos()
 
     def as_object(self):
         """Returns an ATProto ``blob`` object for this blob.
-- 
2.43.0


From fc6dd39f42919b04b8d63acc99d30b63bd7d02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 36/40] fix: a commit whose data callback raises isn't reported
 as a lost sequence number

---
 arroba/storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arroba/storage.py b/arroba/storage.py
index bd33368..5ce81e1 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -525,13 +525,14 @@ class Storage:
 
         try:
             commit_data = self._commit(repo, writes, seq, repo_did=repo_did)
-            if repo.callback:
-                repo.callback(data=commit_data)
         except BaseException:
             if repo.callback:
                 repo.callback(lost_seq=seq)
             raise
 
+        if repo.callback:
+            repo.callback(data=commit_data)
+
         return commit_data
 
     def _commit(self, repo, writes, seq, repo_did=None):
-- 
2.43.0


From f4667d031d94410fe41129e3584851a14c07485b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 37/40] fix: raise when the PLC directory rejects a request for
 a DID's log

update_plc parsed the error response as a log, and failed with KeyError
instead of the documented requests.RequestException.
---
 arroba/did.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arroba/did.py b/arroba/did.py
index f023878..71aff6b 100644
--- a/arroba/did.py
+++ b/arroba/did.py
@@ -124,6 +124,7 @@ def update_plc(did, handle=None, get_fn=session.get, **kwargs):
     # response is a JSON list with operations from earliest to latest
     # https://github.com/did-method-plc/did-method-plc#audit-logs
     resp = get_fn(f'https://{os.environ["PLC_HOST"]}/{did}/log/audit')
+    resp.raise_for_status()
     last_op = resp.json()[-1]
 
     # merge new data into existing data
-- 
2.43.0


From 9750d387a4a2a457ddc04318a11308a55c46b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 38/40] fix: MemoryStorage stores a repo's new status when it's
 given another object for that repo

---
 arroba/storage.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arroba/storage.py b/arroba/storage.py
index 5ce81e1..cb03c73 100644
--- a/arroba/storage.py
+++ b/arroba/storage.py
@@ -729,6 +729,8 @@ class MemoryStorage(Storage):
 
     def _set_repo_status(self, repo, status):
         repo.status = status
+        # repo may not be the stored object, eg if it came from Repo.load
+        self.repos[repo.did].status = status
 
     def read(self, cid):
         return self.blocks.get(cid)
-- 
2.43.0


From f2924af743bbfa4cb53b937f12e591d5d31e02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 39/40] fix: Diff.add_diff: combine changes to the same key and
 CID correctly

---
 arroba/diff.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/arroba/diff.py b/arroba/diff.py
index d645a03..0ccaccd 100644
--- a/arroba/diff.py
+++ b/arroba/diff.py
@@ -251,31 +251,36 @@ class Diff:
             self.removed_cids.add(cid)
 
     def add_diff(self, diff):
-        """
+        """Adds another diff, from this diff's new tree to a third tree.
+
         Args:
           diff (Diff)
         """
         for add in diff.adds.values():
-            if deleted := self.deletes.get(add.key):
+            if deleted := self.deletes.pop(add.key, None):
                 if deleted.cid != add.cid:
                     self.record_update(add.key, deleted.cid, add.cid)
-                self.deletes.pop(add.key, None)
             else:
                 self.record_add(add.key, add.cid)
 
         for update in diff.updates.values():
-            self.record_update(update.key, update.prev, update.cid)
-            self.adds.pop(update.key, None)
-            self.deletes.pop(update.key, None)
+            if update.key in self.adds:
+                self.record_add(update.key, update.cid)
+                continue
 
-        for deleted in diff.deletes.values():
-            if self.adds.get(deleted.key):
-                self.adds.pop(deleted.key, None)
-            else:
-                self.updates.pop(deleted.key, None)
-                self.record_delete(deleted.key, deleted.cid)
+            existing = self.updates.pop(update.key, update)
+            if existing.prev != update.cid:  # otherwise it's back to what it was
+                self.record_update(update.key, existing.prev, update.cid)
 
-        self.new_cids |= diff.new_cids
+        for deleted in diff.deletes.values():
+            if not self.adds.pop(deleted.key, None):
+                updated = self.updates.pop(deleted.key, None)
+                self.record_delete(deleted.key, updated.prev if updated else deleted.cid)
+
+        new = self.new_cids
+        removed = self.removed_cids
+        self.new_cids = (new - diff.removed_cids) | (diff.new_cids - removed)
+        self.removed_cids = (removed - diff.new_cids) | (diff.removed_cids - new)
 
     def updated_keys(self):
         return self.adds | self.updates | self.deletes
-- 
2.43.0


From 389ace8a1938f7e12090e568d8529cadc2f02692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 40/40] fix: firehose collector: wait for in flight seqs when
 it starts with an empty rollback window

---
 arroba/firehose.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arroba/firehose.py b/arroba/firehose.py
index 1e8c7f4..d249724 100644
--- a/arroba/firehose.py
+++ b/arroba/firehose.py
@@ -268,6 +268,9 @@ class Collector(threading.Thread):
         if rollback:
             self.last_seq = rollback[-1][1]['seq']
             logger.info(f'  preloaded seqs {rollback[0][1]["seq"]}-{self.last_seq}')
+        else:
+            # the window's seqs may be allocated but not stored yet. wait for them
+            self.last_seq = max(self.last_seq - PRELOAD_WINDOW, 0)
 
         started.set()
 
-- 
2.43.0

