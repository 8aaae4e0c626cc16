From 6bad4392692df5102448fc6b12383c8f12ed6e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 01/40] fix: SqliteStorage.new_oid() handed out an oid in use
 after reopening

The counter holds the next oid, but opening an existing file set it to the
highest oid in the file, so the first new object overwrote a stored one
(and an empty table made it None).
---
 durus/sqlite_storage.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 03f1998..7db74af 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -59,7 +59,7 @@ class SqliteStorage(Storage):
             self._init()
         else:
             self._conn = sqlite3.connect(filename)
-            self._last_oid = self._get_last_oid()
+            self._last_oid = self._get_last_oid() + 1
         self._conn.text_factory = bytes
         #self._conn.executescript(_PRAGMAS)
         self.pending_records = []
@@ -89,8 +89,8 @@ class SqliteStorage(Storage):
         c = self._conn.cursor()
         c.execute('SELECT max(id) FROM objects')
         v = c.fetchone()
-        if v is None:
-            return 0
+        if v[0] is None:
+            return -1
         return v[0]
 
     def load(self, oid):
-- 
2.43.0


From a4f084b04b55c720d964ba2844bce31aa48664df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 02/40] fix: SqliteStorage.gen_oid_record() without a start_oid
 always failed

---
 durus/sqlite_storage.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 7db74af..ff995dd 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -14,7 +14,7 @@ import collections
 from durus.logger import log, is_logging
 from durus.serialize import pack_record, unpack_record, split_oids
 from durus.storage import Storage
-from durus.utils import int8_to_str, str_to_int8, iteritems, as_bytes
+from durus.utils import int8_to_str, str_to_int8, as_bytes
 import durus.connection
 
 
@@ -146,13 +146,14 @@ class SqliteStorage(Storage):
 
     def _gen_records(self):
         c = self._conn.cursor()
-        c.execute('SELECT (id, data, refs) FROM objects ORDER BY id')
-        for oid, data, refs in c.fetchall():
-            yield int8_to_str(oid), pack_record(oid, data, refs)
+        c.execute('SELECT id, data, refs FROM objects ORDER BY id')
+        for n, data, refs in c.fetchall():
+            oid = int8_to_str(n)
+            yield oid, pack_record(oid, data, refs)
 
     def gen_oid_record(self, start_oid=None, **other):
         if start_oid is None:
-            for item in iteritems(self._gen_records()):
+            for item in self._gen_records():
                 yield item
         else:
             todo = [start_oid]
-- 
2.43.0


From 0687e0554ffbd029c56c8e852acc6c151ca472b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 03/40] fix: SqliteStorage pack deleted records committed while
 it was running

The packer let the server do other work between finding the dead objects
and deleting them, so a commit in between that stored one of them again
lost it.  The removed oids are now also reported by sync(), as they are by
the other storages, so no connection keeps a usable copy of them.
---
 durus/sqlite_storage.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index ff995dd..829e9ee 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -237,9 +237,10 @@ class SqliteStorage(Storage):
                 if oid not in alive:
                     dead.add(oid)
             self.pack_extra = None
-            # safe to yield now, we have finished identifying dead objects
-            yield None
+            # note we cannot yield here either: a commit could store one of
+            # the dead objects again, and we would delete the new record
             self._delete(dead)
+            self.invalid.update(dead)
             yield "finished %s, %d live objects, %d removed" % (
                     datetime.now(), len(alive), len(dead))
         return packer()
-- 
2.43.0


From 71b5a1e8e5149b6511f319f3d0faf8e7deb6c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 04/40] fix: SqliteStorage left the records of a failed
 transaction to be committed

Without a rollback, the part that had been inserted before the failure
stayed in the open sqlite transaction and the next commit made it durable.
---
 durus/sqlite_storage.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 829e9ee..030ae7d 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -121,9 +121,14 @@ class SqliteStorage(Storage):
                     # ensure object and refs are marked alive and not removed
                     self.pack_extra.append(oid)
         c = self._conn.cursor()
-        c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
-                      ' VALUES (?, ?, ?)', gen_items(records))
-        self._commit()
+        try:
+            c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
+                          ' VALUES (?, ?, ?)', gen_items(records))
+            self._commit()
+        except:
+            # Revert before raising.
+            self._conn.rollback()
+            raise
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From d41aaa126c1d016614a2504177f19e7279c09fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 05/40] fix: SqliteStorage.create_from_records() did not move
 the oid counter

new_oid() then returned oids of the records just stored.  Also return an
iterator when there is nothing to pack: the server calls next() on it.
---
 durus/sqlite_storage.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 030ae7d..45947e5 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -208,7 +208,7 @@ class SqliteStorage(Storage):
             self.pack_extra is not None or
             self.is_temporary() or
             self.is_readonly()):
-            return [x for x in []] # Don't pack.
+            return iter([]) # Don't pack.
         self.pack_extra = []
         alive = set() # will contain OIDs of all reachable from root
         def packer():
@@ -266,3 +266,4 @@ class SqliteStorage(Storage):
             for oid, record in items:
                 yield record
         self._store_records(gen_recs(oid_records))
+        self._last_oid = self._get_last_oid() + 1
-- 
2.43.0


From 6513bbc9b6440ea7abec8636c8d37c052dd6a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 06/40] fix: FileStorage2 committed the records of an earlier,
 failed transaction

begin() kept what a transaction that never ended had stored, so an aborted
change became durable with the next commit.
---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 63e4500..9cf2bf4 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -134,7 +134,7 @@ class FileStorage2(Storage):
         return self._read_block()
 
     def begin(self):
-        pass
+        self.pending_records.clear()
 
     def store(self, oid, record):
         """Add a record during a commit."""
-- 
2.43.0


From 3bce466dfa9c04aa1db0735a4c533985a2df8859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 07/40] fix: FileStorage2 left the records of a failed
 transaction in the file

A transaction that failed while it was being written was completed by the
terminator of the next one.
---
 durus/file_storage2.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 9cf2bf4..06e36f2 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -148,9 +148,17 @@ class FileStorage2(Storage):
         """Complete a commit.
         """
         index = {}
-        for z in self._write_transaction(
-            self.fp, self._generate_pending_records(), index):
-            pass
+        self.fp.seek(0, 2)
+        start = self.fp.tell()
+        try:
+            for z in self._write_transaction(
+                self.fp, self._generate_pending_records(), index):
+                pass
+        except:
+            # Revert before raising.
+            self.fp.seek(start)
+            self.fp.truncate()
+            raise
         self.fp.flush()
         self.fp.fsync()
         if is_logging(20):
-- 
2.43.0


From ac44728d7332c1bd69fe6e8188e06a4b5cf92112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 08/40] fix: FileStorage2.get_packer() returned a tuple when it
 could not pack

The storage server calls next() on the result, and stopped with a
TypeError.
---
 durus/file_storage2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 06e36f2..3b8739b 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -271,7 +271,7 @@ class FileStorage2(Storage):
         assert not self.fp.is_temporary()
         assert not self.fp.is_readonly()
         if self.pack_extra is not None or self.pending_records:
-            return ()
+            return iter(())
         else:
             self.pack_extra = []
             return self._packer()
-- 
2.43.0


From 79e1640ddc93fb9759484b6ef8d9a2d75c7879bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 09/40] fix: FileStorage2.create_from_records() kept the old
 index and oid counter

The records just stored could not be loaded, and new_oid() returned their
oids.
---
 durus/file_storage2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 3b8739b..7e960e3 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -348,3 +348,6 @@ class FileStorage2(Storage):
         self._write_index(self.fp, index)
         self.fp.flush()
         self.fp.fsync()
+        self.index = index
+        for oid in index:
+            self.oid = max(self.oid, str_to_int8(oid))
-- 
2.43.0


From 064e2395abd4ffa98233e94ce50107cbee57f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 10/40] fix: str() of a DurusKeyError raised AttributeError

---
 durus/error.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/error.py b/durus/error.py
index 30632b8..07c5236 100644
--- a/durus/error.py
+++ b/durus/error.py
@@ -11,7 +11,7 @@ class DurusKeyError (KeyError, DurusError):
     """Key not found in database."""
 
     def __str__(self):
-        first_oid = self.oids[0]
+        first_oid = self.args[0]
         return str(first_oid and str_to_int8(first_oid))
 
 
-- 
2.43.0


From eaeb6cbacda138e0224e8cfc94d8607596ed7f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 11/40] fix: SqliteStorage told the packer about records that
 were not stored

The packer raised KeyError for the oids of a transaction that failed.
---
 durus/sqlite_storage.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/durus/sqlite_storage.py b/durus/sqlite_storage.py
index 45947e5..8e7b832 100644
--- a/durus/sqlite_storage.py
+++ b/durus/sqlite_storage.py
@@ -113,13 +113,12 @@ class SqliteStorage(Storage):
         self.pending_records.append(record)
 
     def _store_records(self, records):
+        oids = []
         def gen_items(records):
             for record in records:
                 oid, data, refdata = unpack_record(record)
                 yield str_to_int8(oid), as_bytes(data), as_bytes(refdata)
-                if self.pack_extra is not None:
-                    # ensure object and refs are marked alive and not removed
-                    self.pack_extra.append(oid)
+                oids.append(oid)
         c = self._conn.cursor()
         try:
             c.executemany('INSERT OR REPLACE INTO objects (id, data, refs)'
@@ -129,6 +128,9 @@ class SqliteStorage(Storage):
             # Revert before raising.
             self._conn.rollback()
             raise
+        if self.pack_extra is not None:
+            # ensure objects and refs are marked alive and not removed
+            self.pack_extra.extend(oids)
 
     def end(self, handle_invalidations=None):
         self._store_records(self.pending_records)
-- 
2.43.0


From a08a6cfb3cb8da6be4f20a35403e05259a9cdb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 12/40] fix: loading a ghost of a removed object raised
 KeyError for some storages

Storage.load() is documented to raise KeyError, and only some storages
raise the DurusKeyError that was translated to a ReadConflictError.
---
 durus/connection.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index 9045761..fc89b29 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -3,7 +3,6 @@ $URL$
 $Id$
 """
 from durus.error import ConflictError, WriteConflictError, ReadConflictError
-from durus.error import DurusKeyError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -187,7 +186,7 @@ class Connection (ConnectionBase):
         oid = obj._p_oid
         try:
             pickle = self.get_stored_pickle(oid)
-        except DurusKeyError:
+        except KeyError:
             # We have a ghost but cannot find the state for it.  This can
             # happen if the object was removed from the storage as a result
             # of packing.
-- 
2.43.0


From f603d589ea2c5f98058cc249ba633a0ef63af1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 13/40] fix: no conflict for an object that was changed without
 being read

Setting an attribute does not count as an access, so the conflict was an
AssertionError (or, with -O, a lost update) instead of a ConflictError.
---
 durus/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index fc89b29..e8ac38e 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -298,11 +298,11 @@ class Connection (ConnectionBase):
             obj = self.cache.get(oid)
             if obj is None:
                 continue
-            if obj._p_serial == self.transaction_serial:
+            if (obj._p_serial == self.transaction_serial or
+                oid in self.changed):
                 conflicts.append(oid)
                 self.invalid_oids.add(oid)
             elif not obj._p_is_ghost():
-                assert oid not in self.changed
                 obj._p_set_status_ghost()
         if conflicts:
             if read_oid is None:
-- 
2.43.0


From 57160597b2448d2894fe1885c3e71e9435b28bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 14/40] fix: new objects of a commit that failed were never
 stored

Only a ConflictError made the new objects new again.  After any other
failure (for example, an object that cannot be pickled), they kept their
oids as if they had been stored, and a later commit stored references to
objects that were not in the storage.
---
 durus/connection.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/durus/connection.py b/durus/connection.py
index e8ac38e..0e106b3 100644
--- a/durus/connection.py
+++ b/durus/connection.py
@@ -2,7 +2,7 @@
 $URL$
 $Id$
 """
-from durus.error import ConflictError, WriteConflictError, ReadConflictError
+from durus.error import WriteConflictError, ReadConflictError
 from durus.logger import log
 from durus.persistent import ConnectionBase
 from durus.persistent_dict import PersistentDict
@@ -260,24 +260,30 @@ class Connection (ConnectionBase):
             assert not self.invalid_oids, "still conflicted: missing abort()"
             self.storage.begin()
             new_objects = {}
-            for oid, changed_object in iteritems(self.changed):
-                writer = ObjectWriter(self)
-                try:
-                    for obj in writer.gen_new_objects(changed_object):
-                        oid = obj._p_oid
-                        if oid in new_objects:
-                            continue
-                        elif oid not in self.changed:
-                            new_objects[oid] = obj
-                            self.cache[oid] = obj
-                        data, refs = writer.get_state(obj)
-                        self.storage.store(oid, pack_record(oid, data, refs))
-                        obj._p_set_status_saved()
-                finally:
-                    writer.close()
             try:
+                for oid, changed_object in iteritems(self.changed):
+                    writer = ObjectWriter(self)
+                    try:
+                        for obj in writer.gen_new_objects(changed_object):
+                            oid = obj._p_oid
+                            if oid in new_objects:
+                                continue
+                            elif oid not in self.changed:
+                                new_objects[oid] = obj
+                                self.cache[oid] = obj
+                            data, refs = writer.get_state(obj)
+                            self.storage.store(
+                                oid, pack_record(oid, data, refs))
+                            obj._p_set_status_saved()
+                    except:
+                        for obj in writer.objects_found:
+                            new_objects[obj._p_oid] = obj
+                        raise
+                    finally:
+                        writer.close()
                 self.storage.end(self._handle_invalidations)
-            except ConflictError:
+            except:
+                # None of the new objects have been stored.
                 for oid, obj in iteritems(new_objects):
                     obj._p_oid = None
                     del self.cache[oid]
-- 
2.43.0


From 11523fa23a04a73806c76cba4f265da8cf652ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 15/40] fix: FileStorage did not fsync committed transactions

FileStorage2 and SqliteStorage do, so that a commit that was reported as
done survives a power failure.
---
 durus/shelf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index e1416b9..7b46175 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -216,6 +216,8 @@ class Shelf (object):
         self.file.seek(start)
         write_int8(self.file, end - start - 8)
         self.file.seek(end)
+        self.file.flush()
+        self.file.fsync()
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From 2d5868bf6f9c08ade226bdf3da19997aa48f44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 16/40] fix: a partly written FileStorage transaction could be
 read as a complete one

The placeholder for the length was 0, so after a crash in the middle of a
commit the records were parsed as if they were transactions.
---
 durus/shelf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index 7b46175..f3f878a 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -195,10 +195,13 @@ class Shelf (object):
         """
         self.file.seek_end()
         start = self.file.tell()
-        write_int8(self.file, 0)
         result = []
         index = {}
         try:
+            # Until it is complete, the transaction has a length that extends
+            # past the end of the file, so that it can't be taken for a good
+            # one.
+            write_int8(self.file, 2**64 - 1)
             for name, value in name_value_sequence:
                 new_position = self.file.tell()
                 old_position = self.get_position(name)
-- 
2.43.0


From 02a2ff3ea9a32fe2b5da33217ecf7a6ce38cb446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 17/40] fix: FileStorage pack did not report every removed oid

Removed oids above the size of the new offset map were missed, so other
connections kept usable copies of objects that are no longer stored.  Wait
until the objects are gone before reporting them: otherwise a connection
can sync and load one of them again before the pack is finished.
---
 durus/file_storage.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5fed0ca..bdf48fd 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -147,13 +147,12 @@ class FileStorage (Storage):
             file.fsync()
             shelf = Shelf(file)
             yield "base written %s" % datetime.now()
-            # Invalidate oids that have been removed.
-            for hole in shelf.get_offset_map().gen_holes():
-                yield hole
-                oid = int8_to_str(hole)
-                if self.shelf.get_position(oid) is not None:
-                    assert shelf.get_position(oid) is None
-                    self.invalid.add(oid)
+            # Find oids that have been removed.
+            removed = []
+            for n, oid in enumerate(self.shelf):
+                if shelf.get_position(oid) is None:
+                    removed.append(oid)
+                yield n
             yield "invalidations identified %s" % datetime.now()
             for oid in self.pack_extra:
                 seen.discard(str_to_int8(oid))
@@ -165,6 +164,10 @@ class FileStorage (Storage):
                 self.shelf.get_file().rename(file_path + '.prepack')
                 self.shelf.get_file().close()
             shelf.get_file().rename(file_path)
+            # Invalidate removed oids, except those stored since the pack began.
+            for oid in removed:
+                if shelf.get_position(oid) is None:
+                    self.invalid.add(oid)
             self.shelf = shelf
             self.pack_extra = None
             yield "finished %s" % datetime.now()
-- 
2.43.0


From 0c994de02dcf543ad6fd586d7364359fe2b5ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 18/40] fix: other clients were not told about a commit that
 was not acknowledged

If the committing client was gone when the server tried to acknowledge the
commit, the stored oids were not invalidated for the other clients.
---
 durus/storage_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 44804bf..307f7ee 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -416,12 +416,12 @@ class StorageServer (object):
             self._report_load_record()
             log(20, 'Committed %3s objects %s bytes at %s',
                 len(oids), len(tdata), datetime.now())
-            write(s, STATUS_OKAY)
             client.unused_oids -= oid_set
             for c in self.clients:
                 if c is not client:
                     c.invalid.update(oids)
             self.bytes_since_pack += len(tdata) + 8
+            write(s, STATUS_OKAY)
 
     def _report_load_record(self):
         if self.load_record and is_logging(5):
-- 
2.43.0


From 1e5d65f5619f8607c4828f508a032fe51248918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 19/40] fix: a bad request from one client stopped the storage
 server

For example, storing an oid that was never allocated is a ValueError, and
only some exceptions were limited to the client that caused them.  The
same goes for a client that is gone before its connection is accepted.
---
 durus/storage_server.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 307f7ee..83602c1 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -274,16 +274,20 @@ class StorageServer (object):
                 for s in r:
                     if s is sock:
                         # new connection
-                        conn, addr = s.accept()
-                        self.address.set_connection_options(conn)
+                        try:
+                            conn, addr = s.accept()
+                            self.address.set_connection_options(conn)
+                        except socket.error:
+                            exc = sys.exc_info()[1]
+                            log(10, '%s', ''.join(map(str, exc.args)))
+                            continue
                         self.clients.append(_Client(conn, addr))
                         self.sockets.append(conn)
                     else:
                         # command from client
                         try:
                             self.handle(s)
-                        except (ClientError, socket.error, socket.timeout,
-                            IOError):
+                        except Exception:
                             exc = sys.exc_info()[1]
                             log(10, '%s', ''.join(map(str, exc.args)))
                             self.sockets.remove(s)
-- 
2.43.0


From b3063ba4cb4a9c20474ef7cc959dac6d112d8aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 20/40] fix: str() of an inherited abstract-namespace socket
 raised TypeError

---
 durus/storage_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 83602c1..59dcf60 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -214,9 +214,9 @@ class InheritedSocket(SocketAddress):
         self.name = sock.getsockname()
 
     def __str__(self):
-        if isinstance(self.name, bytes) and '\0' in self.name:
+        if isinstance(self.name, bytes) and b'\0' in self.name:
             # Linux extension, abstract namespace
-            path = self.name.replace('\0', '@')
+            path = self.name.replace(b'\0', b'@')
             try:
                 path = path.decode(sys.getfilesystemencoding())
             except:
-- 
2.43.0


From 7295feaff5eaf9ceae00184d1db5189eb2efd95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 21/40] fix: the umask was not restored when binding a Unix
 domain socket failed

---
 durus/storage_server.py | 66 +++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/durus/storage_server.py b/durus/storage_server.py
index 59dcf60..99f874e 100755
--- a/durus/storage_server.py
+++ b/durus/storage_server.py
@@ -169,39 +169,41 @@ class UnixDomainSocketAddress (UnixAbstractAddress):
         if self.umask is not None:
             old_umask = umask(self.umask)
         try:
-            s.bind(self.filename)
-        except socket.error:
-            exc = sys.exc_info()[1]
-            error = exc.args[0]
-            if not exists(self.filename):
-                raise
-            if stat(self.filename).st_size > 0:
-                raise
-            if error == errno.EADDRINUSE:
-                connected = self.get_connected_socket()
-                if connected:
-                    connected.close()
-                    raise
-                unlink(self.filename)
+            try:
                 s.bind(self.filename)
-            else:
-                raise
-        uid = geteuid()
-        if self.owner is not None:
-            if isinstance(self.owner, int):
-                uid = self.owner
-            else:
-                uid = getpwnam(self.owner).pw_uid
-        gid = getegid()
-        if self.group is not None:
-            if isinstance(self.group, int):
-                gid = self.group
-            else:
-                gid = getgrnam(self.group).gr_gid
-        if self.owner is not None or self.group is not None:
-            chown(self.filename, uid, gid)
-        if self.umask is not None:
-            umask(old_umask)
+            except socket.error:
+                exc = sys.exc_info()[1]
+                error = exc.args[0]
+                if not exists(self.filename):
+                    raise
+                if stat(self.filename).st_size > 0:
+                    raise
+                if error == errno.EADDRINUSE:
+                    connected = self.get_connected_socket()
+                    if connected:
+                        connected.close()
+                        raise
+                    unlink(self.filename)
+                    s.bind(self.filename)
+                else:
+                    raise
+            uid = geteuid()
+            if self.owner is not None:
+                if isinstance(self.owner, int):
+                    uid = self.owner
+                else:
+                    uid = getpwnam(self.owner).pw_uid
+            gid = getegid()
+            if self.group is not None:
+                if isinstance(self.group, int):
+                    gid = self.group
+                else:
+                    gid = getgrnam(self.group).gr_gid
+            if self.owner is not None or self.group is not None:
+                chown(self.filename, uid, gid)
+        finally:
+            if self.umask is not None:
+                umask(old_umask)
 
     def close(self, s):
         s.close()
-- 
2.43.0


From e53d7c53eaadc8738560091c5c8efaee8a402ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 22/40] fix: ClientStorage.bulk_load() left responses unread
 after an error

The next request on the connection then got one of them as its own
response, possibly the record of another object.
---
 durus/client_storage.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/durus/client_storage.py b/durus/client_storage.py
index dc14845..5ae311c 100644
--- a/durus/client_storage.py
+++ b/durus/client_storage.py
@@ -12,6 +12,7 @@ from durus.storage_server import STATUS_OKAY, STATUS_KEYERROR, STATUS_INVALID
 from durus.utils import int4_to_str, read, write, join_bytes, write_all
 from durus.utils import read_int4, write_int4, write_int4_str, iteritems
 from durus.utils import as_bytes
+import sys
 
 
 class ClientStorage (Storage):
@@ -125,7 +126,16 @@ class ClientStorage (Storage):
         num_oids, remainder = divmod(len(oid_str), 8)
         assert remainder == 0, remainder
         write_all(self.s, 'B', int4_to_str(num_oids), oid_str)
-        records = [self._get_load_response(oid) for oid in oids]
+        records = []
+        error = None
+        for oid in oids:
+            # Read every response, or the next request gets one of these.
+            try:
+                records.append(self._get_load_response(oid))
+            except (ReadConflictError, DurusKeyError):
+                error = sys.exc_info()[1]
+        if error is not None:
+            raise error
         for record in records:
             yield record
 
-- 
2.43.0


From 0e7f77c5a1ea671cceff5a2733aa7b97850e61cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 23/40] fix: BTree deletion could leave malformed nodes and
 wrong counts

When neither child next to the key has an item to spare, merge them around
the key and delete it from the result, as in the book.  Deleting from the
upper sibling breaks the precondition of delete(), and the count of the
merged node was one too low.
---
 durus/btree.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 1b51ac2..4dd94a5 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -238,15 +238,16 @@ class BNode(PersistentObject):
                     self.items[p] = extreme
                 else:
                     # Case 2c.
-                    extreme = upper_sibling.get_min_item()
-                    upper_sibling.delete(extreme[0])
-                    node.items = node.items + [extreme] + upper_sibling.items
+                    node.items = (
+                        node.items + [self.items[p]] + upper_sibling.items
+                    )
                     if not node.is_leaf():
                         node.nodes = node.nodes + upper_sibling.nodes
-                    node._count += upper_sibling._count
-                    self._count -= 1
+                    node._count += upper_sibling._count + 1
                     del self.items[p]
                     del self.nodes[p + 1]
+                    node.delete(key)
+                    self._count -= 1
                 self._p_note_change()
             else:
                 if not is_big(node):
-- 
2.43.0


From 382c4b2949422914f043e015e316f02d9eb58d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 24/40] fix: deleting from a BTree stored without counts raised
 TypeError

The truth of a node is its count, which is not a number in that case.
---
 durus/btree.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 4dd94a5..4ec721e 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -207,7 +207,7 @@ class BNode(PersistentObject):
         """
         def is_big(node):
             # Precondition for recursively calling node.delete(key).
-            return node and len(node.items) >= node.minimum_degree
+            return node is not None and len(node.items) >= node.minimum_degree
         p = self.get_position(key)
         matches = p < len(self.items) and self.items[p][0] == key
         if self.is_leaf():
@@ -220,8 +220,11 @@ class BNode(PersistentObject):
                 raise KeyError(key)
         else:
             node = self.nodes[p]
-            lower_sibling = p > 0 and self.nodes[p - 1]
-            upper_sibling = p < len(self.nodes) - 1 and self.nodes[p + 1]
+            lower_sibling = upper_sibling = None
+            if p > 0:
+                lower_sibling = self.nodes[p - 1]
+            if p < len(self.nodes) - 1:
+                upper_sibling = self.nodes[p + 1]
             if matches:
                 # Case 2.
                 if is_big(node):
@@ -273,7 +276,7 @@ class BNode(PersistentObject):
                             node.nodes.append(upper_sibling.nodes[0])
                             del upper_sibling.nodes[0]
                         upper_sibling._p_note_change()
-                    elif lower_sibling:
+                    elif lower_sibling is not None:
                         # Case 3b1: Merge with lower_sibling
                         node.items = (
                             lower_sibling.items
-- 
2.43.0


From 84444215695cd6b8ad3cb515b421dddf18426783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 25/40] fix: an attribute name with a surrogate crashed the
 interpreter

PyUnicode_AsUTF8() returns NULL for a name that can't be encoded.
---
 durus/_persistent.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c61a3ff..6949e68 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -170,6 +170,8 @@ pb_getattro(PersistentBaseObject *self, PyObject *name)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
 		return NULL;
     }
+	if (sname == NULL)
+		return NULL;
 	if (load_triggering_name(sname)) {
 		if (!pb_load(self))
 			return NULL;
@@ -189,6 +191,8 @@ pb_setattro(PersistentBaseObject *self, PyObject *name, PyObject *value)
 		PyErr_SetString(PyExc_TypeError, "attribute name must be a string");
         return -1;
 	}
+	if (sname == NULL)
+		return -1;
 	if (load_triggering_name(sname)) {
 		if (self->p_status != UNSAVED) {
 			if (!call_method((PyObject *)self, "_p_note_change", NULL))
-- 
2.43.0


From 0272454635128789063ff3c3f6c8721fb553a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 26/40] fix: access to a persistent object without a real
 connection could crash

_p_connection is an ordinary attribute: it can be deleted, cleared by the
garbage collector, or set to any object, but it was used without a check.
---
 durus/_persistent.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index 6949e68..ed437db 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -32,6 +32,7 @@ typedef struct {
 	PyObject *transaction_serial;
 } ConnectionBaseObject;
 
+static PyTypeObject ConnectionBase_Type;
 
 static PyObject *
 pb_new(PyTypeObject *type, PyObject *args, PyObject *kwds) 
@@ -150,14 +151,16 @@ pb_load(PersistentBaseObject *self)
 static int
 pb_note_access(PersistentBaseObject *self)
 {
-	ConnectionBaseObject *connection;
-	connection = (ConnectionBaseObject *)self->p_connection;
-	if (self->p_connection != Py_None &&
-	    self->p_serial != connection->transaction_serial) {
-		return call_method(
-			(PyObject *)connection, "note_access", (PyObject *)self);
-	} else 
+	PyObject *connection = self->p_connection;
+	/* NULL if deleted, or cleared by the garbage collector */
+	if (connection == NULL || connection == Py_None)
 		return 1;
+	/* transaction_serial is only there in a ConnectionBaseObject */
+	if (PyObject_TypeCheck(connection, &ConnectionBase_Type) &&
+	    self->p_serial ==
+	    ((ConnectionBaseObject *)connection)->transaction_serial)
+		return 1;
+	return call_method(connection, "note_access", (PyObject *)self);
 }
 
 static PyObject *
-- 
2.43.0


From 57c28d569884a90a1aa632a8628b177c63f578d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 27/40] fix: a FileStorage transaction stayed in the file if
 the last step failed

If writing the length, or the fsync, failed, the commit raised an error
but the transaction (or an incomplete one) was there on the next open.
---
 durus/shelf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/durus/shelf.py b/durus/shelf.py
index f3f878a..3b146b7 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -210,17 +210,17 @@ class Shelf (object):
                 write_int8(self.file, len(name) + len(value))
                 write(self.file, name)
                 write(self.file, value)
+            end = self.file.tell()
+            self.file.seek(start)
+            write_int8(self.file, end - start - 8)
+            self.file.seek(end)
+            self.file.flush()
+            self.file.fsync()
         except:
             # Revert before raising.
             self.file.seek(start)
             self.file.truncate()
             raise
-        end = self.file.tell()
-        self.file.seek(start)
-        write_int8(self.file, end - start - 8)
-        self.file.seek(end)
-        self.file.flush()
-        self.file.fsync()
         self.memory_index.update(index)
         return result
 
-- 
2.43.0


From 88728b958191348f9c62b4c69d28af792ec9b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 28/40] fix: a FileStorage2 transaction stayed in the file if
 the fsync failed

The commit raised an error but the transaction was there on the next open.
---
 durus/file_storage2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 7e960e3..68c8ff9 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -154,13 +154,13 @@ class FileStorage2(Storage):
             for z in self._write_transaction(
                 self.fp, self._generate_pending_records(), index):
                 pass
+            self.fp.flush()
+            self.fp.fsync()
         except:
             # Revert before raising.
             self.fp.seek(start)
             self.fp.truncate()
             raise
-        self.fp.flush()
-        self.fp.fsync()
         if is_logging(20):
             log(20, "Transaction at [%s] end=%s" % (datetime.now(),
                                                     self.fp.tell()))
-- 
2.43.0


From 816aef14cbed3aa622ac54fae692add013e12e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:33 +0000
Subject: [PATCH 29/40] fix: a crash at the end of a pack could leave no
 storage file

The old file was renamed before the new one got its name, so a crash in
between left nothing there and the next open made a new, empty storage.
Make the .prepack name a link to the old file instead, and let the new
file replace it.
---
 durus/file.py          | 12 +++++++++++-
 durus/file_storage.py  |  5 ++---
 durus/file_storage2.py |  6 ++----
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/durus/file.py b/durus/file.py
index 8b941b6..6c2b03d 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -71,12 +71,22 @@ class File (object):
         assert not self.is_temporary()
         self.obtain_lock()
         self.close()
-        if exists(name):
+        if os.name == 'nt' and exists(name):
             os.unlink(name)
         os.rename(old_name, name)
         self.file = open(name, 'r+b')
         self.obtain_lock()
 
+    def link(self, name):
+        """
+        Make `name` another name of this file, instead of any file that
+        has that name now.
+        """
+        assert not self.is_temporary()
+        if exists(name):
+            os.unlink(name)
+        os.link(self.get_name(), name)
+
     def obtain_lock(self):
         """
         Make sure that we have an exclusive lock on self.file before
diff --git a/durus/file_storage.py b/durus/file_storage.py
index bdf48fd..5b49ac2 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -160,9 +160,8 @@ class FileStorage (Storage):
                 shelf.store(self.gen_oid_record(start_oid=oid, seen=seen))
             file.flush()
             file.fsync()
-            if not self.shelf.get_file().is_temporary():
-                self.shelf.get_file().rename(file_path + '.prepack')
-                self.shelf.get_file().close()
+            self.shelf.get_file().link(file_path + '.prepack')
+            self.shelf.get_file().close()
             shelf.get_file().rename(file_path)
             # Invalidate removed oids, except those stored since the pack began.
             for oid in removed:
diff --git a/durus/file_storage2.py b/durus/file_storage2.py
index 68c8ff9..6c6c386 100644
--- a/durus/file_storage2.py
+++ b/durus/file_storage2.py
@@ -251,10 +251,8 @@ class FileStorage2(Storage):
         self._write_index(packed, index)
         packed.flush()
         packed.fsync()
-        if self.fp.is_temporary():
-            self.fp.close()
-        else:
-            self.fp.rename(prepack_name)
+        self.fp.link(prepack_name)
+        self.fp.close()
         packed.rename(name)
         self.fp = packed
         for oid in self.index:
-- 
2.43.0


From 34e788ec31d470f8eff37ccca8aa7157459ebc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 30/40] fix: a BTree lost items when a deletion failed while
 loading a node

---
 durus/btree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/durus/btree.py b/durus/btree.py
index 4ec721e..9b31d22 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -241,6 +241,7 @@ class BNode(PersistentObject):
                     self.items[p] = extreme
                 else:
                     # Case 2c.
+                    self._p_note_change()
                     node.items = (
                         node.items + [self.items[p]] + upper_sibling.items
                     )
-- 
2.43.0


From b48d8ab646ea061e4ec8f843eace3243942ca447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 31/40] fix: do not seek past the end of a Shelf when reading
 its transactions

The transaction reader seeks over the data of records, so a file that ended
inside of the last record was taken for complete and not repaired, and a
malformed record length could make the repair itself fail.
---
 durus/shelf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/durus/shelf.py b/durus/shelf.py
index 3b146b7..db93d6c 100755
--- a/durus/shelf.py
+++ b/durus/shelf.py
@@ -300,6 +300,9 @@ def read_transaction_offsets(file, repair=False):
     of writing a transaction.
     """
     transaction_start = transaction_end = position = file.tell()
+    file.seek(0, 2)
+    file_end = file.tell()
+    file.seek(transaction_start)
     try:
         transaction_length = read_int8(file)
         transaction_end = transaction_start + 8 + transaction_length
@@ -309,6 +312,8 @@ def read_transaction_offsets(file, repair=False):
             record_length = read_int8(file)
             identifier = read(file, 8)
             transaction_offsets[identifier] = position
+            if position + 8 + record_length > file_end:
+                raise ShortRead
             file.seek(position + 8 + record_length)
         if file.tell() != transaction_end:
             raise ShortRead
-- 
2.43.0


From 0bce36f0e097dd583e922a3c694d349cc08aefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 32/40] fix: do not keep a record whose oid FileStorage.store()
 refuses

An oid that is not 8 bytes long makes the shelf raise ValueError, and
the record stayed among the pending records.
---
 durus/file_storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/file_storage.py b/durus/file_storage.py
index 5b49ac2..56c15c5 100644
--- a/durus/file_storage.py
+++ b/durus/file_storage.py
@@ -70,12 +70,12 @@ class FileStorage (Storage):
 
     def store(self, oid, record):
         """(str, str)"""
-        self.pending_records[oid] = record
         if (oid not in self.allocated_unused_oids and
             oid not in self.shelf and
             oid != int8_to_str(0)):
             self.begin()
             raise ValueError("oid %r is a surprise" % oid)
+        self.pending_records[oid] = record
 
     def end(self, handle_invalidations=None):
         self.shelf.store(iteritems(self.pending_records))
-- 
2.43.0


From 6887fe99d43a6e68e49471250bc11951b83edfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:22 +0000
Subject: [PATCH 33/40] fix: do not truncate a file that another process has
 made since exists()

---
 durus/file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/durus/file.py b/durus/file.py
index 6c2b03d..9901706 100755
--- a/durus/file.py
+++ b/durus/file.py
@@ -27,7 +27,9 @@ class File (object):
             else:
                 if readonly:
                     raise OSError('No "%s" found.' % name)
-                self.file = open(name, 'w+b')
+                # Another process may have made it since: don't truncate.
+                open(name, 'ab').close()
+                self.file = open(name, 'r+b')
         if readonly:
             assert self.is_readonly()
         self.has_lock = False
-- 
2.43.0


From 457abb5e7ac39b1ed981f9984bcee68b4352e6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 34/40] fix: call_if_persistent() called the function with an
 exception set

PyObject_IsInstance() returns -1 when looking at the object raises.
---
 durus/_persistent.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index ed437db..c197e18 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -425,10 +425,14 @@ call_if_persistent(PyObject *x, PyObject *args)
 {
 	PyObject *f;     
 	PyObject *arg; 
+	int is_persistent;
 	if (!PyArg_UnpackTuple(args, "", 2, 2, &f, &arg)) {
 		return NULL;
 	}
-	if (PyObject_IsInstance(arg, (PyObject *)&PersistentBase_Type)) {
+	is_persistent = PyObject_IsInstance(arg, (PyObject *)&PersistentBase_Type);
+	if (is_persistent < 0)
+		return NULL;
+	if (is_persistent) {
 		return PyObject_CallFunction(f, "O", arg);
  	} else {
 		Py_INCREF(Py_None);
-- 
2.43.0


From faab5ed4626be5a3404cb67b4ec189f483fe75c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:23 +0000
Subject: [PATCH 35/40] fix: a new object leaked when its serial number could
 not be made

---
 durus/_persistent.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/durus/_persistent.c b/durus/_persistent.c
index c197e18..ac6d2b2 100644
--- a/durus/_persistent.c
+++ b/durus/_persistent.c
@@ -43,8 +43,10 @@ pb_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 		return NULL;
 	x->p_status = UNSAVED;
 	x->p_serial = Integer_FromLong(0L);
-	if (x->p_serial == NULL)
+	if (x->p_serial == NULL) {
+		Py_DECREF(x);
 		return NULL;
+	}
 	x->p_connection = Py_None;
 	Py_INCREF(x->p_connection);
 	x->p_oid = Py_None;
@@ -276,8 +278,10 @@ cb_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 	if (x == NULL)
 		return NULL;
 	x->transaction_serial = Integer_FromLong(1L);
-	if (x->transaction_serial == NULL)
+	if (x->transaction_serial == NULL) {
+		Py_DECREF(x);
 		return NULL;
+	}
 	return (PyObject *)x;
 }
 
-- 
2.43.0


From 087d192519f65797a6fdbb397ff97dd5bbb62f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:43 +0000
Subject: [PATCH 36/40] fix: BTree counts were wrong after a subtree moved
 between siblings

---
 durus/btree.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/durus/btree.py b/durus/btree.py
index 9b31d22..4416332 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -257,22 +257,28 @@ class BNode(PersistentObject):
                 if not is_big(node):
                     if is_big(lower_sibling):
                         # Case 3a1: Shift an item from lower_sibling.
+                        shifted = 1
+                        if not node.is_leaf():
+                            shifted += lower_sibling.nodes[-1]._count
                         node.items.insert(0, self.items[p - 1])
-                        node._count += 1
+                        node._count += shifted
                         self.items[p - 1] = lower_sibling.items[-1]
                         del lower_sibling.items[-1]
-                        lower_sibling._count -= 1
+                        lower_sibling._count -= shifted
                         if not node.is_leaf():
                             node.nodes.insert(0, lower_sibling.nodes[-1])
                             del lower_sibling.nodes[-1]
                         lower_sibling._p_note_change()
                     elif is_big(upper_sibling):
                         # Case 3a2: Shift an item from upper_sibling.
+                        shifted = 1
+                        if not node.is_leaf():
+                            shifted += upper_sibling.nodes[0]._count
                         node.items.append(self.items[p])
-                        node._count += 1
+                        node._count += shifted
                         self.items[p] = upper_sibling.items[0]
                         del upper_sibling.items[0]
-                        upper_sibling._count -= 1
+                        upper_sibling._count -= shifted
                         if not node.is_leaf():
                             node.nodes.append(upper_sibling.nodes[0])
                             del upper_sibling.nodes[0]
-- 
2.43.0


From 58bd12838a3ed6c7b8c768ad63b511a2f989a0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:01 +0000
Subject: [PATCH 37/40] fix: deleting a missing key could leave a BTree that
 looked empty

---
 durus/btree.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/durus/btree.py b/durus/btree.py
index 4416332..2d49349 100644
--- a/durus/btree.py
+++ b/durus/btree.py
@@ -309,7 +309,14 @@ class BNode(PersistentObject):
                     node._p_note_change()
                 assert is_big(node)
                 old_count = node._count
-                node.delete(key)
+                try:
+                    node.delete(key)
+                finally:
+                    if not self.items:
+                        # self is the root, and node was merged with its only
+                        # sibling.  This must not depend on finding the key.
+                        self.items = node.items
+                        self.nodes = node.nodes
                 self._count += node._count - old_count
             if not self.items:
                 # This can happen when self is the root node.
-- 
2.43.0


From 6421441891790324b56a5cf82af7a9ab379a7681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:02 +0000
Subject: [PATCH 38/40] fix: values of private slots, and of a slot named by a
 string, were not stored

---
 durus/persistent.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/durus/persistent.py b/durus/persistent.py
index 17aabb6..ce82b8e 100644
--- a/durus/persistent.py
+++ b/durus/persistent.py
@@ -141,7 +141,15 @@ class PersistentObject (PersistentBase):
         """
         for klass in self.__class__.__mro__:
             if klass is not PersistentBase:
-                for name in getattr(klass, '__slots__', []):
+                slots = klass.__dict__.get('__slots__', ())
+                if isinstance(slots, str):
+                    slots = (slots,)
+                for name in slots:
+                    if name.startswith('__') and not name.endswith('__'):
+                        # the name of a private slot is mangled
+                        prefix = klass.__name__.lstrip('_')
+                        if prefix:
+                            name = '_%s%s' % (prefix, name)
                     if (name not in ('__weakref__', '__dict__') and
                         _hasattribute(self, name)):
                         yield name
-- 
2.43.0


From d71724c13acd19d8186eb0af5bc6cfb3ff8ff050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:08 +0000
Subject: [PATCH 39/40] fix: ByteArray iterator no longer depends on the
 position other accesses leave in the file

---
 durus/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/durus/utils.py b/durus/utils.py
index ff84210..0320949 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -241,11 +241,8 @@ class ByteArray (object):
         return self.size
 
     def __iter__(self):
-        self.file.seek(self.start)
         for j in xrange(self.size):
-            byte = read(self.file, 1)
-            assert len(byte) == 1
-            yield byte
+            yield self[j]
 
 all_bytes = [pack("B", x) for x in range(256)]
 
-- 
2.43.0


From 5ea5286cf49d3f04d3c63e2cf31237a8688a3a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:08 +0000
Subject: [PATCH 40/40] fix: IntSet.add makes room for the number it adds

---
 durus/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/durus/utils.py b/durus/utils.py
index 0320949..e078f2b 100644
--- a/durus/utils.py
+++ b/durus/utils.py
@@ -518,7 +518,7 @@ class IntSet (object):
 
     def add(self, n):
         if n >= self.bit_array.get_size():
-            self.bit_array.set_size(int(n * 1.2))
+            self.bit_array.set_size(max(n + 1, int(n * 1.2)))
         self.bit_array[n] = 1
 
     def __contains__(self, n):
-- 
2.43.0

