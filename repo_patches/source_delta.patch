From 6980b757dafd3e9ba01940472b41b7e3fccf32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:40 +0000
Subject: [PATCH 01/40] fix: give up a cancelled task's place in a concurrency
 guard's line

A task cancelled while it waits to enter a guarded context stayed on the
order queue & on the observers deque, so every guard behind it waited
forever. A managed guard also kept its target's state. A cancellation that
arrived as the context was being exited had the same effect.
---
 aiootp/asynchs/guards/concurrency_guard.py | 30 +++++++++++++++++-----
 aiootp/asynchs/guards/manager.py           |  3 ++-
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/aiootp/asynchs/guards/concurrency_guard.py b/aiootp/asynchs/guards/concurrency_guard.py
index 8ae45b8..843af8b 100644
--- a/aiootp/asynchs/guards/concurrency_guard.py
+++ b/aiootp/asynchs/guards/concurrency_guard.py
@@ -19,10 +19,11 @@ contexts.
 __all__ = ["ConcurrencyGuard", "DequePair"]
 
 
+from asyncio import CancelledError
 from collections import deque
 
 from aiootp._typing import Typing as t
-from aiootp._exceptions import Issue, IncoherentConcurrencyState
+from aiootp._exceptions import Ignore, Issue, IncoherentConcurrencyState
 from aiootp._exceptions import InvalidStateTransition, Metadata
 from aiootp.commons import FrozenTypedSlots
 from aiootp.asynchs.loops import asleep, sleep
@@ -316,6 +317,17 @@ class ConcurrencyGuard(FrozenTypedSlots):
         """
         return self._use_tracker.has_faulted()
 
+    def _withdraw(self, /) -> None:
+        """
+        Gives up the instance's place in line if the task waiting for
+        its turn is cancelled, so the guards behind it can still run.
+        """
+        with Ignore(ValueError):
+            self.queue.remove(self)
+        if self.policy.is_exclusive():
+            self.observers.pop()
+        self._use_tracker.enter_fault_state()
+
     async def __aenter__(self, /) -> t.Self:
         """
         Prevents entering the context by asynchronously sleeping until
@@ -330,8 +342,12 @@ class ConcurrencyGuard(FrozenTypedSlots):
         policy.notify_on(self)
         policy.get_in_queue(self)
 
-        while not policy.is_free_to_run(self):
-            await asleep(self.probe_delay)
+        try:
+            while not policy.is_free_to_run(self):
+                await asleep(self.probe_delay)
+        except CancelledError:
+            self._withdraw()
+            raise
 
         return self
 
@@ -370,9 +386,11 @@ class ConcurrencyGuard(FrozenTypedSlots):
 
         Otherwise, closes the context silently.
         """
-        await asleep()
-        self.policy.notify_off(self)
-        self.policy.get_off_queue(self)
+        try:
+            await asleep()
+        finally:
+            self.policy.notify_off(self)
+            self.policy.get_off_queue(self)
         return exc_type is None
 
     def __exit__(
diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 490a23c..3b4e9b8 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -24,6 +24,7 @@ __all__ = [
 ]
 
 
+from asyncio import CancelledError
 from collections import defaultdict, deque
 from threading import Lock
 
@@ -270,7 +271,7 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await manager._ainitialize_guard(target, self)
         try:
             return await super().__aenter__()
-        except Exception as error:
+        except (Exception, CancelledError) as error:
             await manager._acleanup_references(target)
             raise error
 
-- 
2.43.0


From 781fa22abd35d6d19d410dd89dd3841e41b20065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:42 +0000
Subject: [PATCH 02/40] fix: release the target state of a refused managed
 guard reuse

Entering a managed guard a second time is refused while it's being
initialized, which was after it had been registered as a user of its target.
The target's state was then kept by the manager forever.
---
 aiootp/asynchs/guards/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/asynchs/guards/manager.py b/aiootp/asynchs/guards/manager.py
index 3b4e9b8..7cc889b 100644
--- a/aiootp/asynchs/guards/manager.py
+++ b/aiootp/asynchs/guards/manager.py
@@ -268,8 +268,8 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         await asleep()
 
         manager, target = self._refs.manager, self._refs.target
-        await manager._ainitialize_guard(target, self)
         try:
+            await manager._ainitialize_guard(target, self)
             return await super().__aenter__()
         except (Exception, CancelledError) as error:
             await manager._acleanup_references(target)
@@ -286,8 +286,8 @@ class ManagedConcurrecyGuard(ConcurrencyGuard):
         guard's place in the order queue.
         """
         manager, target = self._refs.manager, self._refs.target
-        manager._initialize_guard(target, self)
         try:
+            manager._initialize_guard(target, self)
             return super().__enter__()
         except Exception as error:
             manager._cleanup_references(target)
-- 
2.43.0


From 265e37a53ffb7ce0df14998e3a30b5636eeb21ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:53 +0000
Subject: [PATCH 03/40] fix: don't delete files named like the manifest's
 ledger entries

Deleting a database treated the names of the manifest's own records, "0" &
"1", as filenames, so unrelated files with those names in the database
directory were deleted along with it.
---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 6662cd0..21308cb 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -744,7 +744,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         for metatag in self.metatags:
             sub_db = await self.ametatag(metatag, preload=False)
             await sub_db.adelete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             await self._adelete_file(filename, silent=True)
         await self._adelete_file(self._root_filename, silent=True)
         await self._adelete_profile_tokens()
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 51a8421..2995c8c 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -692,7 +692,7 @@ class Database(DatabaseProperties):
         """
         for metatag in self.metatags:
             self.metatag(metatag, preload=False).delete_database()
-        for filename in self._manifest:
+        for filename in self.filenames:
             self._delete_file(filename, silent=True)
         self._delete_file(self._root_filename, silent=True)
         self._delete_profile_tokens()
-- 
2.43.0


From e190a12da18ffb9720c8cb261f5671b3432c55c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:53 +0000
Subject: [PATCH 04/40] fix: don't read an emptied tag file as a missing value

A tag file cut down to zero bytes, as an interrupted write leaves it, was
reported as `None` without an error, even when `silent` is not set. It's now
refused like every other invalid ciphertext.
---
 aiootp/databases/async_database.py | 2 +-
 aiootp/databases/sync_database.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 21308cb..9559e24 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -549,7 +549,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = await self._aquery_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = await self.abytes_decrypt(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 2995c8c..fb2bd21 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -515,7 +515,7 @@ class Database(DatabaseProperties):
         if filename in self._cache:
             return getattr(self._cache, filename)
         ciphertext = self._query_ciphertext(filename, silent=silent)
-        if not ciphertext:
+        if ciphertext is None:
             return
 
         result = self.bytes_decrypt(ciphertext, filename=filename, ttl=ttl)
-- 
2.43.0


From 6c2595c9ec14defebdbe4e44e12b47082d64be86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:53 +0000
Subject: [PATCH 05/40] fix: keep one sub-database when tasks open a metatag
 concurrently

Tasks which ask for the same new metatag at once each created their own
sub-database, & the last one replaced the others together with whatever was
already stored through them.
---
 aiootp/databases/async_database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 9559e24..fdc70df 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -694,7 +694,7 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
                 metatag=True,
                 silent=silent,
             )
-            setattr(self, tag, sub_database)
+            hasattr(self, tag) or setattr(self, tag, sub_database)
         if tag not in self.metatags:
             self._manifest[self._METATAGS_LEDGERNAME].append(tag)
         return getattr(self, tag)
-- 
2.43.0


From c4a2f884722a54d6d8600836f00b5ddf10189b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:25 +0000
Subject: [PATCH 06/40] fix: don't block the event loop while waiting to delete
 a salt file

---
 aiootp/_paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 3182026..2fe48ee 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -268,7 +268,7 @@ async def adelete_salt_file(path: Path) -> None:
     """
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
-    with guards.guard(target):
+    async with guards.guard(target):
         await aos.chmod(path, 0o600)
         await aos.remove(path)
 
-- 
2.43.0


From aabe7d082d983c8d547359f5d6697e5b652205c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:25 +0000
Subject: [PATCH 07/40] fix: read salt files exclusively, since readers change
 their permissions

---
 aiootp/_paths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2fe48ee..b26bce6 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -191,7 +191,7 @@ async def aread_salt_file(path: Path) -> bytes:
     """
     path = await wrap_in_executor(path.absolute)()
     target = filename_to_index_key(str(path))
-    async with guards.monitor(target):
+    async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
             async with aiofiles.open(path, "rb") as salt_file:
@@ -210,7 +210,7 @@ def read_salt_file(path: Path) -> bytes:
     `path`.
     """
     target = filename_to_index_key(str(path.absolute()))
-    with guards.monitor(target):
+    with guards.guard(target):
         try:
             path = Path(path)
             path.chmod(0o600)
-- 
2.43.0


From 8d909084189ee893138bfb6f3cd2952a069bff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:25 +0000
Subject: [PATCH 08/40] fix: create one salt when it's first requested
 concurrently

---
 aiootp/_paths.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index b26bce6..2498932 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -301,16 +301,19 @@ async def AsyncSecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or await aos.mkdir(secure_path)
+    make_dir = wrap_in_executor(Path.mkdir)
+    await make_dir(secure_path, exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or await aos.mkdir(admin_path)
+        await make_dir(admin_path, exist_ok=True)
         salt_path = await afind_salt_file(admin_path, key=key)
     else:
         salt_path = await afind_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or await amake_salt_file(salt_path)
+    target = await afilename_to_index_key(str(salt_path), b"creation")
+    async with guards.guard(target):
+        salt_path.is_file() or await amake_salt_file(salt_path)
     return salt_path
 
 
@@ -330,16 +333,18 @@ def SecureSaltPath(
     Returns the new, or preexisting, salt file's Path object.
     """
     secure_path = SecurePath(path)
-    secure_path.is_dir() or secure_path.mkdir()
+    secure_path.mkdir(exist_ok=True)
 
     if _admin:
         admin_path = AdminPath(path)
-        admin_path.is_dir() or admin_path.mkdir()
+        admin_path.mkdir(exist_ok=True)
         salt_path = find_salt_file(admin_path, key=key)
     else:
         salt_path = find_salt_file(secure_path, key=key)
 
-    salt_path.is_file() or make_salt_file(salt_path)
+    target = filename_to_index_key(str(salt_path), b"creation")
+    with guards.guard(target):
+        salt_path.is_file() or make_salt_file(salt_path)
     return salt_path
 
 
-- 
2.43.0


From 5476745fd893bda1b3bc847e514bba29b1bbaf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:23 +0000
Subject: [PATCH 09/40] fix: store salts as a whole or not at all

---
 aiootp/_paths.py | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2498932..2a411aa 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -18,10 +18,12 @@ A collection of `pathlib.Path`'s & file IO utilities.
 __all__ = []
 
 
+import os
+import errno
 import aiofiles
 from pathlib import Path
 from hashlib import sha3_256, shake_128
-from secrets import token_bytes
+from secrets import token_bytes, token_hex
 
 from ._typing import Typing as t
 from ._constants import FILENAME_HASH_SLICE
@@ -151,6 +153,27 @@ def find_salt_file(path: Path, *, key: bytes, size: int = 8) -> Path:
     return path.absolute() / deniable_filename(key, size=size)
 
 
+def _store_salt(path: Path, salt: bytes) -> None:
+    """
+    Moves a file which contains the `salt`, & has no permissions set,
+    into `path`. An interruption at any point leaves either the prior or
+    the new file in place.
+    """
+    if path.exists() and not os.access(path, os.W_OK):
+        raise PermissionError(
+            errno.EACCES, os.strerror(errno.EACCES), str(path)
+        )
+
+    temporary_path = path.with_name(f"{path.name}.{token_hex(8)}")
+    try:
+        temporary_path.write_bytes(salt)
+        temporary_path.chmod(0o000)
+        temporary_path.replace(path)
+    except BaseException:
+        temporary_path.unlink(missing_ok=True)
+        raise
+
+
 async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     """
     Saves a cryptographic `salt` contained within the file located at
@@ -163,9 +186,7 @@ async def amake_salt_file(path: Path, *, salt: bytes = b"") -> None:
     path = await wrap_in_executor(path.absolute)()
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
-        async with aiofiles.open(path, "wb") as salt_file:
-            await salt_file.write(salt)
-        await aos.chmod(path, 0o000)
+        await wrap_in_executor(_store_salt)(path, salt)
 
 
 def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
@@ -179,9 +200,7 @@ def make_salt_file(path: Path, *, salt: bytes = b"") -> None:
 
     target = filename_to_index_key(str(path.absolute()))
     with guards.guard(target):
-        path = Path(path)
-        path.write_bytes(salt)
-        path.chmod(0o000)
+        _store_salt(Path(path), salt)
 
 
 async def aread_salt_file(path: Path) -> bytes:
@@ -237,8 +256,7 @@ async def aupdate_salt_file(path: Path, *, salt: bytes) -> None:
     async with guards.guard(target):
         try:
             await aos.chmod(path, 0o600)
-            async with aiofiles.open(path, "wb") as salt_file:
-                await salt_file.write(salt)
+            await wrap_in_executor(_store_salt)(path, salt)
         finally:
             await aos.chmod(path, 0o000)
 
@@ -256,7 +274,7 @@ def update_salt_file(path: Path, *, salt: bytes) -> None:
         try:
             path = Path(path)
             path.chmod(0o600)
-            path.write_bytes(salt)
+            _store_salt(path, salt)
         finally:
             path.chmod(0o000)
 
-- 
2.43.0


From aeb6101fcf247e0f3aedcbb9031665b1280293b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:35 +0000
Subject: [PATCH 10/40] fix: lock a salt file again when deleting it fails

---
 aiootp/_paths.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiootp/_paths.py b/aiootp/_paths.py
index 2a411aa..2079ac2 100644
--- a/aiootp/_paths.py
+++ b/aiootp/_paths.py
@@ -288,7 +288,11 @@ async def adelete_salt_file(path: Path) -> None:
     target = await afilename_to_index_key(str(path))
     async with guards.guard(target):
         await aos.chmod(path, 0o600)
-        await aos.remove(path)
+        try:
+            await aos.remove(path)
+        except OSError:
+            await aos.chmod(path, 0o000)
+            raise
 
 
 def delete_salt_file(path: Path) -> None:
@@ -300,7 +304,11 @@ def delete_salt_file(path: Path) -> None:
     with guards.guard(target):
         path = Path(path)
         path.chmod(0o600)
-        path.unlink(path)
+        try:
+            path.unlink(path)
+        except OSError:
+            path.chmod(0o000)
+            raise
 
 
 async def AsyncSecureSaltPath(
-- 
2.43.0


From d7a2bbd878277ac992a39fd5fc7dbb49a1ad9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:59 +0000
Subject: [PATCH 11/40] fix: don't wait forever for large results of other
 processes

---
 aiootp/asynchs/concurrency_interface.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 31c5159..6b0962c 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -132,10 +132,14 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             await asleep(delay)
-        task.join()
-        return queue.get_nowait()
+        try:
+            return queue.get_nowait()
+        finally:
+            while task.is_alive():
+                await asleep(delay)
+            task.join()
 
     @classmethod
     def new(
@@ -163,10 +167,14 @@ class ConcurrencyInterface:
             kwargs=kwargs,
         )
         task.start()
-        while task.is_alive():
+        while task.is_alive() and queue.empty():
             sleep(delay)
-        task.join()
-        return queue.get_nowait()
+        try:
+            return queue.get_nowait()
+        finally:
+            while task.is_alive():
+                sleep(delay)
+            task.join()
 
     @staticmethod
     def _get_result(
-- 
2.43.0


From f473868414d2e9db4d2c4add93385a1cdbf8cf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 12/40] fix: mark a decipher stream as started only after its
 timestamp was accepted

Iterating before any data was buffered, or with a ttl the clock could not
test, left the stream marked as started, so a later iteration handed out the
plaintext of an expired stream.
---
 aiootp/ciphers/decipher_streams.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index ae78ffd..bb48ad8 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -183,13 +183,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            await self._config.clock.atest_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        await self._config.clock.atest_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     async def _aremove_inner_header(self, queue: deque[bytes]) -> None:
         """
@@ -471,13 +467,9 @@ class DecipherStream(CipherStreamProperties):
         plaintext is older than the time-to-live specified by the
         instance.
         """
-        try:
-            self._is_streaming = True
-            timestamp = queue[0][self._config.TIMESTAMP_SLICE]
-            self._config.clock.test_timestamp(timestamp, self._ttl)
-        except self.TimestampExpired as error:
-            self._is_streaming = False
-            raise error
+        timestamp = queue[0][self._config.TIMESTAMP_SLICE]
+        self._config.clock.test_timestamp(timestamp, self._ttl)
+        self._is_streaming = True
 
     def _remove_inner_header(self, queue: deque[bytes]) -> None:
         """
-- 
2.43.0


From e5d5a0ba03466d89bbb9f1efead16ae3c55210eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 13/40] fix: refuse a canonical encoding which declares a
 blocksize of zero

---
 aiootp/generics/canon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 0dd0904..2c13285 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -307,7 +307,7 @@ def test_canonical_padding(
         pad = items.popleft()
     except IndexError as error:
         raise CanonicalIssue.missing_metadata_items() from error
-    if total_size % blocksize:
+    if not blocksize or total_size % blocksize:
         raise CanonicalIssue.data_length_blocksize_mismatch()
     elif len(pad) != 1 or not set(pad).issuperset(read()):
         raise CanonicalIssue.invalid_padding()
-- 
2.43.0


From 7f2fa6ca04f21effadba68f8c16ae7b5030b0f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 14/40] fix: refuse a canonical encoding cut off within an
 item's length

The missing bytes of a length were read as zeros, so an encoding whose last
items are empty was still accepted after its end had been removed.
---
 aiootp/generics/canon.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 2c13285..7ee0c96 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -265,9 +265,10 @@ async def adecode_items(
     the number of bytes that were used to encode item lengths.
     """
     async for _ in arange(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        item_size_blob = read(int_bytes)
+        item_size = int.from_bytes(item_size_blob, BIG)
         item = read(item_size)
-        if len(item) != item_size:
+        if len(item_size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
@@ -286,9 +287,10 @@ def decode_items(
     the number of bytes that were used to encode item lengths.
     """
     for _ in range(item_count):
-        item_size = int.from_bytes(read(int_bytes), BIG)
+        item_size_blob = read(int_bytes)
+        item_size = int.from_bytes(item_size_blob, BIG)
         item = read(item_size)
-        if len(item) != item_size:
+        if len(item_size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
 
-- 
2.43.0


From 85b971a99a16f8dc0b4b8b2840817e45ac8d2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 15/40] fix: refuse canonical item lengths too large to be read

A declared length above the largest index size raised an OverflowError
instead of the canonical encoding error.
---
 aiootp/generics/canon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiootp/generics/canon.py b/aiootp/generics/canon.py
index 7ee0c96..0606191 100644
--- a/aiootp/generics/canon.py
+++ b/aiootp/generics/canon.py
@@ -35,6 +35,7 @@ __all__ = [
 
 
 import io
+import sys
 from math import ceil
 from collections import deque
 from hmac import compare_digest as bytes_are_equal
@@ -267,7 +268,7 @@ async def adecode_items(
     async for _ in arange(item_count):
         item_size_blob = read(int_bytes)
         item_size = int.from_bytes(item_size_blob, BIG)
-        item = read(item_size)
+        item = read(min(item_size, sys.maxsize))
         if len(item_size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
@@ -289,7 +290,7 @@ def decode_items(
     for _ in range(item_count):
         item_size_blob = read(int_bytes)
         item_size = int.from_bytes(item_size_blob, BIG)
-        item = read(item_size)
+        item = read(min(item_size, sys.maxsize))
         if len(item_size_blob) != int_bytes or len(item) != item_size:
             raise CanonicalIssue.item_length_mismatch()
         yield item
-- 
2.43.0


From e519d93cfd07bfba1c303bb440856328e0ac26a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:34 +0000
Subject: [PATCH 16/40] fix: keep the attributes of frozen namespaces when
 clearing is refused

Clearing emptied the instance's dict before the frozen instance had a chance
to refuse.
---
 aiootp/commons/slots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index 4ff4b12..9fa01cd 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -327,7 +327,8 @@ class Slots:
         """
         Deletes the instance's attribute references from its slots & dict.
         """
-        getattr(self, DICT, []).clear()
+        for name in tuple(getattr(self, DICT, ())):
+            del self[name]
         for name in self.__slots__:
             if hasattr(self, name):
                 del self[name]
-- 
2.43.0


From 63087cff1b076ea51769bcf3e61bc117a7b97df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:30 +0000
Subject: [PATCH 17/40] fix: refuse empty salts instead of replacing them

Any empty value given as a salt was silently replaced by a random one, also
when decrypting.
---
 aiootp/ciphers/key_bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiootp/ciphers/key_bundle.py b/aiootp/ciphers/key_bundle.py
index 0bf12a5..ccf1e1d 100644
--- a/aiootp/ciphers/key_bundle.py
+++ b/aiootp/ciphers/key_bundle.py
@@ -53,7 +53,9 @@ class SaltAADIV(FrozenSlots):
         `iv`. Validates these values with the provided `config`.
         """
         self.config = config
-        self.salt = salt or token_bytes(config.SALT_BYTES)
+        self.salt = (
+            token_bytes(config.SALT_BYTES) if salt is None else salt
+        )
         self.aad = aad
         self.iv = self._process_iv(iv)
         self._test_salt_aad_iv(self.salt, self.aad, self.iv)
-- 
2.43.0


From 54b76882af63f0600d90945494efd8e89634aab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:30 +0000
Subject: [PATCH 18/40] fix: refuse block ids of zero bytes

A size of zero was treated as if none had been given.
---
 aiootp/ciphers/stream_hmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/ciphers/stream_hmac.py b/aiootp/ciphers/stream_hmac.py
index 36b19ac..ff6b553 100644
--- a/aiootp/ciphers/stream_hmac.py
+++ b/aiootp/ciphers/stream_hmac.py
@@ -243,7 +243,7 @@ class StreamHMAC:
         the associated data.
         """
         await asleep()
-        size = size or self.config.BLOCK_ID_BYTES
+        size = self.config.BLOCK_ID_BYTES if size is None else size
         self._test_block_id_size(size)
         mac = self.config.BLOCK_ID_KDF_CONFIG.factory()
         payload = (
@@ -279,7 +279,7 @@ class StreamHMAC:
         keystream. It's only used to create block ids that authenticate
         the associated data.
         """
-        size = size or self.config.BLOCK_ID_BYTES
+        size = self.config.BLOCK_ID_BYTES if size is None else size
         self._test_block_id_size(size)
         mac = self.config.BLOCK_ID_KDF_CONFIG.factory()
         payload = (
-- 
2.43.0


From fe0b106cdd7884165ee05e397eba3ad8fd1c8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:30 +0000
Subject: [PATCH 19/40] fix: keep a key bundle usable after a refused call

Enciphering or deciphering with an authenticator in the wrong mode was
refused only after the bundle had been spent on it.
---
 aiootp/ciphers/stream_junction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiootp/ciphers/stream_junction.py b/aiootp/ciphers/stream_junction.py
index ee32707..941e9df 100644
--- a/aiootp/ciphers/stream_junction.py
+++ b/aiootp/ciphers/stream_junction.py
@@ -57,11 +57,11 @@ class StreamJunction(FrozenInstance):
         methods that can be used to authenticate unfinished streams of
         cipehrtext on the fly.
         """
-        shmac._key_bundle._register_shmac(shmac)
         if shmac.mode != ENCRYPTION:
             raise Issue.must_set_value("shmac", ENCRYPTION)
         elif shmac._key_bundle._mode != ASYNC:
             raise KeyAADIssue.mode_isnt_correct(ASYNC)
+        shmac._key_bundle._register_shmac(shmac)
         return cls.acombine_streams(data, shmac=shmac)
 
     @classmethod
@@ -88,11 +88,11 @@ class StreamJunction(FrozenInstance):
         methods that can be used to authenticate unfinished streams of
         cipehrtext on the fly.
         """
-        shmac._key_bundle._register_shmac(shmac)
         if shmac.mode != ENCRYPTION:
             raise Issue.must_set_value("shmac", ENCRYPTION)
         elif shmac._key_bundle._mode != SYNC:
             raise KeyAADIssue.mode_isnt_correct(SYNC)
+        shmac._key_bundle._register_shmac(shmac)
         return cls.combine_streams(data, shmac=shmac)
 
     @classmethod
@@ -114,11 +114,11 @@ class StreamJunction(FrozenInstance):
         methods that can be used to authenticate unfinished streams of
         cipehrtext on the fly.
         """
-        shmac._key_bundle._register_shmac(shmac)
         if shmac.mode != DECRYPTION:
             raise Issue.must_set_value("shmac", DECRYPTION)
         elif shmac._key_bundle._mode != ASYNC:
             raise KeyAADIssue.mode_isnt_correct(ASYNC)
+        shmac._key_bundle._register_shmac(shmac)
         return cls.acombine_streams(data, shmac=shmac)
 
     @classmethod
@@ -140,11 +140,11 @@ class StreamJunction(FrozenInstance):
         methods that can be used to authenticate unfinished streams of
         cipehrtext on the fly.
         """
-        shmac._key_bundle._register_shmac(shmac)
         if shmac.mode != DECRYPTION:
             raise Issue.must_set_value("shmac", DECRYPTION)
         elif shmac._key_bundle._mode != SYNC:
             raise KeyAADIssue.mode_isnt_correct(SYNC)
+        shmac._key_bundle._register_shmac(shmac)
         return cls.combine_streams(data, shmac=shmac)
 
 
-- 
2.43.0


From b893aeadf3e8253e546aa079cb971eebfeb290b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:30 +0000
Subject: [PATCH 20/40] fix: count whole time units exactly

The elapsed nanoseconds were divided as floats, which lose precision beyond
2**53: nanosecond clocks advanced in steps of 16, and other clocks counted
the next unit some nanoseconds early.
---
 aiootp/asynchs/clocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index f6fd9a9..90520fe 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -66,7 +66,7 @@ class TimeUnit:
         supplied `epoch`. The `epoch` is always measured in nanoseconds
         since the UNIX epoch of 0.
         """
-        return int((time_ns() - epoch) / unit.as_ns)
+        return int((time_ns() - epoch) // unit.as_ns)
 
 
 class Nanoseconds(TimeUnit):
-- 
2.43.0


From 54d9bda7236cc24dc4b85dd3db2405e20d97aecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:06 +0000
Subject: [PATCH 21/40] fix: refuse data for a closing stream without waiting
 for it

Buffering into a stream whose finalizing generator was suspended waited for
the generator's guard. In one thread nothing could ever release it.
---
 aiootp/ciphers/cipher_streams.py   | 6 ++++++
 aiootp/ciphers/decipher_streams.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/aiootp/ciphers/cipher_streams.py b/aiootp/ciphers/cipher_streams.py
index 74223a2..c8337fd 100644
--- a/aiootp/ciphers/cipher_streams.py
+++ b/aiootp/ciphers/cipher_streams.py
@@ -255,6 +255,9 @@ class AsyncCipherStream(CipherStreamProperties, metaclass=AsyncInit):
         async for block_id, ciphertext in stream.afinalize():
             session.send_packet(block_id + ciphertext)
         """
+        if self._finalizing_now:
+            raise CipherStreamIsClosed
+
         async with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
@@ -484,6 +487,9 @@ class CipherStream(CipherStreamProperties):
         for block_id, ciphertext in stream.finalize():
             session.send_packet(block_id + ciphertext)
         """
+        if self._finalizing_now:
+            raise CipherStreamIsClosed
+
         with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
diff --git a/aiootp/ciphers/decipher_streams.py b/aiootp/ciphers/decipher_streams.py
index bb48ad8..178888c 100644
--- a/aiootp/ciphers/decipher_streams.py
+++ b/aiootp/ciphers/decipher_streams.py
@@ -305,6 +305,9 @@ class AsyncDecipherStream(CipherStreamProperties, metaclass=AsyncInit):
         if not data or len(data) % self.PACKETSIZE:
             raise Issue.invalid_length("data", len(data))
 
+        if self._finalizing_now:
+            raise CipherStreamIsClosed
+
         async with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
@@ -579,6 +582,9 @@ class DecipherStream(CipherStreamProperties):
         if not data or len(data) % self.PACKETSIZE:
             raise Issue.invalid_length("data", len(data))
 
+        if self._finalizing_now:
+            raise CipherStreamIsClosed
+
         with self._Guard(self._digesting_now, probe_delay=0.00001):
             if self._finalizing_now:
                 raise CipherStreamIsClosed
-- 
2.43.0


From 41c3b145ff75f138f9e3f137e5d4389a8ae0fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:30 +0000
Subject: [PATCH 22/40] fix: Keep raw GUIDs made by several threads in one
 clock tick distinct

---
 aiootp/randoms/ids/raw_guid.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/aiootp/randoms/ids/raw_guid.py b/aiootp/randoms/ids/raw_guid.py
index 6c261f7..7aa3d65 100644
--- a/aiootp/randoms/ids/raw_guid.py
+++ b/aiootp/randoms/ids/raw_guid.py
@@ -18,6 +18,8 @@ A type for creating unblinded unique bytes values.
 __all__ = ["RawGUID"]
 
 
+from threading import Lock
+
 from aiootp._typing import Typing as t
 from aiootp._constants import BIG
 from aiootp._exceptions import Issue
@@ -49,6 +51,8 @@ class RawGUID(FrozenInstance):
 
     __slots__ = ("tick", "node_id", "config")
 
+    _lock: Lock = Lock()
+
     _configs = ConfigMap(
         mapping={
             config_id: RawGUIDConfig(
@@ -107,12 +111,13 @@ class RawGUID(FrozenInstance):
         Creates an unblinded, raw GUID bytes value.
         """
         config = self.config
-        return (
-            config.clock.make_timestamp(size=config.TIMESTAMP_BYTES)
-            + config.prf(config.PRF_BYTES)
-            + self.node_id
-            + self._incremented_tick()
-        )
+        token = config.prf(config.PRF_BYTES)
+        with self._lock:  # Threads can't share, or stray from, a tick
+            timestamp = config.clock.make_timestamp(
+                size=config.TIMESTAMP_BYTES,
+            )
+            ticker = self._incremented_tick()
+        return timestamp + token + self.node_id + ticker
 
     async def aread(self, guid: bytes) -> RawGUIDContainer:
         """
-- 
2.43.0


From d1af10cf6efbd17e9780b6b3ab12c026b8ee05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:30 +0000
Subject: [PATCH 23/40] fix: Use the configured raw GUID config ID of a GUID
 config

---
 aiootp/randoms/ids/guid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiootp/randoms/ids/guid.py b/aiootp/randoms/ids/guid.py
index 8e7a36d..76f6319 100644
--- a/aiootp/randoms/ids/guid.py
+++ b/aiootp/randoms/ids/guid.py
@@ -158,7 +158,10 @@ class GUID(FrozenInstance):
         """
         self.config = c = self._configs[config_id]
         key = key or c._DEFAULT_KEY
-        self._raw_guid = c.RawGUID(node_id=node_id, config_id=config_id)
+        self._raw_guid = c.RawGUID(
+            node_id=node_id,
+            config_id=c.RAW_GUID_CONFIG_ID,
+        )
         self._permutation = self._initialize_permutation(key)
 
     async def anew(self) -> bytes:
-- 
2.43.0


From d900ecf601cdaa5be95066c8d76ab19fa2af5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:40:41 +0000
Subject: [PATCH 24/40] fix: read an empty phrase and refuse numbers that have
 no digits

---
 aiootp/generics/byte_io.py   | 4 ++--
 aiootp/generics/transform.py | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiootp/generics/byte_io.py b/aiootp/generics/byte_io.py
index 1f1c738..8bf6ec4 100644
--- a/aiootp/generics/byte_io.py
+++ b/aiootp/generics/byte_io.py
@@ -192,7 +192,7 @@ class ByteIO(FrozenInstance):
         await asleep()
         return b"".join(
             _WORD_LIST_256_INVERSE[word]
-            for word in phrase.strip().split(b" ")
+            for word in phrase.split()
         )
 
     @staticmethod
@@ -215,7 +215,7 @@ class ByteIO(FrozenInstance):
         """
         return b"".join(
             _WORD_LIST_256_INVERSE[word]
-            for word in phrase.strip().split(b" ")
+            for word in phrase.split()
         )
 
     @staticmethod
diff --git a/aiootp/generics/transform.py b/aiootp/generics/transform.py
index 9ac80b5..0ae40c3 100644
--- a/aiootp/generics/transform.py
+++ b/aiootp/generics/transform.py
@@ -91,6 +91,10 @@ async def aint_as_base(
         return table[:1]
     elif base is None:
         base = len(table)
+    if number < 0:
+        raise Issue.value_must("number", "be a non-negative int")
+    elif base < 2:
+        raise Issue.value_must("base", "be > 1")
     digits = []
     base_table = table[:base]
     await asleep()
@@ -118,6 +122,10 @@ def int_as_base(
         return table[:1]
     elif base is None:
         base = len(table)
+    if number < 0:
+        raise Issue.value_must("number", "be a non-negative int")
+    elif base < 2:
+        raise Issue.value_must("base", "be > 1")
     digits = []
     base_table = table[:base]
     while number:
-- 
2.43.0


From 157de46fbddf4fd7c8206096c0a13684093e09cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:46:45 +0000
Subject: [PATCH 25/40] fix: count months and years without rounding the
 present time

---
 aiootp/asynchs/clocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/asynchs/clocks.py b/aiootp/asynchs/clocks.py
index 90520fe..5d8502b 100644
--- a/aiootp/asynchs/clocks.py
+++ b/aiootp/asynchs/clocks.py
@@ -145,7 +145,7 @@ class Months(TimeUnit):
     __slots__ = ()
 
     name: str = MONTHS
-    as_ns: int | float = Days.as_ns * (_YEAR_WITH_LEAP_DAYS / 12)
+    as_ns: int | float = round(Days.as_ns * (_YEAR_WITH_LEAP_DAYS / 12))
     per_s: int | float = Days.per_s / (_YEAR_WITH_LEAP_DAYS / 12)
 
 
@@ -153,7 +153,7 @@ class Years(TimeUnit):
     __slots__ = ()
 
     name: str = YEARS
-    as_ns: int | float = Days.as_ns * _YEAR_WITH_LEAP_DAYS
+    as_ns: int | float = round(Days.as_ns * _YEAR_WITH_LEAP_DAYS)
     per_s: int | float = Days.per_s / _YEAR_WITH_LEAP_DAYS
 
 
-- 
2.43.0


From 252b336f1dd6cba927bc9bdcbee48cde887308b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:02 +0000
Subject: [PATCH 26/40] fix: zip nothing into nothing instead of unending empty
 lists

---
 aiootp/_gentools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/_gentools.py b/aiootp/_gentools.py
index 855a95c..7a8612d 100755
--- a/aiootp/_gentools.py
+++ b/aiootp/_gentools.py
@@ -243,7 +243,7 @@ async def azip(
     """
     coroutines = [aunpack(iterable).__anext__ for iterable in iterables]
     try:
-        while True:
+        while coroutines:
             yield [await coroutine() for coroutine in coroutines]
     except (StopAsyncIteration, StopIteration):
         pass
-- 
2.43.0


From 999290b53ab9c680fe495c360ac7499731116acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:43 +0000
Subject: [PATCH 27/40] fix: give every gathered function all of the arguments

---
 aiootp/asynchs/concurrency_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiootp/asynchs/concurrency_interface.py b/aiootp/asynchs/concurrency_interface.py
index 6b0962c..c076b98 100644
--- a/aiootp/asynchs/concurrency_interface.py
+++ b/aiootp/asynchs/concurrency_interface.py
@@ -282,6 +282,7 @@ class ConcurrencyInterface:
         `Processes.pool` or `Threads.pool` with the given `args` &
         `kwargs`.
         """
+        args = tuple(args)
         tasks = [
             await cls.asubmit(func, *args, **kwargs) for func in functions
         ]
@@ -303,6 +304,7 @@ class ConcurrencyInterface:
         Sumbits all the `functions` to the `Processes.pool` or
         `Threads.pool` with the given `args` & `kwargs`.
         """
+        args = tuple(args)
         tasks = [cls.submit(func, *args, **kwargs) for func in functions]
         try:
             return [task.result() for task in tasks]
-- 
2.43.0


From 30681de30ce44804fab149c53fd32cc565eff5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:14 +0000
Subject: [PATCH 28/40] fix: keep config ids from replacing the methods of a
 config map

---
 aiootp/commons/configs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiootp/commons/configs.py b/aiootp/commons/configs.py
index db8766e..accbdb9 100644
--- a/aiootp/commons/configs.py
+++ b/aiootp/commons/configs.py
@@ -178,6 +178,8 @@ class ConfigMap(OpenFrozenNamespace):
         is already in the instance & the `config` isn't the same object,
         then `PermissionError` is raised.
         """
+        if config_id in self._RESTRICTED_ATTRIBUTES:
+            raise Issue.cant_reassign_attribute(f"{config_id=}")
         config.set_config_id(config_id)
         if not issubclass(config.__class__, self.CONFIG_TYPE):
             raise Issue.must_be_type("config", self.CONFIG_TYPE)
-- 
2.43.0


From 4d9d19241909dd3de000bba7c0cf9bb0a5f317ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:14 +0000
Subject: [PATCH 29/40] fix: display containers with an empty name in them

---
 aiootp/commons/slots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiootp/commons/slots.py b/aiootp/commons/slots.py
index 9fa01cd..b8c7419 100644
--- a/aiootp/commons/slots.py
+++ b/aiootp/commons/slots.py
@@ -263,7 +263,7 @@ class Slots:
         body = on.join(
             f"{name}={show(value)}"
             for name, value in self.items()
-            if str(name)[0] != "_"
+            if str(name)[:1] != "_"
         )
         end = f",{sep}" if self else ""
         return f"{cls.__qualname__}({start}{body}{end})"
-- 
2.43.0


From 194d374f56c76ac2b0199c20952d42d08cde9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:42 +0000
Subject: [PATCH 30/40] fix: refuse metatags named like any attribute of the
 database class

A metatag called "_profile_tokens" was stored in the unset slot of that
name, and deleting the database then failed.
---
 aiootp/databases/async_database.py | 8 +++++---
 aiootp/databases/sync_database.py  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index fdc70df..7be21a7 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -682,10 +682,12 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         assert offspring is parent.sub_database
         """
         cls = self.__class__
-        if hasattr(self, tag):
+        if hasattr(cls, tag):
+            raise Issue.cant_reassign_attribute(tag)  # fixed v0.23.9
+        elif hasattr(self, tag):
             tag_cls = getattr(self, tag).__class__
-            if hasattr(cls, tag) or not issubclass(tag_cls, cls):
-                raise Issue.cant_reassign_attribute(tag)  # fixed v0.23.9
+            if not issubclass(tag_cls, cls):
+                raise Issue.cant_reassign_attribute(tag)
         else:
             sub_database = await cls(
                 key=await self._ametatag_key(tag),
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index fb2bd21..54dcdaa 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -633,10 +633,12 @@ class Database(DatabaseProperties):
         assert offspring == parent.sub_database
         """
         cls = self.__class__
-        if hasattr(self, tag):
+        if hasattr(cls, tag):
+            raise Issue.cant_reassign_attribute(tag)  # fixed v0.23.9
+        elif hasattr(self, tag):
             tag_cls = getattr(self, tag).__class__
-            if hasattr(cls, tag) or not issubclass(tag_cls, cls):
-                raise Issue.cant_reassign_attribute(tag)  # fixed v0.23.9
+            if not issubclass(tag_cls, cls):
+                raise Issue.cant_reassign_attribute(tag)
         else:
             sub_database = cls(
                 key=self._metatag_key(tag),
-- 
2.43.0


From 1c9ad8286e49003eb801a06ff3461edf935b7027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:06 +0000
Subject: [PATCH 31/40] fix: let threads draw random numbers at the same time

The sync random_number_generator runs a shared event loop. A second
thread calling it meanwhile got a RuntimeError. Runs now wait for each other.
---
 aiootp/randoms/rng.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiootp/randoms/rng.py b/aiootp/randoms/rng.py
index f38a600..c5700cf 100644
--- a/aiootp/randoms/rng.py
+++ b/aiootp/randoms/rng.py
@@ -26,6 +26,7 @@ __all__ = [
 import io
 from collections import deque
 from hashlib import shake_256
+from threading import Lock
 
 from aiootp._typing import Typing as t
 from aiootp._constants import BIG, SHAKE_256_BLOCKSIZE
@@ -65,6 +66,7 @@ _entropy_daemon.set_temporary_max_delay(max_delay=0.001, duration=2)
 
 # avert event loop clashes
 _run = new_event_loop().run_until_complete
+_run_lock = Lock()  # the loop can only be run by one thread at a time
 
 
 async def acsprng(
@@ -280,7 +282,8 @@ def random_number_generator(
         entropy=entropy,
         freshness=freshness,
     )
-    return _run(rng)
+    with _run_lock:
+        return _run(rng)
 
 
 # update the device seed with new entropy
-- 
2.43.0


From 474e3ae53dd4cbe4a13056c60de41663ab776251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:06 +0000
Subject: [PATCH 32/40] fix: refuse an empty passphrase for mnemonics

An empty passphrase was treated as none at all, and silently gave a
random mnemonic which could never be derived again.
---
 aiootp/keygens/mnemonics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiootp/keygens/mnemonics.py b/aiootp/keygens/mnemonics.py
index 52d1fd5..05241f2 100644
--- a/aiootp/keygens/mnemonics.py
+++ b/aiootp/keygens/mnemonics.py
@@ -94,7 +94,7 @@ async def amnemonic(
     domain = Domains.MNEMONIC
     words = words or WORD_LIST
     salt = await acanonical_pack(salt or b"", domain)
-    if passphrase:
+    if passphrase is not None:
         pcrypt = Passcrypt(**passcrypt_settings, tag_size=MIN_KEY_BYTES)
         key = await pcrypt.anew(passphrase, salt)
     elif not passcrypt_settings:
@@ -124,7 +124,7 @@ def mnemonic(
     domain = Domains.MNEMONIC
     words = words or WORD_LIST
     salt = canonical_pack(salt or b"", domain)
-    if passphrase:
+    if passphrase is not None:
         pcrypt = Passcrypt(**passcrypt_settings, tag_size=MIN_KEY_BYTES)
         key = pcrypt.new(passphrase, salt)
     elif not passcrypt_settings:
-- 
2.43.0


From 823871c10521fb6bba1d503ff5a3e9db6ed54511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:06 +0000
Subject: [PATCH 33/40] fix: run Ignore's handlers even if their truth value is
 false

---
 aiootp/_exceptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aiootp/_exceptions.py b/aiootp/_exceptions.py
index 83e65b7..9e8b510 100644
--- a/aiootp/_exceptions.py
+++ b/aiootp/_exceptions.py
@@ -169,9 +169,9 @@ class Ignore:
     ) -> None:
         placeholder = self._PlaceholderHandler()
         self.ignored_exceptions = exceptions
-        self.except_code = if_except or placeholder
-        self.else_code = if_else or placeholder
-        self.finally_code = finally_run or placeholder
+        self.except_code = placeholder if if_except is None else if_except
+        self.else_code = placeholder if if_else is None else if_else
+        self.finally_code = placeholder if finally_run is None else finally_run
         self.bus = t.Namespace()
         self.error = None
         self.traceback = None
-- 
2.43.0


From b7e0b4d5de65c874822386570e888860e144bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:06 +0000
Subject: [PATCH 34/40] fix: keep a value that is set while the tag is loaded

aquery_tag(tag, cache=True) replaced a value set by another task during
the read with the old one from disk. It also brought back a tag that
another task had popped.
---
 aiootp/databases/async_database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 7be21a7..90455c5 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -561,8 +561,9 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             result = result[BYTES_FLAG_SIZE:]  # Remove bytes value flag
         else:
             result = json.loads(result)
-        if cache:
-            setattr(self._cache, filename, result)
+        if cache and filename not in self._cache:  # Changed during read?
+            if (self.path / filename).is_file():
+                setattr(self._cache, filename, result)
         return result
 
     async def _adelete_file(
-- 
2.43.0


From 9c9bac68ecd70c4e8c37a18397e7c0de6d3698a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:06 +0000
Subject: [PATCH 35/40] fix: pop the value that is set while the tag is read

apop_tag deleted a value set by another task during its read and
returned the older one from disk. Queries could still see the older one
while the file was being deleted.
---
 aiootp/databases/async_database.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index 90455c5..e6c13f1 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -598,12 +598,14 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         failures = []
         filename = await self.afilename(tag)
         value = await self.aquery_tag(tag, cache=False, silent=True)
+        with Ignore(FileNotFoundError, if_except=track_failure):
+            await self._adelete_file(filename)
+        if filename in self._cache:  # Other tasks may have changed it
+            value = getattr(self._cache, filename)
         with Ignore(KeyError, AttributeError, if_except=track_failure):
             del self._manifest[filename]
         with Ignore(KeyError, AttributeError, if_except=track_failure):
             del self._cache[filename]
-        with Ignore(FileNotFoundError, if_except=track_failure):
-            await self._adelete_file(filename)
         if (not silent) and (len(failures) == 3):
             raise DatabaseIssue.tag_file_doesnt_exist(tag)
         return value
-- 
2.43.0


From eaa89b56948a619f96c3aacf34c2d49b30b2cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:06 +0000
Subject: [PATCH 36/40] fix: save a database while other tasks remove tags

asave_database raised an AttributeError if a tag left the cache before
its turn to be saved.
---
 aiootp/databases/async_database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index e6c13f1..e8dd683 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -805,7 +805,11 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         """
         Writes the database's user-defined tags to disk.
         """
-        save = self._asave_file
+
+        async def save(filename: str) -> None:
+            if filename in self._cache:  # Other tasks may have removed it
+                await self._asave_file(filename)
+
         filenames = self._cache
         saves = (save(filename) for filename in filenames)
         await gather(*saves)
-- 
2.43.0


From 34a7b9073a99909cc86d72498799c99f0503b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:34:06 +0000
Subject: [PATCH 37/40] fix: keep a value that is set while the tag is saved

asave_tag(tag, drop_cache=True) dropped a value set by another task
during the save, although only the older one was on disk.
---
 aiootp/databases/async_database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index e8dd683..a8ffbeb 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -836,12 +836,14 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
         filesystem.
         """
         filename = await self.afilename(tag)
+        value = getattr(self._cache, filename, None)
         try:
             await self._asave_file(filename, admin=admin)
         except AttributeError as error:
             raise DatabaseIssue.tag_file_doesnt_exist(tag) from error
         finally:
-            if drop_cache and hasattr(self._cache, filename):
+            unchanged = getattr(self._cache, filename, None) is value
+            if drop_cache and unchanged and hasattr(self._cache, filename):
                 delattr(self._cache, filename)
         return self
 
-- 
2.43.0


From 2a008f23bd4ee35bf91d5aaa811d3f1151622d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:50:21 +0000
Subject: [PATCH 38/40] fix: keep the keys of earlier security issue reports

---
 aiootp/__engagement/issue_reporting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiootp/__engagement/issue_reporting.py b/aiootp/__engagement/issue_reporting.py
index 570973a..6382f36 100644
--- a/aiootp/__engagement/issue_reporting.py
+++ b/aiootp/__engagement/issue_reporting.py
@@ -99,6 +99,7 @@ def report_security_issue() -> None:
         salt=aiootp_public_key,
         aad=b"aiootp_security_issue_reports",
         mb=mb,
+        preload=True,
     )
 
     # initialize & persist cryptographic values for the user's bug report
-- 
2.43.0


From 6cac9fb3d29bc70c861e6503db21820f3b316d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:54:39 +0000
Subject: [PATCH 39/40] fix: leave room for padding lengths of more than one
 byte

---
 .../ciphers/dual_output_shake_cipher_config.py |  6 ++++--
 aiootp/ciphers/padding.py                      | 18 ++++++++++++++----
 aiootp/ciphers/shake_permute_cipher_config.py  |  6 ++++--
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/aiootp/ciphers/dual_output_shake_cipher_config.py b/aiootp/ciphers/dual_output_shake_cipher_config.py
index 4a04707..b54b0fe 100644
--- a/aiootp/ciphers/dual_output_shake_cipher_config.py
+++ b/aiootp/ciphers/dual_output_shake_cipher_config.py
@@ -312,9 +312,11 @@ class DualOutputShakeCipherConfig(Config):
         """
         self.PACKETSIZE = self.BLOCK_ID_BYTES + self.BLOCKSIZE
         self.CIPHERTEXT_SLICE = slice(self.HEADER_BYTES, None, 1)
-        self.MIN_STREAM_QUEUE = self.MIN_PADDING_BLOCKS + 1
-        self.PADDING_FRAME = self.BLOCKSIZE * self.MIN_STREAM_QUEUE
+        self.PADDING_FRAME = self.BLOCKSIZE * (self.MIN_PADDING_BLOCKS + 1)
         self.SENTINEL_BYTES = ceil(self.PADDING_FRAME / 256)
+        self.MIN_STREAM_QUEUE = ceil(
+            (self.PADDING_FRAME + self.SENTINEL_BYTES - 1) / self.BLOCKSIZE,
+        )
         self.SENTINEL_SLICE = slice(-self.SENTINEL_BYTES, None, 1)
 
     def _compute_first_block_measurements(self) -> None:
diff --git a/aiootp/ciphers/padding.py b/aiootp/ciphers/padding.py
index d57683d..9bfb8e9 100644
--- a/aiootp/ciphers/padding.py
+++ b/aiootp/ciphers/padding.py
@@ -211,6 +211,8 @@ class Padding(FrozenInstance):
         c = self.config
         remainder = (c.INNER_HEADER_BYTES + size) % c.PADDING_FRAME
         padding_size = c.PADDING_FRAME - remainder
+        if padding_size < c.SENTINEL_BYTES:
+            padding_size += c.PADDING_FRAME
         sentinel = padding_size % c.PADDING_FRAME
         return PlaintextMeasurements(
             padding_size=padding_size,
@@ -225,6 +227,8 @@ class Padding(FrozenInstance):
         c = self.config
         remainder = (c.INNER_HEADER_BYTES + size) % c.PADDING_FRAME
         padding_size = c.PADDING_FRAME - remainder
+        if padding_size < c.SENTINEL_BYTES:
+            padding_size += c.PADDING_FRAME
         sentinel = padding_size % c.PADDING_FRAME
         return PlaintextMeasurements(
             padding_size=padding_size,
@@ -360,8 +364,11 @@ class Padding(FrozenInstance):
         - The appended random padding.
         - The appended padding sentinel.
         """
-        sentinel = int.from_bytes(data[self.config.SENTINEL_SLICE], BIG)
-        return -(sentinel or self.config.PADDING_FRAME)
+        c = self.config
+        sentinel = int.from_bytes(data[c.SENTINEL_SLICE], BIG)
+        if sentinel < c.SENTINEL_BYTES:
+            sentinel += c.PADDING_FRAME
+        return -sentinel
 
     def depadding_end_index(self, /, data: bytes) -> int:
         """
@@ -370,8 +377,11 @@ class Padding(FrozenInstance):
         - The appended random padding.
         - The appended padding sentinel.
         """
-        sentinel = int.from_bytes(data[self.config.SENTINEL_SLICE], BIG)
-        return -(sentinel or self.config.PADDING_FRAME)
+        c = self.config
+        sentinel = int.from_bytes(data[c.SENTINEL_SLICE], BIG)
+        if sentinel < c.SENTINEL_BYTES:
+            sentinel += c.PADDING_FRAME
+        return -sentinel
 
     async def adepad_plaintext(
         self,
diff --git a/aiootp/ciphers/shake_permute_cipher_config.py b/aiootp/ciphers/shake_permute_cipher_config.py
index ba3b9a7..51512cd 100644
--- a/aiootp/ciphers/shake_permute_cipher_config.py
+++ b/aiootp/ciphers/shake_permute_cipher_config.py
@@ -280,9 +280,11 @@ class ShakePermuteCipherConfig(Config):
         """
         self.PACKETSIZE = self.BLOCK_ID_BYTES + self.BLOCKSIZE
         self.CIPHERTEXT_SLICE = slice(self.HEADER_BYTES, None, 1)
-        self.MIN_STREAM_QUEUE = self.MIN_PADDING_BLOCKS + 1
-        self.PADDING_FRAME = self.BLOCKSIZE * self.MIN_STREAM_QUEUE
+        self.PADDING_FRAME = self.BLOCKSIZE * (self.MIN_PADDING_BLOCKS + 1)
         self.SENTINEL_BYTES = ceil(self.PADDING_FRAME / 256)
+        self.MIN_STREAM_QUEUE = ceil(
+            (self.PADDING_FRAME + self.SENTINEL_BYTES - 1) / self.BLOCKSIZE,
+        )
         self.SENTINEL_SLICE = slice(-self.SENTINEL_BYTES, None, 1)
 
     def _construct_metadata_constant(self) -> None:
-- 
2.43.0


From 4fb245e694accfbab82095492ed681be04a60848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:28:24 +0000
Subject: [PATCH 40/40] fix: load the values of metatags that are already open

---
 aiootp/databases/async_database.py | 6 +++++-
 aiootp/databases/sync_database.py  | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiootp/databases/async_database.py b/aiootp/databases/async_database.py
index a8ffbeb..ee09bb2 100644
--- a/aiootp/databases/async_database.py
+++ b/aiootp/databases/async_database.py
@@ -311,11 +311,15 @@ class AsyncDatabase(DatabaseProperties, metaclass=AsyncInit):
             await asleep()
             return self
 
+        known = [tag for tag in metatags_set if hasattr(self, tag)]
         metatags = (
             self.ametatag(metatag, preload=preload, silent=silent)
             for metatag in metatags_set
         )
-        await gather(*metatags)
+        databases = dict(zip(metatags_set, await gather(*metatags)))
+        if preload:
+            for metatag in known:
+                await databases[metatag].aload_database(silent=silent)
         return self
 
     async def aload_database(
diff --git a/aiootp/databases/sync_database.py b/aiootp/databases/sync_database.py
index 54dcdaa..f604cf3 100644
--- a/aiootp/databases/sync_database.py
+++ b/aiootp/databases/sync_database.py
@@ -285,7 +285,10 @@ class Database(DatabaseProperties):
         dictionary, but their internal values are not loaded.
         """
         for metatag in self.metatags:
-            self.metatag(metatag, preload=preload, silent=silent)
+            is_known = hasattr(self, metatag)
+            database = self.metatag(metatag, preload=preload, silent=silent)
+            if preload and is_known:
+                database.load_database(silent=silent)
         return self
 
     def load_database(
-- 
2.43.0

