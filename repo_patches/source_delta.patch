From 86e9120a2bfc6e7bfa65457335e16596fac1f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 01/62] fix: backoff loses the last failure when the exception
 object is falsy

---
 aiomisc/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/backoff.py b/aiomisc/backoff.py
index 341aa7c..c17ff95 100644
--- a/aiomisc/backoff.py
+++ b/aiomisc/backoff.py
@@ -136,7 +136,7 @@ def asyncbackoff(
             try:
                 return await asyncio.wait_for(run(), timeout=deadline)
             except Exception:
-                if last_exc:
+                if last_exc is not None:
                     raise last_exc
                 raise
 
-- 
2.43.0


From 3652765e288ea6a29cc4280587795d252e137fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:46 +0000
Subject: [PATCH 02/62] fix: pool loses capacity, instances and waiters when
 create/check fails

A failing check handed the recycled instance out, a failing or cancelled
creation or check lost a slot or the instance, waiters were not woken up when
an instance was recycled, and close() did not destroy instances waiting for
the recycler.
---
 aiomisc/pool.py | 65 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index c09942c..9b5c551 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -56,6 +56,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         "_tasks",
         "_len",
         "_used",
+        "_waiters",
     ) + EventLoopMixin.__slots__
 
     _tasks: Set[Any]
@@ -63,6 +64,9 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     _instances: asyncio.Queue
     _recycle_bin: asyncio.Queue
 
+    # Wakes up a waiting acquirer when there is a room for a new instance
+    _WAKEUP = object()
+
     def __init__(self, maxsize: int = 10, recycle: Optional[int] = None):
         assert (
             recycle is None or recycle > 0
@@ -78,6 +82,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         self._tasks = set()
         self._used = set()
+        self._waiters = 0
 
         self._create_lock = asyncio.Lock()
         self._recycle_times: DefaultDict[float, Any] = defaultdict(
@@ -119,9 +124,14 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     def __len__(self) -> int:
         return self._len
 
+    def __release_slot(self) -> None:
+        self._semaphore.release()
+        if self._waiters:
+            self._instances.put_nowait(self._WAKEUP)
+
     def __recycle_instance(self, instance: Any) -> None:
         self._len -= 1
-        self._semaphore.release()
+        self.__release_slot()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
@@ -133,7 +143,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     async def __create_new_instance(self) -> None:
         await self._semaphore.acquire()
 
-        instance: Any = await self._create_instance()
+        try:
+            instance: Any = await self._create_instance()
+        except BaseException:
+            self.__release_slot()
+            raise
+
         self._len += 1
 
         if self._recycle:
@@ -143,25 +158,37 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         await self._instances.put(instance)
 
     async def __acquire(self) -> T:
-        if not self._semaphore.locked():
-            await self.__create_new_instance()
+        while True:
+            if not self._semaphore.locked():
+                await self.__create_new_instance()
 
-        instance = await self._instances.get()
+            self._waiters += 1
+            try:
+                instance = await self._instances.get()
+            finally:
+                self._waiters -= 1
 
-        try:
-            result = await self._check_instance(instance)
-        except Exception:
-            log.exception("Check instance %r failed", instance)
-            self.__recycle_instance(instance)
-        else:
-            if not result:
-                self.__recycle_instance(instance)
-                return await self.__acquire()
+            if instance is self._WAKEUP:
+                continue
+
+            result = False
+            try:
+                result = await self._check_instance(instance)
+            except Exception:
+                log.exception("Check instance %r failed", instance)
+            finally:
+                if not result:
+                    self.__recycle_instance(instance)
 
-        self._used.add(instance)
-        return instance
+            if result:
+                self._used.add(instance)
+                return instance
 
     async def __release(self, instance: Any) -> None:
+        if instance not in self._used:
+            # The pool has been closed, the instance is already destroyed
+            return
+
         self._used.discard(instance)
 
         if self._recycle and self._recycle_times[instance] < self.loop.time():
@@ -179,9 +206,11 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         while self._instances.qsize():
             try:
-                instances.append(self._instances.get_nowait())
+                instance = self._instances.get_nowait()
             except asyncio.QueueEmpty:
                 break
+            if instance is not self._WAKEUP:
+                instances.append(instance)
 
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
@@ -191,6 +220,8 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         await asyncio.wait_for(
             asyncio.gather(
+                # instances which are waiting for the recycler
+                self._recycle_bin.join(),
                 *[
                     self.__create_task(
                         log_exception(self._destroy_instance(instance)),
-- 
2.43.0


From 2ea7bd10680fafba61da1e26036d4cb2343dbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:22 +0000
Subject: [PATCH 03/62] fix: entrypoint interrupts or repeats stopping of
 services

A service failing in stop() cancelled the stopping of the other services, and
leaving the entrypoint while the interrupt handler is already stopping the
services (the documented closing() pattern) stopped every service twice.
---
 aiomisc/entrypoint.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index d8b5cda..b1e2ca3 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -6,7 +6,7 @@ import sys
 import threading
 from concurrent.futures import Executor
 from typing import (
-    Any, Callable, Coroutine, FrozenSet, Iterable, MutableSet, Optional, Set,
+    Any, Callable, Coroutine, Dict, FrozenSet, Iterable, MutableSet, Optional, Set,
     Tuple, TypeVar, Union,
 )
 from weakref import WeakSet
@@ -172,6 +172,7 @@ class Entrypoint:
         self.__passed_services: FrozenSet[Service] = frozenset(services)
 
         self._services: Set[Service] = set()
+        self._stop_tasks: Dict[Service, asyncio.Task] = {}
         self._debug = debug
         self._loop = loop
         self._loop_owner = False
@@ -368,21 +369,33 @@ class Entrypoint:
 
         try:
             for s in svc:
+                if s in self._stop_tasks:
+                    # Already stopping, e.g. by the interrupt handler
+                    tasks.append(self._stop_tasks[s])
+                    continue
+
                 try:
                     log.debug("Stopping service %r", s)
                     coro = s.stop(exc)
                     if hasattr(coro, "__await__"):
-                        tasks.append(self.loop.create_task(coro))
+                        task = self.loop.create_task(coro)
+                        self._stop_tasks[s] = task
+                        tasks.append(task)
                 except TypeError as e:
                     log.warning("Failed to stop service %r:\n%r", svc, e)
                     log.debug("Service stop failed traceback", exc_info=True)
 
-            await asyncio.gather(*tasks)
+            # A failed service must not interrupt stopping of the others
+            results = await asyncio.gather(*tasks, return_exceptions=True)
+            for result in results:
+                if isinstance(result, BaseException):
+                    raise result
         finally:
             await cancel_tasks(tasks)
 
             for s in svc:
                 self._services.discard(s)
+                self._stop_tasks.pop(s, None)
 
             await self.post_stop.call(entrypoint=self, services=svc)
 
-- 
2.43.0


From d3a586080e85d2212066a8873141db1d56ea86e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 04/62] fix: most DNS record types cannot be added to a zone

---
 aiomisc/service/dns/records.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 34ddf25..1f0a078 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -73,8 +73,12 @@ class DNSClass(enum.IntEnum):
 
 
 class RD(dnslib.RD, Hashable, ABC):
+    def __eq__(self, other: Any) -> bool:
+        return type(self) is type(other) and vars(self) == vars(other)
+
     def __hash__(self) -> int:
-        return hash(self.data)
+        # not every dnslib type has "data", and not every value is hashable
+        return hash(str(sorted(vars(self).items())).lower())
 
     @classmethod
     @abstractmethod
-- 
2.43.0


From 2779ae484451dc79da9cc3629b52dca2272b5f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 05/62] fix: DNS zone accepts records of another zone with the
 same suffix

---
 aiomisc/service/dns/zone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 8ed501c..c5dc67a 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -45,7 +45,7 @@ class DNSZone:
         return tuple(self.records.get((name, record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return record.name.endswith(self.name)
+        return ("." + record.name).endswith("." + self.name.lstrip("."))
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
-- 
2.43.0


From f4291cff8f407b61ca03d0512ef1935fbff065a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 06/62] fix: DNS names below a zone are not found next to a
 deeper zone

---
 aiomisc/service/dns/tree.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/dns/tree.py b/aiomisc/service/dns/tree.py
index 1b32eec..c8a7d7b 100644
--- a/aiomisc/service/dns/tree.py
+++ b/aiomisc/service/dns/tree.py
@@ -39,7 +39,8 @@ class RadixTree(Generic[T]):
 
     def find_prefix(self, key: K) -> Optional[Tuple[K, T]]:
         node = self.root
-        longest_prefix: List[str] = []
+        prefix: List[str] = []
+        longest_prefix: K = ()
         value = None
         part: Hashable
         if node.value is not None:
@@ -47,8 +48,10 @@ class RadixTree(Generic[T]):
         for part in key:
             if part in node.children:
                 node = node.children[part]
-                longest_prefix.append(part)
+                prefix.append(part)
                 if node.value is not None:
+                    # nodes without a value are not prefixes by themselves
+                    longest_prefix = tuple(prefix)
                     value = node.value
             else:
                 break
@@ -56,4 +59,4 @@ class RadixTree(Generic[T]):
         if value is None:
             return None
 
-        return tuple(longest_prefix), value
+        return longest_prefix, value
-- 
2.43.0


From 7544ba6bd783a489b29fde7d52a12671b2494e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 07/62] fix: records of the DNS root zone are never found

---
 aiomisc/service/dns/store.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index bd3d976..174036d 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -36,7 +36,7 @@ class DNSStore:
         if not name.endswith("."):
             name += "."
         zone_tuple = self.get_zone_for_name(name)
-        if not zone_tuple:
+        if zone_tuple is None:
             return ()
         zone = self.zones.search(zone_tuple)
         return zone.get_records(name, record_type) if zone is not None else ()
@@ -48,7 +48,9 @@ class DNSStore:
 
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
-        return tuple(zone_name.strip(".").split("."))[::-1]
+        # the root zone has no labels, not an empty one
+        zone_name = zone_name.strip(".")
+        return tuple(zone_name.split("."))[::-1] if zone_name else ()
 
     def replace(
         self, zones_data: Mapping[str, Iterable[DNSRecord]],
-- 
2.43.0


From a5e7010ed6b592b20169b8d4f05bad09281bc577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 08/62] fix: DNS names are compared case-sensitively

---
 aiomisc/service/dns/store.py |  2 +-
 aiomisc/service/dns/zone.py  | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index 174036d..a8d4030 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -49,7 +49,7 @@ class DNSStore:
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
         # the root zone has no labels, not an empty one
-        zone_name = zone_name.strip(".")
+        zone_name = zone_name.strip(".").lower()
         return tuple(zone_name.split("."))[::-1] if zone_name else ()
 
     def replace(
diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index c5dc67a..5f6987e 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -27,10 +27,10 @@ class DNSZone:
             raise ValueError(
                 f"Record {record.name} does not belong to zone {self.name}",
             )
-        self.records[(record.name, record.type)].add(record)
+        self.records[self.get_key(record)].add(record)
 
     def remove_record(self, record: DNSRecord) -> None:
-        key = (record.name, record.type)
+        key = self.get_key(record)
         if key in self.records:
             self.records[key].discard(record)
             if self.records[key]:
@@ -42,10 +42,15 @@ class DNSZone:
     ) -> Sequence[DNSRecord]:
         if not name.endswith("."):
             name += "."
-        return tuple(self.records.get((name, record_type), ()))
+        return tuple(self.records.get((name.lower(), record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return ("." + record.name).endswith("." + self.name.lstrip("."))
+        zone_suffix = "." + self.name.lower().lstrip(".")
+        return ("." + record.name.lower()).endswith(zone_suffix)
+
+    @staticmethod
+    def get_key(record: DNSRecord) -> Tuple[str, RecordType]:
+        return record.name.lower(), record.type
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
@@ -63,5 +68,5 @@ class DNSZone:
                     f"Record {record.name} does not "
                     f"belong to zone {self.name}",
                 )
-            new_records[(record.name, record.type)].add(record)
+            new_records[self.get_key(record)].add(record)
         self.records = new_records
-- 
2.43.0


From 3ac6fe4e281314e8ce78f6137461b7697ff5a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 09/62] fix: DNS replies are marked truncated or cut regardless
 of the client's limit

---
 aiomisc/service/dns/service.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 28d6895..82acc3b 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -16,6 +16,9 @@ log = logging.getLogger(__name__)
 
 
 class DNSServer:
+    # every client is able to receive a datagram of this size (RFC 1035)
+    MIN_PAYLOAD_SIZE = 512
+
     store: DNSStore
 
     __proto__: str
@@ -60,12 +63,12 @@ class DNSServer:
 
             reply_body = reply.pack()
 
-            if len(reply_body) > 512:
+            max_size = max(edns_max_size or 0, self.MIN_PAYLOAD_SIZE)
+            if should_truncate and len(reply_body) > max_size:
+                # the client has to retry the query over TCP
+                reply.rr.clear()
                 reply.header.tc = 1
                 reply_body = reply.pack()
-
-            if should_truncate:
-                reply_body = reply_body[:edns_max_size]
         except Exception as e:
             log.exception(
                 "Failed to process %s request from %r: %s",
-- 
2.43.0


From b1b813b7a93e740ad45cb998e26e849a8b2d899e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 10/62] fix: fragmented DNS requests over TCP are parsed
 incomplete

---
 aiomisc/service/dns/service.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 82acc3b..7e46b71 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -117,10 +117,7 @@ class TCPDNSServer(DNSServer, TCPServer):
                 if not data:
                     break
                 length = TCP_HEADER_STRUCT.unpack(data)[0]
-                packet = await reader.read(length)
-
-                if not data:
-                    break
+                packet = await reader.readexactly(length)
 
                 reply_body, _ = self.handle_request(data=packet, addr=addr)
 
-- 
2.43.0


From 718f635c277a2aaa5ceaeccc7d32abc98adc29a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 11/62] fix: worker loses the rest of a packet when a send is
 interrupted

---
 aiomisc_worker/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 4721870..af5999e 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -67,7 +67,7 @@ class SocketIOProtocol(Protocol):
             return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.sock.send(data)
+        self.sock.sendall(data)
 
 
 class AsyncProtocol:
-- 
2.43.0


From 871908b4cc81eafcbd14eb32594a7918777b72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 12/62] fix: worker pool keeps connections which did not
 authenticate

A connection was neither closed after a failed authentication nor when the
pool was closing, and anybody could close the pool with BAD_INITIALIZER.
---
 aiomisc/worker_pool.py     | 38 +++++++++++++++++++++-----------------
 aiomisc_worker/protocol.py |  3 +--
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index e4280bd..c554a60 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -148,25 +148,22 @@ class WorkerPool:
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> None:
         proto = AsyncProtocol(reader, writer)
+        try:
+            await self.__serve_client(proto, reader)
+        finally:
+            proto.close()
+
+    async def __serve_client(
+        self, proto: AsyncProtocol, reader: asyncio.StreamReader,
+    ) -> None:
         packet_type, worker_id, digest, pid = await proto.receive()
 
         async with self.__closing_lock:
             if self.__closing:
-                proto.close()
-
-        if packet_type == PacketTypes.BAD_INITIALIZER:
-            packet_type, exc = await proto.receive()
-            if packet_type != PacketTypes.EXCEPTION:
-                await proto.send(PacketTypes.BAD_PACKET)
-            else:
-                set_exception(self.__futures, exc)
-            await self.close()
-            return
+                return
 
-        if packet_type != PacketTypes.AUTH:
+        if packet_type not in (PacketTypes.AUTH, PacketTypes.BAD_INITIALIZER):
             await proto.send(PacketTypes.BAD_PACKET)
-            if writer.can_write_eof():
-                writer.write_eof()
             return
 
         if worker_id not in self.worker_ids:
@@ -179,11 +176,18 @@ class WorkerPool:
             digestmod=hashlib.sha256,
         ).digest()
 
-        if expected_digest != digest:
+        if not hmac.compare_digest(expected_digest, digest):
             await proto.send(PacketTypes.AUTH_FAIL)
-            if writer.can_write_eof():
-                writer.write_eof()
-            log.debug("Bad digest %r expected %r", digest, expected_digest)
+            log.debug("Bad digest %r for worker %r", digest, worker_id)
+            return
+
+        if packet_type == PacketTypes.BAD_INITIALIZER:
+            packet_type, exc = await proto.receive()
+            if packet_type != PacketTypes.EXCEPTION:
+                await proto.send(PacketTypes.BAD_PACKET)
+            else:
+                set_exception(self.__futures, exc)
+            await self.close()
             return
 
         await proto.send(PacketTypes.AUTH_OK)
diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index af5999e..c35d317 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -94,5 +94,4 @@ class AsyncProtocol:
         return pickle.loads(payload_bytes)
 
     def close(self) -> None:
-        if not self.writer.can_write_eof():
-            self.writer.write_eof()
+        self.writer.close()
-- 
2.43.0


From f3326b275ff94827da0a8cb6d92f9d613a2cd0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:52 +0000
Subject: [PATCH 13/62] fix: worker pool loses a worker for each task which
 cannot be pickled

The worker process exits with zero status when its connection is closed and
is not started again, so every such task made the pool smaller.
---
 aiomisc/worker_pool.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index c554a60..12d2fab 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -228,6 +228,10 @@ class WorkerPool:
                         PacketTypes.EXCEPTION, PacketTypes.CANCELLED,
                     ):
                         result_future.set_exception(payload)
+                    else:
+                        raise ProcessError(
+                            f"Unexpected packet from process {pid!r}",
+                        )
                     del packet_type, payload
                 except (asyncio.IncompleteReadError, ConnectionError):
                     if not result_future.done():
@@ -236,14 +240,10 @@ class WorkerPool:
                         )
                     break
                 except Exception as e:
+                    # The request or its outcome can't be pickled, but only
+                    # entire packets are sent, the worker is still usable.
                     if not result_future.done():
                         result_future.set_exception(e)
-
-                    if not writer.is_closing():
-                        if writer.can_write_eof():
-                            writer.write_eof()
-                        writer.close()
-                    raise
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
-- 
2.43.0


From 5296854fd13a781a0f1ea754c377da1b6fc23140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 14/62] fix: a task which raises ConnectionError stops its
 worker

The worker took it for a broken connection to the pool and exited with
status 0, so the task failed with ProcessError and the supervisor never
started the worker again.
---
 aiomisc_worker/worker.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index beeb7ea..2e88381 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -27,10 +27,14 @@ def execute(protocol: SocketIOProtocol) -> None:
         raise RuntimeError("Unexpected request")
 
     try:
-        protocol.send((
-            PacketTypes.RESULT,
-            func(*args, **kwargs),
-        ))
+        try:
+            response = PacketTypes.RESULT, func(*args, **kwargs)
+        except ConnectionError as e:
+            # The task has failed, but the IPC connection is fine
+            logging.exception("Exception when processing request")
+            response = PacketTypes.EXCEPTION, e
+
+        protocol.send(response)
     except asyncio.CancelledError:
         logging.exception(
             "Request cancelled for %r", func, extra={"pid": pid},
-- 
2.43.0


From c3abd9384ee29235ac76ea70ac28c582a813160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 15/62] fix: exceptions which are false are lost in the thread
 pool

The future got None as the result of a function which had raised an
exception with a false truth value.
---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 26919f0..099bbc4 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,7 +73,7 @@ def _set_workitem_result(
     if future.done():
         return
 
-    if exception:
+    if exception is not None:
         future.set_exception(exception)
     else:
         future.set_result(result)
-- 
2.43.0


From 94a9fb06c911301ca04e8c73ccbc035596158884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:42 +0000
Subject: [PATCH 16/62] fix: thread waits for a cancelled coroutine forever

---
 aiomisc/thread_pool.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 099bbc4..a8f53e4 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -465,9 +465,12 @@ class CoroutineWaiter:
         self.__exception: Optional[BaseException] = None
 
     def _on_result(self, task: asyncio.Future) -> None:
-        self.__exception = task.exception()
-        if self.__exception is None:
-            self.__result = task.result()
+        if task.cancelled():
+            self.__exception = asyncio.CancelledError()
+        else:
+            self.__exception = task.exception()
+            if self.__exception is None:
+                self.__result = task.result()
         self.__event.set()
 
     def _awaiter(self) -> None:
-- 
2.43.0


From f30fa5b334d84e856d55c513870e41b6e8b9c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 17/62] fix: last items of a threaded iterator might be lost

The producer might put an item and close the channel after the consumer
has found the queue empty and before it checks that the channel is closed.
---
 aiomisc/iterator_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index e39e9ae..75c9534 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -122,11 +122,13 @@ class FromThreadChannel:
 
     def __await__(self) -> Any:
         while True:
+            # An item might be put just before the channel has been closed
+            is_closed = self.is_closed
             try:
                 res = self.queue.get()
                 return res
             except QueueEmpty:
-                if self.is_closed:
+                if is_closed:
                     raise ChannelClosed
 
                 sleep_time = self._compute_sleep_time()
-- 
2.43.0


From 8399b5e566779547b15fd5302824452c1104084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 18/62] fix: closing a threaded iterator hangs when its queue
 is full

The producer was waiting for a free slot although nobody reads the queue
anymore, so the thread and everyone waiting for it were blocked forever.
---
 aiomisc/iterator_wrapper.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 75c9534..6ec2218 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -4,6 +4,7 @@ from abc import abstractmethod
 from collections import deque
 from concurrent.futures import Executor
 from queue import Empty as QueueEmpty
+from queue import Full as QueueFull
 from queue import Queue
 from time import time
 from types import TracebackType
@@ -53,13 +54,15 @@ class DequeWrapper(QueueWrapperBase):
 
 
 class QueueWrapper(QueueWrapperBase):
+    PUT_TIMEOUT = 0.1
+
     __slots__ = "queue",
 
     def __init__(self, max_size: int) -> None:
         self.queue: Queue = Queue(maxsize=max_size)
 
     def put(self, item: Any) -> None:
-        return self.queue.put(item)
+        return self.queue.put(item, timeout=self.PUT_TIMEOUT)
 
     def get(self) -> Any:
         return self.queue.get_nowait()
@@ -99,11 +102,16 @@ class FromThreadChannel:
         self.close()
 
     def put(self, item: Any) -> None:
-        if self.is_closed:
-            raise ChannelClosed
+        while not self.is_closed:
+            try:
+                self.queue.put(item)
+            except QueueFull:
+                # Nobody might read the channel after it has been closed
+                continue
+            self.__last_received_item = time()
+            return
 
-        self.queue.put(item)
-        self.__last_received_item = time()
+        raise ChannelClosed
 
     def _compute_sleep_time(self) -> Union[float, int]:
         if self.__last_received_item < 0:
-- 
2.43.0


From 3eaea2c724556a59835648ce9a3f10dcf77014ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 19/62] fix: closing a threaded iterator hangs when it was not
 started

---
 aiomisc/iterator_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 6ec2218..5d9519e 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -223,6 +223,9 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
 
     def close(self) -> Awaitable[None]:
         self.__channel.close()
+        if self.__gen_task is None:
+            # There is no thread which might do this
+            self.__close_event.set()
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
-- 
2.43.0


From e89780fab4cc17de29b9f45809b2c3cc47155e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 20/62] fix: records logged before closing a threaded log
 handler are lost

The thread ended without looking at the queue again, nobody waited for it,
and it was blocking the logging code with the lock of the handler. Closing
the handler twice failed.
---
 aiomisc/log.py | 54 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 14a1bf6..c75c5f8 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -43,17 +43,36 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
-        self._queue.put(None)
-        del self._queue
-        self.flush()
-        self._close_event.set()
+        if not self._close_event.is_set():
+            self._close_event.set()
+            if self._thread.is_alive():
+                self._queue.put(None)
+            self.flush()
+
+        if self._thread is not threading.current_thread():
+            # Everything logged so far has to reach the target
+            if self._thread.is_alive():
+                self._thread.join()
         super().close()
 
     def flush(self) -> None:
         self._statistic.flushes += 1
         self._flush_event.set()
 
+    def handle(self, record: logging.LogRecord) -> Any:
+        # The lock of the handler is not needed for the queue, and
+        # logging.shutdown() holds it when it waits for the thread in close()
+        result = self.filter(record)
+        if isinstance(result, logging.LogRecord):
+            record = result
+        if result:
+            self.emit(record)
+        return result
+
     def emit(self, record: logging.LogRecord) -> None:
+        if self._close_event.is_set():
+            return
+
         if self._buffered:
             self._queue.put_nowait(record)
         else:
@@ -62,21 +81,18 @@ class ThreadedHandler(logging.Handler):
 
     def _in_thread(self) -> None:
         queue = self._queue
-        while not self._close_event.is_set():
-            self._flush_event.wait(self._flush_interval)
-            try:
-                self.acquire()
-                while True:
-                    record = queue.get(timeout=self._flush_interval)
-                    if record is None:
-                        return
-                    with suppress(Exception):
-                        self._target.handle(record)
-            except Empty:
-                pass
-            finally:
-                self.release()
-        self._statistic.threads -= 1
+        try:
+            while True:
+                self._flush_event.wait(self._flush_interval)
+                with suppress(Empty):
+                    while True:
+                        record = queue.get(timeout=self._flush_interval)
+                        if record is None:
+                            return
+                        with suppress(Exception):
+                            self._target.handle(record)
+        finally:
+            self._statistic.threads -= 1
 
 
 def suppressor(
-- 
2.43.0


From 357c81927bf7a93fdb84888143ba6d878cc8d53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:08 +0000
Subject: [PATCH 21/62] fix: logging fails when the buffer of a threaded log
 handler is full

---
 aiomisc/log.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index c75c5f8..461d2f7 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,7 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
-from queue import Empty, Queue
+from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
     Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union,
@@ -74,7 +74,12 @@ class ThreadedHandler(logging.Handler):
             return
 
         if self._buffered:
-            self._queue.put_nowait(record)
+            try:
+                self._queue.put_nowait(record)
+            except Full:
+                self._statistic.errors += 1
+                self.handleError(record)
+                return
         else:
             self._queue.put(record)
         self._statistic.records += 1
-- 
2.43.0


From 74d9692102067b563122807a33ef9e02798993dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 22/62] fix: a periodic callback which was stopped and started
 at once can not be stopped

The task of the old series was removing the new one when it has ended.
---
 aiomisc/periodic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/periodic.py b/aiomisc/periodic.py
index 78ad86d..0120055 100644
--- a/aiomisc/periodic.py
+++ b/aiomisc/periodic.py
@@ -58,8 +58,10 @@ class PeriodicCallback(EventLoopMixin):
             suppress_exceptions=suppress_exceptions,
         )
 
-        def clean_task(_: Any) -> None:
-            self._task = None
+        def clean_task(task: asyncio.Future) -> None:
+            # The callback might be started again after the stop
+            if self._task is task:
+                self._task = None
 
         self._task.add_done_callback(clean_task)
 
-- 
2.43.0


From 3f4f5971cd09b0272d597c2c461698decc6667f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:32 +0000
Subject: [PATCH 23/62] fix: a cancelled reader of the context cancels all the
 others

---
 aiomisc/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/context.py b/aiomisc/context.py
index cb8de04..08e04d6 100644
--- a/aiomisc/context.py
+++ b/aiomisc/context.py
@@ -33,7 +33,9 @@ class Context:
 
     def __getitem__(self, item: Any) -> Any:
         self._statistic.get += 1
-        return self._storage[item]
+        # The future is shared by all the readers, and one of them
+        # might be cancelled
+        return asyncio.shield(self._storage[item])
 
     def __setitem__(self, item: Any, value: Any) -> None:
         self._statistic.set += 1
-- 
2.43.0


From 803974d616960b7677c36b83301608e49dec56f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 24/62] fix: a signal fails when a receiver disconnects during
 the call

---
 aiomisc/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/signal.py b/aiomisc/signal.py
index 24d3106..8ee6c79 100644
--- a/aiomisc/signal.py
+++ b/aiomisc/signal.py
@@ -36,7 +36,8 @@ class Signal:
         self._receivers.discard(receiver)  # type: ignore
 
     async def call(self, *args: Any, **kwargs: Any) -> None:
-        for receiver in self._receivers:
+        # Receivers might connect or disconnect during the call
+        for receiver in tuple(self._receivers):
             await receiver(*args, **kwargs)
 
     def copy(self) -> "Signal":
-- 
2.43.0


From a9b8484f26f33fa4ec03810d527eec8a2f5d818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 25/62] fix: values assigned to a metric are not reported

---
 aiomisc/counters.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index d191f6a..951a69d 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -107,6 +107,17 @@ class Statistic(AbstractStatistic, metaclass=MetaStatistic):
 
         self.__instances__.add(self)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        if name not in self.__metrics__:
+            return super().__setattr__(name, value)
+
+        if not isinstance(value, Metric):
+            self._counter[name] = value
+        elif value.counter is self._counter and value.name == name:
+            super().__setattr__(name, value)
+        else:
+            self._counter[name] = value.counter[value.name]
+
 
 @dataclass(frozen=True)
 class StatisticResult:
-- 
2.43.0


From f1ccecede3131f1520e9a72e72ea2e09c466b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 26/62] fix: metrics of indirect base classes are lost

---
 aiomisc/counters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index 951a69d..ddadee6 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -64,7 +64,7 @@ class MetaStatistic(type):
 
         metrics = set()
 
-        for base_class in bases:
+        for base_class in klass.__mro__[1:]:
             if not issubclass(base_class, AbstractStatistic):
                 continue
 
-- 
2.43.0


From d9cc14c11b14a609a2ff73e57207459609213b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 27/62] fix: get_statistics fails when a statistic is created
 meanwhile

---
 aiomisc/counters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index ddadee6..1e20dba 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -137,11 +137,11 @@ class StatisticResult:
 def get_statistics(
     *kind: Type[Statistic],
 ) -> Generator[Any, Tuple[Statistic, str, int], None]:
-    for klass in CLASS_STORE:
+    for klass in tuple(CLASS_STORE):
         if kind and not issubclass(klass, kind):
             continue
 
-        for instance in klass.__instances__:
+        for instance in tuple(klass.__instances__):
             for metric, value in instance._counter.items():
                 yield StatisticResult(
                     kind=klass,
-- 
2.43.0


From 31432c9d5387c61d7e0cb73b068cab03776765a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 28/62] fix: AsyncFileIO can not be created

---
 aiomisc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a95f49b..ad52007 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -65,7 +65,7 @@ def proxy_method_async(
 @total_ordering
 class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
     __slots__ = (
-        "_fp", "executor", "__iterator_lock",
+        "_fp", "executor", "__iterator_lock", "__open_args",
     ) + EventLoopMixin.__slots__
 
     _fp: Optional[IO[AnyStr]]
-- 
2.43.0


From 9d70721f83542d9d69ae8eaefae23b0007266d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 29/62] fix: a file is opened twice when it is opened
 concurrently

---
 aiomisc/io.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index ad52007..57861c6 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -66,6 +66,7 @@ def proxy_method_async(
 class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
     __slots__ = (
         "_fp", "executor", "__iterator_lock", "__open_args",
+        "__open_lock",
     ) + EventLoopMixin.__slots__
 
     _fp: Optional[IO[AnyStr]]
@@ -84,6 +85,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         self._fp = None
         self.__open_args = (str(fname), mode, *args), kwargs
         self.__iterator_lock = asyncio.Lock()
+        self.__open_lock = asyncio.Lock()
 
     @classmethod
     def open_fp(
@@ -95,13 +97,14 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return async_fp
 
     async def open(self) -> None:
-        if self._fp is not None:
-            return
+        async with self.__open_lock:
+            if self._fp is not None:
+                return
 
-        args, kwargs = self.__open_args
-        self._fp = await self.__execute_in_thread(
-            self.get_opener(), *args, **kwargs,
-        )
+            args, kwargs = self.__open_args
+            self._fp = await self.__execute_in_thread(
+                self.get_opener(), *args, **kwargs,
+            )
 
     @property
     def fp(self) -> IO[AnyStr]:
-- 
2.43.0


From 3d844dff39a400ca795b58f1268b95bfd9e8a84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 30/62] fix: leaving the context of a file ignores its executor

---
 aiomisc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 57861c6..33f1f02 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -131,7 +131,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
             raise RuntimeError("file is not opened")
 
         await self.loop.run_in_executor(
-            None, self.fp.__exit__, exc_type, exc_val, exc_tb,
+            self.executor, self.fp.__exit__, exc_type, exc_val, exc_tb,
         )
 
     def __del__(self) -> None:
-- 
2.43.0


From 388190ef92f27c2f03b518fdf8928ec8a6c29a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 31/62] fix: deleting a file which was not opened fails

---
 aiomisc/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 33f1f02..a757b77 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -135,10 +135,10 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         )
 
     def __del__(self) -> None:
-        if not self.fp or self.fp.closed:
+        if self._fp is None or self._fp.closed:
             return
 
-        self.fp.close()
+        self._fp.close()
         del self._fp
 
     def __aiter__(self) -> "AsyncFileIO[AnyStr]":
-- 
2.43.0


From 956835c7e8cceaf53bf9fdc28488278333fc4ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 32/62] fix: keyword arguments of file methods are rejected

---
 aiomisc/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a757b77..3d600b5 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -191,10 +191,12 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return await self.__execute_in_thread(self.fp.close)
 
     def __getattr__(self, name: str) -> Callable[..., Awaitable[Any]]:
-        async def method(*args: Any) -> Any:
+        async def method(*args: Any, **kwargs: Any) -> Any:
             getter = getattr(self.fp, name)
             if callable(getter):
-                return await self.__execute_in_thread(getter, *args)
+                return await self.__execute_in_thread(
+                    getter, *args, **kwargs,
+                )
             return getter
         method.__name__ = name
         return method
-- 
2.43.0


From f50d81ec88cdb82e548a0061ff25a9fee9a4cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 33/62] fix: the buffer of a text file closes the file when it
 is dropped

---
 aiomisc/io.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 3d600b5..f43d53e 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -92,7 +92,10 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         cls, fp: IO, executor: Optional[Executor] = None,
         loop: Optional[asyncio.AbstractEventLoop] = None,
     ) -> "AsyncFileIO":
-        async_fp = cls(fp.name, mode=fp.mode, executor=executor, loop=loop)
+        async_fp = cls(
+            getattr(fp, "name", ""), mode=getattr(fp, "mode", ""),
+            executor=executor, loop=loop,
+        )
         async_fp._fp = fp
         return async_fp
 
@@ -246,6 +249,8 @@ class AsyncBinaryIO(AsyncFileIO[bytes]):
 
 
 class AsyncTextIO(AsyncFileIO[str]):
+    _buffer: Optional[AsyncBinaryIO] = None
+
     @property
     def fp(self) -> TextIO:
         return self._fp     # type: ignore
@@ -267,7 +272,12 @@ class AsyncTextIO(AsyncFileIO[str]):
         return self.fp.encoding
 
     def buffer(self) -> AsyncBinaryIO:
-        return AsyncBinaryIO.open_fp(self.fp.buffer)    # type: ignore
+        if self._buffer is None:
+            self._buffer = AsyncBinaryIO.open_fp(
+                self.fp.buffer,     # type: ignore
+                executor=self.executor, loop=self._loop,
+            )
+        return self._buffer
 
 
 # Aliases
-- 
2.43.0


From 378503122175d752da4113f3f2748667ce2c5883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 34/62] fix: attributes of a text file which was not opened are
 functions

---
 aiomisc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index f43d53e..2cf953e 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -253,7 +253,7 @@ class AsyncTextIO(AsyncFileIO[str]):
 
     @property
     def fp(self) -> TextIO:
-        return self._fp     # type: ignore
+        return super().fp   # type: ignore
 
     @property
     def newlines(self) -> Any:
-- 
2.43.0


From 04ba2ad1db58e624b6b5840911a347c8c48f7ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 35/62] fix: a service without arguments can not be unpickled
 from old protocols

---
 aiomisc/service/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index f342574..9cc903e 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -44,7 +44,7 @@ class Service(metaclass=ServiceMeta):
     __async_required__: Tuple[str, ...] = ("start", "stop")
     __required__: Tuple[str, ...] = ()
 
-    _instance_params: Dict[str, Any]
+    _instance_params: Dict[str, Any] = {}
 
     def __new__(cls, *args: Any, **kwargs: Any) -> "Service":
         instance = super().__new__(cls)
-- 
2.43.0


From faa76fd849031fb71445aa26e3bc656778fcfbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 36/62] fix: awaitable() takes classes and generator based
 coroutines for what they are

hasattr(obj, '__await__') holds for a class which defines __await__, although
the class itself can't be awaited, and does not hold for a coroutine made by
types.coroutine, which can.
---
 aiomisc/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/utils.py b/aiomisc/utils.py
index 9613245..164d9bd 100644
--- a/aiomisc/utils.py
+++ b/aiomisc/utils.py
@@ -1,4 +1,5 @@
 import asyncio
+import inspect
 import itertools
 import logging.handlers
 import socket
@@ -405,7 +406,8 @@ def awaitable(
     def wrap(*args: Any, **kwargs: Any) -> Awaitable[AT]:
         result = func(*args, **kwargs)
 
-        if hasattr(result, "__await__"):
+        # A class might have __await__ as well but is not awaitable itself
+        if inspect.isawaitable(result):
             return result
         if asyncio.iscoroutine(result) or asyncio.isfuture(result):
             return result
-- 
2.43.0


From 6761a66418a180ff247a09ef071de46f93c6a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 37/62] fix: servers stop accepting clients before they cancel
 the tasks

A client accepted while the tasks were being cancelled got a handler nobody
cancelled, and stop() hung until that client went away.
---
 aiomisc/service/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index 9cc903e..2c20edd 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -135,11 +135,12 @@ class SimpleServer(TaskStoreBase):
         raise NotImplementedError
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
-        await super().stop(exc)
-
+        # No new clients while the tasks are being cancelled
         if self.server:
             self.server.close()
 
+        await super().stop(exc)
+
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
-- 
2.43.0


From 7328e8cb3cc5a706ce3abfce54f7a0e37691f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 38/62] fix: servers close the connection of a handler which
 failed or was cancelled

asyncio does so when it runs the handler itself. While something referred to
the writer the client was left waiting, and stop() hung in wait_closed().
---
 aiomisc/service/tcp.py | 7 ++++++-
 aiomisc/service/tls.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 850c92b..cae80ac 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -53,7 +53,12 @@ class TCPServer(SimpleServer):
     async def __client_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> Any:
-        return await awaitable(self.handle_client)(reader, writer)
+        try:
+            return await awaitable(self.handle_client)(reader, writer)
+        except BaseException:
+            # Like asyncio does, otherwise the client and wait_closed() hang
+            writer.close()
+            raise
 
     def make_client_handler(
         self, reader: asyncio.StreamReader,
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index cd1f59c..bce6267 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -152,7 +152,12 @@ class TLSServer(SimpleServer):
     async def __client_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> Any:
-        return await awaitable(self.handle_client)(reader, writer)
+        try:
+            return await awaitable(self.handle_client)(reader, writer)
+        except BaseException:
+            # Like asyncio does, otherwise the client and wait_closed() hang
+            writer.close()
+            raise
 
     def make_client_handler(
         self, reader: asyncio.StreamReader,
-- 
2.43.0


From bae73eec25268a992b4f9486cf2a4be2361385fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 39/62] fix: TLS clients verify the certificate of the server
 unless verify=False

verify=True (the default) had no effect: every certificate was accepted.
---
 aiomisc/service/tls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index bce6267..2957292 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -92,7 +92,7 @@ class SSLOptions(SSLOptionsBase):
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
             # Post-handshake authentication is required
             context.post_handshake_auth = True
-        else:
+        elif not self.verify or self.purpose != ssl.Purpose.SERVER_AUTH:
             # Disable server-side cert verification
             context.check_hostname = False
             context.verify_mode = ssl.VerifyMode.CERT_NONE
-- 
2.43.0


From f177d68395445289c53d9202ae4ca1bbd48edd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 40/62] fix: process services can not be started when the
 logging is not configured

---
 aiomisc/service/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 8313aee..23e302a 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -68,7 +68,7 @@ class ProcessService(Service):
             log_format = (
                 LogFormat.default()
                 if LOG_FORMAT is None
-                else LOG_FORMAT.get().value
+                else LOG_FORMAT.get()
             )
 
             process = Process(
-- 
2.43.0


From 6b0e204c84f95c8c40cb0a7c58b7f0d6e3157ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 41/62] fix: processes started under a running entrypoint
 ignore signals

---
 aiomisc/service/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 23e302a..cf23c05 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -22,6 +22,10 @@ def _process_inner(
     stop_event: synchronize.Event,
     **kwargs: Any,
 ) -> None:
+    # Handlers of the entrypoint might be inherited from the parent process
+    signal.signal(signal.SIGINT, signal.default_int_handler)
+    signal.signal(signal.SIGTERM, signal.SIG_DFL)
+
     basic_config(level=log_level, log_format=log_format)
     start_event.set()
     try:
-- 
2.43.0


From 2f39fab15a9a3609e3d3b8f23d5f534e6c86a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:43 +0000
Subject: [PATCH 42/62] fix: statistics of the process pool lose cancelled
 calls

---
 aiomisc/process_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 32b6ca4..9940601 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,7 +84,7 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
-        if future.exception():
+        if future.cancelled() or future.exception() is not None:
             self._statistic.error += 1
         else:
             self._statistic.success += 1
-- 
2.43.0


From f3b172f48ebc9a38fa5a35375107a94fa858451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:00 +0000
Subject: [PATCH 43/62] fix: process services leak their process or hang when
 they are stopped while starting

---
 aiomisc/service/process.py | 47 +++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index cf23c05..900fc8c 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -89,12 +89,18 @@ class ProcessService(Service):
             )
 
             process.start()
-
-            await self.loop.run_in_executor(
-                None, self._process_start_event.wait,
-            )
             self.process = process
 
+        # The lock must not be held here, the service might be stopped
+        # while it's starting
+        await self.loop.run_in_executor(None, self._wait_started)
+
+    def _wait_started(self) -> None:
+        event = self._process_start_event
+        while not event.wait(1):
+            if not self._is_alive():
+                return
+
     def __repr__(self) -> str:
         pid: Optional[int] = None
         if hasattr(self, "process"):
@@ -106,6 +112,8 @@ class ProcessService(Service):
 
     async def stop(self, exception: Optional[Exception] = None) -> Any:
         if not self._is_alive():
+            # Nothing must be respawned after the stop
+            self.__dict__.pop("process", None)
             return
 
         process = self.process
@@ -115,22 +123,25 @@ class ProcessService(Service):
             return
 
         os.kill(process.pid, signal.SIGINT)
-        stop_result: bool = await self.loop.run_in_executor(
-            None, self._process_stop_event.wait, self.process_stop_timeout,
-        )
 
-        if stop_result:
-            await self.loop.run_in_executor(
-                None, process.join, self.process_stop_timeout,
+        try:
+            stop_result: bool = await self.loop.run_in_executor(
+                None, self._process_stop_event.wait,
+                self.process_stop_timeout,
             )
 
-        if not stop_result and process.is_alive():
-            process.kill()
-            log.warning(
-                f"The process {process.pid} didn't stop for "
-                f"{self.process_stop_timeout} seconds "
-                "and had been killed.",
-            )
+            if stop_result:
+                await self.loop.run_in_executor(
+                    None, process.join, self.process_stop_timeout,
+                )
+        finally:
+            if process.is_alive():
+                process.kill()
+                log.warning(
+                    f"The process {process.pid} didn't stop for "
+                    f"{self.process_stop_timeout} seconds "
+                    "and had been killed.",
+                )
 
 
 class RespawningProcessService(ProcessService, ABC):
@@ -152,8 +163,8 @@ class RespawningProcessService(ProcessService, ABC):
         await super().start()
 
     async def start(self) -> None:
-        await super().start()
         self._supervisor = PeriodicCallback(self.__supervise)
+        await super().start()
         self._supervisor.start(
             self.process_poll_timeout,
         )
-- 
2.43.0


From 569cdbdbad821ef6725dfd8763b45b69c24d9ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 44/62] fix: JSON log formatter loses records of custom levels
 and records without process or line number

---
 aiomisc_log/formatter/json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 6f8a526..4e7cd70 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -71,7 +71,7 @@ class JSONLogFormatter(logging.Formatter):
 
             v = record_dict.get(key)
 
-            if not isinstance(v, field_type):
+            if v is not None and not isinstance(v, field_type):
                 v = field_type(v)
 
             data[mapping] = v
@@ -99,7 +99,9 @@ class JSONLogFormatter(logging.Formatter):
         payload = {
             "@fields": data,
             "msg": self.formatMessage(record),
-            "level": self.LEVELS[record.levelno],
+            "level": self.LEVELS.get(
+                record.levelno, record.levelname.lower(),
+            ),
         }   # type: JSONObjType
 
         if self.datefmt:
-- 
2.43.0


From c83f8cf0e4b05096be99dff3c2199e76faa91adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:53 +0000
Subject: [PATCH 45/62] fix: unhandled loop hook fails when the future was
 cancelled or is pending

---
 aiomisc/log.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 461d2f7..5061be3 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -163,10 +163,13 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
         )
 
         if exception is None:
-            if future is not None:
+            if future is None:
+                future = task
+            if (
+                future is not None and
+                future.done() and not future.cancelled()
+            ):
                 exception = future.exception()
-            elif task is not None and task.done():
-                exception = task.exception()
 
         extra = context
         if handle is not None:
-- 
2.43.0


From 97f7648db11dc2584ffcaae78522ecfe18d85b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 46/62] fix: memory tracer goes on reporting after it was
 stopped

---
 aiomisc/service/tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/service/tracer.py b/aiomisc/service/tracer.py
index 5260ebe..a0861df 100644
--- a/aiomisc/service/tracer.py
+++ b/aiomisc/service/tracer.py
@@ -98,4 +98,5 @@ class MemoryTracer(Service):
         return self.log_diff(differences)
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        await self._tracer.stop(return_exceptions=True)
         tracemalloc.stop()
-- 
2.43.0


From 79ed0433aad26b7dff627f05bb34f1b86ec8fb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 47/62] fix: periodic services lose the name they were given

---
 aiomisc/service/periodic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/service/periodic.py b/aiomisc/service/periodic.py
index ca0aede..f2ba373 100644
--- a/aiomisc/service/periodic.py
+++ b/aiomisc/service/periodic.py
@@ -16,6 +16,8 @@ class PeriodicService(Service):
     delay: Union[int, float] = 0
 
     def __init__(self, *, name: Optional[str] = None, **kwargs: Any):
+        if name is not None:
+            kwargs["name"] = name
         super().__init__(**kwargs)
         self.periodic = PeriodicCallback(self.callback, name=name)
 
-- 
2.43.0


From 3812e7b389c6434d641896fc6ef696943ae70baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:37 +0000
Subject: [PATCH 48/62] fix: watchdog service can not be created when
 NOTIFY_SOCKET is empty

---
 aiomisc/service/sdwatchdog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/sdwatchdog.py b/aiomisc/service/sdwatchdog.py
index 5e7e533..b18c715 100644
--- a/aiomisc/service/sdwatchdog.py
+++ b/aiomisc/service/sdwatchdog.py
@@ -22,7 +22,7 @@ def _get_watchdog_interval() -> Optional[TimeoutType]:
 
 def _get_socket_addr() -> Optional[str]:
     addr = os.getenv("NOTIFY_SOCKET")
-    if addr is None:
+    if not addr:
         return None
     if addr[0] == "@":
         addr = "\0" + addr[1:]
-- 
2.43.0


From 4da7767a3239d1adc17117b776da68877aca0b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:35 +0000
Subject: [PATCH 49/62] fix: UDP servers leave handlers of datagrams received
 while they were stopped

---
 aiomisc/service/udp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/service/udp.py b/aiomisc/service/udp.py
index 1fadcb2..a7e9418 100644
--- a/aiomisc/service/udp.py
+++ b/aiomisc/service/udp.py
@@ -112,3 +112,5 @@ class UDPServer(SimpleServer):
         await super().stop(exc)
         if self._transport:
             self._transport.close()
+            # Handlers of datagrams received while the tasks were cancelled
+            await super().stop(exc)
-- 
2.43.0


From a092a405bf983ce3251c67d64a8cec952fe35267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 50/62] fix: raven transport leaves its connector open when
 closing it times out or is cancelled

---
 aiomisc/service/raven.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 0e59c0e..38c9548 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -342,9 +342,15 @@ class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
             connector_owner=False,
         )
 
-    async def _close(self) -> None:
-        await super()._close()
-        await self.connector.close()
+    async def _close_coro(
+        self,
+        *,
+        timeout: Optional[TimeoutType] = None,
+    ) -> None:
+        try:
+            await super()._close_coro(timeout=timeout)
+        finally:
+            await self.connector.close()
 
 
 class RavenSender(Service):
-- 
2.43.0


From 45006706ddc1a6ce10f20a1e6976ec034231f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:30 +0000
Subject: [PATCH 51/62] fix: raven transport loses events of other threads
 while it is closed

---
 aiomisc/service/raven.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 38c9548..88fa7ab 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -86,6 +86,7 @@ class AioHttpTransportBase(
             self._client_session = self._client_session_factory()
 
         self._closing = False
+        self._closed = False
 
     @property
     def keepalive(self) -> bool:
@@ -164,14 +165,27 @@ class AioHttpTransportBase(
             return
 
         self._loop.call_soon_threadsafe(
-            self._async_send, url, data, headers, success_cb, failure_cb,
+            self._accept, url, data, headers, success_cb, failure_cb,
         )
 
+    def _accept(
+        self, url: str, data: Any, headers: Mapping,
+        success_cb: Callable[[], Any], failure_cb: Callable[[Any], Any],
+    ) -> None:
+        # another thread might have called async_send while close was called
+        if self._closed:
+            failure_cb(RuntimeError(f"{self.__class__.__name__} is closed"))
+            return
+
+        self._async_send(url, data, headers, success_cb, failure_cb)
+
     async def _close_coro(
         self,
         *,
         timeout: Optional[TimeoutType] = None,
     ) -> None:
+        self._closed = True
+
         try:
             await asyncio.wait_for(
                 self._close(), timeout=timeout,
-- 
2.43.0


From 236bd80b153894fdaf5965fa378998959283baa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:02 +0000
Subject: [PATCH 52/62] fix: closing a raven transport fails when its last
 event has just been sent

---
 aiomisc/service/raven.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 88fa7ab..f9eaa4e 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -231,7 +231,7 @@ class AioHttpTransport(AioHttpTransportBase):
             return_exceptions=True,
         )
 
-        assert len(self._tasks) == 0
+        assert all(task.done() for task in self._tasks)
 
 
 class QueuedAioHttpTransport(AioHttpTransportBase):
-- 
2.43.0


From ea7afa0d5639fd58b1c8652faa45f0982ebb66a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 53/62] fix: stopping an HTTP service fails when it could not
 be started

---
 aiomisc/service/aiohttp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/aiohttp.py b/aiomisc/service/aiohttp.py
index daf1266..2eaf0f9 100644
--- a/aiomisc/service/aiohttp.py
+++ b/aiomisc/service/aiohttp.py
@@ -96,7 +96,7 @@ class AIOHTTPService(Service):
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
         try:
-            if self.site:
+            if hasattr(self, "site"):
                 await self.site.stop()
         finally:
             if hasattr(self, "runner"):
-- 
2.43.0


From f7ee875e960cece1355a41c5049649493650975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 54/62] fix: stopping an uvicorn service fails when it could
 not be started

---
 aiomisc/service/uvicorn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/service/uvicorn.py b/aiomisc/service/uvicorn.py
index 0b5ebc5..3b1e6f8 100644
--- a/aiomisc/service/uvicorn.py
+++ b/aiomisc/service/uvicorn.py
@@ -121,5 +121,8 @@ class UvicornService(Service, abc.ABC):
         )
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        if not hasattr(self, "serve_task"):
+            return
+
         self.server.should_exit = True
         await self.serve_task
-- 
2.43.0


From bccd7e365dbd6951458e58538fff41d1fe953e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 55/62] fix: gRPC service can not be started when nobody waits
 for a port any more

---
 aiomisc/service/grpc_server.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/grpc_server.py b/aiomisc/service/grpc_server.py
index 72ebcf2..f482d60 100644
--- a/aiomisc/service/grpc_server.py
+++ b/aiomisc/service/grpc_server.py
@@ -82,12 +82,14 @@ class GRPCService(Service):
 
         for address, future in self._insecure_ports:
             port = self._server.add_insecure_port(address)
-            future.set_result(port)
+            if not future.done():
+                future.set_result(port)
             self._log_port("Listening insecure address", address, port)
 
         for address, credentials, future in self._secure_ports:
             port = self._server.add_secure_port(address, credentials)
-            future.set_result(port)
+            if not future.done():
+                future.set_result(port)
             self._log_port("Listening secure address", address, port)
 
         if self._reflection:
-- 
2.43.0


From e805b1420c18dc295b5f30ae52a0c25b36ee57b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 56/62] fix: entrypoint leaves its event loop open when a
 service fails to stop

---
 aiomisc/entrypoint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index b1e2ca3..0bcae03 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -271,9 +271,11 @@ class Entrypoint:
                 buffered=False,
             )
 
-        loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
-        if self._loop_owner and self._loop is not None:
-            loop.close()
+        try:
+            loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
+        finally:
+            if self._loop_owner and self._loop is not None:
+                loop.close()
 
     async def __aenter__(self) -> "Entrypoint":
         if self._loop is None:
-- 
2.43.0


From 739e54445347056f6255077fc618123607c2ab6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:09 +0000
Subject: [PATCH 57/62] fix: entrypoint.closing() never returns when it is
 called during the shutdown

---
 aiomisc/entrypoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 0bcae03..e0c3e01 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -411,8 +411,10 @@ class Entrypoint:
         )
 
     async def graceful_shutdown(self, exception: Exception) -> None:
-        if self._closing:
-            self._closing.set()
+        if self._closing is None:
+            self._closing = asyncio.Event()
+
+        self._closing.set()
 
         await cancel_tasks(set(self._tasks))
         await self.stop_services(*self._services, exc=exception)
-- 
2.43.0


From e20b8c0ee3275870b7de9bdbf44551623d5f2b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:12 +0000
Subject: [PATCH 58/62] fix: log handlers of an entrypoint get nothing which is
 logged while it is left

---
 aiomisc/entrypoint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index e0c3e01..e913aa7 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -269,6 +269,7 @@ class Entrypoint:
                 log_format=self.log_format,
                 date_format=self.log_date_format,
                 buffered=False,
+                handlers=self.log_handlers,
             )
 
         try:
-- 
2.43.0


From 584b55426f0645c4e81d823a36f02ea24d8b47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:57 +0000
Subject: [PATCH 59/62] fix: services of an entrypoint are not stopped when its
 loop is not the current one of the thread

---
 aiomisc/entrypoint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index e913aa7..3be40bb 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -269,6 +269,7 @@ class Entrypoint:
                 log_format=self.log_format,
                 date_format=self.log_date_format,
                 buffered=False,
+                loop=loop,
                 handlers=self.log_handlers,
             )
 
-- 
2.43.0


From 2026a2be7a518871dedd0aa606241916f836cc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:57 +0000
Subject: [PATCH 60/62] fix: entrypoint leaks its event loop and the threads of
 its pool when a service fails to start

---
 aiomisc/entrypoint.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 3be40bb..123ecf5 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -253,7 +253,15 @@ class Entrypoint:
             self._loop.close()
 
     def __enter__(self) -> asyncio.AbstractEventLoop:
-        self.loop.run_until_complete(self.__aenter__())
+        try:
+            self.loop.run_until_complete(self.__aenter__())
+        except BaseException:
+            # __exit__ will not be called
+            if self._loop_owner:
+                if self.ctx:
+                    self.ctx.close()
+                self.loop.close()
+            raise
         return self.loop
 
     def __exit__(
-- 
2.43.0


From 909d3b14c93a3a1c5b66cebc3511be851574fefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:30 +0000
Subject: [PATCH 61/62] fix: stopping a carbon sender fails when it could not
 be started

---
 aiomisc/service/carbon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/carbon.py b/aiomisc/service/carbon.py
index d2c2df2..c2c8d5a 100644
--- a/aiomisc/service/carbon.py
+++ b/aiomisc/service/carbon.py
@@ -60,4 +60,5 @@ class CarbonSender(Service):
         )
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
-        await self._handle.stop(return_exceptions=True)
+        if hasattr(self, "_handle"):
+            await self._handle.stop(return_exceptions=True)
-- 
2.43.0


From 14f2504b08093f594f1550e37b0ae2fc21e5d543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:10 +0000
Subject: [PATCH 62/62] fix: tasks of an entrypoint's loop were not cancelled
 when a service failed to stop

---
 aiomisc/entrypoint.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 123ecf5..0b67ac6 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -427,13 +427,23 @@ class Entrypoint:
         self._closing.set()
 
         await cancel_tasks(set(self._tasks))
-        await self.stop_services(*self._services, exc=exception)
+
+        stop_error: Optional[Exception] = None
+
+        try:
+            await self.stop_services(*self._services, exc=exception)
+        except Exception as e:
+            # The tasks of the loop must be cancelled in any case
+            stop_error = e
 
         if self._loop_owner:
             await self._cancel_background_tasks()
 
         await self.loop.shutdown_asyncgens()
 
+        if stop_error is not None:
+            raise stop_error
+
     def _on_interrupt_callback(self, _: Any) -> None:
         loop = self.loop
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
-- 
2.43.0

