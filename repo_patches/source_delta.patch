From bfc936ce8d27fd1b21cb7b7624d2963c01af54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:24 +0000
Subject: [PATCH 01/41] fix: keep the LRU cache ring intact after removals and
 re-insertions

The ring was not circular with one node, and inserting after a removal
created new nodes while emptied ones stayed in the ring, so eviction and
iteration went wrong (entries lost, iteration not ending).
---
 ekosis/cacheing/lru_cache.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 79dd70f..18ee6bf 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -8,7 +8,6 @@ class LRUCache:
         self.max_size     : int                   = max_size
         self._cached_items: Dict[Any, LRUCachedItem] = {}
         self.head         : LRUCachedItem            = None
-        self.tail         : LRUCachedItem            = None
 
     # --------------------------------------------------------------------------------
     def __insert(self, key: Any, value: Any):
@@ -16,18 +15,14 @@ class LRUCache:
         new_node.empty = False
         new_node.key   = key
         new_node.value = value
-        if self.head is None:
-            self.head = new_node
-            self.tail = new_node
+        if self.head is None: # A ring of one: the node is its own neighbour.
+            new_node.previous = new_node
+            new_node.next     = new_node
         else:
-            new_node.previous = self.tail
-            new_node.next     = self.head
-            if self.tail is self.head:
-                self.head.previous = new_node
-                self.head.next     = new_node
-            else:
-                self.tail.next     = new_node
-                self.head.previous = new_node
+            new_node.previous       = self.head.previous
+            new_node.next           = self.head
+            self.head.previous.next = new_node
+            self.head.previous      = new_node
         self._cached_items[key] = new_node
         return new_node
 
@@ -159,7 +154,9 @@ class LRUCache:
             self.__list_move_to_front(cached_item)
             return
 
-        if len(self._cached_items) < self.max_size:
+        # Emptied nodes stay at the end of the ring, and must be re-used before new ones are created.
+        has_empty_node = self.head is not None and self.head.previous.empty
+        if len(self._cached_items) < self.max_size and not has_empty_node:
             cached_item = self.__insert(key, value)
             self.head   = cached_item
         else:
-- 
2.43.0


From bf3814b7e2cc58b106824ca01443d0dcfd502d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:41 +0000
Subject: [PATCH 02/41] fix: list the first keys of a queue across front page,
 database and back page

---
 ekosis/queues/paginated_queue.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 0381fa3..619bcd2 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -315,13 +315,22 @@ class PaginatedQueue(Generic[_QueuedType]):
     def is_empty(self) -> int:
         return self.size() == 0
 
-    # TODO: There is a bug with this:
-    #   - When there are fewer then the requested amount of items in the queue.
-    #   - It is currently possible for entries to be spread between front page, database
-    #   - and back page. And this only reports on what is in the front page.
     # --------------------------------------------------------------------------------
     async def get_first_x_span_keys(self, how_many: int = 1) -> List[str]:
-        return self.front_page.get_first_x_span_keys(how_many)
+        # Entries can be spread between front page, database and back page.
+        retval = self.front_page.get_first_x_span_keys(how_many)
+
+        if len(retval) < how_many:
+            records = self.session.\
+                query(QueueRecord.span_key).\
+                order_by(asc(QueueRecord.record_id)).\
+                limit(how_many - len(retval)).all()
+            retval += [str(SpanKey.from_bytes(record.span_key)) for record in records]
+
+        if len(retval) < how_many and self.back_page is not self.front_page:
+            retval += self.back_page.get_first_x_span_keys(how_many - len(retval))
+
+        return retval
 
     # --------------------------------------------------------------------------------
     async def clear(self):
-- 
2.43.0


From 85b5cd0a099c5e78a22514665d70d7d64af1fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:03 +0000
Subject: [PATCH 03/41] fix: keep queue order when the back page is loaded
 after a restart

---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 619bcd2..7af4df6 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -182,7 +182,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
+        for record in reversed(records): # Selected newest first, but the page has to be oldest first.
             self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
         self.__delete_record_ids(ids_to_delete)
-- 
2.43.0


From 42b1628f74f56fd07c893a99514fb7326c0e6d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:27 +0000
Subject: [PATCH 04/41] fix: queue a buffered request before acknowledging it

The push was left to a task of its own, so a request could be acknowledged
without being queued, and a worker that was about to finish did not see it:
it then stayed in the pending queue until some later request arrived.
---
 ekosis/requests/buffered_handler_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 6ec200f..8f259fb 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -9,7 +9,6 @@ from .handler_base import HandlerBase
 from .request_context import _set_current_span_key, _reset_current_span_key
 from .status import Status
 
-from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
 from ..queues.pending_queue import PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -224,7 +223,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
-        fire_and_forget_task(self.queue.push_pending(span_key, dto, 0, metadata))
+        await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
         return response
-- 
2.43.0


From 0ff533abbe831132a968d8c295a9751b641f9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:09 +0000
Subject: [PATCH 05/41] fix: do not lose a buffered request when its handler
 raises or is cancelled

An exception from the handler (or a processing hook) ended the queue worker
and dropped the request it had taken from the queue. It now counts as a
failed attempt. A request whose processing is cancelled at shutdown goes
back to the pending queue.
---
 ekosis/requests/buffered_handler_base.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 8f259fb..725ae09 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -183,17 +183,27 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
             retries       = buffered_item.retries
             metadata      = buffered_item.metadata
             token         = _set_current_span_key(span_key)
+            processed     = False
+            success       = False
             try:
-                await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
-                success = await self.process_buffered_request(span_key = span_key, dto = request_data)
+                try:
+                    await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
+                    success = await self.process_buffered_request(span_key = span_key, dto = request_data)
+                except Exception as e: # Raising is just another way to fail.
+                    self.log.error(f"Processing of buffered request [{span_key}] raised [{type(e).__name__}] {e}")
+                processed = True
                 await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
-                if not success:
+            except Exception as e:
+                self.log.error(f"After processing of buffered request [{span_key}] raised [{type(e).__name__}] {e}")
+            finally:
+                if not processed: # We are being cancelled, the request still has to be processed after a restart.
+                    await self.queue.push_pending(span_key, request_data, retries, metadata)
+                elif not success:
                     retries += 1
                     if retries >= self.max_retries:
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
-            finally:
                 _reset_current_span_key(token)
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From 3b6949dc7dcc3a74f7b3b4a6eca2e5759cc14d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:16 +0000
Subject: [PATCH 06/41] fix: keep the message being sent when a buffered sender
 is cancelled

---
 ekosis/sending/buffered_sender_base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index c6e5c84..ca3d033 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -100,6 +100,9 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                     await self.queue.push_error(span_key, request_data, "Max retries reached.")
                 else:
                     await self.queue.push_pending(span_key, request_data, retries)
+            except asyncio.CancelledError: # Shutting down while sending, the message still has to be sent
+                await self.queue.push_pending(span_key, request_data, retries)
+                raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
 
-- 
2.43.0


From a0b682d8375cdcf7add01912c41f83d4eece4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:16 +0000
Subject: [PATCH 07/41] fix: end the application reliably on SIGTERM, SIGINT
 and SIGHUP

A handler raising SystemExit surfaces in whatever code is running when the
signal arrives, which can swallow it or cut a queue operation in half.
---
 ekosis/application_base.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9ec61ce..9bd3a49 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -221,7 +221,10 @@ class ApplicationBase(metaclass=SingletonType):
             self.logger.info("Application not running in context. Shutting down.")
             self.__eco_logger.flush()
             return
-        asyncio.run(self.__start())
+        try:
+            asyncio.run(self.__start())
+        finally:
+            self.__setup_signal_handlers() # The event loop took them over, and reset them when it closed.
 
     # --------------------------------------------------------------------------------
     def stop(self):
@@ -275,10 +278,24 @@ class ApplicationBase(metaclass=SingletonType):
     async def setup_tasks(self, tasks: list):
         pass
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __setup_event_loop_signal_handlers():
+        # An exception raised by a signal handler surfaces in whatever code happens to be running,
+        # which may well swallow it. Cancelling the main task always ends the application.
+        loop      = asyncio.get_running_loop()
+        main_task = asyncio.current_task()
+        for x_signal in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
+            try:
+                loop.add_signal_handler(x_signal, main_task.cancel)
+            except NotImplementedError: # pragma: no cover
+                return # Not supported by event loops on Windows.
+
     # --------------------------------------------------------------------------------
     async def __start(self):
         tasks = []
 
+        self.__setup_event_loop_signal_handlers()
         await self.__setup_buffered_handlers()
         await self.__setup_buffered_senders()
 
-- 
2.43.0


From 4742a576ceec53b234c7fc5ce29531e2a3ca4588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:08 +0000
Subject: [PATCH 08/41] fix: reprocessing errors leaves a paused buffer paused

---
 ekosis/requests/buffered_handler_base.py | 6 ++++--
 ekosis/sending/buffered_sender_base.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 725ae09..ce5cf74 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -103,16 +103,18 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused              = self._processing_paused
         self._processing_paused = True
         await self.queue.move_all_error_to_pending()
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
+        was_paused              = self._processing_paused
         self._processing_paused = True
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
         if not buffered_request:
             return None
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index ca3d033..fcc9981 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -158,16 +158,18 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused           = self._sending_paused
         self._sending_paused = True
         await self.queue.move_all_error_to_pending()
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
+        was_paused           = self._sending_paused
         self._sending_paused = True
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
         if not buffered_request:
             return None
-- 
2.43.0


From 77de48226a9807a4a105b9986f1bed76de53b020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:13 +0000
Subject: [PATCH 09/41] fix: report buffered requests without any fields as
 found

---
 ekosis/requests/buffered_handler_base.py | 6 +++---
 ekosis/sending/buffered_sender_base.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index ce5cf74..f76a209 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -90,14 +90,14 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
@@ -116,7 +116,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
         self._processing_paused = was_paused
         self.__check_process_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index fcc9981..005e4e7 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -145,14 +145,14 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
@@ -171,7 +171,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
         self._sending_paused = was_paused
         self.__check_process_send_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
-- 
2.43.0


From 727b3ff10c7ae55b71c691e4f2052583fc2e6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 10/41] fix: refuse requests with the server busy status while
 receiving is paused

---
 ekosis/servers/server_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index bd69610..1774680 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -6,6 +6,7 @@ from pydantic import ValidationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
+from ..requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
 from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..requests.status import Status
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -69,6 +70,12 @@ class ServerBase:
                 status   = e.status,
                 data     = e.message
             )
+        except BufferedRequestHandlerExceptionBase as e:
+            return ResponseDTO(
+                span_key = span_key,
+                status   = e.status,
+                data     = str(e)
+            )
         except Exception as e:
             return ResponseDTO(
                 span_key = span_key,
-- 
2.43.0


From dd2f547928428a3ba39ca8fcbb8e393d4b73cbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:37 +0000
Subject: [PATCH 11/41] fix: retry a buffered request with its original content
 and metadata

---
 ekosis/requests/buffered_handler_base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index f76a209..29b554a 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -1,4 +1,5 @@
 import asyncio
+import copy
 import logging
 
 from pydantic import BaseModel as PydanticBaseModel
@@ -181,9 +182,9 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         while not self._processing_paused and await self.queue.has_pending():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self.request_dto_type(**buffered_item.data)
+            request_data  = self.request_dto_type(**copy.deepcopy(buffered_item.data))
             retries       = buffered_item.retries
-            metadata      = buffered_item.metadata
+            metadata      = copy.deepcopy(buffered_item.metadata)
             token         = _set_current_span_key(span_key)
             processed     = False
             success       = False
@@ -199,13 +200,13 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
                 self.log.error(f"After processing of buffered request [{span_key}] raised [{type(e).__name__}] {e}")
             finally:
                 if not processed: # We are being cancelled, the request still has to be processed after a restart.
-                    await self.queue.push_pending(span_key, request_data, retries, metadata)
+                    await self.queue.push_pending(span_key, buffered_item.data, retries, buffered_item.metadata)
                 elif not success:
                     retries += 1
                     if retries >= self.max_retries:
-                        await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
+                        await self.queue.push_error(span_key, buffered_item.data, "Max retries reached.", buffered_item.metadata)
                     else:
-                        await self.queue.push_pending(span_key, request_data, retries, metadata)
+                        await self.queue.push_pending(span_key, buffered_item.data, retries, buffered_item.metadata)
                 _reset_current_span_key(token)
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From c110137a3ff4817622a565d84940b996f72beb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:35 +0000
Subject: [PATCH 12/41] fix: answer undecodable requests and unserialisable
 responses instead of dropping the connection

---
 ekosis/servers/json/udp.py           |  8 +++-----
 ekosis/servers/server_base.py        | 20 ++++++++++++++++++++
 ekosis/servers/stream_server_base.py |  4 ++--
 3 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 9e894f5..e1663c1 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -36,8 +36,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                request_data: str = bytes_read.decode()
-                self.loop.create_task(self.do_response(request_data, addr))
+                self.loop.create_task(self.do_response(bytes_read, addr))
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
@@ -65,9 +64,8 @@ class UDPServer(ServerBase):
             self._logger.info(f"Stopping UDP server for {self.host}:{self.port}.")
 
     # --------------------------------------------------------------------------------
-    async def __process_received_data(self, received_data: str):
-        response_dict = await self._route_request(received_data)
-        return response_dict.model_dump_json()
+    async def __process_received_data(self, received_data: bytes):
+        return await self._build_response(received_data)
 
     # --------------------------------------------------------------------------------
     async def __create_datagram_listener(self):
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 1774680..4dca5cc 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -82,3 +82,23 @@ class ServerBase:
                 status   = Status.UNHANDLED.value,
                 data     = str(e)
             )
+
+    # --------------------------------------------------------------------------------
+    async def _build_response(self, request_bytes: bytes) -> str:
+        span_key: SpanKey = None
+        try:
+            response = await self._route_request(request_bytes.decode())
+            span_key = response.span_key
+            return response.model_dump_json()
+        except UnicodeDecodeError as e:
+            return ResponseDTO(
+                span_key = span_key,
+                status   = Status.PROTOCOL_PARSING_ERROR.value,
+                data     = str(e)
+            ).model_dump_json()
+        except Exception as e: # The response can not be serialised
+            return ResponseDTO(
+                span_key = span_key,
+                status   = Status.UNHANDLED.value,
+                data     = str(e)
+            ).model_dump_json()
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 16f2f96..7323638 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -35,10 +35,10 @@ class StreamServerBase(ServerBase):
                 if bytes_read[0] == self.__ENQ_byte: # The client is asking if we are still connected.
                     await self.__write_data(writer, self.__ACK_response)
                 else:
-                    response_dict = await self._route_request(bytes_read.decode())
+                    response_json = await self._build_response(bytes_read)
                     await self.__write_data(
                         writer,
-                        (response_dict.model_dump_json() + '\n').encode()
+                        (response_json + '\n').encode()
                     )
             except ConnectionResetError:
                 self._logger.info("Connection reset by peer")
-- 
2.43.0


From c5d4c7b153dde6f66c91c215680c4613c636ea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:39 +0000
Subject: [PATCH 13/41] fix: acknowledge enquiries over UDP

---
 ekosis/servers/json/udp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index e1663c1..e237d17 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -33,7 +33,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
     # TODO: find a way to deal with partial bytes read
     def datagram_received(self, bytes_read, addr):
         if bytes_read and bytes_read[-1] == self.__LF_byte:
-            if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
+            if bytes_read[0] == self.__ENQ_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
                 self.loop.create_task(self.do_response(bytes_read, addr))
-- 
2.43.0


From 5aa882dfb04219d218bd6e56115b83afe38f68ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:52 +0000
Subject: [PATCH 14/41] fix: accept request and response lines longer than 64
 KiB

---
 ekosis/clients/client_base.py        | 2 ++
 ekosis/clients/json/persisted_tcp.py | 2 +-
 ekosis/clients/json/persisted_uds.py | 2 +-
 ekosis/clients/json/transient_tcp.py | 2 +-
 ekosis/clients/json/transient_uds.py | 2 +-
 ekosis/servers/json/tcp.py           | 2 +-
 ekosis/servers/json/uds.py           | 2 +-
 ekosis/servers/stream_server_base.py | 2 ++
 8 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 1c19a28..783f238 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -20,6 +20,8 @@ from ..exceptions import (
 
 # --------------------------------------------------------------------------------
 class ClientBase(ABC):
+    _LINE_LIMIT: int = 64 * 1024 * 1024 # Longest response line. The asyncio default of 64 KiB fails the call.
+
     def __init__(
         self,
         max_retries: int   = 3,
diff --git a/ekosis/clients/json/persisted_tcp.py b/ekosis/clients/json/persisted_tcp.py
index a32975d..3ddd50b 100644
--- a/ekosis/clients/json/persisted_tcp.py
+++ b/ekosis/clients/json/persisted_tcp.py
@@ -20,4 +20,4 @@ class PersistedTCPClient(PersistentStreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_connection(self.server_host, self.server_port)
+        return await asyncio.open_connection(self.server_host, self.server_port, limit=self._LINE_LIMIT)
diff --git a/ekosis/clients/json/persisted_uds.py b/ekosis/clients/json/persisted_uds.py
index bd77019..e048a76 100644
--- a/ekosis/clients/json/persisted_uds.py
+++ b/ekosis/clients/json/persisted_uds.py
@@ -24,7 +24,7 @@ class PersistedUDSClient(PersistentStreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_unix_connection(self.server_path)
+        return await asyncio.open_unix_connection(self.server_path, limit=self._LINE_LIMIT)
 
     # --------------------------------------------------------------------------------
     async def send_message(
diff --git a/ekosis/clients/json/transient_tcp.py b/ekosis/clients/json/transient_tcp.py
index ca4c564..d7d3a68 100644
--- a/ekosis/clients/json/transient_tcp.py
+++ b/ekosis/clients/json/transient_tcp.py
@@ -19,4 +19,4 @@ class TransientTCPClient(StreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_connection(self.server_host, self.server_port)
+        return await asyncio.open_connection(self.server_host, self.server_port, limit=self._LINE_LIMIT)
diff --git a/ekosis/clients/json/transient_uds.py b/ekosis/clients/json/transient_uds.py
index 569c6d3..051aa2d 100644
--- a/ekosis/clients/json/transient_uds.py
+++ b/ekosis/clients/json/transient_uds.py
@@ -23,7 +23,7 @@ class TransientUDSClient(StreamClientBase):
 
     # --------------------------------------------------------------------------------
     async def open_connection(self) -> Tuple[asyncio.StreamReader, asyncio.StreamWriter]:
-        return await asyncio.open_unix_connection(self.server_path)
+        return await asyncio.open_unix_connection(self.server_path, limit=self._LINE_LIMIT)
 
     # --------------------------------------------------------------------------------
     async def send_message(
diff --git a/ekosis/servers/json/tcp.py b/ekosis/servers/json/tcp.py
index 17cdc39..ab4339b 100644
--- a/ekosis/servers/json/tcp.py
+++ b/ekosis/servers/json/tcp.py
@@ -36,7 +36,7 @@ class TCPServer(StreamServerBase):
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-        self._server   = await asyncio.start_server(self._handle_request, self.host, self.port)
+        self._server   = await asyncio.start_server(self._handle_request, self.host, self.port, limit=self._LINE_LIMIT)
         serving_address = self._server.sockets[0].getsockname()
         self._logger.info(f'Serving TCP on {serving_address}')
 
diff --git a/ekosis/servers/json/uds.py b/ekosis/servers/json/uds.py
index 30fe199..e2808a7 100644
--- a/ekosis/servers/json/uds.py
+++ b/ekosis/servers/json/uds.py
@@ -41,7 +41,7 @@ class UDSServer(StreamServerBase):
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-        self._server   = await asyncio.start_unix_server(self._handle_request, self.__server_path)
+        self._server   = await asyncio.start_unix_server(self._handle_request, self.__server_path, limit=self._LINE_LIMIT)
         serving_address = self._server.sockets[0].getsockname()
         self._logger.info(f'Serving UDS on {serving_address}')
 
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 7323638..5204e4b 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -4,6 +4,8 @@ from .server_base import ServerBase
 
 # --------------------------------------------------------------------------------
 class StreamServerBase(ServerBase):
+    _LINE_LIMIT: int = 64 * 1024 * 1024 # Longest request line. The asyncio default of 64 KiB kills the connection.
+
     def __init__(self):
         super().__init__()
         self._server       : asyncio.Server = None
-- 
2.43.0


From 0f0bbcfee6a7c544179ca9e2974e0a86aea9a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:50 +0000
Subject: [PATCH 15/41] fix: persistent clients never take a late or foreign
 line for the response to a request

---
 .../clients/persistent_stream_client_base.py  | 71 +++++++++----------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index e5f0690..7b92666 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -34,8 +34,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         self.__heartbeat_time   : float                = heartbeat_period
         self.__connected        : bool                 = False
         self.__last_send        : float                = 0
-        self.__read_lock        : asyncio.Lock         = asyncio.Lock()
-        self.__write_lock       : asyncio.Lock         = asyncio.Lock()
+        self.__exchange_lock    : asyncio.Lock         = asyncio.Lock()
         self.__reader           : asyncio.StreamReader = None
         self.__writer           : asyncio.StreamWriter = None
         self.__heartbeat_task   : asyncio.Task         = None
@@ -47,6 +46,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def close_connection(self):
+        self.__connected = False
         self.__writer.close()
         await self.__writer.wait_closed()
 
@@ -57,32 +57,38 @@ class PersistentStreamClientBase(ClientBase, ABC):
             self.__connected = True
 
     # --------------------------------------------------------------------------------
-    async def __do_write(self, data: bytes):
-        async with self.__write_lock:
-            self.__writer.write(data)
+    def __disconnect(self):
+        self.__connected = False
+        if self.__writer is not None:
+            self.__writer.close()
 
     # --------------------------------------------------------------------------------
-    async def __do_read(self) -> bytes:
-        async with self.__read_lock:
-            return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+    # One request at a time: The next line on the connection has to be the response to the
+    # request we just wrote. When that line does not arrive, for whatever reason, it could still
+    # arrive later. So the connection can't be used for another request, and we drop it.
+    async def __exchange(self, data: bytes) -> bytes:
+        async with self.__exchange_lock:
+            try:
+                await self.__check_connected()
+                self.__writer.write(data)
+                response = await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+                if not response or response[-1] != self.__LF_byte:
+                    raise CommunicationsEmptyResponse()
+                return response
+            except BaseException:
+                self.__disconnect()
+                raise
 
     # --------------------------------------------------------------------------------
     async def __do_heartbeat(self):
         try:
-            await self.__check_connected() # check if we did connect in the past
-        except ConnectionRefusedError as e:
+            data = await self.__exchange(self.__ENQ_request)
+        except Exception as e: # Re-connecting is up to the next request or heartbeat.
+            log.info(f"Heartbeat failed: {type(e)}: {str(e)}")
             return
 
-        await self.__do_write(self.__ENQ_request)
-
-        data = await self.__do_read()
-
-        if (
-            not data or
-            data[-1] != self.__LF_byte or
-            data[0]  != self.__ACK_byte
-        ):
-            self.__connected = False
+        if data[0] != self.__ACK_byte:
+            self.__disconnect()
         else:
             self.__last_send = time.time()
 
@@ -102,18 +108,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        try:
-            await self.__check_connected()
-        except ConnectionRefusedError as e:
-            raise e
-
-        await self.__do_write(request.encode())
-
-        data = await self.__do_read()
-        if not data or data[-1] != self.__LF_byte:
-            self.__connected = False
-            raise CommunicationsEmptyResponse()
-
+        data             = await self.__exchange(request.encode())
         self.__last_send = time.time()
         response_str = data.decode()
         return response_str
@@ -137,16 +132,14 @@ class PersistentStreamClientBase(ClientBase, ABC):
                 response_str = await self._send_message(request)
                 self.success = True
                 return response_str
-            except (TimeoutError, asyncio.TimeoutError):
-                retry_count = await self.__do_retry_logic(retry_count)
             except (
-                ConnectionResetError,   # These are retryable exceptions.
-                ConnectionAbortedError, # But they mean the connection is broken.
-                BrokenPipeError,        # So we have to re-connect.
+                TimeoutError,           # These are retryable exceptions.
+                asyncio.TimeoutError,   # But the connection can't be used any more.
+                ConnectionResetError,   # So the retry is on a new connection.
+                ConnectionAbortedError,
+                BrokenPipeError,
                 CommunicationsEmptyResponse
             ):
-                self.__connected = False
-                await self.__check_connected()
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
-- 
2.43.0


From 4aac16918ed3241215bfcd05263f1c3827a9662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 16/41] fix: UDP client never takes a late datagram for the
 response to another request

---
 ekosis/clients/datagram_client_base.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ecc4e0b..3121180 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -23,7 +23,7 @@ class DatagramProtocolClient(asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     def datagram_received(self, data: bytes, address: tuple[str, int]) -> None:
-        if self.response:
+        if self.response and not self.response.done():
             self.response.set_result(data.decode())
             self.response = None
 
@@ -58,16 +58,21 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, message: str) -> str:
-        if not self.initialised:
-            self.loop            = asyncio.get_running_loop()
-            self.transport, self.protocol = await self.loop.create_datagram_endpoint(
-                lambda: DatagramProtocolClient(self.timeout),
-                remote_addr=(self.server_host, self.server_port)
-            )
-            self.initialised = True
-
         async with self.send_lock:
-            return await self.protocol.send_message(message)
+            if not self.initialised:
+                self.loop            = asyncio.get_running_loop()
+                self.transport, self.protocol = await self.loop.create_datagram_endpoint(
+                    lambda: DatagramProtocolClient(self.timeout),
+                    remote_addr=(self.server_host, self.server_port)
+                )
+                self.initialised = True
+
+            try:
+                return await self.protocol.send_message(message)
+            except BaseException: # A late response to this message, must not be taken for the response to another.
+                self.initialised = False
+                self.transport.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From cc5fb387e1179160dd78831ef7972d148c11b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:00 +0000
Subject: [PATCH 17/41] fix: calls sharing a client do not end each other's
 retries

---
 ekosis/clients/persistent_stream_client_base.py | 2 +-
 ekosis/clients/stream_client_base.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 7b92666..27f6ce4 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -127,7 +127,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         await self.__check_heartbeat_task()
 
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index f75c95f..7c77c5b 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -47,7 +47,7 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
-- 
2.43.0


From 3f889cf04ccf011cf4b1f7d442d630443b4a41d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:31 +0000
Subject: [PATCH 18/41] fix: transient clients reject partial responses, keep
 answers received before a reset and close their connections

---
 ekosis/clients/stream_client_base.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index 7c77c5b..72c6f35 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -16,6 +16,8 @@ log = logging.getLogger()
 
 # --------------------------------------------------------------------------------
 class StreamClientBase(ClientBase, ABC):
+    __LF_byte: int = 10 # Decimal 10 = Ascii LF (line feed) character = '\n'
+
     def __init__(
         self,
         timeout    : float = 5,
@@ -33,16 +35,16 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
         reader, writer = await self.open_connection()
-        writer.write(request.encode())
+        try:
+            writer.write(request.encode())
 
-        data = await asyncio.wait_for(reader.readline(), self.__timeout)
-        if not data:
-            raise CommunicationsEmptyResponse()
+            data = await asyncio.wait_for(reader.readline(), self.__timeout)
+            if not data or data[-1] != self.__LF_byte: # Nothing, or only a part of the response.
+                raise CommunicationsEmptyResponse()
 
-        response_str = data.decode()
-        writer.close()
-        await writer.wait_closed()
-        return response_str
+            return data.decode()
+        finally:
+            writer.close()
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From 38ab7cbdc0dcae2b397ceb479017f60606cb72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:52 +0000
Subject: [PATCH 19/41] fix: report client denied responses as
 ClientDeniedException

---
 ekosis/clients/client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 783f238..41e7084 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -44,7 +44,7 @@ class ClientBase(ABC):
             return ProtocolParsingException(str(request.data))
 
         if request.status == Status.CLIENT_DENIED.value:
-            return ClientDeniedException(str(request.data.json()))
+            return ClientDeniedException(str(request.data))
 
         if request.status == Status.PYDANTIC_VALIDATION_ERROR.value:
             return PydanticValidationException(str(request.data))
-- 
2.43.0


From 8717d88c709ae182cbe1014fea49738fe1ff2363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:33 +0000
Subject: [PATCH 20/41] fix: percentiles lie within the observed response times

---
 ekosis/state_keepers/statistics_keeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/state_keepers/statistics_keeper.py b/ekosis/state_keepers/statistics_keeper.py
index eaa5450..5c405e9 100644
--- a/ekosis/state_keepers/statistics_keeper.py
+++ b/ekosis/state_keepers/statistics_keeper.py
@@ -37,7 +37,7 @@ class StatisticsKeeper(metaclass=SingletonType):
         for key, duration_list in self.__endpoint_durations.items():
             if len(duration_list) >= 2:
                 sorted_durations = sorted(duration_list)
-                quantiles        = statistics.quantiles(sorted_durations, n=100)
+                quantiles        = statistics.quantiles(sorted_durations, n=100, method='inclusive')
                 p95              = quantiles[94]
                 p99              = quantiles[98]
                 retval[key]      = (p95, p99)
-- 
2.43.0


From 4b29043df3dd740fcdcaa0e756c9ba51f9b1659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:37 +0000
Subject: [PATCH 21/41] fix: clearing a negative number of errors does not add
 errors

---
 ekosis/state_keepers/error_state_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/state_keepers/error_state_keeper.py b/ekosis/state_keepers/error_state_keeper.py
index 68eec26..31e7dae 100644
--- a/ekosis/state_keepers/error_state_keeper.py
+++ b/ekosis/state_keepers/error_state_keeper.py
@@ -24,6 +24,8 @@ class ErrorStateKeeper:
         self._error_count += 1
 
     def clear_some(self, how_many: int):
+        if how_many < 0: # Clearing never adds errors.
+            return
         if self._error_count >= how_many:
             self._error_count = self._error_count - how_many
         else:
-- 
2.43.0


From 8418c6adbd2eae2b29cb15080cfaf5799d3c2a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 22/41] fix: reject malformed request keys instead of reading
 them as some other key

---
 ekosis/data_transfer_objects/json_protocol.py | 2 +-
 ekosis/data_transfer_objects/span_id.py       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ekosis/data_transfer_objects/json_protocol.py b/ekosis/data_transfer_objects/json_protocol.py
index deb5baf..d097788 100644
--- a/ekosis/data_transfer_objects/json_protocol.py
+++ b/ekosis/data_transfer_objects/json_protocol.py
@@ -26,7 +26,7 @@ class SpanKey(PydanticBaseModel):
         trace_id_hex = data[:trace_id_end]
         span_id_hex  = data[trace_id_end+1:]
         return cls(
-            trace_id = uuid.UUID(hex = trace_id_hex),
+            trace_id = trace_id_hex, # Pydantic is strict, uuid.UUID also takes signs, spaces and underscores.
             span_id  = SpanId(hex_ = span_id_hex)
         )
 
diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index dfe914b..3aeca89 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -1,4 +1,5 @@
 import os
+import string
 
 from pydantic_core import core_schema
 
@@ -20,7 +21,7 @@ class SpanId:
             int_ = int.from_bytes(bytes_, 'big')  # big endian
 
         if hex_ is not None:
-            if len(hex_) != 16:
+            if len(hex_) != 16 or not all(c in string.hexdigits for c in hex_):
                 raise ValueError('badly formed hexadecimal SpanId string')
             int_ = int(hex_, 16)
 
-- 
2.43.0


From 9e4e546ff77ef2e8f2e7fb375f2fe5cd73ab6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:29 +0000
Subject: [PATCH 23/41] fix: format log records when they are logged, not when
 the log buffer is flushed

---
 ekosis/logs/buffered_rotating_file_handler.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index c9073ef..ba454d8 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -1,3 +1,5 @@
+import copy
+
 from logging.handlers import RotatingFileHandler, BufferingHandler
 
 # --------------------------------------------------------------------------------
@@ -27,8 +29,20 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def set_buffer_size(self, buffer_size):
         self.capacity = buffer_size
 
-    def setFormatter(self, formatter):
-        self.rotating_file_handler.setFormatter(formatter)
+    # Records are formatted when they are logged. By the time the buffer is flushed, the request
+    # they belong to, is no longer the current one. And their arguments could have changed.
+    def emit(self, record):
+        try:
+            formatted_record            = copy.copy(record)
+            formatted_record.msg        = self.format(record)
+            formatted_record.args       = None
+            formatted_record.exc_info   = None
+            formatted_record.exc_text   = None
+            formatted_record.stack_info = None
+        except Exception:
+            self.handleError(record)
+            return
+        super().emit(formatted_record)
 
     def flush(self):
         for record in self.buffer:
-- 
2.43.0


From 86cee82a9d277766bd806d7711b926d1ea7543e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:29 +0000
Subject: [PATCH 24/41] fix: background tasks do not log under the request that
 started them

---
 ekosis/clients/persistent_stream_client_base.py | 4 +++-
 ekosis/requests/buffered_handler_base.py        | 4 +++-
 ekosis/sending/buffered_sender_base.py          | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 27f6ce4..e5493a4 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -1,5 +1,6 @@
 import time
 import asyncio
+import contextvars
 import logging
 
 from abc import ABC, abstractmethod
@@ -104,7 +105,8 @@ class PersistentStreamClientBase(ClientBase, ABC):
     async def __check_heartbeat_task(self):
         if self.__heartbeat_task is None or self.__heartbeat_task.done():
             loop = asyncio.get_event_loop()
-            self.__heartbeat_task = loop.create_task(self.__heartbeat_check())
+            # With a context of its own. The task outlives the request that happened to start it.
+            self.__heartbeat_task = loop.create_task(self.__heartbeat_check(), context=contextvars.Context())
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 29b554a..9f21f10 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -1,4 +1,5 @@
 import asyncio
+import contextvars
 import copy
 import logging
 
@@ -226,7 +227,8 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     def __check_process_queue(self):
         if self.__process_queue_task is None or self.__process_queue_task.done():
-            self.__process_queue_task = asyncio.create_task(self._process_queue())
+            # With a context of its own. The task outlives the request that happened to start it.
+            self.__process_queue_task = asyncio.create_task(self._process_queue(), context=contextvars.Context())
 
     # --------------------------------------------------------------------------------
     async def run(self, **kwargs) -> PydanticBaseModel:
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 005e4e7..aaac20f 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -1,4 +1,5 @@
 import asyncio
+import contextvars
 import logging
 
 from typing import Type, TypeVar, Generic, List
@@ -61,7 +62,8 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     def __check_process_send_queue(self):
         if self.__send_process_task is None or self.__send_process_task.done():
-            self.__send_process_task = asyncio.create_task(self.__process_send_queue())
+            # With a context of its own. The task outlives the request that happened to start it.
+            self.__send_process_task = asyncio.create_task(self.__process_send_queue(), context=contextvars.Context())
 
     # --------------------------------------------------------------------------------
     def shut_down(self):
-- 
2.43.0


From 34e952450c67b27a089047993ac669e811963fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:53 +0000
Subject: [PATCH 25/41] fix: route requests by the route key middleware left in
 them

---
 ekosis/requests/request_router.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ekosis/requests/request_router.py b/ekosis/requests/request_router.py
index 378aa97..024c7c3 100644
--- a/ekosis/requests/request_router.py
+++ b/ekosis/requests/request_router.py
@@ -59,7 +59,9 @@ class RequestRouter(metaclass=SingletonType):
             kwargs["protocol_dto"]  = protocol_dto
             middleware_protocol_dto = await self.__middleware_manager.run_before_routing(**kwargs) # Middleware before routing
             kwargs["protocol_dto"]  = middleware_protocol_dto
-            kwargs["response_dto"]  = await self.__routing_table[protocol_dto.route_key].attempt_request(**kwargs)
+            if middleware_protocol_dto.route_key not in self.__routing_table.keys(): # Middleware can replace the route key too.
+                raise UnknownRouteKeyException(middleware_protocol_dto.route_key)
+            kwargs["response_dto"]  = await self.__routing_table[middleware_protocol_dto.route_key].attempt_request(**kwargs)
             kwargs["protocol_dto"]  = middleware_protocol_dto
             response                = await self.__middleware_manager.run_after_routing(**kwargs)  # Middleware after routing
             return response
-- 
2.43.0


From 2b2da81b43393a258dc13ea384fc25fb868a9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:31 +0000
Subject: [PATCH 26/41] fix: apply the configured log level

---
 ekosis/logs/logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index eac2150..3f684d1 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -88,6 +88,7 @@ class EcoLogger(metaclass=SingletonType):
             self.__setup_console_logging()
 
         self.__logger.setLevel(self.__level)
+        self.set_level(self.__log_config.level)
         # This switches asyncio logging to level WARNING
         # logging.getLogger('asyncio').setLevel(logging.WARNING)
 
-- 
2.43.0


From c04c3a832438d959da53e9bffcf74679e290f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:31 +0000
Subject: [PATCH 27/41] fix: reducing the log buffer size writes the records
 that no longer fit

---
 ekosis/logs/buffered_rotating_file_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index ba454d8..f3312c8 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -28,6 +28,8 @@ class BufferedRotatingFileHandler(BufferingHandler):
 
     def set_buffer_size(self, buffer_size):
         self.capacity = buffer_size
+        if len(self.buffer) >= self.capacity:
+            self.flush()
 
     # Records are formatted when they are logged. By the time the buffer is flushed, the request
     # they belong to, is no longer the current one. And their arguments could have changed.
-- 
2.43.0


From 95e848bda8af2cf8257f4a5bbe7f2ea5e80b9e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:40 +0000
Subject: [PATCH 28/41] fix: lock files of processes of other users are
 respected, damaged ones do not block

---
 ekosis/application_base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9bd3a49..688c06c 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -130,9 +130,13 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     @staticmethod
     def __process_id_check(process_id: int) -> bool:
+        if process_id <= 0: # Not a process, os.kill() takes these for process groups.
+            return False
         try:
             os.kill(process_id, 0)
-        except OSError:
+        except PermissionError: # It runs, for another user.
+            return True
+        except (OSError, OverflowError):
             return False
         return True
 
@@ -148,8 +152,11 @@ class ApplicationBase(metaclass=SingletonType):
         lock_file_name  = f"{self._configuration.name}-{self._configuration.instance}.lock"
         lock_file_path  = f"{self._configuration.lock_directory}/{lock_file_name}"
         if os.path.exists(lock_file_path):
-            with open(lock_file_path, "r") as lock_file:
-                process_id = int(lock_file.readline())
+            try:
+                with open(lock_file_path, "r") as lock_file:
+                    process_id = int(lock_file.readline())
+            except ValueError: # Left empty or damaged by a crash, it names no process.
+                process_id = 0
             if self.__process_id_check(process_id):
                 raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
             os.remove(lock_file_path)
-- 
2.43.0


From 4b3e6ff8fff7787ae02258c6854668643fc950ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:07 +0000
Subject: [PATCH 29/41] fix: requests under way with the same span key each get
 their own trace span

---
 .../ekosis_otlp_traces/buffered_middleware.py      | 12 ++++++++----
 .../ekosis_otlp_traces/middleware.py               | 14 ++++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
index 0d6701e..b0432d2 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
@@ -1,3 +1,4 @@
+from contextvars         import ContextVar
 from opentelemetry       import trace
 from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags
 from pydantic            import BaseModel as PydanticBaseModel
@@ -9,11 +10,13 @@ from .middleware import OtlpTracingMiddleware
 
 _RECEIVE_SPAN_ID_KEY = "otlp_receive_span_id"
 
+# The span of the attempt the current task is busy with.
+_process_span = ContextVar("otlp_process_span", default=None)
+
 # --------------------------------------------------------------------------------
 class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
     def __init__(self, tracing_middleware: OtlpTracingMiddleware):
-        self._tracing       = tracing_middleware
-        self._process_spans = {}
+        self._tracing = tracing_middleware
 
     # --------------------------------------------------------------------------------
     async def before_push(self, span_key: SpanKey, dto: PydanticBaseModel) -> dict:
@@ -40,11 +43,12 @@ class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
         span.set_attribute("request.trace_id", str(span_key.trace_id))
         span.set_attribute("request.span_id",  str(span_key.span_id))
         span.set_attribute("request.retries",  retries)
-        self._process_spans[span_key] = span
+        _process_span.set(span)
 
     # --------------------------------------------------------------------------------
     async def after_process(self, span_key: SpanKey, dto: PydanticBaseModel, metadata: dict, success: bool) -> None:
-        span = self._process_spans.pop(span_key, None)
+        span = _process_span.get()
         if span:
+            _process_span.set(None)
             span.set_attribute("process.success", success)
             span.end()
diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
index 9e8524b..028f6f2 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
@@ -1,3 +1,4 @@
+from contextvars                               import ContextVar
 from opentelemetry                             import trace
 from opentelemetry.sdk.trace                   import TracerProvider
 from opentelemetry.sdk.trace.export            import BatchSpanProcessor
@@ -10,9 +11,12 @@ from ekosis.middleware.middleware_base         import MiddlewareBase
 from ekosis.data_transfer_objects              import RequestDTO, SpanKey
 from ekosis.configuration.config_models        import AppConfiguration
 
+# The span of the request the current task is busy with. A span key does not identify it: requests that are
+# passed on to other services keep their span key, so several requests with the same one can be under way.
+_active_span = ContextVar("otlp_active_span", default=(None, None))
+
 # --------------------------------------------------------------------------------
 class OtlpTracingMiddleware(MiddlewareBase):
-    _active_spans        = {}
     application_name     = AppConfiguration().name
     application_instance = AppConfiguration().instance
 
@@ -41,17 +45,19 @@ class OtlpTracingMiddleware(MiddlewareBase):
         span.set_attribute("request.trace_id",  str(span_key.trace_id))
         span.set_attribute("request.span_id",   str(span_key.span_id))
         span.set_attribute("request.route_key", protocol_dto.route_key)
-        self._active_spans[span_key] = span
+        _active_span.set((span_key, span))
         return protocol_dto
 
     # --------------------------------------------------------------------------------
     async def after_routing(self, protocol_dto: RequestDTO, response_dto: PydanticBaseModel, **kwargs) -> PydanticBaseModel:
-        span = self._active_spans.pop(protocol_dto.span_key, None)
+        span = self.get_active_span(protocol_dto.span_key)
         if span:
+            _active_span.set((None, None))
             span.set_status(StatusCode.OK)
             span.end()
         return response_dto
 
     # --------------------------------------------------------------------------------
     def get_active_span(self, span_key: SpanKey):
-        return self._active_spans.get(span_key)
+        active_span_key, span = _active_span.get()
+        return span if active_span_key == span_key else None
-- 
2.43.0


From c7073dfbd16bef3188ded17b27eb846189285e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:28 +0000
Subject: [PATCH 30/41] fix: the tracing set up can be imported from the
 installed package

---
 ekosis_otlp_traces/ekosis_otlp_traces/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
index 701984e..18b6c58 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
@@ -1,8 +1,8 @@
 from ekosis.configuration.config_models                          import AppConfiguration
 from ekosis.middleware.manager                                   import MiddlewareManager
 from ekosis.middleware.buffered_middleware_manager               import BufferedMiddlewareManager
-from ekosis_otlp_traces.ekosis_otlp_traces.middleware            import OtlpTracingMiddleware
-from ekosis_otlp_traces.ekosis_otlp_traces.buffered_middleware   import OtlpBufferedTracingMiddleware
+from .middleware                                                 import OtlpTracingMiddleware
+from .buffered_middleware                                        import OtlpBufferedTracingMiddleware
 
 # --------------------------------------------------------------------------------
 def initiate_otlp_tracing():
-- 
2.43.0


From b3ac1055468e783f6edd6ac8f2bbd8245a798b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:03 +0000
Subject: [PATCH 31/41] fix: statistics of endpoints are exported however many
 parts their route keys have

---
 .../ekosis_prometheus/stats_translator.py     | 74 ++++++++++---------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/stats_translator.py b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
index 9af7e92..e3333d0 100644
--- a/ekosis_prometheus/ekosis_prometheus/stats_translator.py
+++ b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
@@ -17,6 +17,22 @@ def _flatten(obj: Any, prefix: str) -> Generator[Tuple[str, float], None, None]:
         yield prefix, float(obj)
 
 
+# --------------------------------------------------------------------------------
+def _iter_endpoints(
+    tree          : Dict,
+    fields        : Set[str],
+    exclude_groups: Set[str],
+    path          : Tuple[str, ...] = (),
+) -> Generator[Tuple[str, str, dict], None, None]:
+    # Statistics are nested by the parts of the route key, of which there can be any number.
+    for key, val in tree.items():
+        if not isinstance(val, dict) or (not path and key in exclude_groups):
+            continue
+        if any(not isinstance(val.get(field, {}), dict) for field in fields):
+            yield (path[0], ".".join((*path[1:], key)), val) if path else ("", key, val)
+        yield from _iter_endpoints(val, fields, exclude_groups, (*path, key))
+
+
 # --------------------------------------------------------------------------------
 def _iter_queue_groups(
     queue_data     : Dict,
@@ -24,21 +40,14 @@ def _iter_queue_groups(
     metric_prefix  : str,
     labels         : Dict,
 ) -> Generator[Tuple[str, float, dict], None, None]:
-    for group, endpoints in queue_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, sizes in endpoints.items():
-            if not isinstance(sizes, dict):
-                continue
-            queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
-            pending = sizes.get("pending")
-            if pending is not None:
-                yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
-            error = sizes.get("error")
-            if error is not None:
-                yield f"{metric_prefix}_queue_error", float(error), queue_labels
+    for group, endpoint_name, sizes in _iter_endpoints(queue_data, {"pending", "error"}, exclude_groups):
+        queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
+        pending = sizes.get("pending")
+        if pending is not None and not isinstance(pending, dict):
+            yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
+        error = sizes.get("error")
+        if error is not None and not isinstance(error, dict):
+            yield f"{metric_prefix}_queue_error", float(error), queue_labels
 
 
 # --------------------------------------------------------------------------------
@@ -78,27 +87,20 @@ def translate_gathered_stats(
 
     # endpoint_data -- call_count, p95, p99 per endpoint (user groups only)
     endpoint_data = stats.get("endpoint_data", {})
-    for group, endpoints in endpoint_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, data in endpoints.items():
-            if not isinstance(data, dict):
-                continue
-            endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
-
-            call_count = data.get("call_count")
-            if call_count is not None:
-                yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
-
-            p95 = data.get("p95")
-            if p95 is not None and p95 >= 0:
-                yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
-
-            p99 = data.get("p99")
-            if p99 is not None and p99 >= 0:
-                yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
+    for group, endpoint_name, data in _iter_endpoints(endpoint_data, {"call_count"}, exclude_groups):
+        endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
+
+        call_count = data.get("call_count")
+        if call_count is not None:
+            yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
+
+        p95 = data.get("p95")
+        if p95 is not None and p95 >= 0:
+            yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
+
+        p99 = data.get("p99")
+        if p99 is not None and p99 >= 0:
+            yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
 
     # buffered endpoint queues
     yield from _iter_queue_groups(
-- 
2.43.0


From dce35ab4d9f1638c1f6daf9a557ef81a73008f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:03 +0000
Subject: [PATCH 32/41] fix: services with the default unix socket file name
 are found where they listen

---
 ekosis_prometheus/ekosis_prometheus/service_discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis_prometheus/ekosis_prometheus/service_discovery.py b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
index 92a7172..6ac8ba6 100644
--- a/ekosis_prometheus/ekosis_prometheus/service_discovery.py
+++ b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
@@ -59,6 +59,8 @@ def discover_local_services() -> List[DiscoveredService]:
             name, instance = _parse_name_instance(raw_name)
 
             if protocol == "UDS":
+                if os.path.basename(value) == "DEFAULT": # The same default as the service itself uses.
+                    value = os.path.join(os.path.dirname(value), f"{name}_{instance}.uds.sock")
                 services.append(DiscoveredService(
                     name     = name,
                     instance = instance,
-- 
2.43.0


From caf4655d238215d34920d213f6ec43442d75ddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:03 +0000
Subject: [PATCH 33/41] fix: a service that answers over one of its protocols
 is healthy

---
 ekosis_prometheus/ekosis_prometheus/scraper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/scraper.py b/ekosis_prometheus/ekosis_prometheus/scraper.py
index 568bcc7..2bab5a1 100644
--- a/ekosis_prometheus/ekosis_prometheus/scraper.py
+++ b/ekosis_prometheus/ekosis_prometheus/scraper.py
@@ -90,6 +90,7 @@ class EkosisPrometheusScraper:
             registry = registry,
         )
         gauges["ekosis_service_health"] = health_gauge
+        answered = set()
 
         for target in self._targets:
             if target.sender is None:
@@ -107,6 +108,7 @@ class EkosisPrometheusScraper:
                 svc_name = app.get("name",     target.service.name)
                 svc_inst = app.get("instance", target.service.instance)
                 health_gauge.labels(service=svc_name, instance=svc_inst).set(1)
+                answered.add((svc_name, svc_inst))
 
                 for metric_name, value, labels in translate_gathered_stats(stats, svc_name, svc_inst):
                     if metric_name not in gauges:
@@ -116,7 +118,8 @@ class EkosisPrometheusScraper:
 
             except Exception as e:
                 target.healthy = False
-                health_gauge.labels(service=target.service.name, instance=target.service.instance).set(0)
+                if (target.service.name, target.service.instance) not in answered: # Over another protocol.
+                    health_gauge.labels(service=target.service.name, instance=target.service.instance).set(0)
                 log.warning(f"Failed to scrape [{target.key}]: {e}")
 
         try:
-- 
2.43.0


From aefb85d7df9ad9695d3ca085b2e533e43682c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:28 +0000
Subject: [PATCH 34/41] fix: the first part of a custom statistic's name is
 made a valid metric name like the others

---
 ekosis_prometheus/ekosis_prometheus/stats_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/stats_translator.py b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
index e3333d0..c57129b 100644
--- a/ekosis_prometheus/ekosis_prometheus/stats_translator.py
+++ b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
@@ -131,5 +131,5 @@ def translate_gathered_stats(
     for key, val in stats.items():
         if key in known_keys:
             continue
-        for metric_suffix, metric_val in _flatten(val, key):
+        for metric_suffix, metric_val in _flatten({key: val}, ""):
             yield f"ekosis_custom_{metric_suffix}", metric_val, labels
-- 
2.43.0


From 3b2f5efed4ca2b4931e1b348274da904d37c7173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:00 +0000
Subject: [PATCH 35/41] fix: the log shipper skips lines that are not log
 records, instead of ending on them

---
 ekosis_log_shipper/src/main.cpp          |  2 ++
 ekosis_log_shipper/src/otlp_envelope.cpp | 11 +++++++++++
 ekosis_log_shipper/src/otlp_envelope.hpp |  5 +++++
 3 files changed, 18 insertions(+)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 6d0b7bd..86c7512 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -102,6 +102,8 @@ int main(int argc, char** argv) {
         for (auto& [path, wf] : watched) {
             if (wf.undelivered.empty()) {
                 wf.undelivered = wf.tracked->poll();
+                // A line nothing can be made of must not hold up all that follow it.
+                std::erase_if(wf.undelivered, [](const std::string& line) { return !is_log_record(line); });
             }
             if (wf.undelivered.empty()) {
                 continue;
diff --git a/ekosis_log_shipper/src/otlp_envelope.cpp b/ekosis_log_shipper/src/otlp_envelope.cpp
index ad5b0f0..4e7b3cd 100644
--- a/ekosis_log_shipper/src/otlp_envelope.cpp
+++ b/ekosis_log_shipper/src/otlp_envelope.cpp
@@ -88,6 +88,17 @@ ResourceInfo extract_resource_info(const std::string& json_line) {
     return info;
 }
 
+// --------------------------------------------------------------------------------
+bool is_log_record(const std::string& json_line) {
+    try {
+        extract_resource_info(json_line);
+        convert_one_record(json::parse(json_line));
+        return true;
+    } catch (const json::exception&) {
+        return false;
+    }
+}
+
 // --------------------------------------------------------------------------------
 std::string build_otlp_logs_payload(const std::vector<std::string>& json_lines, const ResourceInfo& resource) {
     json log_records = json::array();
diff --git a/ekosis_log_shipper/src/otlp_envelope.hpp b/ekosis_log_shipper/src/otlp_envelope.hpp
index 7d9db8a..915877e 100644
--- a/ekosis_log_shipper/src/otlp_envelope.hpp
+++ b/ekosis_log_shipper/src/otlp_envelope.hpp
@@ -17,6 +17,11 @@ struct ResourceInfo {
 // rather than parsing it out of the filename.
 ResourceInfo extract_resource_info(const std::string& json_line);
 
+// False for a line that isn't an ekosis log line, e.g. one cut short by a
+// crash of the application that wrote it. The two functions around this one
+// throw on such lines.
+bool is_log_record(const std::string& json_line);
+
 // Wraps raw OtlpLogRecord JSON lines (one per ekosis log line) into one
 // OTLP/HTTP+JSON logs export payload: resourceLogs -> scopeLogs ->
 // logRecords. Mechanical, fixed shape -- no branching on log content.
-- 
2.43.0


From cc4bc478697572f8111affc1b1acb3159376a438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:00 +0000
Subject: [PATCH 36/41] fix: the log shipper does not resume beyond the end of
 a file

---
 ekosis_log_shipper/src/tracked_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 2908b23..1e2ca6a 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -17,7 +17,9 @@ TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resum
     : _path(std::move(path))
 {
     struct stat path_stat{};
-    if (::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) == resume_inode) {
+    if (::stat(_path.c_str(), &path_stat) == 0
+        && static_cast<uint64_t>(path_stat.st_ino) == resume_inode
+        && static_cast<uint64_t>(path_stat.st_size) >= resume_offset) { // else it's another file, that got the inode number of a deleted one
         open_at_path(resume_offset); // same file we left off on -- resume exactly where we stopped
     } else {
         open_at_path(0); // rotated while we were away -- start the current file from the top
-- 
2.43.0


From 7b8905516eccdf28f6abea1ffd0ebc02087bccdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:00 +0000
Subject: [PATCH 37/41] fix: the log shipper survives files being renamed while
 it opens them

---
 ekosis_log_shipper/src/main.cpp         | 11 ++++++++---
 ekosis_log_shipper/src/tracked_file.cpp |  6 +++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 86c7512..fa00ca6 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -69,9 +69,14 @@ int main(int argc, char** argv) {
         }
         auto         resume = state_store.load(path);
         WatchedFile  wf;
-        wf.tracked = resume
-            ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
-            : std::make_unique<TrackedFile>(path);
+        try {
+            wf.tracked = resume
+                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
+                : std::make_unique<TrackedFile>(path);
+        } catch (const std::runtime_error& e) {
+            std::cerr << "ekosis_log_shipper: " << e.what() << "\n"; // e.g. renamed since the directory was listed -- tried again later
+            return;
+        }
         watched.emplace(path, std::move(wf));
         std::cout << "ekosis_log_shipper: watching " << path << "\n";
     };
diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 1e2ca6a..e4b2035 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -93,7 +93,11 @@ std::vector<std::string> TrackedFile::poll() {
         read_available_lines(lines);
         ::close(_fd);
         _fd = -1;
-        open_at_path(0);
+        try {
+            open_at_path(0);
+        } catch (const std::runtime_error&) {
+            return lines; // renamed again since the stat above -- the next poll opens what is there by then
+        }
     }
 
     read_available_lines(lines);
-- 
2.43.0


From 1ca80a31727a64656049f3c2468c222358f0ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:31 +0000
Subject: [PATCH 38/41] fix: the log shipper resumes in the file it compared
 with its state, not in one renamed there since

---
 ekosis_log_shipper/src/tracked_file.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index e4b2035..3bfc881 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -16,13 +16,14 @@ TrackedFile::TrackedFile(std::string path)
 TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset)
     : _path(std::move(path))
 {
-    struct stat path_stat{};
-    if (::stat(_path.c_str(), &path_stat) == 0
-        && static_cast<uint64_t>(path_stat.st_ino) == resume_inode
-        && static_cast<uint64_t>(path_stat.st_size) >= resume_offset) { // else it's another file, that got the inode number of a deleted one
-        open_at_path(resume_offset); // same file we left off on -- resume exactly where we stopped
-    } else {
-        open_at_path(0); // rotated while we were away -- start the current file from the top
+    open_at_path(0); // rotated while we were away -- start the current file from the top
+
+    struct stat file_stat{};
+    if (_inode == resume_inode
+        && ::fstat(_fd, &file_stat) == 0
+        && static_cast<uint64_t>(file_stat.st_size) >= resume_offset) { // else it's another file, that got the inode number of a deleted one
+        ::lseek(_fd, static_cast<off_t>(resume_offset), SEEK_SET); // same file we left off on -- resume exactly where we stopped
+        _offset = resume_offset;
     }
 }
 
-- 
2.43.0


From 62bf5252b4d3d479e884ba91c1788292dcd5d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:17 +0000
Subject: [PATCH 39/41] fix: the buffered sender command line tool uses the
 options it has

Every invocation of ekosis.cli.bsm ended with an AttributeError, because it asked for options of the buffered endpoint tool (and one of neither).
---
 ekosis/cli/bsm.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ekosis/cli/bsm.py b/ekosis/cli/bsm.py
index 1982925..8ff920b 100644
--- a/ekosis/cli/bsm.py
+++ b/ekosis/cli/bsm.py
@@ -25,16 +25,9 @@ command_line_args: argparse.Namespace = argument_parser.parse_args()
 
 # --------------------------------------------------------------------------------
 async def do_sender_action(client: ClientBase, route_key: str):
-    if (command_line_args.pause_receiving   or
-        command_line_args.pause_processing  or
-        command_line_args.unpause_receiving or
-        command_line_args.unpause_processing):
-        print_error(argument_parser, "Pause and UN-Pause for receiving and processing, is only for buffered endpoints!")
-
-    if command_line_args.data or not any_true_check([
-        command_line_args.data,
-        command_line_args.pause_all,
-        command_line_args.unpause_all,
+    if not any_true_check([
+        command_line_args.pause_sending,
+        command_line_args.unpause_sending,
         command_line_args.error_10,
         command_line_args.reprocess_all,
         command_line_args.clear,
@@ -45,10 +38,10 @@ async def do_sender_action(client: ClientBase, route_key: str):
         await EcoBufferedSenderDataSender(client).send(route_key)
         return
 
-    if command_line_args.pause_all:
+    if command_line_args.pause_sending:
         await EcoBufferedSenderSendProcessPauseSender(client).send(route_key)
         return
-    if command_line_args.unpause_all:
+    if command_line_args.unpause_sending:
         await EcoBufferedSenderSendProcessUnPauseSender(client).send(route_key)
         return
     if command_line_args.error_10:
-- 
2.43.0


From d8fb9ce190ac57b4e167c23516199fa537a5b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:32 +0000
Subject: [PATCH 40/41] fix: an application terminated before its buffers are
 set up shuts down cleanly

---
 ekosis/requests/buffered_handler_base.py | 2 +-
 ekosis/sending/buffered_sender_base.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 9f21f10..e2e4d7a 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -166,7 +166,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
-        if not self.running and self.shutdown:
+        if not self.running and self.shutdown and self.queue is not None: # None when shut down before setup.
             route_key = self.get_route_key()
             self.log.info(f"Buffered handler [{route_key}] stopping.")
             self.queue.shut_down()
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index aaac20f..281f299 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -73,7 +73,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
-        if not self.running and self.shutdown:
+        if not self.running and self.shutdown and self.queue is not None: # None when shut down before setup.
             route_key = self.get_route_key()
             self.log.info(f"Buffered sender [{route_key}] stopping.")
             self.queue.shut_down()
-- 
2.43.0


From e385fc1201b834673e5f7333be8919729ded2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:05 +0000
Subject: [PATCH 41/41] fix: being asked to terminate again does not interrupt
 the shutdown

---
 ekosis/application_base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 688c06c..91549c6 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -96,6 +96,12 @@ class ApplicationBase(metaclass=SingletonType):
         for x_signal in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
             signal.signal(x_signal, self.__handle_exit_signal)
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __ignore_signals():
+        for x_signal in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
+            signal.signal(x_signal, signal.SIG_IGN)
+
     # --------------------------------------------------------------------------------
     def __enter__(self):
         self.__setup_signal_handlers()
@@ -104,6 +110,7 @@ class ApplicationBase(metaclass=SingletonType):
 
     # --------------------------------------------------------------------------------
     def __exit__(self, exc_type, exc_val, exc_tb):
+        self.__ignore_signals() # Being asked to terminate again must not interrupt the shutdown.
         if exc_type is not None:
             if not isinstance(exc_val, asyncio.CancelledError) \
                     and not isinstance(exc_val, TerminationSignalException):
@@ -116,6 +123,7 @@ class ApplicationBase(metaclass=SingletonType):
             self.logger.info(f"Shutdown: Application context ending.")
 
         self.__do_shutdown()
+        self.__setup_signal_handlers()
         return True
 
     # --------------------------------------------------------------------------------
-- 
2.43.0

