From 93ae4a3261f4b03764df89c02991819c5f1d4e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 01/54] fix: report the first x span keys across front page,
 database and back page

---
 ekosis/queues/paginated_queue.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 0381fa3..9d23720 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -315,13 +315,21 @@ class PaginatedQueue(Generic[_QueuedType]):
     def is_empty(self) -> int:
         return self.size() == 0
 
-    # TODO: There is a bug with this:
-    #   - When there are fewer then the requested amount of items in the queue.
-    #   - It is currently possible for entries to be spread between front page, database
-    #   - and back page. And this only reports on what is in the front page.
     # --------------------------------------------------------------------------------
     async def get_first_x_span_keys(self, how_many: int = 1) -> List[str]:
-        return self.front_page.get_first_x_span_keys(how_many)
+        retval = self.front_page.get_first_x_span_keys(how_many)
+
+        if len(retval) < how_many:
+            records = self.session.\
+                query(QueueRecord).\
+                order_by(asc(QueueRecord.record_id)).\
+                limit(how_many - len(retval)).all()
+            retval.extend([str(SpanKey.from_bytes(x.span_key)) for x in records])
+
+        if len(retval) < how_many and self.back_page is not self.front_page:
+            retval.extend(self.back_page.get_first_x_span_keys(how_many - len(retval)))
+
+        return retval
 
     # --------------------------------------------------------------------------------
     async def clear(self):
-- 
2.43.0


From 628e88c59f3a99c510c51015bdd412670de4d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:20 +0000
Subject: [PATCH 02/54] fix: keep FIFO order of the back page when it is loaded
 after a restart

---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 9d23720..2d167bb 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -182,7 +182,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
+        for record in reversed(records):
             self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
         self.__delete_record_ids(ids_to_delete)
-- 
2.43.0


From 5c67f3c1a6a74ffb4381c0f1d248665848224863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:35 +0000
Subject: [PATCH 03/54] fix: a buffered request whose processing raises goes to
 the error queue instead of being lost

---
 ekosis/requests/buffered_handler_base.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 6ec200f..27388a9 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -186,14 +186,23 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
             token         = _set_current_span_key(span_key)
             try:
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
-                success = await self.process_buffered_request(span_key = span_key, dto = request_data)
+                error_reason = None
+                try:
+                    success = await self.process_buffered_request(span_key = span_key, dto = request_data)
+                except Exception as e: # Not retryable, the request goes to the error queue.
+                    success      = False
+                    error_reason = str(e)
                 await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
-                if not success:
+                if error_reason is not None:
+                    await self.queue.push_error(span_key, request_data, error_reason, metadata)
+                elif not success:
                     retries += 1
                     if retries >= self.max_retries:
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+            except Exception as e: # Something in the middleware broke, we still may not lose the request.
+                await self.queue.push_error(span_key, request_data, str(e), metadata)
             finally:
                 _reset_current_span_key(token)
 
-- 
2.43.0


From 7879987ba9673e5e6a0b99418d3557a2402f50a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:56 +0000
Subject: [PATCH 04/54] fix: answer server-busy when receiving is paused on a
 buffered endpoint

---
 ekosis/servers/server_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index bd69610..72461d9 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -5,6 +5,7 @@ import timeit
 from pydantic import ValidationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
+from ..requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
 from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..requests.status import Status
@@ -69,6 +70,12 @@ class ServerBase:
                 status   = e.status,
                 data     = e.message
             )
+        except BufferedRequestHandlerExceptionBase as e:
+            return ResponseDTO(
+                span_key = span_key,
+                status   = e.status,
+                data     = str(e)
+            )
         except Exception as e:
             return ResponseDTO(
                 span_key = span_key,
-- 
2.43.0


From e9c43e109cb34031a1e3ddc6ae5c6beebb2ed7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:25 +0000
Subject: [PATCH 05/54] fix: queue a buffered request before acknowledging it,
 so it is neither lost nor left unprocessed

---
 ekosis/requests/buffered_handler_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 27388a9..f57322a 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -9,7 +9,6 @@ from .handler_base import HandlerBase
 from .request_context import _set_current_span_key, _reset_current_span_key
 from .status import Status
 
-from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
 from ..queues.pending_queue import PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -233,7 +232,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
-        fire_and_forget_task(self.queue.push_pending(span_key, dto, 0, metadata))
+        await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
         return response
-- 
2.43.0


From b308e8317b4ccffbaedeadb24ecceaeff6e757ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:59 +0000
Subject: [PATCH 06/54] fix: reprocessing the error queue no longer silently
 resumes a paused buffer

---
 ekosis/requests/buffered_handler_base.py | 6 ++++--
 ekosis/sending/buffered_sender_base.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index f57322a..05274f6 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -103,16 +103,18 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused              = self._processing_paused
         self._processing_paused = True
         await self.queue.move_all_error_to_pending()
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
+        was_paused              = self._processing_paused
         self._processing_paused = True
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
         if not buffered_request:
             return None
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index c6e5c84..017c9a9 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -155,16 +155,18 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused           = self._sending_paused
         self._sending_paused = True
         await self.queue.move_all_error_to_pending()
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
+        was_paused           = self._sending_paused
         self._sending_paused = True
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
         if not buffered_request:
             return None
-- 
2.43.0


From 985811f48b5434b590d5a8a01ca78f6785a44bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:35 +0000
Subject: [PATCH 07/54] fix: a request in progress when the application
 terminates stays queued for the next run

---
 ekosis/requests/buffered_handler_base.py | 3 +++
 ekosis/sending/buffered_sender_base.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 05274f6..07cb28e 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -202,6 +202,9 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+            except asyncio.CancelledError: # The application is terminating, the next run has to deal with this request.
+                await self.queue.push_pending(span_key, request_data, retries, metadata)
+                raise
             except Exception as e: # Something in the middleware broke, we still may not lose the request.
                 await self.queue.push_error(span_key, request_data, str(e), metadata)
             finally:
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 017c9a9..97cdc9f 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -100,6 +100,9 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                     await self.queue.push_error(span_key, request_data, "Max retries reached.")
                 else:
                     await self.queue.push_pending(span_key, request_data, retries)
+            except asyncio.CancelledError: # The application is terminating, the next run has to send this message.
+                await self.queue.push_pending(span_key, request_data, retries)
+                raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
 
-- 
2.43.0


From 0ef34e3f93690450343a9176331c16425f9951b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:44 +0000
Subject: [PATCH 08/54] fix: a queued request that no longer validates goes to
 the error queue instead of being lost

---
 ekosis/requests/buffered_handler_base.py | 5 +++--
 ekosis/sending/buffered_sender_base.py   | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 07cb28e..d4430f2 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -181,11 +181,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         while not self._processing_paused and await self.queue.has_pending():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self.request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             metadata      = buffered_item.metadata
             token         = _set_current_span_key(span_key)
             try:
+                request_data = self.request_dto_type(**buffered_item.data)
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
                 error_reason = None
                 try:
@@ -205,7 +206,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
             except asyncio.CancelledError: # The application is terminating, the next run has to deal with this request.
                 await self.queue.push_pending(span_key, request_data, retries, metadata)
                 raise
-            except Exception as e: # Something in the middleware broke, we still may not lose the request.
+            except Exception as e: # The queued data or the middleware is broken, we still may not lose the request.
                 await self.queue.push_error(span_key, request_data, str(e), metadata)
             finally:
                 _reset_current_span_key(token)
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 97cdc9f..1e7e465 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -88,9 +88,10 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         while not self._sending_paused and self.queue.pending_q.size():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self._request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             try:
+                request_data = self._request_dto_type(**buffered_item.data)
                 if self.wait_period > 0:
                     await asyncio.sleep(self.wait_period)
                 await self.send_data(request_data, span_key)
-- 
2.43.0


From f61cbf031040bdf763115ddb96f2280fa32217a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:32 +0000
Subject: [PATCH 09/54] fix: a termination signal terminates the application no
 matter which task it interrupts

---
 ekosis/application_base.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9ec61ce..423c5fd 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -96,6 +96,26 @@ class ApplicationBase(metaclass=SingletonType):
         for x_signal in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
             signal.signal(x_signal, self.__handle_exit_signal)
 
+    # --------------------------------------------------------------------------------
+    # While the event loop is running, an exception raised from within a plain signal handler surfaces
+    # in whatever task happens to be executing at that moment, and stays there. So: have the loop deliver
+    # the signal, and let the main task do the terminating.
+    @staticmethod
+    def __setup_loop_signal_handlers() -> asyncio.Future:
+        loop             = asyncio.get_running_loop()
+        terminate_future = loop.create_future()
+
+        def handle_exit_signal():
+            if not terminate_future.done():
+                terminate_future.set_result(True)
+
+        for x_signal in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
+            try:
+                loop.add_signal_handler(x_signal, handle_exit_signal)
+            except NotImplementedError: # Not every platform has this, the plain signal handler is still in place.
+                pass
+        return terminate_future
+
     # --------------------------------------------------------------------------------
     def __enter__(self):
         self.__setup_signal_handlers()
@@ -277,7 +297,8 @@ class ApplicationBase(metaclass=SingletonType):
 
     # --------------------------------------------------------------------------------
     async def __start(self):
-        tasks = []
+        tasks            = []
+        terminate_future = self.__setup_loop_signal_handlers()
 
         await self.__setup_buffered_handlers()
         await self.__setup_buffered_senders()
@@ -299,4 +320,8 @@ class ApplicationBase(metaclass=SingletonType):
         await self.setup_tasks(tasks)
 
         self.__eco_logger.flush()
-        await asyncio.gather(*tasks)
+        all_tasks = asyncio.gather(*tasks)
+        await asyncio.wait([all_tasks, terminate_future], return_when=asyncio.FIRST_COMPLETED)
+        if terminate_future.done():
+            raise TerminationSignalException("Exit signal received")
+        await all_tasks
-- 
2.43.0


From cfa8570fe54b2ae6abd89a7c7a91dfee9202e154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:51 +0000
Subject: [PATCH 10/54] fix: a failed request without data is found in the
 error queue

---
 ekosis/requests/buffered_handler_base.py | 6 +++---
 ekosis/sending/buffered_sender_base.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index d4430f2..63933ea 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -90,14 +90,14 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
@@ -116,7 +116,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
         self._processing_paused = was_paused
         self.__check_process_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 1e7e465..8175dbb 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -146,14 +146,14 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
@@ -172,7 +172,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
         self._sending_paused = was_paused
         self.__check_process_send_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
-- 
2.43.0


From 9c187b814c4d0d8f6bd5fecaa98022504ba4a90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:56 +0000
Subject: [PATCH 11/54] fix: answer requests that are not UTF-8, or whose
 response cannot be serialised, instead of going silent

---
 ekosis/servers/json/udp.py           |  8 +++-----
 ekosis/servers/server_base.py        | 18 ++++++++++++++++++
 ekosis/servers/stream_server_base.py |  4 ++--
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 9e894f5..b90f049 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -36,8 +36,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                request_data: str = bytes_read.decode()
-                self.loop.create_task(self.do_response(request_data, addr))
+                self.loop.create_task(self.do_response(bytes_read, addr))
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
@@ -65,9 +64,8 @@ class UDPServer(ServerBase):
             self._logger.info(f"Stopping UDP server for {self.host}:{self.port}.")
 
     # --------------------------------------------------------------------------------
-    async def __process_received_data(self, received_data: str):
-        response_dict = await self._route_request(received_data)
-        return response_dict.model_dump_json()
+    async def __process_received_data(self, received_data: bytes) -> str:
+        return await self._respond_to(received_data)
 
     # --------------------------------------------------------------------------------
     async def __create_datagram_listener(self):
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 72461d9..c170054 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -82,3 +82,21 @@ class ServerBase:
                 status   = Status.UNHANDLED.value,
                 data     = str(e)
             )
+
+    # --------------------------------------------------------------------------------
+    async def _respond_to(self, request_bytes: bytes) -> str:
+        try:
+            request_text = request_bytes.decode()
+        except UnicodeDecodeError as e:
+            response = ResponseDTO(status = Status.PROTOCOL_PARSING_ERROR.value, data = str(e))
+        else:
+            response = await self._route_request(request_text)
+
+        try:
+            return response.model_dump_json()
+        except Exception as e: # The response itself can't be serialised. We still owe the client an answer.
+            return ResponseDTO(
+                span_key = response.span_key,
+                status   = Status.UNHANDLED.value,
+                data     = ascii(str(e))
+            ).model_dump_json()
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 16f2f96..244a750 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -35,10 +35,10 @@ class StreamServerBase(ServerBase):
                 if bytes_read[0] == self.__ENQ_byte: # The client is asking if we are still connected.
                     await self.__write_data(writer, self.__ACK_response)
                 else:
-                    response_dict = await self._route_request(bytes_read.decode())
+                    response_text = await self._respond_to(bytes_read)
                     await self.__write_data(
                         writer,
-                        (response_dict.model_dump_json() + '\n').encode()
+                        (response_text + '\n').encode()
                     )
             except ConnectionResetError:
                 self._logger.info("Connection reset by peer")
-- 
2.43.0


From b50b6309e80fe8eccb46a2778b5b7a94742ea441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 12/54] fix: a persisted client never takes a late response for
 the response to another request

---
 .../clients/persistent_stream_client_base.py  | 55 +++++++++----------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index e5f0690..8d647d6 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -34,8 +34,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         self.__heartbeat_time   : float                = heartbeat_period
         self.__connected        : bool                 = False
         self.__last_send        : float                = 0
-        self.__read_lock        : asyncio.Lock         = asyncio.Lock()
-        self.__write_lock       : asyncio.Lock         = asyncio.Lock()
+        self.__exchange_lock    : asyncio.Lock         = asyncio.Lock()
         self.__reader           : asyncio.StreamReader = None
         self.__writer           : asyncio.StreamWriter = None
         self.__heartbeat_task   : asyncio.Task         = None
@@ -57,32 +56,42 @@ class PersistentStreamClientBase(ClientBase, ABC):
             self.__connected = True
 
     # --------------------------------------------------------------------------------
-    async def __do_write(self, data: bytes):
-        async with self.__write_lock:
-            self.__writer.write(data)
+    def __drop_connection(self):
+        self.__connected = False
+        if self.__writer is not None:
+            self.__writer.close()
 
     # --------------------------------------------------------------------------------
-    async def __do_read(self) -> bytes:
-        async with self.__read_lock:
-            return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+    # One request and its response, are one indivisible exchange. When an exchange does not complete,
+    # the response could still arrive later. So we drop the connection, to make sure that the response
+    # is never mistaken for the response to some other request.
+    async def __do_exchange(self, data: bytes) -> bytes:
+        async with self.__exchange_lock:
+            await self.__check_connected()
+            try:
+                self.__writer.write(data)
+                response = await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+            except BaseException:
+                self.__drop_connection()
+                raise
+
+            if not response or response[-1] != self.__LF_byte:
+                self.__drop_connection()
+            return response
 
     # --------------------------------------------------------------------------------
     async def __do_heartbeat(self):
         try:
-            await self.__check_connected() # check if we did connect in the past
-        except ConnectionRefusedError as e:
+            data = await self.__do_exchange(self.__ENQ_request)
+        except (OSError, TimeoutError, asyncio.TimeoutError): # The next send, will try to connect again.
             return
 
-        await self.__do_write(self.__ENQ_request)
-
-        data = await self.__do_read()
-
         if (
             not data or
             data[-1] != self.__LF_byte or
             data[0]  != self.__ACK_byte
         ):
-            self.__connected = False
+            self.__drop_connection()
         else:
             self.__last_send = time.time()
 
@@ -102,16 +111,8 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        try:
-            await self.__check_connected()
-        except ConnectionRefusedError as e:
-            raise e
-
-        await self.__do_write(request.encode())
-
-        data = await self.__do_read()
+        data = await self.__do_exchange(request.encode())
         if not data or data[-1] != self.__LF_byte:
-            self.__connected = False
             raise CommunicationsEmptyResponse()
 
         self.__last_send = time.time()
@@ -132,7 +133,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         await self.__check_heartbeat_task()
 
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
@@ -142,11 +143,9 @@ class PersistentStreamClientBase(ClientBase, ABC):
             except (
                 ConnectionResetError,   # These are retryable exceptions.
                 ConnectionAbortedError, # But they mean the connection is broken.
-                BrokenPipeError,        # So we have to re-connect.
+                BrokenPipeError,        # So the next attempt will have to re-connect.
                 CommunicationsEmptyResponse
             ):
-                self.__connected = False
-                await self.__check_connected()
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
-- 
2.43.0


From b9b33e27ed8acf356c7f627e9e1125905990aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 13/54] fix: the UDP client never takes a late response for the
 response to another request

---
 ekosis/clients/datagram_client_base.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ecc4e0b..dd14c74 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -58,16 +58,23 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, message: str) -> str:
-        if not self.initialised:
-            self.loop            = asyncio.get_running_loop()
-            self.transport, self.protocol = await self.loop.create_datagram_endpoint(
-                lambda: DatagramProtocolClient(self.timeout),
-                remote_addr=(self.server_host, self.server_port)
-            )
-            self.initialised = True
-
         async with self.send_lock:
-            return await self.protocol.send_message(message)
+            if not self.initialised:
+                self.loop                     = asyncio.get_running_loop()
+                self.transport, self.protocol = await self.loop.create_datagram_endpoint(
+                    lambda: DatagramProtocolClient(self.timeout),
+                    remote_addr=(self.server_host, self.server_port)
+                )
+                self.initialised = True
+
+            try:
+                return await self.protocol.send_message(message)
+            except BaseException:
+                # The response could still arrive later, closing the transport makes sure that
+                # it is never mistaken for the response to some other request.
+                self.initialised = False
+                self.transport.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From c665f6a175375a247b7826a49841a1767a89af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:32 +0000
Subject: [PATCH 14/54] fix: concurrent sends on a transient client no longer
 cut each other's retries short

---
 ekosis/clients/stream_client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index f75c95f..7c77c5b 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -47,7 +47,7 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
-- 
2.43.0


From c1e0d30c336666d70ddd14e9b5b4be4c6520de89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:02 +0000
Subject: [PATCH 15/54] fix: a truncated response is a communications failure,
 not a parsing error

---
 ekosis/clients/stream_client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index 7c77c5b..51e3069 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -36,7 +36,7 @@ class StreamClientBase(ClientBase, ABC):
         writer.write(request.encode())
 
         data = await asyncio.wait_for(reader.readline(), self.__timeout)
-        if not data:
+        if not data or not data.endswith(b"\n"): # Connection closed before we had the complete response.
             raise CommunicationsEmptyResponse()
 
         response_str = data.decode()
-- 
2.43.0


From 04c0a2b5ba2b835f69ff0dc1ce2fe4c04794159e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:20 +0000
Subject: [PATCH 16/54] fix: a client-denied response raises
 ClientDeniedException

---
 ekosis/clients/client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 1c19a28..756db62 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -42,7 +42,7 @@ class ClientBase(ABC):
             return ProtocolParsingException(str(request.data))
 
         if request.status == Status.CLIENT_DENIED.value:
-            return ClientDeniedException(str(request.data.json()))
+            return ClientDeniedException(str(request.data))
 
         if request.status == Status.PYDANTIC_VALIDATION_ERROR.value:
             return PydanticValidationException(str(request.data))
-- 
2.43.0


From b26b3e1c51d310f40e7d00d8380e1f7b7b0f58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:07 +0000
Subject: [PATCH 17/54] fix: apply the configured logging level

---
 ekosis/logs/logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index eac2150..3f684d1 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -88,6 +88,7 @@ class EcoLogger(metaclass=SingletonType):
             self.__setup_console_logging()
 
         self.__logger.setLevel(self.__level)
+        self.set_level(self.__log_config.level)
         # This switches asyncio logging to level WARNING
         # logging.getLogger('asyncio').setLevel(logging.WARNING)
 
-- 
2.43.0


From 2a05772462e65e6521f1ca4a63ec2a150d99bacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:23 +0000
Subject: [PATCH 18/54] fix: a buffered log record keeps the request and the
 values it was logged with

---
 ekosis/logs/buffered_rotating_file_handler.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index c9073ef..237731f 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -1,3 +1,5 @@
+import logging
+
 from logging.handlers import RotatingFileHandler, BufferingHandler
 
 # --------------------------------------------------------------------------------
@@ -27,8 +29,15 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def set_buffer_size(self, buffer_size):
         self.capacity = buffer_size
 
-    def setFormatter(self, formatter):
-        self.rotating_file_handler.setFormatter(formatter)
+    # A record is formatted when it gets logged, not when it gets written. By the time the buffer gets
+    # flushed, we could be in the context of a different request, and the logged values could have changed.
+    def emit(self, record):
+        try:
+            formatted_record = logging.makeLogRecord({"levelno": record.levelno, "msg": self.format(record)})
+        except Exception:
+            self.handleError(record)
+        else:
+            super().emit(formatted_record)
 
     def flush(self):
         for record in self.buffer:
-- 
2.43.0


From e40cba7142f08de4cf94048c325c9269f5de8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:49 +0000
Subject: [PATCH 19/54] fix: reject span ids that are not sixteen hexadecimal
 digits

---
 ekosis/data_transfer_objects/span_id.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index dfe914b..64ef3d4 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -1,4 +1,5 @@
 import os
+import string
 
 from pydantic_core import core_schema
 
@@ -20,7 +21,7 @@ class SpanId:
             int_ = int.from_bytes(bytes_, 'big')  # big endian
 
         if hex_ is not None:
-            if len(hex_) != 16:
+            if len(hex_) != 16 or not set(hex_) <= set(string.hexdigits):
                 raise ValueError('badly formed hexadecimal SpanId string')
             int_ = int(hex_, 16)
 
-- 
2.43.0


From b05be6258b16e23385bc468822c0d182b061a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:51 +0000
Subject: [PATCH 20/54] fix: percentiles never exceed the longest duration that
 was measured

---
 ekosis/state_keepers/statistics_keeper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/state_keepers/statistics_keeper.py b/ekosis/state_keepers/statistics_keeper.py
index eaa5450..5c405e9 100644
--- a/ekosis/state_keepers/statistics_keeper.py
+++ b/ekosis/state_keepers/statistics_keeper.py
@@ -37,7 +37,7 @@ class StatisticsKeeper(metaclass=SingletonType):
         for key, duration_list in self.__endpoint_durations.items():
             if len(duration_list) >= 2:
                 sorted_durations = sorted(duration_list)
-                quantiles        = statistics.quantiles(sorted_durations, n=100)
+                quantiles        = statistics.quantiles(sorted_durations, n=100, method='inclusive')
                 p95              = quantiles[94]
                 p99              = quantiles[98]
                 retval[key]      = (p95, p99)
-- 
2.43.0


From 8f2df901b161a9f55fe0f05349c4339da8b3291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:32 +0000
Subject: [PATCH 21/54] fix: the LRU cache evicts the least recently used item
 and never exceeds its size

---
 ekosis/cacheing/lru_cache.py | 91 ++++++++++++++----------------------
 1 file changed, 36 insertions(+), 55 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 79dd70f..7a51fca 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -8,7 +8,30 @@ class LRUCache:
         self.max_size     : int                   = max_size
         self._cached_items: Dict[Any, LRUCachedItem] = {}
         self.head         : LRUCachedItem            = None
-        self.tail         : LRUCachedItem            = None
+
+    # --------------------------------------------------------------------------------
+    # The items form a ring. The head is the most recently used item, and the item
+    # before the head is the least recently used one.
+    def __list_insert_at_front(self, cached_item: LRUCachedItem):
+        if self.head is None:
+            cached_item.previous = cached_item
+            cached_item.next     = cached_item
+        else:
+            cached_item.previous      = self.head.previous
+            cached_item.next          = self.head
+            self.head.previous.next   = cached_item
+            self.head.previous        = cached_item
+        self.head = cached_item
+
+    # --------------------------------------------------------------------------------
+    def __list_remove(self, cached_item: LRUCachedItem):
+        if cached_item.next is cached_item:
+            self.head = None
+        else:
+            cached_item.previous.next = cached_item.next
+            cached_item.next.previous = cached_item.previous
+            if self.head is cached_item:
+                self.head = cached_item.next
 
     # --------------------------------------------------------------------------------
     def __insert(self, key: Any, value: Any):
@@ -16,56 +39,23 @@ class LRUCache:
         new_node.empty = False
         new_node.key   = key
         new_node.value = value
-        if self.head is None:
-            self.head = new_node
-            self.tail = new_node
-        else:
-            new_node.previous = self.tail
-            new_node.next     = self.head
-            if self.tail is self.head:
-                self.head.previous = new_node
-                self.head.next     = new_node
-            else:
-                self.tail.next     = new_node
-                self.head.previous = new_node
+        self.__list_insert_at_front(new_node)
         self._cached_items[key] = new_node
-        return new_node
 
     # --------------------------------------------------------------------------------
     def __replace_least_recently_used(self, key: Any, value: Any):
         existing_node = self.head.previous
-
-        if not existing_node.empty:
-            self._cached_items.pop(existing_node.key)
-
-        existing_node.empty     = False
+        self._cached_items.pop(existing_node.key)
         existing_node.key       = key
         existing_node.value     = value
         self._cached_items[key] = existing_node
         self.head               = existing_node
 
-    # --------------------------------------------------------------------------------
-    def __list_move_to_end(self, cached_item: LRUCachedItem, empty: bool = False):
-        if self.head is cached_item:
-            self.head = cached_item.next
-        else:
-            cached_item.previous.next = cached_item.next
-            cached_item.next.previous = cached_item.previous
-            cached_item.previous      = self.head.previous
-            cached_item.next          = self.head
-            self.head.previous.next   = cached_item
-            self.head.previous        = cached_item
-
-        if empty:
-            cached_item.empty = True
-            cached_item.key   = None
-            cached_item.value = None
-
     # --------------------------------------------------------------------------------
     def __list_move_to_front(self, cached_item: LRUCachedItem):
         if cached_item is not self.head:
-            self.__list_move_to_end(cached_item, False)
-            self.head = cached_item
+            self.__list_remove(cached_item)
+            self.__list_insert_at_front(cached_item)
 
     # --------------------------------------------------------------------------------
     def __iterator(self):
@@ -76,11 +66,8 @@ class LRUCache:
 
     # --------------------------------------------------------------------------------
     def clear(self):
-        for cached_item in self.__iterator():
-            cached_item.empty = True
-            cached_item.key   = None
-            cached_item.value = None
         self._cached_items.clear()
+        self.head = None
 
     # --------------------------------------------------------------------------------
     # does not affect cache order
@@ -102,7 +89,7 @@ class LRUCache:
         if key in self._cached_items.keys():
             cached_item = self._cached_items.pop(key)
             value       = cached_item.value
-            self.__list_move_to_end(cached_item, True)
+            self.__list_remove(cached_item)
             return value
         return default
 
@@ -112,15 +99,10 @@ class LRUCache:
         if len(self._cached_items) < 1:
             return None
 
-        cached_item       = self.head
-        self.head         = cached_item.next
-        return_key        = cached_item.key
-        return_value      = cached_item.value
-        cached_item.empty = True
-        cached_item.key   = None
-        cached_item.value = None
-        self._cached_items.pop(return_key)
-        return return_key, return_value
+        cached_item = self.head
+        self._cached_items.pop(cached_item.key)
+        self.__list_remove(cached_item)
+        return cached_item.key, cached_item.value
 
     # --------------------------------------------------------------------------------
     def items(self):
@@ -160,8 +142,7 @@ class LRUCache:
             return
 
         if len(self._cached_items) < self.max_size:
-            cached_item = self.__insert(key, value)
-            self.head   = cached_item
+            self.__insert(key, value)
         else:
             self.__replace_least_recently_used(key, value)
 
@@ -169,7 +150,7 @@ class LRUCache:
     def __delitem__(self, key: Any):
         if key in self._cached_items.keys():
             cached_item = self._cached_items.pop(key)
-            self.__list_move_to_end(cached_item, True)
+            self.__list_remove(cached_item)
 
     # --------------------------------------------------------------------------------
     def __iter__(self):
-- 
2.43.0


From cab5aa9bd61bf383176df0c840b70b4c67bcd7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:00 +0000
Subject: [PATCH 22/54] fix: only the .py extension is stripped off the
 application name

---
 ekosis/configuration/config_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/configuration/config_models.py b/ekosis/configuration/config_models.py
index ad73b20..d499b4f 100644
--- a/ekosis/configuration/config_models.py
+++ b/ekosis/configuration/config_models.py
@@ -23,7 +23,7 @@ class InstanceConfigurationNotFoundException(ConfigurationExceptionBase): # prag
         super().__init__(f"Configuration for instance [{instance}] of application [{name}] not found!")
 
 # --------------------------------------------------------------------------------
-application_name     = camel_to_snake(os.path.basename(sys.argv[0]).replace('.py', ''))
+application_name     = camel_to_snake(os.path.basename(sys.argv[0]).removesuffix('.py'))
 application_instance = command_line_args.instance
 env_prefix           = "ECOENV"
 env_global           = f"{env_prefix}"
-- 
2.43.0


From d3000f83c5633f76bf6ad83df3464bac3622f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:14 +0000
Subject: [PATCH 23/54] fix: two simultaneous starts can not both become the
 same instance, and only a running process blocks a start

---
 ekosis/application_base.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 423c5fd..9397f37 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -4,6 +4,11 @@ import signal
 import argparse
 import logging
 
+try:
+    import fcntl
+except ImportError: # Not available on Windows # pragma: no cover
+    fcntl = None
+
 from .logs import EcoLogger
 from .configuration.config_models import AppConfiguration
 
@@ -150,30 +155,31 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     @staticmethod
     def __process_id_check(process_id: int) -> bool:
+        if process_id == os.getpid(): # A previous run had the same process id. e.g. in a container
+            return False
         try:
             os.kill(process_id, 0)
+        except PermissionError: # There is such a process, it belongs to another user.
+            return True
         except OSError:
             return False
         return True
 
     # --------------------------------------------------------------------------------
-    @staticmethod
-    def __create_lock_file(lock_file_path: str):
-        process_id = os.getpid()
-        with open(lock_file_path, "w") as lock_file:
-            lock_file.write(f"{process_id}\n")
-
-    # --------------------------------------------------------------------------------
+    # Checking the lock file and claiming it has to be a single step, or instances that get started at the same
+    # time can all find that no other instance is running.
     def __lock_file_check(self):
         lock_file_name  = f"{self._configuration.name}-{self._configuration.instance}.lock"
         lock_file_path  = f"{self._configuration.lock_directory}/{lock_file_name}"
-        if os.path.exists(lock_file_path):
-            with open(lock_file_path, "r") as lock_file:
-                process_id = int(lock_file.readline())
-            if self.__process_id_check(process_id):
-                raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
-            os.remove(lock_file_path)
-        self.__create_lock_file(lock_file_path)
+        with open(lock_file_path, "a+") as lock_file:
+            if fcntl is not None:
+                fcntl.flock(lock_file, fcntl.LOCK_EX)
+            lock_file.seek(0)
+            process_id = lock_file.readline().strip()
+            if process_id.isdigit() and self.__process_id_check(int(process_id)):
+                raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, int(process_id))
+            lock_file.truncate(0)
+            lock_file.write(f"{os.getpid()}\n")
 
     # --------------------------------------------------------------------------------
     def __configure_basics(self) -> None:
-- 
2.43.0


From 4e60fe25da15f6e8430943959b16915aad9fac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:03 +0000
Subject: [PATCH 24/54] fix: the log shipper loses no lines when a log is
 rotated more than once between two polls

---
 ekosis_log_shipper/src/tracked_file.cpp | 92 ++++++++++++++++++++++---
 ekosis_log_shipper/src/tracked_file.hpp |  6 +-
 2 files changed, 86 insertions(+), 12 deletions(-)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 2908b23..503a86a 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -76,24 +76,96 @@ void TrackedFile::read_available_lines(std::vector<std::string>& lines) {
     _pending.erase(0, start);
 }
 
+// --------------------------------------------------------------------------------
+// Opens the file that was started right after the one we are attached to: the
+// next lower rotation index, or the path itself. Returns false when there is
+// none (yet), or when it can not be opened right now.
+bool TrackedFile::open_successor() {
+    auto name_of  = [this](int index) { return index == 0 ? _path : _path + "." + std::to_string(index); };
+    auto stat_of  = [&](int index, struct stat& st) { return ::stat(name_of(index).c_str(), &st) == 0; };
+    auto is_ours  = [this](const struct stat& st) { return static_cast<uint64_t>(st.st_ino) == _inode; };
+
+    struct stat own{};
+    if (::fstat(_fd, &own) != 0) {
+        return false;
+    }
+
+    for (int attempt = 0; attempt < 10; ++attempt) {
+        // Where is our own file now? If rotation has already deleted it,
+        // everything that is still there and not older than it comes after it.
+        // A rotation in progress leaves one index unused, so look past a gap.
+        int         own_index = -1;
+        int         oldest    = 0;
+        struct stat st{};
+        for (int index = 1, gap = 0; gap < 2; ++index) {
+            if (!stat_of(index, st)) {
+                ++gap;
+                continue;
+            }
+            gap = 0;
+            if (is_ours(st)) {
+                own_index = index;
+                break;
+            }
+            if (st.st_mtim.tv_sec > own.st_mtim.tv_sec
+                || (st.st_mtim.tv_sec == own.st_mtim.tv_sec && st.st_mtim.tv_nsec >= own.st_mtim.tv_nsec)) {
+                oldest = index;
+            }
+        }
+
+        int candidate = own_index == -1 ? oldest : own_index - 1;
+        while (candidate > 0 && !stat_of(candidate, st)) {
+            --candidate;
+        }
+
+        int next_fd = ::open(name_of(candidate).c_str(), O_RDONLY);
+        if (next_fd == -1) {
+            return false;
+        }
+
+        // The names may have been shifted while we were looking: only trust
+        // what we opened if our own file and the names in between have not moved.
+        struct stat next{};
+        bool        settled = ::fstat(next_fd, &next) == 0 && !is_ours(next);
+        if (own_index != -1) {
+            settled = settled && stat_of(own_index, st) && is_ours(st);
+            for (int index = candidate + 1; settled && index < own_index; ++index) {
+                settled = !stat_of(index, st);
+            }
+        }
+        if (!settled) {
+            ::close(next_fd);
+            continue;
+        }
+
+        ::close(_fd);
+        _fd     = next_fd;
+        _inode  = static_cast<uint64_t>(next.st_ino);
+        _offset = 0;
+        _pending.clear();
+        return true;
+    }
+    return false;
+}
+
 // --------------------------------------------------------------------------------
 std::vector<std::string> TrackedFile::poll() {
     std::vector<std::string> lines;
 
-    struct stat path_stat{};
-    bool        path_exists = ::stat(_path.c_str(), &path_stat) == 0;
+    while (true) {
+        struct stat path_stat{};
+        bool        rotated = ::stat(_path.c_str(), &path_stat) != 0
+                           || static_cast<uint64_t>(path_stat.st_ino) != _inode;
 
-    if (path_exists && static_cast<uint64_t>(path_stat.st_ino) != _inode) {
         // Rotation: drain whatever is still unread in the OLD file before
         // switching. The old fd is still attached to the renamed/unlinked
         // file regardless of its current name -- this is what makes the
-        // drain safe rather than a race against the rename.
+        // drain safe rather than a race against the rename. The path may have
+        // been rotated more than once since the last call, so step through
+        // the files in between one by one.
         read_available_lines(lines);
-        ::close(_fd);
-        _fd = -1;
-        open_at_path(0);
+        if (!rotated || !open_successor()) {
+            return lines;
+        }
     }
-
-    read_available_lines(lines);
-    return lines;
 }
diff --git a/ekosis_log_shipper/src/tracked_file.hpp b/ekosis_log_shipper/src/tracked_file.hpp
index fce8b59..38e615a 100644
--- a/ekosis_log_shipper/src/tracked_file.hpp
+++ b/ekosis_log_shipper/src/tracked_file.hpp
@@ -13,8 +13,9 @@
 // open file descriptor stays attached to the same underlying file (same
 // inode) regardless of what name it currently has on disk, or even if it
 // gets unlinked -- so draining the OLD fd to its end before switching to a
-// freshly-opened fd at the (now-different) path is rotation-safe with no
-// path-guessing involved.
+// next file is rotation-safe. That next file is the one at the path, unless the
+// path was rotated more than once since: then it is the one that now has the
+// rotation index below the old file's, and so on up to the path itself.
 class TrackedFile {
 public:
     explicit TrackedFile(std::string path);
@@ -37,6 +38,7 @@ public:
 
 private:
     void open_at_path(uint64_t start_offset);
+    bool open_successor();
     void read_available_lines(std::vector<std::string>& lines);
 
     std::string _path;
-- 
2.43.0


From 75f6dcf397343c5b10757dd9cd346932ed5b46f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:57 +0000
Subject: [PATCH 25/54] fix: a log file that can not be opened does not stop
 the log shipper

---
 ekosis_log_shipper/src/main.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 6d0b7bd..6d1f423 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <map>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -69,9 +70,13 @@ int main(int argc, char** argv) {
         }
         auto         resume = state_store.load(path);
         WatchedFile  wf;
-        wf.tracked = resume
-            ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
-            : std::make_unique<TrackedFile>(path);
+        try {
+            wf.tracked = resume
+                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
+                : std::make_unique<TrackedFile>(path);
+        } catch (const std::runtime_error&) {
+            return; // rotated away or not readable right now -- the next re-scan tries again
+        }
         watched.emplace(path, std::move(wf));
         std::cout << "ekosis_log_shipper: watching " << path << "\n";
     };
-- 
2.43.0


From 5c941e18ffa4b2f9c8615d336feaed5431aa3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:30 +0000
Subject: [PATCH 26/54] fix: a log line that is not a log record does not stop
 the log shipper

---
 ekosis_log_shipper/src/main.cpp          |  2 +-
 ekosis_log_shipper/src/otlp_envelope.cpp | 33 ++++++++++++++++++++++--
 ekosis_log_shipper/src/otlp_envelope.hpp |  4 +++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 6d1f423..ef76ca7 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -112,7 +112,7 @@ int main(int argc, char** argv) {
                 continue;
             }
 
-            ResourceInfo resource = extract_resource_info(wf.undelivered.front());
+            ResourceInfo resource = extract_resource_info(wf.undelivered);
             std::string  payload  = build_otlp_logs_payload(wf.undelivered, resource);
 
             PostResult result = http_sender.post_json(payload);
diff --git a/ekosis_log_shipper/src/otlp_envelope.cpp b/ekosis_log_shipper/src/otlp_envelope.cpp
index ad5b0f0..8fa8c55 100644
--- a/ekosis_log_shipper/src/otlp_envelope.cpp
+++ b/ekosis_log_shipper/src/otlp_envelope.cpp
@@ -69,6 +69,20 @@ json convert_one_record(const json& record) {
     return log_record;
 }
 
+// A line that is not an OtlpLogRecord (an application that was killed while
+// writing it, say) is shipped as it is: it must not hold up the lines after it.
+json convert_one_line(const std::string& line) {
+    try {
+        return convert_one_record(json::parse(line));
+    } catch (const json::exception&) {
+        json log_record;
+        log_record["severityNumber"]      = 0;
+        log_record["body"]["stringValue"] = line;
+        log_record["attributes"]          = json::array();
+        return log_record;
+    }
+}
+
 } // namespace
 
 // --------------------------------------------------------------------------------
@@ -88,11 +102,26 @@ ResourceInfo extract_resource_info(const std::string& json_line) {
     return info;
 }
 
+// --------------------------------------------------------------------------------
+ResourceInfo extract_resource_info(const std::vector<std::string>& json_lines) {
+    for (const auto& line : json_lines) {
+        try {
+            ResourceInfo info = extract_resource_info(line);
+            if (!info.service_name.empty() || !info.service_instance_id.empty()) {
+                return info;
+            }
+        } catch (const json::exception&) {
+            continue; // not an OtlpLogRecord
+        }
+    }
+    return ResourceInfo{};
+}
+
 // --------------------------------------------------------------------------------
 std::string build_otlp_logs_payload(const std::vector<std::string>& json_lines, const ResourceInfo& resource) {
     json log_records = json::array();
     for (const auto& line : json_lines) {
-        log_records.push_back(convert_one_record(json::parse(line)));
+        log_records.push_back(convert_one_line(line));
     }
 
     json payload;
@@ -113,5 +142,5 @@ std::string build_otlp_logs_payload(const std::vector<std::string>& json_lines,
         }
     });
 
-    return payload.dump();
+    return payload.dump(-1, ' ', false, json::error_handler_t::replace);
 }
diff --git a/ekosis_log_shipper/src/otlp_envelope.hpp b/ekosis_log_shipper/src/otlp_envelope.hpp
index 7d9db8a..11a6cd3 100644
--- a/ekosis_log_shipper/src/otlp_envelope.hpp
+++ b/ekosis_log_shipper/src/otlp_envelope.hpp
@@ -17,6 +17,10 @@ struct ResourceInfo {
 // rather than parsing it out of the filename.
 ResourceInfo extract_resource_info(const std::string& json_line);
 
+// The same for a whole batch: the first line that carries an identity, so that
+// a line that is not an OtlpLogRecord does not hide that of the others.
+ResourceInfo extract_resource_info(const std::vector<std::string>& json_lines);
+
 // Wraps raw OtlpLogRecord JSON lines (one per ekosis log line) into one
 // OTLP/HTTP+JSON logs export payload: resourceLogs -> scopeLogs ->
 // logRecords. Mechanical, fixed shape -- no branching on log content.
-- 
2.43.0


From 55284735ba5169ee2c4a847b9be97f5ab0713130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:03 +0000
Subject: [PATCH 27/54] fix: the tracing setup helper can be imported from the
 installed package

---
 ekosis_otlp_traces/ekosis_otlp_traces/setup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
index 701984e..18b6c58 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
@@ -1,8 +1,8 @@
 from ekosis.configuration.config_models                          import AppConfiguration
 from ekosis.middleware.manager                                   import MiddlewareManager
 from ekosis.middleware.buffered_middleware_manager               import BufferedMiddlewareManager
-from ekosis_otlp_traces.ekosis_otlp_traces.middleware            import OtlpTracingMiddleware
-from ekosis_otlp_traces.ekosis_otlp_traces.buffered_middleware   import OtlpBufferedTracingMiddleware
+from .middleware                                                 import OtlpTracingMiddleware
+from .buffered_middleware                                        import OtlpBufferedTracingMiddleware
 
 # --------------------------------------------------------------------------------
 def initiate_otlp_tracing():
-- 
2.43.0


From 61f818c085dd9a9abb672aec282ae723b5eeddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:07 +0000
Subject: [PATCH 28/54] fix: requests and attempts that share a span key each
 keep a trace span of their own

---
 .../ekosis_otlp_traces/buffered_middleware.py       | 13 +++++++++----
 ekosis_otlp_traces/ekosis_otlp_traces/middleware.py | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
index 0d6701e..1618534 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
@@ -1,3 +1,4 @@
+from contextvars         import ContextVar
 from opentelemetry       import trace
 from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags
 from pydantic            import BaseModel as PydanticBaseModel
@@ -11,9 +12,12 @@ _RECEIVE_SPAN_ID_KEY = "otlp_receive_span_id"
 
 # --------------------------------------------------------------------------------
 class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
+    # The span of the attempt running in the current context. Several buffered endpoints
+    # may be processing requests with the same span key at the same time.
+    _process_span = ContextVar("ekosis_otlp_process_span", default=None)
+
     def __init__(self, tracing_middleware: OtlpTracingMiddleware):
-        self._tracing       = tracing_middleware
-        self._process_spans = {}
+        self._tracing = tracing_middleware
 
     # --------------------------------------------------------------------------------
     async def before_push(self, span_key: SpanKey, dto: PydanticBaseModel) -> dict:
@@ -40,11 +44,12 @@ class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
         span.set_attribute("request.trace_id", str(span_key.trace_id))
         span.set_attribute("request.span_id",  str(span_key.span_id))
         span.set_attribute("request.retries",  retries)
-        self._process_spans[span_key] = span
+        self._process_span.set(span)
 
     # --------------------------------------------------------------------------------
     async def after_process(self, span_key: SpanKey, dto: PydanticBaseModel, metadata: dict, success: bool) -> None:
-        span = self._process_spans.pop(span_key, None)
+        span = self._process_span.get()
+        self._process_span.set(None)
         if span:
             span.set_attribute("process.success", success)
             span.end()
diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
index 9e8524b..7adea8c 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
@@ -1,3 +1,4 @@
+from contextvars                               import ContextVar
 from opentelemetry                             import trace
 from opentelemetry.sdk.trace                   import TracerProvider
 from opentelemetry.sdk.trace.export            import BatchSpanProcessor
@@ -12,7 +13,9 @@ from ekosis.configuration.config_models        import AppConfiguration
 
 # --------------------------------------------------------------------------------
 class OtlpTracingMiddleware(MiddlewareBase):
-    _active_spans        = {}
+    # The span of the request being handled in the current context. Not a dictionary by
+    # span key: the same key may be in use by several requests at the same time.
+    _active_span         = ContextVar("ekosis_otlp_active_span", default=None)
     application_name     = AppConfiguration().name
     application_instance = AppConfiguration().instance
 
@@ -41,12 +44,13 @@ class OtlpTracingMiddleware(MiddlewareBase):
         span.set_attribute("request.trace_id",  str(span_key.trace_id))
         span.set_attribute("request.span_id",   str(span_key.span_id))
         span.set_attribute("request.route_key", protocol_dto.route_key)
-        self._active_spans[span_key] = span
+        self._active_span.set((span_key, span))
         return protocol_dto
 
     # --------------------------------------------------------------------------------
     async def after_routing(self, protocol_dto: RequestDTO, response_dto: PydanticBaseModel, **kwargs) -> PydanticBaseModel:
-        span = self._active_spans.pop(protocol_dto.span_key, None)
+        span = self.get_active_span(protocol_dto.span_key)
+        self._active_span.set(None)
         if span:
             span.set_status(StatusCode.OK)
             span.end()
@@ -54,4 +58,5 @@ class OtlpTracingMiddleware(MiddlewareBase):
 
     # --------------------------------------------------------------------------------
     def get_active_span(self, span_key: SpanKey):
-        return self._active_spans.get(span_key)
+        active = self._active_span.get()
+        return active[1] if active and active[0] == span_key else None
-- 
2.43.0


From 852ebbb16588252570758ddbaab9d604b29c4cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:18 +0000
Subject: [PATCH 29/54] fix: the trace span of a failed request is closed and
 exported

---
 ekosis/middleware/manager.py                        | 5 +++++
 ekosis/middleware/middleware_base.py                | 4 ++++
 ekosis/requests/request_router.py                   | 7 +++++--
 ekosis_otlp_traces/ekosis_otlp_traces/middleware.py | 9 +++++++++
 4 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/ekosis/middleware/manager.py b/ekosis/middleware/manager.py
index 3229c76..a9665cf 100644
--- a/ekosis/middleware/manager.py
+++ b/ekosis/middleware/manager.py
@@ -32,3 +32,8 @@ class MiddlewareManager(metaclass=SingletonType):
             kwargs['response_dto'] = response_dto
             response_dto = await middleware.after_routing(**kwargs)
         return response_dto
+
+    async def run_routing_failed(self, **kwargs) -> None:
+        for middleware in self.middlewares:
+            if isinstance(middleware, MiddlewareBase):
+                await middleware.routing_failed(**kwargs)
diff --git a/ekosis/middleware/middleware_base.py b/ekosis/middleware/middleware_base.py
index 5f37711..e93f5d2 100644
--- a/ekosis/middleware/middleware_base.py
+++ b/ekosis/middleware/middleware_base.py
@@ -8,3 +8,7 @@ class MiddlewareBase(ABC):
 
     async def after_routing(self, **kwargs) -> PydanticBaseModel:
         return kwargs["response_dto"]
+
+    # Called instead of after_routing(), when the request fails.
+    async def routing_failed(self, **kwargs) -> None:
+        pass
diff --git a/ekosis/requests/request_router.py b/ekosis/requests/request_router.py
index 378aa97..dcb7bed 100644
--- a/ekosis/requests/request_router.py
+++ b/ekosis/requests/request_router.py
@@ -63,5 +63,8 @@ class RequestRouter(metaclass=SingletonType):
             kwargs["protocol_dto"]  = middleware_protocol_dto
             response                = await self.__middleware_manager.run_after_routing(**kwargs)  # Middleware after routing
             return response
-        except ApplicationProcessingException as e:
-            raise RouterProcessingException(protocol_dto.route_key, e.message)
+        except Exception as e:
+            await self.__middleware_manager.run_routing_failed(protocol_dto = protocol_dto, exception = e)
+            if isinstance(e, ApplicationProcessingException):
+                raise RouterProcessingException(protocol_dto.route_key, e.message)
+            raise
diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
index 7adea8c..ed2f100 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
@@ -56,6 +56,15 @@ class OtlpTracingMiddleware(MiddlewareBase):
             span.end()
         return response_dto
 
+    # --------------------------------------------------------------------------------
+    async def routing_failed(self, protocol_dto: RequestDTO, exception: Exception, **kwargs) -> None:
+        span = self.get_active_span(protocol_dto.span_key)
+        self._active_span.set(None)
+        if span:
+            span.record_exception(exception)
+            span.set_status(StatusCode.ERROR, str(exception))
+            span.end()
+
     # --------------------------------------------------------------------------------
     def get_active_span(self, span_key: SpanKey):
         active = self._active_span.get()
-- 
2.43.0


From a3e8fadcbc6fc97ed894a366170f541c48a75dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:22 +0000
Subject: [PATCH 30/54] fix: services that use the default UDS socket name are
 discovered at the socket they listen on

---
 ekosis_prometheus/ekosis_prometheus/service_discovery.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ekosis_prometheus/ekosis_prometheus/service_discovery.py b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
index 92a7172..284180b 100644
--- a/ekosis_prometheus/ekosis_prometheus/service_discovery.py
+++ b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
@@ -59,6 +59,9 @@ def discover_local_services() -> List[DiscoveredService]:
             name, instance = _parse_name_instance(raw_name)
 
             if protocol == "UDS":
+                directory, socket_file_name = os.path.split(value)
+                if socket_file_name == "DEFAULT": # the name the application itself picks in this case
+                    value = os.path.join(directory, f"{name}_{instance}.uds.sock")
                 services.append(DiscoveredService(
                     name     = name,
                     instance = instance,
-- 
2.43.0


From b3aeccede42233e95364a95a98bc9aba417ea33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:00:50 +0000
Subject: [PATCH 31/54] fix: routes of any number of parts get Prometheus
 metrics

---
 .../ekosis_prometheus/stats_translator.py     | 80 ++++++++++---------
 1 file changed, 44 insertions(+), 36 deletions(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/stats_translator.py b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
index 9af7e92..1eaaa05 100644
--- a/ekosis_prometheus/ekosis_prometheus/stats_translator.py
+++ b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
@@ -17,6 +17,28 @@ def _flatten(obj: Any, prefix: str) -> Generator[Tuple[str, float], None, None]:
         yield prefix, float(obj)
 
 
+# --------------------------------------------------------------------------------
+# Route keys are nested dictionaries in the statistics, one level for each part of the key,
+# whatever the number of parts. A level with one of the leaf_keys on it is a route key of its own.
+# The group is the first part, the endpoint is the rest. Without a rest, there is no group.
+def _iter_endpoints(
+    data          : Dict,
+    leaf_keys     : Set[str],
+    exclude_groups: Set[str],
+    parts         : Tuple[str, ...] = (),
+) -> Generator[Tuple[str, str, Dict], None, None]:
+    for part, sub_data in data.items():
+        if not isinstance(sub_data, dict):
+            continue
+        if not parts and part in exclude_groups:
+            continue
+        key_parts = (*parts, part)
+        if any(isinstance(sub_data.get(key), (int, float)) for key in leaf_keys):
+            group = key_parts[0] if len(key_parts) > 1 else ""
+            yield group, ".".join(key_parts[1:] or key_parts), sub_data
+        yield from _iter_endpoints(sub_data, leaf_keys, exclude_groups, key_parts)
+
+
 # --------------------------------------------------------------------------------
 def _iter_queue_groups(
     queue_data     : Dict,
@@ -24,21 +46,14 @@ def _iter_queue_groups(
     metric_prefix  : str,
     labels         : Dict,
 ) -> Generator[Tuple[str, float, dict], None, None]:
-    for group, endpoints in queue_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, sizes in endpoints.items():
-            if not isinstance(sizes, dict):
-                continue
-            queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
-            pending = sizes.get("pending")
-            if pending is not None:
-                yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
-            error = sizes.get("error")
-            if error is not None:
-                yield f"{metric_prefix}_queue_error", float(error), queue_labels
+    for group, endpoint_name, sizes in _iter_endpoints(queue_data, {"pending", "error"}, exclude_groups):
+        queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
+        pending = sizes.get("pending")
+        if isinstance(pending, (int, float)):
+            yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
+        error = sizes.get("error")
+        if isinstance(error, (int, float)):
+            yield f"{metric_prefix}_queue_error", float(error), queue_labels
 
 
 # --------------------------------------------------------------------------------
@@ -78,27 +93,20 @@ def translate_gathered_stats(
 
     # endpoint_data -- call_count, p95, p99 per endpoint (user groups only)
     endpoint_data = stats.get("endpoint_data", {})
-    for group, endpoints in endpoint_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, data in endpoints.items():
-            if not isinstance(data, dict):
-                continue
-            endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
-
-            call_count = data.get("call_count")
-            if call_count is not None:
-                yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
-
-            p95 = data.get("p95")
-            if p95 is not None and p95 >= 0:
-                yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
-
-            p99 = data.get("p99")
-            if p99 is not None and p99 >= 0:
-                yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
+    for group, endpoint_name, data in _iter_endpoints(endpoint_data, {"call_count"}, exclude_groups):
+        endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
+
+        call_count = data.get("call_count")
+        if call_count is not None:
+            yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
+
+        p95 = data.get("p95")
+        if p95 is not None and p95 >= 0:
+            yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
+
+        p99 = data.get("p99")
+        if p99 is not None and p99 >= 0:
+            yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
 
     # buffered endpoint queues
     yield from _iter_queue_groups(
-- 
2.43.0


From 0c06eed2082a8415fbee3dba8e2b235e68d115f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 32/54] fix: clearing an error state never raises its count

---
 ekosis/state_keepers/error_state_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/state_keepers/error_state_keeper.py b/ekosis/state_keepers/error_state_keeper.py
index 68eec26..9130f8a 100644
--- a/ekosis/state_keepers/error_state_keeper.py
+++ b/ekosis/state_keepers/error_state_keeper.py
@@ -24,6 +24,8 @@ class ErrorStateKeeper:
         self._error_count += 1
 
     def clear_some(self, how_many: int):
+        if how_many < 0: # Clearing never adds to the count.
+            return
         if self._error_count >= how_many:
             self._error_count = self._error_count - how_many
         else:
-- 
2.43.0


From 4179ef22e81aff000bdc851352513fc73ee15100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 33/54] fix: the buffered sender command line tool works

---
 ekosis/cli/bsm.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ekosis/cli/bsm.py b/ekosis/cli/bsm.py
index 1982925..8ff920b 100644
--- a/ekosis/cli/bsm.py
+++ b/ekosis/cli/bsm.py
@@ -25,16 +25,9 @@ command_line_args: argparse.Namespace = argument_parser.parse_args()
 
 # --------------------------------------------------------------------------------
 async def do_sender_action(client: ClientBase, route_key: str):
-    if (command_line_args.pause_receiving   or
-        command_line_args.pause_processing  or
-        command_line_args.unpause_receiving or
-        command_line_args.unpause_processing):
-        print_error(argument_parser, "Pause and UN-Pause for receiving and processing, is only for buffered endpoints!")
-
-    if command_line_args.data or not any_true_check([
-        command_line_args.data,
-        command_line_args.pause_all,
-        command_line_args.unpause_all,
+    if not any_true_check([
+        command_line_args.pause_sending,
+        command_line_args.unpause_sending,
         command_line_args.error_10,
         command_line_args.reprocess_all,
         command_line_args.clear,
@@ -45,10 +38,10 @@ async def do_sender_action(client: ClientBase, route_key: str):
         await EcoBufferedSenderDataSender(client).send(route_key)
         return
 
-    if command_line_args.pause_all:
+    if command_line_args.pause_sending:
         await EcoBufferedSenderSendProcessPauseSender(client).send(route_key)
         return
-    if command_line_args.unpause_all:
+    if command_line_args.unpause_sending:
         await EcoBufferedSenderSendProcessUnPauseSender(client).send(route_key)
         return
     if command_line_args.error_10:
-- 
2.43.0


From 2e20757ba4dcd0463dc9eaa276b162cefc23d718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 34/54] fix: command line tools say what is wrong with the
 server details

---
 ekosis/cli/shared_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ekosis/cli/shared_functions.py b/ekosis/cli/shared_functions.py
index 95a595c..309024e 100644
--- a/ekosis/cli/shared_functions.py
+++ b/ekosis/cli/shared_functions.py
@@ -3,15 +3,17 @@ import argparse
 
 from typing import List, Tuple
 
+from .shared_argument_parser import argument_parser
+
 from ..clients import TransientTCPClient, UDPClient, TransientUDSClient, ClientBase
 
 # --------------------------------------------------------------------------------
 def make_tcp_udp_host_port(server_details: str) -> Tuple[str, int]:
     host, port = server_details.split(":")
     if not host:
-        print_error(f"Could not extract host from command: {server_details}")
+        print_error(argument_parser, f"Could not extract host from command: {server_details}")
     if not port:
-        print_error(f"Could not extract port from command: {server_details}")
+        print_error(argument_parser, f"Could not extract port from command: {server_details}")
     return host, int(port)
 
 # --------------------------------------------------------------------------------
-- 
2.43.0


From 8c80abb4bd06756d2420ca24a1b6cb4bc4c35db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 35/54] fix: command line tools show the data of a request,
 also when it is empty

---
 ekosis/cli/senders/queue_management_sender_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/cli/senders/queue_management_sender_base.py b/ekosis/cli/senders/queue_management_sender_base.py
index 3b81a1d..eb9d332 100644
--- a/ekosis/cli/senders/queue_management_sender_base.py
+++ b/ekosis/cli/senders/queue_management_sender_base.py
@@ -22,7 +22,7 @@ def print_response(response: QManagementResponseDto):
         print(f"First 10 error span-keys:\n{json.dumps(response.queue_data, indent=4)}")
     elif response.queue_data is not None:
         print(f"Queue information:\n{response.queue_data.model_dump_json(indent=4)}")
-    if response.request_data:
+    if response.request_data is not None:
         print("--------------------------------------------------------------------------------")
         print(f"Request information:\n{json.dumps(response.request_data, indent=4)}")
     print("================================================================================")
-- 
2.43.0


From 94908027d71cfb53355a07e76fe425ddb032e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 36/54] fix: a failed or interrupted start does not keep the
 application from shutting down in order

---
 ekosis/servers/json/tcp.py | 6 ++++--
 ekosis/servers/json/uds.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ekosis/servers/json/tcp.py b/ekosis/servers/json/tcp.py
index 17cdc39..dd49e3c 100644
--- a/ekosis/servers/json/tcp.py
+++ b/ekosis/servers/json/tcp.py
@@ -20,7 +20,8 @@ class TCPServer(StreamServerBase):
             await self.__setup_server()
         except Exception as e:
             self._running = False
-            self._server.close()
+            if self._server:
+                self._server.close()
             raise e
 
     # --------------------------------------------------------------------------------
@@ -32,7 +33,8 @@ class TCPServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping TCP server for {self.host}:{self.port}.")
-            self._server.close()
+            if self._server: # There is none, when we get stopped while still starting.
+                self._server.close()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
diff --git a/ekosis/servers/json/uds.py b/ekosis/servers/json/uds.py
index 30fe199..5296dfe 100644
--- a/ekosis/servers/json/uds.py
+++ b/ekosis/servers/json/uds.py
@@ -22,7 +22,8 @@ class UDSServer(StreamServerBase):
                 await self.__setup_server()
             except Exception as e:
                 self._running = False
-                self._server.close()
+                if self._server:
+                    self._server.close()
                 raise e
         else:
             self._logger.info(f"UDS not supported on this platform, will not start server.")
@@ -37,7 +38,8 @@ class UDSServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping UDS server for {self.__server_path}.")
-            self._server.close()
+            if self._server: # There is none, when we get stopped while still starting.
+                self._server.close()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-- 
2.43.0


From 22e15c0d4842d9506d0c1e3660fe1526395fc724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 37/54] fix: a slow UDP request does not hold up the others

---
 ekosis/servers/json/udp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index b90f049..00d4021 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -26,8 +26,8 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
         self.loop      = asyncio.get_running_loop()
 
     async def do_response(self, message, addr):
+        response = await self.build_response_function(message)
         async with self.__write_lock:
-            response = await self.build_response_function(message)
             self.transport.sendto(response.encode(), addr)
 
     # TODO: find a way to deal with partial bytes read
-- 
2.43.0


From c8c03def1f2cfe6800ef1a039fe9ceb4a5d3a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 38/54] fix: no request is served before the tasks of
 setup_tasks are there

---
 ekosis/application_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9397f37..ba17657 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -318,13 +318,13 @@ class ApplicationBase(metaclass=SingletonType):
             task = asyncio.create_task(buffered_sender.wait_for_shutdown())
             tasks.append(task)
 
+        await self.setup_tasks(tasks) # Before the servers get started: no request arrives before these tasks are there.
+
         tasks.append(asyncio.create_task(self.__start_stats_keeper()))
         tasks.append(asyncio.create_task(self.__start_tcp_server()))
         tasks.append(asyncio.create_task(self.__start_udp_server()))
         tasks.append(asyncio.create_task(self.__start_uds_server()))
 
-        await self.setup_tasks(tasks)
-
         self.__eco_logger.flush()
         all_tasks = asyncio.gather(*tasks)
         await asyncio.wait([all_tasks, terminate_future], return_when=asyncio.FIRST_COMPLETED)
-- 
2.43.0


From 86046c3048fe04c9898a519129090a112b07f34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:52 +0000
Subject: [PATCH 39/54] fix: functions that run soon can be given keyword
 arguments

---
 ekosis/util/fire_and_forget_tasks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ekosis/util/fire_and_forget_tasks.py b/ekosis/util/fire_and_forget_tasks.py
index 87d26f3..799351f 100644
--- a/ekosis/util/fire_and_forget_tasks.py
+++ b/ekosis/util/fire_and_forget_tasks.py
@@ -1,4 +1,5 @@
 import asyncio
+import functools
 
 FIRE_AND_FORGET_TASKS = set()
 
@@ -22,7 +23,7 @@ def fire_and_forget_task(coroutine):
 
 # --------------------------------------------------------------------------------
 def run_soon(function):
-    def called_task(loop: asyncio.AbstractEventLoop, *args, **kwargs):
+    def called_task(loop: asyncio.AbstractEventLoop, /, *args, **kwargs):
         task = loop.create_task(function(*args, **kwargs))
         FIRE_AND_FORGET_TASKS.add(task)
         task.add_done_callback(FIRE_AND_FORGET_TASKS.discard)
@@ -30,5 +31,5 @@ def run_soon(function):
 
     def wrapper(*args, **kwargs):
         loop = asyncio.get_running_loop()
-        loop.call_soon(called_task, loop, *args, **kwargs)
+        loop.call_soon(functools.partial(called_task, loop, *args, **kwargs))
     return wrapper
-- 
2.43.0


From 5f9f47ac10a9d3e2191576642e9b581c365eb29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:19 +0000
Subject: [PATCH 40/54] fix: an application that is told to end before its
 queues are there, ends in order

---
 ekosis/requests/buffered_handler_base.py | 2 +-
 ekosis/sending/buffered_sender_base.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 63933ea..93ab892 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -164,7 +164,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
-        if not self.running and self.shutdown:
+        if not self.running and self.shutdown and self.queue is not None: # There is no queue, if setup was not reached.
             route_key = self.get_route_key()
             self.log.info(f"Buffered handler [{route_key}] stopping.")
             self.queue.shut_down()
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 8175dbb..3484fbc 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -71,7 +71,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     def __shut_down_check(self):
-        if not self.running and self.shutdown:
+        if not self.running and self.shutdown and self.queue is not None: # There is no queue, if setup was not reached.
             route_key = self.get_route_key()
             self.log.info(f"Buffered sender [{route_key}] stopping.")
             self.queue.shut_down()
-- 
2.43.0


From 7640f2842f34ec5a9bca050b9f86d683630288fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:58 +0000
Subject: [PATCH 41/54] fix: closing a persisted connection closes it for good,
 whatever state it is in

---
 ekosis/clients/persistent_stream_client_base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index 8d647d6..e84bef7 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -46,8 +46,16 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def close_connection(self):
-        self.__writer.close()
-        await self.__writer.wait_closed()
+        if self.__heartbeat_task is not None: # A heartbeat would open the connection again.
+            self.__heartbeat_task.cancel()
+            self.__heartbeat_task = None
+
+        self.__drop_connection()
+        if self.__writer is not None:
+            try:
+                await self.__writer.wait_closed()
+            except OSError: # The connection was broken already.
+                pass
 
     # --------------------------------------------------------------------------------
     async def __check_connected(self):
@@ -59,7 +67,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
     def __drop_connection(self):
         self.__connected = False
         if self.__writer is not None:
-            self.__writer.close()
+            self.__writer.transport.abort() # A close would wait for a peer that does not read.
 
     # --------------------------------------------------------------------------------
     # One request and its response, are one indivisible exchange. When an exchange does not complete,
-- 
2.43.0


From 42890ba3e59ee3b17d0b28a231cd943932a214e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:04 +0000
Subject: [PATCH 42/54] fix: a transient stream connection is closed when its
 call fails

---
 ekosis/clients/stream_client_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index 51e3069..db9a5b9 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -33,14 +33,16 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
         reader, writer = await self.open_connection()
-        writer.write(request.encode())
+        try:
+            writer.write(request.encode())
+            data = await asyncio.wait_for(reader.readline(), self.__timeout)
+        finally:
+            writer.transport.abort() # Also when there is no response. A close would wait for a peer that does not read.
 
-        data = await asyncio.wait_for(reader.readline(), self.__timeout)
         if not data or not data.endswith(b"\n"): # Connection closed before we had the complete response.
             raise CommunicationsEmptyResponse()
 
         response_str = data.decode()
-        writer.close()
         await writer.wait_closed()
         return response_str
 
-- 
2.43.0


From 308444e4d446c39507bdc47434ba24117c1c24b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:59 +0000
Subject: [PATCH 43/54] fix: an empty text, or one with a line feed or
 non-ASCII look-alikes, is not a host name

---
 ekosis/util/utility_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ekosis/util/utility_functions.py b/ekosis/util/utility_functions.py
index 2819e6e..ac04fec 100644
--- a/ekosis/util/utility_functions.py
+++ b/ekosis/util/utility_functions.py
@@ -34,12 +34,12 @@ def is_valid_ipv4_address(ip_address: str) -> bool:
 # Checks hostname against Internet Engineering Task Force (IETF) standard
 # --------------------------------------------------------------------------------
 def is_possible_valid_ietf_hostname(hostname: str) -> bool:
-    if len(hostname) > 255: # It may not be longer than 255 characters
+    if not hostname or len(hostname) > 255: # It may not be empty, or longer than 255 characters
         return False
     if hostname[-1] == ".":
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
-    return all(allowed.match(x) for x in hostname.split("."))
+    allowed = re.compile(r"(?!-)[A-Za-z0-9-]{1,63}(?<!-)")
+    return all(allowed.fullmatch(x) for x in hostname.split("."))
 
 # --------------------------------------------------------------------------------
 def is_valid_hostname(hostname: str) -> bool:
-- 
2.43.0


From 204470b38829ca2f85932b13a8d52a22ceeb3cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:07 +0000
Subject: [PATCH 44/54] fix: a port number consists of ASCII digits, and is at
 most 65535

---
 ekosis/util/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/util/utility_functions.py b/ekosis/util/utility_functions.py
index ac04fec..62933ff 100644
--- a/ekosis/util/utility_functions.py
+++ b/ekosis/util/utility_functions.py
@@ -49,7 +49,7 @@ def is_valid_hostname(hostname: str) -> bool:
 
 # --------------------------------------------------------------------------------
 def is_valid_port_number(port_number: str) -> bool:
-    return port_number.isdigit()
+    return port_number.isascii() and port_number.isdigit() and len(port_number) <= 5 and int(port_number) <= 65535
 
 # --------------------------------------------------------------------------------
 def flatten_dictionary(dictionary: Dict[str, Any], current_key: str = '') -> Dict[str, Any]:
-- 
2.43.0


From 174f44bbe72eb2f3739cd32da58ace71530a021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 45/54] fix: a queue survives that its database cannot be
 written for a while

A failed write left the SQLAlchemy session unusable until the next start, everything in memory was lost with it, and
a page that could not be deleted after loading was handed out twice.
---
 ekosis/queues/paginated_queue.py | 67 +++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 23 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 2d167bb..fc2b3f9 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -1,15 +1,19 @@
 import json
+import logging
 import sqlalchemy
 
+from contextlib import contextmanager
 from typing import cast, Dict, List, Type, TypeVar, Generic
 
 from pydantic import BaseModel as PydanticBaseModel
 
 from sqlalchemy import create_engine, Column, BigInteger, BINARY, String, func, Table, MetaData, asc, desc, exists
-from sqlalchemy.exc import NoResultFound
+from sqlalchemy.exc import NoResultFound, SQLAlchemyError
 from sqlalchemy.orm import sessionmaker
 from ..data_transfer_objects import SpanKey
 
+log = logging.getLogger()
+
 OrmBaseClass = sqlalchemy.orm.declarative_base()
 
 _QueuedType = TypeVar('_QueuedType', bound=PydanticBaseModel)
@@ -134,6 +138,18 @@ class PaginatedQueue(Generic[_QueuedType]):
         self.session = sessionmaker(bind=self.database_engine, autoflush=False)()
         self.__do_initial_load()
 
+    # --------------------------------------------------------------------------------
+    # A session that failed to write something (e.g. because the disk is full) can't be used again, until it has been
+    # rolled back.
+    @contextmanager
+    def __transaction(self):
+        try:
+            yield
+            self.session.commit()
+        except Exception:
+            self.session.rollback()
+            raise
+
     # --------------------------------------------------------------------------------
     def __do_initial_load(self):
         if self.__get_database_size() > 0:
@@ -157,11 +173,11 @@ class PaginatedQueue(Generic[_QueuedType]):
 
     # --------------------------------------------------------------------------------
     def __delete_record_ids(self, record_ids: List[int]):
-        self.session.\
-            query(QueueRecord).\
-            filter(QueueRecord.record_id.in_(record_ids)).\
-            delete(synchronize_session='fetch')
-        self.session.commit()
+        with self.__transaction():
+            self.session.\
+                query(QueueRecord).\
+                filter(QueueRecord.record_id.in_(record_ids)).\
+                delete(synchronize_session='fetch')
 
     # --------------------------------------------------------------------------------
     def __load_front_page(self):
@@ -170,10 +186,11 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(asc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
-            self.front_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
+        entries = [(str(record.object_string), SpanKey.from_bytes(record.span_key)) for record in records]
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
-        self.__delete_record_ids(ids_to_delete)
+        self.__delete_record_ids(ids_to_delete) # If this fails, they are still in the database, and only there.
+        for entry in entries:
+            self.front_page.push_with_str(*entry)
 
     # --------------------------------------------------------------------------------
     def __load_back_page(self):
@@ -182,10 +199,11 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in reversed(records):
-            self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
+        entries = [(str(record.object_string), SpanKey.from_bytes(record.span_key)) for record in reversed(records)]
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
-        self.__delete_record_ids(ids_to_delete)
+        self.__delete_record_ids(ids_to_delete) # If this fails, they are still in the database, and only there.
+        for entry in entries:
+            self.back_page.push_with_str(*entry)
 
     # --------------------------------------------------------------------------------
     def __write_front_page(self):
@@ -199,8 +217,8 @@ class PaginatedQueue(Generic[_QueuedType]):
                 object_string= entry.object_string
             ))
             min_record_id -= 1
-        self.session.bulk_save_objects(data_to_write)
-        self.session.commit()
+        with self.__transaction():
+            self.session.bulk_save_objects(data_to_write)
         self.front_page = QueuePage(self.queued_type)
 
     # --------------------------------------------------------------------------------
@@ -215,8 +233,8 @@ class PaginatedQueue(Generic[_QueuedType]):
                 object_string= entry.object_string
             ))
             max_record_id += 1
-        self.session.bulk_save_objects(data_to_write)
-        self.session.commit()
+        with self.__transaction():
+            self.session.bulk_save_objects(data_to_write)
         self.back_page = QueuePage(self.queued_type)
 
     # --------------------------------------------------------------------------------
@@ -267,7 +285,10 @@ class PaginatedQueue(Generic[_QueuedType]):
             self.back_page = QueuePage(self.queued_type)
             return self.back_page.push(object_to_queue, span_key)
         else:
-            self.__write_back_page()
+            try:
+                self.__write_back_page()
+            except SQLAlchemyError as e: # We may not lose anything, so: the page grows until it can be written.
+                log.error(f"Could not write to [{self.file_path}]: {e}")
             return self.back_page.push(object_to_queue, span_key)
 
     # --------------------------------------------------------------------------------
@@ -307,8 +328,8 @@ class PaginatedQueue(Generic[_QueuedType]):
         if record is None:
             return None
         queued_data = json.loads(record.object_string)
-        self.session.delete(record)
-        self.session.commit()
+        with self.__transaction():
+            self.session.delete(record)
         return self.queued_type(**queued_data)
 
     # --------------------------------------------------------------------------------
@@ -335,10 +356,10 @@ class PaginatedQueue(Generic[_QueuedType]):
     async def clear(self):
         metadata = MetaData()
         table    = Table("queued_objects", metadata, autoload_with=self.database_engine)
-        self.session.query(table).filter(table.c.record_id > 0).delete()
-        self.session.query(table).filter(table.c.record_id < 0).delete()
-        self.session.query(table).filter(table.c.record_id == 0).delete()
-        self.session.commit()
+        with self.__transaction():
+            self.session.query(table).filter(table.c.record_id > 0).delete()
+            self.session.query(table).filter(table.c.record_id < 0).delete()
+            self.session.query(table).filter(table.c.record_id == 0).delete()
         self.front_page = QueuePage(self.queued_type)
         self.back_page  = self.front_page
 
-- 
2.43.0


From 62e686861d510839d4c909e22627e245178206fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 46/54] fix: buffered endpoints and senders go on when their
 queue can be written again

A pop that failed ended the processing until the next push, and a reprocess command that failed left it paused.
---
 ekosis/requests/buffered_handler_base.py | 24 +++++++++++++++++-------
 ekosis/sending/buffered_sender_base.py   | 24 +++++++++++++++++-------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 93ab892..344f428 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -2,6 +2,7 @@ import asyncio
 import logging
 
 from pydantic import BaseModel as PydanticBaseModel
+from sqlalchemy.exc import SQLAlchemyError
 from abc import ABC, abstractmethod
 from typing import Type, TypeVar, Generic, List
 
@@ -105,17 +106,21 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     async def reprocess_error_queue(self):
         was_paused              = self._processing_paused
         self._processing_paused = True
-        await self.queue.move_all_error_to_pending()
-        self._processing_paused = was_paused
-        self.__check_process_queue()
+        try:
+            await self.queue.move_all_error_to_pending()
+        finally:
+            self._processing_paused = was_paused
+            self.__check_process_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
         was_paused              = self._processing_paused
         self._processing_paused = True
-        buffered_request        = await self.queue.move_one_error_to_pending(span_key)
-        self._processing_paused = was_paused
-        self.__check_process_queue()
+        try:
+            buffered_request = await self.queue.move_one_error_to_pending(span_key)
+        finally:
+            self._processing_paused = was_paused
+            self.__check_process_queue()
         if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
@@ -179,7 +184,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def __do_queue_processing(self):
         while not self._processing_paused and await self.queue.has_pending():
-            buffered_item = await self.queue.pop()
+            try:
+                buffered_item = await self.queue.pop()
+            except SQLAlchemyError as e: # e.g. The disk is full. Nothing got popped, so: try again in a while.
+                self.log.error(f"Could not read from the queue of [{self._route_key}]: {e}")
+                await asyncio.sleep(1)
+                continue
             span_key      = buffered_item.span_key
             request_data  = buffered_item.data
             retries       = buffered_item.retries
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 3484fbc..556eaab 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -3,6 +3,7 @@ import logging
 
 from typing import Type, TypeVar, Generic, List
 from pydantic import BaseModel as PydanticBaseModel
+from sqlalchemy.exc import SQLAlchemyError
 
 from .sender_base import SenderBase
 
@@ -86,7 +87,12 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def __do_queue_processing(self):
         while not self._sending_paused and self.queue.pending_q.size():
-            buffered_item = await self.queue.pop()
+            try:
+                buffered_item = await self.queue.pop()
+            except SQLAlchemyError as e: # e.g. The disk is full. Nothing got popped, so: try again in a while.
+                self.log.error(f"Could not read from the queue of [{self._route_key}]: {e}")
+                await asyncio.sleep(1)
+                continue
             span_key      = buffered_item.span_key
             request_data  = buffered_item.data
             retries       = buffered_item.retries
@@ -161,17 +167,21 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     async def reprocess_error_queue(self):
         was_paused           = self._sending_paused
         self._sending_paused = True
-        await self.queue.move_all_error_to_pending()
-        self._sending_paused = was_paused
-        self.__check_process_send_queue()
+        try:
+            await self.queue.move_all_error_to_pending()
+        finally:
+            self._sending_paused = was_paused
+            self.__check_process_send_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
         was_paused           = self._sending_paused
         self._sending_paused = True
-        buffered_request     = await self.queue.move_one_error_to_pending(span_key)
-        self._sending_paused = was_paused
-        self.__check_process_send_queue()
+        try:
+            buffered_request = await self.queue.move_one_error_to_pending(span_key)
+        finally:
+            self._sending_paused = was_paused
+            self.__check_process_send_queue()
         if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
-- 
2.43.0


From f7c2c7a2f7993639c4aae5c2a9eb83c8395b1e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:09 +0000
Subject: [PATCH 47/54] fix: one queue that cannot be written at shutdown does
 not keep the others from being shut down

---
 ekosis/application_base.py     | 13 +++++++++----
 ekosis/queues/pending_queue.py |  6 ++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index ba17657..345b1ea 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -232,14 +232,19 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     def __shut_down_buffered_handlers(self):
         for buffered_handler in self.__request_router.get_buffered_handlers():
-            buffered_handler.shut_down()
+            try:
+                buffered_handler.shut_down()
+            except Exception as e: # e.g. The disk is full. The others still have to be shut down.
+                self.logger.critical(f"Could not shut down buffered handler [{buffered_handler.get_route_key()}]: {e}")
 
     # --------------------------------------------------------------------------------
-    @staticmethod
-    def __shut_down_buffered_senders():
+    def __shut_down_buffered_senders(self):
         buffered_sender_keeper = BufferedSenderKeeper()
         for buffered_sender in buffered_sender_keeper.get_buffered_senders():
-            buffered_sender.shut_down()
+            try:
+                buffered_sender.shut_down()
+            except Exception as e:
+                self.logger.critical(f"Could not shut down buffered sender [{buffered_sender.get_route_key()}]: {e}")
 
     # --------------------------------------------------------------------------------
     def start(self):
diff --git a/ekosis/queues/pending_queue.py b/ekosis/queues/pending_queue.py
index d8b7ca6..4052989 100644
--- a/ekosis/queues/pending_queue.py
+++ b/ekosis/queues/pending_queue.py
@@ -37,8 +37,10 @@ class PendingQueue:
 
     # --------------------------------------------------------------------------------
     def shut_down(self):
-        self.pending_q.shut_down()
-        self.error_q.shut_down()
+        try:
+            self.pending_q.shut_down()
+        finally:
+            self.error_q.shut_down()
 
     # --------------------------------------------------------------------------------
     async def has_pending(self):
-- 
2.43.0


From 129e159255dad76109ad0007199ac20232a75214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:23 +0000
Subject: [PATCH 48/54] fix: a queue session is rolled back by a decorator, the
 write paths stay as they were

---
 ekosis/queues/paginated_queue.py | 72 +++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index fc2b3f9..c9725c5 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -1,8 +1,9 @@
+import functools
+import inspect
 import json
 import logging
 import sqlalchemy
 
-from contextlib import contextmanager
 from typing import cast, Dict, List, Type, TypeVar, Generic
 
 from pydantic import BaseModel as PydanticBaseModel
@@ -117,6 +118,28 @@ class QueuePage:
                     retval.append(str(self.__page_data_list[x].span_key))
         return retval
 
+# --------------------------------------------------------------------------------
+# A session that failed to write something (e.g. because the disk is full) can't be used again, until it has been rolled
+# back.
+def roll_back_on_failure(method):
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        try:
+            return method(self, *args, **kwargs)
+        except Exception:
+            self.session.rollback()
+            raise
+
+    @functools.wraps(method)
+    async def async_wrapper(self, *args, **kwargs):
+        try:
+            return await method(self, *args, **kwargs)
+        except Exception:
+            self.session.rollback()
+            raise
+
+    return async_wrapper if inspect.iscoroutinefunction(method) else wrapper
+
 # --------------------------------------------------------------------------------
 class PaginatedQueue(Generic[_QueuedType]):
     def __init__(
@@ -138,18 +161,6 @@ class PaginatedQueue(Generic[_QueuedType]):
         self.session = sessionmaker(bind=self.database_engine, autoflush=False)()
         self.__do_initial_load()
 
-    # --------------------------------------------------------------------------------
-    # A session that failed to write something (e.g. because the disk is full) can't be used again, until it has been
-    # rolled back.
-    @contextmanager
-    def __transaction(self):
-        try:
-            yield
-            self.session.commit()
-        except Exception:
-            self.session.rollback()
-            raise
-
     # --------------------------------------------------------------------------------
     def __do_initial_load(self):
         if self.__get_database_size() > 0:
@@ -172,12 +183,13 @@ class PaginatedQueue(Generic[_QueuedType]):
         return int(self.session.query(func.min(QueueRecord.record_id)).scalar())
 
     # --------------------------------------------------------------------------------
+    @roll_back_on_failure
     def __delete_record_ids(self, record_ids: List[int]):
-        with self.__transaction():
-            self.session.\
-                query(QueueRecord).\
-                filter(QueueRecord.record_id.in_(record_ids)).\
-                delete(synchronize_session='fetch')
+        self.session.\
+            query(QueueRecord).\
+            filter(QueueRecord.record_id.in_(record_ids)).\
+            delete(synchronize_session='fetch')
+        self.session.commit()
 
     # --------------------------------------------------------------------------------
     def __load_front_page(self):
@@ -206,6 +218,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             self.back_page.push_with_str(*entry)
 
     # --------------------------------------------------------------------------------
+    @roll_back_on_failure
     def __write_front_page(self):
         page_data     = list(reversed(self.front_page.get_page_list()))
         min_record_id = self.__get_min_record_id() - 1
@@ -217,11 +230,12 @@ class PaginatedQueue(Generic[_QueuedType]):
                 object_string= entry.object_string
             ))
             min_record_id -= 1
-        with self.__transaction():
-            self.session.bulk_save_objects(data_to_write)
+        self.session.bulk_save_objects(data_to_write)
+        self.session.commit()
         self.front_page = QueuePage(self.queued_type)
 
     # --------------------------------------------------------------------------------
+    @roll_back_on_failure
     def __write_back_page(self):
         page_data     = self.back_page.get_page_list()
         max_record_id = self.__get_max_record_id() + 1
@@ -233,8 +247,8 @@ class PaginatedQueue(Generic[_QueuedType]):
                 object_string= entry.object_string
             ))
             max_record_id += 1
-        with self.__transaction():
-            self.session.bulk_save_objects(data_to_write)
+        self.session.bulk_save_objects(data_to_write)
+        self.session.commit()
         self.back_page = QueuePage(self.queued_type)
 
     # --------------------------------------------------------------------------------
@@ -317,6 +331,7 @@ class PaginatedQueue(Generic[_QueuedType]):
         return self.queued_type(**queued_data)
 
     # --------------------------------------------------------------------------------
+    @roll_back_on_failure
     async def pop_span_key(self, span_key: SpanKey):
         if self.front_page.has_entry(span_key):
             return self.front_page.pop_entry(span_key)
@@ -328,8 +343,8 @@ class PaginatedQueue(Generic[_QueuedType]):
         if record is None:
             return None
         queued_data = json.loads(record.object_string)
-        with self.__transaction():
-            self.session.delete(record)
+        self.session.delete(record)
+        self.session.commit()
         return self.queued_type(**queued_data)
 
     # --------------------------------------------------------------------------------
@@ -353,13 +368,14 @@ class PaginatedQueue(Generic[_QueuedType]):
         return retval
 
     # --------------------------------------------------------------------------------
+    @roll_back_on_failure
     async def clear(self):
         metadata = MetaData()
         table    = Table("queued_objects", metadata, autoload_with=self.database_engine)
-        with self.__transaction():
-            self.session.query(table).filter(table.c.record_id > 0).delete()
-            self.session.query(table).filter(table.c.record_id < 0).delete()
-            self.session.query(table).filter(table.c.record_id == 0).delete()
+        self.session.query(table).filter(table.c.record_id > 0).delete()
+        self.session.query(table).filter(table.c.record_id < 0).delete()
+        self.session.query(table).filter(table.c.record_id == 0).delete()
+        self.session.commit()
         self.front_page = QueuePage(self.queued_type)
         self.back_page  = self.front_page
 
-- 
2.43.0


From 2ec4377a575e0770435c5f01a6979ed83bd76d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:27 +0000
Subject: [PATCH 49/54] fix: a console that is gone does not keep an
 application from starting or ending

---
 ekosis/logs/logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index 3f684d1..bfb6ca7 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -95,7 +95,10 @@ class EcoLogger(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     def flush(self):
         if not self.__log_config.file_only: # pragma: no cover
-            self.__console_handler.flush()
+            try:
+                self.__console_handler.flush()
+            except (OSError, ValueError): # e.g. The terminal, or whatever else was reading our output, is gone.
+                pass
 
         if not self.__log_config.console_only:
             self.__file_handler.flush()
-- 
2.43.0


From 2b3413123f949a4da72c4b51d03a2b7c7d48882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:27 +0000
Subject: [PATCH 50/54] fix: an end by signal does not leave an error in the
 log

---
 ekosis/application_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 345b1ea..d783481 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -334,5 +334,7 @@ class ApplicationBase(metaclass=SingletonType):
         all_tasks = asyncio.gather(*tasks)
         await asyncio.wait([all_tasks, terminate_future], return_when=asyncio.FIRST_COMPLETED)
         if terminate_future.done():
+            # All tasks get cancelled from here, and there is nobody left that could be waiting for them.
+            all_tasks.add_done_callback(lambda future: future.cancelled() or future.exception())
             raise TerminationSignalException("Exit signal received")
         await all_tasks
-- 
2.43.0


From 3f1d6bb032c3c6b9fcfc79b19d50fc0c1c3e3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 51/54] fix: the log file is UTF-8, so no locale makes it lose
 records

---
 ekosis/logs/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index bfb6ca7..e022b52 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -24,7 +24,8 @@ class EcoLogger(metaclass=SingletonType):
             log_file_config.base_file_path,
             buffer_size  = log_file_config.buffer_size,
             max_bytes    = log_file_config.max_size_in_bytes,
-            backup_count = log_file_config.max_files
+            backup_count = log_file_config.max_files,
+            encoding     = "utf-8" # Whatever the locale is: no record may be lost, because it can't be encoded.
         )
 
         self.__file_handler.setLevel(self.__level)
-- 
2.43.0


From e7e8da323ebf384f3231eb4fad0e030c1a35fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 52/54] fix: a log record with lone surrogates in its text is
 not lost

---
 ekosis/logs/otlp_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index dea5e83..d7ac7ed 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -16,7 +16,7 @@ class OtlpFormatter(logging.Formatter):
             timestamp       = datetime.datetime.fromtimestamp(record.created, tz=datetime.timezone.utc).isoformat(),
             severity_number = severity_number,
             severity_text   = severity_text,
-            body            = record.getMessage(),
+            body            = record.getMessage().encode(errors = 'backslashreplace').decode(), # Lone surrogates can't be written
             attributes      = {
                 # application_name/instance properly belong on the OTLP
                 # Resource (one per file, set from the shipper's own config
-- 
2.43.0


From fb7cf4ef341ea4303d146d8da812fc39c82067af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 53/54] fix: a failure whose reason has lone surrogates does
 not lose the message

---
 ekosis/queues/pending_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/pending_queue.py b/ekosis/queues/pending_queue.py
index 4052989..d15a783 100644
--- a/ekosis/queues/pending_queue.py
+++ b/ekosis/queues/pending_queue.py
@@ -121,7 +121,7 @@ class PendingQueue:
         entry_to_queue = ErrorEntry(
             span_key = span_key,
             data     = item_data,
-            reason   = reason,
+            reason   = reason.encode(errors = 'backslashreplace').decode(), # Lone surrogates can't be stored
             metadata = metadata or {},
         )
         await self.error_q.push(entry_to_queue, span_key)
-- 
2.43.0


From ad9dbed2b16519bd93c054e1738d5b3bf505756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:41 +0000
Subject: [PATCH 54/54] fix: the UDP server keeps the tasks that answer its
 requests, the event loop does not

---
 ekosis/servers/json/udp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 00d4021..d3cbf03 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -1,6 +1,8 @@
 import asyncio
 import logging
 
+from typing import Set
+
 from ..server_base import ServerBase
 
 from ...configuration.config_models import ConfigUDP
@@ -20,6 +22,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
         self.transport     : asyncio.DatagramTransport = None
         self.loop          : asyncio.AbstractEventLoop = None
         self.__write_lock  : asyncio.Lock              = asyncio.Lock()
+        self.__tasks       : Set[asyncio.Task]         = set() # The event loop keeps only weak references to tasks
 
     def connection_made(self, transport):
         self.transport = transport
@@ -36,7 +39,9 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                self.loop.create_task(self.do_response(bytes_read, addr))
+                task = self.loop.create_task(self.do_response(bytes_read, addr))
+                self.__tasks.add(task)
+                task.add_done_callback(self.__tasks.discard)
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
-- 
2.43.0

