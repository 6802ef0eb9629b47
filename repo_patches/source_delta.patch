From c121351e0b141f581d7734928a861d40d283fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 01/22] fix: consume every reply even if settling a deferred
 write charge fails

A handler of an old value may raise OutOfStepException, or drain the
following replies on its own. Then the reply of the request in progress was
left unread (and taken for the reply of a later request), or pop from an
empty list was tried.
---
 pyee/pyexec/ipc/proxy.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0fd7c7e..4b5dbb3 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -454,21 +454,35 @@ class ServiceManagerProxy:
         return False
 
     def __handle_set_values(self, cnt: int):
-        for i in range(0, cnt):
+        # A handler may raise an exception or handle the following replies by
+        # itself. Even so, all the replies should be consumed exactly once.
+        remains = len(self.__set_handlers) - cnt
+        error = None
+        while len(self.__set_handlers) > remains:
             handler, size = self.__set_handlers.pop(0)
             msg, data = self.__client.receive()
             if msg != Message.SETVALUE:
                 raise Exception(f'InvalidMsg({msg}) exp={Message.SETVALUE}')
             if handler is not None:
-                if data[0]:
-                    handler(True, data[1], size)
-                else:
-                    handler(False, 0, 0)
+                try:
+                    if data[0]:
+                        handler(True, data[1], size)
+                    else:
+                        handler(False, 0, 0)
+                except BaseException as e:
+                    if error is None:
+                        error = e
+        if error is not None:
+            raise error
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
         self.__client.send(msg, data)
-        self.handle_set_values()
-        return self.__client.receive()
+        try:
+            self.handle_set_values()
+        finally:
+            # the reply should be consumed even if it fails to handle old values
+            reply = self.__client.receive()
+        return reply
 
     def get_value(self, key: bytes) -> Optional[bytes]:
         msg, value = self.send_and_receive(Message.GETVALUE, key)
-- 
2.43.0


From 9d1cee0ac88eac35b5f81998c3079feb1df96121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 02/22] fix: report a failure to settle deferred charges as the
 result

OutOfStepException is not an Exception, so when the last deferred charges of
an execution did not fit, it escaped from the request handler and killed the
executor without a reply.
---
 pyee/pyexec/service_engine.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index ef5356e..c09b3ed 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -90,17 +90,17 @@ class ServiceEngine(ContextContainer):
     @classmethod
     def _handle_invoke(cls, context):
         try:
-            ret = cls._internal_call(context)
+            try:
+                ret = cls._internal_call(context)
+            finally:
+                cls._proxy.handle_set_values()
+                if context.fee_sharing_proportion > 0:
+                    cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
             status = Status.SUCCESS
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
-        finally:
-            cls._proxy.handle_set_values()
-            if context.fee_sharing_proportion > 0:
-                cls._proxy.set_fee_proportion(context.fee_sharing_proportion)
-            step_used = context.step_counter.step_used
 
-        return status, step_used, ret
+        return status, context.step_counter.step_used, ret
 
     @classmethod
     def _internal_call(cls, context: IconScoreContext):
-- 
2.43.0


From 8293588b192761dc7b8a7585c02c3ee1e4e50252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 03/22] fix: pop the context however the execution ends

An exception escaping from the handler (e.g. one whose text cannot be made)
left its context on the stack, and the caller went on with it.
---
 pyee/pyexec/service_engine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index c09b3ed..04defd3 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -63,8 +63,10 @@ class ServiceEngine(ContextContainer):
         Logger.debug(f'[invoke] {context.method}, {context.params}', TAG)
 
         cls._push_context(context)
-        status, step_used, ret = cls._handle_invoke(context)
-        cls._pop_context()
+        try:
+            status, step_used, ret = cls._handle_invoke(context)
+        finally:
+            cls._pop_context()
 
         Logger.debug(f'*** RESULT: {status}, {step_used}, {ret}', TAG)
         return status, step_used, ret
-- 
2.43.0


From 004b19f1ff08bef62818ccdab6573b7ed43fa254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 04/22] fix: reply to the node whatever a contract raises while
 its outcome is handled

The text, code and items of exceptions and results are contract code, which
may raise e.g. SystemExit.
---
 pyee/pyexec/ipc/proxy.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 4b5dbb3..0426eda 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -388,13 +388,17 @@ class ServiceManagerProxy:
                 self.encode(step_used),
                 self.encode_any(result)
             ])
-        except Exception as e:
+        except BaseException as e:
             e_str = traceback.format_exc()
             self.debug(f"Exception in INVOKE:\n{e_str}", TAG)
+            try:
+                message = self.encode_any(f'ExceptionInInvoke({str(e)})')
+            except BaseException:
+                message = self.encode_any('ExceptionInInvoke')
             self.__client.send(Message.RESULT, [
                 Status.SYSTEM_FAILURE,
                 self.encode(limit),
-                self.encode_any(f'ExceptionInInvoke({str(e)})')
+                message
             ])
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
@@ -410,7 +414,7 @@ class ServiceManagerProxy:
                     self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
             else:
                 self.__client.send(Message.GETAPI, [status, None])
-        except Exception:
+        except BaseException:
             e_str = traceback.format_exc()
             self.debug(f"Exception in GETAPI:\n{e_str}", TAG)
             self.__client.send(Message.GETAPI, [Status.SYSTEM_FAILURE, None])
-- 
2.43.0


From 7d94bd1c14c1241588da73d6c5932fd5ba75b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 05/22] fix: log texts which cannot be encoded in UTF-8

A contract could make the executor fail while it logs an exception.
---
 pyee/pyexec/ipc/proxy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index 0426eda..e6fcb6d 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -551,7 +551,9 @@ class ServiceManagerProxy:
         flag = 0
         if level == Log.DEBUG or level == Log.TRACE:
             flag = LogFlag.TRACE
-        self.__client.send(Message.LOG, [int(level), int(flag), str(msg)])
+        # surrogates cannot be packed
+        text = str(msg).encode('utf-8', 'replace').decode('utf-8')
+        self.__client.send(Message.LOG, [int(level), int(flag), text])
 
     def debug(self, msg: str, tag: str = 'LOG') -> None:
         self.log(Log.DEBUG, f"[{tag}] {msg}")
-- 
2.43.0


From 680cbe160c4d98111d91f8d423ddc6f86beca66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 06/22] fix: inspect a contract without the context of the
 execution in progress

An inspection requested during a call ran the constructor and the class body
of the contract with the context of the caller, so they could write its
state through retained databases and consume its steps.
---
 pyee/pyexec/service_engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 04defd3..22fee6b 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -73,6 +73,8 @@ class ServiceEngine(ContextContainer):
 
     @classmethod
     def get_score_api(cls, code: str, verify_package=False):
+        # it may come in the middle of an execution, whose context should not be used
+        cls._push_context(None)
         try:
             if verify_package:
                 ScorePackageValidator.execute(code)
@@ -82,6 +84,8 @@ class ServiceEngine(ContextContainer):
             status = Status.SUCCESS
         except BaseException as e:
             status, ret = cls._get_status_from_exception(e)
+        finally:
+            cls._pop_context()
 
         return status, ret
 
-- 
2.43.0


From 94e68903a96cdb35eeb17f937dcd230ec65ddb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 07/22] fix: send no request to the node while a contract is
 inspected

A constructor could ask for a balance, or read the state through retained
objects. The node panics on such requests while it waits for the API.
---
 pyee/pyexec/ipc/proxy.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/ipc/proxy.py b/pyee/pyexec/ipc/proxy.py
index e6fcb6d..0dd36a7 100644
--- a/pyee/pyexec/ipc/proxy.py
+++ b/pyee/pyexec/ipc/proxy.py
@@ -253,6 +253,7 @@ class ServiceManagerProxy:
         self.__codec = None
         self.__readonly_stack = []
         self.__readonly = False
+        self.__inspecting = False
         self.__set_handlers: List[Tuple[SetHandler, int]] = []
 
     def connect(self, addr):
@@ -403,10 +404,22 @@ class ServiceManagerProxy:
         finally:
             self.__readonly = self.__readonly_stack.pop(-1)
 
+    def __check_inspecting(self):
+        if self.__inspecting:
+            raise Exception('NoPermissionInInspection')
+
+    def __inspect(self, code: str) -> Tuple[int, APIInfo]:
+        inspecting = self.__inspecting
+        self.__inspecting = True
+        try:
+            return self.__get_api(code)
+        finally:
+            self.__inspecting = inspecting
+
     def __handle_get_api(self, data):
         try:
             code = self.decode(TypeTag.STRING, data)
-            status, obj = self.__get_api(code)
+            status, obj = self.__inspect(code)
             if status == Status.SUCCESS:
                 if isinstance(obj, APIInfo):
                     self.__client.send(Message.GETAPI, [Status.SUCCESS, obj.get_data()])
@@ -432,6 +445,7 @@ class ServiceManagerProxy:
     def call(self, to: 'Address', value: int,
              step_limit: int, method: str,
              params: Any) -> Tuple[int, int, Any]:
+        self.__check_inspecting()
         data = {
             'method': method,
             'params': params
@@ -480,6 +494,7 @@ class ServiceManagerProxy:
             raise error
 
     def send_and_receive(self, msg: int, data: bytes) -> Tuple[int, Any]:
+        self.__check_inspecting()
         self.__client.send(msg, data)
         try:
             self.handle_set_values()
@@ -498,6 +513,7 @@ class ServiceManagerProxy:
             return None
 
     def set_value(self, key: bytes, value: Optional[bytes], cb: Optional[SetHandler]):
+        self.__check_inspecting()
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
         flag = 0
@@ -514,6 +530,7 @@ class ServiceManagerProxy:
                 self.__handle_set_values(len(self.__set_handlers) - MAX_SET_VALUE_HANDLERS)
 
     def set_fee_proportion(self, pct: int):
+        self.__check_inspecting()
         if self.__readonly:
             raise Exception('NoPermissionToWrite')
         pct = pct | 0
@@ -540,6 +557,7 @@ class ServiceManagerProxy:
         return self.decode(TypeTag.INT, value)
 
     def send_event(self, indexed: List[Any], data: List[Any]):
+        self.__check_inspecting()
         if self.__readonly:
             return
         self.__client.send(Message.EVENT, [
-- 
2.43.0


From b3cd203f39c455f01d1fe19d3ad2664c3275837b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 08/22] fix: account a coin transfer to the execution which
 makes it

An Icx object kept from another execution used the step account of that one,
so the limit passed to the callee was not what remains.
---
 pyee/pyexec/iconscore/icon_score_base2.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base2.py b/pyee/pyexec/iconscore/icon_score_base2.py
index 0b866b2..9fbb708 100644
--- a/pyee/pyexec/iconscore/icon_score_base2.py
+++ b/pyee/pyexec/iconscore/icon_score_base2.py
@@ -126,7 +126,9 @@ class Icx(object):
         :param addr_to: receiver address
         :param amount: the amount of icx to transfer
         """
-        InternalCall.message_call(self._context, self._address, addr_to, amount, None)
+        # this object may be used after the execution in which it was made
+        context = ContextContainer._get_context()
+        InternalCall.message_call(context, self._address, addr_to, amount, None)
 
     def send(self, addr_to: 'Address', amount: int) -> bool:
         """
-- 
2.43.0


From e47fcd22b3833c35cf7ee66f37264190a5fe19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:31 +0000
Subject: [PATCH 09/22] fix: fall back to the replace price only for the charge
 of the write itself

OutOfStepException raised while a deferred delete is settled, or after the
write was requested, was taken for it: the failed charge was dropped, or the
write was requested twice.
---
 pyee/pyexec/database/db.py               | 6 +++++-
 pyee/pyexec/iconscore/icon_score_step.py | 7 +++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/database/db.py b/pyee/pyexec/database/db.py
index e62b267..a7a1dc5 100644
--- a/pyee/pyexec/database/db.py
+++ b/pyee/pyexec/database/db.py
@@ -165,8 +165,10 @@ class ContextDatabase(object):
             try:
                 # apply steps for set first
                 self._charge_step_set(context, value)
-                self._db.put(key, value, self.__refund_handler)
             except OutOfStepException as e:
+                if e.step_type != StepType.SET:
+                    # a deferred charge was not settled
+                    raise
                 # restore to the previous state
                 context.step_counter.add_step(e.step_used - e.step_limit)
                 # do fallback handling
@@ -182,6 +184,8 @@ class ContextDatabase(object):
                         self.__refund_handler(True, len(old_val))
                     context.step_counter.apply_step(StepType.SET, len(value))
                 self._db.put(key, value, None)
+            else:
+                self._db.put(key, value, self.__refund_handler)
         else:
             if value is None:
                 raise DatabaseException('value should not be None')
diff --git a/pyee/pyexec/iconscore/icon_score_step.py b/pyee/pyexec/iconscore/icon_score_step.py
index b1e9e4c..4bfbb8e 100644
--- a/pyee/pyexec/iconscore/icon_score_step.py
+++ b/pyee/pyexec/iconscore/icon_score_step.py
@@ -101,6 +101,13 @@ class OutOfStepException(IconServiceBaseException):
         """
         return self.__requested_step
 
+    @property
+    def step_type(self) -> StepType:
+        """
+        Returns step type that the exception has been thrown when processing
+        """
+        return self.__step_type
+
 
 class IconScoreStepCounter(object):
     """ Counts steps in a transaction
-- 
2.43.0


From 48b4462596f28ae6bad290da04c995c9e1d77939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 10/22] fix: reject an import whose level constant has a large
 index

EXTENDED_ARG before LOAD_CONST of the level was ignored, so another constant
was taken for the level, and any module could be imported as if relatively.
---
 pyee/pyexec/iconscore/score_package_validator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index ed66daf..cf8000d 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -27,6 +27,7 @@ LOAD_CONST = 100
 IMPORT_STAR = 84
 IMPORT_NAME = 108
 IMPORT_FROM = 109
+EXTENDED_ARG = 144
 
 BASE_PACKAGE = 'iconservice'
 
@@ -172,6 +173,9 @@ class ScorePackageValidator(object):
         level_op_code_key = byte_code_list[current_index - 4]
         if LOAD_CONST != from_list_op_code_key or LOAD_CONST != level_op_code_key:
             raise IllegalFormatException('Invalid import opcode')
+        if current_index >= 6 and EXTENDED_ARG == byte_code_list[current_index - 6]:
+            # the index of the level is larger than its last byte
+            raise IllegalFormatException('Invalid import opcode')
 
         import_name_index = byte_code_list[current_index + 1]
         from_list_index = byte_code_list[current_index - 1]
-- 
2.43.0


From c7d6ed48eadaf46b4bcfe9ce1ec2ec48fe37c8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:04 +0000
Subject: [PATCH 11/22] fix: check that a method is callable before touching
 the attribute of its name

With named parameters, the attribute was read for its annotations before
the check, so a property of the contract ran, and names which are not
attributes ended with a system error instead of method-not-found.
---
 pyee/pyexec/iconscore/icon_score_base.py | 17 ++++++++++-------
 pyee/pyexec/service_engine.py            |  4 ++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index 72cb6e8..bdb2827 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -437,15 +437,9 @@ class IconScoreBase(IconScoreObject, ContextGetter,
                arg_params: Optional[list] = None,
                kw_params: Optional[dict] = None) -> Any:
 
-        if func_name != STR_FALLBACK and \
-                func_name != STR_ON_INSTALL and \
-                func_name != STR_ON_UPDATE:
-            self.__validate_external_method(func_name)
+        self.__validate_callable(func_name)
 
         if func_name == STR_FALLBACK:
-            if not self.__is_payable_method(func_name):
-                raise MethodNotFoundException(
-                    f"Method not found: {type(self).__name__}.{func_name}")
             score_func = getattr(self, func_name)
             ret = score_func()
         else:
@@ -458,6 +452,15 @@ class IconScoreBase(IconScoreObject, ContextGetter,
             ret = score_func(*arg_params, **kw_params)
         return ret
 
+    def __validate_callable(self, func_name: str) -> None:
+        if func_name == STR_FALLBACK:
+            if not self.__is_payable_method(func_name):
+                raise MethodNotFoundException(
+                    f"Method not found: {type(self).__name__}.{func_name}")
+        elif func_name != STR_ON_INSTALL and \
+                func_name != STR_ON_UPDATE:
+            self.__validate_external_method(func_name)
+
     def __check_payable(self, func_name: str):
         if self.msg.value > 0 and not self.__is_payable_method(func_name):
             raise MethodNotPayableException(
diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 22fee6b..8b3874f 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -117,6 +117,10 @@ class ServiceEngine(ContextContainer):
         func_name: str = context.method
         context.set_func_type_by_icon_score(icon_score, func_name)
 
+        # accessing an attribute may run codes of the contract (property)
+        validate_callable = getattr(icon_score, '_IconScoreBase__validate_callable')
+        validate_callable(func_name)
+
         if isinstance(context.params, dict):
             arg_params = []
             params: dict = decode_params(context.params)
-- 
2.43.0


From fa1e27317ce729e5f56f26314e9336e736e65f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 12/22] fix: report a failure whose exception carries no
 positive code as a system error

---
 pyee/pyexec/service_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyee/pyexec/service_engine.py b/pyee/pyexec/service_engine.py
index 8b3874f..ffd1059 100644
--- a/pyee/pyexec/service_engine.py
+++ b/pyee/pyexec/service_engine.py
@@ -152,6 +152,9 @@ class ServiceEngine(ContextContainer):
             Logger.exception(e.message, tag)
 
             code = e.code
+            if type(code) not in (int, ExceptionCode) or code <= ExceptionCode.OK:
+                # the contract may override it, but a failure is never a success
+                code = ExceptionCode.SYSTEM_ERROR
             message = e.message
         else:
             SystemLogger.exception(repr(e), 'SystemError')
-- 
2.43.0


From fdb5ceed36e28003eeaa672d4944b252bd96e326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:50 +0000
Subject: [PATCH 13/22] fix: validate the files of a package without running
 any of them

---
 pyee/pyexec/iconscore/score_package_validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/score_package_validator.py b/pyee/pyexec/iconscore/score_package_validator.py
index cf8000d..57a077c 100644
--- a/pyee/pyexec/iconscore/score_package_validator.py
+++ b/pyee/pyexec/iconscore/score_package_validator.py
@@ -88,7 +88,9 @@ class ScorePackageValidator(object):
         for imp in cls.CUSTOM_IMPORT_LIST:
             full_name = f'{package}.{imp}'
 
-            spec = importlib.util.find_spec(full_name)
+            # looking it up by its name would run the codes of its parent packages
+            path = os.path.join(code_path, *imp.split('.')) + '.py'
+            spec = importlib.util.spec_from_file_location(full_name, path)
             code = spec.loader.get_code(full_name)
 
             cls._validate_import_from_code(code)
-- 
2.43.0


From 28e6fbce23bbbf5eb54f81f16a6d0827b840736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:32 +0000
Subject: [PATCH 14/22] fix: refuse unknown keyword arguments of an event

---
 pyee/pyexec/iconscore/icon_score_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyee/pyexec/iconscore/icon_score_base.py b/pyee/pyexec/iconscore/icon_score_base.py
index bdb2827..19c0ef8 100644
--- a/pyee/pyexec/iconscore/icon_score_base.py
+++ b/pyee/pyexec/iconscore/icon_score_base.py
@@ -200,6 +200,10 @@ def __resolve_arguments(function_name, parameters, args, kwargs) -> List[Any]:
         raise IllegalFormatException(
             f"The maximum number of arguments which event log method({function_name}) can accept is exceeded")
 
+    for name in kwargs:
+        if name not in [p.name for p in parameters][1:]:
+            raise IllegalFormatException(f"Unknown argument for '{function_name}': {name}")
+
     for i, parameter in enumerate(parameters, -1):
         if i < 0:
             # pass the self parameter
-- 
2.43.0


From 0bad50cc669952f2017049604d86e88a8c978c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:53 +0000
Subject: [PATCH 15/22] fix: refuse a malformed target or amount of a call
 before it reaches the node

---
 pyee/pyexec/iconscore/internal_call.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/iconscore/internal_call.py b/pyee/pyexec/iconscore/internal_call.py
index 7d2f2b9..14ebbf7 100644
--- a/pyee/pyexec/iconscore/internal_call.py
+++ b/pyee/pyexec/iconscore/internal_call.py
@@ -16,7 +16,7 @@ from copy import deepcopy
 from typing import TYPE_CHECKING, Optional, Any
 
 from ..base.address import Address
-from ..base.exception import ExceptionCode, IconServiceBaseException
+from ..base.exception import ExceptionCode, IconServiceBaseException, InvalidParamsException
 from ..iconscore.icon_score_constant import STR_FALLBACK
 from ..ipc import MethodName
 from ..logger import Logger
@@ -36,8 +36,15 @@ class InternalCall(object):
 
     @classmethod
     def icx_get_balance(cls, address: 'Address') -> int:
+        cls._check_address(address)
         return cls._proxy.get_balance(address)
 
+    @classmethod
+    def _check_address(cls, address: 'Address') -> None:
+        # the node cuts off the executor which sends a malformed address
+        if not isinstance(address, Address):
+            raise InvalidParamsException(f"Invalid address: {type(address)}")
+
     @classmethod
     def message_call(cls,
                      context: 'IconScoreContext',
@@ -47,6 +54,9 @@ class InternalCall(object):
                      func_name: Optional[str],
                      arg_params: Optional[tuple] = None,
                      kw_params: Optional[dict] = None) -> Any:
+        cls._check_address(addr_to)
+        if not isinstance(amount, int):
+            raise InvalidParamsException(f"Invalid amount: {type(amount)}")
         if func_name is None or func_name == STR_FALLBACK:
             func_name = MethodName.FALLBACK
         new_limit = context.step_counter.step_remained
-- 
2.43.0


From f95e9db6adf364b9474dacfef0ae92e39cc49ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 16/22] fix: convert a parameter named cls like any other

---
 pyee/pyexec/base/type_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyee/pyexec/base/type_converter.py b/pyee/pyexec/base/type_converter.py
index 616152a..3412056 100644
--- a/pyee/pyexec/base/type_converter.py
+++ b/pyee/pyexec/base/type_converter.py
@@ -228,7 +228,7 @@ class TypeConverter:
     @staticmethod
     def convert_data_params(annotation_params: dict, kw_params: dict) -> None:
         for key, param in annotation_params.items():
-            if key == 'self' or key == 'cls':
+            if key == 'self':
                 continue
 
             kw_param = kw_params.get(key)
-- 
2.43.0


From 1952a63b729cf0a458e380ac25a8e7f3ea43d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 17/22] fix: convert a parameter declared as Union[None, T] to
 T

---
 pyee/pyexec/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyee/pyexec/utils/__init__.py b/pyee/pyexec/utils/__init__.py
index 8666aba..b349fe7 100644
--- a/pyee/pyexec/utils/__init__.py
+++ b/pyee/pyexec/utils/__init__.py
@@ -71,7 +71,7 @@ def get_main_type_from_annotations_type(annotations_type: type) -> type:
     if hasattr(annotations_type, '__args__'):
         annotations = annotations_type.__args__
         for annotation_type in annotations:
-            if annotation_type is not None:
+            if annotation_type not in (None, type(None)):
                 main_type = annotation_type
                 break
     else:
-- 
2.43.0


From f6bbdcf92938f1bed54c1879d61db11f441dbde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 18/22] fix: publish the fields of structures within structures

A field is read by the node as a name, a type and the fields of its own structure. The fields of a
nested structure were sent one place later, so the node took the nested structure for an empty one.
---
 pyee/pyexec/pyexec.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyee/pyexec/pyexec.py b/pyee/pyexec/pyexec.py
index b82d9bd..69424c9 100644
--- a/pyee/pyexec/pyexec.py
+++ b/pyee/pyexec/pyexec.py
@@ -99,13 +99,21 @@ def convert_inputs(params: list) -> Tuple[int, List[Tuple[str, int, Any]]]:
         else:
             default: Any = None
         if 'fields' in param:
-            _, fields = convert_inputs(param.get('fields'))
+            fields = convert_fields(param.get('fields'))
             result.append((name, typ, default, fields))
         else:
             result.append((name, typ, default))
     return optional, result
 
 
+def convert_fields(fields: list) -> List[Tuple[str, int, Any]]:
+    result = list()
+    for field in fields:
+        inner = convert_fields(field.get('fields')) if 'fields' in field else None
+        result.append((field.get('name'), convert_data_type(field.get('type')), inner))
+    return result
+
+
 def convert_output(params: list) -> List[int]:
     result = list()
     for param in params:
-- 
2.43.0


From b385e1cf35f737fd52494f824d05ac082939828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:07 +0000
Subject: [PATCH 19/22] fix: refuse lists nested deeper than the interface can
 tell

The depth of a list is published in four bits, so a list nested 16 times was taken by the node
for its element.
---
 pyee/pyexec/iconscore/typing/definition.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyee/pyexec/iconscore/typing/definition.py b/pyee/pyexec/iconscore/typing/definition.py
index 93ad8fc..db2250a 100644
--- a/pyee/pyexec/iconscore/typing/definition.py
+++ b/pyee/pyexec/iconscore/typing/definition.py
@@ -36,6 +36,9 @@ APIFlagsMask = APIFlag.READONLY \
                | APIFlag.EXTERNAL \
                | APIFlag.PAYABLE
 
+# depth of list should be encoded in 4 bits
+MAX_LIST_DEPTH = 15
+
 """Utils to support icx_getScoreApi method
 """
 
@@ -167,6 +170,9 @@ def _split_type_hint(type_hint: type) -> List[type]:
         ret.append(origin)
 
         if origin is list:
+            if ret.count(list) > MAX_LIST_DEPTH:
+                raise IllegalFormatException(f"Too deep list: {type_hint}")
+
             args = get_args(type_hint)
             if len(args) != 1:
                 raise IllegalFormatException(f"Invalid type: {type_hint}")
-- 
2.43.0


From d5e8b13055c7178aea423dd290d1a939e2508f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:13 +0000
Subject: [PATCH 20/22] fix: accept Union[None, T] for a parameter as
 Optional[T]

The signature check takes None in either place, but the interface generation only in the second.
---
 pyee/pyexec/iconscore/typing/definition.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyee/pyexec/iconscore/typing/definition.py b/pyee/pyexec/iconscore/typing/definition.py
index db2250a..0cca671 100644
--- a/pyee/pyexec/iconscore/typing/definition.py
+++ b/pyee/pyexec/iconscore/typing/definition.py
@@ -179,8 +179,9 @@ def _split_type_hint(type_hint: type) -> List[type]:
 
             type_hints.append(args[0])
         elif origin is Union:
-            args = get_args(type_hint)
-            if not (len(args) == 2 and args[1] is type(None)):
+            # None may come first: Union[None, int]
+            args = [arg for arg in get_args(type_hint) if arg is not type(None)]
+            if len(args) != 1:
                 raise IllegalFormatException(f"Invalid type: {type_hint}")
 
             type_hints.append(args[0])
-- 
2.43.0


From bdcc1f0325cb17a8853f08c57d4a471502e84ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:22 +0000
Subject: [PATCH 21/22] fix: consensus: a vote that could not be logged is not
 sent

doSendProposal gives up when the write-ahead log cannot be written or
synced; doSendVote logged the error and sent the vote anyway, so that a
restarted validator could vote differently in the same round.
---
 consensus/consensus.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/consensus/consensus.go b/consensus/consensus.go
index 8ccebf7..02acd81 100644
--- a/consensus/consensus.go
+++ b/consensus/consensus.go
@@ -1290,9 +1290,11 @@ func (cs *consensus) doSendVote(vt VoteType, blockParts *blockPartSet) error {
 	}
 	if err := cs.roundWAL.WriteMessageBytes(msg.subprotocol(), msgBS); err != nil {
 		cs.log.Errorf("fail to write WAL: sendVote: %+v\n", err)
+		return err
 	}
 	if err := cs.roundWAL.Sync(); err != nil {
 		cs.log.Errorf("fail to sync WAL: sendVote: %+v\n", err)
+		return err
 	}
 	cs.log.Debugf("sendVote %v\n", msg)
 	if vt == VoteTypePrevote {
-- 
2.43.0


From 79e0d1edbc1aa4a2bf33c26e0bf789d113065d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:51 +0000
Subject: [PATCH 22/22] fix: look up transactions with the largest timestamp in
 the database

---
 common/txlocator/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/txlocator/manager.go b/common/txlocator/manager.go
index bec0e19..2713f7e 100644
--- a/common/txlocator/manager.go
+++ b/common/txlocator/manager.go
@@ -153,7 +153,7 @@ func (m *manager) hasLocatorInCache(group module.TransactionGroup, id []byte, ts
 	if _, ok := m.locators[string(id)]; ok {
 		return ok, true
 	}
-	if l := m.cache[group].maxTSInDB; l != 0 && l <= ts {
+	if l := m.cache[group].maxTSInDB; l != 0 && l < ts {
 		return false, true
 	}
 	return false, false
-- 
2.43.0

