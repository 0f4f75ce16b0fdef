From 4e962bf9137f13620655c42b3938224b278a17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 01/49] fix: leaving a nested @unlog function restores the
 outer prohibition instead of lifting it

---
 polog/unlog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/unlog.py b/polog/unlog.py
index 2fbb080..08741d3 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -93,18 +93,20 @@ class UnlogDecorator:
     def set_unlogged(self, function, full):
         @wraps(function)
         def wrapper(*args, **kwargs):
+            previous_order = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous_order)
         @wraps(function)
         async def async_wrapper(*args, **kwargs):
+            previous_order = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return await function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous_order)
         if iscoroutinefunction(function):
             return async_wrapper
         return wrapper
-- 
2.43.0


From 351a0e437fb245346b7f9ed0c0d1bda8f63dc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 02/49] fix: the double lock is released in the reverse order
 and never left half taken

---
 polog/handlers/file/locks/double_lock.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/polog/handlers/file/locks/double_lock.py b/polog/handlers/file/locks/double_lock.py
index 53aac61..67c53f2 100644
--- a/polog/handlers/file/locks/double_lock.py
+++ b/polog/handlers/file/locks/double_lock.py
@@ -21,14 +21,20 @@ class DoubleLock:
         Взять оба лока.
         """
         self.thread_lock.acquire()
-        self.file_lock.acquire()
+        try:
+            self.file_lock.acquire()
+        except BaseException:
+            self.thread_lock.release()
+            raise
 
     def __exit__(self, exception_type, exception_value, traceback):
         """
         Отпустить оба лока.
         """
-        self.thread_lock.release()
-        self.file_lock.release()
+        try:
+            self.file_lock.release()
+        finally:
+            self.thread_lock.release()
 
     @staticmethod
     def get_lock_types(lock_type):
-- 
2.43.0


From 5ab66f4060d23de5fa01167e904bab675539943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 03/49] fix: the stack of opened log contexts is not shared
 between tasks

---
 polog/loggers/router.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/polog/loggers/router.py b/polog/loggers/router.py
index 627f5a0..35c9919 100644
--- a/polog/loggers/router.py
+++ b/polog/loggers/router.py
@@ -131,11 +131,8 @@ class Router:
         """
         finalizer = LoggerRouteFinalizer()
 
-        context_stack = contexts.get(None)
-        if context_stack is None:
-            contexts.set([finalizer])
-        else:
-            context_stack.append(finalizer)
+        # Стек неизменяемый, чтобы корутины, унаследовавшие контекст, не делили между собой один и тот же объект.
+        contexts.set((contexts.get(None) or ()) + (finalizer,))
 
         return finalizer.__enter__()
 
@@ -148,10 +145,8 @@ class Router:
         if finalizers is None:
             raise IncorrectUseOfTheContextManagerError()
 
-        finalizer = finalizers.pop()
-
-        if not finalizers:
-            contexts.set(None)
+        finalizer = finalizers[-1]
+        contexts.set(finalizers[:-1] or None)
 
         result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
         return result
-- 
2.43.0


From 085a6485c87292448117ce93d29732e0b4081c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 04/49] fix: values and exceptions that cannot be converted to
 a string do not break the logged code

---
 polog/core/utils/exception_to_dict.py | 5 ++++-
 polog/loggers/finalizer.py            | 4 ++--
 polog/utils/json_vars.py              | 6 +++++-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/polog/core/utils/exception_to_dict.py b/polog/core/utils/exception_to_dict.py
index 3dc4041..eac2a1b 100644
--- a/polog/core/utils/exception_to_dict.py
+++ b/polog/core/utils/exception_to_dict.py
@@ -2,5 +2,8 @@ def exception_to_dict(args_dict, exc):
     """
     Заполняем словарь с аргументами информацией об исключении.
     """
-    args_dict['exception_message'] = str(exc)
+    try:
+        args_dict['exception_message'] = str(exc)
+    except Exception:
+        args_dict['exception_message'] = f'<unprintable {type(exc).__name__} object>'
     args_dict['exception_type'] = type(exc).__name__
diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index c07b569..11dc35e 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -11,6 +11,7 @@ from polog.loggers.auto.function_logger import flog
 from polog.errors import IncorrectUseLoggerError, IncorrectUseOfTheDecoratorError, IncorrectUseOfTheContextManagerError
 from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.exception_is_suppressed import exception_is_suppressed
+from polog.core.utils.exception_to_dict import exception_to_dict
 
 
 class LoggerRouteFinalizer:
@@ -88,8 +89,7 @@ class LoggerRouteFinalizer:
         После заполнения всех нужных полей и записи лога, решается вопрос, поднимать ли дальше исключение (если оно возникло) или подавить его.
         """
         if exception_type is not None:
-            self.data['exception_type'] = exception_type.__name__
-            self.data['exception_message'] = str(exception_value)
+            exception_to_dict(self.data, exception_value)
             self.data['success'] = False
             self.data['traceback'] = self.settings['json_module'].dumps(traceback.format_tb(traceback_instance))
         else:
diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 4e44602..99113fa 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -9,7 +9,11 @@ def get_item(item):
     for one in BASE_JSON_TYPES:
         if isinstance(item, one):
             return {'value': item, 'type': one.__name__}
-    return {'value': str(item), 'type': type(item).__name__}
+    try:
+        value = str(item)
+    except Exception:
+        value = f'<unprintable {type(item).__name__} object>'
+    return {'value': value, 'type': type(item).__name__}
 
 def json_vars(*args, **kwargs):
     """
-- 
2.43.0


From 209fd0686a9f85da8856739291adb1532078abfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 05/49] fix: an exception is marked as logged only when it is
 really logged, and marking it never fails

---
 polog/loggers/auto/function_logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 6e2f1c4..a034ca6 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -2,6 +2,7 @@ import time
 import inspect
 import datetime
 from functools import wraps
+from contextlib import suppress
 from collections.abc import Iterable
 
 from polog.core.stores.settings.settings_store import SettingsStore
@@ -172,9 +173,10 @@ class FunctionLogger:
         """
         if not unlog.get_unlog_status():
             if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
-                exc.checked_by_polog = True
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
+                    with suppress(Exception):
+                        exc.checked_by_polog = True
                     exception_to_dict(args_dict, exc)
                     args_dict['success'] = False
                     args_dict['traceback'] = get_traceback(cut_string_at_begin=1)
-- 
2.43.0


From cbf3f2c59959159a4aae055c3964fa98f1f6fcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 06/49] fix: an unknown level name in a decorator does not
 break the decorated function

---
 polog/loggers/auto/function_logger.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index a034ca6..3744801 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -221,10 +221,11 @@ class FunctionLogger:
         Если клиент определил его сам - используем эту оценку. Если нет - берем дефолтное значение из настроек.
         """
         if level is not None:
-            level = Levels.get(level)
-        else:
-            level = self.settings['default_level']
-        return level
+            try:
+                return Levels.get(level)
+            except (KeyError, ValueError):
+                pass
+        return self.settings['default_level']
 
     def create_log_item(self, args, kwargs, data, handlers, engine_fields, in_place_fields):
         """
-- 
2.43.0


From fdbb8a78eb391379339a8552240bf56970117f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 07/49] fix: extra fields can be passed as a tuple with an
 ellipsis, the collection of the user is not changed

---
 polog/loggers/auto/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 3744801..d994c45 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -298,7 +298,7 @@ class FunctionLogger:
         if not isinstance(maybe_fields, dict) and not isinstance(maybe_fields, list) and not isinstance(maybe_fields, tuple):
             raise ValueError(f'A dictionary containing log field extractors is expected. You can also pass a list or tuple containing such dictionaries and ellipsis. You passed "{maybe_fields}".')
 
-        all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else maybe_fields
+        all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else list(maybe_fields)
 
         if Ellipsis in all_fields:
             is_ellipsis = True
-- 
2.43.0


From 37f1e4481d301bb38f5bfcc0cf67e177017e12bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 08/49] fix: incomplete logging records do not raise from the
 logging call

---
 .../stores/settings/actions/integration_with_logging.py  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 309f14e..9a82975 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -18,7 +18,10 @@ def from_logging_filter_to_polog(record):
 
     data['time'] = datetime.fromtimestamp(record.created)
     if record.msg:
-        data['message'] = record.getMessage()
+        try:
+            data['message'] = record.getMessage()
+        except Exception:
+            data['message'] = f'{record.msg!r} {record.args!r}'
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
@@ -26,10 +29,10 @@ def from_logging_filter_to_polog(record):
         data['success'] = True
     data['module'] = record.module
     data['line_number'] = record.lineno
-    if record.funcName.isidentifier():
+    if record.funcName is not None and record.funcName.isidentifier():
         data['function'] = record.funcName
     data['path_to_code'] = record.pathname
-    if record.exc_info is not None:
+    if record.exc_info and record.exc_info[0] is not None:
         data['exception_type'] = record.exc_info[0].__name__
         data['traceback'] = store['json_module'].dumps(traceback.format_tb(record.exc_info[2]))
         data['exception_message'] = str(record.exc_info[1])
-- 
2.43.0


From 63d1fe73ca283e90e6b82b8298eec0f98cb37771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 09/49] fix: a failed smart assert is logged in the debug mode
 only when the politic asks for it, and once

---
 polog/loggers/handle/smart_assert.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polog/loggers/handle/smart_assert.py b/polog/loggers/handle/smart_assert.py
index 78b9c3f..0fe34b1 100644
--- a/polog/loggers/handle/smart_assert.py
+++ b/polog/loggers/handle/smart_assert.py
@@ -24,12 +24,13 @@ class SmartAssert(AbstractHandleLogger):
         try:
             if self.settings['smart_assert_politic'](self.settings['debug_mode'], expression_result):
                 log(message, exception=AssertionError(message))
-            if self.settings['debug_mode'] and not expression_result:
-                raise AssertionError(message)
+            failed = self.settings['debug_mode'] and not expression_result
         except Exception:
-            if self.settings['debug_mode']:
+            failed = self.settings['debug_mode']
+            if failed:
                 log(message, exception=AssertionError(message))
-                raise AssertionError(message)
+        if failed:
+            raise AssertionError(message)
 
     def get_message(self, expression_result, *maybe_message):
         """
-- 
2.43.0


From 138267359e9aff7bab6c90bc00d0a8984fcfefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 10/49] fix: threads racing for the first instance of a
 singleton get the same object

---
 polog/core/utils/read_only_singleton.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/polog/core/utils/read_only_singleton.py b/polog/core/utils/read_only_singleton.py
index c16da11..9c50d04 100644
--- a/polog/core/utils/read_only_singleton.py
+++ b/polog/core/utils/read_only_singleton.py
@@ -16,6 +16,7 @@ class ReadOnlySingleton:
         with cls.create_lock:
             def __new__(cls, **kwargs):
                 return cls.instance
-            cls.instance = super().__new__(cls)
-            cls.__new__ = __new__
+            if 'instance' not in cls.__dict__:
+                cls.instance = super().__new__(cls)
+                cls.__new__ = __new__
             return cls.instance
-- 
2.43.0


From 1d463c8d2509d03ee7ab7b1f1208bbee6e8dc668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 11/49] fix: every SMTP session is closed, also when sending
 fails, and is not shared between threads

---
 .../handlers/smtp/smtp_dependency_wrapper.py  | 35 +++++++++++--------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/polog/handlers/smtp/smtp_dependency_wrapper.py b/polog/handlers/smtp/smtp_dependency_wrapper.py
index e9b6c3c..4241fbb 100644
--- a/polog/handlers/smtp/smtp_dependency_wrapper.py
+++ b/polog/handlers/smtp/smtp_dependency_wrapper.py
@@ -19,29 +19,36 @@ class SMTPDependencyWrapper:
         Обертка для отправки сообщения.
         При каждой отправке сообщения объект соединения с сервером создается заново.
         """
-        self.create_smtp_server()
-        self.send_mail(message)
-        self.quit_from_server()
+        server = self.create_smtp_server()
+        try:
+            self.login(server)
+            self.send_mail(server, message)
+        finally:
+            self.quit_from_server(server)
 
     def create_smtp_server(self):
         """
-        Создание объекта SMTP-сервера и логин.
+        Создание объекта SMTP-сервера.
         """
-        self._server = smtplib.SMTP_SSL(self.server, self.port)
-        self._server.login(self.email_from, self.password)
+        return smtplib.SMTP_SSL(self.server, self.port)
 
-    def send_mail(self, message):
+    def login(self, server):
+        """
+        Логин на сервере.
+        """
+        server.login(self.email_from, self.password)
+
+    def send_mail(self, server, message):
         """
         Отправляем сообщение.
         """
-        self._server.sendmail(self.email_from, [self.email_to], message.as_string())
+        server.sendmail(self.email_from, [self.email_to], message.as_string())
 
-    def quit_from_server(self):
+    def quit_from_server(self, server):
         """
         Разлогиниваемся на сервере.
         """
-        if hasattr(self, '_server'):
-            try:
-                self._server.quit()
-            except:
-                pass
+        try:
+            server.quit()
+        except:
+            pass
-- 
2.43.0


From 331fd8b9e48451bba938ccb0983d17026c56bad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 12/49] fix: engine fields are extracted for manual logs too

---
 polog/loggers/handle/handle_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 82fd68f..31cc540 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -5,7 +5,7 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.stores.handlers import global_handlers
 from polog.loggers.handle.abstract import AbstractHandleLogger
 from polog.core.log_item import LogItem
-from polog.core.stores.fields import in_place_fields
+from polog.core.stores.fields import in_place_fields, engine_fields
 from polog.unlog import unlog
 
 
@@ -66,6 +66,7 @@ class BaseLogger(AbstractHandleLogger):
                 log_item = LogItem()
                 log_item.set_data(fields)
                 log_item.set_handlers(global_handlers)
+                log_item.set_extra_fields(engine_fields)
                 log_item.extract_extra_fields_from(in_place_fields)
                 self._engine.write(log_item)
 
-- 
2.43.0


From 83f3319e864b0a03a09092902d3cb8362d26bcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 13/49] fix: the silent mode covers unknown level names and
 duplicated aliases of arguments

---
 polog/loggers/handle/abstract.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 2da68fa..64b0ec1 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -144,10 +144,14 @@ class AbstractHandleLogger:
                     continue
             # При необходимости - конвертируем переданные значения.
             if key in self._convert_values:
-                value = self._convert_values.get(key)(value)
+                try:
+                    value = self._convert_values.get(key)(value)
+                except KeyError as e:
+                    self._maybe_raise(KeyError, *e.args)
+                    continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
-                if destination[key] != kwargs[key]:
+                if destination[key] != value:
                     self._maybe_raise(ValueError, f'Duplicate information in the "{key}" field.')
                     continue
             # Все проверки пройдены - сохраняем результат.
-- 
2.43.0


From 977729cf4636a73e22cd1946511c574397001a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 14/49] fix: buffered records are flushed before the log file
 is moved away

---
 polog/handlers/file/file_dependency_wrapper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index df3888f..64761c7 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -118,6 +118,7 @@ class FileDependencyWrapper:
         2. Блокировка на уровне потока. Нужна, поскольку с одним обработчиком (читай - одним и тем же файловым объектом) могут параллельно работать воркеры из нескольких потоков.
         """
         with self.lock:
+            self.file.flush()
             try:
                 shutil.move(self.filename, path_to_copy)
             except FileNotFoundError:
-- 
2.43.0


From 8ad5bdc074cd84b500676ec273d3360da721a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 15/49] fix: trailing zeros of the integer part of the working
 time are kept

---
 polog/handlers/file/base_formatter_fields_extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 416950a..6ff0524 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -214,7 +214,7 @@ class BaseFormatterFieldsExtractors:
         if var is None:
             return None
         number = f'{var:.8f}'
-        number = number.rstrip('0.')
+        number = number.rstrip('0').rstrip('.')
         result = f"time of work: {number} sec."
         return result
 
-- 
2.43.0


From 7c71a7e4414947ea2e427f22e50af8b3f3ce3ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 16/49] fix: items of the weak dictionary yield values

---
 polog/data_structures/wrappers/weak_linked/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/data_structures/wrappers/weak_linked/dictionary.py b/polog/data_structures/wrappers/weak_linked/dictionary.py
index 71e8bda..db7dff1 100644
--- a/polog/data_structures/wrappers/weak_linked/dictionary.py
+++ b/polog/data_structures/wrappers/weak_linked/dictionary.py
@@ -111,7 +111,7 @@ class LockedWeakKeyValueDictionary:
         for key in self.keys():
             value = self.get(key)
             if value is not None:
-                yield key, value()
+                yield key, value
 
     def pop(self, key, *defaults):
         """
-- 
2.43.0


From 2fe60f509a1ba73518f9c0a2746dd34501bf155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 17/49] fix: registering handlers and fields does not break the
 logs written at the same time

---
 polog/core/log_item.py                                       | 2 +-
 polog/data_structures/trees/named_tree/walker.py             | 4 ++--
 polog/data_structures/wrappers/fields_container/container.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/polog/core/log_item.py b/polog/core/log_item.py
index 81f21f2..4f53d0b 100644
--- a/polog/core/log_item.py
+++ b/polog/core/log_item.py
@@ -185,7 +185,7 @@ class LogItem:
         fields - словарь, в котором ключи - строки с названиями полей, значения - поля.
         """
         data = self.fields
-        for name, field in fields.items():
+        for name, field in list(fields.items()):
             if name not in data or self._fields_intersection:
                 try:
                     value = field.get_data(self)
diff --git a/polog/data_structures/trees/named_tree/walker.py b/polog/data_structures/trees/named_tree/walker.py
index 1836329..fbbeace 100644
--- a/polog/data_structures/trees/named_tree/walker.py
+++ b/polog/data_structures/trees/named_tree/walker.py
@@ -16,7 +16,7 @@ class TreeWalker:
             next_layer = []
             for node in layer:
                 yield node
-                for child in node.childs.values():
+                for child in list(node.childs.values()):
                     next_layer.append(child)
             layer = next_layer
 
@@ -45,5 +45,5 @@ class TreeWalker:
         Поскольку обход реализован через рекурсию, его глубина ограничена и при ее превышении поднимется RecursionError.
         """
         yield node
-        for child in node.childs.values():
+        for child in list(node.childs.values()):
             yield from self._recursive_dfs(child)
diff --git a/polog/data_structures/wrappers/fields_container/container.py b/polog/data_structures/wrappers/fields_container/container.py
index d1564a8..7118d93 100644
--- a/polog/data_structures/wrappers/fields_container/container.py
+++ b/polog/data_structures/wrappers/fields_container/container.py
@@ -33,9 +33,9 @@ class FieldsContainer:
 
         При пересечении множеств ключей двух словарей, предпочтение отдается значению из первого словаря.
         """
-        for key, value in self.fields.items():
+        for key, value in list(self.fields.items()):
             yield key, value
 
-        for key, value in self.defaults.items():
+        for key, value in list(self.defaults.items()):
             if key not in self.fields:
                 yield key, value
-- 
2.43.0


From a6a6b249594f5e2dab96163f8e80f6e98e38d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:40 +0000
Subject: [PATCH 18/49] fix: an explicitly passed level has priority over the
 level named through the dot

---
 polog/loggers/partial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index cf73844..a6f438d 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -39,8 +39,7 @@ class RouterPartial:
         """
         Отложенный вызов функции, аналог functools.partial.
         """
-        kwargs.update(self.kwargs)
-        return self.item(*args, **kwargs)
+        return self.item(*args, **{**self.kwargs, **kwargs})
 
     def __enter__(self):
         """
-- 
2.43.0


From b57db42e921484edb5c752c575a3562e315a71c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:10 +0000
Subject: [PATCH 19/49] fix: a handler can be registered under the name of an
 empty intermediate node

---
 polog/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/config.py b/polog/config.py
index f5b537f..87aad74 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -103,7 +103,7 @@ class config:
         """
         Сохраняем обработчик под каким-то именем.
         """
-        if name in global_handlers:
+        if global_handlers.get(name) is not None:
             raise NameError(f'Attempt to override a handler named {name}.')
         global_handlers[name] = handler
 
-- 
2.43.0


From 77058528debbe70cf49f74e2cb32fcd97d43165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 20/49] fix: a nested decorated call neither erases nor
 inherits the message of the outer one

---
 polog/loggers/auto/function_logger.py | 12 ++++++++++++
 polog/loggers/handle/message.py       |  6 ++++++
 2 files changed, 18 insertions(+)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index d994c45..e61290f 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -65,6 +65,7 @@ class FunctionLogger:
                 """
                 Обертка для корутинных функций, вызов обернутой функции происходит через await.
                 """
+                outer_message = _message._get_context()
                 _message._clean_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
@@ -74,19 +75,25 @@ class FunctionLogger:
                 except Exception as e:
                     finish = time.time()
                     self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    _message._set_context(outer_message)
                     if not suppress_all:
                         if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
                             cut_traceback(self.settings)
                             raise
                     return None
+                except BaseException:
+                    _message._set_context(outer_message)
+                    raise
                 finish = time.time()
                 self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                _message._set_context(outer_message)
                 return result
             @wraps(func)
             def wrapper(*args, **kwargs):
                 """
                 Обертка для обычных функций.
                 """
+                outer_message = _message._get_context()
                 _message._clean_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
@@ -96,13 +103,18 @@ class FunctionLogger:
                 except Exception as e:
                     finish = time.time()
                     self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    _message._set_context(outer_message)
                     if not suppress_all:
                         if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
                             cut_traceback(self.settings)
                             raise
                     return None
+                except BaseException:
+                    _message._set_context(outer_message)
+                    raise
                 finish = time.time()
                 self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                _message._set_context(outer_message)
                 return result
             if inspect.iscoroutinefunction(func):
                 result = async_wrapper
diff --git a/polog/loggers/handle/message.py b/polog/loggers/handle/message.py
index 4fdfeb7..6dfd6e5 100644
--- a/polog/loggers/handle/message.py
+++ b/polog/loggers/handle/message.py
@@ -54,6 +54,12 @@ class Message(AbstractHandleLogger):
         """
         context.set(None)
 
+    def _set_context(self, fields):
+        """
+        Восстанавливаем содержимое контекстной переменной, каким оно было до вызова вложенной задекорированной функции.
+        """
+        context.set(fields)
+
     def _get_context(self):
         """
         Возвращаем содержимое контекстной переменной.
-- 
2.43.0


From 1586546628439be0ceb871de9ef30c4e508cbd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:36 +0000
Subject: [PATCH 21/49] fix: decorators of classes keep static methods, class
 methods and nested classes working

---
 polog/core/utils/unpack_method.py  | 14 ++++++++++++++
 polog/loggers/auto/class_logger.py | 11 ++++++-----
 polog/unlog.py                     | 10 ++++++----
 3 files changed, 26 insertions(+), 9 deletions(-)
 create mode 100644 polog/core/utils/unpack_method.py

diff --git a/polog/core/utils/unpack_method.py b/polog/core/utils/unpack_method.py
new file mode 100644
index 0000000..bbb70b5
--- /dev/null
+++ b/polog/core/utils/unpack_method.py
@@ -0,0 +1,14 @@
+import inspect
+
+
+def unpack_method(Class, method_name):
+    """
+    Получаем из класса функцию по имени, а также то, во что ее нужно завернуть перед тем, как положить обратно в класс.
+
+    Для статических методов и методов класса это, соответственно, staticmethod и classmethod. Для обычных методов - None.
+    """
+    method = getattr(Class, method_name)
+    raw_method = inspect.getattr_static(Class, method_name, method)
+    if isinstance(raw_method, (staticmethod, classmethod)):
+        return raw_method.__func__, type(raw_method)
+    return method, None
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 42e1044..6aaf635 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -2,6 +2,7 @@ import inspect
 
 from polog.loggers.auto.function_logger import flog
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.unpack_method import unpack_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 
 
@@ -20,20 +21,20 @@ class ClassLogger:
             # Получаем имена методов класса.
             all_methods = self.get_logging_methods(Class, *methods)
             for method_name in all_methods:
-                method = getattr(Class, method_name)
+                method, descriptor = unpack_method(Class, method_name)
                 # Конфигурируем декоратор для метода.
                 wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True)
                 # Применяем его.
                 new_method = wrapper(method)
-                setattr(Class, method_name, new_method)
+                setattr(Class, method_name, new_method if descriptor is None else descriptor(new_method))
             # Получаем кортеж с именами методов, которые логировать НЕ надо.
             # Если они уже залогированы - нужно вернуть оригиналы.
             originals = self.make_originals(Class, *methods)
             register = RegisteringFunctions()
             for method_name in originals:
-                method = getattr(Class, method_name)
+                method, descriptor = unpack_method(Class, method_name)
                 original = register.get_original(method)
-                setattr(Class, method_name, original)
+                setattr(Class, method_name, original if descriptor is None else descriptor(original))
             return Class
         if not len(args):
             return decorator
@@ -66,7 +67,7 @@ class ClassLogger:
         Семантика тут такая: если пользователь не указал конкретно имена методов, которые нужно логировать - логиируем весь класс. Иначе - только выбранные методы.
         """
         if not len(methods) or (len(methods) == 1 and inspect.isclass(methods[0])):
-            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
+            methods = [func for func in dir(Class) if inspect.isroutine(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
         else:
             methods = [x for x in methods]
         return methods
diff --git a/polog/unlog.py b/polog/unlog.py
index 08741d3..b42eb40 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -1,4 +1,4 @@
-from inspect import isclass
+from inspect import isclass, isroutine
 from contextvars import ContextVar
 from functools import wraps
 from dataclasses import dataclass
@@ -6,6 +6,7 @@ from typing import Optional
 from inspect import iscoroutinefunction
 
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.unpack_method import unpack_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 from polog.core.stores.settings.settings_store import SettingsStore
 
@@ -31,9 +32,10 @@ class UnlogDecorator:
             if isclass(obj):
                 for function_name in dir(obj):
                     if not function_name.startswith('__'):
-                        maybe_method = getattr(obj, function_name)
-                        if callable(maybe_method):
-                            setattr(obj, function_name, self.unlog_function(maybe_method, full))
+                        maybe_method, descriptor = unpack_method(obj, function_name)
+                        if isroutine(maybe_method):
+                            unlogged_method = self.unlog_function(maybe_method, full)
+                            setattr(obj, function_name, unlogged_method if descriptor is None else descriptor(unlogged_method))
                 return obj
             elif callable(obj):
                 return self.unlog_function(obj, full)
-- 
2.43.0


From ec96da27ac96a305357546a7685116dc0bebe5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 22/49] fix: a logging decorator over @unlog keeps its full
 argument

---
 polog/core/stores/registering_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 6f26981..9583158 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -59,6 +59,9 @@ class RegisteringFunctions:
         Если функция ранее уже была задекорирована, тут надо смотреть на приоритеты. У декоратора класса приоритет ниже, чем у декоратора функций. Если функция ранее была задекорирована через декоратор класса, она передекорируется в любом случае. Если через декоратор функций - то только в том случае, если сейчас ее декорируют не через декоратор класса.
         """
         if self.is_forbidden(func):
+            # Функция уже обернута @unlog'ом, возможно с локальным значением аргумента full, его нельзя терять.
+            if before_change_func in self.unlogged_functions:
+                return before_change_func
             if unlog_decorator is None:
                 from polog.unlog import unlog
                 unlog_decorator = unlog
-- 
2.43.0


From 93fc1e05e114d5ef7539e073466fb5dca256d902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:56 +0000
Subject: [PATCH 23/49] fix: changing the pool size while another thread writes
 the first log does not deadlock

---
 polog/core/engine/engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 7b45c6c..e0a4046 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -30,14 +30,18 @@ class Engine(ReadOnlySingleton):
         """
         Первая стадия инициализации движка.
         Осуществляется при запуске программы.
+
+        Уже инициализированный объект лок не берет, поскольку обращение к движку возможно из потока, который держит блокировку настроек (см. reload_engine), в то время как другой поток, записывающий первый лог, держит лок движка и ждет настройки.
         """
+        if hasattr(self, 'inited'):
+            return
         with self.lock:
             if not hasattr(self, 'inited'):
                 self.settings = SettingsStore()
                 self.blocked = False
-                self.inited = True
                 self.serial_number = 0
                 self.active = False
+                self.inited = True
 
     def __second_init__(self):
         """
-- 
2.43.0


From 26eaed19a456a78f7e036f3c94026d8bbbd249e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:56 +0000
Subject: [PATCH 24/49] fix: handlers can be added, deleted and got from
 several threads at the same time

---
 polog/config.py                                | 4 ++--
 polog/data_structures/trees/named_tree/tree.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/polog/config.py b/polog/config.py
index 87aad74..980e9d5 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -91,7 +91,7 @@ class config:
                         raise KeyError('Only strings can be used as the handler name.')
                     cls.set_handler(name, value)
             else:
-                if id(handler) in {id(node.value) for node in global_handlers.childs.values()}:
+                if id(handler) in {id(node.value) for node in list(global_handlers.childs.values())}:
                     raise ValueError('An attempt to store the same handler object in a global namespace.')
                 handler_name = next(cls.pony_names_generator).replace(' ', '_')
                 cls.set_handler(handler_name, handler)
@@ -137,7 +137,7 @@ class config:
                 del global_handlers[maybe_name]
             else:
                 handler = maybe_name
-                other_handlers = {id(node.value): node.name for node in global_handlers.childs.values()}
+                other_handlers = {id(node.value): node.name for node in list(global_handlers.childs.values())}
                 if id(handler) not in other_handlers:
                     raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
                 handler_name = other_handlers[id(handler)]
diff --git a/polog/data_structures/trees/named_tree/tree.py b/polog/data_structures/trees/named_tree/tree.py
index 30d0b0d..83e7b48 100644
--- a/polog/data_structures/trees/named_tree/tree.py
+++ b/polog/data_structures/trees/named_tree/tree.py
@@ -173,7 +173,7 @@ class NamedTree:
             if parent is None:
                 break
             childs_to_delete = []
-            for child_name, child in parent.childs.items():
+            for child_name, child in list(parent.childs.items()):
                 if child is break_on:
                     return
                 if not len(child):
-- 
2.43.0


From f85d128885a513d6fff18d49a312d7816f34b1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:47 +0000
Subject: [PATCH 25/49] fix: a failed reopening after a rotation does not leave
 the file handler with a closed file

---
 polog/handlers/file/file_dependency_wrapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index 64761c7..a083cff 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -88,8 +88,9 @@ class FileDependencyWrapper:
         Закрываем файл и открываем снова.
         Работает только в том случае, если исходно пользователь передал имя файла, а не файловый объект.
         """
-        self.close()
+        old_file = self.file
         self.open(self.filename)
+        old_file.close()
 
     def flush(self):
         """
-- 
2.43.0


From acba105cfb07dd00464b480ce079642d404ed5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:47 +0000
Subject: [PATCH 26/49] fix: a blank directory in the rotation rule means the
 standard directory

---
 polog/handlers/file/rotation/rotator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polog/handlers/file/rotation/rotator.py b/polog/handlers/file/rotation/rotator.py
index 685675b..c01d78e 100644
--- a/polog/handlers/file/rotation/rotator.py
+++ b/polog/handlers/file/rotation/rotator.py
@@ -78,14 +78,13 @@ class Rotator:
         if len(splitted_source) == 1:
             result = None
         elif len(splitted_source) == 2:
-            result = splitted_source[1]
+            result = splitted_source[1].strip()
             if result == '':
                 result = None
         else:
             raise ValueError('The rotation command is incorrectly formatted.')
         if result is None:
             return self.get_standart_destination()
-        result = result.strip()
         return result
 
     def extract_rules_string_from_source(self, source):
-- 
2.43.0


From 4680187dd127835eebf59aac04a205e56fa1bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:47 +0000
Subject: [PATCH 27/49] fix: registering or deleting the same handler from two
 threads checks and acts as one step

---
 polog/config.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/polog/config.py b/polog/config.py
index 980e9d5..1f501fc 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -91,10 +91,11 @@ class config:
                         raise KeyError('Only strings can be used as the handler name.')
                     cls.set_handler(name, value)
             else:
-                if id(handler) in {id(node.value) for node in list(global_handlers.childs.values())}:
-                    raise ValueError('An attempt to store the same handler object in a global namespace.')
-                handler_name = next(cls.pony_names_generator).replace(' ', '_')
-                cls.set_handler(handler_name, handler)
+                with global_handlers.lock:
+                    if id(handler) in {id(node.value) for node in list(global_handlers.childs.values())}:
+                        raise ValueError('An attempt to store the same handler object in a global namespace.')
+                    handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                    cls.set_handler(handler_name, handler)
         for handler_name, handler in kwargs.items():
             cls.set_handler(handler_name, handler)
 
@@ -103,9 +104,10 @@ class config:
         """
         Сохраняем обработчик под каким-то именем.
         """
-        if global_handlers.get(name) is not None:
-            raise NameError(f'Attempt to override a handler named {name}.')
-        global_handlers[name] = handler
+        with global_handlers.lock:
+            if global_handlers.get(name) is not None:
+                raise NameError(f'Attempt to override a handler named {name}.')
+            global_handlers[name] = handler
 
     @staticmethod
     def get_handlers(*names):
@@ -137,11 +139,12 @@ class config:
                 del global_handlers[maybe_name]
             else:
                 handler = maybe_name
-                other_handlers = {id(node.value): node.name for node in list(global_handlers.childs.values())}
-                if id(handler) not in other_handlers:
-                    raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
-                handler_name = other_handlers[id(handler)]
-                del global_handlers[handler_name]
+                with global_handlers.lock:
+                    other_handlers = {id(node.value): node.name for node in list(global_handlers.childs.values())}
+                    if id(handler) not in other_handlers:
+                        raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
+                    handler_name = other_handlers[id(handler)]
+                    del global_handlers[handler_name]
 
     @staticmethod
     def add_fields(**fields):
-- 
2.43.0


From e05ad13b1bbdb9f1ec6cd5e593716f2a9e49c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:47 +0000
Subject: [PATCH 28/49] fix: choosing a handler by name while another thread
 registers it no longer fails

---
 polog/data_structures/trees/named_tree/projector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index 466c3ff..547f2ae 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -26,7 +26,8 @@ class TreeProjector:
         for path in paths:
             if path == self.tree.keys_separator and not_to_root:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
-            node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+            with self.tree.lock:
+                node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
             new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
-- 
2.43.0


From 978abdff23936b93263e0097fca5088d91fb3979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:47 +0000
Subject: [PATCH 29/49] fix: two threads creating the first memory_saver no
 longer lose records

---
 polog/handlers/memory/saver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/handlers/memory/saver.py b/polog/handlers/memory/saver.py
index b27ac30..00fc9f5 100644
--- a/polog/handlers/memory/saver.py
+++ b/polog/handlers/memory/saver.py
@@ -15,7 +15,7 @@ class memory_saver(ReadOnlySingleton, BaseHandler):
     all_semaphore = BoundedSemaphore(value=1)
 
     def __init__(self):
-        with Lock():
+        with self.all_semaphore:
             if not hasattr(self, 'inited'):
                 super().__init__()
                 self.all = []
-- 
2.43.0


From dac7a57e8dabbf8648ef4132e856abc6887e35af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:47 +0000
Subject: [PATCH 30/49] fix: a record whose filter raises goes to the
 alternative handler

---
 polog/handlers/abstract/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/abstract/base.py b/polog/handlers/abstract/base.py
index 8219269..9fbfdab 100644
--- a/polog/handlers/abstract/base.py
+++ b/polog/handlers/abstract/base.py
@@ -35,7 +35,11 @@ class BaseHandler:
         Благодаря этой функции объект класса является вызываемым.
         В случае неудачи при записи лога, выполняется функция alt, если она была указана при инициализации объекта.
         """
-        if not self.to_do_or_not_to_do(log):
+        try:
+            allowed = self.to_do_or_not_to_do(log)
+        except Exception as e:
+            allowed = False
+        if not allowed:
             return self.run_alt(log)
         try:
             content = self.get_content(log)
-- 
2.43.0


From 48b9f191e1d383494cc6aa6a46ed1674f7cd71cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:47 +0000
Subject: [PATCH 31/49] fix: a field deleted meanwhile is not returned with the
 value None

---
 polog/config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/polog/config.py b/polog/config.py
index 1f501fc..0fe2800 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -206,9 +206,10 @@ class config:
         Получаем словарь с извлекаемыми "на месте" полями.
         Если сюда передать одно или несколько имен полей, вернется словарь только с ними, иначе - со всеми.
         """
+        fields = {**in_place_fields}
         if not names:
-            return {**in_place_fields}
-        return {name: in_place_fields.get(name) for name in names if in_place_fields.get(name) is not None}
+            return fields
+        return {name: fields[name] for name in names if name in fields}
 
     @staticmethod
     def get_engine_fields(*names):
@@ -216,9 +217,10 @@ class config:
         Получаем словарь с извлекаемыми внутри движка полями.
         Если сюда передать одно или несколько имен полей, вернется словарь только с ними, иначе - со всеми.
         """
+        fields = {**engine_fields}
         if not names:
-            return {**engine_fields}
-        return {name: engine_fields.get(name) for name in names if engine_fields.get(name) is not None}
+            return fields
+        return {name: fields[name] for name in names if name in fields}
 
     @classmethod
     def get_all_fields(cls, *names):
-- 
2.43.0


From eff4bc316637d4f9faa6ddefa64a8385b3920420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:14 +0000
Subject: [PATCH 32/49] fix: decorate a method again without a second record
 when another class redecorated it

Decorating a function again dropped the older wrapper from the registry, although
the wrapper may still be in use (a parent class whose child was decorated). The next
decoration of that wrapper (a second child, the parent itself) wrapped it instead of
its original, so that each call wrote two records. Wrappers now stay registered, and
whether a class decorator made a wrapper is known per wrapper.
---
 polog/core/stores/registering_functions.py | 13 +++++--------
 polog/unlog.py                             |  1 -
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 9583158..d0006b1 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -13,7 +13,7 @@ class RegisteringFunctions:
     unlogged_functions = LockedWeakKeyValueDictionary()
     # Оригиналы функций, которые запрещено декорировать.
     forbidden_to_decorate = weakref.WeakSet()
-    # Оригиналы функций, задекорированных через декоратор класса.
+    # Обертки функций, задекорированных через декоратор класса.
     decorated_methods = weakref.WeakSet()
 
     def add(self, decorated_function, original_function, is_method=False):
@@ -22,7 +22,7 @@ class RegisteringFunctions:
         """
         self.all_decorated_functions[decorated_function] = original_function
         if is_method:
-            self.decorated_methods.add(original_function)
+            self.decorated_methods.add(decorated_function)
 
     def add_unlogged(self, unlogged_function, original_function):
         """
@@ -37,10 +37,8 @@ class RegisteringFunctions:
         Удаляем функцию из реестра задекорированных.
         """
         if self.is_decorator(func):
-            original_function = self.get_original(func)
             self.all_decorated_functions.pop(func, None)
-            if original_function in self.decorated_methods:
-                self.decorated_methods.discard(original_function)
+            self.decorated_methods.discard(func)
 
     def forbid(self, func):
         """
@@ -57,6 +55,8 @@ class RegisteringFunctions:
 
         Если декорирование функции ранее было запрещено, вернется оригинал.
         Если функция ранее уже была задекорирована, тут надо смотреть на приоритеты. У декоратора класса приоритет ниже, чем у декоратора функций. Если функция ранее была задекорирована через декоратор класса, она передекорируется в любом случае. Если через декоратор функций - то только в том случае, если сейчас ее декорируют не через декоратор класса.
+
+        Прежняя обертка остается в реестре: она могла сохраниться где-то еще (к примеру, в родительском классе), и оттуда ее могут задекорировать повторно.
         """
         if self.is_forbidden(func):
             # Функция уже обернута @unlog'ом, возможно с локальным значением аргумента full, его нельзя терять.
@@ -68,12 +68,10 @@ class RegisteringFunctions:
             return unlog_decorator(func)
         if self.is_decorator(before_change_func):
             if self.is_method(before_change_func):
-                self.remove(before_change_func)
                 self.add(wrapper, func, is_method=is_method)
                 return wrapper
             else:
                 if not is_method:
-                    self.remove(before_change_func)
                     self.add(wrapper, func, is_method=is_method)
                     return wrapper
                 else:
@@ -104,7 +102,6 @@ class RegisteringFunctions:
         """
         Проверка, что функция была задекорирована через декоратор класса.
         """
-        func = self.get_original(func)
         result = func in self.decorated_methods
         return result
 
diff --git a/polog/unlog.py b/polog/unlog.py
index b42eb40..5093bab 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -70,7 +70,6 @@ class UnlogDecorator:
             result = function
         else:
             original_function = RegisteringFunctions().get_original(function)
-            RegisteringFunctions().remove(function)
             RegisteringFunctions().forbid(original_function)
             result = original_function
 
-- 
2.43.0


From 9fc780214a84a7a1311b348dba0d4c273131acae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:50 +0000
Subject: [PATCH 33/49] fix: record values that cannot be serialised instead of
 breaking the logged call

json.dumps() raises for integers of more than 4300 digits (and json modules other than
the standard one for even smaller ones), so that a decorated function raised ValueError
when it received or returned such a number.
---
 polog/utils/json_vars.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 99113fa..c207b52 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -15,25 +15,40 @@ def get_item(item):
         value = f'<unprintable {type(item).__name__} object>'
     return {'value': value, 'type': type(item).__name__}
 
+def get_serializable_item(item):
+    """
+    Даже объект базового типа не всегда возможно сериализовать. К примеру, у слишком больших чисел нет строкового представления.
+    """
+    result = get_item(item)
+    try:
+        store['json_module'].dumps(result)
+    except Exception:
+        result['value'] = f'<unprintable {type(item).__name__} object>'
+    return result
+
+def dump_vars(get_item, args, kwargs):
+    result = {}
+    if len(args):
+        result['args'] = [get_item(x) for x in args]
+    if len(kwargs):
+        result['kwargs'] = {key: get_item(value) for key, value in kwargs.items()}
+    return store['json_module'].dumps(result)
+
 def json_vars(*args, **kwargs):
     """
     Преобразуем любые аргументы в json-объект. Каждый элемент в json-объекте сопровождается названием типа данных. Это полезно в случаях, когда тип данных не соответствует стандартным для json. Все нестандартные объекты приводятся к типу str.
     Функция не поддерживает глубокую рекурсию.
     """
-    json = store['json_module']
     if not (len(args) + len(kwargs)):
         return None
-    args = [get_item(x) for x in args]
-    kwargs = {key: get_item(value) for key, value in kwargs.items()}
-    result = {}
-    if len(args):
-        result['args'] = args
-    if len(kwargs):
-        result['kwargs'] = kwargs
-    return json.dumps(result)
+    try:
+        return dump_vars(get_item, args, kwargs)
+    except Exception:
+        return dump_vars(get_serializable_item, args, kwargs)
 
 def json_one_variable(variable):
     json = store['json_module']
-    variable = get_item(variable)
-    result = json.dumps(variable)
-    return result
+    try:
+        return json.dumps(get_item(variable))
+    except Exception:
+        return json.dumps(get_serializable_item(variable))
-- 
2.43.0


From e279a0dd71b573b0ba56fdd0f6d09e63c54b6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:50 +0000
Subject: [PATCH 34/49] fix: logging.exception() with an exception whose str()
 raises no longer breaks the program

The filter that copies records of the logging module into Polog called str() on the
exception unprotected.
---
 .../core/stores/settings/actions/integration_with_logging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 9a82975..1123fc3 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -35,7 +35,10 @@ def from_logging_filter_to_polog(record):
     if record.exc_info and record.exc_info[0] is not None:
         data['exception_type'] = record.exc_info[0].__name__
         data['traceback'] = store['json_module'].dumps(traceback.format_tb(record.exc_info[2]))
-        data['exception_message'] = str(record.exc_info[1])
+        try:
+            data['exception_message'] = str(record.exc_info[1])
+        except Exception:
+            data['exception_message'] = f'<unprintable {record.exc_info[0].__name__} object>'
     data['thread'] = f'{record.threadName} ({record.thread})'
     data['process'] = f'{record.processName} ({record.process})'
 
-- 
2.43.0


From 41a5c73dac8d27884884dc81776f5fe7ad9ae59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:15 +0000
Subject: [PATCH 35/49] fix: logging an object whose repr() raises through the
 logging module no longer breaks the program

---
 .../core/stores/settings/actions/integration_with_logging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 1123fc3..5a8b747 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -21,7 +21,10 @@ def from_logging_filter_to_polog(record):
         try:
             data['message'] = record.getMessage()
         except Exception:
-            data['message'] = f'{record.msg!r} {record.args!r}'
+            try:
+                data['message'] = f'{record.msg!r} {record.args!r}'
+            except Exception:
+                data['message'] = f'<unprintable {type(record.msg).__name__} object>'
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
-- 
2.43.0


From b0cf448de61498902c3bd980e13ac8075604d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 36/49] fix: messages of the logging module that are falsy or
 have no truth value are recorded with their text

---
 .../settings/actions/integration_with_logging.py    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 5a8b747..a2431d6 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -17,14 +17,15 @@ def from_logging_filter_to_polog(record):
     data = {}
 
     data['time'] = datetime.fromtimestamp(record.created)
-    if record.msg:
+    try:
+        message = record.getMessage()
+    except Exception:
         try:
-            data['message'] = record.getMessage()
+            message = f'{record.msg!r} {record.args!r}'
         except Exception:
-            try:
-                data['message'] = f'{record.msg!r} {record.args!r}'
-            except Exception:
-                data['message'] = f'<unprintable {type(record.msg).__name__} object>'
+            message = f'<unprintable {type(record.msg).__name__} object>'
+    if message:
+        data['message'] = message
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
-- 
2.43.0


From 96176ca3247587a06cf105e4c45530ecb987f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 37/49] fix: records of the logging module whose level is an
 int subclass keep their level

---
 polog/core/stores/settings/actions/integration_with_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index a2431d6..90d6aff 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -26,7 +26,7 @@ def from_logging_filter_to_polog(record):
             message = f'<unprintable {type(record.msg).__name__} object>'
     if message:
         data['message'] = message
-    data['level'] = record.levelno
+    data['level'] = int(record.levelno)
     if record.levelno >= 30:
         data['success'] = False
     else:
-- 
2.43.0


From 9bc730b712928f781968105dc0725415389587a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 38/49] fix: branches of handlers bound to a function stay live
 after their last handler is deleted

---
 polog/data_structures/trees/named_tree/projector.py | 1 +
 polog/data_structures/trees/named_tree/tree.py      | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index 547f2ae..e47f74f 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -28,6 +28,7 @@ class TreeProjector:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
             with self.tree.lock:
                 node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+                node_to_put.is_projected = True
             new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
diff --git a/polog/data_structures/trees/named_tree/tree.py b/polog/data_structures/trees/named_tree/tree.py
index 83e7b48..084847f 100644
--- a/polog/data_structures/trees/named_tree/tree.py
+++ b/polog/data_structures/trees/named_tree/tree.py
@@ -54,6 +54,8 @@ class NamedTree:
         self.name = name
 
         self.value = None
+        # Признак того, что на ноду ссылается проекция (см. TreeProjector). Такую ноду нельзя вырезать из дерева, иначе проекция перестанет видеть изменения в нем.
+        self.is_projected = False
         self.childs = {}
         self.walker = TreeWalker(self)
         self.printer = TreePrinter(self)
@@ -163,7 +165,7 @@ class NamedTree:
         """
         Очистка дерева от лишних пустых нод. То есть от таких, которые не ведут к заполненным нодам.
 
-        Алгоритм основан на проходе вверх по нодам дерева (подразумевается, что дерево у нас растет "вверх ногами", то есть корень дерева - это самая верхняя нода). Для каждой ноды при проходе мы считаем количество значений в поддереве, которое с нее начинается. Если оно равно нулю - удаляем ноду.
+        Алгоритм основан на проходе вверх по нодам дерева (подразумевается, что дерево у нас растет "вверх ногами", то есть корень дерева - это самая верхняя нода). Для каждой ноды при проходе мы проверяем, есть ли в поддереве, которое с нее начинается, значения или спроецированные в другие деревья ноды. Если их нет - удаляем ноду.
         Подъем останавливается, если мы достигли ноды, обозначенной как break_on. Если нода break_on не передана, подъем идет до корня. Это может приводить к неожиданным последствиям, если данный метод запускается на поддереве какого-то более крупного дерева - будут зааффекчены ноды того дерева, которые стоят выше по иерархии относительно поддерева.
 
         Не потокобезопасно, подразумевается вызов из защищенных локом методов.
@@ -176,7 +178,7 @@ class NamedTree:
             for child_name, child in list(parent.childs.items()):
                 if child is break_on:
                     return
-                if not len(child):
+                if not any(subnode.value is not None or subnode.is_projected for subnode in child.walker.bfs()):
                     childs_to_delete.append(child_name)
             for name in childs_to_delete:
                 del parent.childs[name]
-- 
2.43.0


From ef71d5e400f14798b133cf293c8e625d92d33433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 39/49] fix: a handler registered without a name never gets a
 name that is already taken

---
 polog/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/config.py b/polog/config.py
index 0fe2800..20d0008 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -94,7 +94,10 @@ class config:
                 with global_handlers.lock:
                     if id(handler) in {id(node.value) for node in list(global_handlers.childs.values())}:
                         raise ValueError('An attempt to store the same handler object in a global namespace.')
-                    handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                    while True:
+                        handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                        if global_handlers.get(handler_name) is None:
+                            break
                     cls.set_handler(handler_name, handler)
         for handler_name, handler in kwargs.items():
             cls.set_handler(handler_name, handler)
-- 
2.43.0


From 77516cd8a963ee024dc565c615f32e98a441e786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 40/49] fix: handlers registered deeper than the first level
 can be deleted by object

---
 polog/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/config.py b/polog/config.py
index 20d0008..0969f30 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -143,7 +143,7 @@ class config:
             else:
                 handler = maybe_name
                 with global_handlers.lock:
-                    other_handlers = {id(node.value): node.name for node in list(global_handlers.childs.values())}
+                    other_handlers = {id(node.value): node.get_full_name() for node in global_handlers.walker.bfs() if node.value is not None}
                     if id(handler) not in other_handlers:
                         raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
                     handler_name = other_handlers[id(handler)]
-- 
2.43.0


From edadbe4e00d501411b8d2550f002800bb0ac8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:42 +0000
Subject: [PATCH 41/49] fix: the same handler object cannot be registered
 twice, whatever its names

---
 polog/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/config.py b/polog/config.py
index 0969f30..d92aa19 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -92,8 +92,6 @@ class config:
                     cls.set_handler(name, value)
             else:
                 with global_handlers.lock:
-                    if id(handler) in {id(node.value) for node in list(global_handlers.childs.values())}:
-                        raise ValueError('An attempt to store the same handler object in a global namespace.')
                     while True:
                         handler_name = next(cls.pony_names_generator).replace(' ', '_')
                         if global_handlers.get(handler_name) is None:
@@ -110,6 +108,8 @@ class config:
         with global_handlers.lock:
             if global_handlers.get(name) is not None:
                 raise NameError(f'Attempt to override a handler named {name}.')
+            if any(handler is other_handler for other_handler in global_handlers):
+                raise ValueError('An attempt to store the same handler object in a global namespace.')
             global_handlers[name] = handler
 
     @staticmethod
-- 
2.43.0


From 6c47480b442ad925fa9c7a12ea2dcc0e94e4642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:21 +0000
Subject: [PATCH 42/49] fix: the old number of a renamed level is no longer
 called by the name

---
 polog/core/stores/levels.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/polog/core/stores/levels.py b/polog/core/stores/levels.py
index ae9d580..66e51a8 100644
--- a/polog/core/stores/levels.py
+++ b/polog/core/stores/levels.py
@@ -19,8 +19,16 @@ class Levels:
             raise KeyError('The key for the logging level can only be a string.')
         if not isinstance(value, int):
             raise ValueError('The level value can only be an integer.')
+        old_value = cls.levels.get(name)
         cls.levels[name] = value
         cls.levels_reverse[value] = name
+        # Если имя раньше принадлежало другому уровню, тот уровень больше не должен им называться.
+        if old_value is not None and old_value != value and cls.levels_reverse.get(old_value) == name:
+            other_names = [other_name for other_name, other_value in list(cls.levels.items()) if other_value == old_value]
+            if other_names:
+                cls.levels_reverse[old_value] = other_names[-1]
+            else:
+                cls.levels_reverse.pop(old_value, None)
 
     @classmethod
     def get(cls, key):
-- 
2.43.0


From 1109331a4cadc832d9de9d895b308171759931e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:21 +0000
Subject: [PATCH 43/49] fix: a level named get_message no longer breaks smart
 assertions

---
 polog/loggers/handle/smart_assert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/handle/smart_assert.py b/polog/loggers/handle/smart_assert.py
index 0fe34b1..e00c422 100644
--- a/polog/loggers/handle/smart_assert.py
+++ b/polog/loggers/handle/smart_assert.py
@@ -20,7 +20,7 @@ class SmartAssert(AbstractHandleLogger):
         Если первый аргумент эквивалентен False - мы либо поднимаем исключение, либо пишем лог.
         Выбранный вариант зависит от текущей настройки debug_mode. Если debug_mode == False - поднимется исключение, иначе - пишется лог.
         """
-        message = self.get_message(expression_result, *maybe_message)
+        message = self._get_message(expression_result, *maybe_message)
         try:
             if self.settings['smart_assert_politic'](self.settings['debug_mode'], expression_result):
                 log(message, exception=AssertionError(message))
@@ -32,7 +32,7 @@ class SmartAssert(AbstractHandleLogger):
         if failed:
             raise AssertionError(message)
 
-    def get_message(self, expression_result, *maybe_message):
+    def _get_message(self, expression_result, *maybe_message):
         """
         Извлекаем сообщение из того, что было передано.
 
-- 
2.43.0


From 78869a2029cf0e809257e24da6887dde417836a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:21 +0000
Subject: [PATCH 44/49] fix: callables with a required keyword-only parameter
 are not accepted as handlers

---
 polog/core/utils/signature_matcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index c49d2ac..2f7fc3d 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -43,6 +43,7 @@ class SignatureMatcher:
         result *= self.prove_number_of_position_args(parameters)
         result *= self.prove_number_of_named_args(parameters)
         result *= self.prove_names_of_named_args(parameters)
+        result *= self.prove_no_required_keyword_only_args(parameters)
         return bool(result)
 
     def prove_is_args(self, parameters):
@@ -79,6 +80,12 @@ class SignatureMatcher:
             result *= (name in names_of_parameters)
         return result
 
+    def prove_no_required_keyword_only_args(self, parameters):
+        """
+        Проверка отсутствия обязательных аргументов, которые можно передать только по имени. Описать такие в "слепке" нельзя, а функцию с ними невозможно вызвать в соответствии с ним.
+        """
+        return not [parameter for parameter in parameters if parameter.kind == parameter.KEYWORD_ONLY and parameter.default is parameter.empty]
+
     @classmethod
     def is_handler(cls, function, raise_exception=True):
         """
-- 
2.43.0


From b11b080640d2c63e555658334ab3a849812c1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:21 +0000
Subject: [PATCH 45/49] fix: a field without a text no longer loses the whole
 line of the log file

---
 polog/handlers/file/base_formatter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/polog/handlers/file/base_formatter.py b/polog/handlers/file/base_formatter.py
index 2e4cdf7..382b55d 100644
--- a/polog/handlers/file/base_formatter.py
+++ b/polog/handlers/file/base_formatter.py
@@ -133,10 +133,13 @@ class BaseFormatter:
             if field_name not in base:
                 if field_name not in self.FORBIDDEN_EXTRA_FIELDS:
                     if value is not None:
-                        if isinstance(value, str):
-                            base[field_name] = f'{field_name}: "{value}"'
-                        else:
-                            base[field_name] = f'{field_name}: {value}'
+                        try:
+                            if isinstance(value, str):
+                                base[field_name] = f'{field_name}: "{value}"'
+                            else:
+                                base[field_name] = f'{field_name}: {value}'
+                        except Exception:
+                            base[field_name] = f'{field_name}: <unprintable {type(value).__name__} object>'
 
     def format(self, data):
         """
-- 
2.43.0


From c12ada373ad13141df8a290929bfac89ed2bde12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:21 +0000
Subject: [PATCH 46/49] fix: a field without a text no longer loses the whole
 letter

---
 polog/handlers/smtp/sender.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/smtp/sender.py b/polog/handlers/smtp/sender.py
index b045c00..1d34a5b 100644
--- a/polog/handlers/smtp/sender.py
+++ b/polog/handlers/smtp/sender.py
@@ -93,13 +93,22 @@ class SMTP_sender(BaseHandler):
         Метод, возвращающий текст письма по умолчанию.
         По умолчанию текст письма - это просто перечисление всех переданных в метод __call__() аргументов.
         """
-        elements = [f'{key} = {value}' for key, value in log.items()]
+        elements = [self.get_element(key, value) for key, value in log.items()]
         text = '\n'.join(elements)
         if text:
             text = f'Message from the Polog:\n\n{text}'
             return text
         return 'Empty message from the Polog.'
 
+    def get_element(self, key, value):
+        """
+        Возвращаем строку текста письма по умолчанию, соответствующую одному полю лога.
+        """
+        try:
+            return f'{key} = {value}'
+        except Exception:
+            return f'{key} = <unprintable {type(value).__name__} object>'
+
     def get_subject(self, log):
         """
         Данный метод возвращает тему письма.
-- 
2.43.0


From bb9e8dc6e6070cf5b0ee8e556462c7e1ae0251ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:18 +0000
Subject: [PATCH 47/49] fix: records written after the exit handler no longer
 hang the program

---
 polog/core/engine/engine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index e0a4046..7207eca 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -1,6 +1,7 @@
 import atexit
 from threading import Lock
 
+from polog.core.engine.real_engines.singlethreaded.engine import SingleThreadedRealEngine
 from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.read_only_singleton import ReadOnlySingleton
 from polog.core.utils.exception_escaping import exception_escaping
@@ -140,4 +141,9 @@ class Engine(ReadOnlySingleton):
         # Учет данной функции при расчете покрытия тестами отключен, поскольку для его проверки используется отдельный процесс, который, к сожалению, не учитывается сборщиком статистики.
         def checker(): # pragma: no cover
             self.block()
-            self.stop()
+            try:
+                self.stop()
+                # Логи, записанные после этого момента (к примеру, другими обработчиками выхода), обрабатываются на месте.
+                self.real_engine = SingleThreadedRealEngine(self.settings)
+            finally:
+                self.unlock()
-- 
2.43.0


From e4bb2360f760f9acf0dbd31746218c0d390a8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:27 +0000
Subject: [PATCH 48/49] fix: an object of log(...) refuses anything but exactly
 one argument as a decorator

---
 polog/loggers/finalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index 11dc35e..029b3e4 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -43,7 +43,7 @@ class LoggerRouteFinalizer:
         if self.entered:
             return self.rewrite_fields(*args, **kwargs)
 
-        if len(args) != 1 and len(kwargs) > 0:
+        if len(args) != 1 or len(kwargs) > 0:
             raise IncorrectUseOfTheDecoratorError()
         wrappable = args[0]
 
-- 
2.43.0


From 209996786e5b853d3a62661dbd07a68fa212bc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:45 +0000
Subject: [PATCH 49/49] fix: cut the traceback on Python 3.11 and later, where
 set_exc_info ignores it

---
 polog/core/utils/cut_traceback.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polog/core/utils/cut_traceback.py b/polog/core/utils/cut_traceback.py
index e2b83c3..b30c4ae 100644
--- a/polog/core/utils/cut_traceback.py
+++ b/polog/core/utils/cut_traceback.py
@@ -9,6 +9,7 @@ try:
         """
         if store['traceback_cutting']:
             tp, exc, tb = exc_info()
+            exc.with_traceback(tb.tb_next)
             set_exc_info(tp, exc, tb.tb_next)
 
 except ImportError: # pragma: no cover
-- 
2.43.0

