From 30ebe96e62f830ab7978bcd3887c5758fc8f3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 01/59] fix: an object that cannot be converted to str no
 longer breaks the decorated function

---
 polog/utils/json_vars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 4e44602..bf71957 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -9,7 +9,11 @@ def get_item(item):
     for one in BASE_JSON_TYPES:
         if isinstance(item, one):
             return {'value': item, 'type': one.__name__}
-    return {'value': str(item), 'type': type(item).__name__}
+    try:
+        value = str(item)
+    except Exception:
+        value = f'<{type(item).__name__} object that cannot be converted to a string>'
+    return {'value': value, 'type': type(item).__name__}
 
 def json_vars(*args, **kwargs):
     """
-- 
2.43.0


From a061ebf561096019fe905b90417fe8f144d8d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 02/59] fix: an exception that cannot be converted to str
 reaches the caller instead of its failed conversion

---
 polog/core/utils/exception_to_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/core/utils/exception_to_dict.py b/polog/core/utils/exception_to_dict.py
index 3dc4041..7630e27 100644
--- a/polog/core/utils/exception_to_dict.py
+++ b/polog/core/utils/exception_to_dict.py
@@ -2,5 +2,8 @@ def exception_to_dict(args_dict, exc):
     """
     Заполняем словарь с аргументами информацией об исключении.
     """
-    args_dict['exception_message'] = str(exc)
+    try:
+        args_dict['exception_message'] = str(exc)
+    except Exception:
+        args_dict['exception_message'] = f'<{type(exc).__name__} object that cannot be converted to a string>'
     args_dict['exception_type'] = type(exc).__name__
-- 
2.43.0


From fd7698bf468627d3bbf2c343194588d64071c7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 03/59] fix: an exception that forbids setting attributes
 passes through the logging decorator unchanged

---
 polog/loggers/auto/function_logger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 6e2f1c4..5231b85 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -172,7 +172,10 @@ class FunctionLogger:
         """
         if not unlog.get_unlog_status():
             if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
-                exc.checked_by_polog = True
+                try:
+                    exc.checked_by_polog = True
+                except Exception:
+                    pass
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
                     exception_to_dict(args_dict, exc)
-- 
2.43.0


From 9801b73f42c08d5075535fd02d5806ba7b44edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 04/59] fix: an unregistered level in the decorator no longer
 makes a successful call raise KeyError

---
 polog/loggers/auto/function_logger.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 5231b85..76d24f8 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -222,10 +222,11 @@ class FunctionLogger:
         Если клиент определил его сам - используем эту оценку. Если нет - берем дефолтное значение из настроек.
         """
         if level is not None:
-            level = Levels.get(level)
-        else:
-            level = self.settings['default_level']
-        return level
+            try:
+                return Levels.get(level)
+            except (KeyError, ValueError):
+                pass
+        return self.settings['default_level']
 
     def create_log_item(self, args, kwargs, data, handlers, engine_fields, in_place_fields):
         """
-- 
2.43.0


From df0218b9455eb815574bf91bee1d69d1743e6438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 05/59] fix: leaving a nested unlogged function no longer turns
 logging on inside the outer one

---
 polog/unlog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/unlog.py b/polog/unlog.py
index 2fbb080..08741d3 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -93,18 +93,20 @@ class UnlogDecorator:
     def set_unlogged(self, function, full):
         @wraps(function)
         def wrapper(*args, **kwargs):
+            previous_order = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous_order)
         @wraps(function)
         async def async_wrapper(*args, **kwargs):
+            previous_order = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return await function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous_order)
         if iscoroutinefunction(function):
             return async_wrapper
         return wrapper
-- 
2.43.0


From df1fb39cd66027abadf6f8829404f9b375117024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 06/59] fix: nested "with log" blocks of parallel tasks no
 longer share one mutable stack

---
 polog/loggers/router.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/polog/loggers/router.py b/polog/loggers/router.py
index 627f5a0..27ce178 100644
--- a/polog/loggers/router.py
+++ b/polog/loggers/router.py
@@ -131,11 +131,7 @@ class Router:
         """
         finalizer = LoggerRouteFinalizer()
 
-        context_stack = contexts.get(None)
-        if context_stack is None:
-            contexts.set([finalizer])
-        else:
-            context_stack.append(finalizer)
+        contexts.set((*(contexts.get(None) or ()), finalizer))
 
         return finalizer.__enter__()
 
@@ -148,10 +144,9 @@ class Router:
         if finalizers is None:
             raise IncorrectUseOfTheContextManagerError()
 
-        finalizer = finalizers.pop()
+        *finalizers, finalizer = finalizers
 
-        if not finalizers:
-            contexts.set(None)
+        contexts.set(tuple(finalizers) or None)
 
         result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
         return result
-- 
2.43.0


From b81fc2162aaf89dbbe049560abc8e3572ccfb5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 07/59] fix: a prefix of a registered handler path is free to
 be used as a handler name

---
 polog/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/config.py b/polog/config.py
index f5b537f..87aad74 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -103,7 +103,7 @@ class config:
         """
         Сохраняем обработчик под каким-то именем.
         """
-        if name in global_handlers:
+        if global_handlers.get(name) is not None:
             raise NameError(f'Attempt to override a handler named {name}.')
         global_handlers[name] = handler
 
-- 
2.43.0


From 66ad46db83ec2f55461612bfc683d44a30a0d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:55 +0000
Subject: [PATCH 08/59] fix: a logged call no longer erases or leaks the
 message() edits of the logged function that called it

---
 polog/loggers/auto/function_logger.py | 14 ++++++++++++--
 polog/loggers/handle/message.py       | 15 +++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 76d24f8..d01af67 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -64,7 +64,7 @@ class FunctionLogger:
                 """
                 Обертка для корутинных функций, вызов обернутой функции происходит через await.
                 """
-                _message._clean_context()
+                outer_message = _message._open_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
                     start = time.time()
@@ -73,20 +73,25 @@ class FunctionLogger:
                 except Exception as e:
                     finish = time.time()
                     self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    _message._close_context(outer_message)
                     if not suppress_all:
                         if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
                             cut_traceback(self.settings)
                             raise
                     return None
+                except BaseException:
+                    _message._close_context(outer_message)
+                    raise
                 finish = time.time()
                 self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                _message._close_context(outer_message)
                 return result
             @wraps(func)
             def wrapper(*args, **kwargs):
                 """
                 Обертка для обычных функций.
                 """
-                _message._clean_context()
+                outer_message = _message._open_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
                     start = time.time()
@@ -95,13 +100,18 @@ class FunctionLogger:
                 except Exception as e:
                     finish = time.time()
                     self.log_exception_info(e, finish, start, args_dict, errors_level, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    _message._close_context(outer_message)
                     if not suppress_all:
                         if not exception_is_suppressed(e, suppressed_exceptions, self.settings):
                             cut_traceback(self.settings)
                             raise
                     return None
+                except BaseException:
+                    _message._close_context(outer_message)
+                    raise
                 finish = time.time()
                 self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                _message._close_context(outer_message)
                 return result
             if inspect.iscoroutinefunction(func):
                 result = async_wrapper
diff --git a/polog/loggers/handle/message.py b/polog/loggers/handle/message.py
index 4fdfeb7..a710928 100644
--- a/polog/loggers/handle/message.py
+++ b/polog/loggers/handle/message.py
@@ -54,6 +54,21 @@ class Message(AbstractHandleLogger):
         """
         context.set(None)
 
+    def _open_context(self):
+        """
+        Начинаем новый (пустой) контекст для вызова задекорированной функции.
+        Возвращаем содержимое контекста вызывающего кода, чтобы его можно было восстановить через ._close_context().
+        """
+        outer_context = self._get_context()
+        self._clean_context()
+        return outer_context
+
+    def _close_context(self, outer_context):
+        """
+        Восстанавливаем контекст вызывающего кода после завершения вызова задекорированной функции.
+        """
+        context.set(outer_context)
+
     def _get_context(self):
         """
         Возвращаем содержимое контекстной переменной.
-- 
2.43.0


From e4149a64d92255eea3d852c3cea084b71c3346e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:55 +0000
Subject: [PATCH 09/59] fix: the double lock lets another thread in only after
 the file lock is released, and never stays half taken

---
 polog/handlers/file/locks/double_lock.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/polog/handlers/file/locks/double_lock.py b/polog/handlers/file/locks/double_lock.py
index 53aac61..67c53f2 100644
--- a/polog/handlers/file/locks/double_lock.py
+++ b/polog/handlers/file/locks/double_lock.py
@@ -21,14 +21,20 @@ class DoubleLock:
         Взять оба лока.
         """
         self.thread_lock.acquire()
-        self.file_lock.acquire()
+        try:
+            self.file_lock.acquire()
+        except BaseException:
+            self.thread_lock.release()
+            raise
 
     def __exit__(self, exception_type, exception_value, traceback):
         """
         Отпустить оба лока.
         """
-        self.thread_lock.release()
-        self.file_lock.release()
+        try:
+            self.file_lock.release()
+        finally:
+            self.thread_lock.release()
 
     @staticmethod
     def get_lock_types(lock_type):
-- 
2.43.0


From 03b76d2927880b98da29c0f7685d27b7ad2ae42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:55 +0000
Subject: [PATCH 10/59] fix: a rotation never overwrites an archive made by an
 earlier rotation

---
 polog/handlers/file/rotation/rotator.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/rotation/rotator.py b/polog/handlers/file/rotation/rotator.py
index 685675b..330dea5 100644
--- a/polog/handlers/file/rotation/rotator.py
+++ b/polog/handlers/file/rotation/rotator.py
@@ -50,7 +50,7 @@ class Rotator:
         Копируем файл с логами в указанную пользователем папку, переоткрываем файл по старому пути.
         В качестве нового имени файла используем название файла корневого скрипта, с измененным на .log расширением и суффиксом, отображающим текущую дату и время.
         """
-        self.file.move_file(os.path.join(self.to, self.new_filename()))
+        self.file.move_file(self.new_path())
 
     def generate_rules(self, source_rules):
         """
@@ -117,6 +117,17 @@ class Rotator:
         """
         return 'logs'
 
+    def new_path(self):
+        """
+        Путь, по которому будет перемещен файл при ротации. Ранее ротированные файлы не перезаписываются: если файл с таким именем уже есть, к имени добавляется порядковый номер.
+        """
+        path = os.path.join(self.to, self.new_filename())
+        result, number = path, 1
+        while os.path.exists(result):
+            result = f'{path}.{number}'
+            number += 1
+        return result
+
     def new_filename(self):
         """
         Создаем новое имя файла при ротации.
-- 
2.43.0


From 45199f296162a3b18c778173b927787bce8b4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 11/59] fix: a failing filter sends the record to the
 alternative handler instead of dropping it

---
 polog/handlers/abstract/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/abstract/base.py b/polog/handlers/abstract/base.py
index 8219269..88bbc72 100644
--- a/polog/handlers/abstract/base.py
+++ b/polog/handlers/abstract/base.py
@@ -35,7 +35,11 @@ class BaseHandler:
         Благодаря этой функции объект класса является вызываемым.
         В случае неудачи при записи лога, выполняется функция alt, если она была указана при инициализации объекта.
         """
-        if not self.to_do_or_not_to_do(log):
+        try:
+            to_do = self.to_do_or_not_to_do(log)
+        except Exception:
+            to_do = False
+        if not to_do:
             return self.run_alt(log)
         try:
             content = self.get_content(log)
-- 
2.43.0


From 71662ee617fd61b02dbc2fdf2744ddd70ffdcdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 12/59] fix: whole numbers of seconds keep their zeros in the
 "time of work" of a line

---
 polog/handlers/file/base_formatter_fields_extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 416950a..6ff0524 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -214,7 +214,7 @@ class BaseFormatterFieldsExtractors:
         if var is None:
             return None
         number = f'{var:.8f}'
-        number = number.rstrip('0.')
+        number = number.rstrip('0').rstrip('.')
         result = f"time of work: {number} sec."
         return result
 
-- 
2.43.0


From 9bb1c559ad8b14da1f3eab94ed3c60adfe94c55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:16 +0000
Subject: [PATCH 13/59] fix: a level name given to another number is no longer
 reported for the old number

---
 polog/core/stores/levels.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polog/core/stores/levels.py b/polog/core/stores/levels.py
index ae9d580..26c8f84 100644
--- a/polog/core/stores/levels.py
+++ b/polog/core/stores/levels.py
@@ -19,6 +19,9 @@ class Levels:
             raise KeyError('The key for the logging level can only be a string.')
         if not isinstance(value, int):
             raise ValueError('The level value can only be an integer.')
+        old_value = cls.levels.get(name)
+        if old_value is not None and cls.levels_reverse.get(old_value) == name:
+            del cls.levels_reverse[old_value]
         cls.levels[name] = value
         cls.levels_reverse[value] = name
 
-- 
2.43.0


From d0bb1af6e363003433f4ea593b824c385688e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 14/59] fix: logging calls that are legal without Polog no
 longer raise when they are copied to Polog

---
 .../settings/actions/integration_with_logging.py   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 309f14e..aeb5f75 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -18,7 +18,10 @@ def from_logging_filter_to_polog(record):
 
     data['time'] = datetime.fromtimestamp(record.created)
     if record.msg:
-        data['message'] = record.getMessage()
+        try:
+            data['message'] = record.getMessage()
+        except Exception:
+            data['message'] = f'<{type(record.msg).__name__} message that cannot be formatted>'
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
@@ -26,13 +29,16 @@ def from_logging_filter_to_polog(record):
         data['success'] = True
     data['module'] = record.module
     data['line_number'] = record.lineno
-    if record.funcName.isidentifier():
+    if record.funcName is not None and record.funcName.isidentifier():
         data['function'] = record.funcName
     data['path_to_code'] = record.pathname
-    if record.exc_info is not None:
+    if record.exc_info and record.exc_info[0] is not None:
         data['exception_type'] = record.exc_info[0].__name__
         data['traceback'] = store['json_module'].dumps(traceback.format_tb(record.exc_info[2]))
-        data['exception_message'] = str(record.exc_info[1])
+        try:
+            data['exception_message'] = str(record.exc_info[1])
+        except Exception:
+            data['exception_message'] = f'<{type(record.exc_info[1]).__name__} object that cannot be converted to a string>'
     data['thread'] = f'{record.threadName} ({record.thread})'
     data['process'] = f'{record.processName} ({record.process})'
 
-- 
2.43.0


From 4e39548c023e5b42b488351972a03e3a2fa8f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:17 +0000
Subject: [PATCH 15/59] fix: an unknown level in a manual log respects the
 silent_internal_exceptions setting

---
 polog/loggers/handle/abstract.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 2da68fa..527e3d3 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -144,7 +144,11 @@ class AbstractHandleLogger:
                     continue
             # При необходимости - конвертируем переданные значения.
             if key in self._convert_values:
-                value = self._convert_values.get(key)(value)
+                try:
+                    value = self._convert_values.get(key)(value)
+                except Exception as e:
+                    self._maybe_raise(type(e), f'The "{key}" argument cannot be used: {e}')
+                    continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
                 if destination[key] != kwargs[key]:
-- 
2.43.0


From 84d5576b1187e458481d6dd6aea031e3de265b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 16/59] fix: a smart assert in debug mode raises without also
 writing a record about its own exception

---
 polog/loggers/handle/smart_assert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/handle/smart_assert.py b/polog/loggers/handle/smart_assert.py
index 78b9c3f..5c57150 100644
--- a/polog/loggers/handle/smart_assert.py
+++ b/polog/loggers/handle/smart_assert.py
@@ -21,15 +21,17 @@ class SmartAssert(AbstractHandleLogger):
         Выбранный вариант зависит от текущей настройки debug_mode. Если debug_mode == False - поднимется исключение, иначе - пишется лог.
         """
         message = self.get_message(expression_result, *maybe_message)
+        failed = False
         try:
             if self.settings['smart_assert_politic'](self.settings['debug_mode'], expression_result):
                 log(message, exception=AssertionError(message))
-            if self.settings['debug_mode'] and not expression_result:
-                raise AssertionError(message)
+            failed = self.settings['debug_mode'] and not expression_result
         except Exception:
             if self.settings['debug_mode']:
                 log(message, exception=AssertionError(message))
                 raise AssertionError(message)
+        if failed:
+            raise AssertionError(message)
 
     def get_message(self, expression_result, *maybe_message):
         """
-- 
2.43.0


From ce1903ff9909a65ecc91756e42b9a8f6a4c6e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 17/59] fix: a callable with a required keyword-only argument
 is not accepted as a handler

---
 polog/core/utils/signature_matcher.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index c49d2ac..343752d 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -43,6 +43,7 @@ class SignatureMatcher:
         result *= self.prove_number_of_position_args(parameters)
         result *= self.prove_number_of_named_args(parameters)
         result *= self.prove_names_of_named_args(parameters)
+        result *= self.prove_no_required_named_args(parameters)
         return bool(result)
 
     def prove_is_args(self, parameters):
@@ -79,6 +80,12 @@ class SignatureMatcher:
             result *= (name in names_of_parameters)
         return result
 
+    def prove_no_required_named_args(self, parameters):
+        """
+        Проверка, что нет обязательных аргументов, которые можно передать только по имени. Функцию с такими аргументами нельзя вызвать позиционно.
+        """
+        return not [parameter for parameter in parameters if parameter.kind == parameter.KEYWORD_ONLY and parameter.default == parameter.empty]
+
     @classmethod
     def is_handler(cls, function, raise_exception=True):
         """
-- 
2.43.0


From 45f122f81753ed6a45a69aa52df2a39f5f8161c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 18/59] fix: concurrent first creations of a singleton all get
 the same instance

---
 polog/core/utils/read_only_singleton.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polog/core/utils/read_only_singleton.py b/polog/core/utils/read_only_singleton.py
index c16da11..1708138 100644
--- a/polog/core/utils/read_only_singleton.py
+++ b/polog/core/utils/read_only_singleton.py
@@ -14,6 +14,8 @@ class ReadOnlySingleton:
         После чего подменяется объявленной внутри него же функцией __new__(), которая всегда возвращает экземпляр без дополнительных проверок.
         """
         with cls.create_lock:
+            if 'instance' in cls.__dict__:
+                return cls.instance
             def __new__(cls, **kwargs):
                 return cls.instance
             cls.instance = super().__new__(cls)
-- 
2.43.0


From 2faf91eb35b31c3b18fa7b278d5b24a9b7eb21ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 19/59] fix: extra fields of a decorator can be a tuple with an
 ellipsis, and the list of the user is not changed

---
 polog/loggers/auto/function_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index d01af67..5398fef 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -309,7 +309,7 @@ class FunctionLogger:
         if not isinstance(maybe_fields, dict) and not isinstance(maybe_fields, list) and not isinstance(maybe_fields, tuple):
             raise ValueError(f'A dictionary containing log field extractors is expected. You can also pass a list or tuple containing such dictionaries and ellipsis. You passed "{maybe_fields}".')
 
-        all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else maybe_fields
+        all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else list(maybe_fields)
 
         if Ellipsis in all_fields:
             is_ellipsis = True
-- 
2.43.0


From 59c0cc464f5d69e138c0fb0df07391575d040088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:49 +0000
Subject: [PATCH 20/59] fix: items() of the weak dictionary gives the values
 and does not call them

---
 polog/data_structures/wrappers/weak_linked/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/data_structures/wrappers/weak_linked/dictionary.py b/polog/data_structures/wrappers/weak_linked/dictionary.py
index 71e8bda..db7dff1 100644
--- a/polog/data_structures/wrappers/weak_linked/dictionary.py
+++ b/polog/data_structures/wrappers/weak_linked/dictionary.py
@@ -111,7 +111,7 @@ class LockedWeakKeyValueDictionary:
         for key in self.keys():
             value = self.get(key)
             if value is not None:
-                yield key, value()
+                yield key, value
 
     def pop(self, key, *defaults):
         """
-- 
2.43.0


From bfcd84fd297c7a2ca4916f71e160272c9bbce0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:17 +0000
Subject: [PATCH 21/59] fix: static methods and class methods keep working in
 logged and unlogged classes

---
 polog/core/utils/class_attributes.py | 25 +++++++++++++++++++++++++
 polog/loggers/auto/class_logger.py   |  9 +++++----
 polog/unlog.py                       |  5 +++--
 3 files changed, 33 insertions(+), 6 deletions(-)
 create mode 100644 polog/core/utils/class_attributes.py

diff --git a/polog/core/utils/class_attributes.py b/polog/core/utils/class_attributes.py
new file mode 100644
index 0000000..14b7e27
--- /dev/null
+++ b/polog/core/utils/class_attributes.py
@@ -0,0 +1,25 @@
+import inspect
+
+
+def get_method(Class, name):
+    """
+    Получаем функцию, которая лежит в классе под указанным именем.
+
+    Для статических методов и методов класса возвращается функция, которую они оборачивают.
+    """
+    method = getattr(Class, name)
+    attribute = inspect.getattr_static(Class, name)
+    if isinstance(attribute, (staticmethod, classmethod)):
+        return attribute.__func__
+    return method
+
+def set_method(Class, name, function):
+    """
+    Сохраняем в классе функцию под указанным именем.
+
+    Если под этим именем был статический метод или метод класса, он остается, соответственно, статическим методом или методом класса.
+    """
+    attribute = inspect.getattr_static(Class, name)
+    if isinstance(attribute, (staticmethod, classmethod)):
+        function = type(attribute)(function)
+    setattr(Class, name, function)
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 42e1044..49f546d 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -2,6 +2,7 @@ import inspect
 
 from polog.loggers.auto.function_logger import flog
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.class_attributes import get_method, set_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 
 
@@ -20,20 +21,20 @@ class ClassLogger:
             # Получаем имена методов класса.
             all_methods = self.get_logging_methods(Class, *methods)
             for method_name in all_methods:
-                method = getattr(Class, method_name)
+                method = get_method(Class, method_name)
                 # Конфигурируем декоратор для метода.
                 wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True)
                 # Применяем его.
                 new_method = wrapper(method)
-                setattr(Class, method_name, new_method)
+                set_method(Class, method_name, new_method)
             # Получаем кортеж с именами методов, которые логировать НЕ надо.
             # Если они уже залогированы - нужно вернуть оригиналы.
             originals = self.make_originals(Class, *methods)
             register = RegisteringFunctions()
             for method_name in originals:
-                method = getattr(Class, method_name)
+                method = get_method(Class, method_name)
                 original = register.get_original(method)
-                setattr(Class, method_name, original)
+                set_method(Class, method_name, original)
             return Class
         if not len(args):
             return decorator
diff --git a/polog/unlog.py b/polog/unlog.py
index 08741d3..3c9ffd2 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -6,6 +6,7 @@ from typing import Optional
 from inspect import iscoroutinefunction
 
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.class_attributes import get_method, set_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 from polog.core.stores.settings.settings_store import SettingsStore
 
@@ -31,9 +32,9 @@ class UnlogDecorator:
             if isclass(obj):
                 for function_name in dir(obj):
                     if not function_name.startswith('__'):
-                        maybe_method = getattr(obj, function_name)
+                        maybe_method = get_method(obj, function_name)
                         if callable(maybe_method):
-                            setattr(obj, function_name, self.unlog_function(maybe_method, full))
+                            set_method(obj, function_name, self.unlog_function(maybe_method, full))
                 return obj
             elif callable(obj):
                 return self.unlog_function(obj, full)
-- 
2.43.0


From 9195912f47811660e14541e632b0635f6b203060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:00 +0000
Subject: [PATCH 22/59] fix: a record made by a later exit handler is written
 and no longer hangs the program

---
 polog/core/engine/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 7b45c6c..ad7256b 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -2,6 +2,7 @@ import atexit
 from threading import Lock
 
 from polog.core.stores.settings.settings_store import SettingsStore
+from polog.core.engine.real_engines.singlethreaded.engine import SingleThreadedRealEngine
 from polog.core.utils.read_only_singleton import ReadOnlySingleton
 from polog.core.utils.exception_escaping import exception_escaping
 from polog.core.utils.time_limit import time_limit
@@ -137,3 +138,6 @@ class Engine(ReadOnlySingleton):
         def checker(): # pragma: no cover
             self.block()
             self.stop()
+            # События, которые произойдут позднее (например, в обработчиках выхода, которые сработают после данного), записываются без участия потоков.
+            self.real_engine = SingleThreadedRealEngine(self.settings)
+            self.unlock()
-- 
2.43.0


From 885a6a05636e22fba84051b67d6a24d196b3061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:38 +0000
Subject: [PATCH 23/59] fix: a record that reaches the queue while the pool is
 being stopped is not lost

---
 .../engine/real_engines/multithreaded/pool.py | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/real_engines/multithreaded/pool.py b/polog/core/engine/real_engines/multithreaded/pool.py
index 4c31b7a..ff56bd0 100644
--- a/polog/core/engine/real_engines/multithreaded/pool.py
+++ b/polog/core/engine/real_engines/multithreaded/pool.py
@@ -1,5 +1,5 @@
 import time
-from queue import Queue
+from queue import Queue, Empty
 
 from polog.core.engine.real_engines.multithreaded.worker import Worker
 
@@ -14,6 +14,7 @@ class ThreadPool:
     """
     def __init__(self, settings):
         self.settings = settings
+        self.stopped = False
         self.queue = Queue(maxsize=self.settings.force_get('max_queue_size'))
         self.workers = self.create_workers()
 
@@ -22,6 +23,8 @@ class ThreadPool:
         Помещение лога в очередь.
         """
         self.queue.put(log_item)
+        if self.stopped:
+            self.do_late_items()
 
     def stop(self):
         """
@@ -34,12 +37,28 @@ class ThreadPool:
         2. Проставить флаги остановки воркерам. Воркер нельзя просто "убить". Он должен завершить работу с текущим таском, после чего проверить флаг остановки, и, если он установлен - выйти из цикла.
         3. Заджойнить потоки воркеров.
         """
+        self.stopped = True
         self.wait_empty_queue()
         for worker in self.workers:
             worker.set_stop_flag()
         for worker in self.workers:
             worker.stop()
 
+    def do_late_items(self):
+        """
+        Лог мог попасть в очередь уже после начала остановки, когда воркеры его не дождутся. Такие логи обрабатываются в потоке, который их записал.
+        """
+        while True:
+            try:
+                log_item = self.queue.get_nowait()
+            except Empty:
+                break
+            try:
+                log_item()
+            except Exception:
+                pass
+            self.queue.task_done()
+
     def wait_empty_queue(self):
         """
         Опрашиваем очередь с некоторой периодичностью, пока она не опустеет. Когда очередь опустела, выходим.
-- 
2.43.0


From 66cf5155ac21d3d5e1d2dd837ea97150a4f0de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:14 +0000
Subject: [PATCH 24/59] fix: an exception that cannot be converted to str
 leaves a "with log" block as it is

---
 polog/loggers/finalizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index c07b569..11dc35e 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -11,6 +11,7 @@ from polog.loggers.auto.function_logger import flog
 from polog.errors import IncorrectUseLoggerError, IncorrectUseOfTheDecoratorError, IncorrectUseOfTheContextManagerError
 from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.exception_is_suppressed import exception_is_suppressed
+from polog.core.utils.exception_to_dict import exception_to_dict
 
 
 class LoggerRouteFinalizer:
@@ -88,8 +89,7 @@ class LoggerRouteFinalizer:
         После заполнения всех нужных полей и записи лога, решается вопрос, поднимать ли дальше исключение (если оно возникло) или подавить его.
         """
         if exception_type is not None:
-            self.data['exception_type'] = exception_type.__name__
-            self.data['exception_message'] = str(exception_value)
+            exception_to_dict(self.data, exception_value)
             self.data['success'] = False
             self.data['traceback'] = self.settings['json_module'].dumps(traceback.format_tb(traceback_instance))
         else:
-- 
2.43.0


From 8b4e293ca6bb53ce3d5c9cb577f5e3dad78ae688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:44 +0000
Subject: [PATCH 25/59] fix: fields extracted inside the engine are also
 extracted for manual records

---
 polog/loggers/handle/handle_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 82fd68f..31cc540 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -5,7 +5,7 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.stores.handlers import global_handlers
 from polog.loggers.handle.abstract import AbstractHandleLogger
 from polog.core.log_item import LogItem
-from polog.core.stores.fields import in_place_fields
+from polog.core.stores.fields import in_place_fields, engine_fields
 from polog.unlog import unlog
 
 
@@ -66,6 +66,7 @@ class BaseLogger(AbstractHandleLogger):
                 log_item = LogItem()
                 log_item.set_data(fields)
                 log_item.set_handlers(global_handlers)
+                log_item.set_extra_fields(engine_fields)
                 log_item.extract_extra_fields_from(in_place_fields)
                 self._engine.write(log_item)
 
-- 
2.43.0


From 837ed03a9492233cb7d337be5985485132c414a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:46 +0000
Subject: [PATCH 26/59] fix: a logging decorator above @unlog(full=False) keeps
 the chosen mode of the unlogging

---
 polog/core/stores/registering_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 6f26981..3b27fe4 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -59,6 +59,8 @@ class RegisteringFunctions:
         Если функция ранее уже была задекорирована, тут надо смотреть на приоритеты. У декоратора класса приоритет ниже, чем у декоратора функций. Если функция ранее была задекорирована через декоратор класса, она передекорируется в любом случае. Если через декоратор функций - то только в том случае, если сейчас ее декорируют не через декоратор класса.
         """
         if self.is_forbidden(func):
+            if before_change_func in self.unlogged_functions:
+                return before_change_func
             if unlog_decorator is None:
                 from polog.unlog import unlog
                 unlog_decorator = unlog
-- 
2.43.0


From a37c21d89ca6e1fa61506884bfba7538f447a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:16 +0000
Subject: [PATCH 27/59] fix: an exception that an inner function did not record
 because of its level is recorded by an outer one

---
 polog/loggers/auto/function_logger.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 5398fef..14bdb93 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -182,12 +182,12 @@ class FunctionLogger:
         """
         if not unlog.get_unlog_status():
             if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
-                try:
-                    exc.checked_by_polog = True
-                except Exception:
-                    pass
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
+                    try:
+                        exc.checked_by_polog = True
+                    except Exception:
+                        pass
                     exception_to_dict(args_dict, exc)
                     args_dict['success'] = False
                     args_dict['traceback'] = get_traceback(cut_string_at_begin=1)
-- 
2.43.0


From 9533c8f49c47582e105ca70e1cc169da7f9a2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:04 +0000
Subject: [PATCH 28/59] fix: a function or class whose earlier decorated
 version was already decorated again is not recorded twice

---
 polog/core/stores/registering_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 3b27fe4..ed53717 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -67,12 +67,11 @@ class RegisteringFunctions:
             return unlog_decorator(func)
         if self.is_decorator(before_change_func):
             if self.is_method(before_change_func):
-                self.remove(before_change_func)
+                self.decorated_methods.discard(func)
                 self.add(wrapper, func, is_method=is_method)
                 return wrapper
             else:
                 if not is_method:
-                    self.remove(before_change_func)
                     self.add(wrapper, func, is_method=is_method)
                     return wrapper
                 else:
-- 
2.43.0


From 99ad53076a430b4243fe7c0dee042241e76e4ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:36 +0000
Subject: [PATCH 29/59] fix: a class decorator with a list of methods leaves
 @log and @unlog of the other methods in force

---
 polog/loggers/auto/class_logger.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 49f546d..6fc4a5c 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -33,8 +33,10 @@ class ClassLogger:
             register = RegisteringFunctions()
             for method_name in originals:
                 method = get_method(Class, method_name)
-                original = register.get_original(method)
-                set_method(Class, method_name, original)
+                # Методы, на которые пользователь сам навесил @log или @unlog, не затрагиваются.
+                if register.is_method(method):
+                    original = register.get_original(method)
+                    set_method(Class, method_name, original)
             return Class
         if not len(args):
             return decorator
-- 
2.43.0


From 81c950a539244bd3c69ce3ff644ae78ccf3012f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:43 +0000
Subject: [PATCH 30/59] fix: a class inside of a logged or unlogged class stays
 a class

---
 polog/loggers/auto/class_logger.py | 2 +-
 polog/unlog.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 6fc4a5c..31cb97c 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -69,7 +69,7 @@ class ClassLogger:
         Семантика тут такая: если пользователь не указал конкретно имена методов, которые нужно логировать - логиируем весь класс. Иначе - только выбранные методы.
         """
         if not len(methods) or (len(methods) == 1 and inspect.isclass(methods[0])):
-            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
+            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and not inspect.isclass(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
         else:
             methods = [x for x in methods]
         return methods
diff --git a/polog/unlog.py b/polog/unlog.py
index 3c9ffd2..076f92d 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -33,7 +33,7 @@ class UnlogDecorator:
                 for function_name in dir(obj):
                     if not function_name.startswith('__'):
                         maybe_method = get_method(obj, function_name)
-                        if callable(maybe_method):
+                        if callable(maybe_method) and not isclass(maybe_method):
                             set_method(obj, function_name, self.unlog_function(maybe_method, full))
                 return obj
             elif callable(obj):
-- 
2.43.0


From e0088d064d5abafb70d7f3c31a4cb322abbfb2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:19 +0000
Subject: [PATCH 31/59] fix: the generated name of a handler is never a name
 that is already taken

---
 polog/config.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/config.py b/polog/config.py
index 87aad74..23ac45e 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -93,7 +93,10 @@ class config:
             else:
                 if id(handler) in {id(node.value) for node in global_handlers.childs.values()}:
                     raise ValueError('An attempt to store the same handler object in a global namespace.')
-                handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                while True:
+                    handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                    if global_handlers.get(handler_name) is None:
+                        break
                 cls.set_handler(handler_name, handler)
         for handler_name, handler in kwargs.items():
             cls.set_handler(handler_name, handler)
-- 
2.43.0


From 0a54d3708dd208d93554c828c78499c23b013cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:20 +0000
Subject: [PATCH 32/59] fix: two short names of one field in a manual record no
 longer raise KeyError

---
 polog/loggers/handle/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 527e3d3..439a968 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -151,7 +151,7 @@ class AbstractHandleLogger:
                     continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
-                if destination[key] != kwargs[key]:
+                if destination[key] != value:
                     self._maybe_raise(ValueError, f'Duplicate information in the "{key}" field.')
                     continue
             # Все проверки пройдены - сохраняем результат.
-- 
2.43.0


From 4756aa536969f0cef179faafcf7a1fe0a3559ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:16 +0000
Subject: [PATCH 33/59] fix: a rotation that copies the file keeps the lines
 that are still in the buffer

---
 polog/handlers/file/file_dependency_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index df3888f..2de9c24 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -118,6 +118,8 @@ class FileDependencyWrapper:
         2. Блокировка на уровне потока. Нужна, поскольку с одним обработчиком (читай - одним и тем же файловым объектом) могут параллельно работать воркеры из нескольких потоков.
         """
         with self.lock:
+            # Если файл будет не переименован, а скопирован (к примеру, на другое устройство), еще не сброшенный на диск буфер был бы потерян.
+            self.file.flush()
             try:
                 shutil.move(self.filename, path_to_copy)
             except FileNotFoundError:
-- 
2.43.0


From 9b94906315d74fad8c60793ff94a3fe0b7b1d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:50 +0000
Subject: [PATCH 34/59] fix: a line of the log file shows the right place of an
 error if the path has spaces

---
 .../file/base_formatter_fields_extractors.py        | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 6ff0524..88b6beb 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -245,12 +245,13 @@ class BaseFormatterFieldsExtractors:
                 return 'no traceback'
             result = []
             for line in traceback:
-                splitted_line = line.split()
-                path = splitted_line[1]
-                line_num = splitted_line[3]
-                where = splitted_line[5]
-                message = ' '.join(splitted_line[6:])
-                result.append(f'{message} ({path} line {line_num} in {where})')
+                # В пути к файлу могут быть пробелы, поэтому первая строка разбирается с конца.
+                place, _, code = line.strip().partition('\n')
+                path, _, position = place.rpartition(', line ')
+                line_num, _, where = position.partition(' in ')
+                path = path.partition(' ')[2]
+                message = ' '.join(code.split())
+                result.append(f'{message} ({path}, line {line_num} in {where})')
             full_traceback = '; '.join(result)
             full_traceback = f'traceback: {full_traceback}'
             return full_traceback
-- 
2.43.0


From 9a5c2db16ef25d299426637f0396cb59ddfc9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:50 +0000
Subject: [PATCH 35/59] fix: a value that cannot be converted to a string does
 not lose the line of the log file

---
 polog/handlers/file/base_formatter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/polog/handlers/file/base_formatter.py b/polog/handlers/file/base_formatter.py
index 2e4cdf7..b47a070 100644
--- a/polog/handlers/file/base_formatter.py
+++ b/polog/handlers/file/base_formatter.py
@@ -133,10 +133,13 @@ class BaseFormatter:
             if field_name not in base:
                 if field_name not in self.FORBIDDEN_EXTRA_FIELDS:
                     if value is not None:
-                        if isinstance(value, str):
-                            base[field_name] = f'{field_name}: "{value}"'
-                        else:
-                            base[field_name] = f'{field_name}: {value}'
+                        try:
+                            if isinstance(value, str):
+                                base[field_name] = f'{field_name}: "{value}"'
+                            else:
+                                base[field_name] = f'{field_name}: {value}'
+                        except Exception:
+                            base[field_name] = f'{field_name}: <{type(value).__name__} object that cannot be converted to a string>'
 
     def format(self, data):
         """
-- 
2.43.0


From fa10cff9140acff76b1a3d0807b8bf5517817b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:55 +0000
Subject: [PATCH 36/59] fix: a default value that compares equal to anything
 does not confuse the check of signatures

---
 polog/core/utils/signature_matcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index 343752d..25d319a 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -62,19 +62,19 @@ class SignatureMatcher:
         """
         Проверка, что количество позиционных аргументов совпадает с ожидаемым.
         """
-        return self.number_of_position_args == len([parameter for parameter in parameters if (parameter.kind == parameter.POSITIONAL_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default == parameter.empty])
+        return self.number_of_position_args == len([parameter for parameter in parameters if (parameter.kind == parameter.POSITIONAL_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is parameter.empty])
 
     def prove_number_of_named_args(self, parameters):
         """
         Проверка количества именованных аргументов.
         """
-        return self.number_of_named_args == len([parameter for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default != parameter.empty])
+        return self.number_of_named_args == len([parameter for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is not parameter.empty])
 
     def prove_names_of_named_args(self, parameters):
         """
         Проверка, что имена именованных аргументов совпадают с ожидаемыми.
         """
-        names_of_parameters = [parameter.name for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default != parameter.empty]
+        names_of_parameters = [parameter.name for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is not parameter.empty]
         result = True
         for name in self.names_of_named_args:
             result *= (name in names_of_parameters)
@@ -84,7 +84,7 @@ class SignatureMatcher:
         """
         Проверка, что нет обязательных аргументов, которые можно передать только по имени. Функцию с такими аргументами нельзя вызвать позиционно.
         """
-        return not [parameter for parameter in parameters if parameter.kind == parameter.KEYWORD_ONLY and parameter.default == parameter.empty]
+        return not [parameter for parameter in parameters if parameter.kind == parameter.KEYWORD_ONLY and parameter.default is parameter.empty]
 
     @classmethod
     def is_handler(cls, function, raise_exception=True):
-- 
2.43.0


From 9270f3ccd1c8f4b9004c2da0d6a55fbc0e01a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:35 +0000
Subject: [PATCH 37/59] fix: concurrent first uses of the memory handler no
 longer lose records

---
 polog/handlers/memory/saver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/memory/saver.py b/polog/handlers/memory/saver.py
index b27ac30..8dae143 100644
--- a/polog/handlers/memory/saver.py
+++ b/polog/handlers/memory/saver.py
@@ -13,9 +13,10 @@ class memory_saver(ReadOnlySingleton, BaseHandler):
     """
     last = None
     all_semaphore = BoundedSemaphore(value=1)
+    init_lock = Lock()
 
     def __init__(self):
-        with Lock():
+        with self.init_lock:
             if not hasattr(self, 'inited'):
                 super().__init__()
                 self.all = []
-- 
2.43.0


From 0d88b296c38234290cd329464764a7799786357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:26 +0000
Subject: [PATCH 38/59] fix: changing the size of the pool during the first
 record no longer ends in a deadlock

---
 polog/core/engine/engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index ad7256b..4b659ae 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -26,13 +26,15 @@ class Engine(ReadOnlySingleton):
     """
 
     lock = Lock()
+    # Для инициализации используется отдельный лок: объект движка запрашивается в том числе при изменении настроек, когда первая запись может удерживать основной лок и сама ожидать настроек.
+    init_lock = Lock()
 
     def __init__(self):
         """
         Первая стадия инициализации движка.
         Осуществляется при запуске программы.
         """
-        with self.lock:
+        with self.init_lock:
             if not hasattr(self, 'inited'):
                 self.settings = SettingsStore()
                 self.blocked = False
-- 
2.43.0


From f65fe65527e2c563cdd14da63458b2010fbdcef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:16 +0000
Subject: [PATCH 39/59] fix: a change of the size of the pool during the first
 record no longer leaves a pool without threads

---
 polog/core/engine/real_engines/multithreaded/pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/real_engines/multithreaded/pool.py b/polog/core/engine/real_engines/multithreaded/pool.py
index ff56bd0..063334d 100644
--- a/polog/core/engine/real_engines/multithreaded/pool.py
+++ b/polog/core/engine/real_engines/multithreaded/pool.py
@@ -78,7 +78,8 @@ class ThreadPool:
         Создание и запуск воркеров.
         """
         workers = []
-        for index in range(self.settings.force_get('pool_size')):
+        # Размер пула может стать нулевым уже после выбора многопоточного движка. Без воркеров принятые логи никогда не были бы записаны.
+        for index in range(max(1, self.settings.force_get('pool_size'))):
             worker = Worker(self.queue, index, self.settings)
             workers.append(worker)
         return workers
-- 
2.43.0


From 5192ec4e102e735381e9dfd128d3d20f7199f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:30 +0000
Subject: [PATCH 40/59] fix: a change of fields_intersection during the first
 record is no longer lost

---
 polog/core/log_item.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/core/log_item.py b/polog/core/log_item.py
index 81f21f2..7f5d539 100644
--- a/polog/core/log_item.py
+++ b/polog/core/log_item.py
@@ -28,7 +28,10 @@ class LogItem:
 
         from polog.core.stores.settings.settings_store import SettingsStore
         cls.store = SettingsStore()
-        cls._fields_intersection = cls.store['fields_intersection']
+        # Лок нужен, чтобы не записать устаревшее значение поверх нового, если настройку в этот момент меняют из другого потока.
+        point = cls.store.get_point('fields_intersection')
+        with point.get_lock_object():
+            cls._fields_intersection = point.unlocked_get()
 
         cls.__new__ = __new__
         return __new__(cls, **kwargs)
-- 
2.43.0


From b4d14af9b3aceb1a0a8e795b601ba958d6ee3561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 41/59] fix: concurrent registrations of level names no longer
 fail or leave a stale name of a number

---
 polog/core/stores/levels.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/polog/core/stores/levels.py b/polog/core/stores/levels.py
index 26c8f84..39de45b 100644
--- a/polog/core/stores/levels.py
+++ b/polog/core/stores/levels.py
@@ -1,3 +1,6 @@
+from threading import Lock
+
+
 class Levels:
     """
     Класс для хранения соответствий между именами уровней логирования и их числовыми значениями.
@@ -9,6 +12,8 @@ class Levels:
     # Наоборот, числа - ключи, названия уровней - значения.
     # Размер словаря не обязан совпадать с размером levels, т. к. пользователь может дать одному уровню 2 разных имени, и здесь из них будет фигурировать только последнее.
     levels_reverse = {}
+    # Оба словаря меняются только вместе.
+    lock = Lock()
 
     @classmethod
     def set(cls, name, value):
@@ -19,11 +24,12 @@ class Levels:
             raise KeyError('The key for the logging level can only be a string.')
         if not isinstance(value, int):
             raise ValueError('The level value can only be an integer.')
-        old_value = cls.levels.get(name)
-        if old_value is not None and cls.levels_reverse.get(old_value) == name:
-            del cls.levels_reverse[old_value]
-        cls.levels[name] = value
-        cls.levels_reverse[value] = name
+        with cls.lock:
+            old_value = cls.levels.get(name)
+            if old_value is not None and cls.levels_reverse.get(old_value) == name:
+                del cls.levels_reverse[old_value]
+            cls.levels[name] = value
+            cls.levels_reverse[value] = name
 
     @classmethod
     def get(cls, key):
-- 
2.43.0


From ff25ebe8f752a37f7b1987d1e2a83084cbda7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 42/59] fix: concurrent additions and removals of handlers no
 longer override each other or fail

---
 polog/config.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/polog/config.py b/polog/config.py
index 23ac45e..c220928 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -91,13 +91,14 @@ class config:
                         raise KeyError('Only strings can be used as the handler name.')
                     cls.set_handler(name, value)
             else:
-                if id(handler) in {id(node.value) for node in global_handlers.childs.values()}:
-                    raise ValueError('An attempt to store the same handler object in a global namespace.')
-                while True:
-                    handler_name = next(cls.pony_names_generator).replace(' ', '_')
-                    if global_handlers.get(handler_name) is None:
-                        break
-                cls.set_handler(handler_name, handler)
+                with global_handlers.lock:
+                    if id(handler) in {id(node.value) for node in global_handlers.childs.values()}:
+                        raise ValueError('An attempt to store the same handler object in a global namespace.')
+                    while True:
+                        handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                        if global_handlers.get(handler_name) is None:
+                            break
+                    cls.set_handler(handler_name, handler)
         for handler_name, handler in kwargs.items():
             cls.set_handler(handler_name, handler)
 
@@ -106,9 +107,10 @@ class config:
         """
         Сохраняем обработчик под каким-то именем.
         """
-        if global_handlers.get(name) is not None:
-            raise NameError(f'Attempt to override a handler named {name}.')
-        global_handlers[name] = handler
+        with global_handlers.lock:
+            if global_handlers.get(name) is not None:
+                raise NameError(f'Attempt to override a handler named {name}.')
+            global_handlers[name] = handler
 
     @staticmethod
     def get_handlers(*names):
@@ -140,11 +142,12 @@ class config:
                 del global_handlers[maybe_name]
             else:
                 handler = maybe_name
-                other_handlers = {id(node.value): node.name for node in global_handlers.childs.values()}
-                if id(handler) not in other_handlers:
-                    raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
-                handler_name = other_handlers[id(handler)]
-                del global_handlers[handler_name]
+                with global_handlers.lock:
+                    other_handlers = {id(node.value): node.name for node in global_handlers.childs.values()}
+                    if id(handler) not in other_handlers:
+                        raise ValueError(f'Object "{handler}" was not found among the global name scope handlers.')
+                    handler_name = other_handlers[id(handler)]
+                    del global_handlers[handler_name]
 
     @staticmethod
     def add_fields(**fields):
-- 
2.43.0


From 4356a0706fdf358584505f95ae5ae69da639a96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 43/59] fix: letters of several threads no longer get into each
 other's connections

---
 polog/handlers/smtp/smtp_dependency_wrapper.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/polog/handlers/smtp/smtp_dependency_wrapper.py b/polog/handlers/smtp/smtp_dependency_wrapper.py
index e9b6c3c..215f05b 100644
--- a/polog/handlers/smtp/smtp_dependency_wrapper.py
+++ b/polog/handlers/smtp/smtp_dependency_wrapper.py
@@ -1,4 +1,5 @@
 import smtplib
+from threading import Lock
 
 
 class SMTPDependencyWrapper:
@@ -13,15 +14,18 @@ class SMTPDependencyWrapper:
         self.email_from = email_from
         self.password = password
         self.email_to = email_to
+        # Объект соединения - общий, поэтому отправлять письма из разных потоков можно только по очереди.
+        self.lock = Lock()
 
     def send(self, message):
         """
         Обертка для отправки сообщения.
         При каждой отправке сообщения объект соединения с сервером создается заново.
         """
-        self.create_smtp_server()
-        self.send_mail(message)
-        self.quit_from_server()
+        with self.lock:
+            self.create_smtp_server()
+            self.send_mail(message)
+            self.quit_from_server()
 
     def create_smtp_server(self):
         """
-- 
2.43.0


From d956be29827b6a451553a0bc781bf625f7a91ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 44/59] fix: fields registered by another thread no longer
 break a record in the making

---
 polog/core/log_item.py                                    | 3 ++-
 .../wrappers/fields_container/container.py                | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/polog/core/log_item.py b/polog/core/log_item.py
index 7f5d539..b382809 100644
--- a/polog/core/log_item.py
+++ b/polog/core/log_item.py
@@ -188,7 +188,8 @@ class LogItem:
         fields - словарь, в котором ключи - строки с названиями полей, значения - поля.
         """
         data = self.fields
-        for name, field in fields.items():
+        # Копия нужна, поскольку набор полей может быть изменен в другом потоке.
+        for name, field in list(fields.items()):
             if name not in data or self._fields_intersection:
                 try:
                     value = field.get_data(self)
diff --git a/polog/data_structures/wrappers/fields_container/container.py b/polog/data_structures/wrappers/fields_container/container.py
index d1564a8..c016a3c 100644
--- a/polog/data_structures/wrappers/fields_container/container.py
+++ b/polog/data_structures/wrappers/fields_container/container.py
@@ -20,10 +20,10 @@ class FieldsContainer:
 
         При пересечении множеств ключей двух словарей, они не дублируются.
         """
-        for key in self.fields:
+        for key in list(self.fields):
             yield key
 
-        for key in self.defaults:
+        for key in list(self.defaults):
             if key not in self.fields:
                 yield key
 
@@ -33,9 +33,9 @@ class FieldsContainer:
 
         При пересечении множеств ключей двух словарей, предпочтение отдается значению из первого словаря.
         """
-        for key, value in self.fields.items():
+        for key, value in list(self.fields.items()):
             yield key, value
 
-        for key, value in self.defaults.items():
+        for key, value in list(self.defaults.items()):
             if key not in self.fields:
                 yield key, value
-- 
2.43.0


From 48655a76f7157c7f9b9510790298eb7aaa11711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 45/59] fix: handlers registered by another thread no longer
 break a record in the making

---
 polog/data_structures/trees/named_tree/walker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/polog/data_structures/trees/named_tree/walker.py b/polog/data_structures/trees/named_tree/walker.py
index 1836329..e595c30 100644
--- a/polog/data_structures/trees/named_tree/walker.py
+++ b/polog/data_structures/trees/named_tree/walker.py
@@ -16,7 +16,8 @@ class TreeWalker:
             next_layer = []
             for node in layer:
                 yield node
-                for child in node.childs.values():
+                # Копия нужна, поскольку дочерние ноды могут быть добавлены или удалены в другом потоке.
+                for child in list(node.childs.values()):
                     next_layer.append(child)
             layer = next_layer
 
@@ -27,8 +28,9 @@ class TreeWalker:
         На каждой итерации возвращает значение, хранящееся в ноде. Пустые ноды игнорируются.
         """
         for node in self.bfs():
-            if node.value is not None:
-                yield node.value
+            value = node.value
+            if value is not None:
+                yield value
 
     def dfs(self):
         """
-- 
2.43.0


From ec5b5c995b97ddff387636ee701e297ac9031268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 46/59] fix: choosing a branch of handlers for a decorator is
 protected from concurrent registrations

---
 polog/data_structures/trees/named_tree/projector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index 466c3ff..547f2ae 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -26,7 +26,8 @@ class TreeProjector:
         for path in paths:
             if path == self.tree.keys_separator and not_to_root:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
-            node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+            with self.tree.lock:
+                node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
             new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
-- 
2.43.0


From bcd95d9cd65ec0e9c524f4f0d863a867309a33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:23 +0000
Subject: [PATCH 47/59] fix: a branch chosen for a decorator is followed after
 its last handler was removed

---
 polog/data_structures/trees/named_tree/projector.py | 1 +
 polog/data_structures/trees/named_tree/tree.py      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index 547f2ae..fad0056 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -28,6 +28,7 @@ class TreeProjector:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
             with self.tree.lock:
                 node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+                node_to_put.projected = True
             new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
diff --git a/polog/data_structures/trees/named_tree/tree.py b/polog/data_structures/trees/named_tree/tree.py
index 30d0b0d..8d4f241 100644
--- a/polog/data_structures/trees/named_tree/tree.py
+++ b/polog/data_structures/trees/named_tree/tree.py
@@ -55,6 +55,8 @@ class NamedTree:
 
         self.value = None
         self.childs = {}
+        # Спроецированная в другое дерево нода не удаляется, даже если пуста: иначе проекция перестанет следить за веткой.
+        self.projected = False
         self.walker = TreeWalker(self)
         self.printer = TreePrinter(self)
         self.lock = RLock()
@@ -176,7 +178,7 @@ class NamedTree:
             for child_name, child in parent.childs.items():
                 if child is break_on:
                     return
-                if not len(child):
+                if not len(child) and not any(item.projected for item in child.walker.bfs()):
                     childs_to_delete.append(child_name)
             for name in childs_to_delete:
                 del parent.childs[name]
-- 
2.43.0


From a5a5dce8b63e2bd58cd0b33d9962e2f66811e42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:42 +0000
Subject: [PATCH 48/59] fix: a logged call does not fail because of values that
 cannot be put into json

---
 polog/utils/json_vars.py | 55 +++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index bf71957..6a6b463 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -5,35 +5,56 @@ from polog.core.stores.settings.settings_store import SettingsStore
 BASE_JSON_TYPES = (bool, int, float, str)
 store = SettingsStore()
 
-def get_item(item):
-    for one in BASE_JSON_TYPES:
-        if isinstance(item, one):
-            return {'value': item, 'type': one.__name__}
+def get_text_item(item):
     try:
         value = str(item)
     except Exception:
         value = f'<{type(item).__name__} object that cannot be converted to a string>'
     return {'value': value, 'type': type(item).__name__}
 
+def get_item(item):
+    for one in BASE_JSON_TYPES:
+        # Атрибуту __class__ верить нельзя: объект может выдавать себя за строку или число, не будучи ими.
+        if issubclass(type(item), one):
+            return {'value': item, 'type': one.__name__}
+    return get_text_item(item)
+
+def get_safe_item(item):
+    """
+    То же самое, что get_item(), но для случаев, когда значения даже простых типов могут не поддаваться сериализации (к примеру, это слишком большие числа).
+    """
+    result = get_item(item)
+    try:
+        store['json_module'].dumps(result)
+    except Exception:
+        return get_text_item(item)
+    return result
+
+def dumps(get_content):
+    """
+    get_content - функция, принимающая способ преобразования отдельных элементов и возвращающая то, что нужно сериализовать.
+    """
+    json = store['json_module']
+    try:
+        return json.dumps(get_content(get_item))
+    except Exception:
+        return json.dumps(get_content(get_safe_item))
+
 def json_vars(*args, **kwargs):
     """
     Преобразуем любые аргументы в json-объект. Каждый элемент в json-объекте сопровождается названием типа данных. Это полезно в случаях, когда тип данных не соответствует стандартным для json. Все нестандартные объекты приводятся к типу str.
     Функция не поддерживает глубокую рекурсию.
     """
-    json = store['json_module']
     if not (len(args) + len(kwargs)):
         return None
-    args = [get_item(x) for x in args]
-    kwargs = {key: get_item(value) for key, value in kwargs.items()}
-    result = {}
-    if len(args):
-        result['args'] = args
-    if len(kwargs):
-        result['kwargs'] = kwargs
-    return json.dumps(result)
+    def get_content(converter):
+        result = {}
+        if len(args):
+            result['args'] = [converter(x) for x in args]
+        if len(kwargs):
+            result['kwargs'] = {key: converter(value) for key, value in kwargs.items()}
+        return result
+    return dumps(get_content)
 
 def json_one_variable(variable):
-    json = store['json_module']
-    variable = get_item(variable)
-    result = json.dumps(variable)
-    return result
+    return dumps(lambda converter: converter(variable))
-- 
2.43.0


From e186498f1a55cc1a7e8b008574dd9a53f8078e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:42 +0000
Subject: [PATCH 49/59] fix: a record with characters that cannot be encoded is
 still written to the file

---
 polog/handlers/file/file_dependency_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index 2de9c24..b5fc553 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -56,7 +56,7 @@ class FileDependencyWrapper:
         if not self.is_file_object(maybe_filename):
             if not isinstance(maybe_filename, str):
                 raise ValueError('A file object or string with the file name is expected.')
-            file = open(maybe_filename, 'a', encoding='utf-8')
+            file = open(maybe_filename, 'a', encoding='utf-8', errors='backslashreplace')
             filename = maybe_filename
         else:
             file = maybe_filename
@@ -81,7 +81,7 @@ class FileDependencyWrapper:
         Открываем файл.
         Работает только в том случае, если исходно пользователь передал имя файла, а не файловый объект.
         """
-        self.file = open(filename, 'a', encoding='utf-8')
+        self.file = open(filename, 'a', encoding='utf-8', errors='backslashreplace')
 
     def reopen(self):
         """
-- 
2.43.0


From b8d056345cf028694c12950cfbbf02af8286b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:34 +0000
Subject: [PATCH 50/59] fix: deduplication does not depend on how an exception
 class gives its attributes

---
 polog/loggers/auto/function_logger.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 14bdb93..77663df 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -175,17 +175,27 @@ class FunctionLogger:
         arg = getattr(obj, arg_name, None)
         not_none_to_dict(args, key_name, arg)
 
+    @staticmethod
+    def is_checked(exc):
+        """
+        Проверяем, было ли исключение уже записано. Смотрим именно в словарь объекта, чтобы не зависеть от переопределенных в классе исключения способов доступа к атрибутам.
+        """
+        try:
+            return 'checked_by_polog' in vars(exc)
+        except Exception:
+            return False
+
     def log_exception_info(self, exc, finish, start, args_dict, errors_level, simple_level, handlers, in_place_fields, engine_fields, args, kwargs):
         """
         Здесь происходит заполнение автоматически извлекаемых полей в случае исключения.
         В т. ч. извлекается вся информация об исключении - название, сообщение и т. д.
         """
         if not unlog.get_unlog_status():
-            if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
+            if not self.is_checked(exc) or not self.settings['deduplicate_errors']:
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
                     try:
-                        exc.checked_by_polog = True
+                        vars(exc)['checked_by_polog'] = True
                     except Exception:
                         pass
                     exception_to_dict(args_dict, exc)
-- 
2.43.0


From ae57d0e1eff03284002d64fffaa366b9a5e1af6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:35 +0000
Subject: [PATCH 51/59] fix: suppression looks at the real class of an
 exception

---
 polog/core/utils/exception_is_suppressed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/core/utils/exception_is_suppressed.py b/polog/core/utils/exception_is_suppressed.py
index 32cda2c..949941a 100644
--- a/polog/core/utils/exception_is_suppressed.py
+++ b/polog/core/utils/exception_is_suppressed.py
@@ -3,7 +3,7 @@ def exception_is_suppressed(exception, suppressed_exceptions, config):
     Здесь происходит проверка того, является ли переданное первым аргументом исключение одним из списка подавляемых.
     """
     if config['suppress_exception_subclasses']:
-        if any(isinstance(exception, suppressed_exception) for suppressed_exception in suppressed_exceptions):
+        if any(issubclass(type(exception), suppressed_exception) for suppressed_exception in suppressed_exceptions):
             return True
     else:
         if any(type(exception) is suppressed_exception for suppressed_exception in suppressed_exceptions):
-- 
2.43.0


From 64faeee006a6f90ae522b693b15a16cd515e0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:03:50 +0000
Subject: [PATCH 52/59] fix: in the silent mode a manual record is made
 whatever objects are among its arguments

---
 polog/loggers/finalizer.py         |  2 +-
 polog/loggers/handle/abstract.py   | 12 ++++++++++--
 polog/loggers/handle/handle_log.py |  7 ++++---
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index 11dc35e..7f481d5 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -133,7 +133,7 @@ class LoggerRouteFinalizer:
         result = {**kwargs}
 
         if len(args) == 1:
-            if 'message' in kwargs and args[0] != kwargs['message']:
+            if 'message' in kwargs and not (issubclass(type(kwargs['message']), str) and args[0] == kwargs['message']):
                 simple_handle_log._maybe_raise(IncorrectUseLoggerError, 'You have specified the message both as an ordinal argument to the decorator and as a named argument.')
             result['message'] = args[0]
 
diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 439a968..86bf125 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -132,8 +132,7 @@ class AbstractHandleLogger:
                 continue
             # Проверяем переданные пользователем значения.
             if key in self._allowed_types:
-                prove = self._allowed_types[key]
-                if not prove(value):
+                if not self._is_allowed(key, value):
                     self._maybe_raise(ValueError, f'The "{key}" argument is in the wrong format.')
                     continue
             elif key in self._in_place_fields or key in self._engine_fields:
@@ -157,6 +156,15 @@ class AbstractHandleLogger:
             # Все проверки пройдены - сохраняем результат.
             not_none_to_dict(destination, key, value)
 
+    def _is_allowed(self, key, value):
+        """
+        Проверяем значение поля. Если сама проверка поднимает исключение (бывают объекты, у которых даже класс узнать невозможно), значение считается неподходящим.
+        """
+        try:
+            return self._allowed_types[key](value)
+        except Exception:
+            return False
+
     def _position_args_to_dict(self, position_args, destination, channels, raise_if_empty=False, raise_if_very_busy=True):
         """
         Преобразуем позиционные аргументы исходной функции в именные, и засовываем их в словарь, где имена аргументов будут служить ключами.
diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 31cc540..204bf53 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -7,6 +7,7 @@ from polog.loggers.handle.abstract import AbstractHandleLogger
 from polog.core.log_item import LogItem
 from polog.core.stores.fields import in_place_fields, engine_fields
 from polog.unlog import unlog
+from polog.utils.json_vars import get_text_item
 
 
 class BaseLogger(AbstractHandleLogger):
@@ -49,11 +50,11 @@ class BaseLogger(AbstractHandleLogger):
         if function is not None and callable(function):
             try:
                 fields['function'] = function.__name__
-            except AttributeError:
-                fields['function'] = str(function)
+            except Exception:
+                fields['function'] = get_text_item(function)['value']
             try:
                 fields['module'] = function.__module__
-            except AttributeError:
+            except Exception:
                 pass
 
     def _push(self, fields):
-- 
2.43.0


From 30e40825acecd6abe6915147b48f6840d7666522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:51 +0000
Subject: [PATCH 53/59] fix: decorating a class touches only its methods, not
 other callable attributes

---
 polog/core/utils/class_attributes.py | 16 ++++++++++++++++
 polog/loggers/auto/class_logger.py   |  4 ++--
 polog/unlog.py                       |  8 +++-----
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/polog/core/utils/class_attributes.py b/polog/core/utils/class_attributes.py
index 14b7e27..6763ec2 100644
--- a/polog/core/utils/class_attributes.py
+++ b/polog/core/utils/class_attributes.py
@@ -1,6 +1,22 @@
 import inspect
+from functools import partialmethod
 
 
+def is_method(Class, name):
+    """
+    Проверяем, что под указанным именем в классе лежит метод, который можно обернуть декоратором.
+
+    Не считаются методами прочие вызываемые объекты (они не получают self, а обертка бы его получила), а также встроенные методы, унаследованные от типов, реализованных не на Python.
+    """
+    attribute = inspect.getattr_static(Class, name, None)
+    if isinstance(attribute, partialmethod):
+        return True
+    if isinstance(attribute, (staticmethod, classmethod)):
+        attribute = attribute.__func__
+    elif not hasattr(type(attribute), '__get__'):
+        return False
+    return callable(attribute) and not inspect.isclass(attribute) and bool(type(attribute).__weakrefoffset__)
+
 def get_method(Class, name):
     """
     Получаем функцию, которая лежит в классе под указанным именем.
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 31cb97c..e7f9454 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -2,7 +2,7 @@ import inspect
 
 from polog.loggers.auto.function_logger import flog
 from polog.core.stores.registering_functions import RegisteringFunctions
-from polog.core.utils.class_attributes import get_method, set_method
+from polog.core.utils.class_attributes import is_method, get_method, set_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 
 
@@ -69,7 +69,7 @@ class ClassLogger:
         Семантика тут такая: если пользователь не указал конкретно имена методов, которые нужно логировать - логиируем весь класс. Иначе - только выбранные методы.
         """
         if not len(methods) or (len(methods) == 1 and inspect.isclass(methods[0])):
-            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and not inspect.isclass(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
+            methods = [func for func in dir(Class) if is_method(Class, func) and (not func.startswith('__') and not func.endswith('__'))]
         else:
             methods = [x for x in methods]
         return methods
diff --git a/polog/unlog.py b/polog/unlog.py
index 076f92d..fbe3964 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -6,7 +6,7 @@ from typing import Optional
 from inspect import iscoroutinefunction
 
 from polog.core.stores.registering_functions import RegisteringFunctions
-from polog.core.utils.class_attributes import get_method, set_method
+from polog.core.utils.class_attributes import is_method, get_method, set_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 from polog.core.stores.settings.settings_store import SettingsStore
 
@@ -31,10 +31,8 @@ class UnlogDecorator:
         def decorator(obj):
             if isclass(obj):
                 for function_name in dir(obj):
-                    if not function_name.startswith('__'):
-                        maybe_method = get_method(obj, function_name)
-                        if callable(maybe_method) and not isclass(maybe_method):
-                            set_method(obj, function_name, self.unlog_function(maybe_method, full))
+                    if not function_name.startswith('__') and is_method(obj, function_name):
+                        set_method(obj, function_name, self.unlog_function(get_method(obj, function_name), full))
                 return obj
             elif callable(obj):
                 return self.unlog_function(obj, full)
-- 
2.43.0


From 4a923222e7b71734e81f91d628fd7be7d2f9f87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:51 +0000
Subject: [PATCH 54/59] fix: any object can be a message and any integer a
 level in the copied standard logging

---
 .../settings/actions/integration_with_logging.py      | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index aeb5f75..49de9aa 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -17,12 +17,11 @@ def from_logging_filter_to_polog(record):
     data = {}
 
     data['time'] = datetime.fromtimestamp(record.created)
-    if record.msg:
-        try:
-            data['message'] = record.getMessage()
-        except Exception:
-            data['message'] = f'<{type(record.msg).__name__} message that cannot be formatted>'
-    data['level'] = record.levelno
+    try:
+        data['message'] = record.getMessage()
+    except Exception:
+        data['message'] = f'<{type(record.msg).__name__} message that cannot be formatted>'
+    data['level'] = int(record.levelno)
     if record.levelno >= 30:
         data['success'] = False
     else:
-- 
2.43.0


From a7c3ae2a2d356b60b08d350f609990fe0b30df37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:33 +0000
Subject: [PATCH 55/59] fix: a line of the log file shows the service name the
 record holds, not the one set by the time of writing

---
 polog/handlers/file/base_formatter_fields_extractors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 88b6beb..ad5ec10 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -86,7 +86,10 @@ class BaseFormatterFieldsExtractors:
         function_name = log.get('function')
         class_name = log.get('class')
         module_name = log.get('module')
-        service_name = SettingsStore()['service_name']
+        # Имя сервиса берется из самого лога: к моменту записи настройка может быть уже изменена.
+        service_name = log.get('service_name')
+        if service_name is None:
+            service_name = SettingsStore()['service_name']
 
         if function_name is not None:
             result = '.'.join([x for x in (service_name, module_name, class_name, function_name) if x is not None])
-- 
2.43.0


From 41b2574da757eabbe5c652890f1079ece278d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:33 +0000
Subject: [PATCH 56/59] fix: a text of an exception without its type is not
 lost from the line of the log file

---
 polog/handlers/file/base_formatter_fields_extractors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index ad5ec10..b23d5a4 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -232,6 +232,8 @@ class BaseFormatterFieldsExtractors:
             if exception_message is not None:
                 return f'exception: {exception_type}("{exception_message}")'
             return f'exception: {exception_type}()'
+        if exception_message is not None:
+            return f'exception: "{exception_message}"'
 
     @classmethod
     def traceback(cls, log):
-- 
2.43.0


From a58120050fa3a0774505404513da0732503bf1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:19 +0000
Subject: [PATCH 57/59] fix: a callable with a defaulted positional-only
 parameter is not taken for one with a single argument

---
 polog/core/utils/signature_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index 25d319a..b94f9de 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -68,7 +68,7 @@ class SignatureMatcher:
         """
         Проверка количества именованных аргументов.
         """
-        return self.number_of_named_args == len([parameter for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is not parameter.empty])
+        return self.number_of_named_args == len([parameter for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD or parameter.kind == parameter.POSITIONAL_ONLY) and parameter.default is not parameter.empty])
 
     def prove_names_of_named_args(self, parameters):
         """
-- 
2.43.0


From 74619571f71af1c98f8ebaf2dd776d4164d93b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:08 +0000
Subject: [PATCH 58/59] fix: a level given to the logger has priority over the
 level named through the dot

---
 polog/loggers/partial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index cf73844..a6f438d 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -39,8 +39,7 @@ class RouterPartial:
         """
         Отложенный вызов функции, аналог functools.partial.
         """
-        kwargs.update(self.kwargs)
-        return self.item(*args, **kwargs)
+        return self.item(*args, **{**self.kwargs, **kwargs})
 
     def __enter__(self):
         """
-- 
2.43.0


From 336f21e20f32e8c6a946230d9ba2242308bf4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:24 +0000
Subject: [PATCH 59/59] fix: suppression chosen through log.suppress() works in
 decorators, with arguments and in chains

---
 polog/loggers/partial.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index a6f438d..a00d73e 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -39,7 +39,12 @@ class RouterPartial:
         """
         Отложенный вызов функции, аналог functools.partial.
         """
-        return self.item(*args, **{**self.kwargs, **kwargs})
+        kwargs = {**self.kwargs, **kwargs}
+        if self.to_calling_before_enter is None:
+            return self.item(*args, **kwargs)
+        if len(args) == 1 and callable(args[0]):
+            return self.call_delayed_method(LoggerRouteFinalizer(**kwargs))(*args)
+        return self.call_delayed_method(self.item(*args, **kwargs))
 
     def __enter__(self):
         """
@@ -47,11 +52,7 @@ class RouterPartial:
         """
         result = self.item.__enter__()
         result(**self.kwargs)
-        if self.to_calling_before_enter is not None:
-            method_name, args, kwargs = self.to_calling_before_enter
-            attribute = getattr(result, method_name)
-            attribute(*args, **kwargs)
-        return result
+        return self.call_delayed_method(result)
 
     def __exit__(self, exception_type, exception_value, traceback_instance):
         """
@@ -68,10 +69,20 @@ class RouterPartial:
         """
         self.to_calling_before_enter = (method_name, args, kwargs)
 
+    def call_delayed_method(self, finalizer):
+        """
+        Вызов метода, указанного через .aware_calling_method(), если он был указан.
+        """
+        if self.to_calling_before_enter is not None:
+            method_name, args, kwargs = self.to_calling_before_enter
+            attribute = getattr(finalizer, method_name)
+            attribute(*args, **kwargs)
+        return finalizer
+
     def suppress(self, *exceptions):
         """
         Подавление исключений для контекстных менеджеров.
         """
-        result = LoggerRouteFinalizer(**self.kwargs)
+        result = self.call_delayed_method(LoggerRouteFinalizer(**self.kwargs))
         result.suppress(*exceptions)
         return result
-- 
2.43.0

