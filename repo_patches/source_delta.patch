From 2d5cfde93b3f2ec3f1c7279e78d132b17b3ed1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 01/57] fix: leaving a nested @unlog function no longer
 re-enables logging in the outer one

---
 polog/unlog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/unlog.py b/polog/unlog.py
index 2fbb080..918ef41 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -93,18 +93,20 @@ class UnlogDecorator:
     def set_unlogged(self, function, full):
         @wraps(function)
         def wrapper(*args, **kwargs):
+            previous = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous)
         @wraps(function)
         async def async_wrapper(*args, **kwargs):
+            previous = context.get(None)
             context.set(UnlogOrder(full=full))
             try:
                 return await function(*args, **kwargs)
             finally:
-                context.set(None)
+                context.set(previous)
         if iscoroutinefunction(function):
             return async_wrapper
         return wrapper
-- 
2.43.0


From 1ed42ce8e39ad718b25fee0d2cc8a27def7147da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 02/57] fix: a logging decorator above @unlog(full=...) keeps
 the arguments of @unlog

---
 polog/core/stores/registering_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 6f26981..3b27fe4 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -59,6 +59,8 @@ class RegisteringFunctions:
         Если функция ранее уже была задекорирована, тут надо смотреть на приоритеты. У декоратора класса приоритет ниже, чем у декоратора функций. Если функция ранее была задекорирована через декоратор класса, она передекорируется в любом случае. Если через декоратор функций - то только в том случае, если сейчас ее декорируют не через декоратор класса.
         """
         if self.is_forbidden(func):
+            if before_change_func in self.unlogged_functions:
+                return before_change_func
             if unlog_decorator is None:
                 from polog.unlog import unlog
                 unlog_decorator = unlog
-- 
2.43.0


From 522baf8a2d926865db97136f6476836f694c2255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 03/57] fix: release the file lock before the thread lock, so
 that it is never dropped for the next thread

---
 polog/handlers/file/locks/double_lock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/handlers/file/locks/double_lock.py b/polog/handlers/file/locks/double_lock.py
index 53aac61..5d3a4b6 100644
--- a/polog/handlers/file/locks/double_lock.py
+++ b/polog/handlers/file/locks/double_lock.py
@@ -27,8 +27,8 @@ class DoubleLock:
         """
         Отпустить оба лока.
         """
-        self.thread_lock.release()
         self.file_lock.release()
+        self.thread_lock.release()
 
     @staticmethod
     def get_lock_types(lock_type):
-- 
2.43.0


From 4c470fa8949a1e7019e5867b206673ef59cd00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 04/57] fix: keep the integer zeros of the time of work in text
 logs

---
 polog/handlers/file/base_formatter_fields_extractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 416950a..6ff0524 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -214,7 +214,7 @@ class BaseFormatterFieldsExtractors:
         if var is None:
             return None
         number = f'{var:.8f}'
-        number = number.rstrip('0.')
+        number = number.rstrip('0').rstrip('.')
         result = f"time of work: {number} sec."
         return result
 
-- 
2.43.0


From 7b9c829ef3c4a73a7166e5507f5b6440e37588b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 05/57] fix: LockedWeakKeyValueDictionary.items() yields the
 stored values instead of calling them

---
 polog/data_structures/wrappers/weak_linked/dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/data_structures/wrappers/weak_linked/dictionary.py b/polog/data_structures/wrappers/weak_linked/dictionary.py
index 71e8bda..db7dff1 100644
--- a/polog/data_structures/wrappers/weak_linked/dictionary.py
+++ b/polog/data_structures/wrappers/weak_linked/dictionary.py
@@ -111,7 +111,7 @@ class LockedWeakKeyValueDictionary:
         for key in self.keys():
             value = self.get(key)
             if value is not None:
-                yield key, value()
+                yield key, value
 
     def pop(self, key, *defaults):
         """
-- 
2.43.0


From 93cdefb1d98050ff9fd09cf7871aa9ac49640b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 06/57] fix: 'with log' blocks of concurrent tasks no longer
 share one mutable stack

---
 polog/loggers/router.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/polog/loggers/router.py b/polog/loggers/router.py
index 627f5a0..3e3236e 100644
--- a/polog/loggers/router.py
+++ b/polog/loggers/router.py
@@ -127,15 +127,11 @@ class Router:
         """
         Вход в объект роутера как в контекстный менеджер.
 
-        Поскольку сам по себе роутер не может хранить состояние (он общий на всю программу и допускает параллельный доступ из нескольких потоков / корутин), оно хранится в контекстной переменной в виде стека. Это также позволяет вкладывать контексты друг в друга.
+        Поскольку сам по себе роутер не может хранить состояние (он общий на всю программу и допускает параллельный доступ из нескольких потоков / корутин), оно хранится в контекстной переменной в виде стека (неизменяемого, чтобы он не оказался общим для корутин, унаследовавших контекст). Это также позволяет вкладывать контексты друг в друга.
         """
         finalizer = LoggerRouteFinalizer()
 
-        context_stack = contexts.get(None)
-        if context_stack is None:
-            contexts.set([finalizer])
-        else:
-            context_stack.append(finalizer)
+        contexts.set((contexts.get(None) or ()) + (finalizer,))
 
         return finalizer.__enter__()
 
@@ -148,10 +144,8 @@ class Router:
         if finalizers is None:
             raise IncorrectUseOfTheContextManagerError()
 
-        finalizer = finalizers.pop()
-
-        if not finalizers:
-            contexts.set(None)
+        finalizer = finalizers[-1]
+        contexts.set(finalizers[:-1] or None)
 
         result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
         return result
-- 
2.43.0


From fbfb66a6b92fd117013d466fdcae606ef3a6fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:06 +0000
Subject: [PATCH 07/57] fix: an explicitly passed level takes precedence over
 the level named through the dot, as documented

---
 polog/loggers/partial.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index cf73844..a6f438d 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -39,8 +39,7 @@ class RouterPartial:
         """
         Отложенный вызов функции, аналог functools.partial.
         """
-        kwargs.update(self.kwargs)
-        return self.item(*args, **kwargs)
+        return self.item(*args, **{**self.kwargs, **kwargs})
 
     def __enter__(self):
         """
-- 
2.43.0


From 14e0db3ecb7db7a8c2c908b11f732c40e872c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:15 +0000
Subject: [PATCH 08/57] fix: arguments and results that cannot be serialized no
 longer break the decorated function

---
 polog/utils/json_vars.py | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 4e44602..39297ef 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -9,27 +9,45 @@ def get_item(item):
     for one in BASE_JSON_TYPES:
         if isinstance(item, one):
             return {'value': item, 'type': one.__name__}
-    return {'value': str(item), 'type': type(item).__name__}
+    return get_string_item(item)
+
+def get_string_item(item):
+    """
+    Представление любого объекта в виде строки. Метод .__str__() объекта - пользовательский код, ошибки в нем не должны аффектить основную программу.
+    """
+    try:
+        value = str(item)
+    except Exception:
+        value = f'<{type(item).__name__} object>'
+    return {'value': value, 'type': type(item).__name__}
+
+def serialize(get_data):
+    """
+    Сериализация данных. Если модуль json не смог справиться с каким-то из значений "простых" типов (например, со слишком большим числом), все значения приводятся к строкам.
+
+    get_data - функция, принимающая способ представления одного объекта и возвращающая данные для сериализации.
+    """
+    json = store['json_module']
+    try:
+        return json.dumps(get_data(get_item))
+    except Exception:
+        return json.dumps(get_data(get_string_item))
 
 def json_vars(*args, **kwargs):
     """
     Преобразуем любые аргументы в json-объект. Каждый элемент в json-объекте сопровождается названием типа данных. Это полезно в случаях, когда тип данных не соответствует стандартным для json. Все нестандартные объекты приводятся к типу str.
     Функция не поддерживает глубокую рекурсию.
     """
-    json = store['json_module']
     if not (len(args) + len(kwargs)):
         return None
-    args = [get_item(x) for x in args]
-    kwargs = {key: get_item(value) for key, value in kwargs.items()}
-    result = {}
-    if len(args):
-        result['args'] = args
-    if len(kwargs):
-        result['kwargs'] = kwargs
-    return json.dumps(result)
+    def get_data(get_item):
+        result = {}
+        if len(args):
+            result['args'] = [get_item(x) for x in args]
+        if len(kwargs):
+            result['kwargs'] = {key: get_item(value) for key, value in kwargs.items()}
+        return result
+    return serialize(get_data)
 
 def json_one_variable(variable):
-    json = store['json_module']
-    variable = get_item(variable)
-    result = json.dumps(variable)
-    return result
+    return serialize(lambda get_item: get_item(variable))
-- 
2.43.0


From 0602bdebc0efe00b9bb803802238041027e87b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:15 +0000
Subject: [PATCH 09/57] fix: an exception whose __str__ fails is logged and
 passed on instead of being replaced

---
 polog/core/utils/exception_to_dict.py | 11 ++++++++++-
 polog/loggers/finalizer.py            |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/polog/core/utils/exception_to_dict.py b/polog/core/utils/exception_to_dict.py
index 3dc4041..597e670 100644
--- a/polog/core/utils/exception_to_dict.py
+++ b/polog/core/utils/exception_to_dict.py
@@ -1,6 +1,15 @@
+def get_exception_message(exc):
+    """
+    Получаем сообщение исключения. Метод .__str__() исключения - пользовательский код, ошибки в нем не должны аффектить основную программу.
+    """
+    try:
+        return str(exc)
+    except Exception:
+        return f'<{type(exc).__name__} object>'
+
 def exception_to_dict(args_dict, exc):
     """
     Заполняем словарь с аргументами информацией об исключении.
     """
-    args_dict['exception_message'] = str(exc)
+    args_dict['exception_message'] = get_exception_message(exc)
     args_dict['exception_type'] = type(exc).__name__
diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index c07b569..fe060d0 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -11,6 +11,7 @@ from polog.loggers.auto.function_logger import flog
 from polog.errors import IncorrectUseLoggerError, IncorrectUseOfTheDecoratorError, IncorrectUseOfTheContextManagerError
 from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.exception_is_suppressed import exception_is_suppressed
+from polog.core.utils.exception_to_dict import get_exception_message
 
 
 class LoggerRouteFinalizer:
@@ -89,7 +90,7 @@ class LoggerRouteFinalizer:
         """
         if exception_type is not None:
             self.data['exception_type'] = exception_type.__name__
-            self.data['exception_message'] = str(exception_value)
+            self.data['exception_message'] = get_exception_message(exception_value)
             self.data['success'] = False
             self.data['traceback'] = self.settings['json_module'].dumps(traceback.format_tb(traceback_instance))
         else:
-- 
2.43.0


From 670723d1294a34f3aef592d56c95082f2b18dcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:15 +0000
Subject: [PATCH 10/57] fix: only a recorded exception counts as already
 logged, and exceptions that forbid new attributes pass through

---
 polog/loggers/auto/function_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 6e2f1c4..55fab5f 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -171,10 +171,10 @@ class FunctionLogger:
         В т. ч. извлекается вся информация об исключении - название, сообщение и т. д.
         """
         if not unlog.get_unlog_status():
-            if not hasattr(exc, 'checked_by_polog') or not self.settings['deduplicate_errors']:
-                exc.checked_by_polog = True
+            if 'checked_by_polog' not in exc.__dict__ or not self.settings['deduplicate_errors']:
                 errors_level = get_errors_level(errors_level, simple_level)
                 if errors_level >= self.settings['level']:
+                    exc.__dict__['checked_by_polog'] = True
                     exception_to_dict(args_dict, exc)
                     args_dict['success'] = False
                     args_dict['traceback'] = get_traceback(cut_string_at_begin=1)
-- 
2.43.0


From 87c64b74a835d434cad1937cec5397adff8668f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:16 +0000
Subject: [PATCH 11/57] fix: a message() call edits only the record of its own
 decorated function when decorated calls are nested

---
 polog/loggers/auto/function_logger.py | 20 ++++++++++++++------
 polog/loggers/handle/message.py       |  8 ++++++++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 55fab5f..8c2ce63 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -64,6 +64,7 @@ class FunctionLogger:
                 """
                 Обертка для корутинных функций, вызов обернутой функции происходит через await.
                 """
+                outer_message = _message._get_context()
                 _message._clean_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
@@ -78,14 +79,18 @@ class FunctionLogger:
                             cut_traceback(self.settings)
                             raise
                     return None
-                finish = time.time()
-                self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                return result
+                else:
+                    finish = time.time()
+                    self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    return result
+                finally:
+                    _message._restore_context(outer_message)
             @wraps(func)
             def wrapper(*args, **kwargs):
                 """
                 Обертка для обычных функций.
                 """
+                outer_message = _message._get_context()
                 _message._clean_context()
                 args_dict = self.get_base_args_dict(func, message)
                 try:
@@ -100,9 +105,12 @@ class FunctionLogger:
                             cut_traceback(self.settings)
                             raise
                     return None
-                finish = time.time()
-                self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
-                return result
+                else:
+                    finish = time.time()
+                    self.log_normal_info(result, finish, start, args_dict, level, local_handlers, in_place_fields, engine_fields, args, kwargs)
+                    return result
+                finally:
+                    _message._restore_context(outer_message)
             if inspect.iscoroutinefunction(func):
                 result = async_wrapper
             else:
diff --git a/polog/loggers/handle/message.py b/polog/loggers/handle/message.py
index 4fdfeb7..5b486cf 100644
--- a/polog/loggers/handle/message.py
+++ b/polog/loggers/handle/message.py
@@ -54,6 +54,14 @@ class Message(AbstractHandleLogger):
         """
         context.set(None)
 
+    def _restore_context(self, fields):
+        """
+        Возвращаем контекстной переменной значение, которое было у нее до вызова задекорированной функции.
+
+        fields - ранее извлеченное содержимое контекстной переменной.
+        """
+        context.set(fields)
+
     def _get_context(self):
         """
         Возвращаем содержимое контекстной переменной.
-- 
2.43.0


From 33db267e94933aa6f83aab38108bd9de40d3755c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:58 +0000
Subject: [PATCH 12/57] fix: a decorated function that is decorated again in
 several places is not logged twice

---
 polog/core/stores/registering_functions.py | 3 +--
 polog/unlog.py                             | 1 -
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 3b27fe4..ed53717 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -67,12 +67,11 @@ class RegisteringFunctions:
             return unlog_decorator(func)
         if self.is_decorator(before_change_func):
             if self.is_method(before_change_func):
-                self.remove(before_change_func)
+                self.decorated_methods.discard(func)
                 self.add(wrapper, func, is_method=is_method)
                 return wrapper
             else:
                 if not is_method:
-                    self.remove(before_change_func)
                     self.add(wrapper, func, is_method=is_method)
                     return wrapper
                 else:
diff --git a/polog/unlog.py b/polog/unlog.py
index 918ef41..4519293 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -68,7 +68,6 @@ class UnlogDecorator:
             result = function
         else:
             original_function = RegisteringFunctions().get_original(function)
-            RegisteringFunctions().remove(function)
             RegisteringFunctions().forbid(original_function)
             result = original_function
 
-- 
2.43.0


From 1c7e89f4a732bbb9f9ff4326a439be37806706cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:58 +0000
Subject: [PATCH 13/57] fix: class decorators keep static methods, class
 methods and nested classes working

---
 polog/core/utils/decorate_class_attribute.py | 22 ++++++++++++++++++++
 polog/loggers/auto/class_logger.py           | 11 ++++------
 polog/unlog.py                               |  5 +++--
 3 files changed, 29 insertions(+), 9 deletions(-)
 create mode 100644 polog/core/utils/decorate_class_attribute.py

diff --git a/polog/core/utils/decorate_class_attribute.py b/polog/core/utils/decorate_class_attribute.py
new file mode 100644
index 0000000..d833b4d
--- /dev/null
+++ b/polog/core/utils/decorate_class_attribute.py
@@ -0,0 +1,22 @@
+import inspect
+
+
+def decorate_class_attribute(Class, name, decorator):
+    """
+    Подменяем атрибут класса его задекорированной версией.
+
+    Декорируется всегда сама функция, а тип связывания (обычный метод, classmethod или staticmethod) остается прежним. Прочие вызываемые объекты не получают self, поэтому после декорирования они становятся статическими методами.
+    """
+    bound_attribute = getattr(Class, name)
+    attribute = inspect.getattr_static(Class, name)
+
+    if isinstance(attribute, classmethod):
+        result = classmethod(decorator(attribute.__func__))
+    elif isinstance(attribute, staticmethod):
+        result = staticmethod(decorator(attribute.__func__))
+    elif not hasattr(type(attribute), '__get__'):
+        result = staticmethod(decorator(attribute))
+    else:
+        result = decorator(bound_attribute)
+
+    setattr(Class, name, result)
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 42e1044..cd5b7a0 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -2,6 +2,7 @@ import inspect
 
 from polog.loggers.auto.function_logger import flog
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.decorate_class_attribute import decorate_class_attribute
 from polog.errors import IncorrectUseOfTheDecoratorError
 
 
@@ -20,20 +21,16 @@ class ClassLogger:
             # Получаем имена методов класса.
             all_methods = self.get_logging_methods(Class, *methods)
             for method_name in all_methods:
-                method = getattr(Class, method_name)
                 # Конфигурируем декоратор для метода.
                 wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True)
                 # Применяем его.
-                new_method = wrapper(method)
-                setattr(Class, method_name, new_method)
+                decorate_class_attribute(Class, method_name, wrapper)
             # Получаем кортеж с именами методов, которые логировать НЕ надо.
             # Если они уже залогированы - нужно вернуть оригиналы.
             originals = self.make_originals(Class, *methods)
             register = RegisteringFunctions()
             for method_name in originals:
-                method = getattr(Class, method_name)
-                original = register.get_original(method)
-                setattr(Class, method_name, original)
+                decorate_class_attribute(Class, method_name, register.get_original)
             return Class
         if not len(args):
             return decorator
@@ -66,7 +63,7 @@ class ClassLogger:
         Семантика тут такая: если пользователь не указал конкретно имена методов, которые нужно логировать - логиируем весь класс. Иначе - только выбранные методы.
         """
         if not len(methods) or (len(methods) == 1 and inspect.isclass(methods[0])):
-            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
+            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and not inspect.isclass(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
         else:
             methods = [x for x in methods]
         return methods
diff --git a/polog/unlog.py b/polog/unlog.py
index 4519293..05984a7 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -6,6 +6,7 @@ from typing import Optional
 from inspect import iscoroutinefunction
 
 from polog.core.stores.registering_functions import RegisteringFunctions
+from polog.core.utils.decorate_class_attribute import decorate_class_attribute
 from polog.errors import IncorrectUseOfTheDecoratorError
 from polog.core.stores.settings.settings_store import SettingsStore
 
@@ -32,8 +33,8 @@ class UnlogDecorator:
                 for function_name in dir(obj):
                     if not function_name.startswith('__'):
                         maybe_method = getattr(obj, function_name)
-                        if callable(maybe_method):
-                            setattr(obj, function_name, self.unlog_function(maybe_method, full))
+                        if callable(maybe_method) and not isclass(maybe_method):
+                            decorate_class_attribute(obj, function_name, lambda function: self.unlog_function(function, full))
                 return obj
             elif callable(obj):
                 return self.unlog_function(obj, full)
-- 
2.43.0


From 2407b1e2afaeab9662e67127aa73720c5417135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:58 +0000
Subject: [PATCH 14/57] fix: the class decorator accepts the same arguments as
 the function decorator, as documented

---
 polog/loggers/auto/class_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index cd5b7a0..3ec3973 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -11,7 +11,7 @@ class ClassLogger:
     Экземпляры данного класса - готовые декораторы для других классов.
     """
 
-    def __call__(self, suppress_all, suppressed_exceptions, *args, methods=(), message=None, level=None, errors_level=None):
+    def __call__(self, suppress_all, suppressed_exceptions, *args, methods=(), message=None, level=None, errors_level=None, handlers=None, extra_fields=None, extra_engine_fields=None):
         """
         Фабрика декораторов классов. Можно вызывать как со скобками, так и без.
         В задекорированном классе @flog() применяется ко всем методам, кроме тех, чье название начинается с '__'.
@@ -22,7 +22,7 @@ class ClassLogger:
             all_methods = self.get_logging_methods(Class, *methods)
             for method_name in all_methods:
                 # Конфигурируем декоратор для метода.
-                wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True)
+                wrapper = flog(suppress_all, suppressed_exceptions, message=message, level=level, errors_level=errors_level, is_method=True, handlers=handlers, extra_fields=extra_fields, extra_engine_fields=extra_engine_fields)
                 # Применяем его.
                 decorate_class_attribute(Class, method_name, wrapper)
             # Получаем кортеж с именами методов, которые логировать НЕ надо.
-- 
2.43.0


From f8b4304b0319263d15c27ea17fad2ff37abe18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 15/57] fix: a failed smart assert in the debug mode is logged
 only if the politic asks for it, and only once

---
 polog/loggers/handle/smart_assert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/polog/loggers/handle/smart_assert.py b/polog/loggers/handle/smart_assert.py
index 78b9c3f..114edbe 100644
--- a/polog/loggers/handle/smart_assert.py
+++ b/polog/loggers/handle/smart_assert.py
@@ -24,12 +24,14 @@ class SmartAssert(AbstractHandleLogger):
         try:
             if self.settings['smart_assert_politic'](self.settings['debug_mode'], expression_result):
                 log(message, exception=AssertionError(message))
-            if self.settings['debug_mode'] and not expression_result:
-                raise AssertionError(message)
+            is_failed = self.settings['debug_mode'] and not expression_result
         except Exception:
-            if self.settings['debug_mode']:
+            is_failed = self.settings['debug_mode']
+            if is_failed:
                 log(message, exception=AssertionError(message))
-                raise AssertionError(message)
+
+        if is_failed:
+            raise AssertionError(message)
 
     def get_message(self, expression_result, *maybe_message):
         """
-- 
2.43.0


From da4ed21df10e0f9dfd89aecf2cf889649e61269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 16/57] fix: an unknown level or a duplicated alias in a manual
 log obeys silent_internal_exceptions

---
 polog/loggers/handle/abstract.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 2da68fa..29188ec 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -144,10 +144,14 @@ class AbstractHandleLogger:
                     continue
             # При необходимости - конвертируем переданные значения.
             if key in self._convert_values:
-                value = self._convert_values.get(key)(value)
+                try:
+                    value = self._convert_values.get(key)(value)
+                except KeyError as e:
+                    self._maybe_raise(KeyError, e.args[0])
+                    continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
-                if destination[key] != kwargs[key]:
+                if destination[key] != value:
                     self._maybe_raise(ValueError, f'Duplicate information in the "{key}" field.')
                     continue
             # Все проверки пройдены - сохраняем результат.
-- 
2.43.0


From 6cd5a1bda92956393875f172ba19ed306ee4ad8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 17/57] fix: a malformed logging record no longer raises an
 exception in the code that uses logging

---
 .../actions/integration_with_logging.py       | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 309f14e..13bb7d1 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -3,8 +3,20 @@ import traceback
 from datetime import datetime
 
 from polog.core.stores.settings.actions.decorator import is_action
+from polog.core.utils.exception_to_dict import get_exception_message
 
 
+def get_message(record):
+    """
+    Получаем сообщение из объекта записи logging.
+
+    Если аргументы не подходят к шаблону сообщения, logging не поднимает исключений в коде пользователя. Мы в этом случае берем сам шаблон.
+    """
+    try:
+        return record.getMessage()
+    except Exception:
+        return get_exception_message(record.msg)
+
 def from_logging_filter_to_polog(record):
     """
     Здесь копируется информация из объекта записи logging и передается логгеру Polog.
@@ -17,8 +29,9 @@ def from_logging_filter_to_polog(record):
     data = {}
 
     data['time'] = datetime.fromtimestamp(record.created)
-    if record.msg:
-        data['message'] = record.getMessage()
+    message = get_message(record)
+    if message:
+        data['message'] = message
     data['level'] = record.levelno
     if record.levelno >= 30:
         data['success'] = False
@@ -26,13 +39,13 @@ def from_logging_filter_to_polog(record):
         data['success'] = True
     data['module'] = record.module
     data['line_number'] = record.lineno
-    if record.funcName.isidentifier():
+    if record.funcName is not None and record.funcName.isidentifier():
         data['function'] = record.funcName
     data['path_to_code'] = record.pathname
-    if record.exc_info is not None:
+    if record.exc_info and record.exc_info[0] is not None:
         data['exception_type'] = record.exc_info[0].__name__
         data['traceback'] = store['json_module'].dumps(traceback.format_tb(record.exc_info[2]))
-        data['exception_message'] = str(record.exc_info[1])
+        data['exception_message'] = get_exception_message(record.exc_info[1])
     data['thread'] = f'{record.threadName} ({record.thread})'
     data['process'] = f'{record.processName} ({record.process})'
 
-- 
2.43.0


From 2cb3af8acd69883b4c4bbbb810efe4b152ea2058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 18/57] fix: an empty node of the tree is not a registered
 handler

---
 polog/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/config.py b/polog/config.py
index f5b537f..87aad74 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -103,7 +103,7 @@ class config:
         """
         Сохраняем обработчик под каким-то именем.
         """
-        if name in global_handlers:
+        if global_handlers.get(name) is not None:
             raise NameError(f'Attempt to override a handler named {name}.')
         global_handlers[name] = handler
 
-- 
2.43.0


From 36c1b9c02c199b156b5042d0f601cfd58396a7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 19/57] fix: a handler registered again under the same name
 stays visible in the local handler scopes

---
 polog/data_structures/trees/named_tree/projector.py | 1 +
 polog/data_structures/trees/named_tree/tree.py      | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index 466c3ff..c3d4dd3 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -27,6 +27,7 @@ class TreeProjector:
             if path == self.tree.keys_separator and not_to_root:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
             node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+            node_to_put.projected = True
             new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
diff --git a/polog/data_structures/trees/named_tree/tree.py b/polog/data_structures/trees/named_tree/tree.py
index 30d0b0d..2d47034 100644
--- a/polog/data_structures/trees/named_tree/tree.py
+++ b/polog/data_structures/trees/named_tree/tree.py
@@ -54,6 +54,7 @@ class NamedTree:
         self.name = name
 
         self.value = None
+        self.projected = False
         self.childs = {}
         self.walker = TreeWalker(self)
         self.printer = TreePrinter(self)
@@ -163,7 +164,7 @@ class NamedTree:
         """
         Очистка дерева от лишних пустых нод. То есть от таких, которые не ведут к заполненным нодам.
 
-        Алгоритм основан на проходе вверх по нодам дерева (подразумевается, что дерево у нас растет "вверх ногами", то есть корень дерева - это самая верхняя нода). Для каждой ноды при проходе мы считаем количество значений в поддереве, которое с нее начинается. Если оно равно нулю - удаляем ноду.
+        Алгоритм основан на проходе вверх по нодам дерева (подразумевается, что дерево у нас растет "вверх ногами", то есть корень дерева - это самая верхняя нода). Для каждой ноды при проходе мы считаем количество значений в поддереве, которое с нее начинается. Если оно равно нулю - удаляем ноду. Исключение - ноды, спроецированные в другие деревья (и ведущие к ним): если их удалить, обработчики, которые в будущем появятся по тому же пути, не попадут в проекции.
         Подъем останавливается, если мы достигли ноды, обозначенной как break_on. Если нода break_on не передана, подъем идет до корня. Это может приводить к неожиданным последствиям, если данный метод запускается на поддереве какого-то более крупного дерева - будут зааффекчены ноды того дерева, которые стоят выше по иерархии относительно поддерева.
 
         Не потокобезопасно, подразумевается вызов из защищенных локом методов.
@@ -176,7 +177,7 @@ class NamedTree:
             for child_name, child in parent.childs.items():
                 if child is break_on:
                     return
-                if not len(child):
+                if not len(child) and not any(x.projected for x in child.walker.bfs()):
                     childs_to_delete.append(child_name)
             for name in childs_to_delete:
                 del parent.childs[name]
-- 
2.43.0


From 2ae6baa2f2a5731db6fc7459912943e6bf4a4edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 20/57] fix: changing handlers or fields while a record is
 being processed no longer breaks it

---
 polog/core/log_item.py                                       | 2 +-
 polog/data_structures/trees/named_tree/walker.py             | 4 ++--
 polog/data_structures/wrappers/fields_container/container.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/polog/core/log_item.py b/polog/core/log_item.py
index 81f21f2..4f53d0b 100644
--- a/polog/core/log_item.py
+++ b/polog/core/log_item.py
@@ -185,7 +185,7 @@ class LogItem:
         fields - словарь, в котором ключи - строки с названиями полей, значения - поля.
         """
         data = self.fields
-        for name, field in fields.items():
+        for name, field in list(fields.items()):
             if name not in data or self._fields_intersection:
                 try:
                     value = field.get_data(self)
diff --git a/polog/data_structures/trees/named_tree/walker.py b/polog/data_structures/trees/named_tree/walker.py
index 1836329..fbbeace 100644
--- a/polog/data_structures/trees/named_tree/walker.py
+++ b/polog/data_structures/trees/named_tree/walker.py
@@ -16,7 +16,7 @@ class TreeWalker:
             next_layer = []
             for node in layer:
                 yield node
-                for child in node.childs.values():
+                for child in list(node.childs.values()):
                     next_layer.append(child)
             layer = next_layer
 
@@ -45,5 +45,5 @@ class TreeWalker:
         Поскольку обход реализован через рекурсию, его глубина ограничена и при ее превышении поднимется RecursionError.
         """
         yield node
-        for child in node.childs.values():
+        for child in list(node.childs.values()):
             yield from self._recursive_dfs(child)
diff --git a/polog/data_structures/wrappers/fields_container/container.py b/polog/data_structures/wrappers/fields_container/container.py
index d1564a8..7118d93 100644
--- a/polog/data_structures/wrappers/fields_container/container.py
+++ b/polog/data_structures/wrappers/fields_container/container.py
@@ -33,9 +33,9 @@ class FieldsContainer:
 
         При пересечении множеств ключей двух словарей, предпочтение отдается значению из первого словаря.
         """
-        for key, value in self.fields.items():
+        for key, value in list(self.fields.items()):
             yield key, value
 
-        for key, value in self.defaults.items():
+        for key, value in list(self.defaults.items()):
             if key not in self.fields:
                 yield key, value
-- 
2.43.0


From 98995bc54deaa769e69b562a8bdbc42b7a187119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 21/57] fix: fields extracted in the engine are applied to
 manual logs too

---
 polog/loggers/handle/handle_log.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 82fd68f..31cc540 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -5,7 +5,7 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.stores.handlers import global_handlers
 from polog.loggers.handle.abstract import AbstractHandleLogger
 from polog.core.log_item import LogItem
-from polog.core.stores.fields import in_place_fields
+from polog.core.stores.fields import in_place_fields, engine_fields
 from polog.unlog import unlog
 
 
@@ -66,6 +66,7 @@ class BaseLogger(AbstractHandleLogger):
                 log_item = LogItem()
                 log_item.set_data(fields)
                 log_item.set_handlers(global_handlers)
+                log_item.set_extra_fields(engine_fields)
                 log_item.extract_extra_fields_from(in_place_fields)
                 self._engine.write(log_item)
 
-- 
2.43.0


From e5207061b21800fbb893e42d8443ba4db616b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 22/57] fix: collections of extra fields passed by the user are
 not modified, and tuples may contain an ellipsis

---
 polog/loggers/auto/function_logger.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/polog/loggers/auto/function_logger.py b/polog/loggers/auto/function_logger.py
index 8c2ce63..fe1403d 100644
--- a/polog/loggers/auto/function_logger.py
+++ b/polog/loggers/auto/function_logger.py
@@ -305,15 +305,8 @@ class FunctionLogger:
 
         all_fields = [maybe_fields] if isinstance(maybe_fields, dict) else maybe_fields
 
-        if Ellipsis in all_fields:
-            is_ellipsis = True
-            while Ellipsis in all_fields:
-                try:
-                    all_fields.pop(all_fields.index(Ellipsis))
-                except ValueError:
-                    break
-        else:
-            is_ellipsis = False
+        is_ellipsis = Ellipsis in all_fields
+        all_fields = [x for x in all_fields if x is not Ellipsis]
 
         pre_result = {}
 
-- 
2.43.0


From c04e06516ca792a6810e8e42eefe943d37c81438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 23/57] fix: a log that could not be written because of a
 failed filter is passed to the alternative handler

---
 polog/handlers/abstract/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/abstract/base.py b/polog/handlers/abstract/base.py
index 8219269..83f563c 100644
--- a/polog/handlers/abstract/base.py
+++ b/polog/handlers/abstract/base.py
@@ -35,7 +35,11 @@ class BaseHandler:
         Благодаря этой функции объект класса является вызываемым.
         В случае неудачи при записи лога, выполняется функция alt, если она была указана при инициализации объекта.
         """
-        if not self.to_do_or_not_to_do(log):
+        try:
+            is_allowed = self.to_do_or_not_to_do(log)
+        except Exception:
+            is_allowed = False
+        if not is_allowed:
             return self.run_alt(log)
         try:
             content = self.get_content(log)
-- 
2.43.0


From f19834462ada826e965db331cccf9556b6efe7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:37 +0000
Subject: [PATCH 24/57] fix: no deadlock between the first log and a
 simultaneous change of the engine settings

---
 polog/core/engine/engine.py                 | 3 ++-
 polog/core/stores/settings/setting_point.py | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 7b45c6c..6639e30 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -56,7 +56,8 @@ class Engine(ReadOnlySingleton):
 
         При первом вызове данного метода будет выполнена вторичная инициализация, после чего метод будет подменен на тот, что непосредственно записывает лог.
         """
-        with self.lock:
+        # Порядок взятия локов тот же, что при изменении настроек: сначала лок пункта настроек, потом движка. Иначе возможна взаимоблокировка.
+        with self.settings.get_point('started').get_lock_object(), self.lock:
             if not self.settings['started']:
                 self.__second_init__()
                 self.write = self._new_write
diff --git a/polog/core/stores/settings/setting_point.py b/polog/core/stores/settings/setting_point.py
index e97b753..e923921 100644
--- a/polog/core/stores/settings/setting_point.py
+++ b/polog/core/stores/settings/setting_point.py
@@ -1,4 +1,4 @@
-from threading import Lock
+from threading import RLock
 
 from polog.errors import DoubleSettingError, AfterStartSettingError
 from polog.core.utils.exception_escaping import exception_escaping
@@ -38,7 +38,7 @@ class SettingPoint:
         self.do_action_first_time = do_action_first_time
         self.changed = False
         self.shared_lock_with = shared_lock_with
-        self.lock = Lock()
+        self.lock = RLock()
         self.set_action(action)
         self.set_conflicts(conflicts)
         self.set_read_lock(read_lock)
-- 
2.43.0


From 0315bea33cc787e766b6ddd4bf437073c78b23e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 25/57] fix: a log written during the reload of the engine is
 neither lost nor deadlocked

---
 polog/core/engine/engine.py                   | 24 +++++++++++++++--
 .../engine/real_engines/multithreaded/pool.py | 27 ++++++++++++++-----
 .../real_engines/multithreaded/worker.py      | 16 +++++++++--
 polog/errors.py                               |  6 +++++
 4 files changed, 62 insertions(+), 11 deletions(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index 6639e30..b29bdcc 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -5,6 +5,8 @@ from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.read_only_singleton import ReadOnlySingleton
 from polog.core.utils.exception_escaping import exception_escaping
 from polog.core.utils.time_limit import time_limit
+from polog.core.engine.real_engines.multithreaded.worker import WorkerThread
+from polog.errors import StoppedEngineError
 
 
 class Engine(ReadOnlySingleton):
@@ -67,11 +69,29 @@ class Engine(ReadOnlySingleton):
         """
         Данный метод фактически вызывается каждый раз при вызове метода self.write().
         """
-        self.real_engine.write(log)
+        while True:
+            try:
+                return self.real_engine.write(log)
+            except StoppedEngineError:
+                # Движок успели остановить уже после того, как мы к нему обратились. Дожидаемся нового.
+                self._wait_unlock()
 
     def _blocked_write(self, log):
+        """
+        Запись лога на время перезагрузки движка.
+
+        Логи, которые пишут сами обработчики, перезагрузки не ждут, поскольку она сама ждет завершения работы обработчиков.
+        """
+        if not WorkerThread.is_current():
+            self._wait_unlock()
+        self._new_write(log)
+
+    def _wait_unlock(self):
+        """
+        Ожидание окончания перезагрузки движка.
+        """
         with self.lock:
-            self._new_write(log)
+            pass
 
     def reload(self):
         """
diff --git a/polog/core/engine/real_engines/multithreaded/pool.py b/polog/core/engine/real_engines/multithreaded/pool.py
index 4c31b7a..3cb6495 100644
--- a/polog/core/engine/real_engines/multithreaded/pool.py
+++ b/polog/core/engine/real_engines/multithreaded/pool.py
@@ -1,7 +1,9 @@
 import time
 from queue import Queue
+from threading import Lock
 
-from polog.core.engine.real_engines.multithreaded.worker import Worker
+from polog.core.engine.real_engines.multithreaded.worker import Worker, WorkerThread
+from polog.errors import StoppedEngineError
 
 
 class ThreadPool:
@@ -15,25 +17,36 @@ class ThreadPool:
     def __init__(self, settings):
         self.settings = settings
         self.queue = Queue(maxsize=self.settings.force_get('max_queue_size'))
+        self.put_lock = Lock()
+        self.stopped = False
         self.workers = self.create_workers()
 
     def put(self, log_item):
         """
         Помещение лога в очередь.
+
+        После начала остановки логи принимаются только от самих воркеров (если их пишут обработчики), поскольку никто другой не гарантирует, что очередь еще будет разобрана.
         """
-        self.queue.put(log_item)
+        if WorkerThread.is_current():
+            self.queue.put(log_item)
+            return
+        with self.put_lock:
+            if self.stopped:
+                raise StoppedEngineError('The engine is stopped.')
+            self.queue.put(log_item)
 
     def stop(self):
         """
         Остановка воркеров.
 
-        Подразумевается, что объект, останавливающий группу потоков, проконтролирует, что в процессе остановки очередь пополняться не будет.
-
         Этапы остановки:
-        1. Дождаться опустошения очереди.
-        2. Проставить флаги остановки воркерам. Воркер нельзя просто "убить". Он должен завершить работу с текущим таском, после чего проверить флаг остановки, и, если он установлен - выйти из цикла.
-        3. Заджойнить потоки воркеров.
+        1. Запретить пополнение очереди.
+        2. Дождаться опустошения очереди.
+        3. Проставить флаги остановки воркерам. Воркер нельзя просто "убить". Он должен завершить работу с текущим таском, после чего проверить флаг остановки, и, если он установлен - выйти из цикла.
+        4. Заджойнить потоки воркеров.
         """
+        with self.put_lock:
+            self.stopped = True
         self.wait_empty_queue()
         for worker in self.workers:
             worker.set_stop_flag()
diff --git a/polog/core/engine/real_engines/multithreaded/worker.py b/polog/core/engine/real_engines/multithreaded/worker.py
index ffbc944..65ed326 100644
--- a/polog/core/engine/real_engines/multithreaded/worker.py
+++ b/polog/core/engine/real_engines/multithreaded/worker.py
@@ -1,5 +1,17 @@
 from queue import Empty
-from threading import Thread
+from threading import Thread, current_thread
+
+
+class WorkerThread(Thread):
+    """
+    Поток, в котором работает воркер.
+    """
+    @staticmethod
+    def is_current():
+        """
+        Проверка, что код выполняется внутри воркера, то есть скорее всего вызван из обработчика.
+        """
+        return isinstance(current_thread(), WorkerThread)
 
 
 class Worker:
@@ -41,7 +53,7 @@ class Worker:
         """
         Запуск отдельного потока, который будет принимать события из очереди.
         """
-        thread = Thread(target=self.run)
+        thread = WorkerThread(target=self.run)
         thread.daemon = True
         thread.start()
         return thread
diff --git a/polog/errors.py b/polog/errors.py
index aca3953..d3925f9 100644
--- a/polog/errors.py
+++ b/polog/errors.py
@@ -29,6 +29,12 @@ class AfterStartSettingError(ValueError):
     """
     pass
 
+class StoppedEngineError(RuntimeError):
+    """
+    Поднимается при попытке записать лог в движок, который уже остановлен. Предназначено только для использования внутри Polog.
+    """
+    pass
+
 class RewritingLogError(RuntimeError):
     """
     Поднимается при попытке одного из обработчиков отредактировать запись лога.
-- 
2.43.0


From 40cb2fc132b9e19f6e56e040f35bd4c3ba7ef345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:09 +0000
Subject: [PATCH 26/57] fix: logs written by other atexit handlers no longer
 hang the exit of the program

---
 polog/core/engine/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index b29bdcc..a30a08c 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -6,6 +6,7 @@ from polog.core.utils.read_only_singleton import ReadOnlySingleton
 from polog.core.utils.exception_escaping import exception_escaping
 from polog.core.utils.time_limit import time_limit
 from polog.core.engine.real_engines.multithreaded.worker import WorkerThread
+from polog.core.engine.real_engines.singlethreaded.engine import SingleThreadedRealEngine
 from polog.errors import StoppedEngineError
 
 
@@ -158,3 +159,6 @@ class Engine(ReadOnlySingleton):
         def checker(): # pragma: no cover
             self.block()
             self.stop()
+            # Другие функции, зарегистрированные через atexit, тоже могут писать логи. Воркеров к этому моменту уже нет, поэтому запись идет синхронно.
+            self.real_engine = SingleThreadedRealEngine(self.settings)
+            self.unlock()
-- 
2.43.0


From 740be4772f14e4dc2785601494b4257bc5ad02d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:46 +0000
Subject: [PATCH 27/57] fix: rotation never overwrites an already rotated file

---
 polog/handlers/file/rotation/rotator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/rotation/rotator.py b/polog/handlers/file/rotation/rotator.py
index 685675b..4281857 100644
--- a/polog/handlers/file/rotation/rotator.py
+++ b/polog/handlers/file/rotation/rotator.py
@@ -50,7 +50,13 @@ class Rotator:
         Копируем файл с логами в указанную пользователем папку, переоткрываем файл по старому пути.
         В качестве нового имени файла используем название файла корневого скрипта, с измененным на .log расширением и суффиксом, отображающим текущую дату и время.
         """
-        self.file.move_file(os.path.join(self.to, self.new_filename()))
+        path = os.path.join(self.to, self.new_filename())
+        unique_path, number = path, 0
+        # Ранее ротированные логи ни в коем случае нельзя перезаписать.
+        while os.path.exists(unique_path):
+            number += 1
+            unique_path = f'{path}.{number}'
+        self.file.move_file(unique_path)
 
     def generate_rules(self, source_rules):
         """
-- 
2.43.0


From 39a8331aada4a68894b6f8133dc6e20dd099f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:48 +0000
Subject: [PATCH 28/57] fix: @log(methods=...) on a class keeps @unlog and the
 own decorators of the other methods

---
 polog/core/stores/registering_functions.py | 9 +++++++++
 polog/loggers/auto/class_logger.py         | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index ed53717..0ce7f8e 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -120,3 +120,12 @@ class RegisteringFunctions:
             if maybe_function is not None:
                 return maybe_function
         return func
+
+    def get_not_logged_by_class(self, func):
+        """
+        Получить функцию без логирования, навешенного через декоратор класса.
+        Если пользователь сам задекорировал метод (через @log или @unlog), его выбор приоритетнее, функция возвращается как есть.
+        """
+        if self.is_method(func) and func not in self.unlogged_functions:
+            return self.get_original(func)
+        return func
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 3ec3973..44d11ae 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -26,11 +26,11 @@ class ClassLogger:
                 # Применяем его.
                 decorate_class_attribute(Class, method_name, wrapper)
             # Получаем кортеж с именами методов, которые логировать НЕ надо.
-            # Если они уже залогированы - нужно вернуть оригиналы.
+            # Если они уже залогированы через декоратор класса - нужно вернуть оригиналы. Собственные декораторы методов остаются в силе.
             originals = self.make_originals(Class, *methods)
             register = RegisteringFunctions()
             for method_name in originals:
-                decorate_class_attribute(Class, method_name, register.get_original)
+                decorate_class_attribute(Class, method_name, register.get_not_logged_by_class)
             return Class
         if not len(args):
             return decorator
-- 
2.43.0


From 7ec8b168e77705e143eebd6a9d7e16d2ff08e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:17 +0000
Subject: [PATCH 29/57] fix: a stuck handler no longer keeps the program from
 exiting after max_delay_before_exit

---
 polog/core/engine/real_engines/multithreaded/worker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/polog/core/engine/real_engines/multithreaded/worker.py b/polog/core/engine/real_engines/multithreaded/worker.py
index 65ed326..99e2fea 100644
--- a/polog/core/engine/real_engines/multithreaded/worker.py
+++ b/polog/core/engine/real_engines/multithreaded/worker.py
@@ -74,7 +74,9 @@ class Worker:
 
         Это второй этап остановки воркера (см. также self.set_stop_flag()). Ожидается, что к моменту вызова данного метода флаг остановки уже установлен и цикл обработки логов прерван, что позволяет беспрепятственно присоединить поток воркера.
         """
-        self.thread.join()
+        # Ожидание разбито на короткие отрезки, поскольку иначе его невозможно прервать по истечении лимита времени на завершение программы (см. time_limit).
+        while self.thread.is_alive():
+            self.thread.join(self.settings['time_quant'])
 
     def do_anything(self, log_item):
         """
-- 
2.43.0


From 22a0765f76b632095cdea8c75558838b63d5b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:39 +0000
Subject: [PATCH 30/57] fix: manual logs written by atexit functions registered
 before the first log are no longer lost

---
 polog/loggers/finalizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index fe060d0..42a928f 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -34,6 +34,15 @@ class LoggerRouteFinalizer:
         self.data = self.convert_arguments_to_dict(*args, **kwargs)
         self.finalizer = weakref.finalize(self, self.create_finalizer(*args, **kwargs))
 
+    def __del__(self):
+        """
+        При завершении программы weakref.finalize в какой-то момент прекращает вызывать коллбеки. Чтобы не терялись логи, написанные после этого (из функций, зарегистрированных через atexit), записываем лог сами.
+        """
+        finalizer = getattr(self, 'finalizer', None)
+        detached = finalizer.detach() if finalizer is not None else None
+        if detached is not None:
+            detached[1]()
+
     def __call__(self, *args, **kwargs):
         """
         Существуют 2 сценария вызова объекта LoggerRouteFinalizer как функции:
-- 
2.43.0


From a1bf8c8cc02a2340d0c155406e9454e03cf5abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:43 +0000
Subject: [PATCH 31/57] fix: a manual log about a callable object whose
 __name__ or __str__ fails is not lost

---
 polog/loggers/handle/handle_log.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/polog/loggers/handle/handle_log.py b/polog/loggers/handle/handle_log.py
index 31cc540..bb5dfb9 100644
--- a/polog/loggers/handle/handle_log.py
+++ b/polog/loggers/handle/handle_log.py
@@ -47,13 +47,17 @@ class BaseLogger(AbstractHandleLogger):
         """
         function = fields.get('function')
         if function is not None and callable(function):
+            # Атрибуты и текстовое представление вызываемого объекта - пользовательский код, ошибки в нем не должны аффектить основную программу.
             try:
                 fields['function'] = function.__name__
-            except AttributeError:
-                fields['function'] = str(function)
+            except Exception:
+                try:
+                    fields['function'] = str(function)
+                except Exception:
+                    fields['function'] = f'<{type(function).__name__} object>'
             try:
                 fields['module'] = function.__module__
-            except AttributeError:
+            except Exception:
                 pass
 
     def _push(self, fields):
-- 
2.43.0


From 9238b2308b699e28fe003319e4c16544063ed461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:20 +0000
Subject: [PATCH 32/57] fix: log('text', message=<object whose comparison
 fails>) does not raise in the silent mode

---
 polog/loggers/finalizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index 42a928f..53dcde2 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -143,7 +143,7 @@ class LoggerRouteFinalizer:
         result = {**kwargs}
 
         if len(args) == 1:
-            if 'message' in kwargs and args[0] != kwargs['message']:
+            if 'message' in kwargs and (not isinstance(kwargs['message'], str) or args[0] != kwargs['message']):
                 simple_handle_log._maybe_raise(IncorrectUseLoggerError, 'You have specified the message both as an ordinal argument to the decorator and as a named argument.')
             result['message'] = args[0]
 
-- 
2.43.0


From f588bfce34f9b3b65374cf42056f0822a8a82744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:50 +0000
Subject: [PATCH 33/57] fix: a field of a with block can be rewritten under a
 synonym of its name

---
 polog/loggers/finalizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/polog/loggers/finalizer.py b/polog/loggers/finalizer.py
index 53dcde2..97b4f58 100644
--- a/polog/loggers/finalizer.py
+++ b/polog/loggers/finalizer.py
@@ -155,6 +155,10 @@ class LoggerRouteFinalizer:
         Сюда могут быть переданы аргументы, которые добавятся в формируемый объект лога. При конфликте между ранее заполненными полями и новыми - новые побеждают.
         """
         new_data = self.convert_arguments_to_dict(*args, **kwargs)
+        # У некоторых полей есть синонимы (к примеру, vars и locals). Новое значение поля должно вытеснить старое, даже если имена использованы разные.
+        synonyms = simple_handle_log._convert_keys
+        new_names = {synonyms.get(key, key) for key in new_data}
+        self.data = {key: value for key, value in self.data.items() if synonyms.get(key, key) not in new_names}
         self.data.update(new_data)
 
     def suppress(self, *exceptions):
-- 
2.43.0


From fb2d56f0efdfa1fbfec416353ac89508e5dba0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:04 +0000
Subject: [PATCH 34/57] fix: a class decorator and a method decorator over the
 same original function do not disturb each other

---
 polog/core/stores/registering_functions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/polog/core/stores/registering_functions.py b/polog/core/stores/registering_functions.py
index 0ce7f8e..791a083 100644
--- a/polog/core/stores/registering_functions.py
+++ b/polog/core/stores/registering_functions.py
@@ -13,7 +13,7 @@ class RegisteringFunctions:
     unlogged_functions = LockedWeakKeyValueDictionary()
     # Оригиналы функций, которые запрещено декорировать.
     forbidden_to_decorate = weakref.WeakSet()
-    # Оригиналы функций, задекорированных через декоратор класса.
+    # Функции, задекорированные через декоратор класса (именно обертки, а не оригиналы, поскольку один и тот же оригинал может быть задекорирован в нескольких местах по-разному).
     decorated_methods = weakref.WeakSet()
 
     def add(self, decorated_function, original_function, is_method=False):
@@ -22,7 +22,7 @@ class RegisteringFunctions:
         """
         self.all_decorated_functions[decorated_function] = original_function
         if is_method:
-            self.decorated_methods.add(original_function)
+            self.decorated_methods.add(decorated_function)
 
     def add_unlogged(self, unlogged_function, original_function):
         """
@@ -37,10 +37,8 @@ class RegisteringFunctions:
         Удаляем функцию из реестра задекорированных.
         """
         if self.is_decorator(func):
-            original_function = self.get_original(func)
             self.all_decorated_functions.pop(func, None)
-            if original_function in self.decorated_methods:
-                self.decorated_methods.discard(original_function)
+            self.decorated_methods.discard(func)
 
     def forbid(self, func):
         """
@@ -67,7 +65,6 @@ class RegisteringFunctions:
             return unlog_decorator(func)
         if self.is_decorator(before_change_func):
             if self.is_method(before_change_func):
-                self.decorated_methods.discard(func)
                 self.add(wrapper, func, is_method=is_method)
                 return wrapper
             else:
@@ -102,7 +99,6 @@ class RegisteringFunctions:
         """
         Проверка, что функция была задекорирована через декоратор класса.
         """
-        func = self.get_original(func)
         result = func in self.decorated_methods
         return result
 
-- 
2.43.0


From 194fc14bab6c6e8c9e597d415eddf7be91aeda74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:15 +0000
Subject: [PATCH 35/57] fix: @unlog(full=False) inside a fully unlogged call
 does not switch logging on

---
 polog/unlog.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/polog/unlog.py b/polog/unlog.py
index 05984a7..d03c6b3 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -17,6 +17,7 @@ context = ContextVar('unlog')
 @dataclass
 class UnlogOrder:
     full: Optional[bool]
+    outer: Optional['UnlogOrder'] = None
 
 class UnlogDecorator:
     def __init__(self):
@@ -79,22 +80,24 @@ class UnlogDecorator:
     def get_unlog_status(self):
         """
         В этом методе решается, позволительно ли в данный момент логирование.
+
+        Вызовы функций, обернутых в @unlog, могут быть вложены друг в друга. Если хотя бы один из них запрещает логирование полностью, вложенный в него запрет не может это отменить.
         """
         status = context.get(None)
 
-        if status is None:
-            return False
-
-        if status.full is None:
-            return self.store['full_unlog']
+        while status is not None:
+            full = self.store['full_unlog'] if status.full is None else status.full
+            if full:
+                return True
+            status = status.outer
 
-        return status.full
+        return False
 
     def set_unlogged(self, function, full):
         @wraps(function)
         def wrapper(*args, **kwargs):
             previous = context.get(None)
-            context.set(UnlogOrder(full=full))
+            context.set(UnlogOrder(full=full, outer=previous))
             try:
                 return function(*args, **kwargs)
             finally:
@@ -102,7 +105,7 @@ class UnlogDecorator:
         @wraps(function)
         async def async_wrapper(*args, **kwargs):
             previous = context.get(None)
-            context.set(UnlogOrder(full=full))
+            context.set(UnlogOrder(full=full, outer=previous))
             try:
                 return await function(*args, **kwargs)
             finally:
-- 
2.43.0


From 96e51d74af24eec20ba8b30337108d71333217ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:37 +0000
Subject: [PATCH 36/57] fix: an automatic name of a handler never collides with
 a name given by the user

---
 polog/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polog/config.py b/polog/config.py
index 87aad74..28d5a9c 100644
--- a/polog/config.py
+++ b/polog/config.py
@@ -94,6 +94,8 @@ class config:
                 if id(handler) in {id(node.value) for node in global_handlers.childs.values()}:
                     raise ValueError('An attempt to store the same handler object in a global namespace.')
                 handler_name = next(cls.pony_names_generator).replace(' ', '_')
+                while global_handlers.get(handler_name) is not None:
+                    handler_name = next(cls.pony_names_generator).replace(' ', '_')
                 cls.set_handler(handler_name, handler)
         for handler_name, handler in kwargs.items():
             cls.set_handler(handler_name, handler)
-- 
2.43.0


From af41a4538206931d9854cb584ec361318f18009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:35 +0000
Subject: [PATCH 37/57] fix: records of logging with levels of int subclasses
 are accepted

---
 polog/core/stores/settings/actions/integration_with_logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/core/stores/settings/actions/integration_with_logging.py b/polog/core/stores/settings/actions/integration_with_logging.py
index 13bb7d1..74b2068 100644
--- a/polog/core/stores/settings/actions/integration_with_logging.py
+++ b/polog/core/stores/settings/actions/integration_with_logging.py
@@ -32,7 +32,7 @@ def from_logging_filter_to_polog(record):
     message = get_message(record)
     if message:
         data['message'] = message
-    data['level'] = record.levelno
+    data['level'] = int(record.levelno)
     if record.levelno >= 30:
         data['success'] = False
     else:
-- 
2.43.0


From 91ea95d814ace29a1fb146b5d021cec1348445fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:18 +0000
Subject: [PATCH 38/57] fix: a failed reopening of the log file during rotation
 does not leave the handler without a file

---
 polog/handlers/file/file_dependency_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index df3888f..819efd6 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -87,9 +87,12 @@ class FileDependencyWrapper:
         """
         Закрываем файл и открываем снова.
         Работает только в том случае, если исходно пользователь передал имя файла, а не файловый объект.
+
+        Старый файл закрывается только после того, как удалось открыть новый. Иначе при неудаче писать логи было бы некуда.
         """
-        self.close()
+        old_file = self.file
         self.open(self.filename)
+        old_file.close()
 
     def flush(self):
         """
-- 
2.43.0


From 2facf64ffba383dc7b5340c7f2ebdf052980d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:06 +0000
Subject: [PATCH 39/57] fix: parallel rotations to the same name do not
 overwrite each other

---
 .../handlers/file/file_dependency_wrapper.py  | 23 ++++++++++++++++++-
 polog/handlers/file/rotation/rotator.py       |  8 +------
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/polog/handlers/file/file_dependency_wrapper.py b/polog/handlers/file/file_dependency_wrapper.py
index 819efd6..44cd291 100644
--- a/polog/handlers/file/file_dependency_wrapper.py
+++ b/polog/handlers/file/file_dependency_wrapper.py
@@ -122,12 +122,33 @@ class FileDependencyWrapper:
         """
         with self.lock:
             try:
-                shutil.move(self.filename, path_to_copy)
+                path_to_copy = self.reserve_path(path_to_copy)
             except FileNotFoundError:
                 self.make_dirs_for_path(path_to_copy)
+                path_to_copy = self.reserve_path(path_to_copy)
+            try:
                 shutil.move(self.filename, path_to_copy)
+            except OSError:
+                os.remove(path_to_copy)
+                raise
             self.reopen()
 
+    def reserve_path(self, path):
+        """
+        Занимаем имя, по которому еще нет файла, и возвращаем его. Если исходное имя занято, добавляем к нему номер.
+
+        Ранее ротированные логи ни в коем случае нельзя перезаписать. Проверить, что файла нет, и лишь потом перемещать, недостаточно: в промежутке файл с таким же именем может создать кто-то еще. Поэтому файл создается атомарно.
+        """
+        number = 0
+        unique_path = path
+        while True:
+            try:
+                open(unique_path, 'x').close()
+                return unique_path
+            except FileExistsError:
+                number += 1
+                unique_path = f'{path}.{number}'
+
     def make_dirs_for_path(self, path):
         """
         Для указанного пути данный метод создает все промежуточные директории, которые еще не были созданы.
diff --git a/polog/handlers/file/rotation/rotator.py b/polog/handlers/file/rotation/rotator.py
index 4281857..685675b 100644
--- a/polog/handlers/file/rotation/rotator.py
+++ b/polog/handlers/file/rotation/rotator.py
@@ -50,13 +50,7 @@ class Rotator:
         Копируем файл с логами в указанную пользователем папку, переоткрываем файл по старому пути.
         В качестве нового имени файла используем название файла корневого скрипта, с измененным на .log расширением и суффиксом, отображающим текущую дату и время.
         """
-        path = os.path.join(self.to, self.new_filename())
-        unique_path, number = path, 0
-        # Ранее ротированные логи ни в коем случае нельзя перезаписать.
-        while os.path.exists(unique_path):
-            number += 1
-            unique_path = f'{path}.{number}'
-        self.file.move_file(unique_path)
+        self.file.move_file(os.path.join(self.to, self.new_filename()))
 
     def generate_rules(self, source_rules):
         """
-- 
2.43.0


From 9af1113bd5622b5243401e45396f50ee699a67b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:07 +0000
Subject: [PATCH 40/57] fix: a blank directory in a rotation rule means the
 default directory

---
 polog/handlers/file/rotation/rotator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/polog/handlers/file/rotation/rotator.py b/polog/handlers/file/rotation/rotator.py
index 685675b..c01d78e 100644
--- a/polog/handlers/file/rotation/rotator.py
+++ b/polog/handlers/file/rotation/rotator.py
@@ -78,14 +78,13 @@ class Rotator:
         if len(splitted_source) == 1:
             result = None
         elif len(splitted_source) == 2:
-            result = splitted_source[1]
+            result = splitted_source[1].strip()
             if result == '':
                 result = None
         else:
             raise ValueError('The rotation command is incorrectly formatted.')
         if result is None:
             return self.get_standart_destination()
-        result = result.strip()
         return result
 
     def extract_rules_string_from_source(self, source):
-- 
2.43.0


From 029a285d06596ff73a24afd590dbe7b2e2713a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:19 +0000
Subject: [PATCH 41/57] fix: a failure of the file lock does not leave the
 thread lock taken

---
 polog/handlers/file/locks/double_lock.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/polog/handlers/file/locks/double_lock.py b/polog/handlers/file/locks/double_lock.py
index 5d3a4b6..a44e746 100644
--- a/polog/handlers/file/locks/double_lock.py
+++ b/polog/handlers/file/locks/double_lock.py
@@ -21,14 +21,21 @@ class DoubleLock:
         Взять оба лока.
         """
         self.thread_lock.acquire()
-        self.file_lock.acquire()
+        try:
+            self.file_lock.acquire()
+        except BaseException:
+            # Вход в контекст не состоялся, __exit__ вызван не будет.
+            self.thread_lock.release()
+            raise
 
     def __exit__(self, exception_type, exception_value, traceback):
         """
         Отпустить оба лока.
         """
-        self.file_lock.release()
-        self.thread_lock.release()
+        try:
+            self.file_lock.release()
+        finally:
+            self.thread_lock.release()
 
     @staticmethod
     def get_lock_types(lock_type):
-- 
2.43.0


From 9e11818e8fd965c455165aaf2fa3e294645420d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:22 +0000
Subject: [PATCH 42/57] fix: the file lock excludes forked processes from each
 other

---
 polog/handlers/file/locks/file_lock.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/polog/handlers/file/locks/file_lock.py b/polog/handlers/file/locks/file_lock.py
index f6b5ab4..d633584 100644
--- a/polog/handlers/file/locks/file_lock.py
+++ b/polog/handlers/file/locks/file_lock.py
@@ -1,3 +1,5 @@
+import os
+
 from polog.handlers.file.locks.abstract_single_lock import AbstractSingleLock
 
 
@@ -22,13 +24,23 @@ class FileLock(AbstractSingleLock):
             self.off()
         else:
             self.filename = f'{original_file_name}.{lock_file_extension}'
-            self.file = open(self.filename, 'w')
+            self.open_file()
+
+    def open_file(self):
+        """
+        Открываем файл блокировки и запоминаем, в каком процессе это было сделано.
+        """
+        self.file = open(self.filename, 'w')
+        self.process_id = os.getpid()
 
     def acquire(self):
         """
         Взять лок.
         """
         import fcntl
+        # Открытый файл наследуется при форке процесса, и блокировка становится общей с родителем. Поэтому новому процессу нужен свой.
+        if self.process_id != os.getpid():
+            self.open_file()
         fcntl.flock(self.file.fileno(), fcntl.LOCK_EX)
 
     def release(self):
-- 
2.43.0


From e2fb2743af65d6e24f5e303c2ec490671dde38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:47 +0000
Subject: [PATCH 43/57] fix: the connection with the mail server is closed when
 the login or the sending fails

---
 polog/handlers/smtp/smtp_dependency_wrapper.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/polog/handlers/smtp/smtp_dependency_wrapper.py b/polog/handlers/smtp/smtp_dependency_wrapper.py
index e9b6c3c..792be50 100644
--- a/polog/handlers/smtp/smtp_dependency_wrapper.py
+++ b/polog/handlers/smtp/smtp_dependency_wrapper.py
@@ -20,14 +20,22 @@ class SMTPDependencyWrapper:
         При каждой отправке сообщения объект соединения с сервером создается заново.
         """
         self.create_smtp_server()
-        self.send_mail(message)
-        self.quit_from_server()
+        try:
+            self.login()
+            self.send_mail(message)
+        finally:
+            self.quit_from_server()
 
     def create_smtp_server(self):
         """
-        Создание объекта SMTP-сервера и логин.
+        Создание объекта SMTP-сервера.
         """
         self._server = smtplib.SMTP_SSL(self.server, self.port)
+
+    def login(self):
+        """
+        Логинимся на сервере.
+        """
         self._server.login(self.email_from, self.password)
 
     def send_mail(self, message):
-- 
2.43.0


From f75734492301329d6075d19ef3061ce4ea9ab070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:30 +0000
Subject: [PATCH 44/57] fix: letters sent by several threads do not share a
 connection

---
 .../handlers/smtp/smtp_dependency_wrapper.py  | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/polog/handlers/smtp/smtp_dependency_wrapper.py b/polog/handlers/smtp/smtp_dependency_wrapper.py
index 792be50..c6a61a0 100644
--- a/polog/handlers/smtp/smtp_dependency_wrapper.py
+++ b/polog/handlers/smtp/smtp_dependency_wrapper.py
@@ -18,38 +18,38 @@ class SMTPDependencyWrapper:
         """
         Обертка для отправки сообщения.
         При каждой отправке сообщения объект соединения с сервером создается заново.
+        Он не хранится в экземпляре, поскольку письма могут одновременно отправляться из нескольких потоков.
         """
-        self.create_smtp_server()
+        server = self.create_smtp_server()
         try:
-            self.login()
-            self.send_mail(message)
+            self.login(server)
+            self.send_mail(server, message)
         finally:
-            self.quit_from_server()
+            self.quit_from_server(server)
 
     def create_smtp_server(self):
         """
         Создание объекта SMTP-сервера.
         """
-        self._server = smtplib.SMTP_SSL(self.server, self.port)
+        return smtplib.SMTP_SSL(self.server, self.port)
 
-    def login(self):
+    def login(self, server):
         """
         Логинимся на сервере.
         """
-        self._server.login(self.email_from, self.password)
+        server.login(self.email_from, self.password)
 
-    def send_mail(self, message):
+    def send_mail(self, server, message):
         """
         Отправляем сообщение.
         """
-        self._server.sendmail(self.email_from, [self.email_to], message.as_string())
+        server.sendmail(self.email_from, [self.email_to], message.as_string())
 
-    def quit_from_server(self):
+    def quit_from_server(self, server):
         """
         Разлогиниваемся на сервере.
         """
-        if hasattr(self, '_server'):
-            try:
-                self._server.quit()
-            except:
-                pass
+        try:
+            server.quit()
+        except:
+            pass
-- 
2.43.0


From e1fc3c360858466cef5868ca1e7fe44918445d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 45/57] fix: a traceback through a file with spaces in its path
 is formatted without garbling

---
 .../file/base_formatter_fields_extractors.py         | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/polog/handlers/file/base_formatter_fields_extractors.py b/polog/handlers/file/base_formatter_fields_extractors.py
index 6ff0524..ab96fba 100644
--- a/polog/handlers/file/base_formatter_fields_extractors.py
+++ b/polog/handlers/file/base_formatter_fields_extractors.py
@@ -1,3 +1,4 @@
+import re
 import inspect
 import importlib
 
@@ -245,12 +246,11 @@ class BaseFormatterFieldsExtractors:
                 return 'no traceback'
             result = []
             for line in traceback:
-                splitted_line = line.split()
-                path = splitted_line[1]
-                line_num = splitted_line[3]
-                where = splitted_line[5]
-                message = ' '.join(splitted_line[6:])
-                result.append(f'{message} ({path} line {line_num} in {where})')
+                # В пути к файлу могут быть пробелы, поэтому делить строку по ним нельзя.
+                place, _, message = line.strip().partition('\n')
+                path, line_num, where = re.fullmatch(r'File (".*"), line (\d+), in (.*)', place).groups()
+                message = ' '.join(message.split())
+                result.append(f'{message} ({path}, line {line_num}, in {where})')
             full_traceback = '; '.join(result)
             full_traceback = f'traceback: {full_traceback}'
             return full_traceback
-- 
2.43.0


From d925700586105e2dcc2a750c7a65816fe9c1d602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:43 +0000
Subject: [PATCH 46/57] fix: an extra field without a text form does not make
 the whole line fail

---
 polog/handlers/file/base_formatter.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/polog/handlers/file/base_formatter.py b/polog/handlers/file/base_formatter.py
index 2e4cdf7..69167e5 100644
--- a/polog/handlers/file/base_formatter.py
+++ b/polog/handlers/file/base_formatter.py
@@ -133,10 +133,20 @@ class BaseFormatter:
             if field_name not in base:
                 if field_name not in self.FORBIDDEN_EXTRA_FIELDS:
                     if value is not None:
-                        if isinstance(value, str):
-                            base[field_name] = f'{field_name}: "{value}"'
-                        else:
-                            base[field_name] = f'{field_name}: {value}'
+                        base[field_name] = f'{field_name}: {self.get_extra_field_text(value)}'
+
+    def get_extra_field_text(self, value):
+        """
+        Преобразуем значение дополнительного поля в строку. Строки обрамляются кавычками.
+
+        Преобразование объекта в строку - пользовательский код, из-за ошибки в нем весь лог не должен теряться.
+        """
+        try:
+            if isinstance(value, str):
+                return f'"{value}"'
+            return f'{value}'
+        except Exception:
+            return f'<{type(value).__name__} object>'
 
     def format(self, data):
         """
-- 
2.43.0


From 06f36d0a00144285fd37a447ec68a62df790fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:36 +0000
Subject: [PATCH 47/57] fix: the weak dictionary survives deaths of objects in
 the middle of an iteration and forgets dead pairs stored by an equal key

---
 .../wrappers/weak_linked/dictionary.py        | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/polog/data_structures/wrappers/weak_linked/dictionary.py b/polog/data_structures/wrappers/weak_linked/dictionary.py
index db7dff1..a65e7f6 100644
--- a/polog/data_structures/wrappers/weak_linked/dictionary.py
+++ b/polog/data_structures/wrappers/weak_linked/dictionary.py
@@ -1,6 +1,5 @@
 import weakref
 from threading import RLock
-from contextlib import suppress
 
 
 class LockedWeakKeyValueDictionary:
@@ -24,8 +23,7 @@ class LockedWeakKeyValueDictionary:
         weak_key = weakref.ref(key)
         with self.lock:
             def finalizer(rf):
-                with suppress(TypeError):
-                    del self[weak_key()]
+                self.delete_dead_value(rf, weak_key())
             self.data[key] = weakref.ref(value, finalizer)
 
     def __getitem__(self, key):
@@ -50,7 +48,7 @@ class LockedWeakKeyValueDictionary:
         Строковая репрезентация словаря.
         """
         with self.lock:
-            local_data = ', '.join([f'{key}: ' + str(value()) if not isinstance(value(), str) else f'"{value}"' for key, value in self.data.items()])
+            local_data = ', '.join([f'{key}: {value}' if not isinstance(value, str) else f'{key}: "{value}"' for key, value in self.items()])
             if not local_data:
                 return f'<{type(self).__name__} object (empty)>'
             return f'<{type(self).__name__} object with data: {{{local_data}}}>'
@@ -80,6 +78,22 @@ class LockedWeakKeyValueDictionary:
         for key in self.keys():
             yield key
 
+    def delete_dead_value(self, weak_value, key):
+        """
+        Удаляем пару, значение которой умерло.
+
+        Ключ, с которым значение записывали, мог умереть раньше значения, если в словаре уже был равный ему ключ, тогда пару приходится искать.
+        """
+        with self.lock:
+            if key is None or self.data.get(key) is not weak_value:
+                for weak_key in self.data.keyrefs():
+                    key = weak_key()
+                    if key is not None and self.data.get(key) is weak_value:
+                        break
+                else:
+                    return
+            del self.data[key]
+
     def get(self, key):
         """
         Получаем значение по ключу.
@@ -93,25 +107,29 @@ class LockedWeakKeyValueDictionary:
         """
         Итерируемся по ключам словаря.
         """
-        return self.data.keys()
+        for key, _ in self.items():
+            yield key
 
     def values(self):
         """
         Итерируемся по значениям словаря.
         """
-        for value in self.data.values():
-            value = value()
-            if value is not None:
-                yield value
+        for _, value in self.items():
+            yield value
 
     def items(self):
         """
         Итерируемся по парам из ключей и значений.
         """
-        for key in self.keys():
-            value = self.get(key)
-            if value is not None:
-                yield key, value
+        with self.lock:
+            weak_keys = self.data.keyrefs()
+        # По ходу итерации объекты могут умирать, а пары с ними - исчезать из словаря, поэтому итерируемся по копии.
+        for weak_key in weak_keys:
+            key = weak_key()
+            if key is not None:
+                value = self.get(key)
+                if value is not None:
+                    yield key, value
 
     def pop(self, key, *defaults):
         """
-- 
2.43.0


From d2cd71e536554a27ce2727d36b443c99ef50721e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:36 +0000
Subject: [PATCH 48/57] fix: a worker that waits for the next record does not
 keep the previous one alive

---
 polog/core/engine/real_engines/multithreaded/worker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/polog/core/engine/real_engines/multithreaded/worker.py b/polog/core/engine/real_engines/multithreaded/worker.py
index 99e2fea..aa8ebda 100644
--- a/polog/core/engine/real_engines/multithreaded/worker.py
+++ b/polog/core/engine/real_engines/multithreaded/worker.py
@@ -45,8 +45,11 @@ class Worker:
                 if stopped_from_flag:
                     break
                 self.do_anything(log)
+                # Ожидание следующего лога может длиться сколько угодно, на это время нельзя продлевать жизнь предыдущему.
+                del log
                 self.queue.task_done()
             except Exception as e:
+                log = None
                 self.queue.task_done()
 
     def start_thread(self):
-- 
2.43.0


From 4267696943c7a209977f557c68e37664fdcf02ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:57 +0000
Subject: [PATCH 49/57] fix: callables with required keyword-only arguments or
 other optional ones are not taken for handlers

---
 polog/core/utils/signature_matcher.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/polog/core/utils/signature_matcher.py b/polog/core/utils/signature_matcher.py
index c49d2ac..4fffd31 100644
--- a/polog/core/utils/signature_matcher.py
+++ b/polog/core/utils/signature_matcher.py
@@ -43,6 +43,7 @@ class SignatureMatcher:
         result *= self.prove_number_of_position_args(parameters)
         result *= self.prove_number_of_named_args(parameters)
         result *= self.prove_names_of_named_args(parameters)
+        result *= self.prove_no_required_keyword_args(parameters)
         return bool(result)
 
     def prove_is_args(self, parameters):
@@ -61,24 +62,30 @@ class SignatureMatcher:
         """
         Проверка, что количество позиционных аргументов совпадает с ожидаемым.
         """
-        return self.number_of_position_args == len([parameter for parameter in parameters if (parameter.kind == parameter.POSITIONAL_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default == parameter.empty])
+        return self.number_of_position_args == len([parameter for parameter in parameters if (parameter.kind == parameter.POSITIONAL_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default is parameter.empty])
 
     def prove_number_of_named_args(self, parameters):
         """
         Проверка количества именованных аргументов.
         """
-        return self.number_of_named_args == len([parameter for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default != parameter.empty])
+        return self.number_of_named_args == len([parameter for parameter in parameters if parameter.default is not parameter.empty])
 
     def prove_names_of_named_args(self, parameters):
         """
         Проверка, что имена именованных аргументов совпадают с ожидаемыми.
         """
-        names_of_parameters = [parameter.name for parameter in parameters if (parameter.kind == parameter.KEYWORD_ONLY or parameter.kind == parameter.POSITIONAL_OR_KEYWORD) and parameter.default != parameter.empty]
+        names_of_parameters = [parameter.name for parameter in parameters if parameter.default is not parameter.empty]
         result = True
         for name in self.names_of_named_args:
             result *= (name in names_of_parameters)
         return result
 
+    def prove_no_required_keyword_args(self, parameters):
+        """
+        Проверка, что нет аргументов, которые обязательно передавать по имени. Ни один "слепок" таким функциям не соответствует.
+        """
+        return not [parameter for parameter in parameters if parameter.kind == parameter.KEYWORD_ONLY and parameter.default is parameter.empty]
+
     @classmethod
     def is_handler(cls, function, raise_exception=True):
         """
-- 
2.43.0


From 891fbfdb692a069074c694d803d18d3b13f55ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:36 +0000
Subject: [PATCH 50/57] fix: lock the tree of handlers while its nodes are
 projected into another tree

---
 polog/data_structures/trees/named_tree/projector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/polog/data_structures/trees/named_tree/projector.py b/polog/data_structures/trees/named_tree/projector.py
index c3d4dd3..4373bcd 100644
--- a/polog/data_structures/trees/named_tree/projector.py
+++ b/polog/data_structures/trees/named_tree/projector.py
@@ -26,8 +26,9 @@ class TreeProjector:
         for path in paths:
             if path == self.tree.keys_separator and not_to_root:
                 raise ValueError('Dangerous intersection of different versions of trees. This happens when trying to insert a node into the root of the tree.')
-            node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
-            node_to_put.projected = True
-            new_tree = new_tree.put_node(path, node_to_put)
+            with self.tree.lock:
+                node_to_put = self.tree.search_or_create_node(self.tree.get_converted_keys(path))
+                node_to_put.projected = True
+                new_tree = new_tree.put_node(path, node_to_put)
 
         return new_tree
-- 
2.43.0


From beec0d2f2efb253b13021a565d5cc25b4f238d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:36 +0000
Subject: [PATCH 51/57] fix: singletons constructed by several threads at once
 stay single and are initialized once

---
 polog/core/utils/read_only_singleton.py | 3 +++
 polog/handlers/memory/saver.py          | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/polog/core/utils/read_only_singleton.py b/polog/core/utils/read_only_singleton.py
index c16da11..aa63d25 100644
--- a/polog/core/utils/read_only_singleton.py
+++ b/polog/core/utils/read_only_singleton.py
@@ -14,6 +14,9 @@ class ReadOnlySingleton:
         После чего подменяется объявленной внутри него же функцией __new__(), которая всегда возвращает экземпляр без дополнительных проверок.
         """
         with cls.create_lock:
+            if 'instance' in vars(cls):
+                # Экземпляр создал другой поток, пока этот ждал на локе.
+                return cls.instance
             def __new__(cls, **kwargs):
                 return cls.instance
             cls.instance = super().__new__(cls)
diff --git a/polog/handlers/memory/saver.py b/polog/handlers/memory/saver.py
index b27ac30..00fc9f5 100644
--- a/polog/handlers/memory/saver.py
+++ b/polog/handlers/memory/saver.py
@@ -15,7 +15,7 @@ class memory_saver(ReadOnlySingleton, BaseHandler):
     all_semaphore = BoundedSemaphore(value=1)
 
     def __init__(self):
-        with Lock():
+        with self.all_semaphore:
             if not hasattr(self, 'inited'):
                 super().__init__()
                 self.all = []
-- 
2.43.0


From e37d476b7efa33093df0738c1719216b7abf2b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 52/57] fix: the time limit at the exit of the program does not
 depend on the handling of SIGINT

---
 polog/core/engine/engine.py | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/polog/core/engine/engine.py b/polog/core/engine/engine.py
index a30a08c..1fb7cff 100644
--- a/polog/core/engine/engine.py
+++ b/polog/core/engine/engine.py
@@ -1,10 +1,9 @@
 import atexit
-from threading import Lock
+from threading import Lock, Thread, TIMEOUT_MAX
 
 from polog.core.stores.settings.settings_store import SettingsStore
 from polog.core.utils.read_only_singleton import ReadOnlySingleton
 from polog.core.utils.exception_escaping import exception_escaping
-from polog.core.utils.time_limit import time_limit
 from polog.core.engine.real_engines.multithreaded.worker import WorkerThread
 from polog.core.engine.real_engines.singlethreaded.engine import SingleThreadedRealEngine
 from polog.errors import StoppedEngineError
@@ -154,11 +153,31 @@ class Engine(ReadOnlySingleton):
         """
         @atexit.register
         @exception_escaping
-        @time_limit(lambda: self.settings['max_delay_before_exit'])
         # Учет данной функции при расчете покрытия тестами отключен, поскольку для его проверки используется отдельный процесс, который, к сожалению, не учитывается сборщиком статистики.
         def checker(): # pragma: no cover
-            self.block()
-            self.stop()
-            # Другие функции, зарегистрированные через atexit, тоже могут писать логи. Воркеров к этому моменту уже нет, поэтому запись идет синхронно.
-            self.real_engine = SingleThreadedRealEngine(self.settings)
-            self.unlock()
+            # Ожидание идет в отдельном потоке, чтобы ограничение времени не зависело от того, как в программе обрабатывается SIGINT.
+            thread = Thread(target=self.finish, daemon=True)
+            thread.start()
+            try:
+                thread.join(min(self.settings['max_delay_before_exit'] or TIMEOUT_MAX, TIMEOUT_MAX))
+            finally:
+                if thread.is_alive():
+                    self.replace_stopped()
+
+    def finish(self):
+        """
+        Остановка движка перед завершением программы.
+        """
+        self.block()
+        self.stop()
+        self.replace_stopped()
+        self.unlock()
+
+    def replace_stopped(self):
+        """
+        Подмена остановленного движка при завершении программы.
+
+        Другие функции, зарегистрированные через atexit, тоже могут писать логи. Воркеров к этому моменту уже нет, поэтому запись идет синхронно.
+        """
+        self.real_engine = SingleThreadedRealEngine(self.settings)
+        self.write = self._new_write
-- 
2.43.0


From 1df6706118945cb8fd58d9a5b03226ada4cd97cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 53/57] fix: a context manager that failed to start does not
 stay among the active ones

---
 polog/loggers/partial.py | 15 ++++++++++-----
 polog/loggers/router.py  | 14 ++++++++++----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/polog/loggers/partial.py b/polog/loggers/partial.py
index a6f438d..08283c5 100644
--- a/polog/loggers/partial.py
+++ b/polog/loggers/partial.py
@@ -46,11 +46,16 @@ class RouterPartial:
         Вход в контекстный менеджер. По факту проксирует вход в контекстный менеджер от роутера.
         """
         result = self.item.__enter__()
-        result(**self.kwargs)
-        if self.to_calling_before_enter is not None:
-            method_name, args, kwargs = self.to_calling_before_enter
-            attribute = getattr(result, method_name)
-            attribute(*args, **kwargs)
+        try:
+            result(**self.kwargs)
+            if self.to_calling_before_enter is not None:
+                method_name, args, kwargs = self.to_calling_before_enter
+                attribute = getattr(result, method_name)
+                attribute(*args, **kwargs)
+        except Exception:
+            # Войти в контекст не удалось, значит, выхода из него не будет. Он не должен остаться в стеке и подменить собой внешний.
+            self.item._pop_context()
+            raise
         return result
 
     def __exit__(self, exception_type, exception_value, traceback_instance):
diff --git a/polog/loggers/router.py b/polog/loggers/router.py
index 3e3236e..359de39 100644
--- a/polog/loggers/router.py
+++ b/polog/loggers/router.py
@@ -139,16 +139,22 @@ class Router:
         """
         Выход из контекста.
         """
+        finalizer = self._pop_context()
+
+        result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
+        return result
+
+    def _pop_context(self):
+        """
+        Снимаем со стека состояние самого внутреннего из контекстов и возвращаем его.
+        """
         finalizers = contexts.get(None)
 
         if finalizers is None:
             raise IncorrectUseOfTheContextManagerError()
 
-        finalizer = finalizers[-1]
         contexts.set(finalizers[:-1] or None)
-
-        result = finalizer.__exit__(exception_type, exception_value, traceback_instance)
-        return result
+        return finalizers[-1]
 
 
 log = Router()
-- 
2.43.0


From 3cf92df7e35560561aa69a43eb8ec58f98bc8de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 54/57] fix: a message may be an instance of a subclass of str

---
 polog/loggers/handle/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 29188ec..9a91936 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -27,7 +27,7 @@ class AbstractHandleLogger:
         'function': lambda x: type(x) is str or callable(x), # Функция, событие в которой логируется. Ожидается либо сам объект функции, либо строка с ее названием.
         'module': lambda x: type(x) is str, # Модуль, событие в котором логируется. Ожидается только название.
         'class': lambda x: type(x) is str or inspect.isclass(x), # Название класса, событие в котором логируется, либо сам этот класс.
-        'message': lambda x: type(x) is str, # Сообщение лога, любая строка.
+        'message': lambda x: isinstance(x, str), # Сообщение лога, любая строка.
         'exception': lambda x: type(x) is str or isinstance(x, Exception), # Экземпляр перехваченного пользователем исключения или его название. Если передается экземпляр, поля с названием исключения и его сообщением будут заполнены автоматически.
         'vars': lambda x: type(x) is str, # Ожидается любая строка, но для совместимости формата с автоматическими логами рекомендуется передавать аргументы в функцию polog.utils.json_vars(), а уже то, что она вернет, передавать сюда в качестве аргумента.
         'success': lambda x: type(x) is bool, # Успех / провал операции, которая логируется.
-- 
2.43.0


From f678a97fe53ee28e509d6b99a02abb3cb6d7e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:38 +0000
Subject: [PATCH 55/57] fix: decorators of classes skip methods of built-in
 base types and attributes with their own binding logic

---
 polog/core/utils/decorate_class_attribute.py | 13 ++++++++++++-
 polog/loggers/auto/class_logger.py           |  4 ++--
 polog/unlog.py                               |  4 ++--
 3 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/polog/core/utils/decorate_class_attribute.py b/polog/core/utils/decorate_class_attribute.py
index d833b4d..83da0a0 100644
--- a/polog/core/utils/decorate_class_attribute.py
+++ b/polog/core/utils/decorate_class_attribute.py
@@ -1,4 +1,6 @@
 import inspect
+import types
+from functools import partialmethod
 
 
 def decorate_class_attribute(Class, name, decorator):
@@ -6,6 +8,7 @@ def decorate_class_attribute(Class, name, decorator):
     Подменяем атрибут класса его задекорированной версией.
 
     Декорируется всегда сама функция, а тип связывания (обычный метод, classmethod или staticmethod) остается прежним. Прочие вызываемые объекты не получают self, поэтому после декорирования они становятся статическими методами.
+    Если у атрибута собственная логика связывания (к примеру, это functools.singledispatchmethod), при подмене она была бы потеряна, поэтому он остается как есть.
     """
     bound_attribute = getattr(Class, name)
     attribute = inspect.getattr_static(Class, name)
@@ -16,7 +19,15 @@ def decorate_class_attribute(Class, name, decorator):
         result = staticmethod(decorator(attribute.__func__))
     elif not hasattr(type(attribute), '__get__'):
         result = staticmethod(decorator(attribute))
-    else:
+    elif bound_attribute is attribute or isinstance(attribute, partialmethod):
         result = decorator(bound_attribute)
+    else:
+        return
 
     setattr(Class, name, result)
+
+def is_builtin_method(Class, name):
+    """
+    Проверка, что метод унаследован от встроенного типа данных (dict, Exception и т. д.) и написан не на Python. Задекорировать такие методы невозможно, поскольку на них нельзя создать слабую ссылку.
+    """
+    return isinstance(inspect.getattr_static(Class, name), (types.MethodDescriptorType, types.ClassMethodDescriptorType))
diff --git a/polog/loggers/auto/class_logger.py b/polog/loggers/auto/class_logger.py
index 44d11ae..742ad72 100644
--- a/polog/loggers/auto/class_logger.py
+++ b/polog/loggers/auto/class_logger.py
@@ -2,7 +2,7 @@ import inspect
 
 from polog.loggers.auto.function_logger import flog
 from polog.core.stores.registering_functions import RegisteringFunctions
-from polog.core.utils.decorate_class_attribute import decorate_class_attribute
+from polog.core.utils.decorate_class_attribute import decorate_class_attribute, is_builtin_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 
 
@@ -63,7 +63,7 @@ class ClassLogger:
         Семантика тут такая: если пользователь не указал конкретно имена методов, которые нужно логировать - логиируем весь класс. Иначе - только выбранные методы.
         """
         if not len(methods) or (len(methods) == 1 and inspect.isclass(methods[0])):
-            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and not inspect.isclass(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__'))]
+            methods = [func for func in dir(Class) if callable(getattr(Class, func)) and not inspect.isclass(getattr(Class, func)) and (not func.startswith('__') and not func.endswith('__')) and not is_builtin_method(Class, func)]
         else:
             methods = [x for x in methods]
         return methods
diff --git a/polog/unlog.py b/polog/unlog.py
index d03c6b3..2707929 100644
--- a/polog/unlog.py
+++ b/polog/unlog.py
@@ -6,7 +6,7 @@ from typing import Optional
 from inspect import iscoroutinefunction
 
 from polog.core.stores.registering_functions import RegisteringFunctions
-from polog.core.utils.decorate_class_attribute import decorate_class_attribute
+from polog.core.utils.decorate_class_attribute import decorate_class_attribute, is_builtin_method
 from polog.errors import IncorrectUseOfTheDecoratorError
 from polog.core.stores.settings.settings_store import SettingsStore
 
@@ -34,7 +34,7 @@ class UnlogDecorator:
                 for function_name in dir(obj):
                     if not function_name.startswith('__'):
                         maybe_method = getattr(obj, function_name)
-                        if callable(maybe_method) and not isclass(maybe_method):
+                        if callable(maybe_method) and not isclass(maybe_method) and not is_builtin_method(obj, function_name):
                             decorate_class_attribute(obj, function_name, lambda function: self.unlog_function(function, full))
                 return obj
             elif callable(obj):
-- 
2.43.0


From 9356151d948fca28ea885ff6a154231359046df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:06 +0000
Subject: [PATCH 56/57] fix: the text of an argument is a plain str even if its
 __str__ returns an instance of a subclass

---
 polog/utils/json_vars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polog/utils/json_vars.py b/polog/utils/json_vars.py
index 39297ef..76749da 100644
--- a/polog/utils/json_vars.py
+++ b/polog/utils/json_vars.py
@@ -16,7 +16,8 @@ def get_string_item(item):
     Представление любого объекта в виде строки. Метод .__str__() объекта - пользовательский код, ошибки в нем не должны аффектить основную программу.
     """
     try:
-        value = str(item)
+        # Метод .__str__() может вернуть и экземпляр наследника str, а здесь нужна именно строка.
+        value = str.__str__(str(item))
     except Exception:
         value = f'<{type(item).__name__} object>'
     return {'value': value, 'type': type(item).__name__}
-- 
2.43.0


From e22ea1764c0d96a7dc0dd42dfeb480f5016d0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:41 +0000
Subject: [PATCH 57/57] fix: a positional argument that cannot be compared does
 not break a log with a duplicate

---
 polog/loggers/handle/abstract.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/polog/loggers/handle/abstract.py b/polog/loggers/handle/abstract.py
index 9a91936..cb920ba 100644
--- a/polog/loggers/handle/abstract.py
+++ b/polog/loggers/handle/abstract.py
@@ -151,12 +151,24 @@ class AbstractHandleLogger:
                     continue
             # Проверяем на коллизии.
             if key in destination and raise_if_collision:
-                if destination[key] != value:
+                if not self._is_same(destination[key], value):
                     self._maybe_raise(ValueError, f'Duplicate information in the "{key}" field.')
                     continue
             # Все проверки пройдены - сохраняем результат.
             not_none_to_dict(destination, key, value)
 
+    @staticmethod
+    def _is_same(first, second):
+        """
+        Проверяем, что повторно переданное значение не отличается от первого.
+
+        Позиционный аргумент может быть каким угодно объектом, в том числе таким, который не умеет сравниваться с другими. Такие объекты считаем разными.
+        """
+        try:
+            return not (first != second)
+        except Exception:
+            return False
+
     def _position_args_to_dict(self, position_args, destination, channels, raise_if_empty=False, raise_if_very_busy=True):
         """
         Преобразуем позиционные аргументы исходной функции в именные, и засовываем их в словарь, где имена аргументов будут служить ключами.
-- 
2.43.0

