From f5c9d705ad0997a78c4dab43dbe61d75f846b62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 01/19] fix: C proxy answers __index__ only after asking its
 checker

---
 src/zope/security/_proxy.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index d38eaeb..0dc80df 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -71,6 +71,7 @@ DECLARE_STRING(op_ifloordiv);
 DECLARE_STRING(op_ilshift);
 DECLARE_STRING(op_imod);
 DECLARE_STRING(op_imul);
+DECLARE_STRING(op_index);
 DECLARE_STRING(op_int);
 DECLARE_STRING(op_invert);
 DECLARE_STRING(op_ior);
@@ -562,6 +563,7 @@ proxy_bool(PyObject *self)
 UNOP(invert, PyNumber_Invert)
 UNOP(int, call_int)
 UNOP(float, call_float)
+UNOP(index, PyNumber_Index)
 
 INPLACE(add, PyNumber_InPlaceAdd)
 INPLACE(sub, PyNumber_InPlaceSubtract)
@@ -722,6 +724,7 @@ proxy_as_number = {
     proxy_truediv,                  /* nb_true_divide */
     proxy_ifloordiv,                /* nb_inplace_floor_divide */
     proxy_itruediv,                 /* nb_inplace_true_divide */
+    proxy_index,                    /* nb_index */
 };
 
 static PySequenceMethods
@@ -891,6 +894,7 @@ if((str_op_##S = INTERN("__" #S "__")) == NULL) return MOD_ERROR_VAL
   INIT_STRING_OP(ilshift);
   INIT_STRING_OP(imod);
   INIT_STRING_OP(imul);
+  INIT_STRING_OP(index);
   INIT_STRING_OP(int);
   INIT_STRING_OP(invert);
   INIT_STRING_OP(ior);
-- 
2.43.0


From a6da915839b6da0b845400f90f22c044d499b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:03 +0000
Subject: [PATCH 02/19] fix: C checker decides names it cannot encode without
 crashing or leaking

---
 src/zope/security/_zope_security_checker.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 23d7fb9..c09dda0 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -22,9 +22,6 @@ static PyObject *ForbiddenAttribute, *Unauthorized;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -140,6 +137,7 @@ static int
 Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 {
   PyObject *permission=NULL;
+  const char *sname=NULL;
   int operator;
 
 /*         permission = self._permission_func(name) */
@@ -160,9 +158,18 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     }
 
 
-  operator = (IS_STRING(name)
-              && MAKE_STRING(name)[0] == '_'
-              && MAKE_STRING(name)[1] == '_');
+  if (IS_STRING(name))
+    {
+      sname = PyUnicode_AsUTF8(name);
+      if (sname == NULL)
+        {
+          /* A name that cannot be encoded is no operator name. */
+          if (! PyErr_ExceptionMatches(PyExc_UnicodeError))
+            return -1;
+          PyErr_Clear();
+        }
+    }
+  operator = (sname != NULL && sname[0] == '_' && sname[1] == '_');
 
   if (operator)
     {
@@ -178,7 +185,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
 /*             __traceback_supplement__ = (TracebackSupplement, object) */
 /*             raise ForbiddenAttribute, (name, object) */
 
-      if (strcmp("__iter__", MAKE_STRING(name)) == 0
+      if (PyUnicode_CompareWithASCIIString(name, "__iter__") == 0
           && ! PyObject_HasAttr(object, name))
         /* We want an attr error if we're asked for __iter__ and we don't
            have it. We'll get one by allowing the access. */
-- 
2.43.0


From cfc7c8f835d0113e5e3f56228982e3103679d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 03/19] fix: C proxy names odd classes in its generic text
 without crashing or leaking

---
 src/zope/security/_proxy.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 0dc80df..4e33e58 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -23,9 +23,6 @@ static PyObject *__class__str = 0, *__name__str = 0, *__module__str = 0;
 
 #define IS_STRING PyUnicode_Check
 
-#define MAKE_STRING(name) PyBytes_AS_STRING( \
-        PyUnicode_AsUTF8String(name))
-
 #define FROM_STRING PyUnicode_FromString
 
 #define FROM_STRING_FORMAT PyUnicode_FromFormat
@@ -385,7 +382,6 @@ static PyObject *
 default_repr(PyObject *object)
 {
   PyObject *klass, *name = 0, *module = 0, *result = 0;
-  char *sname, *smodule;
 
   klass = PyObject_GetAttr(object, __class__str);
   if (klass == NULL)
@@ -394,22 +390,16 @@ default_repr(PyObject *object)
   name  = PyObject_GetAttr(klass, __name__str);
   if (name == NULL)
     goto err;
-  sname = MAKE_STRING(name);
-  if (sname == NULL)
-    goto err;
 
   module = PyObject_GetAttr(klass, __module__str);
   if (module != NULL) {
-    smodule = MAKE_STRING(module);
-    if (smodule == NULL)
-      goto err;
-    result = FROM_STRING_FORMAT("<security proxied %s.%s instance at %p>",
-                                 smodule, sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S.%S instance at %p>",
+                                 module, name, object);
   }
   else {
     PyErr_Clear();
-    result = FROM_STRING_FORMAT("<security proxied %s instance at %p>",
-                                 sname, object);
+    result = FROM_STRING_FORMAT("<security proxied %S instance at %p>",
+                                 name, object);
   }
 
  err:
-- 
2.43.0


From 38325fdaeb3005e1a12a111133170539dbdad336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:45 +0000
Subject: [PATCH 04/19] fix: C checker takes a permission of None as no
 declaration

---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index c09dda0..92f4ca6 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -145,7 +145,7 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
     permission = PyDict_GetItem(self->getperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
@@ -237,7 +237,7 @@ Checker_check_setattr(Checker *self, PyObject *args)
     permission = PyDict_GetItem(self->setperms, name);
 
 /*         if permission is not None: */
-  if (permission != NULL)
+  if (permission != NULL && permission != Py_None)
     {
 /*             if permission is CheckerPublic: */
 /*                 return # Public */
-- 
2.43.0


From a2cfac3f588c4aab13c7877278bf0f661d6e767a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:56 +0000
Subject: [PATCH 05/19] fix: next() of a C proxy around a non-iterator raises
 instead of crashing

---
 src/zope/security/_proxy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zope/security/_proxy.c b/src/zope/security/_proxy.c
index 4e33e58..a4053f6 100644
--- a/src/zope/security/_proxy.c
+++ b/src/zope/security/_proxy.c
@@ -351,6 +351,12 @@ proxy_iternext(SecurityProxy *self)
 
   if (check(self, str_check_getattr, str___next__) >= 0)
     {
+      if (! PyIter_Check(self->proxy.proxy_object))
+        {
+          PyErr_Format(PyExc_TypeError, "'%.200s' object is not an iterator",
+                       Py_TYPE(self->proxy.proxy_object)->tp_name);
+          return NULL;
+        }
       result = PyIter_Next(self->proxy.proxy_object);
       PROXY_RESULT(self, result);
     }
-- 
2.43.0


From 18f13980204c5ff2139ce6ad7c3a159e596f9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:06 +0000
Subject: [PATCH 06/19] fix: deleting an item of a C checker raises instead of
 crashing

---
 src/zope/security/_zope_security_checker.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 92f4ca6..f6a9622 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -140,6 +140,14 @@ Checker_check_int(Checker *self, PyObject *object, PyObject *name)
   const char *sname=NULL;
   int operator;
 
+  if (name == NULL)
+    {
+      /* The item-assignment slot is also called for "del checker[object]". */
+      PyErr_SetString(PyExc_TypeError,
+                      "a checker does not support item deletion");
+      return -1;
+    }
+
 /*         permission = self._permission_func(name) */
   if (self->getperms)
     permission = PyDict_GetItem(self->getperms, name);
-- 
2.43.0


From 5ef040b2c7426bd13738eb5cbcd0db751bad29a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:17 +0000
Subject: [PATCH 07/19] fix: C checker keeps the permission alive while the
 interaction decides

---
 src/zope/security/_zope_security_checker.c | 23 +++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index f6a9622..d9ae5ad 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -98,33 +98,42 @@ static int
 checkPermission(PyObject *permission, PyObject *object, PyObject *name)
 {
       PyObject *interaction, *r;
-      int i;
+      int i, res=-1;
+
+      /* The interaction may run code that drops the declaration. */
+      Py_INCREF(permission);
 
 /*          if thread_local.interaction.checkPermission(permission, object): */
 /*                 return */
       interaction = PyObject_GetAttr(thread_local, str_interaction);
       if (interaction == NULL)
-        return -1;
+        goto done;
       r = PyObject_CallMethodObjArgs(interaction, str_checkPermission,
                                      permission, object, NULL);
       Py_DECREF(interaction);
       if (r == NULL)
-        return -1;
+        goto done;
       i = PyObject_IsTrue(r);
       Py_DECREF(r);
       if (i < 0)
-        return -1;
+        goto done;
       if (i)
-        return 0;
+        {
+          res = 0;
+          goto done;
+        }
 /*             else: */
 /*                 __traceback_supplement__ = (TracebackSupplement, object) */
 /*                 raise Unauthorized(object, name, permission) */
       r = Py_BuildValue("OOO", object, name, permission);
       if (r == NULL)
-        return -1;
+        goto done;
       PyErr_SetObject(Unauthorized, r);
       Py_DECREF(r);
-      return -1;
+
+ done:
+      Py_DECREF(permission);
+      return res;
 }
 
 
-- 
2.43.0


From 4339f4b5618ff026e880d60c7037c28b3256a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:05 +0000
Subject: [PATCH 08/19] fix: initializing a C checker again releases the tables
 it had

---
 src/zope/security/_zope_security_checker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index d9ae5ad..956e02f 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -397,9 +397,9 @@ Checker_init(Checker *self, PyObject *args, PyObject *kwds)
     return -1;
 
   Py_INCREF(getperms);
-  self->getperms = getperms;
+  Py_XSETREF(self->getperms, getperms);
   Py_XINCREF(setperms);
-  self->setperms = setperms;
+  Py_XSETREF(self->setperms, setperms);
 
   return 0;
 }
-- 
2.43.0


From 0c2a8eb77f14ce99c00664af3645ce2a5ca570a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:15 +0000
Subject: [PATCH 09/19] fix: C selectChecker passes on the failure of the
 exception test

---
 src/zope/security/_zope_security_checker.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/zope/security/_zope_security_checker.c b/src/zope/security/_zope_security_checker.c
index 956e02f..7b55b4a 100644
--- a/src/zope/security/_zope_security_checker.c
+++ b/src/zope/security/_zope_security_checker.c
@@ -544,11 +544,16 @@ selectChecker(PyObject *ignored, PyObject *object)
 /*     if checker is _defaultChecker and isinstance(object, Exception): */
 /*         return None */
 
-  if (checker == _defaultChecker
-      && PyObject_IsInstance(object, PyExc_Exception))
+  if (checker == _defaultChecker)
     {
-      Py_INCREF(Py_None);
-      return Py_None;
+      int is_exception = PyObject_IsInstance(object, PyExc_Exception);
+      if (is_exception < 0)
+        return NULL;
+      if (is_exception)
+        {
+          Py_INCREF(Py_None);
+          return Py_None;
+        }
     }
 
 /*     while not isinstance(checker, Checker): */
-- 
2.43.0


From 58fdedc3c7e512392e3a9e36837db96680d9acbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:36 +0000
Subject: [PATCH 10/19] fix: Python proxy protects comparison results other
 than True and False

---
 src/zope/security/proxy.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 66a4cb7..9caeced 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -55,6 +55,14 @@ def _check_name_inplace(meth):
     return functools.update_wrapper(_wrapper, meth)
 
 
+def _wrap_comparison(proxy, result):
+    # Like the C implementation: only the real truth values go unprotected.
+    if result is True or result is False:
+        return result
+    checker = super(PyProxyBase, proxy).__getattribute__('_checker')
+    return checker.proxy(result)
+
+
 def _fmt_address(obj):
     # Try to replicate PyString_FromString("%p", obj), which actually uses
     # the platform sprintf(buf, "%p", obj), which we cannot access from Python
@@ -177,32 +185,32 @@ class ProxyPy(PyProxyBase):
     def __lt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped < other
+        return _wrap_comparison(self, wrapped < other)
 
     def __le__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped <= other
+        return _wrap_comparison(self, wrapped <= other)
 
     def __eq__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped == other
+        return _wrap_comparison(self, wrapped == other)
 
     def __ne__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped != other
+        return _wrap_comparison(self, wrapped != other)
 
     def __ge__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped >= other
+        return _wrap_comparison(self, wrapped >= other)
 
     def __gt__(self, other):
         # no check
         wrapped = super().__getattribute__('_wrapped')
-        return wrapped > other
+        return _wrap_comparison(self, wrapped > other)
 
     def __hash__(self):
         # no check
-- 
2.43.0


From cd8e6841d0a9748f16f734ad454de78ffe1a9a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:46 +0000
Subject: [PATCH 11/19] fix: Python proxy never takes on the result of an
 in-place operator

---
 src/zope/security/proxy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 9caeced..b347176 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -17,6 +17,7 @@ Helper functions for proxies.
 .. seealso:: :ref:`proxy-known-issues`
 """
 import functools
+import operator
 import sys
 
 from zope.proxy import PyProxyBase
@@ -40,18 +41,17 @@ def _check_name(meth, wrap_result=True):
 
 def _check_name_inplace(meth):
     name = meth.__name__
+    operation = getattr(operator, name)
 
     def _wrapper(self, *args, **kw):
         wrapped = super(PyProxyBase, self).__getattribute__('_wrapped')
         checker = super(PyProxyBase, self).__getattribute__('_checker')
         checker.check(wrapped, name)
-        w_meth = getattr(wrapped, name, None)
-        if w_meth is not None:
-            # The proxy object cannot change; we are modifying in place.
-            self._wrapped = w_meth(*args, **kw)
+        res = operation(wrapped, *args, **kw)
+        if res is wrapped:
+            # Really carried out in place: keep using this proxy.
             return self
-        x_name = '__%s__' % name[3:-2]
-        return ProxyPy(getattr(wrapped, x_name)(*args, **kw), checker)
+        return checker.proxy(res)
     return functools.update_wrapper(_wrapper, meth)
 
 
-- 
2.43.0


From 7cf5402a9c56b720ac4a27e5530c79632a3140eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:24 +0000
Subject: [PATCH 12/19] fix: object and checker of a Python proxy cannot be
 replaced

---
 src/zope/security/proxy.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index b347176..73ad7d3 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -88,16 +88,15 @@ class ProxyPy(PyProxyBase):
     __slots__ = ('_wrapped', '_checker')
 
     def __new__(cls, value, checker):
-        inst = super().__new__(cls)
-        inst._wrapped = value
-        inst._checker = checker
+        # The setters of this class refuse these names for every caller.
+        inst = object.__new__(cls)
+        object.__setattr__(inst, '_wrapped', value)
+        object.__setattr__(inst, '_checker', checker)
         return inst
 
     def __init__(self, value, checker):
         if checker is None:
             raise ValueError('checker may now be None')
-        self._wrapped = value
-        self._checker = checker
 
     # Attribute protocol
     def __getattribute__(self, name):
@@ -168,7 +167,7 @@ class ProxyPy(PyProxyBase):
 
     def __setattr__(self, name, value):
         if name in ('_wrapped', '_checker'):
-            return super().__setattr__(name, value)
+            raise AttributeError(name)
         wrapped = super().__getattribute__('_wrapped')
         checker = super().__getattribute__('_checker')
         checker.check_setattr(wrapped, name)
-- 
2.43.0


From a179eeca52c57421c77321b07591dd6e4b718ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:11 +0000
Subject: [PATCH 13/19] fix: Python proxy gives its generic text whenever the
 check refuses, and only then

---
 src/zope/security/proxy.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index 73ad7d3..ab8f4da 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -232,33 +232,30 @@ class ProxyPy(PyProxyBase):
             return hint()
 
     def __str__(self):
+        wrapped = super().__getattribute__('_wrapped')
+        checker = super().__getattribute__('_checker')
         try:
-            return _check_name(PyProxyBase.__str__)(self)
-        # The C implementation catches almost all exceptions; the
-        # exception is a TypeError that's raised when the repr returns
-        # the wrong type of object.
-        except TypeError:
-            raise
+            checker.check(wrapped, '__str__')
+        # The C implementation catches all exceptions of the check, and only
+        # those: a failure of the object itself is passed on.
         except:  # noqa: E722 do not use bare 'except'
-            # The C implementation catches all exceptions.
-            wrapped = super().__getattribute__('_wrapped')
             return '<security proxied {}.{} instance at {}>'.format(
                 wrapped.__class__.__module__, wrapped.__class__.__name__,
                 _fmt_address(wrapped))
+        return str(wrapped)
 
     def __repr__(self):
+        wrapped = super().__getattribute__('_wrapped')
+        checker = super().__getattribute__('_checker')
         try:
-            return _check_name(PyProxyBase.__repr__)(self)
-        # The C implementation catches almost all exceptions; the
-        # exception is a TypeError that's raised when the repr returns
-        # the wrong type of object.
-        except TypeError:
-            raise
+            checker.check(wrapped, '__repr__')
+        # The C implementation catches all exceptions of the check, and only
+        # those: a failure of the object itself is passed on.
         except:  # noqa: E722 do not use bare 'except'
-            wrapped = super().__getattribute__('_wrapped')
             return '<security proxied {}.{} instance at {}>'.format(
                 wrapped.__class__.__module__, wrapped.__class__.__name__,
                 _fmt_address(wrapped))
+        return repr(wrapped)
 
 
 for name in ['__call__',
-- 
2.43.0


From 5fdd58c258ff64e93688435a86edfdd2a0136c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:36 +0000
Subject: [PATCH 14/19] fix: logging a check never changes its outcome

An object whose representation fails made the logging checkers raise that
failure instead of granting or refusing.
---
 src/zope/security/checker.py | 44 +++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 3fa15d3..910236f 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -588,6 +588,18 @@ class CombinedChecker(Checker):
                 raise unauthorized_exception
 
 
+def _safe_repr(obj):
+    """The representation of an object, for the log only.
+
+    An object that fails to represent itself must not change the outcome
+    of the check that is logged.
+    """
+    try:
+        return repr(obj)
+    except Exception:
+        return object.__repr__(obj)
+
+
 class CheckerLoggingMixin:
     """
     Debugging mixin for checkers.
@@ -613,18 +625,18 @@ class CheckerLoggingMixin:
             super().check(object, name)
             if self.verbosity > 1:
                 if name in _available_by_default:
-                    self._log('[CHK] + Always available: %s on %r'
-                              % (name, object), 2)
+                    self._log('[CHK] + Always available: %s on %s'
+                              % (name, _safe_repr(object)), 2)
                 else:
                     self._log(
-                        f'[CHK] + Granted: {name} on {object!r}', 2)
+                        f'[CHK] + Granted: {name} on {_safe_repr(object)}', 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized: {name} on {object!r}')
+                f'[CHK] - Unauthorized: {name} on {_safe_repr(object)}')
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden: {name} on {object!r}')
+                f'[CHK] - Forbidden: {name} on {_safe_repr(object)}')
             raise
 
     def check_getattr(self, object, name):
@@ -633,20 +645,20 @@ class CheckerLoggingMixin:
             if self.verbosity > 1:
                 if name in _available_by_default:
                     self._log(
-                        '[CHK] + Always available getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Always available getattr: %s on %s'
+                        % (name, _safe_repr(object)), 2)
                 else:
                     self._log(
-                        '[CHK] + Granted getattr: %s on %r'
-                        % (name, object), 2)
+                        '[CHK] + Granted getattr: %s on %s'
+                        % (name, _safe_repr(object)), 2)
         except Unauthorized:
             self._log(
-                f'[CHK] - Unauthorized getattr: {name} on {object!r}'
+                f'[CHK] - Unauthorized getattr: {name} on {_safe_repr(object)}'
             )
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden getattr: {name} on {object!r}')
+                f'[CHK] - Forbidden getattr: {name} on {_safe_repr(object)}')
             raise
 
     __setitem__ = check_getattr
@@ -656,16 +668,16 @@ class CheckerLoggingMixin:
             super().check_setattr(object, name)
             if self.verbosity > 1:
                 self._log(
-                    '[CHK] + Granted setattr: {} on {!r}'.format(
-                        name, object), 2)
+                    '[CHK] + Granted setattr: {} on {}'.format(
+                        name, _safe_repr(object)), 2)
         except Unauthorized:
             self._log(
-                '[CHK] - Unauthorized setattr: {} on {!r}'.format(
-                    name, object))
+                '[CHK] - Unauthorized setattr: {} on {}'.format(
+                    name, _safe_repr(object)))
             raise
         except ForbiddenAttribute:
             self._log(
-                f'[CHK] - Forbidden setattr: {name} on {object!r}')
+                f'[CHK] - Forbidden setattr: {name} on {_safe_repr(object)}')
             raise
 
 
-- 
2.43.0


From 63e5d8db711304dd6ffc217ee1052d390ce7f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:59 +0000
Subject: [PATCH 15/19] fix: testing.interaction leaves any active interaction
 alone

An active interaction that is false (an empty container, say) was not
recognized, and starting another one failed.
---
 src/zope/security/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/testing.py b/src/zope/security/testing.py
index f725912..7e625e4 100644
--- a/src/zope/security/testing.py
+++ b/src/zope/security/testing.py
@@ -93,7 +93,7 @@ def interaction(principal_id, **kw):
     A context manager for running an interaction for the given
     principal ID.
     """
-    if zope.security.management.queryInteraction():
+    if zope.security.management.queryInteraction() is not None:
         # There already is an interaction. Great. Leave it alone.
         yield
     else:
-- 
2.43.0


From 87b564c27567925e919aa1ebee1e830904f09e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:59 +0000
Subject: [PATCH 16/19] fix: removing a participation never removes an equal
 one

list.remove() took the first equal participation out of the interaction
while the back reference of the given one was dropped.
---
 src/zope/security/simplepolicies.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/simplepolicies.py b/src/zope/security/simplepolicies.py
index 7035e07..e21cd7a 100644
--- a/src/zope/security/simplepolicies.py
+++ b/src/zope/security/simplepolicies.py
@@ -54,7 +54,13 @@ class ParanoidSecurityPolicy:
         if participation.interaction is not self:
             raise ValueError("%r does not belong to this interaction"
                              % participation)
-        self.participations.remove(participation)
+        for index, mine in enumerate(self.participations):
+            if mine is participation:
+                del self.participations[index]
+                break
+        else:
+            raise ValueError("%r does not belong to this interaction"
+                             % participation)
         participation.interaction = None
 
     def checkPermission(self, permission, object):
-- 
2.43.0


From f7556a3910280009f25be1c71322329dfe6cfc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:08 +0000
Subject: [PATCH 17/19] fix: a registered permission is defined even if it is
 false

---
 src/zope/security/permission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zope/security/permission.py b/src/zope/security/permission.py
index 9103477..33395e8 100644
--- a/src/zope/security/permission.py
+++ b/src/zope/security/permission.py
@@ -49,7 +49,7 @@ def checkPermission(context, permission_id):
     """
     if permission_id is CheckerPublic:
         return
-    if not queryUtility(IPermission, permission_id, context=context):
+    if queryUtility(IPermission, permission_id, context=context) is None:
         raise ValueError("Undefined permission ID", permission_id)
 
 
-- 
2.43.0


From e6ac25164e925d2506f0c1a13a7b2c47cef005be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:46 +0000
Subject: [PATCH 18/19] fix: objects that claim to be a Python proxy are never
 taken for one

---
 src/zope/security/proxy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zope/security/proxy.py b/src/zope/security/proxy.py
index ab8f4da..2ffabf2 100644
--- a/src/zope/security/proxy.py
+++ b/src/zope/security/proxy.py
@@ -341,6 +341,9 @@ for name in ['__iadd__',
 
 
 def getCheckerPy(proxy):
+    # Look at the real type: any object can claim to be a proxy.
+    if not issubclass(type(proxy), ProxyPy):
+        raise TypeError("argument must be a security proxy")
     return super(ProxyPy, proxy).__getattribute__('_checker')
 
 
@@ -348,7 +351,9 @@ _builtin_isinstance = sys.modules['builtins'].isinstance
 
 
 def getObjectPy(proxy):
-    if not _builtin_isinstance(proxy, ProxyPy):
+    # (the type first: only a real proxy gets to be asked)
+    if not issubclass(type(proxy), ProxyPy) or \
+            not _builtin_isinstance(proxy, ProxyPy):
         return proxy
     return super(ProxyPy, proxy).__getattribute__('_wrapped')
 
-- 
2.43.0


From a01cc6f34e2c05e2d610a246133821c3fbf8899b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:58 +0000
Subject: [PATCH 19/19] fix: values that claim to be a proxy are protected like
 any other

---
 src/zope/security/checker.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zope/security/checker.py b/src/zope/security/checker.py
index 910236f..a88099b 100644
--- a/src/zope/security/checker.py
+++ b/src/zope/security/checker.py
@@ -108,7 +108,8 @@ def ProxyFactory(object, checker=None):
 
     The proxy checker is looked up if not provided.
     """
-    if isinstance(object, Proxy):
+    # (the real type counts: any object can claim to be a proxy)
+    if issubclass(type(object), Proxy):
         if checker is None or checker is getChecker(object):
             return object
         else:
@@ -279,7 +280,8 @@ class CheckerPy:
 
     def proxy(self, value):
         'See IChecker'
-        if isinstance(value, Proxy):
+        # (the real type counts: any object can claim to be a proxy)
+        if issubclass(type(value), Proxy):
             return value
         checker = getattr(value, '__Security_checker__', None)
         if checker is None:
-- 
2.43.0

