From fb48d9dc0a3a5db016919f2a43243eb353fd77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 01/47] fix: reject arguments that give a parameter multiple
 values

`expects` and `all_set` of a signature with a variadic keyword parameter
accepted a keyword naming a parameter already set positionally, while the call
(and `bind`) raises `TypeError`.
---
 paradigm/_core/models.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da4ea56..684c151 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -316,6 +316,13 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        multiple_values_found = any(
+                parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+                and parameter.name in kwargs
+                for parameter in positionals[:len(args)]
+        )
+        if multiple_values_found:
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords: t.Iterable[Parameter] = (
@@ -353,6 +360,13 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        multiple_values_found = any(
+                parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+                and parameter.name in kwargs
+                for parameter in positionals[:len(args)]
+        )
+        if multiple_values_found:
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords = (
-- 
2.43.0


From 8ba27ee4026f7196da15177e4883ab199c7c1e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 02/47] fix: bind keywords sharing names with positional-only
 parameters

A variadic keyword parameter collects such keywords, so `bind` should not
raise `TypeError` for arguments that the signature expects.
---
 paradigm/_core/models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 684c151..9e95f69 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -390,6 +390,11 @@ class PlainSignature(BaseSignature):
                                         parameters_by_kind[
                                             ParameterKind.VARIADIC_POSITIONAL
                                         ]
+                                ),
+                                has_variadic_keyword=bool(
+                                        parameters_by_kind[
+                                            ParameterKind.VARIADIC_KEYWORD
+                                        ]
                                 )
                         ),
                         kwargs,
@@ -593,7 +598,8 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                       args: t.Tuple[_Arg, ...],
                       kwargs: t.Dict[str, _KwArg],
                       *,
-                      has_variadic: bool) -> t.Tuple[Parameter, ...]:
+                      has_variadic: bool,
+                      has_variadic_keyword: bool) -> t.Tuple[Parameter, ...]:
     def is_positionable(parameter: Parameter) -> bool:
         return (parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
                 or parameter.kind is ParameterKind.POSITIONAL_ONLY)
@@ -611,7 +617,7 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                     or kind is ParameterKind.KEYWORD_ONLY):
                 raise TypeError('Got multiple values '
                                 f'for parameter "{positional.name}".')
-            else:
+            elif not has_variadic_keyword:
                 raise TypeError(f'Parameter "{positional.name}" is {kind!s}, '
                                 'but was passed as a keyword.')
     return positionals[len(args):] + parameters[len(positionals):]
-- 
2.43.0


From b3466bf5a1df5bca51067fd5b3285b6e8bbe651a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 03/47] fix: make values bound by keyword the new defaults

Binding an optional parameter by keyword kept its old default
instead of the bound value.
---
 paradigm/_core/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 9e95f69..ea0de20 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -652,11 +652,12 @@ def _bind_keywords(parameters: t.Tuple[Parameter, ...],
                                 annotation=parameter.annotation,
                                 name=parameter.name,
                                 kind=ParameterKind.KEYWORD_ONLY,
-                                **({'default': parameter.default}
-                                   if (isinstance(parameter, OptionalParameter)
-                                       and parameter.has_default)
-                                   else ({'default': kwargs[parameter.name]}
-                                         if parameter.name in kwargs_names
+                                **({'default': kwargs[parameter.name]}
+                                   if parameter.name in kwargs_names
+                                   else ({'default': parameter.default}
+                                         if (isinstance(parameter,
+                                                        OptionalParameter)
+                                             and parameter.has_default)
                                          else {}))
                         )
                         if (isinstance(parameter, OptionalParameter)
-- 
2.43.0


From 438ef3e1c1a08c3fad811337571ac3c1c51072fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 04/47] fix: accept arguments for parameters named "self"

`expects`, `all_set` and `bind` could not be given a keyword argument
named like their own first parameter, e.g. `partial(cls.method, self=value)`.
---
 paradigm/_core/models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index ea0de20..0afeeeb 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -276,18 +276,18 @@ class BaseSignature(ABC):
     __slots__ = ()
 
     @abstractmethod
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """
         Checks if the signature has no unspecified parameters left
         with given arguments.
         """
 
     @abstractmethod
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """Checks if the signature accepts given arguments."""
 
     @abstractmethod
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
         """Binds given arguments to the signature."""
 
 
@@ -304,7 +304,7 @@ class PlainSignature(BaseSignature):
     def returns(self) -> t.Any:
         return self._returns
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (
                 parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
@@ -348,7 +348,7 @@ class PlainSignature(BaseSignature):
         return (all_parameters_are_optional(rest_positionals_only)
                 and all_parameters_are_optional(rest_keywords))
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
                        + parameters_by_kind[
@@ -380,7 +380,7 @@ class PlainSignature(BaseSignature):
         )
         return not unexpected_keyword_arguments_found
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         return PlainSignature(
                 *_bind_keywords(
@@ -515,15 +515,15 @@ class OverloadedSignature(BaseSignature):
     def signatures(self) -> t.Sequence[PlainSignature]:
         return self._signatures
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.all_set(*args, **kwargs)
                    for signature in self._signatures)
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.expects(*args, **kwargs)
                    for signature in self._signatures)
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> Signature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> Signature:
         signatures = [signature.bind(*args, **kwargs)
                       for signature in self._signatures
                       if signature.expects(*args, **kwargs)]
-- 
2.43.0


From 26cf14c11837273c2651302f6849608e7c9a2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 05/47] fix: make annotations equality symmetric and structural

Built-in generic aliases (which are no longer instances of `type` since
Python 3.11), bare `typing` generics, PEP 604 unions, parameter specifications
and literals were compared by dispatching on the left operand only, so the
result depended on the order of operands.
---
 paradigm/_core/annotated.py | 61 ++++++++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2b0efb1..91e3bad 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -22,22 +22,56 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 
 
 @are_equal.register(GenericAlias)
+@are_equal.register(type(t.Callable))
+@are_equal.register(type(t.List))
+@are_equal.register(type(t.Tuple))
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_args, right_args = to_arguments(left), to_arguments(right)
-    left_origin, right_origin = (to_origin(left) or left,
-                                 to_origin(right) or right)
+    left_origin, right_origin = (_to_base_origin(left),
+                                 _to_base_origin(right))
     return (left_origin is right_origin
+            and _is_specialized(left) is _is_specialized(right)
+            and (getattr(left, '__unpacked__', False)
+                 is getattr(right, '__unpacked__', False))
             and len(left_args) == len(right_args)
-            and ((all(any(are_equal(left_arg, right_arg)
-                          for right_arg in right_args)
-                      for left_arg in left_args)
-                  and all(any(are_equal(left_arg, right_arg)
-                              for left_arg in left_args)
-                          for right_arg in right_args))
-                 if (left_origin is t.Union or left_origin is Literal)
-                 else all(map(are_equal, left_args, right_args))))
+            and (_are_equal_unordered(left_args, right_args, are_equal)
+                 if left_origin is t.Union
+                 else (_are_equal_unordered(left_args, right_args,
+                                            _are_literal_values_equal)
+                       if left_origin is Literal
+                       else all(map(are_equal, left_args, right_args)))))
+
+
+def _are_equal_unordered(left: t.Sequence[t.Any],
+                         right: t.Sequence[t.Any],
+                         comparator: t.Callable[[t.Any, t.Any], bool]) -> bool:
+    return (all(any(comparator(left_element, right_element)
+                    for right_element in right)
+                for left_element in left)
+            and all(any(comparator(left_element, right_element)
+                        for left_element in left)
+                    for right_element in right))
+
+
+def _are_literal_values_equal(left: t.Any, right: t.Any) -> bool:
+    # e.g. ``Literal[True]`` is not ``Literal[1]``
+    return type(left) is type(right) and are_equal(left, right)
+
+
+def _is_specialized(value: t.Any) -> bool:
+    # e.g. ``Tuple[()]`` is specialized while ``Tuple`` is not
+    return (getattr(value, '__args__', None) is not None
+            and not getattr(value, '_special', False))
+
+
+def _to_base_origin(value: t.Any) -> t.Any:
+    result = to_origin(value) or value
+    return (t.Union
+            if (sys.version_info >= (3, 10)
+                and result is types.UnionType)
+            else result)
 
 
 @are_equal.register(abc.Sequence)
@@ -47,7 +81,9 @@ def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
             and all(map(are_equal, left, right)))
 
 
-@are_equal.register(ParamSpec)
+# on newer versions ``typing_extensions.ParamSpec`` only creates
+# instances of ``typing.ParamSpec``
+@are_equal.register(type(ParamSpec('_P')))
 def _(left: ParamSpec, right: t.Any) -> bool:
     return (type(left) is type(right)
             and left.__name__ == right.__name__
@@ -62,6 +98,9 @@ def _(left: ParamSpecArgs, right: t.Any) -> bool:
             and are_equal(left.__origin__, right.__origin__))
 
 
+if sys.version_info >= (3, 9):
+    are_equal.register(types.GenericAlias, are_equal.dispatch(type))
+
 if sys.version_info < (3, 10):
     @are_equal.register(types.LambdaType)
     def _(left: types.LambdaType,
-- 
2.43.0


From e0e1a90d1f5a31aab0eef3dc930dd81529083179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 06/47] fix: make hashes of equal parameters and signatures
 equal

Annotations and defaults are compared structurally
but hashed by their own (sometimes identity-based) hashes.
---
 paradigm/_core/models.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 0afeeeb..fcbb176 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -124,7 +124,9 @@ class RequiredParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation, self._kind, self._name))
+        # annotations are compared structurally,
+        # so hashes of them may differ even if they are equal
+        return hash((self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -216,9 +218,9 @@ class OptionalParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation,
-                     *((self._default,) if self._has_default else ()),
-                     self._kind, self._name))
+        # annotations and defaults are compared structurally,
+        # so hashes of them may differ even if they are equal
+        return hash((self._has_default, self._kind, self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -476,7 +478,7 @@ class PlainSignature(BaseSignature):
         return self._parameters, {'returns': self._returns}
 
     def __hash__(self) -> int:
-        return hash((self._parameters, self.returns))
+        return hash(self._parameters)
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
-- 
2.43.0


From b1954acd1cd53e6c07833aabeec033216dd8f85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 07/47] fix: make reprs of built-in generics, PEP 604 unions
 and parameter specifications evaluable

Type variables inside of them were represented like `~T`.
---
 paradigm/_core/annotated.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 91e3bad..48fbd4b 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -210,6 +210,40 @@ def _(value: GenericAlias) -> str:
                         else f'{value.__module__}.{value._name}[()]')))
 
 
+if sys.version_info >= (3, 9):
+    @to_repr.register(types.GenericAlias)
+    def _(value: types.GenericAlias) -> str:
+        return (f'{value.__module__}.{value.__qualname__}'
+                f'[{", ".join(map(to_repr, to_arguments(value))) or "()"}]')
+
+if sys.version_info >= (3, 10):
+    @to_repr.register(types.UnionType)
+    def _(value: types.UnionType) -> str:
+        return ' | '.join(map(to_repr, to_arguments(value)))
+
+
+@to_repr.register(type(ParamSpec('_P')))
+def _(value: ParamSpec) -> str:
+    arguments = [repr(value.__name__)]
+    if value.__bound__ is not None:
+        arguments.append(f'bound={to_repr(value.__bound__)}')
+    if value.__contravariant__:
+        arguments.append('contravariant=True')
+    if value.__covariant__:
+        arguments.append('covariant=True')
+    return f'{to_repr(type(value))}({", ".join(arguments)})'
+
+
+@to_repr.register(ParamSpecArgs)
+def _(value: ParamSpecArgs) -> str:
+    return f'{to_repr(value.__origin__)}.args'
+
+
+@to_repr.register(ParamSpecKwargs)
+def _(value: ParamSpecKwargs) -> str:
+    return f'{to_repr(value.__origin__)}.kwargs'
+
+
 @to_repr.register(t.TypeVar)
 def _(value: t.TypeVar) -> str:
     arguments = [repr(value.__name__)]
-- 
2.43.0


From a676152a92aab6e4574902e7bd194096c3d4270f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:49 +0000
Subject: [PATCH 08/47] fix: do not confuse objects with built-ins sharing
 their names

Names missing from a stub (e.g. ones defined in the main module)
were resolved as built-ins visible from it.
---
 paradigm/_core/signatures.py | 21 +++++++++++++++++++++
 paradigm/_core/sources.py    |  3 ++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 14808fe..39cf51c 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -380,6 +380,19 @@ class _SignatureNotFound(Exception):
     pass
 
 
+_builtins_module_path: _catalog.Path = _catalog.module_path_from_module(
+        _builtins
+)
+
+
+def _is_builtin_from_outer_scope(module_path: _catalog.Path,
+                                 object_path: _catalog.Path) -> bool:
+    return (module_path != _builtins_module_path
+            and object_path[0] not in _stubs.definitions.get(module_path, {})
+            and (_try_resolve_object_path(module_path, object_path)
+                 == (_builtins_module_path, object_path)))
+
+
 def _try_resolve_object_path(
         module_path: _catalog.Path, object_path: _catalog.Path
 ) -> _catalog.QualifiedPath:
@@ -474,6 +487,14 @@ def resolve_qualified_paths(
         qualified_paths = [path
                            for path in candidates_paths
                            if _value_has_qualified_path(value, path)]
+    qualified_paths = [
+        path
+        for path in qualified_paths
+        if (not _is_builtin_from_outer_scope(*path)
+            # objects sharing names with built-ins are not built-ins
+            or _value_has_qualified_path(value, (_builtins_module_path,
+                                                 path[1])))
+    ]
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index afb07ec..5431729 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -58,7 +58,8 @@ def _to_stubs_cache(
 
     return {to_module_path(file_path): file_path
             for file_path in file_system.find_files_paths(root)
-            if _is_stub(file_path)}
+            # at runtime main module has nothing to do with its stub
+            if _is_stub(file_path) and file_path.stem != '__main__'}
 
 
 def _is_stub(path: Path) -> bool:
-- 
2.43.0


From 49805a2c0f2a025f5d9d8fc8e627a4a3d1452bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 09/47] fix: look up signatures of bound methods by their
 functions

Looking them up by names on the receiver's class failed with `AttributeError`
for lambdas, aliases and private methods, and found overriding methods instead
of ones bound by `super`.
---
 paradigm/_core/signatures.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 39cf51c..47f607c 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -68,11 +68,8 @@ def _(_callable: _types.FunctionType) -> _Signature:
 @from_callable.register(_types.MethodType)
 def _(_callable: _types.MethodType) -> _Signature:
     try:
-        return (_from_callable(_callable)
-                if isinstance(_callable.__self__, type)
-                else (_from_callable(getattr(type(_callable.__self__),
-                                             _callable.__name__))
-                      .bind(_callable.__self__)))
+        return (_from_callable(_callable.__func__)
+                .bind(_callable.__self__))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
-- 
2.43.0


From 8b5c8367f6850730968aa8e74cd7e737229dd9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:20 +0000
Subject: [PATCH 10/47] fix: bind built-in methods to their actual receivers

Classes are passed implicitly to built-in class methods as well, and slots
bound to classes are defined by metaclasses.
---
 paradigm/_core/signatures.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 47f607c..709e50b 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -44,15 +44,17 @@ def _(
             _types.BuiltinFunctionType, _types.BuiltinMethodType
         ]
 ) -> _Signature:
+    self = _callable.__self__
     try:
-        return ((_from_callable(_callable)
-                 if isinstance(_callable.__self__, type)
-                 else (_from_callable(getattr(type(_callable.__self__),
-                                              _callable.__name__))
-                       .bind(_callable.__self__)))
-                if (_callable.__self__ is not None
-                    and not isinstance(_callable.__self__, _types.ModuleType))
-                else _from_callable(_callable))
+        return (_from_callable(_callable)
+                if (self is None
+                    or isinstance(self, _types.ModuleType)
+                    # is never bound to a class
+                    or _callable.__name__ == object.__new__.__name__)
+                else (_from_callable(_callable
+                                     if isinstance(self, type)
+                                     else _to_method_descriptor(_callable))
+                      .bind(self)))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -77,11 +79,9 @@ def _(_callable: _types.MethodType) -> _Signature:
 @_decorate_if(from_callable.register(_types.MethodWrapperType),
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
-    self = _callable.__self__
-    assert not isinstance(self, type), _callable
     try:
-        return (_from_callable(getattr(type(self), _callable.__name__))
-                .bind(self))
+        return (_from_callable(_to_method_descriptor(_callable))
+                .bind(_callable.__self__))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -382,6 +382,17 @@ _builtins_module_path: _catalog.Path = _catalog.module_path_from_module(
 )
 
 
+def _to_method_descriptor(method: _t.Any) -> _t.Any:
+    name, self = method.__name__, method.__self__
+    for cls in type(self).__mro__:
+        candidate = vars(cls).get(name)
+        if (isinstance(candidate, (_types.MethodDescriptorType,
+                                   _types.WrapperDescriptorType))
+                and candidate.__get__(self, type(self)) == method):
+            return candidate
+    raise _SignatureNotFound
+
+
 def _is_builtin_from_outer_scope(module_path: _catalog.Path,
                                  object_path: _catalog.Path) -> bool:
     return (module_path != _builtins_module_path
-- 
2.43.0


From c378b07045d42e94a4c0269e6e620eb13913ff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 11/47] fix: keep parameters of static methods as declared

The first parameter of a static method was taken for the receiver.
---
 paradigm/_core/signatures.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 709e50b..47c53b8 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -326,6 +326,9 @@ def _parameters_from(
     ))
     if isinstance(callable_, type):
         del result[0]
+    elif any(_is_staticmethod(decorator_node, module_path, parent_path)
+             for decorator_node in ast_node.decorator_list):
+        pass
     elif any(_is_classmethod(decorator_node, module_path, parent_path)
              for decorator_node in ast_node.decorator_list):
         result[0] = _RequiredParameter(annotation=_t.Type[_Self],
@@ -365,12 +368,33 @@ def _is_classmethod(
         = (_catalog.module_path_from_module(_builtins),
            _catalog.path_from_string(classmethod.__qualname__)),
 ) -> bool:
+    return _refers_to(expression_node, module_path, parent_path,
+                      classmethod_qualified_path)
+
+
+def _is_staticmethod(
+        expression_node: _ast.expr,
+        module_path: _catalog.Path,
+        parent_path: _catalog.Path,
+        *,
+        staticmethod_qualified_path: _catalog.QualifiedPath
+        = (_catalog.module_path_from_module(_builtins),
+           _catalog.path_from_string(staticmethod.__qualname__)),
+) -> bool:
+    return _refers_to(expression_node, module_path, parent_path,
+                      staticmethod_qualified_path)
+
+
+def _refers_to(expression_node: _ast.expr,
+               module_path: _catalog.Path,
+               parent_path: _catalog.Path,
+               qualified_path: _catalog.QualifiedPath) -> bool:
     maybe_path = _conversion.to_maybe_path(expression_node)
     return (maybe_path is not None
             and _scoping.resolve_object_path(
                     module_path, parent_path, maybe_path, _stubs.definitions,
                     _stubs.references, _stubs.submodules, _stubs.superclasses
-            ) == classmethod_qualified_path)
+            ) == qualified_path)
 
 
 class _SignatureNotFound(Exception):
-- 
2.43.0


From ef16bf5b5fdf1acf2fdec22b77fda42892c85116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 12/47] fix: locate synthesized constructors of named tuples

They were registered under paths of the classes themselves, so signatures of
named tuples had no parameters.
---
 paradigm/_core/arboreal/evaluation.py | 11 +++++++++++
 paradigm/_core/stubs.py               |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cc32ddc..12d8059 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -299,6 +299,10 @@ def evaluate_qualified_path(
         *,
         builtins_module_path: catalog.Path
         = catalog.module_path_from_module(builtins),
+        named_tuple_object_path: catalog.Path
+        = catalog.path_from_string(t.NamedTuple.__qualname__),
+        typing_module_path: catalog.Path
+        = catalog.module_path_from_module(t),
         modules_cache: t.MutableMapping[catalog.Path, types.ModuleType]
         = weakref.WeakValueDictionary(),
         objects_cache: t.MutableMapping[catalog.QualifiedPath, t.Any]
@@ -356,7 +360,14 @@ def evaluate_qualified_path(
         class_namespace: namespacing.Namespace = {'__module__': __name__}
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
+        is_named_tuple = (
+                (typing_module_path, named_tuple_object_path)
+                in stubs.superclasses.get(module_path, {}).get(object_path, [])
+        )
         for name in scope.keys():
+            if is_named_tuple and name == object.__new__.__name__:
+                # can't be overwritten
+                continue
             raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
             ast_nodes = [construction.from_raw(raw_ast_node)
                          for raw_ast_node in raw_ast_nodes]
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..c9b288d 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -301,7 +301,11 @@ if _reload_cache:
                         constructor_node = (
                             _named_tuple_to_constructor_ast_node(node)
                         )
-                        self._add_ast_node((class_name,), constructor_node)
+                        constructor_path = (class_name, constructor_node.name)
+                        self._add_ast_node(constructor_path, constructor_node)
+                        self._add_ast_node_kind(constructor_path,
+                                                _NodeKind.FUNCTION)
+                        self._add_path_definition(constructor_path)
                         self._add_superclass(class_path, base_module_path,
                                              base_object_path)
                         continue
-- 
2.43.0


From 01ea220884c1987db0f9f62ba3a8f3f0bd953247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 13/47] fix: locate built-in static methods

They know neither their modules nor their classes, so signatures of e.g.
`str.maketrans` were never found.
---
 paradigm/_core/index.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paradigm/_core/index.py b/paradigm/_core/index.py
index e6dd2cd..a90cc48 100644
--- a/paradigm/_core/index.py
+++ b/paradigm/_core/index.py
@@ -1,3 +1,4 @@
+import types
 import typing as t
 import warnings
 from importlib import import_module
@@ -26,6 +27,10 @@ def _index_module_or_type(namespace: namespacing.ModuleOrType,
                           parent_path: catalog.Path,
                           visited_classes: t.Set[type]) -> None:
     for name, value in vars(namespace).items():
+        if (isinstance(value, staticmethod)
+                and isinstance(value.__func__, types.BuiltinFunctionType)):
+            # can't be located by its own attributes
+            value = value.__func__
         if isinstance(value, type):
             if value not in visited_classes:
                 object_path = parent_path + (name,)
-- 
2.43.0


From 76917d9722d5061b1647fa3ca7edac04fd965c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 14/47] fix: report inherited constructors of standard library
 classes

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 47c53b8..c925b93 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -551,8 +551,8 @@ def _to_class_builder_qualified_path(
     for base_module_path, base_object_path in _to_mro(module_path,
                                                       object_path):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
-        constructor_path = (*object_path, constructor_name)
-        initializer_path = (*object_path, initializer_name)
+        constructor_path = (*base_object_path, constructor_name)
+        initializer_path = (*base_object_path, initializer_name)
         if initializer_path in base_module_annotations:
             return (base_module_path, initializer_path)
         elif constructor_path in base_module_annotations:
-- 
2.43.0


From a0d7cb666aafc3f08802d7d0885206f5fd5006b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 15/47] fix: do not modify bases of generics while specializing
 them

---
 paradigm/_core/stubs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index c9b288d..9711a25 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -818,7 +818,10 @@ if _reload_cache:
                     base_base_module_path: _catalog.Path
                     base_base_object_path: _catalog.Path
                     if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
+                        # transformer works in-place
+                        base_base_node = specialize(
+                                _deepcopy(generic_base)
+                        )
                         base_base_name = _serialization.to_identifier(
                                 base_base_node
                         )
-- 
2.43.0


From d58e27c49f1b7ca366a8831a5f06855c14407085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 16/47] fix: make generation of caches independent of hash seed

---
 paradigm/_core/sources.py | 4 ++--
 paradigm/_core/stubs.py   | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/sources.py b/paradigm/_core/sources.py
index 5431729..a4105fa 100644
--- a/paradigm/_core/sources.py
+++ b/paradigm/_core/sources.py
@@ -120,7 +120,7 @@ stdlib_modules_paths = dict.fromkeys(
         chain([catalog.path_from_string(module_name)
                for module_name in sys.builtin_module_names],
               [module_path
-               for path in _sources_directories
-               for module_path in _to_modules_paths(path)
+               for path in sorted(_sources_directories)
+               for module_path in sorted(_to_modules_paths(path))
                if _is_valid_module_path(module_path)])
 ).keys()
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 9711a25..86ebcb7 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -677,7 +677,8 @@ if _reload_cache:
                 modules_submodules, modules_superclasses,
                 visited_modules_paths, classes_bases, generics_parameters_paths
         )
-        for module_path in modules_paths:
+        # order affects specializations
+        for module_path in sorted(modules_paths):
             _parse_stub_scope(
                     module_path, modules_ast_nodes, modules_nodes_kinds,
                     modules_definitions, modules_references,
-- 
2.43.0


From 7b1f5491e6cd395862b61649bd3660056deb1b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:55 +0000
Subject: [PATCH 17/47] fix: report keyword-capable parameters of standard
 library callables as such

---
 paradigm/_core/signatures.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index c925b93..5ad4649 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -665,15 +665,36 @@ def _to_positional_parameters(
         module_path: _catalog.Path,
         parent_path: _catalog.Path
 ) -> _t.List[_Parameter]:
+    positionals_asts = signature_ast.posonlyargs + signature_ast.args
     # double-reversing since parameters with default arguments go last
     parameters_with_defaults_ast: _t.List[
         _t.Tuple[_ast.arg, _t.Optional[_ast.expr]]
-    ] = list(_zip_longest(reversed(signature_ast.args),
+    ] = list(_zip_longest(reversed(positionals_asts),
                           signature_ast.defaults[::-1]))[::-1]
-    kind = _ParameterKind.POSITIONAL_ONLY
-    return [_parameter_from_ast_node(parameter_ast, default_ast, module_path,
-                                     parent_path, kind)
-            for parameter_ast, default_ast in parameters_with_defaults_ast]
+    positional_only_count = _to_positional_only_count(signature_ast)
+    return [
+        _parameter_from_ast_node(
+                parameter_ast, default_ast, module_path, parent_path,
+                (_ParameterKind.POSITIONAL_ONLY
+                 if index < positional_only_count
+                 else _ParameterKind.POSITIONAL_OR_KEYWORD)
+        )
+        for index, (parameter_ast, default_ast) in enumerate(
+                parameters_with_defaults_ast
+        )
+    ]
+
+
+def _to_positional_only_count(signature_ast: _ast.arguments) -> int:
+    if signature_ast.posonlyargs:
+        return len(signature_ast.posonlyargs)
+    # stubs follow "PEP-484" convention for positional-only parameters
+    return max([index
+                for index, ast_node in enumerate(signature_ast.args,
+                                                 start=1)
+                if (ast_node.arg.startswith('__')
+                    and not ast_node.arg.endswith('__'))],
+               default=0)
 
 
 def _to_variadic_keyword_parameter(
-- 
2.43.0


From 0195399aae2b4ead30c92e84b2c06f4fa2b379fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 18/47] fix: treat None in built-in generics as its type during
 comparison

---
 paradigm/_core/annotated.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 48fbd4b..e41554f 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -4,7 +4,8 @@ import typing as t
 from collections import abc
 from functools import singledispatch
 
-from typing_extensions import (Literal,
+from typing_extensions import (Annotated,
+                               Literal,
                                ParamSpec,
                                ParamSpecArgs,
                                ParamSpecKwargs)
@@ -28,7 +29,8 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
-    left_args, right_args = to_arguments(left), to_arguments(right)
+    left_args, right_args = (_to_unified_arguments(left),
+                             _to_unified_arguments(right))
     left_origin, right_origin = (_to_base_origin(left),
                                  _to_base_origin(right))
     return (left_origin is right_origin
@@ -60,6 +62,22 @@ def _are_literal_values_equal(left: t.Any, right: t.Any) -> bool:
     return type(left) is type(right) and are_equal(left, right)
 
 
+def _to_unified_arguments(value: t.Any) -> t.Tuple[t.Any, ...]:
+    result = to_arguments(value)
+    return (result
+            if to_origin(value) in (Annotated, Literal)
+            else tuple(_unify_none(argument) for argument in result))
+
+
+def _unify_none(value: t.Any) -> t.Any:
+    # unlike aliases from ``typing`` built-in generics keep ``None`` as is
+    return (type(None)
+            if value is None
+            else ([_unify_none(element) for element in value]
+                  if isinstance(value, list)
+                  else value))
+
+
 def _is_specialized(value: t.Any) -> bool:
     # e.g. ``Tuple[()]`` is specialized while ``Tuple`` is not
     return (getattr(value, '__args__', None) is not None
-- 
2.43.0


From 27f5975efdbc7def12f815b873525bdd4037657b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 19/47] fix: do not report signatures of standard library
 objects for objects only sharing their paths

---
 paradigm/_core/signatures.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 5ad4649..bd2824b 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -513,7 +513,10 @@ def resolve_qualified_paths(
     except KeyError:
         assert not module_path or object_path, value
         qualified_paths = ([(module_path, object_path)]
-                           if module_path
+                           if (module_path
+                               and _value_has_qualified_path(
+                                           value, (module_path, object_path)
+                                   ))
                            else [])
     else:
         qualified_paths = [path
@@ -578,14 +581,30 @@ def _value_has_qualified_path(value: _t.Any,
     module_name = _catalog.path_to_string(module_path)
     candidate = _sys.modules.get(module_name)
     if candidate is None:
-        # undecidable, let's keep it
-        return True
+        # undecidable, let's keep it for objects that are what they claim to be
+        value_path = _catalog.qualified_path_from(value)
+        return (path != value_path
+                and _value_has_qualified_path(value, value_path))
     for part in object_path:
         try:
-            candidate = getattr(candidate, part)
+            candidate = getattr(candidate, _to_attribute_name(candidate, part))
         except AttributeError:
             return False
-    return candidate is value
+    return (candidate is value
+            # bound methods are created on each access
+            or (isinstance(candidate, _types.MethodType)
+                and candidate.__func__ is value)
+            or (isinstance(value, _types.BuiltinFunctionType)
+                and isinstance(candidate, _types.BuiltinFunctionType)
+                and candidate == value))
+
+
+def _to_attribute_name(namespace: _t.Any, name: str) -> str:
+    return (f'_{namespace.__name__.lstrip("_")}{name}'
+            if (isinstance(namespace, type)
+                and name.startswith('__')
+                and not name.endswith('__'))
+            else name)
 
 
 def _parameter_from_raw(raw: _inspect.Parameter) -> _Parameter:
-- 
2.43.0


From 73f805f3ba75424ac03275bd4a02ef5173621553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:15 +0000
Subject: [PATCH 20/47] fix: locate declarations of built-in methods by their
 actual owners

---
 paradigm/_core/signatures.py | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index bd2824b..e4a9216 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -44,17 +44,19 @@ def _(
             _types.BuiltinFunctionType, _types.BuiltinMethodType
         ]
 ) -> _Signature:
-    self = _callable.__self__
     try:
-        return (_from_callable(_callable)
-                if (self is None
+        try:
+            declared_method = _to_declared_method(_callable)
+        except _SignatureNotFound:
+            self = _callable.__self__
+            if not (self is None
                     or isinstance(self, _types.ModuleType)
                     # is never bound to a class
-                    or _callable.__name__ == object.__new__.__name__)
-                else (_from_callable(_callable
-                                     if isinstance(self, type)
-                                     else _to_method_descriptor(_callable))
-                      .bind(self)))
+                    or _callable.__name__ == object.__new__.__name__):
+                raise
+            return _from_callable(_callable)
+        else:
+            return _from_callable(declared_method).bind(_callable.__self__)
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -406,13 +408,27 @@ _builtins_module_path: _catalog.Path = _catalog.module_path_from_module(
 )
 
 
+def _to_declared_method(method: _t.Any) -> _t.Any:
+    name, self = method.__name__, method.__self__
+    if isinstance(self, type):
+        for cls in self.__mro__:
+            candidate = vars(cls).get(name)
+            if (isinstance(candidate, _types.ClassMethodDescriptorType)
+                    and candidate.__get__(None, self) == method):
+                # inherited class methods are declared by bases
+                return candidate.__get__(None, cls)
+    return _to_method_descriptor(method)
+
+
 def _to_method_descriptor(method: _t.Any) -> _t.Any:
     name, self = method.__name__, method.__self__
     for cls in type(self).__mro__:
         candidate = vars(cls).get(name)
         if (isinstance(candidate, (_types.MethodDescriptorType,
                                    _types.WrapperDescriptorType))
-                and candidate.__get__(self, type(self)) == method):
+                # method descriptors cannot be bound to ``None`` directly
+                and (self is None
+                     or candidate.__get__(self, type(self)) == method)):
             return candidate
     raise _SignatureNotFound
 
-- 
2.43.0


From 84ab3e6d322ea89eaaf612ec9c54629a00ba1990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 21/47] fix: prefer declarations objects call themselves by
 over ones of other objects

---
 paradigm/_core/signatures.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index e4a9216..8058bb0 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -546,14 +546,22 @@ def resolve_qualified_paths(
             or _value_has_qualified_path(value, (_builtins_module_path,
                                                  path[1])))
     ]
-    return sorted({
-        (module_path, object_path)
-        for module_path, object_path in [
-            _try_resolve_object_path(module_path, object_path)
-            for module_path, object_path in qualified_paths
-        ]
-        if module_path and object_path
-    })
+    own_path = (
+        _try_resolve_object_path(module_path, object_path)
+        if (qualified_paths
+            and _value_has_qualified_path(value, (module_path, object_path)))
+        else ((), ())
+    )
+    return sorted(
+            {
+                path
+                for path in [_try_resolve_object_path(*path)
+                             for path in qualified_paths]
+                if all(path)
+            },
+            # path by which object calls itself goes first
+            key=lambda path: (path != own_path, path)
+    )
 
 
 def _to_class_builder_qualified_path(
-- 
2.43.0


From c9ebbf1b3b4a5ef049c60403000bcee0ec01b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 22/47] fix: do not fail on unknown objects of known modules
 during resolution

---
 paradigm/_core/scoping.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b007fd3..ce8ec1e 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -135,6 +135,10 @@ def resolve_object_path(
                 continue
             else:
                 try:
+                    if ((referent_module_path, referent_object_path)
+                            == (module_path, sub_object_path)):
+                        # submodule is referenced by its package
+                        raise ObjectNotFound((module_path, sub_object_path))
                     referent_module_path, referent_object_path = (
                         resolve_object_path(
                                 referent_module_path, (), referent_object_path,
@@ -144,13 +148,10 @@ def resolve_object_path(
                         )
                     )
                 except ObjectNotFound:
-                    assert (len(referent_object_path) == 1), (module_path,
-                                                              object_path)
                     referent_module_path += referent_object_path
                     referent_object_path = ()
-                    assert (
-                            referent_module_path in modules_definitions
-                    ), (module_path, object_path)
+                    if referent_module_path not in modules_definitions:
+                        raise
                 return resolve_object_path(
                         referent_module_path, (),
                         referent_object_path
-- 
2.43.0


From ce5cfd2e198c73ba95a98c40bb6252adb46201bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:24 +0000
Subject: [PATCH 23/47] fix: handle callables with absent or non-string names
 and modules

---
 paradigm/_core/catalog.py    | 42 ++++++++++++++++++++----------------
 paradigm/_core/signatures.py | 26 +++++++++++++++-------
 2 files changed, 41 insertions(+), 27 deletions(-)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index f54696c..44e8e43 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -15,6 +15,12 @@ def path_from_string(value: str) -> Path:
     return tuple(value.split('.'))
 
 
+def path_from_attribute(value: _t.Any, name: str) -> Path:
+    result = getattr(value, name, None)
+    # attributes may be absent or be set to anything
+    return path_from_string(result) if isinstance(result, str) else ()
+
+
 def path_to_parent(value: Path) -> Path:
     return value[:-1]
 
@@ -34,27 +40,23 @@ def qualified_path_from(value: _t.Any) -> QualifiedPath:
 def _(
         value: _t.Union[_types.BuiltinFunctionType, _types.BuiltinMethodType]
 ) -> QualifiedPath:
-    self = value.__self__
-    return ((path_from_string(self.__module__),
-             path_from_string(value.__qualname__))
+    self = getattr(value, '__self__', value)
+    return ((path_from_attribute(self, '__module__'),
+             path_from_attribute(value, '__qualname__'))
             if isinstance(self, type)
-            else ((path_from_string(self.__name__
-                                    if self.__spec__ is None
-                                    else self.__spec__.name),
-                   path_from_string(value.__qualname__))
+            else ((module_path_from_module(self),
+                   path_from_attribute(value, '__qualname__'))
                   if isinstance(self, _types.ModuleType)
                   else ((),
-                        path_from_string(value.__qualname__)
+                        path_from_attribute(value, '__qualname__')
                         if self is None
                         else ())))
 
 
 @qualified_path_from.register(_types.FunctionType)
 def _(value: _types.FunctionType) -> QualifiedPath:
-    return (()
-            if value.__module__ is None
-            else path_from_string(value.__module__),
-            path_from_string(value.__qualname__))
+    return (path_from_attribute(value, '__module__'),
+            path_from_attribute(value, '__qualname__'))
 
 
 @_decorate_if(qualified_path_from.register(_types.MemberDescriptorType),
@@ -70,8 +72,9 @@ def _(
                         _types.MethodDescriptorType, _types.MethodWrapperType,
                         _types.WrapperDescriptorType]
 ) -> QualifiedPath:
-    return (path_from_string(value.__objclass__.__module__),
-            path_from_string(value.__qualname__))
+    return (path_from_attribute(getattr(value, '__objclass__', None),
+                                '__module__'),
+            path_from_attribute(value, '__qualname__'))
 
 
 @_decorate_if(qualified_path_from.register(_types.MemberDescriptorType),
@@ -84,8 +87,8 @@ def _(value: _types.MemberDescriptorType) -> QualifiedPath:
 
 @qualified_path_from.register(type)
 def _(value: type) -> QualifiedPath:
-    return (path_from_string(value.__module__),
-            path_from_string(value.__qualname__))
+    return (path_from_attribute(value, '__module__'),
+            path_from_attribute(value, '__qualname__'))
 
 
 def is_attribute(path: Path) -> bool:
@@ -93,9 +96,10 @@ def is_attribute(path: Path) -> bool:
 
 
 def module_path_from_module(object_: _types.ModuleType) -> Path:
-    return path_from_string(object_.__name__
-                            if object_.__spec__ is None
-                            else object_.__spec__.name)
+    spec = getattr(object_, '__spec__', None)
+    return (path_from_attribute(object_, '__name__')
+            if spec is None
+            else path_from_attribute(spec, 'name'))
 
 
 def object_path_from_callable(value: _t.Callable[..., _t.Any]) -> Path:
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 8058bb0..fd01fbd 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -48,11 +48,12 @@ def _(
         try:
             declared_method = _to_declared_method(_callable)
         except _SignatureNotFound:
-            self = _callable.__self__
+            self = _attribute_from(_callable, '__self__')
             if not (self is None
                     or isinstance(self, _types.ModuleType)
                     # is never bound to a class
-                    or _callable.__name__ == object.__new__.__name__):
+                    or (_attribute_from(_callable, '__name__')
+                        == object.__new__.__name__)):
                 raise
             return _from_callable(_callable)
         else:
@@ -72,7 +73,7 @@ def _(_callable: _types.FunctionType) -> _Signature:
 @from_callable.register(_types.MethodType)
 def _(_callable: _types.MethodType) -> _Signature:
     try:
-        return (_from_callable(_callable.__func__)
+        return (_from_callable(_attribute_from(_callable, '__func__'))
                 .bind(_callable.__self__))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
@@ -97,8 +98,6 @@ def _(
             _types.MethodDescriptorType, _types.WrapperDescriptorType
         ]
 ) -> _Signature:
-    cls = _callable.__objclass__
-    assert isinstance(cls, type), _callable
     try:
         return _from_callable(_callable)
     except _SignatureNotFound:
@@ -408,8 +407,17 @@ _builtins_module_path: _catalog.Path = _catalog.module_path_from_module(
 )
 
 
+def _attribute_from(value: _t.Any, name: str) -> _t.Any:
+    try:
+        return getattr(value, name)
+    except AttributeError:
+        # object only claims to have a type, e.g. is a mock
+        raise _SignatureNotFound
+
+
 def _to_declared_method(method: _t.Any) -> _t.Any:
-    name, self = method.__name__, method.__self__
+    name = _attribute_from(method, '__name__')
+    self = _attribute_from(method, '__self__')
     if isinstance(self, type):
         for cls in self.__mro__:
             candidate = vars(cls).get(name)
@@ -421,7 +429,8 @@ def _to_declared_method(method: _t.Any) -> _t.Any:
 
 
 def _to_method_descriptor(method: _t.Any) -> _t.Any:
-    name, self = method.__name__, method.__self__
+    name = _attribute_from(method, '__name__')
+    self = _attribute_from(method, '__self__')
     for cls in type(self).__mro__:
         candidate = vars(cls).get(name)
         if (isinstance(candidate, (_types.MethodDescriptorType,
@@ -524,10 +533,11 @@ def resolve_qualified_paths(
         value: _t.Callable[..., _t.Any]
 ) -> _t.List[_catalog.QualifiedPath]:
     module_path, object_path = _catalog.qualified_path_from(value)
+    if not object_path:
+        return []
     try:
         candidates_paths = _qualified_paths[module_path][object_path]
     except KeyError:
-        assert not module_path or object_path, value
         qualified_paths = ([(module_path, object_path)]
                            if (module_path
                                and _value_has_qualified_path(
-- 
2.43.0


From 7a6564be8e50193db370439d1c14bd660d00e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 24/47] fix: look for inherited members in the method
 resolution order

---
 paradigm/_core/scoping.py    | 96 +++++++++++++++++++++++++-----------
 paradigm/_core/signatures.py | 18 ++-----
 2 files changed, 71 insertions(+), 43 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index ce8ec1e..29f4f79 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -81,36 +81,23 @@ def resolve_object_path(
             if sub_name in scope:
                 scope = scope[sub_name]
             else:
-                sub_path = object_path[:index]
-                try:
-                    sub_path_superclasses = module_superclasses[sub_path]
-                except KeyError:
-                    pass
-                else:
-                    for (
-                            superclass_module_path, superclass_object_path
-                    ) in sub_path_superclasses:
-                        try:
-                            return resolve_object_path(
-                                    superclass_module_path, (),
-                                    superclass_object_path
-                                    + object_path[index:],
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses,
-                                    *visited_modules_paths, module_path
-                            )
-                        except ObjectNotFound:
-                            continue
-                if object_path[0] != object.__name__:
-                    return resolve_object_path(
-                            _builtins_module_path, (),
-                            (object.__name__,) + object_path[index:],
+                for (
+                        superclass_module_path, superclass_object_path
+                ) in to_mro(module_path, object_path[:index],
                             modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            *visited_modules_paths
-                    )
-                else:
-                    raise ObjectNotFound((module_path, object_path))
+                            modules_submodules, modules_superclasses)[1:]:
+                    if scope_contains_path(
+                            modules_definitions[superclass_module_path],
+                            (*superclass_object_path, sub_name)
+                    ):
+                        return resolve_object_path(
+                                superclass_module_path, (),
+                                superclass_object_path + object_path[index:],
+                                modules_definitions, modules_references,
+                                modules_submodules, modules_superclasses,
+                                *visited_modules_paths, module_path
+                        )
+                raise ObjectNotFound((module_path, object_path))
         return (module_path, object_path)
     else:
         for sub_module_path in modules_submodules.get(module_path, []):
@@ -164,3 +151,54 @@ def resolve_object_path(
                                object_path):
             return _builtins_module_path, object_path
         raise ObjectNotFound((module_path, object_path))
+
+
+def to_mro(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        modules_definitions: t.Mapping[catalog.Path, Scope],
+        modules_references: t.Mapping[catalog.Path, ModuleReferences],
+        modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
+        *,
+        object_qualified_path: catalog.QualifiedPath
+        = (catalog.module_path_from_module(builtins), (object.__name__,))
+) -> t.List[catalog.QualifiedPath]:
+    # classes go before their bases, the most basic of which is an ``object``
+    result: t.List[catalog.QualifiedPath] = [object_qualified_path]
+    _collect_bases(module_path, object_path, modules_definitions,
+                   modules_references, modules_submodules,
+                   modules_superclasses, result)
+    return result[::-1]
+
+
+def _collect_bases(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        modules_definitions: t.Mapping[catalog.Path, Scope],
+        modules_references: t.Mapping[catalog.Path, ModuleReferences],
+        modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
+        result: t.List[catalog.QualifiedPath]
+) -> None:
+    if (module_path, object_path) in result:
+        return
+    # going from the last base to the first one
+    for superclass_module_path, superclass_object_path in reversed(
+            list(modules_superclasses.get(module_path, {}).get(object_path,
+                                                               []))
+    ):
+        try:
+            superclass_module_path, superclass_object_path = (
+                resolve_object_path(
+                        superclass_module_path, (), superclass_object_path,
+                        modules_definitions, modules_references,
+                        modules_submodules, modules_superclasses
+                )
+            )
+        except ObjectNotFound:
+            continue
+        _collect_bases(superclass_module_path, superclass_object_path,
+                       modules_definitions, modules_references,
+                       modules_submodules, modules_superclasses, result)
+    result.append((module_path, object_path))
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index fd01fbd..048c16a 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -585,8 +585,10 @@ def _to_class_builder_qualified_path(
         constructor_name: str = object.__new__.__name__,
         initializer_name: str = object.__init__.__name__
 ) -> _catalog.QualifiedPath:
-    for base_module_path, base_object_path in _to_mro(module_path,
-                                                      object_path):
+    for base_module_path, base_object_path in _scoping.to_mro(
+            module_path, object_path, _stubs.definitions, _stubs.references,
+            _stubs.submodules, _stubs.superclasses
+    )[:-1]:
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
         constructor_path = (*base_object_path, constructor_name)
         initializer_path = (*base_object_path, initializer_name)
@@ -597,18 +599,6 @@ def _to_class_builder_qualified_path(
     return object_builder_qualified_path
 
 
-def _to_mro(module_path: _catalog.Path,
-            object_path: _catalog.Path) -> _t.Iterable[_catalog.QualifiedPath]:
-    yield (module_path, object_path)
-    try:
-        bases = _stubs.superclasses[module_path][object_path]
-    except KeyError:
-        return
-    else:
-        for base_module_path, base_object_path in bases:
-            yield from _to_mro(base_module_path, base_object_path)
-
-
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
-- 
2.43.0


From baec601d3853bc4d91396220ec816c74df912fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 25/47] fix: prefer constructors of classes found by their own
 paths

---
 paradigm/_core/signatures.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 048c16a..63a05b2 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -498,16 +498,21 @@ def _resolve_builder_qualified_path(
            _catalog.path_from_string(object.__qualname__)
            + _catalog.path_from_string(object.__new__.__name__))
 ) -> _catalog.QualifiedPath:
-    candidates = {_to_class_builder_qualified_path(module_path, object_path)
-                  for module_path, object_path in qualified_paths}
-    try:
-        (module_path, object_path), = candidates
-    except ValueError:
-        try:
-            candidates.remove(object_builder_qualified_path)
-            (module_path, object_path), = candidates
-        except (KeyError, ValueError):
-            raise _SignatureNotFound
+    candidates = [
+        _to_class_builder_qualified_path(module_path, object_path)
+        for module_path, object_path in qualified_paths
+        # e.g. nothing is known about constructors of variables' values
+        if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS
+    ]
+    if not candidates:
+        raise _SignatureNotFound
+    module_path, object_path = next(
+            # path by which class calls itself goes first
+            (candidate
+             for candidate in candidates
+             if candidate != object_builder_qualified_path),
+            object_builder_qualified_path
+    )
     return module_path, object_path
 
 
-- 
2.43.0


From b3e77a69aed410fe14114442424c2a998312e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 26/47] fix: do not let methods hide names from outer scopes in
 annotations

---
 paradigm/_core/arboreal/evaluation.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 12d8059..6833fae 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -265,11 +265,23 @@ def _(ast_node: ast.Name,
       parent_namespace: namespacing.Namespace) -> t.Any:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
     object_name = ast_node.id
-    module_path, object_path = scoping.resolve_object_path(
+    resolved_module_path, resolved_object_path = scoping.resolve_object_path(
             module_path, parent_path, (object_name,), stubs.definitions,
             stubs.references, stubs.submodules, stubs.superclasses
     )
-    return evaluate_qualified_path(module_path, object_path, parent_namespace)
+    if (len(resolved_object_path) > 1
+            and (stubs.nodes_kinds[resolved_module_path].get(
+                    resolved_object_path
+            ) in (NodeKind.ASYNC_FUNCTION, NodeKind.FUNCTION))):
+        # methods don't hide names from outer scopes
+        resolved_module_path, resolved_object_path = (
+            scoping.resolve_object_path(
+                    module_path, (), (object_name,), stubs.definitions,
+                    stubs.references, stubs.submodules, stubs.superclasses
+            )
+        )
+    return evaluate_qualified_path(resolved_module_path, resolved_object_path,
+                                   parent_namespace)
 
 
 @evaluate_expression_node.register(ast.Attribute)
-- 
2.43.0


From ecf8ebaf6da4ab44d8f2fac109dd3204b9a44128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 27/47] fix: recreate classes with not subclassable bases

---
 paradigm/_core/arboreal/evaluation.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 6833fae..29cda15 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -434,14 +434,21 @@ def evaluate_qualified_path(
         )
         if annotations_nodes:
             class_namespace['__annotations__'] = {}
-        result = parent_namespace[object_path[-1]] = objects_cache[
+        name = catalog.path_to_string(object_path)
+
+        def fill(namespace: namespacing.Namespace) -> None:
+            namespace.update(class_namespace)
+
+        try:
+            result = types.new_class(name, bases,
+                                     exec_body=fill)
+        except TypeError:
+            # e.g. bases are not supposed to be inherited from this way
+            result = types.new_class(name,
+                                     exec_body=fill)
+        parent_namespace[object_path[-1]] = objects_cache[
             (module_path, object_path)
-        ] = types.new_class(
-                catalog.path_to_string(object_path), bases,
-                exec_body=lambda namespace: namespace.update(
-                        class_namespace
-                )
-        )
+        ] = result
         if annotations_nodes:
             result.__annotations__.update({
                 name: evaluate_expression_node(annotation_node,
@@ -449,7 +456,7 @@ def evaluate_qualified_path(
                                                parent_namespace)
                 for name, annotation_node in annotations_nodes.items()
             })
-        globals()[catalog.path_to_string(object_path)] = result
+        globals()[name] = result
         return result
 
 
-- 
2.43.0


From 5edefc633d7fb06c623cfd4882dc466380588199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 28/47] fix: index built-in class methods

---
 paradigm/_core/index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paradigm/_core/index.py b/paradigm/_core/index.py
index a90cc48..6a06183 100644
--- a/paradigm/_core/index.py
+++ b/paradigm/_core/index.py
@@ -31,6 +31,9 @@ def _index_module_or_type(namespace: namespacing.ModuleOrType,
                 and isinstance(value.__func__, types.BuiltinFunctionType)):
             # can't be located by its own attributes
             value = value.__func__
+        elif isinstance(value, types.ClassMethodDescriptorType):
+            # same
+            value = getattr(namespace, name)
         if isinstance(value, type):
             if value not in visited_classes:
                 object_path = parent_path + (name,)
-- 
2.43.0


From a563638ca17e013e2215eb254187e07bdac1aab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:07 +0000
Subject: [PATCH 29/47] fix: tell apart same names in specializations of
 generics

---
 paradigm/_core/stubs.py | 337 +++++++++++++++++-----------------------
 1 file changed, 144 insertions(+), 193 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 86ebcb7..57efe31 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -629,23 +629,101 @@ if _reload_cache:
             return []
 
 
-    class _SpecializeGeneric(_ast.NodeTransformer):
-        def __init__(self, table: _t.Dict[_catalog.Path, _ast.expr]) -> None:
+    class _QualifyNames(_ast.NodeTransformer):
+        def __init__(
+                self,
+                module_path: _catalog.Path,
+                parent_path: _catalog.Path,
+                specializations_references: _ModuleReferences,
+                modules_definitions: _t.Dict[_catalog.Path, _Scope],
+                modules_nodes_kinds: _t.Dict[
+                    _catalog.Path, _ModuleAstNodesKinds
+                ],
+                modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
+                modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
+                modules_superclasses: _t.Dict[
+                    _catalog.Path, _ModuleSuperclasses
+                ]
+        ) -> None:
+            (
+                self.module_path, self.modules_definitions,
+                self.modules_nodes_kinds, self.modules_references,
+                self.modules_submodules, self.modules_superclasses,
+                self.parent_path, self.specializations_references
+            ) = (
+                module_path, modules_definitions, modules_nodes_kinds,
+                modules_references, modules_submodules, modules_superclasses,
+                parent_path, specializations_references
+            )
+
+        def visit_Name(
+                self,
+                node: _ast.Name,
+                *,
+                builtins_module_path: _catalog.Path
+                = _catalog.module_path_from_module(_builtins)
+        ) -> _ast.expr:
+            if not isinstance(node.ctx, _ast.Load):
+                return node
+            name_path = (node.id,)
+            try:
+                module_path, object_path = self._resolve_object_path(
+                        self.parent_path, name_path
+                )
+                if (len(object_path) > 1
+                        and self.modules_nodes_kinds[module_path].get(
+                                object_path
+                        ) in (_NodeKind.ASYNC_FUNCTION, _NodeKind.FUNCTION)):
+                    # methods don't hide names from outer scopes
+                    module_path, object_path = self._resolve_object_path(
+                            (), name_path
+                    )
+            except _scoping.ObjectNotFound:
+                return node
+            if (module_path, object_path) == (builtins_module_path, name_path):
+                return node
+            # names with dots can't be defined
+            qualified_name = _catalog.path_to_string(module_path + object_path)
+            self.specializations_references[(qualified_name,)] = (module_path,
+                                                                  object_path)
+            return _ast.copy_location(_ast.Name(qualified_name, node.ctx),
+                                      node)
+
+        def _resolve_object_path(
+                self, parent_path: _catalog.Path, object_path: _catalog.Path
+        ) -> _catalog.QualifiedPath:
+            return _scoping.resolve_object_path(
+                    self.module_path, parent_path, object_path,
+                    self.modules_definitions, self.modules_references,
+                    self.modules_submodules, self.modules_superclasses
+            )
+
+
+    class _SpecializeGeneric(_QualifyNames):
+        def __init__(
+                self,
+                table: _t.Dict[_catalog.Path, _ast.expr],
+                *args: _t.Any
+        ) -> None:
+            super().__init__(*args)
             self.table = table
 
-        def visit_Name(self, node: _ast.Name) -> _ast.expr:
+        def visit_Name(self, node: _ast.Name, **kwargs: _t.Any) -> _ast.expr:
             if not isinstance(node.ctx, _ast.Load):
                 return node
             candidate = self.table.get(_conversion.to_path(node))
-            return (node
+            return (super().visit_Name(node, **kwargs)
                     if candidate is None
                     else _ast.copy_location(_deepcopy(candidate), node))
 
-        def visit_Attribute(self, node: _ast.Attribute) -> _ast.expr:
+        def visit_Attribute(self, node: _ast.Attribute) -> _ast.AST:
             if not isinstance(node.ctx, _ast.Load):
                 return node
-            candidate = self.table.get(_conversion.to_path(node))
-            return (node
+            node_path = _conversion.to_maybe_path(node)
+            candidate = (None
+                         if node_path is None
+                         else self.table.get(node_path))
+            return (self.generic_visit(node)
                     if candidate is None
                     else _ast.copy_location(_deepcopy(candidate), node))
 
@@ -776,208 +854,81 @@ if _reload_cache:
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
             modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
     ) -> _catalog.QualifiedPath:
-        if _is_generic_specialization(base):
-            base_name = _serialization.to_identifier(base)
-            base_object_path = (base_name,)
-            if base_name not in specializations_module_scope:
-                specialization_args = _unpack_ast_node(
-                        _subscript_to_item(base)
-                )
-                generic_object_path = _conversion.to_path(base.value)
-                generic_module_path, generic_object_path = (
-                    _scoping.resolve_object_path(
-                            child_module_path, child_object_path[:-1],
-                            generic_object_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
-                    )
-                )
-                generic_parameters_paths = generics_parameters_paths[
-                    (generic_module_path, generic_object_path)
-                ]
-                _register_generic_specialization(
-                        generic_module_path, generic_object_path,
-                        child_module_path, base_object_path,
-                        generic_parameters_paths,
-                        specialization_args, specializations_ast_nodes,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
-                )
-                assert base_object_path not in modules_superclasses.get(
-                        specializations_module_path, {}
-                )
-                specialization_table = dict(zip(generic_parameters_paths,
-                                                specialization_args))
-                specialize = _SpecializeGeneric(specialization_table).visit
-                generic_bases = classes_bases[(generic_module_path,
-                                               generic_object_path)]
-                for generic_base in generic_bases:
-                    base_base_module_path: _catalog.Path
-                    base_base_object_path: _catalog.Path
-                    if _is_generic_specialization(generic_base):
-                        # transformer works in-place
-                        base_base_node = specialize(
-                                _deepcopy(generic_base)
-                        )
-                        base_base_name = _serialization.to_identifier(
-                                base_base_node
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            specializations_module_path, (base_base_name,)
-                        )
-                        if base_base_name not in specializations_module_scope:
-                            generic_base_base_object_path = (
-                                _conversion.to_path(generic_base.value)
-                            )
-                            (
-                                generic_base_base_module_path,
-                                generic_base_base_object_path
-                            ) = _scoping.resolve_object_path(
-                                    generic_module_path,
-                                    generic_object_path[:-1],
-                                    generic_base_base_object_path,
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                            generic_base_base_parameters_paths = (
-                                generics_parameters_paths[
-                                    (generic_base_base_module_path,
-                                     generic_base_base_object_path)
-                                ]
-                            )
-                            base_base_specialization_args = _unpack_ast_node(
-                                    _subscript_to_item(base_base_node)
-                            )
-                            _register_generic_specialization(
-                                    generic_base_base_module_path,
-                                    generic_base_base_object_path,
-                                    child_module_path, base_base_object_path,
-                                    generic_base_base_parameters_paths,
-                                    base_base_specialization_args,
-                                    specializations_ast_nodes,
-                                    specializations_module_scope,
-                                    specializations_nodes_kinds,
-                                    specializations_references,
-                                    modules_ast_nodes, modules_definitions,
-                                    modules_nodes_kinds, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                    else:
-                        base_base_object_path = _conversion.to_path(
-                                generic_base
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            _scoping.resolve_object_path(
-                                    generic_module_path, (),
-                                    base_base_object_path, modules_definitions,
-                                    modules_references, modules_submodules,
-                                    modules_superclasses
-                            )
-                        )
-                    modules_superclasses.setdefault(
-                            specializations_module_path, {}
-                    ).setdefault(base_object_path, []).append(
-                            (base_base_module_path, base_base_object_path)
-                    )
-            return specializations_module_path, base_object_path
-        else:
-            base_reference_path = _conversion.to_path(base)
+        if not _is_generic_specialization(base):
             return _scoping.resolve_object_path(
                     child_module_path, child_object_path[:-1],
-                    base_reference_path, modules_definitions,
+                    _conversion.to_path(base), modules_definitions,
                     modules_references, modules_submodules,
                     modules_superclasses
             )
-
-
-    def _register_generic_specialization(
-            generic_module_path: _catalog.Path,
-            generic_object_path: _catalog.Path,
-            specialization_module_path: _catalog.Path,
-            specialization_object_path: _catalog.Path,
-            generic_parameters_paths: _t.Sequence[_catalog.Path],
-            specialization_args: _t.Sequence[_ast.expr],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
-            modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-            modules_definitions: _t.Dict[_catalog.Path, _Scope],
-            modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
-            modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Mapping[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Mapping[
-                _catalog.Path, _ModuleSuperclasses
-            ],
-            builtins_module_path: _catalog.Path
-            = _catalog.module_path_from_module(_builtins)
-    ) -> None:
-        base_scope = specializations_module_scope
-        for part in specialization_object_path:
-            base_scope = base_scope.setdefault(part, {})
+        generic_module_path, generic_object_path = (
+            _scoping.resolve_object_path(
+                    child_module_path, child_object_path[:-1],
+                    _conversion.to_path(base.value), modules_definitions,
+                    modules_references, modules_submodules,
+                    modules_superclasses
+            )
+        )
+        # same names in different modules may denote different objects
+        specialization_node = _QualifyNames(
+                child_module_path, child_object_path[:-1],
+                specializations_references, modules_definitions,
+                modules_nodes_kinds, modules_references, modules_submodules,
+                modules_superclasses
+        ).visit(_deepcopy(base))
+        specialization_name = _serialization.to_identifier(specialization_node)
+        specialization_path = (specialization_name,)
+        if specialization_name in specializations_module_scope:
+            return specializations_module_path, specialization_path
+        specialize = _SpecializeGeneric(
+                dict(zip(generics_parameters_paths[(generic_module_path,
+                                                    generic_object_path)],
+                         _unpack_ast_node(
+                                 _subscript_to_item(specialization_node)
+                         ))),
+                generic_module_path, generic_object_path,
+                specializations_references, modules_definitions,
+                modules_nodes_kinds, modules_references, modules_submodules,
+                modules_superclasses
+        ).visit
         generic_scope = modules_definitions[generic_module_path]
         for part in generic_object_path:
             generic_scope = generic_scope[part]
-        base_scope.update(generic_scope)
+        specializations_module_scope[specialization_name] = {**generic_scope}
+        specializations_nodes_kinds[specialization_path] = _NodeKind.CLASS
         generic_module_ast_nodes = modules_ast_nodes[generic_module_path]
-        specializations_nodes_kinds[
-            specialization_object_path
-        ] = _NodeKind.CLASS
-        specialize = _SpecializeGeneric(
-                dict(zip(generic_parameters_paths, specialization_args))
-        ).visit
-        args_names = (
-                {arg.id
-                 for arg in specialization_args
-                 if _is_dependency_name(arg)}
-                | {child.id
-                   for ast_node in specialization_args
-                   for child in _recursively_iterate_children(ast_node)
-                   if _is_dependency_name(child)}
-        )
         for name in generic_scope.keys():
             generic_field_path = (*generic_object_path, name)
-            generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
-            specialization_field_path = (*specialization_object_path, name)
-            specialization_ast_nodes = specializations_ast_nodes[
-                specialization_field_path
-            ] = [specialize(_deepcopy(ast_node))
-                 for ast_node in generic_ast_nodes]
-            specialization_definitions_names = set(
-                    chain.from_iterable(
-                            _conversion.to_names(ast_node)
-                            for ast_node in specialization_ast_nodes
-                    )
+            specialization_field_path = (*specialization_path, name)
+            specializations_ast_nodes[specialization_field_path] = [
+                # transformer works in-place
+                specialize(_deepcopy(ast_node))
+                for ast_node in generic_module_ast_nodes[generic_field_path]
+            ]
+            specializations_nodes_kinds[specialization_field_path] = (
+                modules_nodes_kinds[generic_module_path][generic_field_path]
             )
-            for dependency_name in (
-                    {child.id
-                     for ast_node in specialization_ast_nodes
-                     for child in _recursively_iterate_children(ast_node)
-                     if _is_dependency_name(child)}
-                    - specialization_definitions_names
-            ):
-                dependency_path = (dependency_name,)
-                dependency_module_path, dependency_object_path = (
-                    _scoping.resolve_object_path(
-                            (specialization_module_path
-                             if dependency_name in args_names
-                             else generic_module_path), (),
-                            dependency_path, modules_definitions,
+        specialization_superclasses = modules_superclasses.setdefault(
+                specializations_module_path, {}
+        )[specialization_path] = []
+        for generic_base in classes_bases[(generic_module_path,
+                                           generic_object_path)]:
+            specialization_superclasses.append(
+                    _register_base_ast_node(
+                            specialize(_deepcopy(generic_base)),
+                            specializations_module_path, specialization_path,
+                            classes_bases, generics_parameters_paths,
+                            specializations_ast_nodes,
+                            specializations_module_path,
+                            specializations_module_scope,
+                            specializations_nodes_kinds,
+                            specializations_references, modules_ast_nodes,
+                            modules_definitions, modules_nodes_kinds,
                             modules_references, modules_submodules,
                             modules_superclasses
                     )
-                )
-                if dependency_module_path != builtins_module_path:
-                    specializations_references[dependency_path] = (
-                        dependency_module_path, dependency_object_path
-                    )
-            specializations_nodes_kinds[specialization_field_path] = (
-                modules_nodes_kinds[generic_module_path][generic_field_path]
             )
+        return specializations_module_path, specialization_path
 
 
     if _execution.is_main_process():
-- 
2.43.0


From d1fb9754edfba21a2480e1719305fee93e22fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 30/47] fix: index class and static methods of re-exported
 classes

---
 paradigm/_core/index.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/index.py b/paradigm/_core/index.py
index 6a06183..c0cc4b7 100644
--- a/paradigm/_core/index.py
+++ b/paradigm/_core/index.py
@@ -27,8 +27,11 @@ def _index_module_or_type(namespace: namespacing.ModuleOrType,
                           parent_path: catalog.Path,
                           visited_classes: t.Set[type]) -> None:
     for name, value in vars(namespace).items():
-        if (isinstance(value, staticmethod)
-                and isinstance(value.__func__, types.BuiltinFunctionType)):
+        if (isinstance(value, (classmethod, staticmethod))
+                and (isinstance(value.__func__, types.BuiltinFunctionType)
+                     or (isinstance(value.__func__, types.FunctionType)
+                         # constructors are rarely declared explicitly
+                         and name != object.__new__.__name__))):
             # can't be located by its own attributes
             value = value.__func__
         elif isinstance(value, types.ClassMethodDescriptorType):
-- 
2.43.0


From 10193df35d39fb903f87f917033cd7c5e40170e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 31/47] fix: resolve objects independently of imported modules

---
 paradigm/_core/signatures.py | 80 +++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 38 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 63a05b2..e47baf5 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -6,6 +6,7 @@ import types as _types
 import typing as _t
 from functools import (partial as _partial,
                        singledispatch as _singledispatch)
+from importlib import import_module as _import_module
 from itertools import zip_longest as _zip_longest
 
 from typing_extensions import Self as _Self
@@ -537,46 +538,52 @@ def _statement_node_from_raw(raw: _conversion.RawAstNode) -> _ast.stmt:
 def resolve_qualified_paths(
         value: _t.Callable[..., _t.Any]
 ) -> _t.List[_catalog.QualifiedPath]:
-    module_path, object_path = _catalog.qualified_path_from(value)
+    own_path = module_path, object_path = _catalog.qualified_path_from(value)
     if not object_path:
         return []
     try:
         candidates_paths = _qualified_paths[module_path][object_path]
     except KeyError:
-        qualified_paths = ([(module_path, object_path)]
-                           if (module_path
-                               and _value_has_qualified_path(
-                                           value, (module_path, object_path)
-                                   ))
-                           else [])
+        candidates_paths = []
     else:
-        qualified_paths = [path
-                           for path in candidates_paths
-                           if _value_has_qualified_path(value, path)]
-    qualified_paths = [
-        path
-        for path in qualified_paths
-        if (not _is_builtin_from_outer_scope(*path)
-            # objects sharing names with built-ins are not built-ins
-            or _value_has_qualified_path(value, (_builtins_module_path,
-                                                 path[1])))
-    ]
-    own_path = (
-        _try_resolve_object_path(module_path, object_path)
-        if (qualified_paths
-            and _value_has_qualified_path(value, (module_path, object_path)))
-        else ((), ())
-    )
-    return sorted(
-            {
-                path
-                for path in [_try_resolve_object_path(*path)
-                             for path in qualified_paths]
-                if all(path)
-            },
-            # path by which object calls itself goes first
-            key=lambda path: (path != own_path, path)
-    )
+        if own_path in candidates_paths:
+            _try_import_module(module_path)
+    # path by which object calls itself is preferred to any other
+    result = _try_resolve_candidate_path(value, own_path)
+    if all(result):
+        return [result]
+    results = set()
+    for candidate_path in candidates_paths:
+        if candidate_path != own_path:
+            candidate_module_path, _ = candidate_path
+            # result should not depend on what has been imported so far
+            _try_import_module(candidate_module_path)
+            result = _try_resolve_candidate_path(value, candidate_path)
+            if all(result):
+                results.add(result)
+    return sorted(results)
+
+
+def _try_import_module(path: _catalog.Path) -> None:
+    try:
+        # also waits for the import being done by other thread
+        _import_module(_catalog.path_to_string(path))
+    except Exception:
+        pass
+
+
+def _try_resolve_candidate_path(
+        value: _t.Any, path: _catalog.QualifiedPath
+) -> _catalog.QualifiedPath:
+    module_path, object_path = path
+    return (_try_resolve_object_path(module_path, object_path)
+            if (_value_has_qualified_path(value, path)
+                and (not _is_builtin_from_outer_scope(*path)
+                     # objects sharing names with built-ins are not built-ins
+                     or _value_has_qualified_path(value,
+                                                  (_builtins_module_path,
+                                                   object_path))))
+            else ((), ()))
 
 
 def _to_class_builder_qualified_path(
@@ -610,10 +617,7 @@ def _value_has_qualified_path(value: _t.Any,
     module_name = _catalog.path_to_string(module_path)
     candidate = _sys.modules.get(module_name)
     if candidate is None:
-        # undecidable, let's keep it for objects that are what they claim to be
-        value_path = _catalog.qualified_path_from(value)
-        return (path != value_path
-                and _value_has_qualified_path(value, value_path))
+        return False
     for part in object_path:
         try:
             candidate = getattr(candidate, _to_attribute_name(candidate, part))
-- 
2.43.0


From c45fa07b4e3ee3c8c30dec24d8fe49c0af8390c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 32/47] fix: forget placeholders of failed evaluations

---
 paradigm/_core/arboreal/evaluation.py | 51 ++++++++++++++++++---------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 29cda15..d777e5d 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -227,16 +227,23 @@ def _(ast_node: ast.Assign,
         try:
             result = cache[target_path]
         except KeyError:
-            _, target_object_path = target_path
-            cache[target_path] = t.ForwardRef(
-                    catalog.path_to_string(target_object_path)
-            )
             continue
         else:
             break
     else:
-        result = evaluate_expression_node(ast_node.value, module_path,
-                                          parent_path, parent_namespace)
+        cache.update({
+            (target_module_path, target_object_path):
+                t.ForwardRef(catalog.path_to_string(target_object_path))
+            for target_module_path, target_object_path in targets_paths
+        })
+        try:
+            result = evaluate_expression_node(ast_node.value, module_path,
+                                              parent_path, parent_namespace)
+        except BaseException:
+            # placeholders should not outlive failed evaluation
+            for target_path in targets_paths:
+                cache.pop(target_path, None)
+            raise
     for target_path in targets_paths:
         cache[target_path] = result
     return result
@@ -332,11 +339,16 @@ def evaluate_qualified_path(
                         module_name
                 )
                 namespace = module.__dict__
-                for name in stubs.definitions[module_path].keys():
-                    namespace[name] = parent_namespace[name] = (
-                        evaluate_qualified_path(module_path, (name,),
-                                                parent_namespace)
-                    )
+                try:
+                    for name in stubs.definitions[module_path].keys():
+                        namespace[name] = parent_namespace[name] = (
+                            evaluate_qualified_path(module_path, (name,),
+                                                    parent_namespace)
+                        )
+                except BaseException:
+                    # incomplete module should not outlive failed evaluation
+                    modules_cache.pop(module_path, None)
+                    raise
                 return module
     else:
         try:
@@ -450,12 +462,17 @@ def evaluate_qualified_path(
             (module_path, object_path)
         ] = result
         if annotations_nodes:
-            result.__annotations__.update({
-                name: evaluate_expression_node(annotation_node,
-                                               module_path, object_path,
-                                               parent_namespace)
-                for name, annotation_node in annotations_nodes.items()
-            })
+            try:
+                result.__annotations__.update({
+                    name: evaluate_expression_node(annotation_node,
+                                                   module_path, object_path,
+                                                   parent_namespace)
+                    for name, annotation_node in annotations_nodes.items()
+                })
+            except BaseException:
+                # incomplete class should not outlive failed evaluation
+                objects_cache.pop((module_path, object_path), None)
+                raise
         globals()[name] = result
         return result
 
-- 
2.43.0


From 2a5209c0277248550a0620b8cba1057867160cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 33/47] fix: hide placeholders from other threads

---
 paradigm/_core/arboreal/evaluation.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index d777e5d..1f348d8 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -1,7 +1,9 @@
 import ast
 import builtins
 import operator
+import os
 import sys
+import threading
 import types
 import typing as t
 import weakref
@@ -311,7 +313,26 @@ def _(ast_node: ast.Attribute,
                                        parent_namespace)
 
 
+# caches contain placeholders & incomplete objects in the middle of evaluation
+_evaluation_lock = threading.RLock()
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(before=_evaluation_lock.acquire,
+                        after_in_parent=_evaluation_lock.release,
+                        after_in_child=_evaluation_lock.release)
+
+
 def evaluate_qualified_path(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        parent_namespace: namespacing.Namespace
+) -> t.Any:
+    with _evaluation_lock:
+        return _evaluate_qualified_path(module_path, object_path,
+                                        parent_namespace)
+
+
+def _evaluate_qualified_path(
         module_path: catalog.Path,
         object_path: catalog.Path,
         parent_namespace: namespacing.Namespace,
-- 
2.43.0


From 737b07181793845e3d0aa3790aab4d358735491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:24 +0000
Subject: [PATCH 34/47] fix: prepare caches in child processes as well

---
 paradigm/_core/execution.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..58b2c81 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -7,12 +7,18 @@ from multiprocessing.queues import SimpleQueue
 
 
 def is_main_process() -> bool:
-    return multiprocessing.current_process().name == 'MainProcess'
+    # processes made by the others are no different from the main one
+    return not multiprocessing.current_process().name.startswith(
+            call_in_process.__qualname__
+    )
 
 
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
+    if multiprocessing.current_process().daemon:
+        # is not allowed to have children
+        return function(*args, **kwargs)
     with threading.Lock():
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
-- 
2.43.0


From 72c3e12e1887bd136937f0806f6e75b4a3a6de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 35/47] fix: evaluate classes nested in stub-only ones

---
 paradigm/_core/arboreal/evaluation.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 1f348d8..1065579 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -405,6 +405,7 @@ def _evaluate_qualified_path(
         class_namespace: namespacing.Namespace = {'__module__': __name__}
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
+        nested_classes_names = []
         is_named_tuple = (
                 (typing_module_path, named_tuple_object_path)
                 in stubs.superclasses.get(module_path, {}).get(object_path, [])
@@ -413,6 +414,10 @@ def _evaluate_qualified_path(
             if is_named_tuple and name == object.__new__.__name__:
                 # can't be overwritten
                 continue
+            if (stubs.nodes_kinds[module_path].get((*object_path, name))
+                    is NodeKind.CLASS):
+                nested_classes_names.append(name)
+                continue
             raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
             ast_nodes = [construction.from_raw(raw_ast_node)
                          for raw_ast_node in raw_ast_nodes]
@@ -482,18 +487,24 @@ def _evaluate_qualified_path(
         parent_namespace[object_path[-1]] = objects_cache[
             (module_path, object_path)
         ] = result
-        if annotations_nodes:
-            try:
+        try:
+            for nested_class_name in nested_classes_names:
+                setattr(result, nested_class_name,
+                        evaluate_qualified_path(
+                                module_path, (*object_path, nested_class_name),
+                                module_namespace
+                        ))
+            if annotations_nodes:
                 result.__annotations__.update({
                     name: evaluate_expression_node(annotation_node,
                                                    module_path, object_path,
                                                    parent_namespace)
                     for name, annotation_node in annotations_nodes.items()
                 })
-            except BaseException:
-                # incomplete class should not outlive failed evaluation
-                objects_cache.pop((module_path, object_path), None)
-                raise
+        except BaseException:
+            # incomplete class should not outlive failed evaluation
+            objects_cache.pop((module_path, object_path), None)
+            raise
         globals()[name] = result
         return result
 
-- 
2.43.0


From ed66cd2d1eafbafd7161dd6aec8ccc14beef6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 36/47] fix: process lists and unions among arguments of
 generic bases

---
 paradigm/_core/arboreal/conversion.py |  8 ++++++++
 paradigm/_core/stubs.py               | 27 ++++++++++++++-------------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index 1680a14..0c5352e 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -86,6 +86,14 @@ def _(ast_node: ast.BinOp) -> str:
             + to_identifier(ast_node.right))
 
 
+@to_identifier.register(ast.List)
+def _(ast_node: ast.List) -> str:
+    assert isinstance(ast_node.ctx, ast.Load), ast_node
+    return '_'.join(['list',
+                     *[to_identifier(element) for element in ast_node.elts],
+                     'end'])
+
+
 @to_identifier.register(ast.Tuple)
 def _(ast_node: ast.Tuple) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 57efe31..d4dea08 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -613,20 +613,21 @@ if _reload_cache:
 
 
     def _collect_type_args(ast_node: _ast.expr) -> _t.List[_ast.expr]:
-        if _is_generic_specialization(ast_node):
-            queue = [_subscript_to_item(ast_node)]
-            args: _t.List[_ast.expr] = []
-            while queue:
-                specialization_node = queue.pop()
-                candidates = _unpack_ast_node(specialization_node)
-                for candidate in reversed(candidates):
-                    if _is_generic_specialization(candidate):
-                        queue.append(_subscript_to_item(candidate))
-                    else:
-                        args.append(candidate)
-            return args[::-1]
-        else:
+        if not _is_generic_specialization(ast_node):
             return []
+        queue = [_subscript_to_item(ast_node)]
+        args: _t.List[_ast.expr] = []
+        while queue:
+            candidate = queue.pop()
+            if _is_generic_specialization(candidate):
+                queue.append(_subscript_to_item(candidate))
+            elif isinstance(candidate, (_ast.List, _ast.Tuple)):
+                queue.extend(reversed(candidate.elts))
+            elif isinstance(candidate, _ast.BinOp):
+                queue.extend([candidate.right, candidate.left])
+            else:
+                args.append(candidate)
+        return args
 
 
     class _QualifyNames(_ast.NodeTransformer):
-- 
2.43.0


From f2ea1edea11ce238ddfb57e30183a528eba29e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 37/47] fix: resolve constructors results of nested named
 tuples

---
 paradigm/_core/stubs.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index d4dea08..e92c204 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -94,7 +94,8 @@ if _reload_cache:
 
 
     def _named_tuple_to_constructor_ast_node(
-            ast_node: _ast.ClassDef
+            ast_node: _ast.ClassDef,
+            class_path: _catalog.Path
     ) -> _ast.FunctionDef:
         annotations_ast_nodes: _t.List[_ast.AnnAssign] = [
             ast_child_node
@@ -107,10 +108,18 @@ if _reload_cache:
                 '__new__',
                 _annotations_to_signature(annotations_ast_nodes),
                 [_ast.Expr(_ast.Ellipsis())], [],
-                _ast.Name(ast_node.name, _ast.Load())
+                _path_to_expression(class_path)
         )
 
 
+    def _path_to_expression(path: _catalog.Path) -> _ast.expr:
+        first_name, *rest_names = path
+        result: _ast.expr = _ast.Name(first_name, _ast.Load())
+        for name in rest_names:
+            result = _ast.Attribute(result, name, _ast.Load())
+        return result
+
+
     def _annotations_to_signature(
             ast_nodes: _t.List[_ast.AnnAssign]
     ) -> _ast.arguments:
@@ -299,7 +308,8 @@ if _reload_cache:
                     if (base_module_path == typing_module_path
                             and base_object_path == named_tuple_object_path):
                         constructor_node = (
-                            _named_tuple_to_constructor_ast_node(node)
+                            _named_tuple_to_constructor_ast_node(node,
+                                                                 class_path)
                         )
                         constructor_path = (class_name, constructor_node.name)
                         self._add_ast_node(constructor_path, constructor_node)
-- 
2.43.0


From f1be2cba237a662a8213319aba53ab05e34773c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 38/47] fix: resolve dotted names in specialisations of
 generics

---
 paradigm/_core/stubs.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index e92c204..0d19ce2 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -693,6 +693,24 @@ if _reload_cache:
                 return node
             if (module_path, object_path) == (builtins_module_path, name_path):
                 return node
+            return self._qualify(node, module_path, object_path)
+
+        def visit_Attribute(self, node: _ast.Attribute) -> _ast.AST:
+            node_path = _conversion.to_maybe_path(node)
+            if node_path is None or not isinstance(node.ctx, _ast.Load):
+                return self.generic_visit(node)
+            try:
+                module_path, object_path = self._resolve_object_path(
+                        self.parent_path, node_path
+                )
+            except _scoping.ObjectNotFound:
+                return self.generic_visit(node)
+            return self._qualify(node, module_path, object_path)
+
+        def _qualify(self,
+                     node: _t.Union[_ast.Attribute, _ast.Name],
+                     module_path: _catalog.Path,
+                     object_path: _catalog.Path) -> _ast.Name:
             # names with dots can't be defined
             qualified_name = _catalog.path_to_string(module_path + object_path)
             self.specializations_references[(qualified_name,)] = (module_path,
@@ -734,7 +752,7 @@ if _reload_cache:
             candidate = (None
                          if node_path is None
                          else self.table.get(node_path))
-            return (self.generic_visit(node)
+            return (super().visit_Attribute(node)
                     if candidate is None
                     else _ast.copy_location(_deepcopy(candidate), node))
 
-- 
2.43.0


From b5323cfda2ca9526c5de9977ed699a227d78343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:38 +0000
Subject: [PATCH 39/47] fix: process classes nested in specialised generics

---
 paradigm/_core/stubs.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 0d19ce2..31fd8ca 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -929,6 +929,23 @@ if _reload_cache:
         for name in generic_scope.keys():
             generic_field_path = (*generic_object_path, name)
             specialization_field_path = (*specialization_path, name)
+            if (modules_nodes_kinds[generic_module_path].get(
+                    generic_field_path
+            ) is _NodeKind.CLASS):
+                # nested classes don't depend on parameters of outer ones
+                qualified_name = _catalog.path_to_string(generic_module_path
+                                                         + generic_field_path)
+                specializations_references[(qualified_name,)] = (
+                    generic_module_path, generic_field_path
+                )
+                specializations_ast_nodes[specialization_field_path] = [
+                    _ast.Assign([_ast.Name(name, _ast.Store())],
+                                _ast.Name(qualified_name, _ast.Load()))
+                ]
+                specializations_nodes_kinds[specialization_field_path] = (
+                    _NodeKind.ASSIGNMENT
+                )
+                continue
             specializations_ast_nodes[specialization_field_path] = [
                 # transformer works in-place
                 specialize(_deepcopy(ast_node))
-- 
2.43.0


From ed996588f1510e85de55042200c6830301496005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 40/47] fix: prefer names imported explicitly to the ones from
 star imports

---
 paradigm/_core/scoping.py | 22 +++++++++++-----------
 paradigm/_core/stubs.py   | 25 ++++++++++++-------------
 2 files changed, 23 insertions(+), 24 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index 29f4f79..b0e47dc 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -100,17 +100,6 @@ def resolve_object_path(
                 raise ObjectNotFound((module_path, object_path))
         return (module_path, object_path)
     else:
-        for sub_module_path in modules_submodules.get(module_path, []):
-            if sub_module_path not in visited_modules_paths:
-                try:
-                    return resolve_object_path(
-                            sub_module_path, (), object_path,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path
-                    )
-                except ObjectNotFound:
-                    continue
         module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
@@ -147,6 +136,17 @@ def resolve_object_path(
                         modules_submodules, modules_superclasses,
                         *visited_modules_paths, module_path
                 )
+        for sub_module_path in modules_submodules.get(module_path, []):
+            if sub_module_path not in visited_modules_paths:
+                try:
+                    return resolve_object_path(
+                            sub_module_path, (), object_path,
+                            modules_definitions, modules_references,
+                            modules_submodules, modules_superclasses,
+                            *visited_modules_paths, module_path
+                    )
+                except ObjectNotFound:
+                    continue
         if scope_contains_path(modules_definitions[_builtins_module_path],
                                object_path):
             return _builtins_module_path, object_path
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 31fd8ca..65175aa 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -542,19 +542,6 @@ if _reload_cache:
             return module_path, parent_path + object_path
         elif first_name in module_definitions:
             return module_path, object_path
-        else:
-            for sub_module_path in modules_submodules.get(module_path, []):
-                try:
-                    return _resolve_object_path(
-                            sub_module_path, (), object_path,
-                            modules_ast_nodes, modules_ast_nodes_kinds,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            visited_modules_paths, classes_bases,
-                            generics_parameters_paths
-                    )
-                except _ObjectNotFound:
-                    continue
         module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
@@ -568,6 +555,18 @@ if _reload_cache:
                 return (referent_module_name,
                         (referent_object_path
                          + object_path[len(object_path) - offset:]))
+        for sub_module_path in modules_submodules.get(module_path, []):
+            try:
+                return _resolve_object_path(
+                        sub_module_path, (), object_path,
+                        modules_ast_nodes, modules_ast_nodes_kinds,
+                        modules_definitions, modules_references,
+                        modules_submodules, modules_superclasses,
+                        visited_modules_paths, classes_bases,
+                        generics_parameters_paths
+                )
+            except _ObjectNotFound:
+                continue
         if _scoping.scope_contains_path(
                 modules_definitions[_builtins_module_path], object_path
         ):
-- 
2.43.0


From f8c068a3809850feb83c4baff7085a14dda4af98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 41/47] fix: don't let equally named stub-only classes replace
 each other

---
 paradigm/_core/arboreal/evaluation.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 1065579..002e4be 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -472,17 +472,20 @@ def _evaluate_qualified_path(
         )
         if annotations_nodes:
             class_namespace['__annotations__'] = {}
-        name = catalog.path_to_string(object_path)
+        # equally named classes should not replace each other
+        unique_name = catalog.path_to_string(module_path
+                                             + object_path).replace('.', '_')
+        class_namespace['__qualname__'] = unique_name
 
         def fill(namespace: namespacing.Namespace) -> None:
             namespace.update(class_namespace)
 
         try:
-            result = types.new_class(name, bases,
+            result = types.new_class(object_path[-1], bases,
                                      exec_body=fill)
         except TypeError:
             # e.g. bases are not supposed to be inherited from this way
-            result = types.new_class(name,
+            result = types.new_class(object_path[-1],
                                      exec_body=fill)
         parent_namespace[object_path[-1]] = objects_cache[
             (module_path, object_path)
@@ -505,7 +508,7 @@ def _evaluate_qualified_path(
             # incomplete class should not outlive failed evaluation
             objects_cache.pop((module_path, object_path), None)
             raise
-        globals()[name] = result
+        globals()[unique_name] = result
         return result
 
 
-- 
2.43.0


From 9cce5de3184610e7568458ffe306b9f3ba2bad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 42/47] fix: process negative literals among arguments of
 generic bases

---
 paradigm/_core/arboreal/conversion.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index 0c5352e..a2eb5aa 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -79,6 +79,22 @@ def _(ast_node: ast.BitXor) -> str:
     return 'bitxor'
 
 
+@to_identifier.register(ast.UAdd)
+def _(ast_node: ast.UAdd) -> str:
+    return 'pos'
+
+
+@to_identifier.register(ast.USub)
+def _(ast_node: ast.USub) -> str:
+    return 'neg'
+
+
+@to_identifier.register(ast.UnaryOp)
+def _(ast_node: ast.UnaryOp) -> str:
+    return (to_identifier(ast_node.op) + '_'
+            + to_identifier(ast_node.operand))
+
+
 @to_identifier.register(ast.BinOp)
 def _(ast_node: ast.BinOp) -> str:
     return (to_identifier(ast_node.left)
-- 
2.43.0


From 08c0db7b6d65ee3e7f201ae39acbc7da77c94057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 43/47] fix: process bases inherited from other classes

---
 paradigm/_core/stubs.py | 52 ++++++++++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 65175aa..d995c1a 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -841,25 +841,39 @@ if _reload_cache:
         specializations_references = modules_references[
             specializations_module_path
         ] = {}
-        for (class_module_path, class_object_path), class_bases in (
-                classes_bases.items()
-        ):
-            for base in class_bases:
-                base_module_path, base_object_path = _register_base_ast_node(
-                        base, class_module_path, class_object_path,
-                        classes_bases, generics_parameters_paths,
-                        specializations_ast_nodes, specializations_module_path,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
-                )
-                modules_superclasses.setdefault(
-                        class_module_path, {}
-                ).setdefault(class_object_path, []).append((base_module_path,
-                                                            base_object_path))
+        pending_classes_bases = list(classes_bases.items())
+        while pending_classes_bases:
+            postponed_classes_bases = []
+            for class_path, class_bases in pending_classes_bases:
+                class_module_path, class_object_path = class_path
+                try:
+                    superclasses_paths = [
+                        _register_base_ast_node(
+                                base, class_module_path, class_object_path,
+                                classes_bases, generics_parameters_paths,
+                                specializations_ast_nodes,
+                                specializations_module_path,
+                                specializations_module_scope,
+                                specializations_nodes_kinds,
+                                specializations_references, modules_ast_nodes,
+                                modules_definitions, modules_nodes_kinds,
+                                modules_references, modules_submodules,
+                                modules_superclasses
+                        )
+                        for base in class_bases
+                    ]
+                except _scoping.ObjectNotFound:
+                    # may be inherited from not yet processed classes
+                    postponed_classes_bases.append((class_path, class_bases))
+                    continue
+                if superclasses_paths:
+                    modules_superclasses.setdefault(
+                            class_module_path, {}
+                    ).setdefault(class_object_path,
+                                 []).extend(superclasses_paths)
+            if len(postponed_classes_bases) == len(pending_classes_bases):
+                raise _scoping.ObjectNotFound(postponed_classes_bases[0][0])
+            pending_classes_bases = postponed_classes_bases
 
 
     def _register_base_ast_node(
-- 
2.43.0


From 4cd50bd64486b6b998684b53712d81150d6ff060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 44/47] fix: don't call class getitem methods from stubs

---
 paradigm/_core/arboreal/evaluation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 002e4be..4ac5056 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -414,6 +414,9 @@ def _evaluate_qualified_path(
             if is_named_tuple and name == object.__new__.__name__:
                 # can't be overwritten
                 continue
+            if name == '__class_getitem__':
+                # its result is not known
+                continue
             if (stubs.nodes_kinds[module_path].get((*object_path, name))
                     is NodeKind.CLASS):
                 nested_classes_names.append(name)
-- 
2.43.0


From f771959fdbc6b44df48bbb8ffc23acb79a3c3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:39 +0000
Subject: [PATCH 45/47] fix: linearize superclasses the way Python does

---
 paradigm/_core/scoping.py | 67 +++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 24 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b0e47dc..ed836f9 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -165,40 +165,59 @@ def to_mro(
         = (catalog.module_path_from_module(builtins), (object.__name__,))
 ) -> t.List[catalog.QualifiedPath]:
     # classes go before their bases, the most basic of which is an ``object``
-    result: t.List[catalog.QualifiedPath] = [object_qualified_path]
-    _collect_bases(module_path, object_path, modules_definitions,
-                   modules_references, modules_submodules,
-                   modules_superclasses, result)
-    return result[::-1]
+    return [
+        qualified_path
+        for qualified_path in _linearize(
+                module_path, object_path, modules_definitions,
+                modules_references, modules_submodules, modules_superclasses
+        )
+        if qualified_path != object_qualified_path
+    ] + [object_qualified_path]
 
 
-def _collect_bases(
+def _linearize(
         module_path: catalog.Path,
         object_path: catalog.Path,
         modules_definitions: t.Mapping[catalog.Path, Scope],
         modules_references: t.Mapping[catalog.Path, ModuleReferences],
         modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
         modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
-        result: t.List[catalog.QualifiedPath]
-) -> None:
-    if (module_path, object_path) in result:
-        return
-    # going from the last base to the first one
-    for superclass_module_path, superclass_object_path in reversed(
-            list(modules_superclasses.get(module_path, {}).get(object_path,
-                                                               []))
+        *children: catalog.QualifiedPath
+) -> t.List[catalog.QualifiedPath]:
+    result = [(module_path, object_path)]
+    superclasses: t.List[catalog.QualifiedPath] = []
+    for superclass_module_path, superclass_object_path in (
+            modules_superclasses.get(module_path, {}).get(object_path, [])
     ):
         try:
-            superclass_module_path, superclass_object_path = (
-                resolve_object_path(
-                        superclass_module_path, (), superclass_object_path,
-                        modules_definitions, modules_references,
-                        modules_submodules, modules_superclasses
-                )
+            superclass = resolve_object_path(
+                    superclass_module_path, (), superclass_object_path,
+                    modules_definitions, modules_references,
+                    modules_submodules, modules_superclasses
             )
         except ObjectNotFound:
             continue
-        _collect_bases(superclass_module_path, superclass_object_path,
-                       modules_definitions, modules_references,
-                       modules_submodules, modules_superclasses, result)
-    result.append((module_path, object_path))
+        if (superclass not in superclasses and superclass not in result
+                and superclass not in children):
+            superclasses.append(superclass)
+    sequences = [
+        _linearize(*superclass, modules_definitions, modules_references,
+                   modules_submodules, modules_superclasses, *children,
+                   *result)
+        for superclass in superclasses
+    ]
+    sequences.append(superclasses)
+    # same as for runtime classes
+    while any(sequences):
+        sequences = [sequence for sequence in sequences if sequence]
+        candidate = next((sequence[0]
+                          for sequence in sequences
+                          if not any(sequence[0] in other_sequence[1:]
+                                     for other_sequence in sequences)),
+                         sequences[0][0])
+        result.append(candidate)
+        sequences = [[qualified_path
+                      for qualified_path in sequence
+                      if qualified_path != candidate]
+                     for sequence in sequences]
+    return result
-- 
2.43.0


From 1fc503f2e562bcebe30f999748522f50401f3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 46/47] fix: keep names assigned in bodies of classes out of
 scopes of modules

---
 paradigm/_core/scoping.py | 27 +++++++++++++++++++++------
 paradigm/_core/stubs.py   | 20 +++++++++++++++++---
 2 files changed, 38 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index ed836f9..16ceb23 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -64,8 +64,11 @@ def resolve_object_path(
     if not object_path:
         return (module_path, object_path)
     assert scope_contains_path(module_definitions, parent_path)
-    if (parent_path and scope_contains_path(module_definitions,
-                                            (*parent_path, object_path[0]))):
+    module_references = modules_references.get(module_path, {})
+    if (parent_path
+            and (scope_contains_path(module_definitions,
+                                     (*parent_path, object_path[0]))
+                 or (*parent_path, object_path[0]) in module_references)):
         return resolve_object_path(
                 module_path, (), parent_path + object_path,
                 modules_definitions, modules_references, modules_submodules,
@@ -80,16 +83,29 @@ def resolve_object_path(
                                          start=1):
             if sub_name in scope:
                 scope = scope[sub_name]
+            elif object_path[:index + 1] in module_references:
+                referent_module_path, referent_object_path = module_references[
+                    object_path[:index + 1]
+                ]
+                return resolve_object_path(
+                        referent_module_path, (),
+                        referent_object_path + object_path[index + 1:],
+                        modules_definitions, modules_references,
+                        modules_submodules, modules_superclasses,
+                        *visited_modules_paths, module_path
+                )
             else:
                 for (
                         superclass_module_path, superclass_object_path
                 ) in to_mro(module_path, object_path[:index],
                             modules_definitions, modules_references,
                             modules_submodules, modules_superclasses)[1:]:
-                    if scope_contains_path(
+                    attribute_path = (*superclass_object_path, sub_name)
+                    if (scope_contains_path(
                             modules_definitions[superclass_module_path],
-                            (*superclass_object_path, sub_name)
-                    ):
+                            attribute_path
+                    ) or (attribute_path
+                          in modules_references[superclass_module_path])):
                         return resolve_object_path(
                                 superclass_module_path, (),
                                 superclass_object_path + object_path[index:],
@@ -100,7 +116,6 @@ def resolve_object_path(
                 raise ObjectNotFound((module_path, object_path))
         return (module_path, object_path)
     else:
-        module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
             try:
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index d995c1a..6895289 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -424,8 +424,9 @@ if _reload_cache:
                            reference_path: _catalog.Path,
                            referent_module_path: _catalog.Path,
                            referent_object_path: _catalog.Path) -> None:
-            self.module_references[reference_path] = (referent_module_path,
-                                                      referent_object_path)
+            self.module_references[self.parent_path + reference_path] = (
+                referent_module_path, referent_object_path
+            )
 
         def _add_submodule(self, module_path: _catalog.Path) -> None:
             self.modules_submodules.setdefault(
@@ -540,9 +541,15 @@ if _reload_cache:
         if _scoping.scope_contains_path(module_definitions,
                                         parent_path + (first_name,)):
             return module_path, parent_path + object_path
+        module_references = modules_references[module_path]
+        if parent_path and parent_path + (first_name,) in module_references:
+            referent_module_path, referent_object_path = module_references[
+                parent_path + (first_name,)
+            ]
+            return (referent_module_path,
+                    referent_object_path + object_path[1:])
         elif first_name in module_definitions:
             return module_path, object_path
-        module_references = modules_references[module_path]
         for offset in range(len(object_path)):
             sub_object_path = object_path[:len(object_path) - offset]
             try:
@@ -967,6 +974,13 @@ if _reload_cache:
             specializations_nodes_kinds[specialization_field_path] = (
                 modules_nodes_kinds[generic_module_path][generic_field_path]
             )
+        for reference_path, referent_path in list(
+                modules_references[generic_module_path].items()
+        ):
+            if reference_path[:-1] == generic_object_path:
+                specializations_references[
+                    (*specialization_path, reference_path[-1])
+                ] = referent_path
         specialization_superclasses = modules_superclasses.setdefault(
                 specializations_module_path, {}
         )[specialization_path] = []
-- 
2.43.0


From c5019f1614b4ea3aa75c8ff506ac8be7449096f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 47/47] fix: take order of type parameters from Generic and
 Protocol

---
 paradigm/_core/stubs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 6895289..fc7c164 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -275,19 +275,22 @@ if _reload_cache:
                                        self.module_path)
             class_bases = self.classes_bases[(module_path, class_path)] = []
             type_vars_local_paths = []
+            # the ones of ``Generic`` or ``Protocol`` determine the order
+            explicit_type_vars_local_paths = []
             for base in node.bases:
                 if _is_generic_specialization(base):
                     type_args_maybe_objects_paths = [
                         _conversion.to_maybe_path(argument)
                         for argument in _collect_type_args(base)
                     ]
-                    type_vars_local_paths += [
+                    base_type_vars_local_paths = [
                         maybe_object_path
                         for maybe_object_path in type_args_maybe_objects_paths
                         if (maybe_object_path is not None
                             and
                             self._is_type_var_object_path(maybe_object_path))
                     ]
+                    type_vars_local_paths += base_type_vars_local_paths
                     base_origin_maybe_object_path = (
                         _conversion.to_maybe_path(base.value)
                     )
@@ -296,6 +299,9 @@ if _reload_cache:
                                     base_origin_maybe_object_path
                             ) in [(typing_module_path, generic_object_path),
                                   (typing_module_path, protocol_object_path)]):
+                        explicit_type_vars_local_paths = (
+                            base_type_vars_local_paths
+                        )
                         continue
                 else:
                     base_reference_path = _conversion.to_path(base)
@@ -327,7 +333,9 @@ if _reload_cache:
                              and base_object_path == generic_object_path)
                     ), (module_path, class_path)
                 class_bases.append(base)
-            generic_parameters = tuple(dict.fromkeys(type_vars_local_paths))
+            generic_parameters = tuple(dict.fromkeys(
+                    explicit_type_vars_local_paths or type_vars_local_paths
+            ))
             if generic_parameters:
                 self.generics_parameters_paths[
                     (module_path, class_path)
-- 
2.43.0

