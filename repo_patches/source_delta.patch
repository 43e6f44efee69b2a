From fec02c14d47092cd6c0c475cbcb37926c60edd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 01/40] fix: reject keywords naming positionally consumed
 parameters in all_set/expects

---
 paradigm/_core/models.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index da4ea56..b44c62f 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -268,6 +268,13 @@ def all_parameters_are_optional(
                for parameter in parameters)
 
 
+def has_multiple_values(bound_positionals: t.Iterable[Parameter],
+                        kwargs: t.Mapping[str, t.Any]) -> bool:
+    return any(parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
+               and parameter.name in kwargs
+               for parameter in bound_positionals)
+
+
 _Arg = t.TypeVar('_Arg')
 _KwArg = t.TypeVar('_KwArg')
 
@@ -316,6 +323,8 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if has_multiple_values(positionals[:len(args)], kwargs):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords: t.Iterable[Parameter] = (
@@ -353,6 +362,8 @@ class PlainSignature(BaseSignature):
         )
         if unexpected_positional_arguments_found:
             return False
+        if has_multiple_values(positionals[:len(args)], kwargs):
+            return False
         rest_positionals = positionals[len(args):]
         rest_positionals_by_kind = to_parameters_by_kind(rest_positionals)
         rest_keywords = (
-- 
2.43.0


From 9ab22f67b326d6bb7ea3f850475b31f23f1eb038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 02/40] fix: let extra keywords share names with bound
 positional-only parameters in bind

---
 paradigm/_core/models.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index b44c62f..47de695 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -387,6 +387,11 @@ class PlainSignature(BaseSignature):
                                         parameters_by_kind[
                                             ParameterKind.VARIADIC_POSITIONAL
                                         ]
+                                ),
+                                has_variadic_keyword=bool(
+                                        parameters_by_kind[
+                                            ParameterKind.VARIADIC_KEYWORD
+                                        ]
                                 )
                         ),
                         kwargs,
@@ -590,7 +595,8 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                       args: t.Tuple[_Arg, ...],
                       kwargs: t.Dict[str, _KwArg],
                       *,
-                      has_variadic: bool) -> t.Tuple[Parameter, ...]:
+                      has_variadic: bool,
+                      has_variadic_keyword: bool) -> t.Tuple[Parameter, ...]:
     def is_positionable(parameter: Parameter) -> bool:
         return (parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
                 or parameter.kind is ParameterKind.POSITIONAL_ONLY)
@@ -608,7 +614,7 @@ def _bind_positionals(parameters: t.Tuple[Parameter, ...],
                     or kind is ParameterKind.KEYWORD_ONLY):
                 raise TypeError('Got multiple values '
                                 f'for parameter "{positional.name}".')
-            else:
+            elif not has_variadic_keyword:
                 raise TypeError(f'Parameter "{positional.name}" is {kind!s}, '
                                 'but was passed as a keyword.')
     return positionals[len(args):] + parameters[len(positionals):]
-- 
2.43.0


From 449784ac67fdd08688f27c60e437988b7164d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:41 +0000
Subject: [PATCH 03/40] fix: use bound keyword arguments as defaults instead of
 the original ones

---
 paradigm/_core/models.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 47de695..a4731c4 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -649,11 +649,12 @@ def _bind_keywords(parameters: t.Tuple[Parameter, ...],
                                 annotation=parameter.annotation,
                                 name=parameter.name,
                                 kind=ParameterKind.KEYWORD_ONLY,
-                                **({'default': parameter.default}
-                                   if (isinstance(parameter, OptionalParameter)
-                                       and parameter.has_default)
-                                   else ({'default': kwargs[parameter.name]}
-                                         if parameter.name in kwargs_names
+                                **({'default': kwargs[parameter.name]}
+                                   if parameter.name in kwargs_names
+                                   else ({'default': parameter.default}
+                                         if (isinstance(parameter,
+                                                        OptionalParameter)
+                                             and parameter.has_default)
                                          else {}))
                         )
                         if (isinstance(parameter, OptionalParameter)
-- 
2.43.0


From 6068646325d54e32779800862ab5b32db89367af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 04/40] fix: accept keyword arguments named self in
 all_set/expects/bind

---
 paradigm/_core/models.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index a4731c4..216ccb7 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -283,18 +283,18 @@ class BaseSignature(ABC):
     __slots__ = ()
 
     @abstractmethod
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """
         Checks if the signature has no unspecified parameters left
         with given arguments.
         """
 
     @abstractmethod
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         """Checks if the signature accepts given arguments."""
 
     @abstractmethod
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> BaseSignature:
         """Binds given arguments to the signature."""
 
 
@@ -311,7 +311,7 @@ class PlainSignature(BaseSignature):
     def returns(self) -> t.Any:
         return self._returns
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (
                 parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
@@ -350,7 +350,7 @@ class PlainSignature(BaseSignature):
         return (all_parameters_are_optional(rest_positionals_only)
                 and all_parameters_are_optional(rest_keywords))
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         positionals = (parameters_by_kind[ParameterKind.POSITIONAL_ONLY]
                        + parameters_by_kind[
@@ -377,7 +377,7 @@ class PlainSignature(BaseSignature):
         )
         return not unexpected_keyword_arguments_found
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> PlainSignature:
         parameters_by_kind = to_parameters_by_kind(self._parameters)
         return PlainSignature(
                 *_bind_keywords(
@@ -512,15 +512,15 @@ class OverloadedSignature(BaseSignature):
     def signatures(self) -> t.Sequence[PlainSignature]:
         return self._signatures
 
-    def all_set(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def all_set(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.all_set(*args, **kwargs)
                    for signature in self._signatures)
 
-    def expects(self, *args: _Arg, **kwargs: _KwArg) -> bool:
+    def expects(self, /, *args: _Arg, **kwargs: _KwArg) -> bool:
         return any(signature.expects(*args, **kwargs)
                    for signature in self._signatures)
 
-    def bind(self, *args: _Arg, **kwargs: _KwArg) -> Signature:
+    def bind(self, /, *args: _Arg, **kwargs: _KwArg) -> Signature:
         signatures = [signature.bind(*args, **kwargs)
                       for signature in self._signatures
                       if signature.expects(*args, **kwargs)]
-- 
2.43.0


From 0171ad9a7c199cce2455bb68629a6b929ac4d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 05/40] fix: take function of a bound method instead of looking
 it up by name

---
 paradigm/_core/signatures.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 14808fe..7abb83d 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -70,8 +70,7 @@ def _(_callable: _types.MethodType) -> _Signature:
     try:
         return (_from_callable(_callable)
                 if isinstance(_callable.__self__, type)
-                else (_from_callable(getattr(type(_callable.__self__),
-                                             _callable.__name__))
+                else (_from_callable(_callable.__func__)
                       .bind(_callable.__self__)))
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
-- 
2.43.0


From 9f9e9286a8e3190697d2a06614e48448038a54aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:44 +0000
Subject: [PATCH 06/40] fix: support method wrappers bound to classes

---
 paradigm/_core/signatures.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 7abb83d..79204b2 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -80,7 +80,6 @@ def _(_callable: _types.MethodType) -> _Signature:
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
     self = _callable.__self__
-    assert not isinstance(self, type), _callable
     try:
         return (_from_callable(getattr(type(self), _callable.__name__))
                 .bind(self))
-- 
2.43.0


From 49ae7bad2ddb19634623321dcf524f02e3019ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 07/40] fix: look for inherited constructors under the base
 class path

---
 paradigm/_core/signatures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 79204b2..cc0678a 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -496,8 +496,8 @@ def _to_class_builder_qualified_path(
     for base_module_path, base_object_path in _to_mro(module_path,
                                                       object_path):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
-        constructor_path = (*object_path, constructor_name)
-        initializer_path = (*object_path, initializer_name)
+        constructor_path = (*base_object_path, constructor_name)
+        initializer_path = (*base_object_path, initializer_name)
         if initializer_path in base_module_annotations:
             return (base_module_path, initializer_path)
         elif constructor_path in base_module_annotations:
-- 
2.43.0


From 2c3be96329eea9765caeb80cf3c6ed90386811c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:10 +0000
Subject: [PATCH 08/40] fix: keep parameters declared before slash in stubs

---
 paradigm/_core/signatures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index cc0678a..a80fcd3 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -613,7 +613,8 @@ def _to_positional_parameters(
     # double-reversing since parameters with default arguments go last
     parameters_with_defaults_ast: _t.List[
         _t.Tuple[_ast.arg, _t.Optional[_ast.expr]]
-    ] = list(_zip_longest(reversed(signature_ast.args),
+    ] = list(_zip_longest(reversed(signature_ast.posonlyargs
+                                   + signature_ast.args),
                           signature_ast.defaults[::-1]))[::-1]
     kind = _ParameterKind.POSITIONAL_ONLY
     return [_parameter_from_ast_node(parameter_ast, default_ast, module_path,
-- 
2.43.0


From d2be178e78dca76a0b523f523e7dacc6d99ef7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 09/40] fix: make annotations equality symmetric for generic
 aliases, unions and strings

---
 paradigm/_core/annotated.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 2b0efb1..8ba5f9c 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -22,6 +22,7 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 
 
 @are_equal.register(GenericAlias)
+@are_equal.register(type(t.List))
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
@@ -29,6 +30,7 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_origin, right_origin = (to_origin(left) or left,
                                  to_origin(right) or right)
     return (left_origin is right_origin
+            and is_parametrized(left) is is_parametrized(right)
             and len(left_args) == len(right_args)
             and ((all(any(are_equal(left_arg, right_arg)
                           for right_arg in right_args)
@@ -40,6 +42,10 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
                  else all(map(are_equal, left_args, right_args))))
 
 
+if sys.version_info >= (3, 9):
+    are_equal.register(types.GenericAlias, are_equal.dispatch(type))
+
+
 @are_equal.register(abc.Sequence)
 def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
     return (type(left) is type(right)
@@ -112,13 +118,23 @@ def _(left: t.TypeVar, right: t.Any) -> bool:
 @are_equal.register(bytes)
 @are_equal.register(str)
 def _(left: t.Union[bytes, str], right: t.Any) -> bool:
-    result = left == right
+    result = isinstance(right, (bytes, str)) and left == right
     assert isinstance(result, bool), result
     return result
 
 
 to_arguments = t.get_args
-to_origin = t.get_origin
+
+
+def to_origin(value: t.Any) -> t.Any:
+    result = t.get_origin(value)
+    return (t.Union
+            if sys.version_info >= (3, 10) and result is types.UnionType
+            else result)
+
+
+def is_parametrized(value: t.Any) -> bool:
+    return hasattr(value, '__args__')
 
 
 @singledispatch
-- 
2.43.0


From 330d16faa4a5beb273e91277c1c25783990ee307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 10/40] fix: distinguish literals of different types

---
 paradigm/_core/annotated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 8ba5f9c..d25009d 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -29,6 +29,10 @@ def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
     left_args, right_args = to_arguments(left), to_arguments(right)
     left_origin, right_origin = (to_origin(left) or left,
                                  to_origin(right) or right)
+    if left_origin is Literal and right_origin is Literal:
+        left_args, right_args = (tuple([(type(arg), arg) for arg in left_args]),
+                                 tuple([(type(arg), arg)
+                                        for arg in right_args]))
     return (left_origin is right_origin
             and is_parametrized(left) is is_parametrized(right)
             and len(left_args) == len(right_args)
-- 
2.43.0


From 920203e2312c7534e1fdbec39c05f800d8a7616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 11/40] fix: make hashes of parameters and signatures agree
 with equality

---
 paradigm/_core/annotated.py | 60 +++++++++++++++++++++++++++++++++++++
 paradigm/_core/models.py    | 11 ++++---
 2 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index d25009d..8c0f3a1 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -127,6 +127,66 @@ def _(left: t.Union[bytes, str], right: t.Any) -> bool:
     return result
 
 
+@singledispatch
+def to_hash(value: t.Any) -> int:
+    return hash(value)
+
+
+@to_hash.register(GenericAlias)
+@to_hash.register(type(t.List))
+@to_hash.register(type(t.Union[int, None]))
+@to_hash.register(type)
+def _(value: t.Union[GenericAlias, t.Type[t.Any]]) -> int:
+    arguments_hashes = tuple(map(to_hash, to_arguments(value)))
+    origin = to_origin(value) or value
+    return hash((origin,
+                 is_parametrized(value),
+                 (frozenset(arguments_hashes)
+                  if (origin is t.Union or origin is Literal)
+                  else arguments_hashes)))
+
+
+if sys.version_info >= (3, 9):
+    to_hash.register(types.GenericAlias, to_hash.dispatch(type))
+
+
+@to_hash.register(list)
+@to_hash.register(tuple)
+def _(value: t.Union[t.List[t.Any], t.Tuple[t.Any, ...]]) -> int:
+    return hash((type(value), tuple(map(to_hash, value))))
+
+
+@to_hash.register(ParamSpec)
+def _(value: ParamSpec) -> int:
+    return hash((type(value), value.__name__, to_hash(value.__bound__)))
+
+
+@to_hash.register(ParamSpecArgs)
+@to_hash.register(ParamSpecKwargs)
+def _(value: t.Union[ParamSpecArgs, ParamSpecKwargs]) -> int:
+    return hash((type(value), to_hash(value.__origin__)))
+
+
+if sys.version_info < (3, 10):
+    @to_hash.register(types.LambdaType)
+    def _(value: types.LambdaType) -> int:
+        return hash((type(value),
+                     to_hash(getattr(value, '__supertype__', None))))
+else:
+    to_hash.register(types.UnionType, to_hash.dispatch(type))
+
+
+    @to_hash.register(t.NewType)
+    def _(value: t.NewType) -> int:
+        return hash((type(value), to_hash(value.__supertype__)))
+
+
+@to_hash.register(t.TypeVar)
+def _(value: t.TypeVar) -> int:
+    return hash((type(value), value.__name__, to_hash(value.__bound__),
+                 tuple(map(to_hash, value.__constraints__))))
+
+
 to_arguments = t.get_args
 
 
diff --git a/paradigm/_core/models.py b/paradigm/_core/models.py
index 216ccb7..dec7149 100644
--- a/paradigm/_core/models.py
+++ b/paradigm/_core/models.py
@@ -124,7 +124,8 @@ class RequiredParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation, self._kind, self._name))
+        return hash((annotated.to_hash(self._annotation), self._kind,
+                     self._name))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
@@ -216,8 +217,10 @@ class OptionalParameter(BaseParameter):
                     'name': self._name}
 
     def __hash__(self) -> int:
-        return hash((self._annotation,
-                     *((self._default,) if self._has_default else ()),
+        return hash((annotated.to_hash(self._annotation),
+                     *((annotated.to_hash(self._default),)
+                       if self._has_default
+                       else ()),
                      self._kind, self._name))
 
     def __repr__(self) -> str:
@@ -473,7 +476,7 @@ class PlainSignature(BaseSignature):
         return self._parameters, {'returns': self._returns}
 
     def __hash__(self) -> int:
-        return hash((self._parameters, self.returns))
+        return hash((self._parameters, annotated.to_hash(self._returns)))
 
     def __repr__(self) -> str:
         return (f'{type(self).__qualname__}('
-- 
2.43.0


From 8ccd23f5e9cea0dac416ac7dc4e3f83721a5a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:30 +0000
Subject: [PATCH 12/40] fix: compare None inside builtin generics as in typing
 aliases

---
 paradigm/_core/annotated.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 8c0f3a1..1629a32 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -26,7 +26,8 @@ def are_equal(left: t.Any, right: t.Any) -> bool:
 @are_equal.register(type(t.Union[int, None]))
 @are_equal.register(type)
 def _(left: t.Union[GenericAlias, t.Type[t.Any]], right: t.Any) -> bool:
-    left_args, right_args = to_arguments(left), to_arguments(right)
+    left_args, right_args = (to_types_arguments(left),
+                             to_types_arguments(right))
     left_origin, right_origin = (to_origin(left) or left,
                                  to_origin(right) or right)
     if left_origin is Literal and right_origin is Literal:
@@ -137,7 +138,7 @@ def to_hash(value: t.Any) -> int:
 @to_hash.register(type(t.Union[int, None]))
 @to_hash.register(type)
 def _(value: t.Union[GenericAlias, t.Type[t.Any]]) -> int:
-    arguments_hashes = tuple(map(to_hash, to_arguments(value)))
+    arguments_hashes = tuple(map(to_hash, to_types_arguments(value)))
     origin = to_origin(value) or value
     return hash((origin,
                  is_parametrized(value),
@@ -190,6 +191,14 @@ def _(value: t.TypeVar) -> int:
 to_arguments = t.get_args
 
 
+def to_types_arguments(value: t.Any) -> t.Tuple[t.Any, ...]:
+    # unlike typing aliases builtin ones keep ``None`` as is
+    return tuple([type(None)
+                  if argument is None and to_origin(value) is not Literal
+                  else argument
+                  for argument in to_arguments(value)])
+
+
 def to_origin(value: t.Any) -> t.Any:
     result = t.get_origin(value)
     return (t.Union
-- 
2.43.0


From 7b980956c4a5fe23319f20642c71c8c28fb2760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 13/40] fix: compare parameter specifications made by newer
 typing_extensions

---
 paradigm/_core/annotated.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 1629a32..9ad30b0 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -12,6 +12,9 @@ from typing_extensions import (Literal,
 _T = t.TypeVar('_T')
 GenericAlias: t.Any = type(t.Generic[_T])
 del _T
+# in newer versions of `typing_extensions`
+# `ParamSpec` may be a factory of `typing` parameters specifications
+_ParamSpec: t.Any = type(ParamSpec('_P'))
 
 
 @singledispatch
@@ -58,7 +61,7 @@ def _(left: t.Sequence[t.Any], right: t.Any) -> bool:
             and all(map(are_equal, left, right)))
 
 
-@are_equal.register(ParamSpec)
+@are_equal.register(_ParamSpec)
 def _(left: ParamSpec, right: t.Any) -> bool:
     return (type(left) is type(right)
             and left.__name__ == right.__name__
@@ -157,7 +160,7 @@ def _(value: t.Union[t.List[t.Any], t.Tuple[t.Any, ...]]) -> int:
     return hash((type(value), tuple(map(to_hash, value))))
 
 
-@to_hash.register(ParamSpec)
+@to_hash.register(_ParamSpec)
 def _(value: ParamSpec) -> int:
     return hash((type(value), value.__name__, to_hash(value.__bound__)))
 
-- 
2.43.0


From d76a2a8bb8172f7fc8008f045ae2fee93221ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 14/40] fix: compare None among parameters of builtin callables
 as in typing aliases

---
 paradigm/_core/annotated.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index 9ad30b0..c588761 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -196,10 +196,17 @@ to_arguments = t.get_args
 
 def to_types_arguments(value: t.Any) -> t.Tuple[t.Any, ...]:
     # unlike typing aliases builtin ones keep ``None`` as is
-    return tuple([type(None)
-                  if argument is None and to_origin(value) is not Literal
-                  else argument
-                  for argument in to_arguments(value)])
+    arguments = to_arguments(value)
+    return (arguments
+            if to_origin(value) is Literal
+            else tuple([[_none_to_type(element) for element in argument]
+                        if isinstance(argument, list)
+                        else _none_to_type(argument)
+                        for argument in arguments]))
+
+
+def _none_to_type(value: t.Any) -> t.Any:
+    return type(None) if value is None else value
 
 
 def to_origin(value: t.Any) -> t.Any:
-- 
2.43.0


From d1e314d360bcc037d386ff743075be1e5bd52f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:15 +0000
Subject: [PATCH 15/40] fix: do not take user-defined objects for stub
 described ones by module name

---
 paradigm/_core/signatures.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index a80fcd3..e07cff0 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -465,8 +465,9 @@ def resolve_qualified_paths(
         candidates_paths = _qualified_paths[module_path][object_path]
     except KeyError:
         assert not module_path or object_path, value
+        # user-defined modules may share names with the ones having stubs
         qualified_paths = ([(module_path, object_path)]
-                           if module_path
+                           if _is_stdlib_module_path(module_path)
                            else [])
     else:
         qualified_paths = [path
@@ -517,6 +518,13 @@ def _to_mro(module_path: _catalog.Path,
             yield from _to_mro(base_module_path, base_object_path)
 
 
+def _is_stdlib_module_path(value: _catalog.Path) -> bool:
+    return (bool(value)
+            and (value[0] in _sys.stdlib_module_names
+                 if _sys.version_info >= (3, 10)
+                 else value[0] != '__main__'))
+
+
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
-- 
2.43.0


From 6954bdee45afdcbc6d812669814690f3e3053623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 16/40] fix: keep annotations of first parameters of static
 methods in stubs

---
 paradigm/_core/signatures.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index e07cff0..1fc1c34 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -327,11 +327,12 @@ def _parameters_from(
     ))
     if isinstance(callable_, type):
         del result[0]
-    elif any(_is_classmethod(decorator_node, module_path, parent_path)
-             for decorator_node in ast_node.decorator_list):
+    elif _is_decorated_with(ast_node, classmethod, module_path, parent_path):
         result[0] = _RequiredParameter(annotation=_t.Type[_Self],
                                        kind=_ParameterKind.POSITIONAL_ONLY,
                                        name=result[0].name)
+    elif _is_decorated_with(ast_node, staticmethod, module_path, parent_path):
+        pass
     elif _stubs.nodes_kinds[module_path].get(parent_path) is _NodeKind.CLASS:
         result[0] = _RequiredParameter(annotation=_Self,
                                        kind=_ParameterKind.POSITIONAL_ONLY,
@@ -357,21 +358,22 @@ def _returns_annotation_from(
                                                  parent_path, {})))
 
 
-def _is_classmethod(
-        expression_node: _ast.expr,
+def _is_decorated_with(
+        ast_node: _t.Union[_ast.AsyncFunctionDef, _ast.FunctionDef],
+        decorator: type,
         module_path: _catalog.Path,
-        parent_path: _catalog.Path,
-        *,
-        classmethod_qualified_path: _catalog.QualifiedPath
-        = (_catalog.module_path_from_module(_builtins),
-           _catalog.path_from_string(classmethod.__qualname__)),
+        parent_path: _catalog.Path
 ) -> bool:
-    maybe_path = _conversion.to_maybe_path(expression_node)
-    return (maybe_path is not None
-            and _scoping.resolve_object_path(
-                    module_path, parent_path, maybe_path, _stubs.definitions,
-                    _stubs.references, _stubs.submodules, _stubs.superclasses
-            ) == classmethod_qualified_path)
+    decorator_qualified_path = _catalog.qualified_path_from(decorator)
+    maybe_paths = [_conversion.to_maybe_path(decorator_node)
+                   for decorator_node in ast_node.decorator_list]
+    return any(maybe_path is not None
+               and _scoping.resolve_object_path(
+                       module_path, parent_path, maybe_path,
+                       _stubs.definitions, _stubs.references,
+                       _stubs.submodules, _stubs.superclasses
+               ) == decorator_qualified_path
+               for maybe_path in maybe_paths)
 
 
 class _SignatureNotFound(Exception):
-- 
2.43.0


From 1544a23d235909e858569d6286581ebe9dd4b007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:20 +0000
Subject: [PATCH 17/40] fix: look up bound builtin methods of overriding
 receivers, None, modules and classes

---
 paradigm/_core/signatures.py | 40 +++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 1fc1c34..5ca3334 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -44,15 +44,11 @@ def _(
             _types.BuiltinFunctionType, _types.BuiltinMethodType
         ]
 ) -> _Signature:
+    descriptor = _to_maybe_method_descriptor(_callable)
+    if descriptor is not None:
+        return from_callable(descriptor).bind(_callable.__self__)
     try:
-        return ((_from_callable(_callable)
-                 if isinstance(_callable.__self__, type)
-                 else (_from_callable(getattr(type(_callable.__self__),
-                                              _callable.__name__))
-                       .bind(_callable.__self__)))
-                if (_callable.__self__ is not None
-                    and not isinstance(_callable.__self__, _types.ModuleType))
-                else _from_callable(_callable))
+        return _from_callable(_callable)
     except _SignatureNotFound:
         return _from_raw_signature(_inspect.signature(_callable))
 
@@ -79,12 +75,10 @@ def _(_callable: _types.MethodType) -> _Signature:
 @_decorate_if(from_callable.register(_types.MethodWrapperType),
               _sys.implementation.name != 'pypy')
 def _(_callable: _types.MethodWrapperType) -> _Signature:
-    self = _callable.__self__
-    try:
-        return (_from_callable(getattr(type(self), _callable.__name__))
-                .bind(self))
-    except _SignatureNotFound:
-        return _from_raw_signature(_inspect.signature(_callable))
+    descriptor = _to_maybe_method_descriptor(_callable)
+    return (_from_raw_signature(_inspect.signature(_callable))
+            if descriptor is None
+            else from_callable(descriptor).bind(_callable.__self__))
 
 
 @_decorate_if(from_callable.register(_types.MethodDescriptorType),
@@ -543,6 +537,24 @@ def _value_has_qualified_path(value: _t.Any,
     return candidate is value
 
 
+def _to_maybe_method_descriptor(
+        value: _t.Union[
+            _types.BuiltinMethodType, _types.MethodWrapperType
+        ]
+) -> _t.Any:
+    # receivers may override the method, be ``None``, modules or classes
+    self, name = value.__self__, value.__name__
+    for cls in type(self).__mro__:
+        descriptor = vars(cls).get(name)
+        if (isinstance(descriptor, (_types.MethodDescriptorType,
+                                    _types.WrapperDescriptorType))
+                and (getattr(self, name)
+                     if self is None
+                     else descriptor.__get__(self, type(self))) == value):
+            return descriptor
+    return None
+
+
 def _parameter_from_raw(raw: _inspect.Parameter) -> _Parameter:
     annotation, kind, name = (
         _t.Any if raw.annotation is _inspect._empty else raw.annotation,
-- 
2.43.0


From ad637ed4f36907f4f34f17d24a9e3d71aa43074a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 18/40] fix: index builtin static methods

---
 paradigm/_core/catalog.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index f54696c..1619f96 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -82,6 +82,15 @@ def _(value: _types.MemberDescriptorType) -> QualifiedPath:
              value.__name__))
 
 
+@qualified_path_from.register(staticmethod)
+def _(value: 'staticmethod[..., _t.Any]') -> QualifiedPath:
+    function = value.__func__
+    # other static methods have paths of their own
+    return (qualified_path_from(function)
+            if isinstance(function, _types.BuiltinFunctionType)
+            else ((), ()))
+
+
 @qualified_path_from.register(type)
 def _(value: type) -> QualifiedPath:
     return (path_from_string(value.__module__),
-- 
2.43.0


From a12a875dae5ff51a9591932eaa35f9324c4b9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 19/40] fix: resolve names in stubs one by one

Dotted names, aliases, star imports & bases of classes were resolved
by searching through visited modules, so cycles of imports ended
in assertions and recursion errors or gave other meanings,
names of classes members shadowed the ones of modules,
members inherited not from the first base were taken in wrong order
and specializations of generic classes were lost after one level.
---
 paradigm/_core/scoping.py |  329 +++++++----
 paradigm/_core/stubs.py   | 1090 ++++++++++++++++---------------------
 2 files changed, 683 insertions(+), 736 deletions(-)

diff --git a/paradigm/_core/scoping.py b/paradigm/_core/scoping.py
index b007fd3..f4fb3be 100644
--- a/paradigm/_core/scoping.py
+++ b/paradigm/_core/scoping.py
@@ -12,6 +12,9 @@ ModuleSuperclasses = t.Mapping[catalog.Path,
 Scope = t.Mapping[str, 'Scope']
 
 
+SPECIALIZATIONS_MODULE_PATH: catalog.Path = ('__specializations',)
+
+
 class ObjectNotFound(Exception):
     pass
 
@@ -52,114 +55,228 @@ def resolve_object_path(
         modules_definitions: t.Mapping[catalog.Path, Scope],
         modules_references: t.Mapping[catalog.Path, ModuleReferences],
         modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
-        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
-        *visited_modules_paths: catalog.Path,
-        _builtins_module_path: catalog.Path
-        = catalog.module_path_from_module(builtins)
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses]
 ) -> catalog.QualifiedPath:
-    try:
-        module_definitions = modules_definitions[module_path]
-    except KeyError:
+    if module_path not in modules_definitions:
         raise ObjectNotFound((module_path, object_path))
-    if not object_path:
-        return (module_path, object_path)
-    assert scope_contains_path(module_definitions, parent_path)
-    if (parent_path and scope_contains_path(module_definitions,
-                                            (*parent_path, object_path[0]))):
-        return resolve_object_path(
-                module_path, (), parent_path + object_path,
-                modules_definitions, modules_references, modules_submodules,
-                modules_superclasses, *visited_modules_paths
-        )
-    elif object_path[0] in module_definitions:
-        module_superclasses, scope = (
-            modules_superclasses.get(module_path, {}),
-            module_definitions[object_path[0]]
+    return _Resolver(modules_definitions, modules_references,
+                     modules_submodules, modules_superclasses).resolve(
+            module_path, parent_path, object_path, frozenset()
+    )
+
+
+def to_mro(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        modules_references: t.Mapping[catalog.Path, ModuleReferences],
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses]
+) -> t.List[catalog.QualifiedPath]:
+    return [path
+            for path, _ in _to_origins_mro((module_path, object_path),
+                                           modules_references,
+                                           modules_superclasses, frozenset())]
+
+
+_VisitedPaths = t.FrozenSet[catalog.QualifiedPath]
+
+_builtins_module_path = catalog.module_path_from_module(builtins)
+_object_qualified_path = (_builtins_module_path,
+                          catalog.path_from_string(object.__qualname__))
+
+
+class _Resolver:
+    def __init__(
+            self,
+            modules_definitions: t.Mapping[catalog.Path, Scope],
+            modules_references: t.Mapping[catalog.Path, ModuleReferences],
+            modules_submodules: t.Mapping[catalog.Path, ModuleSubmodules],
+            modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses]
+    ) -> None:
+        (
+            self.modules_definitions, self.modules_references,
+            self.modules_submodules, self.modules_superclasses
+        ) = (
+            modules_definitions, modules_references, modules_submodules,
+            modules_superclasses
         )
-        for index, sub_name in enumerate(object_path[1:],
-                                         start=1):
-            if sub_name in scope:
-                scope = scope[sub_name]
-            else:
-                sub_path = object_path[:index]
-                try:
-                    sub_path_superclasses = module_superclasses[sub_path]
-                except KeyError:
-                    pass
-                else:
-                    for (
-                            superclass_module_path, superclass_object_path
-                    ) in sub_path_superclasses:
-                        try:
-                            return resolve_object_path(
-                                    superclass_module_path, (),
-                                    superclass_object_path
-                                    + object_path[index:],
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses,
-                                    *visited_modules_paths, module_path
-                            )
-                        except ObjectNotFound:
-                            continue
-                if object_path[0] != object.__name__:
-                    return resolve_object_path(
-                            _builtins_module_path, (),
-                            (object.__name__,) + object_path[index:],
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            *visited_modules_paths
-                    )
-                else:
-                    raise ObjectNotFound((module_path, object_path))
-        return (module_path, object_path)
-    else:
-        for sub_module_path in modules_submodules.get(module_path, []):
-            if sub_module_path not in visited_modules_paths:
-                try:
-                    return resolve_object_path(
-                            sub_module_path, (), object_path,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            *visited_modules_paths, module_path
-                    )
-                except ObjectNotFound:
-                    continue
-        module_references = modules_references[module_path]
-        for offset in range(len(object_path)):
-            sub_object_path = object_path[:len(object_path) - offset]
+
+    def resolve(self,
+                module_path: catalog.Path,
+                parent_path: catalog.Path,
+                object_path: catalog.Path,
+                visited_paths: _VisitedPaths) -> catalog.QualifiedPath:
+        """
+        Resolves dotted name written in the scope.
+
+        Visited paths are the ones being resolved,
+        so cyclic imports and aliases leading nowhere are not found.
+        """
+        if not object_path:
+            return (module_path, object_path)
+        result = self._resolve_name(module_path, parent_path, object_path[0],
+                                    visited_paths)
+        for name in object_path[1:]:
+            result = self._resolve_attribute(result, name, visited_paths)
+        return result
+
+    def _resolve_name(self,
+                      module_path: catalog.Path,
+                      parent_path: catalog.Path,
+                      name: str,
+                      visited_paths: _VisitedPaths) -> catalog.QualifiedPath:
+        path = (*parent_path, name)
+        if (parent_path
+                and self._has_path(module_path, path)
+                and (module_path, path) not in visited_paths):
+            return self._follow(module_path, path, visited_paths)
+        try:
+            return self._resolve_module_name(module_path, name, visited_paths)
+        except ObjectNotFound:
+            return self._resolve_module_name(_builtins_module_path, name,
+                                             visited_paths)
+
+    def _resolve_module_name(
+            self,
+            module_path: catalog.Path,
+            name: str,
+            visited_paths: _VisitedPaths
+    ) -> catalog.QualifiedPath:
+        path = (name,)
+        if (module_path not in self.modules_definitions
+                or (module_path, path) in visited_paths):
+            raise ObjectNotFound((module_path, path))
+        if self._has_path(module_path, path):
+            return self._follow(module_path, path, visited_paths)
+        # the last star import wins
+        for sub_module_path in reversed(
+                self.modules_submodules.get(module_path, [])
+        ):
             try:
-                referent_module_path, referent_object_path = module_references[
-                    sub_object_path
-                ]
-            except KeyError:
-                continue
-            else:
-                try:
-                    referent_module_path, referent_object_path = (
-                        resolve_object_path(
-                                referent_module_path, (), referent_object_path,
-                                modules_definitions, modules_references,
-                                modules_submodules, modules_superclasses,
-                                *visited_modules_paths, module_path
-                        )
-                    )
-                except ObjectNotFound:
-                    assert (len(referent_object_path) == 1), (module_path,
-                                                              object_path)
-                    referent_module_path += referent_object_path
-                    referent_object_path = ()
-                    assert (
-                            referent_module_path in modules_definitions
-                    ), (module_path, object_path)
-                return resolve_object_path(
-                        referent_module_path, (),
-                        referent_object_path
-                        + object_path[len(object_path) - offset:],
-                        modules_definitions, modules_references,
-                        modules_submodules, modules_superclasses,
-                        *visited_modules_paths, module_path
+                return self._resolve_module_name(
+                        sub_module_path, name,
+                        visited_paths | {(module_path, path)}
                 )
-        if scope_contains_path(modules_definitions[_builtins_module_path],
-                               object_path):
-            return _builtins_module_path, object_path
-        raise ObjectNotFound((module_path, object_path))
+            except ObjectNotFound:
+                continue
+        raise ObjectNotFound((module_path, path))
+
+    def _resolve_attribute(
+            self,
+            qualified_path: catalog.QualifiedPath,
+            name: str,
+            visited_paths: _VisitedPaths
+    ) -> catalog.QualifiedPath:
+        module_path, parent_path = qualified_path
+        if not parent_path:
+            try:
+                return self._resolve_module_name(module_path, name,
+                                                 visited_paths)
+            except ObjectNotFound:
+                return self._to_module((*module_path, name))
+        elif parent_path in self.modules_superclasses.get(module_path, {}):
+            for class_module_path, class_path in to_mro(
+                    module_path, parent_path, self.modules_references,
+                    self.modules_superclasses
+            ):
+                path = (*class_path, name)
+                if self._has_path(class_module_path, path):
+                    if (class_module_path, path) in visited_paths:
+                        break
+                    return self._follow(class_module_path, path, visited_paths)
+        raise ObjectNotFound((module_path, (*parent_path, name)))
+
+    def _follow(self,
+                module_path: catalog.Path,
+                path: catalog.Path,
+                visited_paths: _VisitedPaths) -> catalog.QualifiedPath:
+        if scope_contains_path(self.modules_definitions[module_path], path):
+            return (module_path, path)
+        referent_module_path, referent_path = self.modules_references[
+            module_path
+        ][path]
+        visited_paths |= {(module_path, path)}
+        if not referent_path:
+            return self._to_module(referent_module_path)
+        result = (referent_module_path, ())
+        try:
+            for name in referent_path:
+                result = self._resolve_attribute(result, name, visited_paths)
+        except ObjectNotFound:
+            if referent_module_path != module_path:
+                raise
+            # aliases may stand for builtins
+            return self.resolve(module_path, (), referent_path, visited_paths)
+        return result
+
+    def _has_path(self,
+                  module_path: catalog.Path,
+                  path: catalog.Path) -> bool:
+        return (scope_contains_path(self.modules_definitions[module_path],
+                                    path)
+                or path in self.modules_references.get(module_path, {}))
+
+    def _to_module(self, module_path: catalog.Path) -> catalog.QualifiedPath:
+        if module_path not in self.modules_definitions:
+            raise ObjectNotFound((module_path, ()))
+        return (module_path, ())
+
+
+# class (which may be a specialization) & class it is a specialization of
+_OriginatedPath = t.Tuple[catalog.QualifiedPath, catalog.QualifiedPath]
+
+
+def _to_origins_mro(
+        qualified_path: catalog.QualifiedPath,
+        modules_references: t.Mapping[catalog.Path, ModuleReferences],
+        modules_superclasses: t.Mapping[catalog.Path, ModuleSuperclasses],
+        visited_paths: t.FrozenSet[catalog.QualifiedPath]
+) -> t.List[_OriginatedPath]:
+    module_path, object_path = qualified_path
+    bases = ([]
+             if qualified_path in visited_paths
+             else [(base, _to_origin(base, modules_references))
+                   for base in (modules_superclasses.get(module_path, {})
+                                .get(object_path, []))
+                   if base[1] in modules_superclasses.get(base[0], {})])
+    if not bases and qualified_path != _object_qualified_path:
+        bases.append((_object_qualified_path, _object_qualified_path))
+    return ([(qualified_path, _to_origin(qualified_path, modules_references))]
+            + _merge_mros([
+                *[_to_origins_mro(base, modules_references,
+                                  modules_superclasses,
+                                  visited_paths | {qualified_path})
+                  for base, _ in bases],
+                bases
+            ]))
+
+
+def _to_origin(
+        qualified_path: catalog.QualifiedPath,
+        modules_references: t.Mapping[catalog.Path, ModuleReferences]
+) -> catalog.QualifiedPath:
+    module_path, object_path = qualified_path
+    return (modules_references[module_path].get(object_path, qualified_path)
+            if module_path == SPECIALIZATIONS_MODULE_PATH
+            else qualified_path)
+
+
+def _merge_mros(
+        candidates: t.List[t.List[_OriginatedPath]]
+) -> t.List[_OriginatedPath]:
+    result = []
+    while True:
+        candidates = [candidate for candidate in candidates if candidate]
+        if not candidates:
+            return result
+        tails_origins = {origin
+                         for candidate in candidates
+                         for _, origin in candidate[1:]}
+        next_path, next_origin = next((candidate[0]
+                                       for candidate in candidates
+                                       if candidate[0][1] not in tails_origins),
+                                      candidates[0][0])
+        result.append((next_path, next_origin))
+        candidates = [[(path, origin)
+                       for path, origin in candidate
+                       if origin != next_origin]
+                      for candidate in candidates]
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 2fb89cc..d6010a0 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -64,7 +64,6 @@ if _reload_cache:
     import builtins as _builtins
     from copy import deepcopy as _deepcopy
     from functools import singledispatch as _singledispatch
-    from itertools import chain
 
     from typing_extensions import TypeGuard as _TypeGuard
 
@@ -82,6 +81,8 @@ if _reload_cache:
     )
     from .sources import stubs_stdlib_modules_paths as _stdlib_modules_paths
 
+    _AstNode = _t.TypeVar('_AstNode',
+                          bound=_ast.AST)
     _ObjectAstNodes = _t.List[_ast.AST]
     _ModuleAstNodes = _t.Dict[_catalog.Path, _ObjectAstNodes]
     _ModuleAstNodesKinds = _t.Dict[_catalog.Path, _NodeKind]
@@ -93,42 +94,6 @@ if _reload_cache:
     _Scope = _t.Dict[str, '_Scope']
 
 
-    def _named_tuple_to_constructor_ast_node(
-            ast_node: _ast.ClassDef
-    ) -> _ast.FunctionDef:
-        annotations_ast_nodes: _t.List[_ast.AnnAssign] = [
-            ast_child_node
-            for ast_child_node in ast_node.body
-            if isinstance(ast_child_node, _ast.AnnAssign)
-        ]
-        assert all(isinstance(ast_node.target, _ast.Name)
-                   for ast_node in annotations_ast_nodes), ast_node
-        return _ast.FunctionDef(
-                '__new__',
-                _annotations_to_signature(annotations_ast_nodes),
-                [_ast.Expr(_ast.Ellipsis())], [],
-                _ast.Name(ast_node.name, _ast.Load())
-        )
-
-
-    def _annotations_to_signature(
-            ast_nodes: _t.List[_ast.AnnAssign]
-    ) -> _ast.arguments:
-        return _ast.arguments([],
-                              [_ast.arg('cls', None)]
-                              + [_ann_assign_to_arg(ast_node)
-                                 for ast_node in ast_nodes],
-                              None, [], [], None,
-                              [ast_node.value
-                               for ast_node in ast_nodes
-                               if ast_node.value is not None])
-
-
-    def _ann_assign_to_arg(ast_node: _ast.AnnAssign) -> _ast.arg:
-        assert isinstance(ast_node.target, _ast.Name), ast_node
-        return _ast.arg(ast_node.target.id, ast_node.annotation)
-
-
     def _evaluate_expression(node: _ast.expr,
                              *,
                              source_path: _Path,
@@ -168,41 +133,23 @@ if _reload_cache:
                 scope_definitions: _Scope,
                 module_ast_nodes: _ModuleAstNodes,
                 module_ast_nodes_kinds: _ModuleAstNodesKinds,
+                scope_references: _ModuleReferences,
                 module_references: _ModuleReferences,
-                modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-                modules_ast_nodes_kinds: _t.Dict[
-                    _catalog.Path, _ModuleAstNodesKinds
-                ],
-                modules_definitions: _t.Dict[_catalog.Path, _Scope],
-                modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
                 modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-                modules_superclasses: _t.Dict[
-                    _catalog.Path, _ModuleSuperclasses
-                ],
-                visited_modules_paths: _t.Set[_catalog.Path],
                 classes_bases: _t.Dict[
                     _catalog.QualifiedPath, _t.List[_ast.expr]
-                ],
-                generics_parameters_paths: _t.Dict[
-                    _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
                 ]
         ) -> None:
             (
-                self.generics_parameters_paths, self.module_ast_nodes,
+                self.classes_bases, self.module_ast_nodes,
                 self.module_ast_nodes_kinds, self.module_path,
-                self.module_references, self.modules_ast_nodes,
-                self.modules_ast_nodes_kinds, self.modules_definitions,
-                self.modules_references, self.modules_submodules,
-                self.modules_superclasses, self.parent_path,
-                self.scope_definitions, self.source_path, self.classes_bases,
-                self.visited_modules_paths
+                self.module_references, self.modules_submodules,
+                self.parent_path, self.scope_definitions,
+                self.scope_references, self.source_path
             ) = (
-                generics_parameters_paths, module_ast_nodes,
-                module_ast_nodes_kinds, module_path, module_references,
-                modules_ast_nodes, modules_ast_nodes_kinds,
-                modules_definitions, modules_references, modules_submodules,
-                modules_superclasses, parent_path, scope_definitions,
-                source_path, classes_bases, visited_modules_paths
+                classes_bases, module_ast_nodes, module_ast_nodes_kinds,
+                module_path, module_references, modules_submodules,
+                parent_path, scope_definitions, scope_references, source_path
             )
 
         def visit_AnnAssign(self, node: _ast.AnnAssign) -> None:
@@ -217,28 +164,19 @@ if _reload_cache:
                                         _NodeKind.ANNOTATED_ASSIGNMENT)
                 self._add_path_definition(target_path)
             else:
-                value_module_path, value_object_path = self._to_qualified_path(
-                        value_path
-                )
-                self._add_reference(target_path, value_module_path,
-                                    value_object_path)
+                self._add_reference(target_path, self.module_path, value_path)
 
         def visit_Assign(self, node: _ast.Assign) -> None:
             value_path = _conversion.to_maybe_path(node.value)
-            if value_path is None:
-                for target in node.targets:
-                    target_path = _conversion.to_path(target)
+            for target in node.targets:
+                target_path = _conversion.to_path(target)
+                if value_path is None:
                     self._add_ast_node(target_path, node)
                     self._add_ast_node_kind(target_path, _NodeKind.ASSIGNMENT)
                     self._add_path_definition(target_path)
-            else:
-                value_module_path, value_object_path = self._to_qualified_path(
-                        value_path
-                )
-                for target in node.targets:
-                    target_path = _conversion.to_path(target)
-                    self._add_reference(target_path, value_module_path,
-                                        value_object_path)
+                else:
+                    self._add_reference(target_path, self.module_path,
+                                        value_path)
 
         def visit_AsyncFunctionDef(self, node: _ast.AsyncFunctionDef) -> None:
             function_name = node.name
@@ -246,90 +184,36 @@ if _reload_cache:
             self._add_ast_node_kind((function_name,), _NodeKind.ASYNC_FUNCTION)
             self._add_name_definition(function_name)
 
-        def visit_ClassDef(
-                self,
-                node: _ast.ClassDef,
-                *,
-                builtins_module_path: _catalog.Path
-                = _catalog.module_path_from_module(_builtins),
-                generic_object_path: _catalog.Path = ('Generic',),
-                protocol_object_path: _catalog.Path = ('Protocol',),
-                named_tuple_object_path: _catalog.Path
-                = _catalog.path_from_string(_t.NamedTuple.__qualname__),
-                typing_module_path: _catalog.Path
-                = _catalog.module_path_from_module(_t)
-        ) -> None:
+        def visit_ClassDef(self, node: _ast.ClassDef) -> None:
             class_name = node.name
             self._add_ast_node_kind((class_name,), _NodeKind.CLASS)
             self._add_name_definition(class_name)
-            class_path, module_path = (self.parent_path + (class_name,),
-                                       self.module_path)
-            class_bases = self.classes_bases[(module_path, class_path)] = []
-            type_vars_local_paths = []
-            for base in node.bases:
-                if _is_generic_specialization(base):
-                    type_args_maybe_objects_paths = [
-                        _conversion.to_maybe_path(argument)
-                        for argument in _collect_type_args(base)
-                    ]
-                    type_vars_local_paths += [
-                        maybe_object_path
-                        for maybe_object_path in type_args_maybe_objects_paths
-                        if (maybe_object_path is not None
-                            and
-                            self._is_type_var_object_path(maybe_object_path))
-                    ]
-                    base_origin_maybe_object_path = (
-                        _conversion.to_maybe_path(base.value)
-                    )
-                    if (base_origin_maybe_object_path is not None
-                            and self._resolve_object_path(
-                                    base_origin_maybe_object_path
-                            ) in [(typing_module_path, generic_object_path),
-                                  (typing_module_path, protocol_object_path)]):
-                        continue
-                else:
-                    base_reference_path = _conversion.to_path(base)
-                    assert (
-                            base_reference_path is not None
-                    ), (module_path, class_path)
-                    base_module_path, base_object_path = (
-                        self._to_qualified_path(base_reference_path)
-                    )
-                    if (base_module_path == typing_module_path
-                            and base_object_path == named_tuple_object_path):
-                        constructor_node = (
-                            _named_tuple_to_constructor_ast_node(node)
-                        )
-                        self._add_ast_node((class_name,), constructor_node)
-                        self._add_superclass(class_path, base_module_path,
-                                             base_object_path)
-                        continue
-                    elif (base_module_path == typing_module_path
-                          and base_object_path == protocol_object_path):
-                        continue
-                    assert (
-                        not (base_module_path == typing_module_path
-                             and base_object_path == generic_object_path)
-                    ), (module_path, class_path)
-                class_bases.append(base)
-            generic_parameters = tuple(dict.fromkeys(type_vars_local_paths))
-            if generic_parameters:
-                self.generics_parameters_paths[
-                    (module_path, class_path)
-                ] = generic_parameters
+            class_path = self.parent_path + (class_name,)
+            self.classes_bases[(self.module_path, class_path)] = node.bases
+            class_scope = self.scope_definitions[class_name]
+            class_references: _ModuleReferences = {}
             parse_child = _StateParser(
-                    module_path, class_path, self.source_path,
-                    self.scope_definitions[class_name], self.module_ast_nodes,
-                    self.module_ast_nodes_kinds, self.module_references,
-                    self.modules_ast_nodes, self.modules_ast_nodes_kinds,
-                    self.modules_definitions, self.modules_references,
-                    self.modules_submodules, self.modules_superclasses,
-                    self.visited_modules_paths, self.classes_bases,
-                    self.generics_parameters_paths
+                    self.module_path, class_path, self.source_path,
+                    class_scope, self.module_ast_nodes,
+                    self.module_ast_nodes_kinds, class_references,
+                    self.module_references, self.modules_submodules,
+                    self.classes_bases
             ).visit
             for child in node.body:
                 parse_child(child)
+            for path, (
+                    referent_module_path, referent_path
+            ) in class_references.items():
+                if (referent_path
+                        and referent_module_path == self.module_path
+                        and path != referent_path[:1]
+                        and (referent_path[0] in class_scope
+                             or referent_path[:1] in class_references)):
+                    # aliases refer to other members of the class first
+                    referent_path = class_path + referent_path
+                self.module_references[class_path + path] = (
+                    referent_module_path, referent_path
+                )
 
         def visit_FunctionDef(self, node: _ast.FunctionDef) -> None:
             function_name = node.name
@@ -337,15 +221,22 @@ if _reload_cache:
             self._add_ast_node_kind((function_name,), _NodeKind.FUNCTION)
             self._add_name_definition(function_name)
 
-        def visit_If(self, node: _ast.If) -> None:
+        def visit_If(
+                self,
+                node: _ast.If,
+                *,
+                builtins_module_path: _catalog.Path
+                = _catalog.module_path_from_module(_builtins)
+        ) -> None:
             namespace: _namespacing.Namespace = {}
             for dependency_name in {
                 child.id
                 for child in _recursively_iterate_children(node.test)
                 if _is_dependency_name(child)
             }:
-                module_path, object_path = self._resolve_object_path(
-                        (dependency_name,)
+                module_path, object_path = self.module_references.get(
+                        (dependency_name,),
+                        (builtins_module_path, (dependency_name,))
                 )
                 module = _import_module(_catalog.path_to_string(module_path))
                 namespace[dependency_name] = (_namespacing.search(module,
@@ -410,158 +301,16 @@ if _reload_cache:
                            reference_path: _catalog.Path,
                            referent_module_path: _catalog.Path,
                            referent_object_path: _catalog.Path) -> None:
-            self.module_references[reference_path] = (referent_module_path,
-                                                      referent_object_path)
+            self.scope_references[reference_path] = (referent_module_path,
+                                                     referent_object_path)
 
         def _add_submodule(self, module_path: _catalog.Path) -> None:
             self.modules_submodules.setdefault(
                     self.module_path, []
             ).append(module_path)
 
-        def _add_superclass(self,
-                            child_path: _catalog.Path,
-                            base_module_path: _catalog.Path,
-                            base_object_path: _catalog.Path) -> None:
-            self.modules_superclasses.setdefault(
-                    self.module_path, {}
-            ).setdefault(child_path, []).append((base_module_path,
-                                                 base_object_path))
-
-        def _resolve_object_path(
-                self, object_path: _catalog.Path
-        ) -> _catalog.QualifiedPath:
-            return _resolve_object_path(
-                    self.module_path, self.parent_path, object_path,
-                    self.modules_ast_nodes, self.modules_ast_nodes_kinds,
-                    self.modules_definitions, self.modules_references,
-                    self.modules_submodules, self.modules_superclasses,
-                    self.visited_modules_paths, self.classes_bases,
-                    self.generics_parameters_paths
-            )
 
-        def _to_qualified_path(
-                self, object_path: _catalog.Path
-        ) -> _catalog.QualifiedPath:
-            try:
-                return self._resolve_object_path(object_path)
-            except _ObjectNotFound:
-                self._add_path_definition(object_path)
-                return (self.module_path, object_path)
-
-        def _is_type_var_object_path(
-                self, object_path: _catalog.Path,
-                *,
-                type_var_object_path: _catalog.Path
-                = _catalog.path_from_string(_t.TypeVar.__qualname__),
-                typing_module_path: _catalog.Path
-                = _catalog.module_path_from_module(_t),
-        ) -> bool:
-            module_path, object_path = self._to_qualified_path(object_path)
-            _parse_stub_scope(
-                    module_path, self.modules_ast_nodes,
-                    self.modules_ast_nodes_kinds, self.modules_definitions,
-                    self.modules_references, self.modules_submodules,
-                    self.modules_superclasses, self.visited_modules_paths,
-                    self.classes_bases, self.generics_parameters_paths
-            )
-            module_ast_nodes = self.modules_ast_nodes[module_path]
-            ast_nodes = module_ast_nodes.get(object_path, [])
-            if len(ast_nodes) != 1:
-                return False
-            ast_node, = ast_nodes
-            if not (isinstance(ast_node, (_ast.AnnAssign, _ast.Assign))
-                    and isinstance(ast_node.value, _ast.Call)):
-                return False
-            callable_maybe_object_path = _conversion.to_maybe_path(
-                    ast_node.value.func
-            )
-            if callable_maybe_object_path is None:
-                return False
-            callable_module_path, callable_object_path = (
-                _resolve_object_path(
-                        module_path, (), callable_maybe_object_path,
-                        self.modules_ast_nodes, self.modules_ast_nodes_kinds,
-                        self.modules_definitions, self.modules_references,
-                        self.modules_submodules, self.modules_superclasses,
-                        self.visited_modules_paths, self.classes_bases,
-                        self.generics_parameters_paths
-                )
-            )
-            return (callable_module_path == typing_module_path
-                    and callable_object_path == type_var_object_path)
-
-
-    class _ObjectNotFound(Exception):
-        pass
-
-
-    def _resolve_object_path(
-            module_path: _catalog.Path,
-            parent_path: _catalog.Path,
-            object_path: _catalog.Path,
-            modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-            modules_ast_nodes_kinds: _t.Dict[
-                _catalog.Path, _ModuleAstNodesKinds
-            ],
-            modules_definitions: _t.Dict[_catalog.Path, _Scope],
-            modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
-            visited_modules_paths: _t.Set[_catalog.Path],
-            classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
-            generics_parameters_paths: _t.Dict[
-                _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
-            ],
-            *,
-            _builtins_module_path: _catalog.Path
-            = _catalog.module_path_from_module(_builtins)
-    ) -> _catalog.QualifiedPath:
-        first_name = object_path[0]
-        module_definitions = _parse_stub_scope(
-                module_path, modules_ast_nodes, modules_ast_nodes_kinds,
-                modules_definitions, modules_references, modules_submodules,
-                modules_superclasses, visited_modules_paths, classes_bases,
-                generics_parameters_paths
-        )
-        if _scoping.scope_contains_path(module_definitions,
-                                        parent_path + (first_name,)):
-            return module_path, parent_path + object_path
-        elif first_name in module_definitions:
-            return module_path, object_path
-        else:
-            for sub_module_path in modules_submodules.get(module_path, []):
-                try:
-                    return _resolve_object_path(
-                            sub_module_path, (), object_path,
-                            modules_ast_nodes, modules_ast_nodes_kinds,
-                            modules_definitions, modules_references,
-                            modules_submodules, modules_superclasses,
-                            visited_modules_paths, classes_bases,
-                            generics_parameters_paths
-                    )
-                except _ObjectNotFound:
-                    continue
-        module_references = modules_references[module_path]
-        for offset in range(len(object_path)):
-            sub_object_path = object_path[:len(object_path) - offset]
-            try:
-                referent_module_name, referent_object_path = (
-                    module_references[sub_object_path]
-                )
-            except KeyError:
-                continue
-            else:
-                return (referent_module_name,
-                        (referent_object_path
-                         + object_path[len(object_path) - offset:]))
-        if _scoping.scope_contains_path(
-                modules_definitions[_builtins_module_path], object_path
-        ):
-            return _builtins_module_path, object_path
-        raise _ObjectNotFound(object_path)
-
-
-    def _parse_stub_scope(
+    def _parse_stub(
             module_path: _catalog.Path,
             modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
             modules_ast_nodes_kinds: _t.Dict[
@@ -570,16 +319,8 @@ if _reload_cache:
             modules_definitions: _t.Dict[_catalog.Path, _Scope],
             modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
             modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
-            visited_modules_paths: _t.Set[_catalog.Path],
-            classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
-            generics_parameters_paths: _t.Dict[
-                _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
-            ]
-    ) -> _Scope:
-        if module_path in visited_modules_paths:
-            return modules_definitions[module_path]
-        visited_modules_paths.add(module_path)
+            classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]]
+    ) -> None:
         source_path = _sources.from_module_path(module_path)
         module_definitions = modules_definitions[module_path] = {}
         module_ast_nodes_kinds = modules_ast_nodes_kinds[module_path] = {}
@@ -589,12 +330,26 @@ if _reload_cache:
         _StateParser(
                 module_path, (), source_path, module_definitions,
                 module_ast_nodes, module_ast_nodes_kinds, module_references,
-                modules_ast_nodes, modules_ast_nodes_kinds,
-                modules_definitions, modules_references, modules_submodules,
-                modules_superclasses, visited_modules_paths, classes_bases,
-                generics_parameters_paths
+                module_references, modules_submodules, classes_bases
         ).visit(ast_node)
-        return module_definitions
+
+
+    def _annotations_to_signature(
+            ast_nodes: _t.List[_ast.AnnAssign]
+    ) -> _ast.arguments:
+        return _ast.arguments([],
+                              [_ast.arg('self', None)]
+                              + [_ann_assign_to_arg(ast_node)
+                                 for ast_node in ast_nodes],
+                              None, [], [], None,
+                              [ast_node.value
+                               for ast_node in ast_nodes
+                               if ast_node.value is not None])
+
+
+    def _ann_assign_to_arg(ast_node: _ast.AnnAssign) -> _ast.arg:
+        assert isinstance(ast_node.target, _ast.Name), ast_node
+        return _ast.arg(ast_node.target.id, ast_node.annotation)
 
 
     @_singledispatch
@@ -608,42 +363,41 @@ if _reload_cache:
         return tuple(ast_node.elts)
 
 
-    def _collect_type_args(ast_node: _ast.expr) -> _t.List[_ast.expr]:
-        if _is_generic_specialization(ast_node):
-            queue = [_subscript_to_item(ast_node)]
-            args: _t.List[_ast.expr] = []
-            while queue:
-                specialization_node = queue.pop()
-                candidates = _unpack_ast_node(specialization_node)
-                for candidate in reversed(candidates):
-                    if _is_generic_specialization(candidate):
-                        queue.append(_subscript_to_item(candidate))
-                    else:
-                        args.append(candidate)
-            return args[::-1]
+    def _to_dotted_names(
+            ast_node: _ast.AST
+    ) -> _t.Iterable[_t.Union[_ast.Attribute, _ast.Name]]:
+        if (isinstance(ast_node, (_ast.Attribute, _ast.Name))
+                and _conversion.to_maybe_path(ast_node) is not None):
+            yield ast_node
         else:
-            return []
+            for child in _ast.iter_child_nodes(ast_node):
+                yield from _to_dotted_names(child)
 
 
-    class _SpecializeGeneric(_ast.NodeTransformer):
-        def __init__(self, table: _t.Dict[_catalog.Path, _ast.expr]) -> None:
-            self.table = table
+    class _NamesReplacer(_ast.NodeTransformer):
+        def __init__(self,
+                     replace: _t.Callable[[_t.Union[_ast.Attribute,
+                                                    _ast.Name]],
+                                          _t.Optional[_ast.expr]]) -> None:
+            self.replace = replace
 
-        def visit_Name(self, node: _ast.Name) -> _ast.expr:
-            if not isinstance(node.ctx, _ast.Load):
-                return node
-            candidate = self.table.get(_conversion.to_path(node))
-            return (node
-                    if candidate is None
-                    else _ast.copy_location(_deepcopy(candidate), node))
+        def visit_Attribute(self, node: _ast.Attribute) -> _ast.AST:
+            return self._visit_dotted_name(node)
 
-        def visit_Attribute(self, node: _ast.Attribute) -> _ast.expr:
+        def visit_Name(self, node: _ast.Name) -> _ast.AST:
+            return self._visit_dotted_name(node)
+
+        def _visit_dotted_name(
+                self, node: _t.Union[_ast.Attribute, _ast.Name]
+        ) -> _ast.AST:
             if not isinstance(node.ctx, _ast.Load):
                 return node
-            candidate = self.table.get(_conversion.to_path(node))
-            return (node
+            candidate = (None
+                         if _conversion.to_maybe_path(node) is None
+                         else self.replace(node))
+            return (self.generic_visit(node)
                     if candidate is None
-                    else _ast.copy_location(_deepcopy(candidate), node))
+                    else _ast.copy_location(candidate, node))
 
 
     def _parse_stubs_state(
@@ -663,29 +417,15 @@ if _reload_cache:
         modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules] = {}
         modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses] = {}
         classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]] = {}
-        generics_parameters_paths: _t.Dict[
-            _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
-        ] = {}
-        visited_modules_paths: _t.Set[_catalog.Path] = set()
-        _parse_stub_scope(
-                _catalog.module_path_from_module(_builtins), modules_ast_nodes,
-                modules_nodes_kinds, modules_definitions, modules_references,
-                modules_submodules, modules_superclasses,
-                visited_modules_paths, classes_bases, generics_parameters_paths
-        )
         for module_path in modules_paths:
-            _parse_stub_scope(
-                    module_path, modules_ast_nodes, modules_nodes_kinds,
-                    modules_definitions, modules_references,
-                    modules_submodules, modules_superclasses,
-                    visited_modules_paths, classes_bases,
-                    generics_parameters_paths
-            )
-        _process_classes_bases(
-                classes_bases, generics_parameters_paths, modules_ast_nodes,
-                modules_definitions, modules_nodes_kinds, modules_references,
-                modules_submodules, modules_superclasses
-        )
+            _parse_stub(module_path, modules_ast_nodes, modules_nodes_kinds,
+                        modules_definitions, modules_references,
+                        modules_submodules, classes_bases)
+        _ClassesProcessor(
+                classes_bases, modules_ast_nodes, modules_definitions,
+                modules_nodes_kinds, modules_references, modules_submodules,
+                modules_superclasses
+        ).process()
         modules_raw_ast_nodes = {
             module_path: {
                 object_path: [_serialization.to_raw(ast_node)
@@ -700,277 +440,367 @@ if _reload_cache:
         )
 
 
-    def _process_classes_bases(
-            classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
-            generics_parameters_paths: _t.Dict[
-                _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
-            ],
-            modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-            modules_definitions: _t.Dict[_catalog.Path, _Scope],
-            modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
-            modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses],
-            *,
-            specializations_module_path: _catalog.Path = ('__specializations',)
-    ) -> None:
-        assert specializations_module_path not in modules_ast_nodes
-        specializations_ast_nodes = modules_ast_nodes[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_definitions
-        specializations_module_scope = modules_definitions[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_nodes_kinds
-        specializations_nodes_kinds = modules_nodes_kinds[
-            specializations_module_path
-        ] = {}
-        assert specializations_module_path not in modules_references
-        specializations_references = modules_references[
-            specializations_module_path
-        ] = {}
-        for (class_module_path, class_object_path), class_bases in (
-                classes_bases.items()
-        ):
-            for base in class_bases:
-                base_module_path, base_object_path = _register_base_ast_node(
-                        base, class_module_path, class_object_path,
-                        classes_bases, generics_parameters_paths,
-                        specializations_ast_nodes, specializations_module_path,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
-                )
-                modules_superclasses.setdefault(
-                        class_module_path, {}
-                ).setdefault(class_object_path, []).append((base_module_path,
-                                                            base_object_path))
-
-
-    def _register_base_ast_node(
-            base: _ast.expr,
-            child_module_path: _catalog.Path,
-            child_object_path: _catalog.Path,
-            classes_bases: _t.Dict[_catalog.QualifiedPath, _t.List[_ast.expr]],
-            generics_parameters_paths: _t.Dict[
-                _catalog.QualifiedPath, _t.Tuple[_catalog.Path, ...]
-            ],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_path: _catalog.Path,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
-            modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-            modules_definitions: _t.Dict[_catalog.Path, _Scope],
-            modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
-            modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Dict[_catalog.Path, _ModuleSuperclasses]
-    ) -> _catalog.QualifiedPath:
-        if _is_generic_specialization(base):
-            base_name = _serialization.to_identifier(base)
-            base_object_path = (base_name,)
-            if base_name not in specializations_module_scope:
-                specialization_args = _unpack_ast_node(
-                        _subscript_to_item(base)
-                )
-                generic_object_path = _conversion.to_path(base.value)
-                generic_module_path, generic_object_path = (
-                    _scoping.resolve_object_path(
-                            child_module_path, child_object_path[:-1],
-                            generic_object_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
-                    )
-                )
-                generic_parameters_paths = generics_parameters_paths[
-                    (generic_module_path, generic_object_path)
+    class _ClassesProcessor:
+        def __init__(
+                self,
+                classes_bases: _t.Dict[
+                    _catalog.QualifiedPath, _t.List[_ast.expr]
+                ],
+                modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
+                modules_definitions: _t.Dict[_catalog.Path, _Scope],
+                modules_nodes_kinds: _t.Dict[
+                    _catalog.Path, _ModuleAstNodesKinds
+                ],
+                modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
+                modules_submodules: _t.Dict[_catalog.Path, _ModuleSubmodules],
+                modules_superclasses: _t.Dict[
+                    _catalog.Path, _ModuleSuperclasses
                 ]
-                _register_generic_specialization(
-                        generic_module_path, generic_object_path,
-                        child_module_path, base_object_path,
-                        generic_parameters_paths,
-                        specialization_args, specializations_ast_nodes,
-                        specializations_module_scope,
-                        specializations_nodes_kinds,
-                        specializations_references, modules_ast_nodes,
-                        modules_definitions, modules_nodes_kinds,
-                        modules_references, modules_submodules,
-                        modules_superclasses
-                )
-                assert base_object_path not in modules_superclasses.get(
-                        specializations_module_path, {}
-                )
-                specialization_table = dict(zip(generic_parameters_paths,
-                                                specialization_args))
-                specialize = _SpecializeGeneric(specialization_table).visit
-                generic_bases = classes_bases[(generic_module_path,
-                                               generic_object_path)]
-                for generic_base in generic_bases:
-                    base_base_module_path: _catalog.Path
-                    base_base_object_path: _catalog.Path
-                    if _is_generic_specialization(generic_base):
-                        base_base_node = specialize(generic_base)
-                        base_base_name = _serialization.to_identifier(
-                                base_base_node
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            specializations_module_path, (base_base_name,)
-                        )
-                        if base_base_name not in specializations_module_scope:
-                            generic_base_base_object_path = (
-                                _conversion.to_path(generic_base.value)
-                            )
-                            (
-                                generic_base_base_module_path,
-                                generic_base_base_object_path
-                            ) = _scoping.resolve_object_path(
-                                    generic_module_path,
-                                    generic_object_path[:-1],
-                                    generic_base_base_object_path,
-                                    modules_definitions, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                            generic_base_base_parameters_paths = (
-                                generics_parameters_paths[
-                                    (generic_base_base_module_path,
-                                     generic_base_base_object_path)
-                                ]
-                            )
-                            base_base_specialization_args = _unpack_ast_node(
-                                    _subscript_to_item(base_base_node)
-                            )
-                            _register_generic_specialization(
-                                    generic_base_base_module_path,
-                                    generic_base_base_object_path,
-                                    child_module_path, base_base_object_path,
-                                    generic_base_base_parameters_paths,
-                                    base_base_specialization_args,
-                                    specializations_ast_nodes,
-                                    specializations_module_scope,
-                                    specializations_nodes_kinds,
-                                    specializations_references,
-                                    modules_ast_nodes, modules_definitions,
-                                    modules_nodes_kinds, modules_references,
-                                    modules_submodules, modules_superclasses
-                            )
-                    else:
-                        base_base_object_path = _conversion.to_path(
-                                generic_base
-                        )
-                        base_base_module_path, base_base_object_path = (
-                            _scoping.resolve_object_path(
-                                    generic_module_path, (),
-                                    base_base_object_path, modules_definitions,
-                                    modules_references, modules_submodules,
-                                    modules_superclasses
-                            )
-                        )
-                    modules_superclasses.setdefault(
-                            specializations_module_path, {}
-                    ).setdefault(base_object_path, []).append(
-                            (base_base_module_path, base_base_object_path)
-                    )
-            return specializations_module_path, base_object_path
-        else:
-            base_reference_path = _conversion.to_path(base)
-            return _scoping.resolve_object_path(
-                    child_module_path, child_object_path[:-1],
-                    base_reference_path, modules_definitions,
-                    modules_references, modules_submodules,
-                    modules_superclasses
+        ) -> None:
+            (
+                self.classes_bases, self.modules_ast_nodes,
+                self.modules_definitions, self.modules_nodes_kinds,
+                self.modules_references, self.modules_submodules,
+                self.modules_superclasses
+            ) = (
+                classes_bases, modules_ast_nodes, modules_definitions,
+                modules_nodes_kinds, modules_references, modules_submodules,
+                modules_superclasses
             )
+            self.classes_bases_paths: _t.Dict[
+                _catalog.QualifiedPath,
+                _t.List[_t.Tuple[_catalog.QualifiedPath, _ast.expr]]
+            ] = {}
+            self.generics_parameters: _t.Dict[
+                _catalog.QualifiedPath, _t.Tuple[str, ...]
+            ] = {}
+            for tables in (self.modules_ast_nodes, self.modules_definitions,
+                           self.modules_nodes_kinds, self.modules_references,
+                           self.modules_superclasses):
+                assert _scoping.SPECIALIZATIONS_MODULE_PATH not in tables
+                tables[_scoping.SPECIALIZATIONS_MODULE_PATH] = {}
+
+        def process(self) -> None:
+            self._resolve_bases()
+            for class_qualified_path, bases in (
+                    self.classes_bases_paths.items()
+            ):
+                module_path, object_path = class_qualified_path
+                self.modules_superclasses[module_path][object_path] = [
+                    self._to_superclass(base_path, base,
+                                        (class_qualified_path,))
+                    for base_path, base in bases
+                ]
 
-
-    def _register_generic_specialization(
-            generic_module_path: _catalog.Path,
-            generic_object_path: _catalog.Path,
-            specialization_module_path: _catalog.Path,
-            specialization_object_path: _catalog.Path,
-            generic_parameters_paths: _t.Sequence[_catalog.Path],
-            specialization_args: _t.Sequence[_ast.expr],
-            specializations_ast_nodes: _ModuleAstNodes,
-            specializations_module_scope: _Scope,
-            specializations_nodes_kinds: _ModuleAstNodesKinds,
-            specializations_references: _ModuleReferences,
-            modules_ast_nodes: _t.Dict[_catalog.Path, _ModuleAstNodes],
-            modules_definitions: _t.Dict[_catalog.Path, _Scope],
-            modules_nodes_kinds: _t.Dict[_catalog.Path, _ModuleAstNodesKinds],
-            modules_references: _t.Dict[_catalog.Path, _ModuleReferences],
-            modules_submodules: _t.Mapping[_catalog.Path, _ModuleSubmodules],
-            modules_superclasses: _t.Mapping[
-                _catalog.Path, _ModuleSuperclasses
-            ],
-            builtins_module_path: _catalog.Path
-            = _catalog.module_path_from_module(_builtins)
-    ) -> None:
-        base_scope = specializations_module_scope
-        for part in specialization_object_path:
-            base_scope = base_scope.setdefault(part, {})
-        generic_scope = modules_definitions[generic_module_path]
-        for part in generic_object_path:
-            generic_scope = generic_scope[part]
-        base_scope.update(generic_scope)
-        generic_module_ast_nodes = modules_ast_nodes[generic_module_path]
-        specializations_nodes_kinds[
-            specialization_object_path
-        ] = _NodeKind.CLASS
-        specialize = _SpecializeGeneric(
-                dict(zip(generic_parameters_paths, specialization_args))
-        ).visit
-        args_names = (
-                {arg.id
-                 for arg in specialization_args
-                 if _is_dependency_name(arg)}
-                | {child.id
-                   for ast_node in specialization_args
-                   for child in _recursively_iterate_children(ast_node)
-                   if _is_dependency_name(child)}
-        )
-        for name in generic_scope.keys():
-            generic_field_path = (*generic_object_path, name)
-            generic_ast_nodes = generic_module_ast_nodes[generic_field_path]
-            specialization_field_path = (*specialization_object_path, name)
-            specialization_ast_nodes = specializations_ast_nodes[
-                specialization_field_path
-            ] = [specialize(_deepcopy(ast_node))
-                 for ast_node in generic_ast_nodes]
-            specialization_definitions_names = set(
-                    chain.from_iterable(
-                            _conversion.to_names(ast_node)
-                            for ast_node in specialization_ast_nodes
+        def _resolve_bases(self) -> None:
+            # bases may be members of other classes, own or inherited
+            classes_bases = self.classes_bases
+            while classes_bases:
+                postponed_classes_bases = {}
+                for class_qualified_path, bases in classes_bases.items():
+                    module_path, object_path = class_qualified_path
+                    try:
+                        bases_paths = [
+                            self._resolve(module_path, object_path[:-1],
+                                          _conversion.to_path(
+                                                  base.value
+                                                  if _is_generic_specialization(
+                                                          base
+                                                  )
+                                                  else base
+                                          ))
+                            for base in bases
+                        ]
+                    except _scoping.ObjectNotFound:
+                        postponed_classes_bases[class_qualified_path] = bases
+                        continue
+                    if any(map(_is_named_tuple_path, bases_paths)):
+                        self._add_named_tuple_constructor(module_path,
+                                                          object_path)
+                    self.classes_bases_paths[class_qualified_path] = [
+                        (base_path, base)
+                        for base_path, base in zip(bases_paths, bases)
+                        if not _is_generic_path(base_path)
+                    ]
+                    self.modules_superclasses.setdefault(module_path, {})[
+                        object_path
+                    ] = [base_path
+                         for base_path in bases_paths
+                         if not _is_generic_path(base_path)]
+                    self.generics_parameters[class_qualified_path] = (
+                        self._to_parameters(module_path, object_path,
+                                            bases_paths, bases)
                     )
+                if len(postponed_classes_bases) == len(classes_bases):
+                    raise _scoping.ObjectNotFound(*postponed_classes_bases)
+                classes_bases = postponed_classes_bases
+
+        def _to_parameters(self,
+                           module_path: _catalog.Path,
+                           object_path: _catalog.Path,
+                           bases_paths: _t.List[_catalog.QualifiedPath],
+                           bases: _t.List[_ast.expr]) -> _t.Tuple[str, ...]:
+            generics = [base
+                        for base_path, base in zip(bases_paths, bases)
+                        if (_is_generic_path(base_path)
+                            and _is_generic_specialization(base))]
+            return tuple(dict.fromkeys(
+                    _qualified_path_to_name(path)
+                    for path in [
+                        self._try_resolve(module_path, object_path[:-1],
+                                          _conversion.to_path(name_node))
+                        for base in (generics[:1] if generics else bases)
+                        if _is_generic_specialization(base)
+                        for name_node in _to_dotted_names(
+                                _subscript_to_item(base)
+                        )
+                    ]
+                    if path is not None and self._is_type_variable(*path)
+            ))
+
+        def _is_type_variable(self,
+                              module_path: _catalog.Path,
+                              object_path: _catalog.Path) -> bool:
+            ast_nodes = self.modules_ast_nodes[module_path].get(object_path,
+                                                                [])
+            if len(ast_nodes) != 1:
+                return False
+            ast_node, = ast_nodes
+            if not (isinstance(ast_node, (_ast.AnnAssign, _ast.Assign))
+                    and isinstance(ast_node.value, _ast.Call)):
+                return False
+            callable_maybe_path = _conversion.to_maybe_path(
+                    ast_node.value.func
             )
-            for dependency_name in (
-                    {child.id
-                     for ast_node in specialization_ast_nodes
-                     for child in _recursively_iterate_children(ast_node)
-                     if _is_dependency_name(child)}
-                    - specialization_definitions_names
+            return (callable_maybe_path is not None
+                    and _is_typing_path(self._try_resolve(module_path, (),
+                                                          callable_maybe_path),
+                                        'ParamSpec', 'TypeVar'))
+
+        def _to_superclass(
+                self,
+                base_path: _catalog.QualifiedPath,
+                base: _ast.expr,
+                visited_paths: _t.Tuple[_catalog.QualifiedPath, ...]
+        ) -> _catalog.QualifiedPath:
+            """
+            Returns path of the base,
+            of its specialization if it is a specialized generic class.
+            """
+            parameters = self.generics_parameters.get(base_path, ())
+            if (not _is_generic_specialization(base)
+                    or not parameters
+                    or base_path in visited_paths):
+                return base_path
+            child_module_path, child_object_path = visited_paths[-1]
+            arguments = [self._qualify(argument, child_module_path,
+                                       child_object_path[:-1])
+                         for argument in _unpack_ast_node(
+                                 _subscript_to_item(base)
+                         )]
+            return self._to_specialization(base_path,
+                                           dict(zip(parameters, arguments)),
+                                           visited_paths)
+
+        def _to_specialization(
+                self,
+                generic_path: _catalog.QualifiedPath,
+                arguments: _t.Dict[str, _ast.expr],
+                visited_paths: _t.Tuple[_catalog.QualifiedPath, ...],
+                *,
+                initializer_name: str = object.__init__.__name__
+        ) -> _catalog.QualifiedPath:
+            specialization_module_path = _scoping.SPECIALIZATIONS_MODULE_PATH
+            object_path = (
+                '_'.join([_qualified_path_to_name(generic_path), 'getitem',
+                          *[_serialization.to_identifier(argument)
+                            for argument in arguments.values()]]),
+            )
+            result = (specialization_module_path, object_path)
+            references = self.modules_references[specialization_module_path]
+            if object_path in references:
+                return result
+            references[object_path] = generic_path
+            generic_module_path, generic_object_path = generic_path
+            self.modules_nodes_kinds[specialization_module_path][
+                object_path
+            ] = _NodeKind.CLASS
+            scope = self.modules_definitions[specialization_module_path][
+                object_path[0]
+            ] = {}
+            generic_scope = self.modules_definitions[generic_module_path]
+            for part in generic_object_path:
+                generic_scope = generic_scope[part]
+            for name in [*generic_scope,
+                         *([initializer_name]
+                           if ((*generic_object_path, initializer_name)
+                               in self.modules_ast_nodes[generic_module_path]
+                               and initializer_name not in generic_scope)
+                           else [])]:
+                generic_field_path = (*generic_object_path, name)
+                field_path = (*object_path, name)
+                try:
+                    generic_ast_nodes = self.modules_ast_nodes[
+                        generic_module_path
+                    ][generic_field_path]
+                except KeyError:
+                    # nested class
+                    references[field_path] = (generic_module_path,
+                                              generic_field_path)
+                    continue
+                self.modules_ast_nodes[specialization_module_path][
+                    field_path
+                ] = [self._qualify(ast_node, generic_module_path,
+                                   generic_object_path, arguments)
+                     for ast_node in generic_ast_nodes]
+                # constructors of named tuples are not in the scope
+                if name in generic_scope:
+                    scope[name] = {}
+                    self.modules_nodes_kinds[specialization_module_path][
+                        field_path
+                    ] = self.modules_nodes_kinds[generic_module_path][
+                        generic_field_path
+                    ]
+            for path, (referent_module_path, referent_path) in list(
+                    self.modules_references[generic_module_path].items()
             ):
-                dependency_path = (dependency_name,)
-                dependency_module_path, dependency_object_path = (
-                    _scoping.resolve_object_path(
-                            (specialization_module_path
-                             if dependency_name in args_names
-                             else generic_module_path), (),
-                            dependency_path, modules_definitions,
-                            modules_references, modules_submodules,
-                            modules_superclasses
+                if path[:-1] == generic_object_path:
+                    references[object_path + path[-1:]] = (
+                        (specialization_module_path,
+                         object_path + referent_path[-1:])
+                        if (referent_module_path == generic_module_path
+                            and referent_path[:-1] == generic_object_path)
+                        else (referent_module_path, referent_path)
                     )
+            superclasses = self.modules_superclasses[
+                specialization_module_path
+            ][object_path] = []
+            for base_path, base in self.classes_bases_paths[generic_path]:
+                base_parameters = self.generics_parameters.get(base_path, ())
+                superclasses.append(
+                        self._to_specialization(
+                                base_path,
+                                dict(zip(base_parameters,
+                                         [self._qualify(
+                                                 argument, generic_module_path,
+                                                 generic_object_path[:-1],
+                                                 arguments
+                                         )
+                                          for argument in _unpack_ast_node(
+                                                  _subscript_to_item(base)
+                                          )])),
+                                (*visited_paths, generic_path)
+                        )
+                        if (_is_generic_specialization(base)
+                            and base_parameters
+                            and base_path not in visited_paths
+                            and base_path != generic_path)
+                        else base_path
                 )
-                if dependency_module_path != builtins_module_path:
-                    specializations_references[dependency_path] = (
-                        dependency_module_path, dependency_object_path
-                    )
-            specializations_nodes_kinds[specialization_field_path] = (
-                modules_nodes_kinds[generic_module_path][generic_field_path]
+            return result
+
+        def _qualify(
+                self,
+                ast_node: _AstNode,
+                module_path: _catalog.Path,
+                parent_path: _catalog.Path,
+                arguments: _t.Mapping[str, _ast.expr] = {}
+        ) -> _AstNode:
+            """
+            Replaces names with the ones meaning the same
+            in the module of specializations.
+            """
+
+            def replace(
+                    node: _t.Union[_ast.Attribute, _ast.Name]
+            ) -> _t.Optional[_ast.expr]:
+                path = self._try_resolve(module_path, parent_path,
+                                         _conversion.to_path(node))
+                if path is None or (parent_path
+                                    and path[0] == module_path
+                                    and path[1][:-1] == parent_path):
+                    # members of the class are members of its specialization
+                    return None
+                name = _qualified_path_to_name(path)
+                try:
+                    return _deepcopy(arguments[name])
+                except KeyError:
+                    self.modules_references[
+                        _scoping.SPECIALIZATIONS_MODULE_PATH
+                    ][(name,)] = path
+                    return _ast.Name(name, _ast.Load())
+
+            return _NamesReplacer(replace).visit(_deepcopy(ast_node))
+
+        def _add_named_tuple_constructor(
+                self,
+                module_path: _catalog.Path,
+                object_path: _catalog.Path,
+                *,
+                constructor_name: str = object.__new__.__name__,
+                initializer_name: str = object.__init__.__name__
+        ) -> None:
+            scope = self.modules_definitions[module_path]
+            for part in object_path:
+                scope = scope[part]
+            if constructor_name in scope or initializer_name in scope:
+                return
+            module_ast_nodes = self.modules_ast_nodes[module_path]
+            fields_ast_nodes = [
+                ast_node
+                for name in scope
+                for ast_node in module_ast_nodes.get((*object_path, name), [])
+                if isinstance(ast_node, _ast.AnnAssign)
+            ]
+            module_ast_nodes[(*object_path, initializer_name)] = [
+                _ast.FunctionDef(initializer_name,
+                                 _annotations_to_signature(fields_ast_nodes),
+                                 [_ast.Expr(_ast.Ellipsis())], [], None)
+            ]
+
+        def _resolve(self,
+                     module_path: _catalog.Path,
+                     parent_path: _catalog.Path,
+                     object_path: _catalog.Path) -> _catalog.QualifiedPath:
+            return _scoping.resolve_object_path(
+                    module_path, parent_path, object_path,
+                    self.modules_definitions, self.modules_references,
+                    self.modules_submodules, self.modules_superclasses
             )
 
+        def _try_resolve(
+                self,
+                module_path: _catalog.Path,
+                parent_path: _catalog.Path,
+                object_path: _catalog.Path
+        ) -> _t.Optional[_catalog.QualifiedPath]:
+            try:
+                return self._resolve(module_path, parent_path, object_path)
+            except _scoping.ObjectNotFound:
+                return None
+
+
+    def _is_generic_path(path: _catalog.QualifiedPath) -> bool:
+        return _is_typing_path(path, 'Generic', 'Protocol')
+
+
+    def _is_named_tuple_path(path: _catalog.QualifiedPath) -> bool:
+        return _is_typing_path(path, _t.NamedTuple.__qualname__)
+
+
+    def _is_typing_path(path: _t.Optional[_catalog.QualifiedPath],
+                        *names: str) -> bool:
+        return (path is not None
+                and path[0] in [_catalog.module_path_from_module(_t),
+                                _catalog.path_from_string('typing_extensions')]
+                and len(path[1]) == 1
+                and path[1][0] in names)
+
+
+    def _qualified_path_to_name(path: _catalog.QualifiedPath) -> str:
+        # there can be no such names in stubs, so no name conflicts
+        return ':'.join(map(_catalog.path_to_string, path))
+
 
     if _execution.is_main_process():
         (
-- 
2.43.0


From 919433856a5a6c967a5d4135f0d2349c79109077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 20/40] fix: take signatures of functions that stubs describe
 as classes

Also constructors are searched in the method resolution order
and variables having classes as values are not mixed up with classes.
---
 paradigm/_core/arboreal/evaluation.py |  3 +-
 paradigm/_core/signatures.py          | 73 ++++++++++++---------------
 2 files changed, 34 insertions(+), 42 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index cc32ddc..b6a9c9a 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -385,7 +385,8 @@ def evaluate_qualified_path(
                                 stubs.superclasses
                         )
                     )
-                    if dependency_module_path != builtins_module_path:
+                    if ((dependency_module_path, dependency_object_path)
+                            != (builtins_module_path, (dependency_name,))):
                         module_namespace[dependency_name] = (
                             evaluate_qualified_path(
                                     dependency_module_path,
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 5ca3334..ac62c71 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -362,10 +362,8 @@ def _is_decorated_with(
     maybe_paths = [_conversion.to_maybe_path(decorator_node)
                    for decorator_node in ast_node.decorator_list]
     return any(maybe_path is not None
-               and _scoping.resolve_object_path(
-                       module_path, parent_path, maybe_path,
-                       _stubs.definitions, _stubs.references,
-                       _stubs.submodules, _stubs.superclasses
+               and _try_resolve_object_path(
+                       module_path, maybe_path, parent_path
                ) == decorator_qualified_path
                for maybe_path in maybe_paths)
 
@@ -375,11 +373,13 @@ class _SignatureNotFound(Exception):
 
 
 def _try_resolve_object_path(
-        module_path: _catalog.Path, object_path: _catalog.Path
+        module_path: _catalog.Path,
+        object_path: _catalog.Path,
+        parent_path: _catalog.Path = ()
 ) -> _catalog.QualifiedPath:
     try:
         return _scoping.resolve_object_path(
-                module_path, (), object_path, _stubs.definitions,
+                module_path, parent_path, object_path, _stubs.definitions,
                 _stubs.references, _stubs.submodules, _stubs.superclasses
         )
     except _scoping.ObjectNotFound:
@@ -387,31 +387,29 @@ def _try_resolve_object_path(
 
 
 def _from_callable(value: _t.Callable[..., _t.Any]) -> _Signature:
-    for module_path, object_path in _to_qualified_paths(value):
-        ast_nodes = _load_ast_nodes(module_path, object_path)
-        parent_path = object_path[:-1]
+    for module_path, object_path in resolve_qualified_paths(value):
         try:
-            signatures = [
-                _from_statement_node(ast_node, value, module_path, parent_path)
-                for ast_node in ast_nodes
-            ]
+            return _from_qualified_path(value, module_path, object_path)
         except _SignatureNotFound:
             continue
-        else:
-            return _from_signatures(*signatures)
     raise _SignatureNotFound
 
 
-def _to_qualified_paths(
-        value: _t.Callable[..., _t.Any]
-) -> _t.Iterable[_catalog.QualifiedPath]:
-    qualified_paths = resolve_qualified_paths(value)
-    if qualified_paths:
-        module_path, object_path = qualified_paths[0]
-        if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS:
-            yield _resolve_builder_qualified_path(qualified_paths)
-        else:
-            yield from qualified_paths
+def _from_qualified_path(value: _t.Callable[..., _t.Any],
+                         module_path: _catalog.Path,
+                         object_path: _catalog.Path) -> _Signature:
+    if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS:
+        # calling it is the same as calling the class
+        value = type
+        module_path, object_path = _to_class_builder_qualified_path(
+                module_path, object_path
+        )
+    ast_nodes = _load_ast_nodes(module_path, object_path)
+    parent_path = object_path[:-1]
+    return _from_signatures(*[
+        _from_statement_node(ast_node, value, module_path, parent_path)
+        for ast_node in ast_nodes
+    ])
 
 
 def _resolve_builder_qualified_path(
@@ -422,8 +420,12 @@ def _resolve_builder_qualified_path(
            _catalog.path_from_string(object.__qualname__)
            + _catalog.path_from_string(object.__new__.__name__))
 ) -> _catalog.QualifiedPath:
-    candidates = {_to_class_builder_qualified_path(module_path, object_path)
-                  for module_path, object_path in qualified_paths}
+    candidates = {
+        _to_class_builder_qualified_path(module_path, object_path)
+        for module_path, object_path in qualified_paths
+        # classes may be values of variables too
+        if _stubs.nodes_kinds[module_path][object_path] is _NodeKind.CLASS
+    }
     try:
         (module_path, object_path), = candidates
     except ValueError:
@@ -490,8 +492,9 @@ def _to_class_builder_qualified_path(
         constructor_name: str = object.__new__.__name__,
         initializer_name: str = object.__init__.__name__
 ) -> _catalog.QualifiedPath:
-    for base_module_path, base_object_path in _to_mro(module_path,
-                                                      object_path):
+    for base_module_path, base_object_path in _scoping.to_mro(
+            module_path, object_path, _stubs.references, _stubs.superclasses
+    ):
         base_module_annotations = _stubs.raw_ast_nodes[base_module_path]
         constructor_path = (*base_object_path, constructor_name)
         initializer_path = (*base_object_path, initializer_name)
@@ -502,18 +505,6 @@ def _to_class_builder_qualified_path(
     return object_builder_qualified_path
 
 
-def _to_mro(module_path: _catalog.Path,
-            object_path: _catalog.Path) -> _t.Iterable[_catalog.QualifiedPath]:
-    yield (module_path, object_path)
-    try:
-        bases = _stubs.superclasses[module_path][object_path]
-    except KeyError:
-        return
-    else:
-        for base_module_path, base_object_path in bases:
-            yield from _to_mro(base_module_path, base_object_path)
-
-
 def _is_stdlib_module_path(value: _catalog.Path) -> bool:
     return (bool(value)
             and (value[0] in _sys.stdlib_module_names
-- 
2.43.0


From 55a4eac77e5bc3300faca290cfbc731fb4bd943f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 21/40] fix: evaluate annotations hidden by methods & classes
 that can't be created

Methods were found instead of the types their names hide,
classes with superclasses having own requirements raised TypeError.
---
 paradigm/_core/arboreal/evaluation.py | 58 +++++++++++++++++++--------
 paradigm/_core/stubs.py               | 13 +++++-
 2 files changed, 52 insertions(+), 19 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index b6a9c9a..ba38b77 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -264,11 +264,8 @@ def _(ast_node: ast.Name,
       parent_path: catalog.Path,
       parent_namespace: namespacing.Namespace) -> t.Any:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
-    object_name = ast_node.id
-    module_path, object_path = scoping.resolve_object_path(
-            module_path, parent_path, (object_name,), stubs.definitions,
-            stubs.references, stubs.submodules, stubs.superclasses
-    )
+    module_path, object_path = _resolve_object_path(module_path, parent_path,
+                                                    (ast_node.id,))
     return evaluate_qualified_path(module_path, object_path, parent_namespace)
 
 
@@ -283,15 +280,26 @@ def _(ast_node: ast.Attribute,
     try:
         return getattr(value, ast_node.attr)
     except AttributeError:
-        module_path, object_path = scoping.resolve_object_path(
-                module_path, parent_path, conversion.to_path(ast_node),
-                stubs.definitions, stubs.references, stubs.submodules,
-                stubs.superclasses
+        module_path, object_path = _resolve_object_path(
+                module_path, parent_path, conversion.to_path(ast_node)
         )
         return evaluate_qualified_path(module_path, object_path,
                                        parent_namespace)
 
 
+def _resolve_object_path(module_path: catalog.Path,
+                         parent_path: catalog.Path,
+                         object_path: catalog.Path) -> catalog.QualifiedPath:
+    if (stubs.nodes_kinds[module_path].get((*parent_path, object_path[0]))
+            in (NodeKind.ASYNC_FUNCTION, NodeKind.FUNCTION)):
+        # methods are not types
+        parent_path = ()
+    return scoping.resolve_object_path(
+            module_path, parent_path, object_path, stubs.definitions,
+            stubs.references, stubs.submodules, stubs.superclasses
+    )
+
+
 def evaluate_qualified_path(
         module_path: catalog.Path,
         object_path: catalog.Path,
@@ -412,14 +420,15 @@ def evaluate_qualified_path(
         )
         if annotations_nodes:
             class_namespace['__annotations__'] = {}
-        result = parent_namespace[object_path[-1]] = objects_cache[
-            (module_path, object_path)
-        ] = types.new_class(
-                catalog.path_to_string(object_path), bases,
-                exec_body=lambda namespace: namespace.update(
-                        class_namespace
-                )
-        )
+        try:
+            # may be created along with its members & superclasses
+            result = objects_cache[(module_path, object_path)]
+        except KeyError:
+            result = objects_cache[
+                (module_path, object_path)
+            ] = _to_class(catalog.path_to_string(object_path), bases,
+                          class_namespace)
+        parent_namespace[object_path[-1]] = result
         if annotations_nodes:
             result.__annotations__.update({
                 name: evaluate_expression_node(annotation_node,
@@ -431,6 +440,21 @@ def evaluate_qualified_path(
         return result
 
 
+def _to_class(name: str,
+              bases: t.Tuple[t.Any, ...],
+              namespace: namespacing.Namespace) -> type:
+    def update(class_namespace: namespacing.Namespace) -> None:
+        class_namespace.update(namespace)
+
+    try:
+        return types.new_class(name, bases,
+                               exec_body=update)
+    except TypeError:
+        # runtime superclasses may have requirements unknown to stubs
+        return types.new_class(name,
+                               exec_body=update)
+
+
 if sys.version_info < (3, 9):
     _GenericAlias: t.Any = type(t.List)
     _types_to_generic_aliases = {value.__origin__: value
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index d6010a0..220c091 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -714,8 +714,17 @@ if _reload_cache:
             def replace(
                     node: _t.Union[_ast.Attribute, _ast.Name]
             ) -> _t.Optional[_ast.expr]:
-                path = self._try_resolve(module_path, parent_path,
-                                         _conversion.to_path(node))
+                object_path = _conversion.to_path(node)
+                path = self._try_resolve(
+                        module_path,
+                        # methods are not types
+                        ()
+                        if (self.modules_nodes_kinds[module_path]
+                            .get((*parent_path, object_path[0]))
+                            in (_NodeKind.ASYNC_FUNCTION, _NodeKind.FUNCTION))
+                        else parent_path,
+                        object_path
+                )
                 if path is None or (parent_path
                                     and path[0] == module_path
                                     and path[1][:-1] == parent_path):
-- 
2.43.0


From 1ea1140826106e2868525bb41078571e94f3ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 22/40] fix: evaluate mutually recursive aliases independently
 of the order

Aliases evaluated in the course of the other ones were cached
with the references to the latter, failed ones stayed forward references,
modules absent from the interpreter kept whatever was in progress.
---
 paradigm/_core/arboreal/evaluation.py | 66 ++++++++++++++++++---------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index ba38b77..0967eb8 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -209,6 +209,12 @@ def _(ast_node: ast.List,
             for element in ast_node.elts]
 
 
+# aliases being evaluated & the ones met inside of each
+_aliases_in_progress: t.List[
+    t.Tuple[t.List[catalog.QualifiedPath], t.Set[catalog.QualifiedPath]]
+] = []
+
+
 @evaluate_statement_node.register(ast.AnnAssign)
 @evaluate_statement_node.register(ast.Assign)
 def _(ast_node: ast.Assign,
@@ -224,21 +230,27 @@ def _(ast_node: ast.Assign,
         for name in conversion.to_names(ast_node)
     ]
     for target_path in targets_paths:
-        try:
-            result = cache[target_path]
-        except KeyError:
-            _, target_object_path = target_path
-            cache[target_path] = t.ForwardRef(
-                    catalog.path_to_string(target_object_path)
-            )
-            continue
-        else:
-            break
-    else:
+        if target_path in cache:
+            return cache[target_path]
+        for paths, _ in _aliases_in_progress:
+            if target_path in paths:
+                # cyclic reference
+                _aliases_in_progress[-1][1].add(target_path)
+                _, target_object_path = target_path
+                return t.ForwardRef(catalog.path_to_string(target_object_path))
+    met_paths: t.Set[catalog.QualifiedPath] = set()
+    _aliases_in_progress.append((targets_paths, met_paths))
+    try:
         result = evaluate_expression_node(ast_node.value, module_path,
                                           parent_path, parent_namespace)
-    for target_path in targets_paths:
-        cache[target_path] = result
+    finally:
+        _aliases_in_progress.pop()
+    met_paths.difference_update(targets_paths)
+    if met_paths:
+        # makes sense only inside of other aliases
+        _aliases_in_progress[-1][1].update(met_paths)
+    else:
+        cache.update(dict.fromkeys(targets_paths, result))
     return result
 
 
@@ -300,6 +312,24 @@ def _resolve_object_path(module_path: catalog.Path,
     )
 
 
+class _StubModule(types.ModuleType):
+    """Module which has stub but is absent from the running interpreter."""
+
+    def __init__(self, path: catalog.Path) -> None:
+        super().__init__(catalog.path_to_string(path))
+        self.__stub_path = path
+
+    def __getattr__(self, name: str) -> t.Any:
+        try:
+            module_path, object_path = scoping.resolve_object_path(
+                    self.__stub_path, (), (name,), stubs.definitions,
+                    stubs.references, stubs.submodules, stubs.superclasses
+            )
+        except scoping.ObjectNotFound:
+            raise AttributeError(name)
+        return evaluate_qualified_path(module_path, object_path, {})
+
+
 def evaluate_qualified_path(
         module_path: catalog.Path,
         object_path: catalog.Path,
@@ -320,15 +350,7 @@ def evaluate_qualified_path(
             try:
                 return modules_cache[module_path]
             except KeyError:
-                modules_cache[module_path] = module = types.ModuleType(
-                        module_name
-                )
-                namespace = module.__dict__
-                for name in stubs.definitions[module_path].keys():
-                    namespace[name] = parent_namespace[name] = (
-                        evaluate_qualified_path(module_path, (name,),
-                                                parent_namespace)
-                    )
+                modules_cache[module_path] = module = _StubModule(module_path)
                 return module
     else:
         try:
-- 
2.43.0


From 203fd4d27856be72d70d668a6c273ebc6e5b390e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 23/40] fix: evaluate objects of stubs in one thread at a time

Concurrent queries got forward references in place of the aliases
being evaluated by other threads and different classes for the same object.
---
 paradigm/_core/arboreal/evaluation.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 0967eb8..e20db4c 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -2,6 +2,7 @@ import ast
 import builtins
 import operator
 import sys
+import threading
 import types
 import typing as t
 import weakref
@@ -209,6 +210,8 @@ def _(ast_node: ast.List,
             for element in ast_node.elts]
 
 
+# for evaluated objects being the same in all of the threads
+_lock = threading.RLock()
 # aliases being evaluated & the ones met inside of each
 _aliases_in_progress: t.List[
     t.Tuple[t.List[catalog.QualifiedPath], t.Set[catalog.QualifiedPath]]
@@ -335,12 +338,8 @@ def evaluate_qualified_path(
         object_path: catalog.Path,
         parent_namespace: namespacing.Namespace,
         *,
-        builtins_module_path: catalog.Path
-        = catalog.module_path_from_module(builtins),
         modules_cache: t.MutableMapping[catalog.Path, types.ModuleType]
-        = weakref.WeakValueDictionary(),
-        objects_cache: t.MutableMapping[catalog.QualifiedPath, t.Any]
-        = weakref.WeakValueDictionary([((('_typeshed',), ('Self',)), te.Self)])
+        = weakref.WeakValueDictionary()
 ) -> t.Any:
     module_name = catalog.path_to_string(module_path)
     try:
@@ -359,6 +358,21 @@ def evaluate_qualified_path(
                     else module)
         except namespacing.ObjectNotFound:
             pass
+    with _lock:
+        return _evaluate_stub_object(module_path, object_path,
+                                     parent_namespace)
+
+
+def _evaluate_stub_object(
+        module_path: catalog.Path,
+        object_path: catalog.Path,
+        parent_namespace: namespacing.Namespace,
+        *,
+        builtins_module_path: catalog.Path
+        = catalog.module_path_from_module(builtins),
+        objects_cache: t.MutableMapping[catalog.QualifiedPath, t.Any]
+        = weakref.WeakValueDictionary([((('_typeshed',), ('Self',)), te.Self)])
+) -> t.Any:
     try:
         return objects_cache[(module_path, object_path)]
     except KeyError:
-- 
2.43.0


From ca05fe684dfb270ab85c5f3fdd63d2bb932417c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:34 +0000
Subject: [PATCH 24/40] fix: raise an error if the process building tables dies

The parent was waiting for its result forever.
The lock was created for each call, so there was no locking.
---
 paradigm/_core/execution.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 2def910..b9d8b30 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -3,17 +3,20 @@ import multiprocessing
 import sys
 import threading
 import typing as t
-from multiprocessing.queues import SimpleQueue
+from multiprocessing.connection import Connection
 
 
 def is_main_process() -> bool:
     return multiprocessing.current_process().name == 'MainProcess'
 
 
+_lock = threading.Lock()
+
+
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
-    with threading.Lock():
+    with _lock:
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
         assert caller_module is not None
@@ -21,16 +24,23 @@ def call_in_process(function: t.Callable[..., t.Any],
         try:
             sys.modules['__main__'] = caller_module
             context = multiprocessing.get_context()
-            queue = context.SimpleQueue()
+            receiver, sender = context.Pipe(duplex=False)
             process = context.Process(
-                    target=_put_result_in_queue,
+                    target=_send_result,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(queue, function, *args),
+                    args=(sender, function, *args),
                     kwargs=kwargs
             )
             process.start()
-            result, error = queue.get()
+            # for the end of the process to be noticed
+            sender.close()
+            try:
+                result, error = receiver.recv()
+            except (EOFError, OSError):
+                process.join()
+                raise RuntimeError(f'"{process.name}" has died with exit code '
+                                   f'{process.exitcode}.')
             process.join()
             if error is not None:
                 raise error
@@ -42,14 +52,14 @@ def call_in_process(function: t.Callable[..., t.Any],
                 sys.modules['__main__'] = main_module
 
 
-def _put_result_in_queue(queue: 'SimpleQueue[t.Any]',
-                         function: t.Callable[..., t.Any],
-                         *args: t.Any,
-                         **kwargs: t.Any) -> None:
+def _send_result(sender: Connection,
+                 function: t.Callable[..., t.Any],
+                 *args: t.Any,
+                 **kwargs: t.Any) -> None:
     try:
         result = function(*args, **kwargs)
     except Exception as error:
-        queue.put((None, error))
+        sender.send((None, error))
         raise error
     else:
-        queue.put((result, None))
+        sender.send((result, None))
-- 
2.43.0


From b50f54593282ec62c552a7bebce1292e662c55f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 25/40] fix: build tables in processes started by users

They were left empty, so signatures differed from the ones
in the main process.
---
 paradigm/_core/execution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index b9d8b30..30fba42 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -7,7 +7,9 @@ from multiprocessing.connection import Connection
 
 
 def is_main_process() -> bool:
-    return multiprocessing.current_process().name == 'MainProcess'
+    # processes started by users build tables too
+    return not (multiprocessing.current_process().name
+                .startswith(call_in_process.__qualname__))
 
 
 _lock = threading.Lock()
@@ -16,6 +18,9 @@ _lock = threading.Lock()
 def call_in_process(function: t.Callable[..., t.Any],
                     *args: t.Any,
                     **kwargs: t.Any) -> t.Any:
+    if multiprocessing.current_process().daemon:
+        # daemonic processes can't have children
+        return function(*args, **kwargs)
     with _lock:
         caller_frame = inspect.stack()[1].frame
         caller_module = inspect.getmodule(caller_frame)
-- 
2.43.0


From c69e5c68472aacf9307aac4cf0b04ebb7e57714b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 26/40] fix: save caches atomically

Processes saving the same file at once (e.g. having different hash seeds)
could leave a mixture of their contents.
---
 paradigm/_core/caching.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/paradigm/_core/caching.py b/paradigm/_core/caching.py
index 7438f8b..5bc886d 100644
--- a/paradigm/_core/caching.py
+++ b/paradigm/_core/caching.py
@@ -1,3 +1,4 @@
+import os
 import typing as t
 import warnings
 from compileall import compile_file
@@ -24,12 +25,22 @@ def load(*names: str, path: Path) -> t.Tuple[t.Any, ...]:
 
 def save(*, path: Path, **values: t.Any) -> None:
     try:
-        with path.open('w',
-                       encoding='utf-8') as file:
-            for name, value in values.items():
-                file.write(f'{name} = '
-                           + pretty.repr_from(value, 4, 0)
-                           + '\n')
+        # other processes may save the same file
+        temporary_path = path.with_name(
+                f'{path.stem}_{os.urandom(8).hex()}{path.suffix}'
+        )
+        try:
+            with temporary_path.open('w',
+                                     encoding='utf-8') as file:
+                for name, value in values.items():
+                    file.write(f'{name} = '
+                               + pretty.repr_from(value, 4, 0)
+                               + '\n')
+            temporary_path.replace(path)
+        except Exception:
+            if temporary_path.exists():
+                temporary_path.unlink()
+            raise
         compile_file(path,
                      quiet=2)
     except Exception as error:
-- 
2.43.0


From 58b1e32f0a9c66e4ea7a546f81ff1999a6ba2150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 27/40] fix: answer for objects with modules names that are not
 strings

---
 paradigm/_core/catalog.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index 1619f96..ad47b49 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -35,7 +35,7 @@ def _(
         value: _t.Union[_types.BuiltinFunctionType, _types.BuiltinMethodType]
 ) -> QualifiedPath:
     self = value.__self__
-    return ((path_from_string(self.__module__),
+    return ((_module_name_to_path(self.__module__),
              path_from_string(value.__qualname__))
             if isinstance(self, type)
             else ((path_from_string(self.__name__
@@ -51,9 +51,7 @@ def _(
 
 @qualified_path_from.register(_types.FunctionType)
 def _(value: _types.FunctionType) -> QualifiedPath:
-    return (()
-            if value.__module__ is None
-            else path_from_string(value.__module__),
+    return (_module_name_to_path(value.__module__),
             path_from_string(value.__qualname__))
 
 
@@ -93,10 +91,15 @@ def _(value: 'staticmethod[..., _t.Any]') -> QualifiedPath:
 
 @qualified_path_from.register(type)
 def _(value: type) -> QualifiedPath:
-    return (path_from_string(value.__module__),
+    return (_module_name_to_path(value.__module__),
             path_from_string(value.__qualname__))
 
 
+def _module_name_to_path(value: _t.Any) -> Path:
+    # may be anything in user code
+    return path_from_string(value) if isinstance(value, str) else ()
+
+
 def is_attribute(path: Path) -> bool:
     return len(path) > 1
 
-- 
2.43.0


From 96ed889d407c62e51953190bef7a9149bc118547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 28/40] fix: look up class methods of builtin classes described
 elsewhere

---
 paradigm/_core/catalog.py    | 5 ++++-
 paradigm/_core/signatures.py | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/catalog.py b/paradigm/_core/catalog.py
index ad47b49..ef46172 100644
--- a/paradigm/_core/catalog.py
+++ b/paradigm/_core/catalog.py
@@ -57,6 +57,8 @@ def _(value: _types.FunctionType) -> QualifiedPath:
 
 @_decorate_if(qualified_path_from.register(_types.MemberDescriptorType),
               _sys.implementation.name == 'pypy')
+@_decorate_if(qualified_path_from.register(_types.ClassMethodDescriptorType),
+              _sys.implementation.name != 'pypy')
 @_decorate_if(qualified_path_from.register(_types.MethodDescriptorType),
               _sys.implementation.name != 'pypy')
 @_decorate_if(qualified_path_from.register(_types.MethodWrapperType),
@@ -64,7 +66,8 @@ def _(value: _types.FunctionType) -> QualifiedPath:
 @_decorate_if(qualified_path_from.register(_types.WrapperDescriptorType),
               _sys.implementation.name != 'pypy')
 def _(
-        value: _t.Union[_types.MemberDescriptorType,
+        value: _t.Union[_types.ClassMethodDescriptorType,
+                        _types.MemberDescriptorType,
                         _types.MethodDescriptorType, _types.MethodWrapperType,
                         _types.WrapperDescriptorType]
 ) -> QualifiedPath:
diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index ac62c71..11cbedb 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -525,7 +525,11 @@ def _value_has_qualified_path(value: _t.Any,
             candidate = getattr(candidate, part)
         except AttributeError:
             return False
-    return candidate is value
+    return (candidate is value
+            # class methods are bound anew on each access
+            or (isinstance(value, _types.BuiltinMethodType)
+                and isinstance(candidate, _types.BuiltinMethodType)
+                and candidate == value))
 
 
 def _to_maybe_method_descriptor(
-- 
2.43.0


From da59013fc6e234f7301964bce1d5b20dc158ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 29/40] fix: handle variables of stubs annotated with
 themselves

---
 paradigm/_core/signatures.py | 43 +++++++++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 11cbedb..b8b520f 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -110,7 +110,8 @@ def _(_callable: _t.Callable[..., _t.Any]) -> _Signature:
         ast_nodes = _load_ast_nodes(module_path, object_path)
         class_path, builder_name = object_path[:-1], object_path[-1]
         return _from_signatures(*[_from_statement_node(ast_node, _callable,
-                                                       module_path, class_path)
+                                                       module_path, class_path,
+                                                       frozenset())
                                   for ast_node in ast_nodes])
     except _SignatureNotFound:
         raw_signature = _inspect.signature(_callable)
@@ -125,11 +126,15 @@ def _(_callable: '_partial[_t.Any]') -> _Signature:
                                               **_callable.keywords)
 
 
+_VisitedPaths = _t.FrozenSet[_catalog.QualifiedPath]
+
+
 @_singledispatch
 def _from_expression_node(ast_node: _ast.expr,
                           callable_: _t.Callable[..., _t.Any],
                           module_path: _catalog.Path,
-                          parent_path: _catalog.Path) -> _Signature:
+                          parent_path: _catalog.Path,
+                          visited: _VisitedPaths) -> _Signature:
     raise TypeError(ast_node)
 
 
@@ -139,6 +144,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
       callable_: _t.Callable[..., _t.Any],
       module_path: _catalog.Path,
       parent_path: _catalog.Path,
+      visited: _VisitedPaths,
       *,
       call_name: str = object.__call__.__name__) -> _Signature:
     object_path = _conversion.to_path(ast_node)
@@ -146,12 +152,16 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
             module_path, parent_path, object_path, _stubs.definitions,
             _stubs.references, _stubs.submodules, _stubs.superclasses
     )
+    if (module_path, object_path) in visited:
+        # annotation of variable mentions itself
+        raise _SignatureNotFound
+    visited = visited | {(module_path, object_path)}
     node_kind = _stubs.nodes_kinds[module_path][object_path]
     if node_kind is _NodeKind.CLASS:
         call_ast_nodes = _load_ast_nodes(module_path,
                                          (*object_path, call_name))
         call_signatures = [_from_statement_node(ast_node, callable_,
-                                                module_path, ())
+                                                module_path, (), visited)
                            for ast_node in call_ast_nodes]
         return _from_signatures(*[signature.bind(callable_)
                                   for signature in call_signatures])
@@ -165,7 +175,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
             assert isinstance(annotation_node, _ast.stmt), (module_path,
                                                             object_path)
             return _from_statement_node(annotation_node, callable_,
-                                        module_path, ())
+                                        module_path, (), visited)
     raise _SignatureNotFound
 
 
@@ -174,6 +184,7 @@ def _(ast_node: _ast.Call,
       callable_: _t.Callable[..., _t.Any],
       module_path: _catalog.Path,
       parent_path: _catalog.Path,
+      visited: _VisitedPaths,
       *,
       type_var_object_path: _catalog.Path
       = _catalog.path_from_string(_t.TypeVar.__qualname__),
@@ -193,12 +204,12 @@ def _(ast_node: _ast.Call,
         return (
             _from_signatures(
                     *[_from_expression_node(argument, callable_, module_path,
-                                            parent_path)
+                                            parent_path, visited)
                       for argument in ast_node.args[1:]]
             )
             if maybe_bound_type_node is None
             else _from_expression_node(maybe_bound_type_node, callable_,
-                                       module_path, parent_path)
+                                       module_path, parent_path, visited)
         )
     raise _SignatureNotFound
 
@@ -208,6 +219,7 @@ def _(ast_node: _ast.Subscript,
       callable_: _t.Callable[..., _t.Any],
       module_path: _catalog.Path,
       parent_path: _catalog.Path,
+      visited: _VisitedPaths,
       *,
       callable_object_path: _catalog.Path = ('Callable',),
       typing_module_path: _catalog.Path
@@ -262,7 +274,8 @@ def _(ast_node: _ast.Subscript,
 def _from_statement_node(ast_node: _ast.stmt,
                          callable_: _t.Callable[..., _t.Any],
                          module_path: _catalog.Path,
-                         parent_path: _catalog.Path) -> _Signature:
+                         parent_path: _catalog.Path,
+                         visited: _VisitedPaths) -> _Signature:
     raise TypeError(ast_node)
 
 
@@ -270,20 +283,22 @@ def _from_statement_node(ast_node: _ast.stmt,
 def _(ast_node: _ast.AnnAssign,
       callable_: _t.Callable[..., _t.Any],
       module_path: _catalog.Path,
-      parent_path: _catalog.Path) -> _Signature:
+      parent_path: _catalog.Path,
+      visited: _VisitedPaths) -> _Signature:
     return _from_expression_node((ast_node.annotation
                                   if ast_node.value is None
                                   else ast_node.value), callable_, module_path,
-                                 parent_path)
+                                 parent_path, visited)
 
 
 @_from_statement_node.register(_ast.Assign)
 def _(ast_node: _ast.Assign,
       callable_: _t.Callable[..., _t.Any],
       module_path: _catalog.Path,
-      parent_path: _catalog.Path) -> _Signature:
+      parent_path: _catalog.Path,
+      visited: _VisitedPaths) -> _Signature:
     return _from_expression_node(ast_node.value, callable_, module_path,
-                                 parent_path)
+                                 parent_path, visited)
 
 
 @_from_statement_node.register(_ast.AsyncFunctionDef)
@@ -292,7 +307,8 @@ def _(
         ast_node: _t.Union[_ast.AsyncFunctionDef, _ast.FunctionDef],
         callable_: _t.Callable[..., _t.Any],
         module_path: _catalog.Path,
-        parent_path: _catalog.Path
+        parent_path: _catalog.Path,
+        visited: _VisitedPaths
 ) -> _Signature:
     parameters = _parameters_from(ast_node, callable_, module_path,
                                   parent_path)
@@ -407,7 +423,8 @@ def _from_qualified_path(value: _t.Callable[..., _t.Any],
     ast_nodes = _load_ast_nodes(module_path, object_path)
     parent_path = object_path[:-1]
     return _from_signatures(*[
-        _from_statement_node(ast_node, value, module_path, parent_path)
+        _from_statement_node(ast_node, value, module_path, parent_path,
+                             frozenset())
         for ast_node in ast_nodes
     ])
 
-- 
2.43.0


From 95056823b6251e6655dc2cab44661bad47775e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 30/40] fix: name specializations with any arguments

---
 paradigm/_core/arboreal/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index 1680a14..79f6048 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -42,7 +42,7 @@ def _(ast_node: ast.Name) -> t.List[str]:
 
 @singledispatch
 def to_identifier(ast_node: ast.AST) -> str:
-    raise TypeError(type(ast_node))
+    return to_raw(ast_node)
 
 
 @to_identifier.register(ast.Subscript)
-- 
2.43.0


From a5f3e905f8431b8bdf294c7fe2060c8e0117039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 31/40] fix: do not evaluate annotations of variables with
 values

---
 paradigm/_core/arboreal/evaluation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index e20db4c..7e2c9ce 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -134,6 +134,11 @@ def _(ast_node: ast.Call,
 
 
 class _LazyEvaluator(ast.NodeTransformer):
+    def visit_AnnAssign(self, node: ast.AnnAssign) -> ast.AnnAssign:
+        node.annotation = ast.Str(conversion.to_str(node.annotation))
+        self.generic_visit(node)
+        return node
+
     def visit_AsyncFunctionDef(
             self, node: ast.AsyncFunctionDef
     ) -> ast.AsyncFunctionDef:
-- 
2.43.0


From c384397d5b20a42d8c930881bb327164cd32b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 32/40] fix: handle nested classes of classes absent from the
 runtime

---
 paradigm/_core/arboreal/evaluation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 7e2c9ce..440de46 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -406,7 +406,14 @@ def _evaluate_stub_object(
         module_namespace: namespacing.Namespace = {'__name__': __name__}
         annotations_nodes = {}
         for name in scope.keys():
-            raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
+            try:
+                raw_ast_nodes = module_raw_ast_nodes[(*object_path, name)]
+            except KeyError:
+                # nested class
+                class_namespace[name] = evaluate_qualified_path(
+                        module_path, (*object_path, name), module_namespace
+                )
+                continue
             ast_nodes = [construction.from_raw(raw_ast_node)
                          for raw_ast_node in raw_ast_nodes]
             definitions_nodes: t.List[ast.stmt] = []
-- 
2.43.0


From 16f0ffad238e6ae22574723a102e3e821557faac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:17 +0000
Subject: [PATCH 33/40] fix: handle variables of types with inherited methods

---
 paradigm/_core/signatures.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index b8b520f..93b0267 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -158,13 +158,20 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
     visited = visited | {(module_path, object_path)}
     node_kind = _stubs.nodes_kinds[module_path][object_path]
     if node_kind is _NodeKind.CLASS:
-        call_ast_nodes = _load_ast_nodes(module_path,
-                                         (*object_path, call_name))
-        call_signatures = [_from_statement_node(ast_node, callable_,
-                                                module_path, (), visited)
-                           for ast_node in call_ast_nodes]
-        return _from_signatures(*[signature.bind(callable_)
-                                  for signature in call_signatures])
+        for base_module_path, base_object_path in _scoping.to_mro(
+                module_path, object_path, _stubs.references,
+                _stubs.superclasses
+        ):
+            call_path = (*base_object_path, call_name)
+            if call_path not in _stubs.raw_ast_nodes[base_module_path]:
+                continue
+            call_signatures = [
+                _from_statement_node(ast_node, callable_, base_module_path,
+                                     base_object_path, visited)
+                for ast_node in _load_ast_nodes(base_module_path, call_path)
+            ]
+            return _from_signatures(*[signature.bind(callable_)
+                                      for signature in call_signatures])
     else:
         annotation_nodes = [
             _construction.from_raw(raw)
@@ -175,7 +182,7 @@ def _(ast_node: _t.Union[_ast.Attribute, _ast.Name],
             assert isinstance(annotation_node, _ast.stmt), (module_path,
                                                             object_path)
             return _from_statement_node(annotation_node, callable_,
-                                        module_path, (), visited)
+                                        module_path, object_path[:-1], visited)
     raise _SignatureNotFound
 
 
-- 
2.43.0


From d1bef7e046d83c30e19c081ea2ef841a229d2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 34/40] fix: remember aliases only if independent of the ones
 being evaluated

---
 paradigm/_core/arboreal/evaluation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/arboreal/evaluation.py b/paradigm/_core/arboreal/evaluation.py
index 440de46..2b90868 100644
--- a/paradigm/_core/arboreal/evaluation.py
+++ b/paradigm/_core/arboreal/evaluation.py
@@ -253,10 +253,11 @@ def _(ast_node: ast.Assign,
                                           parent_path, parent_namespace)
     finally:
         _aliases_in_progress.pop()
-    met_paths.difference_update(targets_paths)
     if met_paths:
-        # makes sense only inside of other aliases
-        _aliases_in_progress[-1][1].update(met_paths)
+        # depends on aliases being evaluated
+        met_paths.difference_update(targets_paths)
+        if met_paths:
+            _aliases_in_progress[-1][1].update(met_paths)
     else:
         cache.update(dict.fromkeys(targets_paths, result))
     return result
-- 
2.43.0


From bf2c25f0639dfe19dca30c8b093a0467147043ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 35/40] fix: check objects paths in modules which are not
 imported yet

---
 paradigm/_core/signatures.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 93b0267..6a1c1da 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -6,6 +6,7 @@ import types as _types
 import typing as _t
 from functools import (partial as _partial,
                        singledispatch as _singledispatch)
+from importlib import import_module as _import_module
 from itertools import zip_longest as _zip_longest
 
 from typing_extensions import Self as _Self
@@ -492,9 +493,22 @@ def resolve_qualified_paths(
                            if _is_stdlib_module_path(module_path)
                            else [])
     else:
-        qualified_paths = [path
-                           for path in candidates_paths
-                           if _value_has_qualified_path(value, path)]
+        qualified_paths = (
+                [path
+                 for path in candidates_paths
+                 if _value_has_qualified_path(value, path)]
+                # modules having the object may be not imported yet
+                or [path
+                    for path in candidates_paths
+                    if (_try_import_module(path)
+                        and _value_has_qualified_path(value, path))]
+        )
+        if (not qualified_paths
+                and _is_stdlib_module_path(module_path)
+                and _value_has_qualified_path(value,
+                                              (module_path, object_path))):
+            # submodules may have hidden the object since indexing
+            qualified_paths = [(module_path, object_path)]
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
@@ -536,14 +550,23 @@ def _is_stdlib_module_path(value: _catalog.Path) -> bool:
                  else value[0] != '__main__'))
 
 
+def _try_import_module(path: _catalog.QualifiedPath) -> bool:
+    module_path, _ = path
+    try:
+        _import_module(_catalog.path_to_string(module_path))
+    except Exception:
+        return False
+    else:
+        return True
+
+
 def _value_has_qualified_path(value: _t.Any,
                               path: _catalog.QualifiedPath) -> bool:
     module_path, object_path = path
     module_name = _catalog.path_to_string(module_path)
     candidate = _sys.modules.get(module_name)
     if candidate is None:
-        # undecidable, let's keep it
-        return True
+        return False
     for part in object_path:
         try:
             candidate = getattr(candidate, part)
-- 
2.43.0


From a997ebab70144281d6a588aff2ebc43c1b850b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:27 +0000
Subject: [PATCH 36/40] fix: prefer own path of object to paths of the same
 object elsewhere

---
 paradigm/_core/signatures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/signatures.py b/paradigm/_core/signatures.py
index 6a1c1da..ec6a892 100644
--- a/paradigm/_core/signatures.py
+++ b/paradigm/_core/signatures.py
@@ -509,6 +509,7 @@ def resolve_qualified_paths(
                                               (module_path, object_path))):
             # submodules may have hidden the object since indexing
             qualified_paths = [(module_path, object_path)]
+    own_path = _try_resolve_object_path(module_path, object_path)
     return sorted({
         (module_path, object_path)
         for module_path, object_path in [
@@ -516,7 +517,9 @@ def resolve_qualified_paths(
             for module_path, object_path in qualified_paths
         ]
         if module_path and object_path
-    })
+    },
+            # the same object may be found in classes of other modules
+            key=lambda path: (path != own_path, path))
 
 
 def _to_class_builder_qualified_path(
-- 
2.43.0


From ca083bbc02bc9a2fba70130bea4a1d58a4ed2b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 37/40] fix: notice the end of the parent process in processes
 building tables

---
 paradigm/_core/execution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/paradigm/_core/execution.py b/paradigm/_core/execution.py
index 30fba42..725095d 100644
--- a/paradigm/_core/execution.py
+++ b/paradigm/_core/execution.py
@@ -34,7 +34,7 @@ def call_in_process(function: t.Callable[..., t.Any],
                     target=_send_result,
                     name=(f'{call_in_process.__qualname__}_'
                           f'{function.__qualname__}'),
-                    args=(sender, function, *args),
+                    args=(receiver, sender, function, *args),
                     kwargs=kwargs
             )
             process.start()
@@ -57,10 +57,13 @@ def call_in_process(function: t.Callable[..., t.Any],
                 sys.modules['__main__'] = main_module
 
 
-def _send_result(sender: Connection,
+def _send_result(receiver: Connection,
+                 sender: Connection,
                  function: t.Callable[..., t.Any],
                  *args: t.Any,
                  **kwargs: t.Any) -> None:
+    # for the end of the parent process to be noticed
+    receiver.close()
     try:
         result = function(*args, **kwargs)
     except Exception as error:
-- 
2.43.0


From 30741c2f6cdcbb89e51f80450151b4e58f80cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 38/40] fix: keep warnings filters while indexing modules

---
 paradigm/_core/index.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paradigm/_core/index.py b/paradigm/_core/index.py
index e6dd2cd..e33282b 100644
--- a/paradigm/_core/index.py
+++ b/paradigm/_core/index.py
@@ -60,7 +60,9 @@ def _index_module_path(module_path: catalog.Path,
                        paths: QualifiedPaths) -> None:
     module_name = catalog.path_to_string(module_path)
     try:
-        module = import_module(module_name)
+        # modules may change filters
+        with warnings.catch_warnings():
+            module = import_module(module_name)
     except Exception as error:
         warnings.warn(f'Failed importing module "{module_name}". '
                       f'Reason:\n{pretty.format_exception(error)}',
-- 
2.43.0


From 0fe2d5ec517d4df2defcd1a08c1c173c3a1ffbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:19 +0000
Subject: [PATCH 39/40] fix: tell apart specializations of generic stub classes
 by whole arguments

---
 paradigm/_core/arboreal/conversion.py | 15 ++++++++-------
 paradigm/_core/stubs.py               |  8 +++++---
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/paradigm/_core/arboreal/conversion.py b/paradigm/_core/arboreal/conversion.py
index 79f6048..767a2f3 100644
--- a/paradigm/_core/arboreal/conversion.py
+++ b/paradigm/_core/arboreal/conversion.py
@@ -49,8 +49,7 @@ def to_identifier(ast_node: ast.AST) -> str:
 def _(ast_node: ast.Subscript) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
     return (to_identifier(ast_node.value)
-            + '_getitem_'
-            + to_identifier(ast_node.slice))
+            + '[' + to_identifier(ast_node.slice) + ']')
 
 
 @to_identifier.register(ast.Ellipsis)
@@ -81,15 +80,17 @@ def _(ast_node: ast.BitXor) -> str:
 
 @to_identifier.register(ast.BinOp)
 def _(ast_node: ast.BinOp) -> str:
-    return (to_identifier(ast_node.left)
-            + '_' + to_identifier(ast_node.op) + '_'
-            + to_identifier(ast_node.right))
+    return ('(' + to_identifier(ast_node.left)
+            + ' ' + to_identifier(ast_node.op) + ' '
+            + to_identifier(ast_node.right) + ')')
 
 
 @to_identifier.register(ast.Tuple)
 def _(ast_node: ast.Tuple) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
-    return '_'.join(to_identifier(element) for element in ast_node.elts)
+    return ('('
+            + ', '.join(to_identifier(element) for element in ast_node.elts)
+            + ')')
 
 
 @to_identifier.register(ast.Name)
@@ -101,7 +102,7 @@ def _(ast_node: ast.Name) -> str:
 @to_identifier.register(ast.Attribute)
 def _(ast_node: ast.Attribute) -> str:
     assert isinstance(ast_node.ctx, ast.Load), ast_node
-    return to_identifier(ast_node.value) + '_' + ast_node.attr
+    return to_identifier(ast_node.value) + '.' + ast_node.attr
 
 
 if sys.version_info < (3, 9):
diff --git a/paradigm/_core/stubs.py b/paradigm/_core/stubs.py
index 220c091..f73c9d4 100644
--- a/paradigm/_core/stubs.py
+++ b/paradigm/_core/stubs.py
@@ -612,9 +612,11 @@ if _reload_cache:
         ) -> _catalog.QualifiedPath:
             specialization_module_path = _scoping.SPECIALIZATIONS_MODULE_PATH
             object_path = (
-                '_'.join([_qualified_path_to_name(generic_path), 'getitem',
-                          *[_serialization.to_identifier(argument)
-                            for argument in arguments.values()]]),
+                _qualified_path_to_name(generic_path)
+                + '['
+                + ', '.join([_serialization.to_identifier(argument)
+                             for argument in arguments.values()])
+                + ']',
             )
             result = (specialization_module_path, object_path)
             references = self.modules_references[specialization_module_path]
-- 
2.43.0


From 28ece1dc01c0cb1f1520c99245c893b8fbca2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:56 +0000
Subject: [PATCH 40/40] fix: compare metadata of annotated types as is

---
 paradigm/_core/annotated.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/paradigm/_core/annotated.py b/paradigm/_core/annotated.py
index c588761..7d6a762 100644
--- a/paradigm/_core/annotated.py
+++ b/paradigm/_core/annotated.py
@@ -4,7 +4,8 @@ import typing as t
 from collections import abc
 from functools import singledispatch
 
-from typing_extensions import (Literal,
+from typing_extensions import (Annotated,
+                               Literal,
                                ParamSpec,
                                ParamSpecArgs,
                                ParamSpecKwargs)
@@ -196,9 +197,10 @@ to_arguments = t.get_args
 
 def to_types_arguments(value: t.Any) -> t.Tuple[t.Any, ...]:
     # unlike typing aliases builtin ones keep ``None`` as is
-    arguments = to_arguments(value)
+    arguments, origin = to_arguments(value), to_origin(value)
     return (arguments
-            if to_origin(value) is Literal
+            # metadata and literals are values, not types
+            if origin is Annotated or origin is Literal
             else tuple([[_none_to_type(element) for element in argument]
                         if isinstance(argument, list)
                         else _none_to_type(argument)
-- 
2.43.0

