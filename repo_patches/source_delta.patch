From 9baa8f3cab06541b4e1fb618b9caff252619300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 01/61] fix: non-integer number literals used as types are
 floats, not strings

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e0f7c70..1690f0a 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -986,7 +986,7 @@ class ts2pythonCompiler(Compiler):
                     _ = int(literal)
                     return 'int'
                 except ValueError:
-                    return 'str'
+                    return 'float'
             elif literal_typ == 'boolean':
                 return 'bool'
             else:
-- 
2.43.0


From 84baa743fac5f880b81b5376286e930520736526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 02/61] fix: generated modules import enum, because enum.auto()
 is used

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 1690f0a..5bd4964 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -314,6 +314,7 @@ def source_hash(source_text: str) -> str:
 
 
 GENERAL_IMPORTS = """
+import enum
 import sys
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
-- 
2.43.0


From f0a295dc39f914819127f2fc6169ed5477bac243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 03/61] fix: empty anonymous interfaces with functional
 rendering

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5bd4964..a6194c1 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -397,6 +397,7 @@ def to_dict(declarations: str) -> str:
         >>> print(to_dict(decls))
         {"name": str, "version": int}
     """
+    if declarations == "pass":  return "{}"
     entries = declarations.split('\n')
     for i in range(len(entries)):
         k = entries[i].find(":")
-- 
2.43.0


From de33c7b91495af4b2e22bd19eb0f0a128f77f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:18 +0000
Subject: [PATCH 04/61] fix: GenericTypedDict is not available with
 ts2python.UseNotRequired

---
 ts2pythonParser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a6194c1..a9bb53d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -593,6 +593,7 @@ class ts2pythonCompiler(Compiler):
             total = not bool(optional_key_list) or self.use_not_required
             if base_classes:
                 td_name = 'TypedDict' if (self.use_variadic_generics or
+                                          self.use_not_required or
                                           base_classes.find('Generic[') < 0) \
                                       else 'GenericTypedDict'
                 if self.use_not_required:
-- 
2.43.0


From b05ebdb9716e3978b2e26fbabb471c0d95bc0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:06 +0000
Subject: [PATCH 05/61] fix: optional members whose type mentions None in a
 nested position or name

---
 ts2pythonParser.py | 60 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a9bb53d..e990ac1 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -389,6 +389,54 @@ def to_varname(typename: str) -> str:
     return typename[0].lower() + (typename[1:-1] if typename[-1:] == '_' else typename[1:])
 
 
+def split_alternatives(type_expr: str, separator: str) -> List[str]:
+    """Splits a type expression at those separators that are not enclosed
+    by brackets or quotation marks::
+
+        >>> split_alternatives("List[A | B] | None", "|")
+        ['List[A | B]', 'None']
+    """
+    parts = ['']
+    depth, quote = 0, ''
+    for c in type_expr:
+        if quote:
+            if c == quote:  quote = ''
+        elif c in ('"', "'"):
+            quote = c
+        elif c in '[({':
+            depth += 1
+        elif c in '])}':
+            depth -= 1
+        elif c == separator and depth == 0:
+            parts.append('')
+            continue
+        parts[-1] += c
+    return [part.strip() for part in parts]
+
+
+def add_None(type_expr: str) -> str:
+    """Turns a type expression into an expression for the same type or None::
+
+        >>> add_None("Union[NoneSuch, str]")
+        'Union[NoneSuch, str, None]'
+        >>> add_None("'Alpha | str'")
+        "'Alpha | str | None'"
+        >>> add_None("int")
+        'Optional[int]'
+    """
+    quote = type_expr[0:1] if type_expr[0:1] in ('"', "'") else ''
+    alternatives = split_alternatives(type_expr.strip(quote) if quote else type_expr, '|')
+    if len(alternatives) > 1:
+        if 'None' not in alternatives:
+            alternatives.append('None')
+        return quote + ' | '.join(alternatives) + quote
+    if type_expr.startswith('Union['):
+        if 'None' not in split_alternatives(type_expr[6:-1], ','):
+            type_expr = type_expr[:-1] + ', None]'
+        return type_expr
+    return f"Optional[{type_expr}]"
+
+
 def to_dict(declarations: str) -> str:
     r"""Converts a sequence of declarations to a dictionary.
     Example::
@@ -773,17 +821,7 @@ class ts2pythonCompiler(Compiler):
             if self.use_not_required:
                 T = f"NotRequired[{T}]"
             else:
-                if T.startswith('Union['):
-                    if T.find('None') < 0:
-                        T = T[:-1] + ', None]'
-                elif T.find('|') >= 0:
-                    if T.find('None') < 0:
-                        if T[0:1] not in ("'", '"'):
-                            T += ' | None'
-                        else:
-                            T = T[:-1] + (" | None" + T[0:1])
-                else:
-                    T = f"Optional[{T}]"
+                T = add_None(T)
         if self.is_toplevel() and bool(self.local_classes[-1]):
             preface = self.render_local_classes()
             self.local_classes.pop()
-- 
2.43.0


From ef858807da4835e9adaaf57f2f30296ba291c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:24 +0000
Subject: [PATCH 06/61] fix: quoting of forward references inside of string
 literals, or of names that are part of other names

---
 ts2pythonParser.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index e990ac1..0c31d04 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1251,13 +1251,15 @@ class ts2pythonCompiler(Compiler):
         unknown_types = set(tn.content for tn in node.select('type_name')
                             if not self.is_known_type(tn.content))
         type_expression = self.compile(type_node)
-        for typ in unknown_types:
-            rx = re.compile(r"(?:(?<=[^\w'])|^)" + typ + r"(?:(?=[^\w'])|$)")
-            segments = type_expression.split("'")
-            for i in range(0, len(segments), 2):
-                segments[i] = rx.sub(f"'{typ}'", segments[i])
-            type_expression = "'".join(segments)
-            # type_expression = rx.sub(f"'{typ}'", type_expression)
+        if unknown_types:
+            # quote unknown types, but leave string literals and comments untouched
+            names = '|'.join(re.escape(typ) for typ in
+                             sorted(unknown_types, key=lambda typ: (-len(typ), typ)))
+            rx = re.compile(r'''"[^"\n]*"|'[^'\n]*'|#[^\n]*|(?<![\w.])(?P<name>'''
+                            + names + r''')(?!\w)''')
+            type_expression = rx.sub(
+                lambda m: f"'{m.group('name')}'" if m.group('name') else m.group(0),
+                type_expression)
         if type_expression[0:1] == "'":
             type_expression = ''.join(["'", type_expression.replace("'", ""), "'"])
         return type_expression
-- 
2.43.0


From 535ed0f5f54d94c3bdf43e3373f4fa7904e23732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 07/61] fix: unions of forward references and literals, local
 classes or string-valued aliases with UseTypeUnion

---
 ts2pythonParser.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 0c31d04..c923a2b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -526,6 +526,7 @@ class ts2pythonCompiler(Compiler):
         # self.default_values: Dict = {}
         # self.referred_objects: Dict = {}
         self.basic_type_aliases: Set[str] = set()
+        self.string_aliases: Set[str] = set()  # aliases that are strings at runtime
         self.obj_name: List[str] = ['TOPLEVEL_']
         self.scope_type: List[str] = ['']
         self.optional_keys: List[List[str]] = [[]]
@@ -770,6 +771,8 @@ class ts2pythonCompiler(Compiler):
             self.optional_keys.pop()
             self.local_classes.pop()
             code = preface + f"{alias} = {types}"
+            if types[0:1] in ('"', "'"):
+                self.string_aliases.add(alias)
         else:
             code = ''
         if node[-1].name == 'comment__':
@@ -923,7 +926,26 @@ class ts2pythonCompiler(Compiler):
             typ = self.compile(node['type'])
             return f'Optional[{typ}]' if node[-1].name == 'optional' else typ
 
+    def needs_Union(self, union) -> bool:
+        """True, if the alternatives cannot be connected with "|", because
+        some of them are strings, i.e. forward references, at runtime, but the
+        union as a whole cannot be turned into one single string."""
+        if len(union) <= 1 or not self.use_type_union:
+            return False
+        if any(typ in self.string_aliases for typ in union):
+            return True
+        if any(typ[0:1] in ('"', "'") for typ in union):
+            if any(typ.find('"') >= 0 or typ.find('Literal[') >= 0 for typ in union):
+                return True
+            local_names = {name for classes in self.local_classes for cls in classes
+                           for name in re.findall(r'^class +(\w+)', cls, re.MULTILINE)}
+            return any(name in local_names for typ in union
+                       for name in re.findall(r'\w+', typ))
+        return False
+
     def render_union(self, preface, union) -> str:
+        if self.needs_Union(union):
+            return preface + f"Union[{', '.join(union)}]"
         if self.use_type_union or len(union) <= 1:
             if any(typ[0:1] in ('"', "'") for typ in union):
                 # union = [typ.strip("'").strip('"') for typ in union]
-- 
2.43.0


From 1072bfaa99d1fe6581002cd67e8041c77bf7c4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:54 +0000
Subject: [PATCH 08/61] fix: TypedDict replacement recognizes all notations of
 unions with None and overridden fields

---
 ts2python/typeddict_shim.py | 61 +++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 761512d..220a7c9 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -31,6 +31,7 @@ implied. See the License for the specific language governing
 permissions and limitations under the License.
 """
 
+import ast
 import sys
 from typing import Generic, Optional, Union, Any, TypeVar
 
@@ -68,7 +69,13 @@ try:
     from typing import NotRequired
 except (ImportError, ModuleNotFoundError):
     NotRequired = Optional
-        
+
+try:
+    from types import UnionType  # X | Y, Python >= 3.10
+    _UNION_TYPES = (Union, UnionType)
+except ImportError:
+    _UNION_TYPES = (Union,)
+
 
 __all__ = ['NotRequired', 'TypedDict', 'GenericTypedDict', '_TypedDictMeta',
            'GenericMeta', 'get_origin', 'Literal', 'is_typeddict']
@@ -132,6 +139,40 @@ def _caller(depth=1, default='__main__'):
         return None
 
 
+def _expr_allows_absence(node: ast.AST) -> bool:
+    """Like _allows_absence(), but for the syntax tree of a type expression."""
+    if isinstance(node, ast.Constant):
+        return node.value is None
+    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
+        return _expr_allows_absence(node.left) or _expr_allows_absence(node.right)
+    if isinstance(node, ast.Subscript):
+        name = getattr(node.value, 'attr', getattr(node.value, 'id', ''))
+        if name in ('Optional', 'NotRequired'):
+            return True
+        if name == 'Union':
+            args = getattr(node.slice, 'value', node.slice)  # Python < 3.9: ast.Index
+            args = args.elts if isinstance(args, ast.Tuple) else [args]
+            return any(_expr_allows_absence(arg) for arg in args)
+    return False
+
+
+def _allows_absence(field_type) -> bool:
+    """Returns True, if the field type is NotRequired, Optional or any other
+    union with None, or a forward reference to a type expression like that."""
+    origin = get_origin(field_type)
+    if origin is NotRequired or field_type is type(None):
+        return True
+    if origin in _UNION_TYPES:
+        return any(_allows_absence(arg) for arg in field_type.__args__)
+    if isinstance(field_type, ForwardRef):
+        try:
+            return _expr_allows_absence(
+                ast.parse(field_type.__forward_arg__.strip(), mode='eval').body)
+        except SyntaxError:
+            return False
+    return False
+
+
 def _new_typed_dict(meta, name, bases, ns) -> dict:
     for base in bases:
         if base is not dict and type(base) is not meta \
@@ -155,26 +196,22 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
 
     for base in bases:
         annotations.update(base.__dict__.get('__annotations__', {}))
-        required_keys.update(base.__dict__.get('__required_keys__', ()))
-        optional_keys.update(base.__dict__.get('__optional_keys__', ()))
+        base_required = base.__dict__.get('__required_keys__', frozenset())
+        base_optional = base.__dict__.get('__optional_keys__', frozenset())
+        required_keys = (required_keys - base_optional) | base_required
+        optional_keys = (optional_keys - base_required) | base_optional
 
     annotations.update(own_annotations)
 
     total = True
     for field, field_type in own_annotations.items():
-        field_type_origin = get_origin(field_type)
-        if (field_type_origin is NotRequired
-            or (field_type_origin is Union
-                and type(None) in field_type.__args__)
-            or (isinstance(field_type, ForwardRef)
-                and (field_type.__forward_arg__.startswith('Optional[')
-                     or field_type.__forward_arg__.startswith('NotRequired')
-                     or (field_type.__forward_arg__.startswith('Union[')
-                         and field_type.__forward_arg__.endswith(', None]'))))):
+        if _allows_absence(field_type):
             optional_keys.add(field)
+            required_keys.discard(field)
             total = False
         else:
             required_keys.add(field)
+            optional_keys.discard(field)
 
     tp_dict.__annotations__ = annotations
     tp_dict.__required_keys__ = frozenset(required_keys)
-- 
2.43.0


From 0650ac67e98ce63d9ed86db9160af966a31425c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 09/61] fix: colliding names of classes for anonymous
 interfaces, decorated anonymous interfaces

---
 ts2pythonParser.py | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c923a2b..a126190 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -481,6 +481,13 @@ TYPE_NAME_SUBSTITUTION = {
     'RegExp': 'str' }
 
 
+DECLARATION_TYPES = {'interface', 'type_alias', 'enum', 'namespace', 'virtual_enum'}
+
+# code of a (decorated) class for an anonymous interface, names of toplevel-classes
+RX_CLASS_CODE = re.compile(r'(?:@[^\n]*\n)?class ')
+RX_CLASS_NAME = re.compile(r'^class +(\w+)', re.MULTILINE)
+
+
 class ts2pythonCompiler(Compiler):
     """Compiler for the abstract-syntax-tree of a ts2python source file.
     """
@@ -515,6 +522,7 @@ class ts2pythonCompiler(Compiler):
         self.keep_comments = get_config_value('ts2python.KeepMultilineComments', False)
 
         self.overloaded_type_names: Set[str] = set()
+        self.declared_names: Set[str] = set()
         self.known_types: List[Dict[str]] = [
             {'Union': 'Union', 'List': 'List', 'Tuple': 'Tuple', 'Optional': 'Optional',
              'Dict': 'Dict', 'Set': 'Set', 'Any': 'Any', 'Generic': 'Generic',
@@ -561,6 +569,8 @@ class ts2pythonCompiler(Compiler):
         type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
         namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
         self.overloaded_type_names = type_aliases & namespaces
+        self.declared_names = {nd['identifier'].content for nd in root.select(DECLARATION_TYPES)
+                               if 'identifier' in nd}
         self.tree.stage = 'py'
         return None
 
@@ -675,6 +685,22 @@ class ts2pythonCompiler(Compiler):
         classes = self.local_classes[-1]
         return '\n'.join(lc for lc in classes) + '\n' if classes else ''
 
+    def add_local_class(self, class_code: str) -> str:
+        """Adds the code of the class of an anonymous interface to the local
+        classes of the current scope and returns the name of the class. The
+        class will be renamed, if its name is already in use."""
+        name = RX_CLASS_NAME.findall(class_code)[-1]
+        taken = {RX_CLASS_NAME.findall(code)[-1] for code in self.local_classes[-1]}
+        unique_name, n = name, 0
+        while unique_name in taken or unique_name in self.declared_names:
+            n += 1
+            unique_name = f"{name}_{n}"
+        if unique_name != name:
+            k = [m.start(1) for m in RX_CLASS_NAME.finditer(class_code)][-1]
+            class_code = class_code[:k] + unique_name + class_code[k + len(name):]
+        self.local_classes[-1].append(class_code)
+        return unique_name
+
     def process_type_parameters(self, node: Node) -> Tuple[str, str]:
         tps = ''
         preface = ''
@@ -816,7 +842,7 @@ class ts2pythonCompiler(Compiler):
         T = self.compile_type_expression(node, node['types']) \
             if 'types' in node else 'Any'
         typename = self.obj_name.pop()
-        if T[0:5] == 'class':
+        if RX_CLASS_CODE.match(T):
             self.local_classes[-1].append(T)
             T = typename  # substitute typename for type
         if 'optional' in node:
@@ -977,13 +1003,8 @@ class ts2pythonCompiler(Compiler):
             self.obj_name[-1] = obj_name_stub
         for i in range(len(union)):
             typ = union[i]
-            if typ[0:5] == 'class':
-                k = typ.rfind('\nclass')
-                m = re.match(r"class\s*(\w+)[\w(){},' =]*\s*:", typ[k + 1:])
-                assert m, typ
-                cname = m.group(1)
-                self.local_classes[-1].append(typ)
-                union[i] = cname
+            if RX_CLASS_CODE.match(typ):
+                union[i] = self.add_local_class(typ)
         if self.is_toplevel():
             preface = self.render_local_classes()
         else:
-- 
2.43.0


From ccc3e8d28aec628623d62e72b559a781307c5e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 10/61] fix: validate Any, unions, enums, forward references
 and the contents of containers in every position

---
 ts2python/json_validation.py | 167 ++++++++++++++++-------------------
 1 file changed, 74 insertions(+), 93 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index fe142a2..e64fa9f 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -47,6 +47,13 @@ if sys.version_info >= (3, 11):
     from typing import _GenericAlias, TypedDict, _TypedDictMeta, get_origin, get_args, ForwardRef
 
 
+try:
+    from types import UnionType  # X | Y, Python >= 3.10
+    UNION_TYPES = (Union, UnionType)
+except ImportError:
+    UNION_TYPES = (Union,)
+
+
 __all__ = ['validate_type', 'type_check', 'validate_uniform_sequence']
 
 
@@ -56,26 +63,16 @@ def strdata(data: Any) -> str:
 
 
 def resolve_forward_refs(T: type, Ur_T: type = None,) -> type:
-    """Resolves all forward references found in T."""
-    if isinstance(T, _GenericAlias):
-        O = get_origin(T)
-        if inspect.isclass(O):
-            return O
-        else:
-            T = O[get_args(T)]
-    if isinstance(T, ForwardRef):
-        if Ur_T is None:  Ur_T = T
+    """Resolves T, if it is a forward reference. Ur_T is the class or function
+    in the module of which the forward reference must be looked up."""
+    while isinstance(T, (ForwardRef, str)):
+        fwref = ForwardRef(T.__forward_arg__ if isinstance(T, ForwardRef) else T)
+        module = getattr(T, '__forward_module__', None) or getattr(Ur_T, '__module__', None)
+        namespace = getattr(sys.modules.get(module, None), '__dict__', globals())
         if sys.version_info >= (3, 9, 0):
-            T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__,
-                            recursive_guard=set())
+            T = fwref._evaluate(globals(), namespace, recursive_guard=frozenset())
         else:
-            T = T._evaluate(globals(), sys.modules[Ur_T.__module__].__dict__)
-        # T = resolve_forward_refs(T, Ur_T)
-        return T
-    elif str(T).find('ForwardRef') >= 0:
-        if Ur_T is None:  Ur_T = T
-        T.__args__ = tuple(resolve_forward_refs(arg, Ur_T)
-                           for arg in get_args(T))
+            T = fwref._evaluate(globals(), namespace)
     return T
 
 
@@ -96,7 +93,7 @@ def is_TypedDictClass(typ) -> bool:
     # except AttributeError:
     #     return False
 
-def validate_type(val: Any, typ):
+def validate_type(val: Any, typ, context=None):
     """Raises a TypeError if value `val` is not of type `typ`.
     In particualr, `validate_type()` can be used to validate
     dictionaries against TypedDict-types and, more general,
@@ -117,22 +114,32 @@ def validate_type(val: Any, typ):
     ...     print(e)
     Type error(s) in dictionary of type <class 'json_validation.Position'>:
     Field character: 'A' is not a <class 'int'>, but a <class 'str'>
+
+    :param val: the value to be validated
+    :param typ: the expected type
+    :param context: the class or function the annotations of which `typ` stems
+        from. Needed only, if `typ` contains unresolved forward references.
     """
-    if is_TypedDictClass(typ):
+    typ = resolve_forward_refs(typ, context)
+    if typ is Any or isinstance(typ, TypeVar):
+        pass  # TypeVar: for now
+    elif typ is None or typ is type(None):
+        if val is not None:
+            raise TypeError(f"{val} is not of type {typ}")
+    elif is_TypedDictClass(typ):
         if not isinstance(val, Dict):
             raise TypeError(f"{val} is not even a dictionary")
         validate_TypedDict(val, typ)
     elif hasattr(typ, '__args__'):
-        validate_compound_type(val, typ)
-    else:
-        if not isinstance(val, typ):
-            if issubclass(typ, Enum):  #  and isinstance(val, (int, str)):
-                validate_enum(val, typ)
-            else:
-                raise TypeError(f"{val} is not of type {typ}")
+        validate_compound_type(val, typ, context)
+    elif not isinstance(val, typ):
+        if inspect.isclass(typ) and issubclass(typ, Enum):
+            validate_enum(val, typ)
+        else:
+            raise TypeError(f"{val} is not of type {typ}")
 
 
-def validate_uniform_sequence(sequence: Iterable, item_type):
+def validate_uniform_sequence(sequence: Iterable, item_type, context=None):
     """Ensures that every item in a given sequence is of the same particular
     type. Example::
 
@@ -145,24 +152,14 @@ def validate_uniform_sequence(sequence: Iterable, item_type):
 
     :param sequence: An iterable to be validated
     :param item_type: The expected type of all items the iterable `sequence` yields.
-
+    :param context: see :py:func:`validate_type`.
     """
     # assert not isinstance(item_type, str), f'Unresolved type name or forward reference for {item_type}!'
-    if is_TypedDictClass(item_type):
-        for val in sequence:
-            if not isinstance(val, Dict):
-                raise TypeError(f"{val} is not of type {item_type}")
-            validate_TypedDict(val, item_type)
-    elif hasattr(item_type, '__args__'):
-        for val in sequence:
-            validate_compound_type(val, item_type)
-    else:
-        for val in sequence:
-            if not isinstance(val, item_type):
-                raise TypeError(f"{val} is not of type {item_type}")
+    for val in sequence:
+        validate_type(val, item_type, context)
 
 
-def validate_compound_type(value: Any, T):
+def validate_compound_type(value: Any, T, context=None):
     """Validates a value against a compound type like
     List[str], Tuple[int, ...], Dict[str, int]. Generally, compound types
     are types with arguments. Returns None, if the validation was
@@ -177,6 +174,7 @@ def validate_compound_type(value: Any, T):
 
     :param value: the value which shall by validated against the given type
     :param T: the type which the value is supposed to represent.
+    :param context: see :py:func:`validate_type`.
     :return: None
     :raise: TypeError if value is not of compound type T.
             ValueError if T is not a compound type.
@@ -187,24 +185,35 @@ def validate_compound_type(value: Any, T):
     if OT is Literal:
         if value not in get_args(T):
             raise TypeError(f"{value} is not of type {T}")
+    elif OT in UNION_TYPES:
+        for union_typ in T.__args__:
+            try:
+                validate_type(value, union_typ, context)
+                break
+            except (TypeError, ValueError):
+                pass
+        else:
+            raise TypeError(f"{value} is not of type {T}")
+    elif is_TypedDictClass(OT):  # type arguments of generics are ignored, for now
+        validate_type(value, OT, context)
     elif isinstance(value, OT):
         if isinstance(value, Dict):
             assert len(T.__args__) == 2, str(T)
             key_type, value_type = T.__args__
-            validate_uniform_sequence(value.keys(), key_type)
-            validate_uniform_sequence(value.values(), value_type)
+            validate_uniform_sequence(value.keys(), key_type, context)
+            validate_uniform_sequence(value.values(), value_type, context)
         elif isinstance(value, Tuple):
             if len(T.__args__) == 2 and T.__args__[-1] is Ellipsis:
-                validate_uniform_sequence(value, T.__args__[0])
+                validate_uniform_sequence(value, T.__args__[0], context)
             else:
                 if len(T.__args__) != len(value):
                     raise TypeError(f"{value} is not of type {T}")
                 for item, typ in zip(value, T.__args__):
-                    validate_type(item, typ)
+                    validate_type(item, typ, context)
         else:  # assume that value is of type List
             if len(T.__args__) != 1:
                 raise ValueError(f"Unknown compound type {T}")
-            validate_uniform_sequence(value, T.__args__[0])
+            validate_uniform_sequence(value, T.__args__[0], context)
     else:
         raise TypeError(f"{value} is not of type {T}")
 
@@ -247,56 +256,28 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     for field, field_type in get_type_hints(T).items():
         if field not in D:
             continue
-        resolved_field_type = resolve_forward_refs(field_type, T)
-        if resolved_field_type != field_type:
-            field_type = resolved_field_type
-            T.__annotations__[field] = field_type
+        field_type = resolve_forward_refs(field_type, T)
+        value = D[field]
         if is_TypedDictClass(field_type):
-            value = D[field]
             if isinstance(value, Dict):
                 validate_TypedDict(value, field_type)
             else:
-                type_errors.append(f"Field {field}: '{strdata(D[field])}' is not of {field_type}, "
-                                   f"but of type {type(D[field])}")
-        elif get_origin(field_type) is Union:
-            value = D[field]
-            for union_typ in field_type.__args__:
-                union_typ = resolve_forward_refs(union_typ, T)
-                if isinstance(union_typ, ForwardRef):
-                    if sys.version_info >= (3, 9):
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__,
-                                                        recursive_guard=set())
-                    else:
-                        union_typ = union_typ._evaluate(globals(), sys.modules[T.__module__].__dict__)
-                if is_TypedDictClass(union_typ):
-                    if isinstance(value, Dict):
-                        try:
-                            validate_TypedDict(value, union_typ)
-                            break
-                        except TypeError:
-                            pass
-                elif hasattr(union_typ, '__args__'):
-                    try:
-                        validate_compound_type(value, union_typ)
-                        break
-                    except TypeError:
-                        pass
-                elif isinstance(value, union_typ):
-                    break
-            else:
-                # TODO: bugfix?
-                type_errors.append(f"Field {field}: '{strdata(D[field])}' is not any of "
-                                   f"{field_type}, but of type {type(D[field])}")
-        elif hasattr(field_type, '__args__'):
-            validate_compound_type(D[field], field_type)
-        elif isinstance(field_type, TypeVar):
-            pass  # for now
-        elif not isinstance(D[field], field_type):
-            if issubclass(field_type, Enum):
-                validate_enum(D[field], field_type)
-            else:
-                type_errors.append(f"Field {field}: '{strdata(D[field])}' is not a {field_type}, "
-                                   f"but a {type(D[field])}")
+                type_errors.append(f"Field {field}: '{strdata(value)}' is not of {field_type}, "
+                                   f"but of type {type(value)}")
+        elif get_origin(field_type) in UNION_TYPES:
+            try:
+                validate_compound_type(value, field_type, T)
+            except TypeError:
+                type_errors.append(f"Field {field}: '{strdata(value)}' is not any of "
+                                   f"{field_type}, but of type {type(value)}")
+        elif field_type in (str, int, float, bool):
+            try:
+                validate_type(value, field_type)
+            except TypeError:
+                type_errors.append(f"Field {field}: '{strdata(value)}' is not a {field_type}, "
+                                   f"but a {type(value)}")
+        else:
+            validate_type(value, field_type, T)
     if type_errors:
         raise TypeError(f"Type error(s) in dictionary of type {T}:\n"
                         + '\n'.join(type_errors))
-- 
2.43.0


From ff081fb8ad491a52eeb16a04526d4d36dbe4b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:04 +0000
Subject: [PATCH 11/61] fix: JSON lists are valid tuples and JSON integers are
 valid numbers

---
 ts2python/json_validation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index e64fa9f..e2ff99b 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -132,6 +132,8 @@ def validate_type(val: Any, typ, context=None):
         validate_TypedDict(val, typ)
     elif hasattr(typ, '__args__'):
         validate_compound_type(val, typ, context)
+    elif typ is float and isinstance(val, int) and not isinstance(val, bool):
+        pass  # JSON does not distinguish integers from other numbers
     elif not isinstance(val, typ):
         if inspect.isclass(typ) and issubclass(typ, Enum):
             validate_enum(val, typ)
@@ -182,6 +184,8 @@ def validate_compound_type(value: Any, T, context=None):
     if not hasattr(T, '__args__'):
         raise ValueError(f'{T} is not a compound type.')
     OT = get_origin(T)
+    if OT is tuple and isinstance(value, list):
+        value = tuple(value)  # JSON represents tuples as lists
     if OT is Literal:
         if value not in get_args(T):
             raise TypeError(f"{value} is not of type {T}")
-- 
2.43.0


From 030993501fcfe5777922c4de650a6cdc8aebbc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:06 +0000
Subject: [PATCH 12/61] fix: type_check handles parameters with default values
 and variadic parameters

---
 ts2python/json_validation.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index e2ff99b..215a4c1 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -328,7 +328,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         at least one of the parameter's or the return value does not
         match the annotated types.
     """
-    arg_names = func.__code__.co_varnames[:func.__code__.co_argcount]
+    signature = inspect.signature(func)
     arg_types = get_type_hints(func)
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
@@ -337,22 +337,32 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
 
     @functools.wraps(func)
     def guard(*args, **kwargs):
-        nonlocal arg_names, arg_types, return_type
-        arg_dict = {**dict(zip(arg_names, args)), **kwargs}
-        for name, typ in arg_types.items():
+        nonlocal signature, arg_types, return_type
+        try:
+            arguments = signature.bind(*args, **kwargs).arguments
+        except TypeError as e:
+            raise TypeError(f'{str(e)} in call of "{func.__name__}"')
+        for name, value in arguments.items():
+            if name not in arg_types:
+                continue
+            kind = signature.parameters[name].kind
+            if kind == inspect.Parameter.VAR_POSITIONAL:
+                values = list(value)
+            elif kind == inspect.Parameter.VAR_KEYWORD:
+                values = list(value.values())
+            else:
+                values = [value]
             try:
-                validate_type(arg_dict[name], typ)
+                for val in values:
+                    validate_type(val, arg_types[name], func)
             except TypeError as e:
                 raise TypeError(
                     f'Parameter "{name}" of function "{func.__name__}" failed '
                     f'the type-check, because:\n{str(e)}')
-            except KeyError as e:
-                raise TypeError(f'Missing parameter {str(e)} in call of '
-                                f'"{func.__name__}"')
         ret = func(*args, **kwargs)
         if check_return_type and return_type:
             try:
-                validate_type(ret, return_type)
+                validate_type(ret, return_type, func)
             except TypeError as e:
                 raise TypeError(
                     f'Value returned by function "{func.__name__}" failed '
-- 
2.43.0


From 7973306e1a201a4930e557475b5c6b4a9543f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 13/61] fix: default name of the result file in process_file()

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a126190..286e5a2 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1404,7 +1404,7 @@ def process_file(source: str, result_filename: str = '') -> str:
     source_filename = source if is_filename(source) else ''
     if not result_filename:
         if source_filename:
-            result_filename = source_filename[:result_filename.rfind('.')] + '.py'
+            result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
     if os.path.isfile(result_filename):
-- 
2.43.0


From af7d9cdf69b9f9cf346487bcef1b6ae6ce75d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 14/61] fix: command line switches -k, -p 604, -p 646 and
 withdrawing PEPs with a tilde

---
 ts2pythonParser.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 286e5a2..c81f03f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1586,7 +1586,8 @@ def main():
     from DHParser.configuration import read_local_config
     read_local_config(os.path.join(scriptpath, 'ts2python/ts2pythonParser.ini'))
 
-    if args.debug or args.compatibility or args.base or args.decorator or args.peps or args.anonymous:
+    if args.debug or args.compatibility or args.base or args.decorator or args.peps \
+            or args.anonymous or args.comments:
         access_presets()
         if args.debug is not None:
             log_dir = 'LOGS'
@@ -1607,9 +1608,12 @@ def main():
                 set_preset_value('ts2python.UseVariadicGenerics', True, allow_new_key=True)
             if version_info >= (3, 12):
                 set_preset_value('ts2python.UseTypeParameters', True, allow_new_key=True)
-        if args.base:  set_preset_value('ts2python.BaseClassName', args.base[0].strip())
-        if args.anonymous:  set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip())
-        if args.decorator:  set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip())
+        if args.base:
+            set_preset_value('ts2python.BaseClassName', args.base[0].strip(), allow_new_key=True)
+        if args.anonymous:
+            set_preset_value('ts2python.RenderAnonymous', args.anonymous[0].strip(), allow_new_key=True)
+        if args.decorator:
+            set_preset_value('ts2python.ClassDecorator', args.decorator[0].strip(), allow_new_key=True)
         if args.peps:
             args_peps = [pep.strip() for pep in args.peps]
             all_peps = { '435',  '584',  '586',  '604',  '646',  '655',
@@ -1624,12 +1628,14 @@ def main():
                 sys.exit(1)
             for pep in args_peps:
                 kwargs= {'value': pep[0] != '~', 'allow_new_key': True}
+                pep = pep.lstrip('~')
                 if pep == '435':  set_preset_value('ts2python.UseEnum', **kwargs)
                 if pep in ('586', '584'):  set_preset_value('ts2python.UseLiteralType', **kwargs)
-                if pep == '604':  set_preset_value('ts2python.TypeUnion', **kwargs)
-                if pep == '646': set_preset_value('tsPython.UseVariadicGenerics', **kwargs)
+                if pep == '604':  set_preset_value('ts2python.UseTypeUnion', **kwargs)
+                if pep == '646': set_preset_value('ts2python.UseVariadicGenerics', **kwargs)
                 if pep == '655':  set_preset_value('ts2python.UseNotRequired', **kwargs)
-        if args.comments: set_preset_value('ts2python.KeepMultilineComments', True)
+        if args.comments:
+            set_preset_value('ts2python.KeepMultilineComments', True, allow_new_key=True)
         finalize_presets()
         _ = get_config_values('ts2python.*')  # fill config value cache
 
-- 
2.43.0


From 52ccf8e655dea43efb7714ef211a1e2797fbee79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:30 +0000
Subject: [PATCH 15/61] fix: preserved comments got lost or ended up within
 expressions, turned enumerations into classes

---
 ts2pythonParser.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index c81f03f..7ca2807 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -258,6 +258,30 @@ def add_flags(p: Path):
 def clear_flags(p: Path):
     p[0].attr = dict()
 
+# nodes which can render the comments among their children
+COMMENT_CONTAINERS = {'document', 'declarations_block', 'declarations_tuple',
+                      'namespace', 'virtual_enum', 'enum'}
+
+def is_movable_comment(p: Path) -> bool:
+    """True, if a comment at the fringes of a node shall be moved to its parent."""
+    if p[-1].name != 'comment__':  return False
+    if len(p) < 2:  return True
+    if p[-2].name == 'document':  return False
+    if p[-2].name in COMMENT_CONTAINERS:
+        # move only comments that follow after the last declaration of a block
+        siblings = p[-2].children
+        i = [id(nd) for nd in siblings].index(id(p[-1]))
+        return i > 0 and all(nd.name == 'comment__' for nd in siblings[i:]) \
+            and any(nd.name != 'comment__' for nd in siblings)
+    return True
+
+def drop_inner_comments(p: Path):
+    """Removes comments from the middle of nodes that cannot render them."""
+    node = p[-1]
+    if node.name not in COMMENT_CONTAINERS and node._children \
+            and any(nd.name == 'comment__' for nd in node._children):
+        node.result = tuple(nd for nd in node._children if nd.name != 'comment__')
+
 ts2python_AST_transformation_table = {
     # AST Transformations for the ts2python-grammar
     # "<": flatten,
@@ -269,7 +293,7 @@ ts2python_AST_transformation_table = {
                          lambda p: p[-1]['name'].content not in SPECIAL_FUNCTIONS),
                 convert_special_function],
     "function": apply_if(reduce_single_child, has_child('special')),
-    "*": move_fringes(lambda p: p[-1].name == "comment__"),
+    ">": [move_fringes(is_movable_comment), drop_inner_comments],
     ">>>": clear_flags
 }
 
@@ -445,8 +469,8 @@ def to_dict(declarations: str) -> str:
         >>> print(to_dict(decls))
         {"name": str, "version": int}
     """
-    if declarations == "pass":  return "{}"
-    entries = declarations.split('\n')
+    entries = [decl for decl in declarations.split('\n')
+               if decl not in ('', 'pass') and decl[0] != '#']
     for i in range(len(entries)):
         k = entries[i].find(":")
         assert k >= 0
@@ -610,9 +634,9 @@ class ts2pythonCompiler(Compiler):
             comment = node.content
             multiline = True if re.match(' *\n', comment) else False
             comment = comment.strip()
-            comment = re.sub(r'/\*+\s*|\s*\*/|//[ \t]*', '', comment)
+            comment = re.sub(r'/\*+\s*|\s*\*/|(?<![^\n])[ \t]*//[ \t]*', '', comment)
             comment = re.sub(r'(?:\n|^)[ \t]*\* ?', '\n', comment).lstrip()
-            lines = comment.split('\n')
+            lines = comment.splitlines()
             for i in range(len(lines)):
                 line = lines[i].strip()
                 lines[i] = "# " + line if line else ''
@@ -834,7 +858,9 @@ class ts2pythonCompiler(Compiler):
         raw_decls = [self.compile(nd) for nd in node
                      if nd.name in ('declaration', 'function', 'comment__')]
         declarations = '\n'.join(d for d in raw_decls if d)
-        return declarations or "pass"
+        if not declarations or all(nd.name not in ('declaration', 'function') for nd in node):
+            declarations += '\npass' if declarations else 'pass'
+        return declarations
 
     def on_declaration(self, node) -> str:
         identifier = self.compile(node['identifier'])
@@ -1127,7 +1153,7 @@ class ts2pythonCompiler(Compiler):
         else:
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
-        if all(child.name == 'const' for child in node.children[1:]):
+        if all(child.name in ('const', 'comment__') for child in node.children[1:]):
             if all(nd['literal'][0].name == 'integer'
                    for nd in node.select_children('const') if 'literal' in nd):
                 header = f'class {name}(IntEnum):'
-- 
2.43.0


From 161fcbf1d5750460848391c759fc1fb00241d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:46 +0000
Subject: [PATCH 16/61] fix: process_file() leaves no incomplete results or
 outdated messages behind, that are taken for current

---
 ts2pythonParser.py | 49 +++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7ca2807..896df09 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -337,6 +337,8 @@ def source_hash(source_text: str) -> str:
     return md5(source_text, script, dump_configuration())
 
 
+END_MARK = '##### END OF ts2python generated code'
+
 GENERAL_IMPORTS = """
 import enum
 import sys
@@ -614,7 +616,7 @@ class ts2pythonCompiler(Compiler):
             code_blocks = []
         code_blocks.append(python_code)
         if self.tree.name == 'root':
-            code_blocks.append('\n##### END OF ts2python generated code\n')
+            code_blocks.append(f'\n{END_MARK}\n')
         cooked = '\n\n'.join(code_blocks)
         cooked = re.sub(' +(?=\n)', '', cooked)
         return re.sub(r'\n\n\n+', '\n\n\n', cooked)
@@ -1428,35 +1430,46 @@ def process_file(source: str, result_filename: str = '') -> str:
     string, if no errors of warnings occurred.
     """
     source_filename = source if is_filename(source) else ''
+    source_text = source
     if not result_filename:
         if source_filename:
             result_filename = os.path.splitext(source_filename)[0] + '.py'
         else:
             result_filename = "out.py"
-    if os.path.isfile(result_filename):
+    message_files = [os.path.splitext(result_filename)[0] + ext
+                     for ext in ('_ERRORS.txt', '_WARNINGS.txt')]
+    same_file = bool(source_filename) \
+        and os.path.abspath(source_filename) == os.path.abspath(result_filename)
+    if os.path.isfile(result_filename) and not same_file:
         with open(result_filename, 'r', encoding='utf-8') as f:
             result = f.read()
-        if source_filename == source:
+        if source_filename:
             with open(source_filename, 'r', encoding='utf-8') as f:
-                source = f.read()
+                source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source):
-            return ''  # no re-compilation necessary, because source hasn't changed
+        if m and m.groups()[-1] == source_hash(source_text) and result.endswith(END_MARK + '\n'):
+            # no re-compilation necessary, because source hasn't changed
+            return next((name for name in message_files if os.path.isfile(name)), '')
     result, errors = compile_src(source)
-    if not has_errors(errors, FATAL):
-        if os.path.abspath(source_filename) != os.path.abspath(result_filename):
-            with open(result_filename, 'w', encoding='utf-8') as f:
-                f.write(serialize_result(result))
-        else:
-            errors.append(Error('Source and destination have the same name "%s"!'
-                                % result_filename, 0, FATAL))
+    if same_file:
+        errors.append(Error('Source and destination have the same name "%s"!'
+                            % result_filename, 0, FATAL))
+    elif os.path.isfile(result_filename):
+        # from here on, until it has been written, the result is not valid, any more
+        os.remove(result_filename)
+    for name in message_files:
+        if os.path.isfile(name):
+            os.remove(name)
+    err_filename = ''
     if errors:
-        err_ext = '_ERRORS.txt' if has_errors(errors, ERROR) else '_WARNINGS.txt'
-        err_filename = os.path.splitext(result_filename)[0] + err_ext
-        with open(err_filename, 'w') as f:
+        err_filename = message_files[0 if has_errors(errors, ERROR) else 1]
+        with open(err_filename, 'w', encoding='utf-8') as f:
             f.write('\n'.join(canonical_error_strings(errors)))
-        return err_filename
-    return ''
+    if not has_errors(errors, FATAL):
+        # write the result last, so that a complete result always implies valid messages
+        with open(result_filename, 'w', encoding='utf-8') as f:
+            f.write(serialize_result(result))
+    return err_filename
 
 
 def batch_process(file_names: List[str], out_dir: str,
-- 
2.43.0


From f25e99bba3eb5a02666153373a2c29b77795472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 17/61] fix: singledispatch-replacement: unions, order of
 registrations, renewed calls after NameErrors, threads

---
 ts2python/singledispatch_shim.py | 152 ++++++++++++++++---------------
 1 file changed, 80 insertions(+), 72 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 877c1a0..8fb2d07 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -28,8 +28,7 @@ permissions and limitations under the License.
 
 
 from functools import _find_impl, get_cache_token, update_wrapper
-from typing import Union, ForwardRef
-import sys
+from typing import Union
 try:
     from typing import get_args, get_origin, get_type_hints
 except ImportError:
@@ -57,11 +56,32 @@ def singledispatch(func):
     # There are many programs that use functools without singledispatch, so we
     # trade-off making singledispatch marginally slower for the benefit of
     # making start-up of such applications slightly faster.
-    import types, weakref
+    import threading, types, weakref
 
     registry = {}
     dispatch_cache = weakref.WeakKeyDictionary()
     cache_token = None
+    count = 0       # number of registrations so far
+    origin = {}     # class -> number of the registration that class stems from
+    postponed = []  # numbered registrations with types that could not be resolved, yet
+    lock = threading.RLock()
+
+    def resolve_postponed():
+        """Carries out those postponed registrations, the types of which
+        can be resolved by now. Returns the NameError that keeps the first
+        of the remaining registrations from being resolved or None."""
+        name_error = None
+        with lock:
+            for entry in tuple(postponed):
+                nr, f = entry
+                try:
+                    argname, cls = next(iter(get_type_hints(f).items()))
+                except NameError as e:
+                    name_error = name_error or e
+                    continue
+                enter(dispatch_types(argname, cls), f, nr)
+                postponed.remove(entry)
+        return name_error
 
     def dispatch(cls):
         """generic_func.dispatch(cls) -> <function implementation>
@@ -71,6 +91,13 @@ def singledispatch(func):
 
         """
         nonlocal cache_token
+        if postponed:
+            name_error = resolve_postponed()
+            if name_error is not None:
+                try:
+                    return registry[cls]
+                except KeyError:
+                    raise name_error
         if cache_token is not None:
             current_token = get_cache_token()
             if cache_token != current_token:
@@ -82,22 +109,7 @@ def singledispatch(func):
             try:
                 impl = registry[cls]
             except KeyError:
-                if 'postponed' in registry:
-                    postponed = registry['postponed']
-                    del registry['postponed']
-                    for postponed_cls in postponed:
-                        register(postponed_cls)
-                    if 'postponed' in registry:
-                        for f in registry['postponed']:
-                            get_type_hints(f)   # provoke NameError
-                        raise AssertionError('singledispatch: Internal Error: '
-                                             + str(registry['postponed']))
-                    try:
-                        impl = registry[cls]
-                    except KeyError:
-                        impl = _find_impl(cls, registry)
-                else:
-                    impl = _find_impl(cls, registry)
+                impl = _find_impl(cls, registry)
             dispatch_cache[cls] = impl
         return impl
 
@@ -114,16 +126,48 @@ def singledispatch(func):
         return (_is_union_type(cls) and
                 all(isinstance(arg, type) for arg in get_args(cls)))
 
+    def dispatch_types(argname, cls):
+        """Returns the classes to which an annotation refers. Parameterized
+        types like List[int] can only be distinguished by their origin."""
+        alternatives = get_args(cls) if _is_union_type(cls) else (cls,)
+        classes = tuple(alt if isinstance(alt, type) and get_origin(alt) is None
+                        else get_origin(alt) for alt in alternatives)
+        if not all(isinstance(c, type) for c in classes):
+            if _is_union_type(cls):
+                raise TypeError(
+                    f"Invalid annotation for {argname!r}. "
+                    f"{cls!r} not all arguments are classes."
+                )
+            else:
+                raise TypeError(
+                    f"Invalid annotation for {argname!r}. "
+                    f"{cls!r} of type {type(cls)!r} is not a class."
+                )
+        return classes
+
+    def enter(classes, func, nr):
+        """Enters an implementation for the given classes, unless there is
+        an implementation that has been registered later."""
+        nonlocal cache_token
+        for cls in classes:
+            if origin.get(cls, -1) < nr:
+                registry[cls] = func
+                origin[cls] = nr
+            if cache_token is None and hasattr(cls, '__abstractmethods__'):
+                cache_token = get_cache_token()
+        dispatch_cache.clear()
+
     def register(cls, func=None):
         """generic_func.register(cls, func) -> func
 
         Registers a new implementation for the given *cls* on a *generic_func*.
 
         """
-        nonlocal cache_token
+        nonlocal count
         if _is_valid_dispatch_type(cls):
             if func is None:
                 return lambda f: register(cls, f)
+            classes = get_args(cls) if _is_union_type(cls) else (cls,)
         else:
             if func is not None:
                 raise TypeError(
@@ -132,62 +176,26 @@ def singledispatch(func):
                 )
             ann = getattr(cls, '__annotations__', {})
             if not ann:
-                if isinstance(cls, ForwardRef):
-                    obj = next(iter(registry.values()))
-                    mod = obj.__module__
-                    method = cls.__forward_value__
-                    cls.__forward_value__ = None
-                    if sys.version_info >= (3, 9, 0):
-                        cls = cls._evaluate(globals(), sys.modules[mod].__dict__,
-                                        recursive_guard=set())
-                    else:
-                        cls = cls._evaluate(globals(), sys.modules[mod].__dict__)
-                else:
-                    raise TypeError(
-                        f"Invalid first argument to `register()`: {cls!r}. "
-                        f"Use either `@register(some_class)` or plain `@register` "
-                        f"on an annotated function."
-                    )
-            else:
-                method = None
+                raise TypeError(
+                    f"Invalid first argument to `register()`: {cls!r}. "
+                    f"Use either `@register(some_class)` or plain `@register` "
+                    f"on an annotated function."
+                )
             func = cls
-
-            # only import typing if annotation parsing is necessary
             try:
                 argname, cls = next(iter(get_type_hints(func).items()))
-                if not isinstance(cls, type) and str(type(cls))[1:6] == "class":
-                    raise NameError
-            except NameError:
-                if cls != func:
-                    try:
-                        cls.__forward_value__ = func
-                    except AttributeError as e:
-                        pass  # TODO: Is this risky?
-                        # raise(e)
-                registry.setdefault('postponed', []).append(cls)
+                classes = dispatch_types(argname, cls)
+            except (NameError, TypeError):
+                # forward reference: try again, when the function is called
+                # (errors other than unknown names will be reported then)
+                with lock:
+                    count += 1
+                    postponed.append((count, func))
+                    dispatch_cache.clear()
                 return func
-            except StopIteration:
-                func = method
-            if not _is_valid_dispatch_type(cls):
-                if _is_union_type(cls):
-                    raise TypeError(
-                        f"Invalid annotation for {argname!r}. "
-                        f"{cls!r} not all arguments are classes."
-                    )
-                else:
-                    raise TypeError(
-                        f"Invalid annotation for {argname!r}. "
-                        f"{cls!r} of type {type(cls)!r} is not a class."
-                    )
-
-        if _is_union_type(cls):
-            for arg in get_args(cls):
-                registry[arg] = func
-        else:
-            registry[cls] = func
-        if cache_token is None and hasattr(cls, '__abstractmethods__'):
-            cache_token = get_cache_token()
-        dispatch_cache.clear()
+        with lock:
+            count += 1
+            enter(classes, func, count)
         return func
 
     def wrapper(*args, **kw):
-- 
2.43.0


From 2a4a99399c8b0dad4c00f81a723b39a62a2256d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 18/61] fix: recursive type aliases and type aliases with the
 same name as an enumeration

---
 ts2pythonParser.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 896df09..7aece21 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -810,20 +810,22 @@ class ts2pythonCompiler(Compiler):
         self.obj_name.append(alias)
         if alias not in self.overloaded_type_names:
             _, preface = self.process_type_parameters(node)
-            if self.known_types[-1].get(alias, '') \
-                    in ('namespace', 'enum', 'virtual_enum'):
-                preface = ('# commented out, because there is already an '
-                           'enumeration with the same name\n# ' + preface)
-            else:
-                self.add_to_known_types(node, alias, 'type_alias')
+            duplicate = self.known_types[-1].get(alias, '') \
+                in ('namespace', 'enum', 'virtual_enum')
             self.local_classes.append([])
             self.optional_keys.append([])
             types = self.compile(node['types'])
+            if not duplicate:  # within its own definition, the alias is a forward reference
+                self.add_to_known_types(node, alias, 'type_alias')
             preface += self.render_local_classes()
             self.optional_keys.pop()
             self.local_classes.pop()
             code = preface + f"{alias} = {types}"
-            if types[0:1] in ('"', "'"):
+            if duplicate:
+                code = ('commented out, because there is already an '
+                        'enumeration with the same name\n' + code)
+                code = '\n'.join('# ' + line for line in code.split('\n'))
+            elif types[0:1] in ('"', "'"):
                 self.string_aliases.add(alias)
         else:
             code = ''
-- 
2.43.0


From 6fabd8411cb8f33efb79fa6ad4fe7b87555f1a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 19/61] fix: empty namespaces and namespaces with interfaces
 yield invalid Python code

---
 ts2pythonParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7aece21..ab502a1 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1168,7 +1168,9 @@ class ts2pythonCompiler(Compiler):
             header = ''
         namespace = []
         for child in node.children[1:]:
-            namespace.append(self.compile(child))
+            namespace.extend(self.compile(child).strip('\n').split('\n'))
+        if all(child.name == 'comment__' for child in node.children[1:]):
+            namespace.append('pass')
         if not header:
             header = self.render_class_header(name, '')[:-1]  # leave out the trailing "\n"
             # self.optional_keys.pop()?
-- 
2.43.0


From 6b11ba774973e844152ae3e526727ffde2a58fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:02 +0000
Subject: [PATCH 20/61] fix: identifiers that begin with a keyword or with the
 name of a basic type

---
 ts2python.ebnf     | 78 +++++++++++++++++++++++++++++-----------------
 ts2pythonParser.py | 67 ++++++++++++++++++++++++---------------
 2 files changed, 92 insertions(+), 53 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 6c2985b..74d3de0 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -17,7 +17,10 @@
 @ reduction   = merge_treetops  # anonymous nodes are being reduced where possible
 @ disposable  = INT, NEG, FRAC, DOT, EXP, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal,
-                _quoted_identifier, _namespace, _part
+                _quoted_identifier, _namespace, _part,
+                _export, _declare, _interface, _class, _extends, _implements,
+                _type, _enum, _const, _namespace_, _module, _import, _function,
+                _let, _var, _readonly, _in
 @ drop        = whitespace, no_comments, strings, EOF,
                 _array_ellipsis, _top_level_assignment, _top_level_literal
 
@@ -31,7 +34,7 @@
 root        = document EOF
 document    = ~ { interface | type_alias | _namespace | enum | const | module
                 | _top_level_assignment | _array_ellipsis | _top_level_literal
-                | ["export"] declaration ";" | ["export"] function ";"
+                | [_export] declaration ";" | [_export] function ";"
                 | Import ";" }
 
 @interface_resume = /(?=export|$)/
@@ -43,7 +46,7 @@ document    = ~ { interface | type_alias | _namespace | enum | const | module
 @_top_level_literal_resume = /(?=export|$)/
 @module_resume = /(?=export|$)/
 
-module      = "declare" "module" _quoted_identifier "{" document "}"
+module      = _declare _module _quoted_identifier "{" document "}"
 
 
 #######################################################################
@@ -52,7 +55,7 @@ module      = "declare" "module" _quoted_identifier "{" document "}"
 #
 #######################################################################
 
-Import      = "import" [( symlist | symbol ) "from"] string
+Import      = _import [( symlist | symbol ) "from"] string
 symlist     = "{" symbol { "," symbol } "}"
 symbol      = identifier | wildcard [ "as" alias ]
 alias       = identifier
@@ -64,20 +67,20 @@ wildcard    =   "*"
 #
 #######################################################################
 
-interface   = ["export"] ["declare"] ("interface"|"class") §identifier [type_parameters]
+interface   = [_export] [_declare] (_interface|_class) §identifier [type_parameters]
               [extends] declarations_block [";"]
-extends     = ("extends" | "implements")
+extends     = (_extends | _implements)
               (generic_type|type_name) { "," (generic_type|type_name)}
 
 declarations_block = "{" [(function|declaration) { [";"|","] (function|declaration) }
                           [";" map_signature] [";"|","]] "}"
-declaration = qualifiers ["let"|"var"] identifier [optional] !`(` [":" types]
+declaration = qualifiers [_let|_var] identifier [optional] !`(` [":" types]
 
 
 # @function_resume = /(?=;)/
 
-function    = [["export"] [static]
-               ["function"] identifier [optional] [type_parameters]]
+function    = [[_export] [static]
+               [_function] identifier [optional] [type_parameters]]
               "(" §[arg_list] ")" [":" types]
             | special
   arg_list  = (argument { "," argument } ["," arg_tail] | arg_tail) [","]
@@ -87,8 +90,8 @@ special     = "[" name "]" "(" §[arg_list] ")" [":" types]
 
 
 qualifiers  = [readonly] ° [static]
-readonly    = "readonly"
-static      = "static"
+readonly    = /readonly(?!\w)/ ~ !/[?:;,(}]/    # may also be the name of a member
+static      = /static(?!\w)/ ~ !/[?:;,(}]/
 
 optional    = "?"
 
@@ -98,11 +101,11 @@ optional    = "?"
 #
 #######################################################################
 
-type_alias  = ["export"] "type" §identifier [type_parameters] "=" types ";"
+type_alias  = [_export] _type §identifier [type_parameters] "=" types ";"
 
 types       = ["|"] (intersection | type) { "|" (intersection | type) }
 intersection = type { "&" §type }+
-type        = ["readonly"]
+type        = [_readonly]
             ( array_of | basic_type | generic_type | indexed_type
             | type_name !`(` | "(" types ")" | mapped_type
             | declarations_block | type_tuple | declarations_tuple
@@ -111,11 +114,11 @@ type        = ["readonly"]
 generic_type = type_name type_parameters
   type_parameters = "<" §parameter_types { "," parameter_types } ">"
   parameter_types = ["|"] parameter_type  { "|" parameter_type }
-  parameter_type  = [ "readonly" ]
+  parameter_type  = [ _readonly ]
                   ( array_of | basic_type | generic_type     # actually, only a subset of array_of
                   | indexed_type | type_name [extends_type] [equals_type]
                   | declarations_block | type_tuple | declarations_tuple )
-  extends_type = "extends" [keyof] (basic_type | type_name | mapped_type )
+  extends_type = _extends [keyof] (basic_type | type_name | mapped_type )
   equals_type  = "=" (basic_type|type_name)
 
 array_of    = array_types "[]"
@@ -130,9 +133,9 @@ declarations_tuple = "[" declaration { "," declaration } "]"
 mapped_type = "{" map_signature [";"] "}"
 map_signature = index_signature ":" types
   index_signature = [readonly]
-                    "[" identifier (":" | ["in"] keyof | "in") type "]"
+                    "[" identifier (":" | [_in] keyof | _in) type "]"
                     [optional]
-  keyof = "keyof"
+  keyof = /keyof(?!\w)/ ~
 
 indexed_type = type_name "[" (type_name | literal) "]"
 
@@ -146,14 +149,14 @@ func_type   = ["new"] "(" [arg_list] ")" "=>" types
 
 _namespace   = virtual_enum | namespace
 
-virtual_enum = ["export"] "namespace" identifier "{"
+virtual_enum = [_export] _namespace_ identifier "{"
               { interface | type_alias | enum | const
               | declaration ";" }  "}"
 
-namespace    = ["export"] "namespace" §identifier "{"
+namespace    = [_export] _namespace_ §identifier "{"
                { interface | type_alias | enum | const
-               | ["export"] declaration ";"
-               | ["export"] function ";" }  "}"
+               | [_export] declaration ";"
+               | [_export] function ";" }  "}"
 
 #######################################################################
 #
@@ -161,7 +164,7 @@ namespace    = ["export"] "namespace" §identifier "{"
 #
 #######################################################################
 
-enum        = ["export"] "enum" identifier §"{" item { "," item } [","] "}"
+enum        = [_export] _enum identifier §"{" item { "," item } [","] "}"
   item      = _quoted_identifier ["=" literal]
 
 #######################################################################
@@ -170,7 +173,7 @@ enum        = ["export"] "enum" identifier §"{" item { "," item } [","] "}"
 #
 #######################################################################
 
-const       = ["export"] "const" §declaration ["=" (literal | identifier)] ";"
+const       = [_export] _const §declaration ["=" (literal | identifier)] ";"
 _top_level_assignment = assignment
 assignment  = variable "=" (literal | variable) ";"  # no expressions, yet
 
@@ -186,7 +189,7 @@ _top_level_literal = literal
 literal    = integer | number | boolean | string | array | object
 integer    = INT !/[.Ee]/ ~
 number     = INT FRAC EXP ~
-boolean    = (`true` | `false`) ~
+boolean    = /(?:true|false)(?!\w)/ ~
 string     = /"[^"\n]*"/~ | /'[^'\n]*'/~
 array      = "[" [ literal { "," literal } ] "]"
 object     = "{" [ association { "," association } ] [","] "}"
@@ -199,8 +202,27 @@ object     = "{" [ association { "," association } ] [","] "}"
 #
 #######################################################################
 
-basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
-               | `integer` | `uinteger` | `decimal` | `unknown` | `any` | `void`) ~
+# none of the keywords may be just the beginning of a longer identifier
+
+basic_type   = /(?:object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\w)/ ~
+
+_export      = &/export(?!\w)/ "export"
+_declare     = &/declare(?!\w)/ "declare"
+_interface   = &/interface(?!\w)/ "interface"
+_class       = &/class(?!\w)/ "class"
+_extends     = &/extends(?!\w)/ "extends"
+_implements  = &/implements(?!\w)/ "implements"
+_type        = &/type(?!\w)/ "type"
+_enum        = &/enum(?!\w)/ "enum"
+_const       = &/const(?!\w)/ "const"
+_namespace_  = &/namespace(?!\w)/ "namespace"
+_module      = &/module(?!\w)/ "module"
+_import      = &/import(?!\w)/ "import"
+_function    = &/function(?!\w)/ "function"
+_let         = &/let(?!\w)/ "let" !/[?:;,(}]/
+_var         = &/var(?!\w)/ "var" !/[?:;,(}]/
+_readonly    = &/readonly(?!\w)/ "readonly"
+_in          = &/in(?!\w)/ "in"
 
 #######################################################################
 #
@@ -210,8 +232,8 @@ basic_type   = (`object` | `array` | `string` | `number` | `boolean` | `null`
 
 variable   = name
 _quoted_identifier = identifier | '"' identifier §'"' | "'" identifier §"'"
-name       = !(`true`|`false`) _part {`.` _part} ~
-identifier = !(`true`|`false`) _part ~
+name       = !/(?:true|false)(?!\w)/ _part {`.` _part} ~
+identifier = !/(?:true|false)(?!\w)/ _part ~
   _part    = /(?!\d)\w+/
 INT         = [NEG] ( /[1-9][0-9]+/ | /[0-9]/ )
 NEG         = `-`
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ab502a1..56d109f 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "7bde6345f03305114d11de968cd6e5df"
+    source_hash__ = "47a2fcda07640bc5c2bbbf99f68e4218"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_top_level_assignment$|_namespace$|EOF$|_quoted_identifier$|_array_ellipsis$|_top_level_literal$|FRAC$|INT$|DOT$|EXP$|_part$|NEG$)')
+    disposable__ = re.compile('(?:_import$|_enum$|_readonly$|_var$|_interface$|NEG$|_export$|_quoted_identifier$|_function$|_namespace$|_class$|_namespace_$|FRAC$|_extends$|_module$|_top_level_literal$|_top_level_assignment$|_const$|EXP$|_array_ellipsis$|_declare$|INT$|DOT$|_part$|EOF$|_in$|_implements$|_let$|_type$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -156,17 +156,34 @@ class ts2pythonGrammar(Grammar):
     NEG = Text("-")
     INT = Series(Option(NEG), SmartRE(f'([1-9][0-9]+|[0-9])', '/[1-9][0-9]+/|/[0-9]/'))
     _part = RegExp('(?!\\d)\\w+')
-    identifier = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, dwsp__)
-    name = Series(SmartRE(f'(?!true|false)', '!`true`|`false`'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
+    identifier = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, dwsp__)
+    name = Series(SmartRE(f'(?!(?:true|false)(?!\\w))', '!/(?:true|false)(?!\\w)/'), _part, ZeroOrMore(Series(Text("."), _part)), dwsp__)
     _quoted_identifier = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__), mandatory=2), Series(Series(Drop(Text("\'")), dwsp__), identifier, Series(Drop(Text("\'")), dwsp__), mandatory=2))
     variable = Synonym(name)
-    basic_type = SmartRE(f'(?P<:Text>object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?P<comment__>{WSP_RE__})', '`object`|`array`|`string`|`number`|`boolean`|`null`|`integer`|`uinteger`|`decimal`|`unknown`|`any`|`void` ~')
+    _in = SmartRE(f'(?=in(?!\\w))(?:in)(?P<comment__>{WSP_RE__})', '&/in(?!\\w)/ "in"')
+    _readonly = SmartRE(f'(?=readonly(?!\\w))(?:readonly)(?P<comment__>{WSP_RE__})', '&/readonly(?!\\w)/ "readonly"')
+    _var = SmartRE(f'(?=var(?!\\w))(?:var)(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '&/var(?!\\w)/ "var" !/[?:;,(}]/')
+    _let = SmartRE(f'(?=let(?!\\w))(?:let)(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '&/let(?!\\w)/ "let" !/[?:;,(}]/')
+    _function = SmartRE(f'(?=function(?!\\w))(?:function)(?P<comment__>{WSP_RE__})', '&/function(?!\\w)/ "function"')
+    _import = SmartRE(f'(?=import(?!\\w))(?:import)(?P<comment__>{WSP_RE__})', '&/import(?!\\w)/ "import"')
+    _module = SmartRE(f'(?=module(?!\\w))(?:module)(?P<comment__>{WSP_RE__})', '&/module(?!\\w)/ "module"')
+    _namespace_ = SmartRE(f'(?=namespace(?!\\w))(?:namespace)(?P<comment__>{WSP_RE__})', '&/namespace(?!\\w)/ "namespace"')
+    _const = SmartRE(f'(?=const(?!\\w))(?:const)(?P<comment__>{WSP_RE__})', '&/const(?!\\w)/ "const"')
+    _enum = SmartRE(f'(?=enum(?!\\w))(?:enum)(?P<comment__>{WSP_RE__})', '&/enum(?!\\w)/ "enum"')
+    _type = SmartRE(f'(?=type(?!\\w))(?:type)(?P<comment__>{WSP_RE__})', '&/type(?!\\w)/ "type"')
+    _implements = SmartRE(f'(?=implements(?!\\w))(?:implements)(?P<comment__>{WSP_RE__})', '&/implements(?!\\w)/ "implements"')
+    _extends = SmartRE(f'(?=extends(?!\\w))(?:extends)(?P<comment__>{WSP_RE__})', '&/extends(?!\\w)/ "extends"')
+    _class = SmartRE(f'(?=class(?!\\w))(?:class)(?P<comment__>{WSP_RE__})', '&/class(?!\\w)/ "class"')
+    _interface = SmartRE(f'(?=interface(?!\\w))(?:interface)(?P<comment__>{WSP_RE__})', '&/interface(?!\\w)/ "interface"')
+    _declare = SmartRE(f'(?=declare(?!\\w))(?:declare)(?P<comment__>{WSP_RE__})', '&/declare(?!\\w)/ "declare"')
+    _export = SmartRE(f'(?=export(?!\\w))(?:export)(?P<comment__>{WSP_RE__})', '&/export(?!\\w)/ "export"')
+    basic_type = SmartRE(f'((?:object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w))(?P<comment__>{WSP_RE__})', '/(?:object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w)/ ~')
     key = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__)))
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
     object = Series(Series(Drop(Text("{")), dwsp__), Option(Series(association, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), association)))), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__))
     array = Series(Series(Drop(Text("[")), dwsp__), Option(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))), Series(Drop(Text("]")), dwsp__))
     string = SmartRE(f'("[^"\\n]*")(?P<comment__>{WSP_RE__})|(\'[^\'\\n]*\')(?P<comment__>{WSP_RE__})', '/"[^"\\n]*"/ ~|/\'[^\'\\n]*\'/ ~')
-    boolean = SmartRE(f'(?P<:Text>true|false)(?P<comment__>{WSP_RE__})', '`true`|`false` ~')
+    boolean = SmartRE(f'((?:true|false)(?!\\w))(?P<comment__>{WSP_RE__})', '/(?:true|false)(?!\\w)/ ~')
     number = Series(INT, FRAC, EXP, dwsp__)
     integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
     type_name = Synonym(name)
@@ -174,18 +191,18 @@ class ts2pythonGrammar(Grammar):
     _array_ellipsis = Drop(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal))))
     assignment = Series(variable, Series(Drop(Text("=")), dwsp__), Alternative(literal, variable), Series(Drop(Text(";")), dwsp__))
     _top_level_assignment = Drop(Synonym(assignment))
-    const = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("const")), dwsp__), declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
+    const = Series(Option(_export), _const, declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
-    enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("enum")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
-    keyof = Series(Text("keyof"), dwsp__)
-    readonly = Series(Text("readonly"), dwsp__)
+    enum = Series(Option(_export), _enum, identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
+    keyof = SmartRE(f'(keyof(?!\\w))(?P<comment__>{WSP_RE__})', '/keyof(?!\\w)/ ~')
+    readonly = SmartRE(f'(readonly(?!\\w))(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '/readonly(?!\\w)/ ~ !/[?:;,(}]/')
     optional = Series(Text("?"), dwsp__)
     func_type = Series(Option(Series(Drop(Text("new")), dwsp__)), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
-    extends = Series(SmartRE(f'(?:extends)(?P<comment__>{WSP_RE__})|(?:implements)(?P<comment__>{WSP_RE__})', '"extends"|"implements"'), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
-    index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(Series(Drop(Text("in")), dwsp__)), keyof), Series(Drop(Text("in")), dwsp__)), type, Series(Drop(Text("]")), dwsp__), Option(optional))
+    extends = Series(Alternative(_extends, _implements), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
+    index_signature = Series(Option(readonly), Series(Drop(Text("[")), dwsp__), identifier, Alternative(Series(Drop(Text(":")), dwsp__), Series(Option(_in), keyof), _in), type, Series(Drop(Text("]")), dwsp__), Option(optional))
     map_signature = Series(index_signature, Series(Drop(Text(":")), dwsp__), types)
     mapped_type = Series(Series(Drop(Text("{")), dwsp__), map_signature, Option(Series(Drop(Text(";")), dwsp__)), Series(Drop(Text("}")), dwsp__))
-    extends_type = Series(Series(Drop(Text("extends")), dwsp__), Option(keyof), Alternative(basic_type, type_name, mapped_type))
+    extends_type = Series(_extends, Option(keyof), Alternative(basic_type, type_name, mapped_type))
     declarations_tuple = Series(Series(Drop(Text("[")), dwsp__), declaration, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), declaration)), Series(Drop(Text("]")), dwsp__))
     type_tuple = Series(Series(Drop(Text("[")), dwsp__), types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), types)), Series(Drop(Text("]")), dwsp__))
     indexed_type = Series(type_name, Series(Drop(Text("[")), dwsp__), Alternative(type_name, literal), Series(Drop(Text("]")), dwsp__))
@@ -193,17 +210,17 @@ class ts2pythonGrammar(Grammar):
     array_types = Synonym(array_type)
     array_of = Series(array_types, Series(Drop(Text("[]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
-    parameter_type = Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
+    parameter_type = Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
     parameter_types = Series(Option(Series(Drop(Text("|")), dwsp__)), parameter_type, ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), parameter_type)))
     type_parameters = Series(Series(Drop(Text("<")), dwsp__), parameter_types, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), parameter_types)), Series(Drop(Text(">")), dwsp__), mandatory=1)
-    interface = Series(Option(Series(Drop(Text("export")), dwsp__)), Option(Series(Drop(Text("declare")), dwsp__)), SmartRE(f'(?:interface)(?P<comment__>{WSP_RE__})|(?:class)(?P<comment__>{WSP_RE__})', '"interface"|"class"'), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
-    type_alias = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("type")), dwsp__), identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
+    interface = Series(Option(_export), Option(_declare), Alternative(_interface, _class), identifier, Option(type_parameters), Option(extends), declarations_block, Option(Series(Drop(Text(";")), dwsp__)), mandatory=3)
+    type_alias = Series(Option(_export), _type, identifier, Option(type_parameters), Series(Drop(Text("=")), dwsp__), types, Series(Drop(Text(";")), dwsp__), mandatory=2)
     wildcard = Series(Text("*"), dwsp__)
     intersection = Series(type, OneOrMore(Series(Series(Drop(Text("&")), dwsp__), type, mandatory=1)))
     alias = Synonym(identifier)
-    namespace = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
-    virtual_enum = Series(Option(Series(Drop(Text("export")), dwsp__)), Series(Drop(Text("namespace")), dwsp__), identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
-    static = Series(Text("static"), dwsp__)
+    namespace = Series(Option(_export), _namespace_, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(_export), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(_export), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
+    virtual_enum = Series(Option(_export), _namespace_, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
+    static = SmartRE(f'(static(?!\\w))(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '/static(?!\\w)/ ~ !/[?:;,(}]/')
     _namespace = Alternative(virtual_enum, namespace)
     qualifiers = Interleave(readonly, static, repetitions=[(0, 1), (0, 1)])
     special = Series(Series(Drop(Text("[")), dwsp__), name, Series(Drop(Text("]")), dwsp__), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=4)
@@ -211,17 +228,17 @@ class ts2pythonGrammar(Grammar):
     arg_tail = Series(Series(Drop(Text("...")), dwsp__), identifier, Option(Series(Series(Drop(Text(":")), dwsp__), Alternative(array_of, generic_type))))
     symbol = Alternative(identifier, Series(wildcard, Option(Series(Series(Drop(Text("as")), dwsp__), alias))))
     symlist = Series(Series(Drop(Text("{")), dwsp__), symbol, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), symbol)), Series(Drop(Text("}")), dwsp__))
-    Import = Series(Series(Drop(Text("import")), dwsp__), Option(Series(Alternative(symlist, symbol), Series(Drop(Text("from")), dwsp__))), string)
-    module = Series(Series(Drop(Text("declare")), dwsp__), Series(Drop(Text("module")), dwsp__), _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
+    Import = Series(_import, Option(Series(Alternative(symlist, symbol), Series(Drop(Text("from")), dwsp__))), string)
+    module = Series(_declare, _module, _quoted_identifier, Series(Drop(Text("{")), dwsp__), document, Series(Drop(Text("}")), dwsp__))
     literal.set(Alternative(integer, number, boolean, string, array, object))
     generic_type.set(Series(type_name, type_parameters))
-    type.set(Series(Option(Series(Drop(Text("readonly")), dwsp__)), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
+    type.set(Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, NegativeLookahead(Text("("))), Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), mapped_type, declarations_block, type_tuple, declarations_tuple, literal, func_type)))
     types.set(Series(Option(Series(Drop(Text("|")), dwsp__)), Alternative(intersection, type), ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), Alternative(intersection, type)))))
     arg_list.set(Series(Alternative(Series(argument, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), argument)), Option(Series(Series(Drop(Text(",")), dwsp__), arg_tail))), arg_tail), Option(Series(Drop(Text(",")), dwsp__))))
-    function.set(Alternative(Series(Option(Series(Option(Series(Drop(Text("export")), dwsp__)), Option(static), Option(Series(Drop(Text("function")), dwsp__)), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
-    declaration.set(Series(qualifiers, Option(SmartRE(f'(?:let)(?P<comment__>{WSP_RE__})|(?:var)(?P<comment__>{WSP_RE__})', '"let"|"var"')), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
+    function.set(Alternative(Series(Option(Series(Option(_export), Option(static), Option(_function), identifier, Option(optional), Option(type_parameters))), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=2), special))
+    declaration.set(Series(qualifiers, Option(Alternative(_let, _var)), identifier, Option(optional), NegativeLookahead(Text("(")), Option(Series(Series(Drop(Text(":")), dwsp__), types))))
     declarations_block.set(Series(Series(Drop(Text("{")), dwsp__), Option(Series(Alternative(function, declaration), ZeroOrMore(Series(Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')), Alternative(function, declaration))), Option(Series(Series(Drop(Text(";")), dwsp__), map_signature)), Option(SmartRE(f'(?:;)(?P<comment__>{WSP_RE__})|(?:,)(?P<comment__>{WSP_RE__})', '";"|","')))), Series(Drop(Text("}")), dwsp__)))
-    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(Series(Drop(Text("export")), dwsp__)), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(Series(Drop(Text("export")), dwsp__)), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
+    document.set(Series(dwsp__, ZeroOrMore(Alternative(interface, type_alias, _namespace, enum, const, module, _top_level_assignment, _array_ellipsis, _top_level_literal, Series(Option(_export), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(_export), function, Series(Drop(Text(";")), dwsp__)), Series(Import, Series(Drop(Text(";")), dwsp__))))))
     root = Series(document, EOF)
     resume_rules__ = {'interface': [re.compile(r'(?=export|$)')],
                       'type_alias': [re.compile(r'(?=export|$)')],
-- 
2.43.0


From 91474e12a4f847c451a008a986f2c8b20cf0095b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 21/61] fix: white space between the brackets of array types

---
 ts2python.ebnf     | 2 +-
 ts2pythonParser.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 74d3de0..9e4be0d 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -121,7 +121,7 @@ generic_type = type_name type_parameters
   extends_type = _extends [keyof] (basic_type | type_name | mapped_type )
   equals_type  = "=" (basic_type|type_name)
 
-array_of    = array_types "[]"
+array_of    = array_types "[" "]"
   array_types = array_type
   array_type = basic_type | generic_type | type_name | "(" types ")"
               | type_tuple | declarations_block
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 56d109f..bb1d2ea 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "47a2fcda07640bc5c2bbbf99f68e4218"
+    source_hash__ = "234c54de2490379f66c4265194250067"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_import$|_enum$|_readonly$|_var$|_interface$|NEG$|_export$|_quoted_identifier$|_function$|_namespace$|_class$|_namespace_$|FRAC$|_extends$|_module$|_top_level_literal$|_top_level_assignment$|_const$|EXP$|_array_ellipsis$|_declare$|INT$|DOT$|_part$|EOF$|_in$|_implements$|_let$|_type$)')
+    disposable__ = re.compile('(?:DOT$|_implements$|_in$|_top_level_assignment$|_function$|_const$|_interface$|_let$|_export$|INT$|_class$|_part$|_array_ellipsis$|_import$|_namespace_$|_quoted_identifier$|_readonly$|_declare$|EXP$|_module$|_extends$|NEG$|_type$|_namespace$|FRAC$|_enum$|EOF$|_var$|_top_level_literal$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -208,7 +208,7 @@ class ts2pythonGrammar(Grammar):
     indexed_type = Series(type_name, Series(Drop(Text("[")), dwsp__), Alternative(type_name, literal), Series(Drop(Text("]")), dwsp__))
     array_type = Alternative(basic_type, generic_type, type_name, Series(Series(Drop(Text("(")), dwsp__), types, Series(Drop(Text(")")), dwsp__)), type_tuple, declarations_block)
     array_types = Synonym(array_type)
-    array_of = Series(array_types, Series(Drop(Text("[]")), dwsp__))
+    array_of = Series(array_types, Series(Drop(Text("[")), dwsp__), Series(Drop(Text("]")), dwsp__))
     equals_type = Series(Series(Drop(Text("=")), dwsp__), Alternative(basic_type, type_name))
     parameter_type = Series(Option(_readonly), Alternative(array_of, basic_type, generic_type, indexed_type, Series(type_name, Option(extends_type), Option(equals_type)), declarations_block, type_tuple, declarations_tuple))
     parameter_types = Series(Option(Series(Drop(Text("|")), dwsp__)), parameter_type, ZeroOrMore(Series(Series(Drop(Text("|")), dwsp__), parameter_type)))
-- 
2.43.0


From 0af8c1a9228019e7d613204ce60374761f82b048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:19 +0000
Subject: [PATCH 22/61] fix: anonymous interfaces in the signatures of toplevel
 functions, types of rest parameters

---
 ts2pythonParser.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bb1d2ea..93e3bbc 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -918,16 +918,27 @@ class ts2pythonCompiler(Compiler):
         tps, preface = self.process_type_parameters(node)
         if self.use_type_parameters:  preface = ''
         else:  tps = ''
+        is_toplevel = self.scope_type[-1] == ''
+        if is_toplevel:
+            self.local_classes.append([])
         try:
             arguments = self.compile(node['arg_list'])
             if self.scope_type[-1] == 'interface':
                 arguments = 'self, ' + arguments
         except KeyError:
             arguments = 'self' if self.scope_type[-1] == 'interface' else ''
+        if is_toplevel:
+            self.obj_name.append('Result')
         try:
             return_type = self.compile(node['types'])
         except KeyError:
             return_type = 'Any'
+        if is_toplevel:
+            self.obj_name.pop()
+            for class_code in self.local_classes[-1]:
+                self.declared_names.update(RX_CLASS_NAME.findall(class_code))
+            preface += self.render_local_classes()
+            self.local_classes.pop()
         decorator = node.get_attr('decorator', '')
         fallback = ""
         type_error = "raise TypeError(f'First argument {arg1} of single-dispatch " \
@@ -965,13 +976,13 @@ class ts2pythonCompiler(Compiler):
 
     def on_arg_tail(self, node):
         argname = self.compile(node["identifier"])
-        if 'array_of' in node:
+        if node[-1].name in ('array_of', 'generic_type'):
             self.obj_name.append(to_typename(argname))
-            type = self.compile(node['array_of'])[5:-1]
+            type = self.compile_type_expression(node, node[-1])
             self.obj_name.pop()
-            return f'*{argname}: {type}'
-        else:
-            return '*' + argname
+            if type[:5] == 'List[':
+                return f'*{argname}: {type[5:-1]}'
+        return '*' + argname
 
     def on_argument(self, node) -> str:
         argname = self.compile(node["identifier"])
-- 
2.43.0


From 0be6ab8f73294560ba511ed1aab59441046bfdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 23/61] fix: constants with an anonymous interface as type
 crashed the transpiler on later declarations

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 93e3bbc..bf69dc3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -900,8 +900,8 @@ class ts2pythonCompiler(Compiler):
                 T = add_None(T)
         if self.is_toplevel() and bool(self.local_classes[-1]):
             preface = self.render_local_classes()
-            self.local_classes.pop()
-            self.optional_keys.pop()
+            self.local_classes[-1] = []
+            self.optional_keys[-1] = []
             return preface + f"{identifier}: {T}"
         return f"{identifier}: {T}"
 
-- 
2.43.0


From 0b1756113fa52eecabc05ce400b5018394c2a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 24/61] fix: method resolution order and type parameters of
 classes that are not TypedDicts

---
 ts2pythonParser.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index bf69dc3..7aea6bf 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -772,19 +772,21 @@ class ts2pythonCompiler(Compiler):
         preface += node.get_attr('preface', '')
         self.known_types.append(dict())
         base_class_list = []
+        no_typed_dict = self.base_class_name != 'TypedDict' \
+            or 'function' in node['declarations_block']
+        needs_Generic = tps and (not self.use_variadic_generics or no_typed_dict)
         try:
             base_class_list = self.bases(node['extends'])
+            if no_typed_dict or any(bc not in self.typed_dicts for bc in base_class_list):
+                base_class_list = self.mro_compatible(base_class_list)
             base_classes = ', '.join(base_class_list)  # self.compile(node['extends'])
             if self.local_classes[-1]:
                 preface += self.render_local_classes() + '\n'
                 self.local_classes[-1] = []
-            if tps and not self.use_variadic_generics:
+            if needs_Generic:
                 base_classes += f", Generic{tps}"
         except KeyError:
-            base_classes = f"Generic{tps}" \
-                if tps and (not self.use_variadic_generics
-                            or 'function' in node['declarations_block'])\
-                else ''
+            base_classes = f"Generic{tps}" if needs_Generic else ''
         if any(bc not in self.typed_dicts for bc in base_class_list):
             force_base_class = ' '
         elif 'function' in node['declarations_block']:
@@ -816,6 +818,14 @@ class ts2pythonCompiler(Compiler):
         bases = [self.compile(nd) for nd in node.children]
         return [TYPE_NAME_SUBSTITUTION.get(bc, bc) for bc in bases]
 
+    def mro_compatible(self, bases: List[str]) -> List[str]:
+        """Sorts base classes that have been declared later to the front, so
+        that Python can always determine a consistent method resolution order,
+        in particular, if one of the bases is derived from another one."""
+        declared = list(self.base_classes.keys())
+        rank = {name: i for i, name in enumerate(declared)}
+        return sorted(bases, key=lambda bc: -rank.get(bc.split('[')[0], len(declared)))
+
     def on_extends(self, node) -> str:
         return ', '.join(self.bases(node))
 
-- 
2.43.0


From 3da2521050755610afd9b40d49b6458611fee5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:49 +0000
Subject: [PATCH 25/61] fix: references between a type alias and an enumeration
 of the same name

---
 ts2pythonParser.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7aea6bf..ee83371 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -609,12 +609,23 @@ class ts2pythonCompiler(Compiler):
         self.known_types[-1][typename] = kind
 
     def prepare(self, root: Node) -> None:
-        type_aliases = {nd['identifier'].content for nd in root.select_children('type_alias')}
-        namespaces = {nd['identifier'].content for nd in root.select_children('namespace')}
-        self.overloaded_type_names = type_aliases & namespaces
+        self.tree.stage = 'py'
+        # type aliases that are followed by an enumeration (i.e. a namespace of
+        # constants) of the same name, would otherwise hide the enumeration
+        # from all declarations between the alias and the enumeration
+        for scope in root.select('document'):
+            type_aliases = set()
+            for nd in scope.children:
+                if 'identifier' not in nd:
+                    continue  # erroneous declaration
+                if nd.name == 'type_alias':
+                    type_aliases.add(nd['identifier'].content)
+                elif nd.name == 'virtual_enum' and \
+                        all(child.name in ('const', 'comment__') for child in nd.children[1:]):
+                    if nd['identifier'].content in type_aliases:
+                        self.overloaded_type_names.add(nd['identifier'].content)
         self.declared_names = {nd['identifier'].content for nd in root.select(DECLARATION_TYPES)
                                if 'identifier' in nd}
-        self.tree.stage = 'py'
         return None
 
     def finalize(self, python_code: Any) -> Any:
-- 
2.43.0


From 2cdbcff73a1949f00fe6c8010d9b3b5b0bd413c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:50 +0000
Subject: [PATCH 26/61] fix: comments corrupted namespaces and classes without
 fields, comments after example data were lost

- comments between the keywords and the name of a namespace turned it into a broken class
- the body of classes with nothing but a constructor and a comment was empty
- comments following upon a toplevel literal or assignment were dropped
---
 ts2python.ebnf     |  3 +--
 ts2pythonParser.py | 25 ++++++++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 9e4be0d..42bce36 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -21,8 +21,7 @@
                 _export, _declare, _interface, _class, _extends, _implements,
                 _type, _enum, _const, _namespace_, _module, _import, _function,
                 _let, _var, _readonly, _in
-@ drop        = whitespace, no_comments, strings, EOF,
-                _array_ellipsis, _top_level_assignment, _top_level_literal
+@ drop        = whitespace, no_comments, strings, EOF
 
 
 #######################################################################
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ee83371..7572926 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "234c54de2490379f66c4265194250067"
+    source_hash__ = "afe5e16b518369a415be14b63c627bcc"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:DOT$|_implements$|_in$|_top_level_assignment$|_function$|_const$|_interface$|_let$|_export$|INT$|_class$|_part$|_array_ellipsis$|_import$|_namespace_$|_quoted_identifier$|_readonly$|_declare$|EXP$|_module$|_extends$|NEG$|_type$|_namespace$|FRAC$|_enum$|EOF$|_var$|_top_level_literal$)')
+    disposable__ = re.compile('(?:_enum$|_namespace_$|_import$|FRAC$|_implements$|_top_level_assignment$|_export$|_interface$|_extends$|_type$|_let$|INT$|_quoted_identifier$|_array_ellipsis$|NEG$|_declare$|_class$|_readonly$|_var$|_function$|_const$|_module$|EXP$|_top_level_literal$|_namespace$|EOF$|DOT$|_part$|_in$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -187,10 +187,10 @@ class ts2pythonGrammar(Grammar):
     number = Series(INT, FRAC, EXP, dwsp__)
     integer = Series(INT, SmartRE(f'(?![.Ee])', '!/[.Ee]/'), dwsp__)
     type_name = Synonym(name)
-    _top_level_literal = Drop(Synonym(literal))
-    _array_ellipsis = Drop(Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal))))
+    _top_level_literal = Synonym(literal)
+    _array_ellipsis = Series(literal, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), literal)))
     assignment = Series(variable, Series(Drop(Text("=")), dwsp__), Alternative(literal, variable), Series(Drop(Text(";")), dwsp__))
-    _top_level_assignment = Drop(Synonym(assignment))
+    _top_level_assignment = Synonym(assignment)
     const = Series(Option(_export), _const, declaration, Option(Series(Series(Drop(Text("=")), dwsp__), Alternative(literal, identifier))), Series(Drop(Text(";")), dwsp__), mandatory=2)
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
     enum = Series(Option(_export), _enum, identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
@@ -295,6 +295,10 @@ def is_movable_comment(p: Path) -> bool:
 def drop_inner_comments(p: Path):
     """Removes comments from the middle of nodes that cannot render them."""
     node = p[-1]
+    if node.name in ('namespace', 'virtual_enum', 'enum') and 'identifier' in node:
+        # the same goes for comments between the keywords and the name
+        i = node.index('identifier')
+        if i > 0:  node.result = node.children[i:]
     if node.name not in COMMENT_CONTAINERS and node._children \
             and any(nd.name == 'comment__' for nd in node._children):
         node.result = tuple(nd for nd in node._children if nd.name != 'comment__')
@@ -687,7 +691,7 @@ class ts2pythonCompiler(Compiler):
             return self.compile(node['module'][0]['document'])
         self.mark_overloaded_functions(node)
         return '\n\n'.join(self.compile(child) for child in node.children
-                           if child.name != 'declaration')
+                           if child.name not in ('declaration', 'assignment', 'literal'))
 
     def on_module(self, node) -> str:
         name = self.compile(node['identifier'])
@@ -897,10 +901,10 @@ class ts2pythonCompiler(Compiler):
         self.mark_overloaded_functions(node)
         # declarations = '\n'.join(self.compile(nd) for nd in node
         #                          if nd.name in ('declaration', 'function'))
-        raw_decls = [self.compile(nd) for nd in node
+        raw_decls = [(nd.name, self.compile(nd)) for nd in node
                      if nd.name in ('declaration', 'function', 'comment__')]
-        declarations = '\n'.join(d for d in raw_decls if d)
-        if not declarations or all(nd.name not in ('declaration', 'function') for nd in node):
+        declarations = '\n'.join(d for _, d in raw_decls if d)
+        if all(name == 'comment__' for name, d in raw_decls if d):
             declarations += '\npass' if declarations else 'pass'
         return declarations
 
@@ -1300,6 +1304,9 @@ class ts2pythonCompiler(Compiler):
     def on_assignment(self, node) -> str:
         return self.compile(node['variable']) + ' = ' + self.compile(node[1])
 
+    def on__array_ellipsis__(self, node) -> str:
+        return ''  # example-data on the top-level is left out
+
     def on_literal(self, node) -> str:
         assert len(node.children) == 1
         return self.compile(node[0])
-- 
2.43.0


From d9de5cd443f0a01fd06517b66ec2327fa990e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 27/61] fix: Array<null> is a list of nulls, not a list of
 anything

---
 ts2pythonParser.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7572926..5547c15 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1345,10 +1345,7 @@ class ts2pythonCompiler(Compiler):
     def on_generic_type(self, node) -> str:
         base_type = self.compile(node['type_name'])
         parameters = self.compile(node['type_parameters'])
-        if parameters == 'None':
-            return base_type
-        else:
-            return ''.join([base_type, '[', parameters, ']'])
+        return ''.join([base_type, '[', parameters, ']'])
 
     def on_type_parameters(self, node) -> str:
         type_parameters = [self.compile(nd) for nd in node.children]
-- 
2.43.0


From b181a491adbc42586897f96bb1bebf9ab037878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 28/61] fix: members, methods and constants named like a
 keyword, references within anonymous interfaces

- white space between a member named readonly, static, let or var and the following token
  turned the name into a keyword
- methods named function, export or static, constants named readonly or static were rejected
- the name of the class of an anonymous interface could be mistaken for a forward reference
---
 ts2python.ebnf     | 13 +++++++------
 ts2pythonParser.py | 19 ++++++++++---------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/ts2python.ebnf b/ts2python.ebnf
index 42bce36..145054c 100644
--- a/ts2python.ebnf
+++ b/ts2python.ebnf
@@ -89,8 +89,8 @@ special     = "[" name "]" "(" §[arg_list] ")" [":" types]
 
 
 qualifiers  = [readonly] ° [static]
-readonly    = /readonly(?!\w)/ ~ !/[?:;,(}]/    # may also be the name of a member
-static      = /static(?!\w)/ ~ !/[?:;,(}]/
+readonly    = /readonly(?!\w)/ ~ !NAME_END   # may also be the name of a member
+static      = /static(?!\w)/ ~ !NAME_END
 
 optional    = "?"
 
@@ -205,7 +205,7 @@ object     = "{" [ association { "," association } ] [","] "}"
 
 basic_type   = /(?:object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\w)/ ~
 
-_export      = &/export(?!\w)/ "export"
+_export      = &/export(?!\w)/ "export" !NAME_END
 _declare     = &/declare(?!\w)/ "declare"
 _interface   = &/interface(?!\w)/ "interface"
 _class       = &/class(?!\w)/ "class"
@@ -217,9 +217,9 @@ _const       = &/const(?!\w)/ "const"
 _namespace_  = &/namespace(?!\w)/ "namespace"
 _module      = &/module(?!\w)/ "module"
 _import      = &/import(?!\w)/ "import"
-_function    = &/function(?!\w)/ "function"
-_let         = &/let(?!\w)/ "let" !/[?:;,(}]/
-_var         = &/var(?!\w)/ "var" !/[?:;,(}]/
+_function    = &/function(?!\w)/ "function" !NAME_END
+_let         = &/let(?!\w)/ "let" !NAME_END
+_var         = &/var(?!\w)/ "var" !NAME_END
 _readonly    = &/readonly(?!\w)/ "readonly"
 _in          = &/in(?!\w)/ "in"
 
@@ -240,4 +240,5 @@ FRAC        = [ DOT /[0-9]+/ ]
 DOT         = `.`
 EXP         = [ (`E`|`e`) [`+`|`-`] /[0-9]+/ ]
 
+NAME_END   = /[?:;,(}=<]/   # whatever precedes this, is not a keyword, but a name
 EOF        =  !/./        # no more characters ahead, end of file reached
diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5547c15..ba2ceb7 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -138,9 +138,9 @@ class ts2pythonGrammar(Grammar):
     literal = Forward()
     type = Forward()
     types = Forward()
-    source_hash__ = "afe5e16b518369a415be14b63c627bcc"
+    source_hash__ = "3596bcb52f139bbe183d317c9edc1dd2"
     early_tree_reduction__ = CombinedParser.MERGE_TREETOPS
-    disposable__ = re.compile('(?:_enum$|_namespace_$|_import$|FRAC$|_implements$|_top_level_assignment$|_export$|_interface$|_extends$|_type$|_let$|INT$|_quoted_identifier$|_array_ellipsis$|NEG$|_declare$|_class$|_readonly$|_var$|_function$|_const$|_module$|EXP$|_top_level_literal$|_namespace$|EOF$|DOT$|_part$|_in$)')
+    disposable__ = re.compile('(?:_implements$|NEG$|_namespace_$|_export$|_extends$|_enum$|_readonly$|_declare$|DOT$|_let$|_var$|_array_ellipsis$|_class$|_namespace$|_const$|_function$|_top_level_literal$|FRAC$|_import$|_module$|_in$|_top_level_assignment$|EOF$|INT$|_part$|_quoted_identifier$|_type$|EXP$|_interface$)')
     static_analysis_pending__ = []  # type: List[bool]
     parser_initialization__ = ["upon instantiation"]
     COMMENT__ = r'(?://.*)\n?|(?:/\*(?:.|\n)*?\*/) *\n?'
@@ -150,6 +150,7 @@ class ts2pythonGrammar(Grammar):
     wsp__ = Whitespace(WSP_RE__)
     dwsp__ = Drop(Whitespace(WSP_RE__, keep_comments=True))
     EOF = Drop(SmartRE(f'(?!.)', '!/./'))
+    NAME_END = RegExp('[?:;,(}=<]')
     EXP = Option(SmartRE(f'(?P<:Text>E|e)(?:(?P<:Text>\\+|\\-)?)([0-9]+)', '`E`|`e` [`+`|`-`] /[0-9]+/'))
     DOT = Text(".")
     FRAC = Option(Series(DOT, RegExp('[0-9]+')))
@@ -162,9 +163,9 @@ class ts2pythonGrammar(Grammar):
     variable = Synonym(name)
     _in = SmartRE(f'(?=in(?!\\w))(?:in)(?P<comment__>{WSP_RE__})', '&/in(?!\\w)/ "in"')
     _readonly = SmartRE(f'(?=readonly(?!\\w))(?:readonly)(?P<comment__>{WSP_RE__})', '&/readonly(?!\\w)/ "readonly"')
-    _var = SmartRE(f'(?=var(?!\\w))(?:var)(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '&/var(?!\\w)/ "var" !/[?:;,(}]/')
-    _let = SmartRE(f'(?=let(?!\\w))(?:let)(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '&/let(?!\\w)/ "let" !/[?:;,(}]/')
-    _function = SmartRE(f'(?=function(?!\\w))(?:function)(?P<comment__>{WSP_RE__})', '&/function(?!\\w)/ "function"')
+    _var = Series(SmartRE(f'(?=var(?!\\w))', '&/var(?!\\w)/'), Series(Drop(Text("var")), dwsp__), NegativeLookahead(NAME_END))
+    _let = Series(SmartRE(f'(?=let(?!\\w))', '&/let(?!\\w)/'), Series(Drop(Text("let")), dwsp__), NegativeLookahead(NAME_END))
+    _function = Series(SmartRE(f'(?=function(?!\\w))', '&/function(?!\\w)/'), Series(Drop(Text("function")), dwsp__), NegativeLookahead(NAME_END))
     _import = SmartRE(f'(?=import(?!\\w))(?:import)(?P<comment__>{WSP_RE__})', '&/import(?!\\w)/ "import"')
     _module = SmartRE(f'(?=module(?!\\w))(?:module)(?P<comment__>{WSP_RE__})', '&/module(?!\\w)/ "module"')
     _namespace_ = SmartRE(f'(?=namespace(?!\\w))(?:namespace)(?P<comment__>{WSP_RE__})', '&/namespace(?!\\w)/ "namespace"')
@@ -176,7 +177,7 @@ class ts2pythonGrammar(Grammar):
     _class = SmartRE(f'(?=class(?!\\w))(?:class)(?P<comment__>{WSP_RE__})', '&/class(?!\\w)/ "class"')
     _interface = SmartRE(f'(?=interface(?!\\w))(?:interface)(?P<comment__>{WSP_RE__})', '&/interface(?!\\w)/ "interface"')
     _declare = SmartRE(f'(?=declare(?!\\w))(?:declare)(?P<comment__>{WSP_RE__})', '&/declare(?!\\w)/ "declare"')
-    _export = SmartRE(f'(?=export(?!\\w))(?:export)(?P<comment__>{WSP_RE__})', '&/export(?!\\w)/ "export"')
+    _export = Series(SmartRE(f'(?=export(?!\\w))', '&/export(?!\\w)/'), Series(Drop(Text("export")), dwsp__), NegativeLookahead(NAME_END))
     basic_type = SmartRE(f'((?:object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w))(?P<comment__>{WSP_RE__})', '/(?:object|array|string|number|boolean|null|integer|uinteger|decimal|unknown|any|void)(?!\\w)/ ~')
     key = Alternative(identifier, Series(Series(Drop(Text('"')), dwsp__), identifier, Series(Drop(Text('"')), dwsp__)))
     association = Series(key, Series(Drop(Text(":")), dwsp__), literal, mandatory=1)
@@ -195,7 +196,7 @@ class ts2pythonGrammar(Grammar):
     item = Series(_quoted_identifier, Option(Series(Series(Drop(Text("=")), dwsp__), literal)))
     enum = Series(Option(_export), _enum, identifier, Series(Drop(Text("{")), dwsp__), item, ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), item)), Option(Series(Drop(Text(",")), dwsp__)), Series(Drop(Text("}")), dwsp__), mandatory=3)
     keyof = SmartRE(f'(keyof(?!\\w))(?P<comment__>{WSP_RE__})', '/keyof(?!\\w)/ ~')
-    readonly = SmartRE(f'(readonly(?!\\w))(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '/readonly(?!\\w)/ ~ !/[?:;,(}]/')
+    readonly = Series(RegExp('readonly(?!\\w)'), dwsp__, NegativeLookahead(NAME_END))
     optional = Series(Text("?"), dwsp__)
     func_type = Series(Option(Series(Drop(Text("new")), dwsp__)), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Series(Drop(Text("=>")), dwsp__), types)
     extends = Series(Alternative(_extends, _implements), Alternative(generic_type, type_name), ZeroOrMore(Series(Series(Drop(Text(",")), dwsp__), Alternative(generic_type, type_name))))
@@ -220,7 +221,7 @@ class ts2pythonGrammar(Grammar):
     alias = Synonym(identifier)
     namespace = Series(Option(_export), _namespace_, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(Option(_export), declaration, Series(Drop(Text(";")), dwsp__)), Series(Option(_export), function, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__), mandatory=2)
     virtual_enum = Series(Option(_export), _namespace_, identifier, Series(Drop(Text("{")), dwsp__), ZeroOrMore(Alternative(interface, type_alias, enum, const, Series(declaration, Series(Drop(Text(";")), dwsp__)))), Series(Drop(Text("}")), dwsp__))
-    static = SmartRE(f'(static(?!\\w))(?P<comment__>{WSP_RE__})(?![?:;,(}}])', '/static(?!\\w)/ ~ !/[?:;,(}]/')
+    static = Series(RegExp('static(?!\\w)'), dwsp__, NegativeLookahead(NAME_END))
     _namespace = Alternative(virtual_enum, namespace)
     qualifiers = Interleave(readonly, static, repetitions=[(0, 1), (0, 1)])
     special = Series(Series(Drop(Text("[")), dwsp__), name, Series(Drop(Text("]")), dwsp__), Series(Drop(Text("(")), dwsp__), Option(arg_list), Series(Drop(Text(")")), dwsp__), Option(Series(Series(Drop(Text(":")), dwsp__), types)), mandatory=4)
@@ -1379,7 +1380,7 @@ class ts2pythonCompiler(Compiler):
         unknown_types = set(tn.content for tn in node.select('type_name')
                             if not self.is_known_type(tn.content))
         type_expression = self.compile(type_node)
-        if unknown_types:
+        if unknown_types and not RX_CLASS_CODE.match(type_expression):
             # quote unknown types, but leave string literals and comments untouched
             names = '|'.join(re.escape(typ) for typ in
                              sorted(unknown_types, key=lambda typ: (-len(typ), typ)))
-- 
2.43.0


From 4ac75846defdfe6440a96f1c2aa342e9906311c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 29/61] fix: unions with repeated alternatives under
 UseLiteralType, the empty tuple as type

The alternatives were deduplicated, but then matched by index with the
nodes, so that the transpiler raised an IndexError or rendered types as
literals; a single-quoted string was confused with a type of that name;
`[]` became Literal[[]].
---
 ts2pythonParser.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ba2ceb7..2930c15 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1065,8 +1065,13 @@ class ts2pythonCompiler(Compiler):
         else:
             return preface + f"Union[{', '.join(union)}]"
 
+    def is_literal_type(self, type_node) -> bool:
+        return type_node[0].name == 'literal' \
+            and type_node[0][0].name not in ('array', 'object')
+
     def on_types(self, node) -> str:
         union = []
+        literal = []  # for each item of union: is this item a literal?
         i = 0
 
         obj_name_stub = self.obj_name[-1]
@@ -1081,8 +1086,10 @@ class ts2pythonCompiler(Compiler):
             self.func_name = ""
             typ = self.compile_type_expression(node, nd)
             self.func_name = save
-            if typ not in union:
+            is_literal = self.use_literal_type and self.is_literal_type(nd)
+            if (typ, is_literal) not in zip(union, literal):
                 union.append(typ)
+                literal.append(is_literal)
                 i += 1
             self.obj_name[-1] = obj_name_stub
         for i in range(len(union)):
@@ -1093,21 +1100,20 @@ class ts2pythonCompiler(Compiler):
             preface = self.render_local_classes()
         else:
             preface = ''
-        if self.use_literal_type and \
-                any(nd[0].name == 'literal' for nd in node.children):
-            if all(nd[0].name == 'literal' for nd in node.children):
+        if any(literal):
+            if all(literal):
                 return f"Literal[{', '.join(typ for typ in union)}]"
                 # return f"Literal[{', '.join(nd.content for nd in node.children)}]"
             new_union = []
             literal_package = []
-            for i, nd in enumerate(node.children):
-                if nd[0].name == 'literal':
-                    literal_package.append(union[i])
+            for typ, is_literal in zip(union, literal):
+                if is_literal:
+                    literal_package.append(typ)
                 else:
                     if literal_package:
                         new_union.append(f"Literal[{', '.join(l for l in literal_package)}]")
                         literal_package = []
-                    new_union.append(union[i])
+                    new_union.append(typ)
             if literal_package:
                 new_union.append(f"Literal[{', '.join(l for l in literal_package)}]")
             return self.render_union(preface, new_union)
@@ -1142,12 +1148,12 @@ class ts2pythonCompiler(Compiler):
             return result
         elif typ.name == 'literal':
             literal_typ = typ[0].name
-            if self.use_literal_type:
-                return self.compile(typ)
-            elif literal_typ == 'array':
+            if literal_typ == 'array':
                 return 'List'
             elif literal_typ == 'object':
                 return 'Dict'
+            elif self.use_literal_type:
+                return self.compile(typ)
             elif literal_typ in ('number', 'integer'):
                 literal = self.compile(typ)
                 try:
-- 
2.43.0


From 3d1fc24df8751a56e9db121ece0fd492e99fef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:13 +0000
Subject: [PATCH 30/61] fix: report escape characters in the source instead of
 failing with an assertion

---
 ts2pythonParser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 2930c15..7bd5c39 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -104,7 +104,11 @@ RE_COMMENT = '(?:\\/\\/.*)|(?:\\/\\*(?:.|\\n)*?\\*\\/)'
 def ts2pythonTokenizer(original_text) -> Tuple[str, List[Error]]:
     # Here, a function body can be filled in that adds preprocessor tokens
     # to the source code and returns the modified source.
-    return original_text, []
+
+    # The escape character is reserved by DHParser as delimiter of preprocessor tokens
+    errors = [Error("Illegal control character '\\x1b'", m.start())
+              for m in re.finditer('\x1b', original_text)]
+    return original_text.replace('\x1b', ' '), errors
 
 # def preprocessor_factory() -> PreprocessorFunc:
 #     # below, the second parameter must always be the same as ts2pythonGrammar.COMMENT__!
-- 
2.43.0


From df0344ef31dbcdfed4f921aefc5a95073b8a649e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:08 +0000
Subject: [PATCH 31/61] fix: an invalid configuration left the compiler in a
 state that was not reset on the next run

The exception was raised after the compiler had been marked as reset, so
that the following document was compiled with settings and types of
earlier documents.
---
 ts2pythonParser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7bd5c39..fa3ff1b 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -545,6 +545,14 @@ class ts2pythonCompiler(Compiler):
     """
 
     def reset(self):
+        # check the configuration, first, so that, if it is erroneous, the
+        # compiler will still be considered as in need of being reset
+        self.render_anonymous = get_config_value('ts2python.RenderAnonymous', 'local')
+        if self.render_anonymous not in ('type', 'functional', 'local', 'toplevel'):
+            raise ValueError(
+                f'Illegal value "{self.render_anonymous}" for '
+                f'ts2python.RenderAnonymous. Must be one of "type", '
+                f'"functional", "local", "toplevel".')
         super().reset()
         bcn = get_config_value('ts2python.BaseClassName', 'TypedDict')
         i = bcn.rfind('.')
@@ -554,13 +562,7 @@ class ts2pythonCompiler(Compiler):
         else:
             self.additional_imports = ''
         self.base_class_name = bcn
-        self.render_anonymous = get_config_value('ts2python.RenderAnonymous', 'local')
         self.class_decorator = get_config_value('ts2python.ClassDecorator', '').strip()
-        if self.render_anonymous not in ('type', 'functional', 'local', 'toplevel'):
-            raise ValueError(
-                f'Illegal value "{self.render_anonymous}" for '
-                f'ts2python.RenderAnonymous. Must be one of "type", '
-                f'"functional", "local", "toplevel".')
         if self.class_decorator:
             if self.class_decorator[0] != '@':
                 self.class_decorator = '@' + self.class_decorator
-- 
2.43.0


From fd1c02924d3736c954566ff99f9ad9362739ee84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 32/61] fix: an exception within the reset of the compiler left
 it in a state that was not reset on the next run

---
 ts2pythonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index fa3ff1b..a92fc13 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -545,15 +545,12 @@ class ts2pythonCompiler(Compiler):
     """
 
     def reset(self):
-        # check the configuration, first, so that, if it is erroneous, the
-        # compiler will still be considered as in need of being reset
         self.render_anonymous = get_config_value('ts2python.RenderAnonymous', 'local')
         if self.render_anonymous not in ('type', 'functional', 'local', 'toplevel'):
             raise ValueError(
                 f'Illegal value "{self.render_anonymous}" for '
                 f'ts2python.RenderAnonymous. Must be one of "type", '
                 f'"functional", "local", "toplevel".')
-        super().reset()
         bcn = get_config_value('ts2python.BaseClassName', 'TypedDict')
         i = bcn.rfind('.')
         if i >= 0:
@@ -594,6 +591,9 @@ class ts2pythonCompiler(Compiler):
         self.optional_keys: List[List[str]] = [[]]
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
+        # mark the compiler as reset, last, so that, if anything fails or is
+        # interrupted before, it will still be considered as in need of being reset
+        super().reset()
 
 
     def compile(self, node) -> str:
-- 
2.43.0


From cc55a329b966f8245b42aac45fca8d3cb027222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 33/61] fix: truncated results that end with a comment like the
 end mark were considered complete

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index a92fc13..9181de3 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1517,7 +1517,7 @@ def process_file(source: str, result_filename: str = '') -> str:
             with open(source_filename, 'r', encoding='utf-8') as f:
                 source_text = f.read()
         m = re.search(r'source_hash__ *= *"([\w.!? ]*)"', result)
-        if m and m.groups()[-1] == source_hash(source_text) and result.endswith(END_MARK + '\n'):
+        if m and m.groups()[-1] == source_hash(source_text) and result.endswith('\n' + END_MARK + '\n'):
             # no re-compilation necessary, because source hasn't changed
             return next((name for name in message_files if os.path.isfile(name)), '')
     result, errors = compile_src(source)
-- 
2.43.0


From 59159aa28c30430c671d2f9e8ab7e839c230b6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:55 +0000
Subject: [PATCH 34/61] fix: batch processing named the generated Python
 modules *.sxpr

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9181de3..f0ee4c9 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1469,7 +1469,7 @@ serializations = expand_table(dict([('*', ['sxpr'])]))
 #
 #######################################################################
 
-RESULT_FILE_EXTENSION = ".sxpr"  # Change this according to your needs!
+RESULT_FILE_EXTENSION = ".py"  # Change this according to your needs!
 
 
 def compile_src(source: str, target: str = "py") -> Tuple[Any, List[Error]]:
-- 
2.43.0


From b12a76c8251c08502854e27c70554d3f40df19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:54 +0000
Subject: [PATCH 35/61] fix: the output directory was ignored if given as
 --out=DIR or -oDIR

---
 ts2pythonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f0ee4c9..7322873 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1668,7 +1668,7 @@ def main():
     parser.add_argument('files', nargs='+')
     parser.add_argument('-D', '--debug', action='store_const', const='debug',
                         help='Store debug information in LOGS subdirectory')
-    parser.add_argument('-o', '--out', nargs=1, default=['out'],
+    parser.add_argument('-o', '--out', nargs=1,
                         help='Output directory for batch processing')
     parser.add_argument('-v', '--verbose', action='store_const', const='verbose',
                         help='Verbose output')
@@ -1689,7 +1689,7 @@ def main():
                         help="Preserve (multiline) comments")
 
     args = parser.parse_args()
-    file_names, out, log_dir = args.files, args.out[0], ''
+    file_names, out, log_dir = args.files, args.out[0] if args.out else 'out', ''
 
     workdir = file_names[0] if os.path.isdir(file_names[0]) else os.path.dirname(file_names[0])
     from DHParser.configuration import read_local_config
@@ -1764,7 +1764,7 @@ def main():
             echo('Processing all files in directory: ' + dir_name)
             file_names = [os.path.join(dir_name, fn) for fn in os.listdir(dir_name)
                           if os.path.isfile(os.path.join(dir_name, fn))]
-        elif not ('-o' in sys.argv or '--out' in sys.argv):
+        elif not args.out:
             batch_processing = False
 
     if batch_processing:
-- 
2.43.0


From 0789e58e244d26399cf2afaf9d15758fb23cefce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 36/61] fix: type-checked functions took the types of forward
 references from other modules

---
 ts2python/json_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 215a4c1..19d542d 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -329,7 +329,9 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         match the annotated types.
     """
     signature = inspect.signature(func)
-    arg_types = get_type_hints(func)
+    # (with separate locals, values that identical annotations of other
+    # modules have been resolved to will not be taken from typing's cache)
+    arg_types = get_type_hints(func, localns={})
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
     assert arg_types or return_type, \
-- 
2.43.0


From ef1e8d44787e66a4708e62d70e8613d076f3a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 37/61] fix: optional keys were required if annotated with a
 string within a string

---
 ts2python/typeddict_shim.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 220a7c9..0784cf2 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -142,7 +142,8 @@ def _caller(depth=1, default='__main__'):
 def _expr_allows_absence(node: ast.AST) -> bool:
     """Like _allows_absence(), but for the syntax tree of a type expression."""
     if isinstance(node, ast.Constant):
-        return node.value is None
+        return node.value is None or (isinstance(node.value, str)
+                                      and _str_allows_absence(node.value))
     if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
         return _expr_allows_absence(node.left) or _expr_allows_absence(node.right)
     if isinstance(node, ast.Subscript):
@@ -156,6 +157,13 @@ def _expr_allows_absence(node: ast.AST) -> bool:
     return False
 
 
+def _str_allows_absence(type_expression: str) -> bool:
+    try:
+        return _expr_allows_absence(ast.parse(type_expression.strip(), mode='eval').body)
+    except SyntaxError:
+        return False
+
+
 def _allows_absence(field_type) -> bool:
     """Returns True, if the field type is NotRequired, Optional or any other
     union with None, or a forward reference to a type expression like that."""
@@ -165,11 +173,7 @@ def _allows_absence(field_type) -> bool:
     if origin in _UNION_TYPES:
         return any(_allows_absence(arg) for arg in field_type.__args__)
     if isinstance(field_type, ForwardRef):
-        try:
-            return _expr_allows_absence(
-                ast.parse(field_type.__forward_arg__.strip(), mode='eval').body)
-        except SyntaxError:
-            return False
+        return _str_allows_absence(field_type.__forward_arg__)
     return False
 
 
-- 
2.43.0


From 51ca532a60e24cffa6c03665bfa4e479128c61e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 38/61] fix: overloaded functions were registered for types of
 other modules with equal annotations

---
 ts2python/singledispatch_shim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 8fb2d07..605a889 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -44,6 +44,13 @@ except ImportError:
 # forward-referenced-types.
 
 
+def type_hints(func):
+    """Like `get_type_hints()`, but never returns types of other modules that
+    typing has cached along with annotations that are shared between modules,
+    as, for example, `Union['A', 'B']`."""
+    return get_type_hints(func, localns={})
+
+
 def singledispatch(func):
     """Single-dispatch generic function decorator.
 
@@ -75,7 +82,7 @@ def singledispatch(func):
             for entry in tuple(postponed):
                 nr, f = entry
                 try:
-                    argname, cls = next(iter(get_type_hints(f).items()))
+                    argname, cls = next(iter(type_hints(f).items()))
                 except NameError as e:
                     name_error = name_error or e
                     continue
@@ -183,7 +190,7 @@ def singledispatch(func):
                 )
             func = cls
             try:
-                argname, cls = next(iter(get_type_hints(func).items()))
+                argname, cls = next(iter(type_hints(func).items()))
                 classes = dispatch_types(argname, cls)
             except (NameError, TypeError):
                 # forward reference: try again, when the function is called
-- 
2.43.0


From dd92f00b1eb5f4c992b3fdb9233645b3c5ea513e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 39/61] fix: concurrent first uses of types of different
 modules with equal annotations could mix up these types

---
 ts2python/json_validation.py     | 14 ++++++--------
 ts2python/singledispatch_shim.py | 21 +++++++++++----------
 ts2python/typeddict_shim.py      | 16 +++++++++++++++-
 3 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/ts2python/json_validation.py b/ts2python/json_validation.py
index 19d542d..4c8146a 100644
--- a/ts2python/json_validation.py
+++ b/ts2python/json_validation.py
@@ -24,7 +24,7 @@ import functools
 import inspect
 import sys
 from typing import Union, List, Tuple, Dict, Set, Any, \
-    TypeVar, Iterable, Callable, get_type_hints
+    TypeVar, Iterable, Callable
 try:
     from typing_extensions import GenericMeta, \
         ClassVar, Final, Protocol, NoReturn, Literal
@@ -34,14 +34,14 @@ except (ImportError, ModuleNotFoundError):
 
 try:
     from ts2python.typeddict_shim import TypedDict, _TypedDictMeta, get_origin, \
-        get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired
+        get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired, type_hints
 except (ImportError, ModuleNotFoundError):
     try:
         from typeddict_shim import TypedDict, _TypedDictMeta, get_origin, \
-            get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired
+            get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired, type_hints
     except (ImportError, ModuleNotFoundError):
         from .typeddict_shim import TypedDict, _TypedDictMeta, get_origin, \
-            get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired
+            get_args, ForwardRef, _GenericAlias, is_typeddict, NotRequired, type_hints
 
 if sys.version_info >= (3, 11):
     from typing import _GenericAlias, TypedDict, _TypedDictMeta, get_origin, get_args, ForwardRef
@@ -257,7 +257,7 @@ def validate_TypedDict(D: Dict, T: _TypedDictMeta):
     unexpected = D.keys() - (T.__required_keys__ | T.__optional_keys__)
     if unexpected:
         type_errors.append(f"Unexpected keys: {unexpected}")
-    for field, field_type in get_type_hints(T).items():
+    for field, field_type in type_hints(T).items():
         if field not in D:
             continue
         field_type = resolve_forward_refs(field_type, T)
@@ -329,9 +329,7 @@ def type_check(func: Callable, check_return_type: bool = True) -> Callable:
         match the annotated types.
     """
     signature = inspect.signature(func)
-    # (with separate locals, values that identical annotations of other
-    # modules have been resolved to will not be taken from typing's cache)
-    arg_types = get_type_hints(func, localns={})
+    arg_types = type_hints(func)
     return_type = arg_types.get('return', None)
     if return_type is not None:  del arg_types['return']
     assert arg_types or return_type, \
diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 605a889..f818d7a 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -30,12 +30,20 @@ permissions and limitations under the License.
 from functools import _find_impl, get_cache_token, update_wrapper
 from typing import Union
 try:
-    from typing import get_args, get_origin, get_type_hints
+    from typing import get_args, get_origin
 except ImportError:
     try:
-        from typing_extensions import get_args, get_origin, get_type_hints
+        from typing_extensions import get_args, get_origin
     except ImportError:
-        from .typing_extensions import get_args, get_origin, get_type_hints
+        from .typing_extensions import get_args, get_origin
+
+try:
+    from ts2python.typeddict_shim import type_hints
+except (ImportError, ModuleNotFoundError):
+    try:
+        from typeddict_shim import type_hints
+    except (ImportError, ModuleNotFoundError):
+        from .typeddict_shim import type_hints
 
 
 # The following functions have been copied from the Python
@@ -44,13 +52,6 @@ except ImportError:
 # forward-referenced-types.
 
 
-def type_hints(func):
-    """Like `get_type_hints()`, but never returns types of other modules that
-    typing has cached along with annotations that are shared between modules,
-    as, for example, `Union['A', 'B']`."""
-    return get_type_hints(func, localns={})
-
-
 def singledispatch(func):
     """Single-dispatch generic function decorator.
 
diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index 0784cf2..c07ee48 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -33,7 +33,8 @@ permissions and limitations under the License.
 
 import ast
 import sys
-from typing import Generic, Optional, Union, Any, TypeVar
+import threading
+from typing import Generic, Optional, Union, Any, TypeVar, get_type_hints
 
 try:
     from typing_extensions import GenericMeta, \
@@ -81,6 +82,19 @@ __all__ = ['NotRequired', 'TypedDict', 'GenericTypedDict', '_TypedDictMeta',
            'GenericMeta', 'get_origin', 'Literal', 'is_typeddict']
 
 
+_type_hints_lock = threading.RLock()
+
+
+def type_hints(obj) -> dict:
+    """Like `typing.get_type_hints()`, but safe to use with annotations like
+    `Union['A', 'B']` or `List['A']`: typing caches these objects so that
+    different modules share them including the forward references therein,
+    in which typing also stores the type that has been found last."""
+    with _type_hints_lock:
+        return get_type_hints(obj) if isinstance(obj, type) \
+            else get_type_hints(obj, localns={})
+
+
 # The following functions have been copied from the Python
 # standard libraries typing-module. They have been adapted
 # to support a more flexible version of TypedDict
-- 
2.43.0


From 5a733a97f7bf506345cd904b72b1f53eccdcc7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 40/61] fix: overloads after a call signature were not
 recognized

---
 ts2pythonParser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7322873..7806e07 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -888,7 +888,9 @@ class ts2pythonCompiler(Compiler):
         first_use: Dict[str, Node] = dict()
         try:
             for func_decl in as_list(scope['function']):
-                name = func_decl['identifier'].content
+                # call signatures do not have a name
+                name = func_decl['identifier'].content \
+                    if 'identifier' in func_decl else '__call__'
                 if keyword.iskeyword(name):
                     name += '_'
                 if name in first_use:
-- 
2.43.0


From 05da3d1b5019503bbd2ae4eb059073af984fa702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 41/61] fix: arguments with the name self collided with the
 first argument of methods

---
 ts2pythonParser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7806e07..711996d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1008,8 +1008,13 @@ class ts2pythonCompiler(Compiler):
             return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) for arg in arg_list)
         return ', '.join(self.compile(nd) for nd in node.children)
 
+    def argument_name(self, node) -> str:
+        name = self.compile(node["identifier"])
+        # the first argument of any method is already called "self"
+        return 'self_' if name == 'self' and self.scope_type[-1] == 'interface' else name
+
     def on_arg_tail(self, node):
-        argname = self.compile(node["identifier"])
+        argname = self.argument_name(node)
         if node[-1].name in ('array_of', 'generic_type'):
             self.obj_name.append(to_typename(argname))
             type = self.compile_type_expression(node, node[-1])
@@ -1019,7 +1024,7 @@ class ts2pythonCompiler(Compiler):
         return '*' + argname
 
     def on_argument(self, node) -> str:
-        argname = self.compile(node["identifier"])
+        argname = self.argument_name(node)
         if 'types' in node:
             self.obj_name.append(to_typename(argname))
             types = self.compile_type_expression(node, node['types'])
-- 
2.43.0


From e5a67c1b660d1559ac39acbddd174b2a1acbcb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:47 +0000
Subject: [PATCH 42/61] fix: arguments without type were confused with other
 types in overloads and function types

---
 ts2pythonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 711996d..eb97978 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1033,7 +1033,7 @@ class ts2pythonCompiler(Compiler):
                 types = f'Optional[{types}] = None'
             return f'{argname}: {types}'
         else:
-            return f'{argname} = None' if 'optional' in node else argname
+            return f'{argname}: Any = None' if 'optional' in node else f'{argname}: Any'
 
     def on_optional(self, node):
         assert False, "This method should never have been called!"
-- 
2.43.0


From bf145b6bf4b6a29c925af34ee797f27fa3394185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 43/61] fix: methods of anonymous interfaces outside of
 interfaces lacked the argument self

---
 ts2pythonParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index eb97978..9184216 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1087,7 +1087,7 @@ class ts2pythonCompiler(Compiler):
         literal = []  # for each item of union: is this item a literal?
         i = 0
 
-        obj_name_stub = self.obj_name[-1]
+        save_obj_name = obj_name_stub = self.obj_name[-1]
         fname = self.func_name[:1].upper() + self.func_name[1:]
         for nd in node.children:
             n = obj_name_stub.rfind('_')
@@ -1104,7 +1104,7 @@ class ts2pythonCompiler(Compiler):
                 union.append(typ)
                 literal.append(is_literal)
                 i += 1
-            self.obj_name[-1] = obj_name_stub
+            self.obj_name[-1] = save_obj_name
         for i in range(len(union)):
             typ = union[i]
             if RX_CLASS_CODE.match(typ):
@@ -1152,12 +1152,14 @@ class ts2pythonCompiler(Compiler):
         assert len(node.children) == 1
         typ = node[0]
         if typ.name in ('declarations_block', 'declarations_tuple'):
+            self.scope_type.append('interface')
             self.local_classes.append([])
             self.optional_keys.append([])
             decls = self.compile(typ)
             result = self.render_declarations(decls)
             self.optional_keys.pop()
             self.local_classes.pop()
+            self.scope_type.pop()
             return result
         elif typ.name == 'literal':
             literal_typ = typ[0].name
-- 
2.43.0


From fc1a3e194efd59cd821bc30902a48ebb8078196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 44/61] fix: anonymous interfaces with methods crashed the
 functional rendering

---
 ts2pythonParser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9184216..7cba9d9 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1133,7 +1133,7 @@ class ts2pythonCompiler(Compiler):
         else:
             return self.render_union(preface, union)
 
-    def render_declarations(self, decls) -> str:
+    def render_declarations(self, decls: str, has_methods: bool = False) -> str:
         if self.base_class_name != "TypedDict" or self.render_anonymous == "local":
             return ''.join([self.render_class_header(self.obj_name[-1], '') + "    ",
                             self.render_local_classes().replace('\n', '\n    '),
@@ -1142,6 +1142,11 @@ class ts2pythonCompiler(Compiler):
             return ''.join([self.render_local_classes(),
                             self.render_class_header('_'.join(self.obj_name[1:]), '') + "    ",
                             decls.replace('\n', '\n    ')])
+        elif self.render_anonymous == "functional" and has_methods:
+            # methods cannot be rendered with the functional syntax
+            return ''.join([self.render_class_header('_'.join(self.obj_name[1:]), '') + "    ",
+                            self.render_local_classes().replace('\n', '\n    '),
+                            decls.replace('\n', '\n    ')])
         elif self.render_anonymous == "functional":
             return f'TypedDict("{self.obj_name[-1]}", {to_dict(decls)})'
         else:
@@ -1156,9 +1161,12 @@ class ts2pythonCompiler(Compiler):
             self.local_classes.append([])
             self.optional_keys.append([])
             decls = self.compile(typ)
-            result = self.render_declarations(decls)
+            result = self.render_declarations(decls, 'function' in typ)
             self.optional_keys.pop()
-            self.local_classes.pop()
+            local_classes = self.local_classes.pop()
+            if result.startswith('TypedDict('):
+                # the functional syntax leaves no room for local classes
+                self.local_classes[-1].extend(local_classes)
             self.scope_type.pop()
             return result
         elif typ.name == 'literal':
-- 
2.43.0


From 82159fcd14dafcbc8d98b759c4620530579b1555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 45/61] fix: overloads with TypedDict types could neither be
 selected nor let others be selected for subclasses

---
 ts2python/singledispatch_shim.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index f818d7a..28f043b 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -52,6 +52,16 @@ except (ImportError, ModuleNotFoundError):
 # forward-referenced-types.
 
 
+def runtime_class(cls):
+    """Returns the class that values of the given class have at runtime. The
+    values of a TypedDict are plain dictionaries. (Other than that, TypedDicts
+    must not show up in the registry, because they reject subclass-checks.)"""
+    if isinstance(cls, type) and get_origin(cls) is None \
+            and hasattr(cls, '__total__') and issubclass(cls, dict):
+        return dict
+    return cls
+
+
 def singledispatch(func):
     """Single-dispatch generic function decorator.
 
@@ -157,7 +167,7 @@ def singledispatch(func):
         """Enters an implementation for the given classes, unless there is
         an implementation that has been registered later."""
         nonlocal cache_token
-        for cls in classes:
+        for cls in (runtime_class(c) for c in classes):
             if origin.get(cls, -1) < nr:
                 registry[cls] = func
                 origin[cls] = nr
-- 
2.43.0


From adb3c11b41a69debdfdcfd1285c42b5cd4008c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 46/61] fix: overloads with a first argument of any type could
 not be selected

---
 ts2python/singledispatch_shim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index 28f043b..b4ac23e 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -28,7 +28,7 @@ permissions and limitations under the License.
 
 
 from functools import _find_impl, get_cache_token, update_wrapper
-from typing import Union
+from typing import Any, Union
 try:
     from typing import get_args, get_origin
 except ImportError:
@@ -55,7 +55,10 @@ except (ImportError, ModuleNotFoundError):
 def runtime_class(cls):
     """Returns the class that values of the given class have at runtime. The
     values of a TypedDict are plain dictionaries. (Other than that, TypedDicts
-    must not show up in the registry, because they reject subclass-checks.)"""
+    must not show up in the registry, because they reject subclass-checks.)
+    "Any" admits objects of any class."""
+    if cls is Any:
+        return object
     if isinstance(cls, type) and get_origin(cls) is None \
             and hasattr(cls, '__total__') and issubclass(cls, dict):
         return dict
@@ -148,8 +151,8 @@ def singledispatch(func):
         """Returns the classes to which an annotation refers. Parameterized
         types like List[int] can only be distinguished by their origin."""
         alternatives = get_args(cls) if _is_union_type(cls) else (cls,)
-        classes = tuple(alt if isinstance(alt, type) and get_origin(alt) is None
-                        else get_origin(alt) for alt in alternatives)
+        classes = tuple(alt if get_origin(alt) is None else get_origin(alt)
+                        for alt in map(runtime_class, alternatives))
         if not all(isinstance(c, type) for c in classes):
             if _is_union_type(cls):
                 raise TypeError(
-- 
2.43.0


From 6ed652cd1327ad42bb4b499796d2cc88476145f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 47/61] fix: type variables of generics inside of interfaces
 and namespaces were not visible in the anonymous interfaces within

---
 ts2pythonParser.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 7cba9d9..9ca5a95 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -588,6 +588,7 @@ class ts2pythonCompiler(Compiler):
         self.string_aliases: Set[str] = set()  # aliases that are strings at runtime
         self.obj_name: List[str] = ['TOPLEVEL_']
         self.scope_type: List[str] = ['']
+        self.nested_type_vars: Dict[str, str] = {}  # yet to be defined on module-level
         self.optional_keys: List[List[str]] = [[]]
         self.func_name: str = ''  # name of the current functions header or ''
         self.strip_type_from_const = False
@@ -653,7 +654,7 @@ class ts2pythonCompiler(Compiler):
             #     code_blocks.append(PEP655_IMPORTS)
         else:
             code_blocks = []
-        code_blocks.append(python_code)
+        code_blocks.append(self.render_nested_type_vars() + python_code)
         if self.tree.name == 'root':
             code_blocks.append(f'\n{END_MARK}\n')
         cooked = '\n\n'.join(code_blocks)
@@ -697,8 +698,14 @@ class ts2pythonCompiler(Compiler):
                 'be transpiled for now.', NOT_YET_IMPLEMENTED_WARNING)
             return self.compile(node['module'][0]['document'])
         self.mark_overloaded_functions(node)
-        return '\n\n'.join(self.compile(child) for child in node.children
-                           if child.name not in ('declaration', 'assignment', 'literal'))
+        code_blocks = []
+        for child in node.children:
+            if child.name not in ('declaration', 'assignment', 'literal'):
+                code = self.compile(child)
+                if self.scope_type == ['']:
+                    code = self.render_nested_type_vars() + code
+                code_blocks.append(code)
+        return '\n\n'.join(code_blocks)
 
     def on_module(self, node) -> str:
         name = self.compile(node['identifier'])
@@ -766,6 +773,13 @@ class ts2pythonCompiler(Compiler):
         self.local_classes[-1].append(class_code)
         return unique_name
 
+    def render_nested_type_vars(self) -> str:
+        """Renders the definitions of the type variables of those generic
+        types, methods and functions that are nested inside another object."""
+        code = ''.join(self.nested_type_vars.values())
+        self.nested_type_vars = {}
+        return code
+
     def process_type_parameters(self, node: Node) -> Tuple[str, str]:
         tps = ''
         preface = ''
@@ -774,8 +788,14 @@ class ts2pythonCompiler(Compiler):
             tpl = [p.strip("'") for p in tp.split(', ')]
             tps = '[' + ', '.join(p for p in tpl) + ']'
             # tps = '[' + tp + ']'
-            preface = ''.join(f"{p} = TypeVar('{p}')\n"
-                              for p in tpl if not self.is_known_type(p))
+            type_vars = {p: f"{p} = TypeVar('{p}')\n"
+                         for p in tpl if not self.is_known_type(p)}
+            scope = self.scope_type[:-1] if node.name == 'interface' else self.scope_type
+            if scope == ['']:
+                preface = ''.join(type_vars.values())
+            elif node.name == 'type_alias' or not self.use_type_parameters:
+                # names defined in a class are not visible in the classes within
+                self.nested_type_vars.update(type_vars)
             for p in tpl:  self.add_to_known_types(node, p, '?')
         except KeyError:
             pass
-- 
2.43.0


From 66725ba283a093dd3e48e5f4f3e2c86be354ae5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:20 +0000
Subject: [PATCH 48/61] fix: namespaces were always reported as already defined

---
 ts2pythonParser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 9ca5a95..f359554 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1307,7 +1307,6 @@ class ts2pythonCompiler(Compiler):
         if local_classes:
             declarations.insert(1, local_classes)
         self.known_types.pop()
-        self.add_to_known_types(node, name, 'namespace')
         self.local_classes.pop()
         self.optional_keys.pop()
         self.scope_type.pop()
-- 
2.43.0


From 6f08a59a84d320c7525b23ad171f5664ce819f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 49/61] fix: included specification files with hyphens or
 underscores in their name were left out

---
 demo/extract_ts_from_lsp_specs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index 5f0b69e..a0125b6 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -60,7 +60,7 @@ def download_specfile(url: str) -> str:
     return specs.decode('utf-8')
 
 
-RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[A-Za-z0-9/.]+?\.md)\s*%}|{%\s*include\s*(?P<absolute>[A-Za-z0-9/.]+?\.md)\s*%}')
+RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[\w/.-]+?\.md)\s*%}|{%\s*include\s*(?P<absolute>[\w/.-]+?\.md)\s*%}')
 
 
 def download_specs(url: str) -> str:
-- 
2.43.0


From ee16f2728d7a284ddefe1f1f37a0f6d8e568a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 50/61] fix: includes within included specification files were
 looked up in the wrong directory

---
 demo/extract_ts_from_lsp_specs.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index a0125b6..d4d5f15 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -63,10 +63,11 @@ def download_specfile(url: str) -> str:
 RX_INCLUDE = re.compile(r'{%\s*include_relative\s*(?P<relative>[\w/.-]+?\.md)\s*%}|{%\s*include\s*(?P<absolute>[\w/.-]+?\.md)\s*%}')
 
 
-def download_specs(url: str) -> str:
+def download_specs(url: str, absurl_path: str = '') -> str:
     specfile = download_specfile(url)
     relurl_path = url[:url.rfind('/') + 1]
-    absurl_path = url[:url.find('_specifications/')] + '_includes/'
+    if not absurl_path:  # within included files it is the same as in the including file
+        absurl_path = url[:url.find('_specifications/')] + '_includes/'
     parts = []
     e = 0
     for m in RX_INCLUDE.finditer(specfile):
@@ -80,7 +81,7 @@ def download_specs(url: str) -> str:
             incpath = m.group('absolute')
             incl_url = absurl_path + incpath
         parts.append(f'\n```typescript\n\n/* source file: "{incpath}" */\n```\n')
-        include = download_specs(incl_url)
+        include = download_specs(incl_url, absurl_path)
         parts.append(include)
         e = m.end()
     parts.append(specfile[e:])
-- 
2.43.0


From 279b59b5f7524395831bc54b0bed00af3e54439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 51/61] fix: short or empty included files without line ends
 were mistaken for symbolic links

---
 demo/extract_ts_from_lsp_specs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/demo/extract_ts_from_lsp_specs.py b/demo/extract_ts_from_lsp_specs.py
index d4d5f15..e7e0042 100755
--- a/demo/extract_ts_from_lsp_specs.py
+++ b/demo/extract_ts_from_lsp_specs.py
@@ -41,6 +41,9 @@ def extract(specs, dest):
         f.write('\n'.join(ts))
 
 
+RX_LINK = re.compile(rb'[\w/.-]+\.md')
+
+
 def download_specfile(url: str) -> str:
     import urllib.request
     max_indirections = 2
@@ -52,7 +55,7 @@ def download_specfile(url: str) -> str:
         else:
             with open(url, 'rb') as f:
                 specs = f.read()
-        if len(specs) < 255 and specs.find(b'\n') < 0:
+        if len(specs) < 255 and RX_LINK.fullmatch(specs):  # symbolic link
             url = url[: url.rfind('/') + 1] + specs.decode('utf-8').strip()
             max_indirections -= 1
         else:
-- 
2.43.0


From db6af7ee44dc0dc12004e13147744a6d1b548caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 52/61] fix: type parameters that bear the name of a declared
 type or object made the generated module fail or confused the types

---
 ts2pythonParser.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f359554..ca457ed 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -638,8 +638,33 @@ class ts2pythonCompiler(Compiler):
                         self.overloaded_type_names.add(nd['identifier'].content)
         self.declared_names = {nd['identifier'].content for nd in root.select(DECLARATION_TYPES)
                                if 'identifier' in nd}
+        self.rename_hiding_type_parameters(root)
         return None
 
+    def rename_hiding_type_parameters(self, root: Node):
+        """Renames type parameters that bear the name of another declaration. In
+        Python the type variable and that object would overwrite each other."""
+        declared = set(self.declared_names)
+        for scope in root.select('document'):
+            for nd in scope.children:
+                if nd.name in ('const', 'declaration', 'function'):
+                    identifier = nd.pick('identifier')
+                    if identifier:
+                        declared.add(identifier.content)
+        for generic in root.select(('interface', 'type_alias', 'function')):
+            if 'type_parameters' not in generic:
+                continue
+            for parameter in generic['type_parameters'].children:
+                type_name = parameter.pick('type_name')
+                if type_name and type_name.content in declared:
+                    old_name = type_name.content
+                    new_name = old_name + '_'
+                    while new_name in declared:
+                        new_name += '_'
+                    for name in list(generic.select('name')):
+                        if name.content == old_name:
+                            name.result = new_name
+
     def finalize(self, python_code: Any) -> Any:
         chksum = f'source_hash__ = "{source_hash(self.tree.source)}"'
         if self.tree.name == 'root':
-- 
2.43.0


From 15997100b79fa28a6ddc8cde19089cb571873976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:14 +0000
Subject: [PATCH 53/61] fix: index signatures beside other members were left
 out without any message

---
 ts2pythonParser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index ca457ed..dd9ea66 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -957,6 +957,10 @@ class ts2pythonCompiler(Compiler):
         #                          if nd.name in ('declaration', 'function'))
         raw_decls = [(nd.name, self.compile(nd)) for nd in node
                      if nd.name in ('declaration', 'function', 'comment__')]
+        for nd in node.select_children('map_signature'):
+            self.tree.new_error(nd,
+                'Index signatures beside other members are not supported and left out.',
+                UNSUPPORTED_WARNING)
         declarations = '\n'.join(d for _, d in raw_decls if d)
         if all(name == 'comment__' for name, d in raw_decls if d):
             declarations += '\npass' if declarations else 'pass'
-- 
2.43.0


From 5027e8bba8bf6a98812dd21ff678d77d76e83f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:40 +0000
Subject: [PATCH 54/61] fix: literals that contain a star or '= None' removed
 the parameters from function types

---
 ts2pythonParser.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index dd9ea66..417c20a 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1052,7 +1052,8 @@ class ts2pythonCompiler(Compiler):
         breadcrumb = '/'.join(nd.name for nd in self.path)
         if breadcrumb.rfind('func_type') > breadcrumb.rfind('function'):
             arg_list = [self.compile(nd) for nd in node.children]
-            if any(arg[0:1] == '*' for arg in arg_list):
+            # See https://docs.python.org/3/library/typing.html#typing.Callable
+            if any(arg[0:1] == '*' or arg.endswith(' = None') for arg in arg_list):
                 return '...'
             return ', '.join(re.sub(r'^\w+\s*:\s*', '', arg) for arg in arg_list)
         return ', '.join(self.compile(nd) for nd in node.children)
@@ -1263,12 +1264,7 @@ class ts2pythonCompiler(Compiler):
     def on_func_type(self, node) -> str:
         if 'arg_list' in node:
             arg_list = self.compile(node["arg_list"])
-            if  arg_list == "..." or arg_list.find('= None') >= 0 \
-                    or arg_list.find('*') >= 0:
-                # See https://docs.python.org/3/library/typing.html#typing.Callable
-                args = '...'
-            else:
-                args = f'[{arg_list}]'
+            args = arg_list if arg_list == '...' else f'[{arg_list}]'
         else:
             args = '[]'
         types = self.compile(node["types"])
-- 
2.43.0


From 46b1e944317b3f815ba728ac0f5dc8dca9c80419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 55/61] fix: references to declared types named Error, RegExp,
 Thenable etc. meant builtin Python types

---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 417c20a..f62b92d 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -882,8 +882,7 @@ class ts2pythonCompiler(Compiler):
     @lru_cache(maxsize=4)
     def bases(self, node) -> List[str]:
         assert node.name == 'extends'
-        bases = [self.compile(nd) for nd in node.children]
-        return [TYPE_NAME_SUBSTITUTION.get(bc, bc) for bc in bases]
+        return [self.compile(nd) for nd in node.children]
 
     def mro_compatible(self, bases: List[str]) -> List[str]:
         """Sorts base classes that have been declared later to the front, so
@@ -1447,6 +1446,8 @@ class ts2pythonCompiler(Compiler):
 
     def on_type_name(self, node) -> str:
         name = self.compile(node['name'])
+        if name in self.declared_names:  # e.g. an interface that bears the name "Error"
+            return name
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
     def compile_type_expression(self, node, type_node) -> str:
-- 
2.43.0


From 6b291514f92fb539003751a2e0cadd40bed43fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 56/61] fix: type parameters named like types that are
 substituted overwrote Python types

---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f62b92d..5c86621 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -643,8 +643,9 @@ class ts2pythonCompiler(Compiler):
 
     def rename_hiding_type_parameters(self, root: Node):
         """Renames type parameters that bear the name of another declaration. In
-        Python the type variable and that object would overwrite each other."""
-        declared = set(self.declared_names)
+        Python the type variable and that object would overwrite each other. The
+        same goes for names of types that are substituted by Python types."""
+        declared = self.declared_names | TYPE_NAME_SUBSTITUTION.keys()
         for scope in root.select('document'):
             for nd in scope.children:
                 if nd.name in ('const', 'declaration', 'function'):
-- 
2.43.0


From f55a83062f18ef0c775116544457606345fc1f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 57/61] fix: types named Set were taken for a type that was
 never imported

---
 ts2pythonParser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 5c86621..f5ea7b8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -370,11 +370,11 @@ import enum
 import sys
 from enum import Enum, IntEnum
 if sys.version_info >= (3, 9, 0):
-    from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict
+    from typing import Union, Optional, Any, Generic, TypeVar, Callable, List, Tuple, Dict, Set
     # do not use list, tuple, dict, because contained types won't be forward ref'd
     from collections.abc import Coroutine
 else:
-    from typing import Union, List, Tuple, Optional, Dict, Any, Generic, TypeVar, Callable, Coroutine
+    from typing import Union, List, Tuple, Optional, Dict, Set, Any, Generic, TypeVar, Callable, Coroutine
 """
 
 TYPEDDICT_IMPORTS = """
@@ -638,14 +638,16 @@ class ts2pythonCompiler(Compiler):
                         self.overloaded_type_names.add(nd['identifier'].content)
         self.declared_names = {nd['identifier'].content for nd in root.select(DECLARATION_TYPES)
                                if 'identifier' in nd}
+        for name in self.declared_names:  # e.g. an interface that bears the name "Set"
+            self.known_types[0].pop(name, None)
         self.rename_hiding_type_parameters(root)
         return None
 
     def rename_hiding_type_parameters(self, root: Node):
         """Renames type parameters that bear the name of another declaration. In
         Python the type variable and that object would overwrite each other. The
-        same goes for names of types that are substituted by Python types."""
-        declared = self.declared_names | TYPE_NAME_SUBSTITUTION.keys()
+        same goes for the names of Python types and of types substituted by them."""
+        declared = self.declared_names | TYPE_NAME_SUBSTITUTION.keys() | self.known_types[0].keys()
         for scope in root.select('document'):
             for nd in scope.children:
                 if nd.name in ('const', 'declaration', 'function'):
-- 
2.43.0


From 02b4bff6b3f8dd1a639bc8dc4d8bcc9a072a1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 58/61] fix: forward references to types whose name is a Python
 keyword made the generated module fail

---
 ts2pythonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index f5ea7b8..785d2f8 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1454,8 +1454,8 @@ class ts2pythonCompiler(Compiler):
         return TYPE_NAME_SUBSTITUTION.get(name, name)
 
     def compile_type_expression(self, node, type_node) -> str:
-        unknown_types = set(tn.content for tn in node.select('type_name')
-                            if not self.is_known_type(tn.content))
+        type_names = (self.on_name(tn) for tn in node.select('type_name'))
+        unknown_types = set(name for name in type_names if not self.is_known_type(name))
         type_expression = self.compile(type_node)
         if unknown_types and not RX_CLASS_CODE.match(type_expression):
             # quote unknown types, but leave string literals and comments untouched
-- 
2.43.0


From 8003fe44aab6a5d978f99f878d0f62bd56ccc369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 59/61] fix: constant namespaces with constants that refer to
 other constants became IntEnums whatever the values

---
 ts2pythonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ts2pythonParser.py b/ts2pythonParser.py
index 785d2f8..02513ed 100755
--- a/ts2pythonParser.py
+++ b/ts2pythonParser.py
@@ -1288,8 +1288,9 @@ class ts2pythonCompiler(Compiler):
             self.add_to_known_types(node, name, 'virtual_enum')
         save = self.strip_type_from_const
         if all(child.name in ('const', 'comment__') for child in node.children[1:]):
-            if all(nd['literal'][0].name == 'integer'
-                   for nd in node.select_children('const') if 'literal' in nd):
+            if all('literal' in nd and nd['literal'][0].name == 'integer'
+                   for nd in node.select_children('const')
+                   if 'literal' in nd or 'identifier' in nd):
                 header = f'class {name}(IntEnum):'
             else:
                 header =  f'class {name}(Enum):'
-- 
2.43.0


From c5466e698d5d79630ee29a283dbdd206cc967a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:45 +0000
Subject: [PATCH 60/61] fix: forward references of inherited TypedDict keys
 were looked up in the module of the derived class

---
 ts2python/typeddict_shim.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ts2python/typeddict_shim.py b/ts2python/typeddict_shim.py
index c07ee48..905ffaa 100644
--- a/ts2python/typeddict_shim.py
+++ b/ts2python/typeddict_shim.py
@@ -34,6 +34,7 @@ permissions and limitations under the License.
 import ast
 import sys
 import threading
+from types import SimpleNamespace
 from typing import Generic, Optional, Union, Any, TypeVar, get_type_hints
 
 try:
@@ -89,10 +90,21 @@ def type_hints(obj) -> dict:
     """Like `typing.get_type_hints()`, but safe to use with annotations like
     `Union['A', 'B']` or `List['A']`: typing caches these objects so that
     different modules share them including the forward references therein,
-    in which typing also stores the type that has been found last."""
+    in which typing also stores the type that has been found last.
+    The inherited keys of a TypedDict are resolved where they were declared."""
     with _type_hints_lock:
-        return get_type_hints(obj) if isinstance(obj, type) \
-            else get_type_hints(obj, localns={})
+        if not isinstance(obj, type):
+            return get_type_hints(obj, localns={})
+        owners = obj.__dict__.get('__key_owners__', {})
+        if all(owner is obj for owner in owners.values()):
+            return get_type_hints(obj)
+        hints = {}
+        for key, owner in owners.items():
+            field = SimpleNamespace(__annotations__={key: obj.__annotations__[key]})
+            module = sys.modules.get(owner.__module__, None)
+            # like typing.get_type_hints(): module before class namespace
+            hints.update(get_type_hints(field, dict(vars(owner)), getattr(module, '__dict__', {})))
+        return hints
 
 
 # The following functions have been copied from the Python
@@ -212,8 +224,11 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
     required_keys = set()
     optional_keys = set()
 
+    key_owners = {}  # the classes that declare the keys
+
     for base in bases:
         annotations.update(base.__dict__.get('__annotations__', {}))
+        key_owners.update(base.__dict__.get('__key_owners__', {}))
         base_required = base.__dict__.get('__required_keys__', frozenset())
         base_optional = base.__dict__.get('__optional_keys__', frozenset())
         required_keys = (required_keys - base_optional) | base_required
@@ -232,6 +247,8 @@ def _new_typed_dict(meta, name, bases, ns) -> dict:
             optional_keys.discard(field)
 
     tp_dict.__annotations__ = annotations
+    key_owners.update((field, tp_dict) for field in own_annotations)
+    tp_dict.__key_owners__ = key_owners
     tp_dict.__required_keys__ = frozenset(required_keys)
     tp_dict.__optional_keys__ = frozenset(optional_keys)
     if not hasattr(tp_dict, '__total__'):
-- 
2.43.0


From 904848a1a621cdaf210dfc17341a855c425de2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 61/61] fix: calls of overloaded functions concurrent with a
 registration left an outdated entry in the cache

---
 ts2python/singledispatch_shim.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ts2python/singledispatch_shim.py b/ts2python/singledispatch_shim.py
index b4ac23e..943f60d 100644
--- a/ts2python/singledispatch_shim.py
+++ b/ts2python/singledispatch_shim.py
@@ -127,11 +127,12 @@ def singledispatch(func):
         try:
             impl = dispatch_cache[cls]
         except KeyError:
-            try:
-                impl = registry[cls]
-            except KeyError:
-                impl = _find_impl(cls, registry)
-            dispatch_cache[cls] = impl
+            with lock:  # no registration must interfere, lest the cache becomes outdated
+                try:
+                    impl = registry[cls]
+                except KeyError:
+                    impl = _find_impl(cls, registry)
+                dispatch_cache[cls] = impl
         return impl
 
     def _is_union_type(cls):
-- 
2.43.0

