From 5f578d15c272a3dfcd5685db052631fedf31a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 01/33] fix: accept exactly the valid, non-keyword identifiers
 as class names
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Digits of other scripts (a², ½) and keywords (class) were let through and
produced hints that do not compile; an underscore alone was refused.
---
 lazy_type_hint/utils/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/utils.py b/lazy_type_hint/utils/utils.py
index ad0946a..fc62f8b 100644
--- a/lazy_type_hint/utils/utils.py
+++ b/lazy_type_hint/utils/utils.py
@@ -1,4 +1,5 @@
 import ast
+import keyword
 import os
 import subprocess
 from itertools import zip_longest
@@ -17,7 +18,7 @@ def is_string_python_keyword_compatible(string: str) -> bool:
     Returns:
         bool: True if the string is compatible with Python keywords, False otherwise.
     """
-    return bool(string.replace("_", "").isalnum() and not string[0].isnumeric())
+    return string.isidentifier() and not keyword.iskeyword(string)
 
 
 def compare_ast(
-- 
2.43.0


From 0b11247a80c517f41f54042b3eceef311218464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:43 +0000
Subject: [PATCH 02/33] fix: reject an inspection limit of 0

---
 lazy_type_hint/strategies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/strategies.py b/lazy_type_hint/strategies.py
index f518eaa..fb3ba99 100644
--- a/lazy_type_hint/strategies.py
+++ b/lazy_type_hint/strategies.py
@@ -39,5 +39,5 @@ class ParsingStrategies:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be greater than 0")
         if self.merge_different_typed_dicts_if_similarity_above > 100:
             raise ValueError("`merge_typed_dicts_if_similarity_above` must be less than 100")
-        if self.check_max_n_elements_within_container and self.check_max_n_elements_within_container <= 0:
+        if self.check_max_n_elements_within_container is not None and self.check_max_n_elements_within_container <= 0:
             raise ValueError("`chec_max_n_type_elements_within_container` must at least 1")
-- 
2.43.0


From 22bc8aa91459616d632c3a29155be2bc6dc0593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:06 +0000
Subject: [PATCH 03/33] fix: escape the keys of TypedDicts written in
 functional syntax

A key holding a double quote, a backslash or a line break gave source that
does not compile or that names another key.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index b8f19af..3cb5fa0 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,3 +1,4 @@
+import json
 import keyword
 from collections import defaultdict
 from dataclasses import dataclass, field
@@ -309,7 +310,7 @@ class DictDataTypeTree(MappingDataTypeTree):
             template = f"""{name} = TypedDict(
 {TAB}"{name}",
 {TAB}{{
-{TAB}{TAB}"{{key}}": {{value}},
+{TAB}{TAB}{{key}}: {{value}},
 {TAB}}},
 )"""
             idx_to_repeat = -3
@@ -328,7 +329,8 @@ class DictDataTypeTree(MappingDataTypeTree):
             if key.startswith(self.hidden_keys_prefix):  # Do not add artificially created keys
                 continue
             if self.dict_metadata.is_functional_syntax:
-                modified_line += lines[idx_to_repeat].format(key=key, value=value) + "\n"
+                key_literal = json.dumps(key, ensure_ascii=False)
+                modified_line += lines[idx_to_repeat].format(key=key_literal, value=value) + "\n"
             else:
                 docstring = key_docstrings.get(key, "")
                 modified_line += lines[idx_to_repeat].format(key=key, value=value, optional_key_docstring=docstring)
-- 
2.43.0


From 0f83e7511913b9b95c7f52d19a03e235577cbcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 04/33] fix: keep the text of keys that Python alters in a
 class body

__name (mangled) and compatibility characters (normalized) declared a field
with another key; such dictionaries now use the functional syntax.
---
 .../generic_type/dict_data_type_tree.py        | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 3cb5fa0..f450244 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,5 +1,5 @@
 import json
-import keyword
+import unicodedata
 from collections import defaultdict
 from dataclasses import dataclass, field
 from itertools import islice
@@ -128,9 +128,19 @@ class DictMetadata:
 
     @cache_returned_value_per_instance
     def _all_keys_are_parsable(self) -> bool:
-        if self._all_keys_are_string(self._data) and all(key not in keyword.kwlist for key in self._data):
-            return all(is_string_python_keyword_compatible(key) for key in self._data)
-        return False
+        if not self._all_keys_are_string(self._data):
+            return False
+        return all(
+            is_string_python_keyword_compatible(key) and self._is_kept_as_class_field(key) for key in self._data
+        )
+
+    def _is_kept_as_class_field(self, key: str) -> bool:
+        """Whether Python keeps the name as it is within the body of a class (no mangling, no normalization)."""
+        if key.startswith(self.hidden_key_prefix):  # Never written as a field
+            return True
+        if key.startswith("__") and not key.endswith("__"):
+            return False
+        return unicodedata.normalize("NFKC", key) == key
 
     def update(self, other: "DictMetadata") -> Mapping[Hashable, object]:
         """Update the wrapped dictionary and its metadata by including a new metadata object."""
-- 
2.43.0


From 7983b6ead29fa9dd920fb30d0968dcb1d72eceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 05/33] fix: escape documentation text so that it is read back
 unchanged

Backslashes, triple quotes and null characters in a docstring gave source
that does not compile or a different text.
---
 lazy_type_hint/utils/docstring_formatter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 77abf9d..9b46aaf 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -34,6 +34,11 @@ def _split_string(string: str, *, max_line_length: int) -> Tuple[str, ...]:
     return tuple(substrings)
 
 
+def _escape(string: str) -> str:
+    """Escape whatever would not be read back as it is from within a triple quoted literal."""
+    return string.replace("\\", "\\\\").replace('"""', '\\"\\"\\"').replace("\0", "\\x00")
+
+
 def format_string_as_docstring(string: str, *, max_line_length: int = 90, indentation: str = "") -> str:
     """
     Formats a string as a docstring.
@@ -46,7 +51,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     Returns:
         str: The formatted docstring.
     """
-    string = string.rstrip("\n")
+    string = _escape(string.rstrip("\n"))
     if not string.endswith("."):
         string += "."
     docstring = '"""' + string + '"""'
-- 
2.43.0


From 4804f19b7cd85c5edd12242332a950b78f3d3eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 06/33] fix: wrap a docstring of several words that does not
 fit in one line

---
 lazy_type_hint/utils/docstring_formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/utils/docstring_formatter.py b/lazy_type_hint/utils/docstring_formatter.py
index 9b46aaf..15b61a1 100644
--- a/lazy_type_hint/utils/docstring_formatter.py
+++ b/lazy_type_hint/utils/docstring_formatter.py
@@ -58,7 +58,7 @@ def format_string_as_docstring(string: str, *, max_line_length: int = 90, indent
     if len(docstring) <= max_line_length and "\n" not in docstring:
         return indentation + docstring
     substrings = _split_string(string, max_line_length=max_line_length)
-    if len(substrings) == 1 and "\n" not in docstring:
+    if len(substrings) == 1 and len(string.split()) == 1 and "\n" not in docstring:
         return indentation + docstring
 
     substrings = tuple([f"{indentation}{substring}" for substring in substrings])
-- 
2.43.0


From 4f389864029743d185a689613ae7d151abdfa578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:44 +0000
Subject: [PATCH 07/33] fix: render with the options of the call

get_strs_all_nodes_unformatted was cached whatever its arguments, so
to_string(include_imports=False) made a later to_file drop the imports.
---
 lazy_type_hint/data_type_tree/data_type_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index 01de10d..fb37cdb 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -206,7 +206,6 @@ class DataTypeTree(ABC):
         )
 
     @final
-    @cache_returned_value_per_instance
     def get_strs_all_nodes_unformatted(
         self, *, include_imports: bool = True, make_parent_class_inherit_from_original_type: bool = False
     ) -> Tuple[str, ...]:
-- 
2.43.0


From cb25481f0de5886e3e38152c28b54dc171571522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 08/33] fix: do not stop at a None key when iterating over a
 mapping

The types of the values after (and at) a None key were lost.
---
 .../data_type_tree/generic_type/mapping_data_type_tree.py   | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index 73b46aa..a64f051 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -136,8 +136,4 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def __next__(self) -> DataTypeTree:
-        key = next(self._iterator, None)
-        if key is not None:
-            return self.children[key]
-        else:
-            raise StopIteration
+        return self.children[next(self._iterator)]
-- 
2.43.0


From 62250df262cfc2dda17a0ad8faa73f23a20c758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:47 +0000
Subject: [PATCH 09/33] fix: hint callables without source code or signature

Built-in functions, functions created by exec and classmethod objects made
the generation fail; they are a plain Callable or return Any.
---
 .../simple_data_type_tree/function_data_type_tree.py     | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index c92630d..7a56b64 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -28,10 +28,12 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
 
     @property
     def can_be_inspected(self) -> bool:
+        if isinstance(self.data, BuiltinFunctionType):  # Whether these have a signature depends on the Python version
+            return False
         try:
             inspect.signature(self.data)
             return True
-        except ValueError:
+        except (ValueError, TypeError):
             return False
 
     def _get_str_top_node(self) -> str:
@@ -48,7 +50,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         self.imports.import_all_unkown_symbols_from_signature(args)
 
         if "->" not in args:
-            if not self._has_return():
+            if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
             self.imports.add("Any")
             return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
@@ -76,9 +78,8 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
-        code = textwrap.dedent(inspect.getsource(self.data))
         try:
-            tree = ast.parse(code)
+            tree = ast.parse(textwrap.dedent(inspect.getsource(self.data)))
         except:  # noqa: E722
             return None
         return any(isinstance(node, ast.Return) for node in ast.walk(tree))
-- 
2.43.0


From 5f474ccbae67b84197c85f865450b9b70ee25303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:50 +0000
Subject: [PATCH 10/33] fix: write signatures of callables that can be executed

Defaults without a literal form, annotations of types that are not imported
and generic annotations with several arguments gave source that does not
compile or fails with a NameError.
---
 .../function_data_type_tree.py                | 37 +++++++++++++++++--
 lazy_type_hint/utils/import_manager.py        | 21 +++++------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 7a56b64..7275e33 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -1,7 +1,8 @@
 import ast
+import builtins
 import inspect
 import textwrap
-from inspect import Parameter
+from inspect import Parameter, Signature
 from types import BuiltinFunctionType, FunctionType, MappingProxyType, MethodType
 from typing import Any, Callable, Hashable, Optional
 
@@ -11,6 +12,17 @@ from lazy_type_hint.data_type_tree.simple_data_type_tree.simple_data_type_tree i
 from lazy_type_hint.utils import TAB
 
 
+def _is_literal(value: object) -> bool:
+    """Whether the representation of the value can be used in Python code."""
+    if value is Parameter.empty:
+        return True
+    try:
+        ast.literal_eval(repr(value))
+    except Exception:  # noqa: BLE001
+        return False
+    return True
+
+
 class FunctionDataTypeTree(SimpleDataTypeTree):
     wraps = (FunctionType, staticmethod, classmethod, BuiltinFunctionType, MethodType)
     data: Callable[[Any], Any]
@@ -45,17 +57,34 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         return self._get_protocol_str()
 
     def _get_protocol_str(self) -> str:
-        args = str(inspect.signature(self.data))
+        signature = self._get_signature()
+        args = str(signature)
         self.imports.add("Protocol")
         self.imports.import_all_unkown_symbols_from_signature(args)
+        if not self._can_be_evaluated(args):
+            self.imports.add("annotations")
 
-        if "->" not in args:
+        if signature.return_annotation is Signature.empty:
             if self._has_return() is False:
                 return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
             self.imports.add("Any")
             return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
         return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
 
+    def _get_signature(self) -> Signature:
+        """Signature whose default values can be written in Python code."""
+        signature = inspect.signature(self.data)
+        parameters = [
+            parameter if _is_literal(parameter.default) else parameter.replace(default=...)
+            for parameter in signature.parameters.values()
+        ]
+        return signature.replace(parameters=parameters)
+
+    def _can_be_evaluated(self, args: str) -> bool:
+        """Whether all names used within the signature are known in the file generated."""
+        names = (node.id for node in ast.walk(ast.parse(f"def _{args}: ...")) if isinstance(node, ast.Name))
+        return all(hasattr(builtins, name) or self.imports.provides(name) for name in names)
+
     def get_func_params(self) -> MappingProxyType[str, Parameter]:
         signature = inspect.signature(self.data)
         return signature.parameters
@@ -74,7 +103,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(inspect.signature(self.data))
+                return str(self._get_signature())
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
diff --git a/lazy_type_hint/utils/import_manager.py b/lazy_type_hint/utils/import_manager.py
index c0efde3..6b98d71 100644
--- a/lazy_type_hint/utils/import_manager.py
+++ b/lazy_type_hint/utils/import_manager.py
@@ -1,7 +1,7 @@
 import re
 from collections import defaultdict
 from dataclasses import dataclass, field
-from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Optional, Sequence, Set, Tuple
+from typing import TYPE_CHECKING, Dict, Final, List, Literal, Mapping, Sequence, Set, Tuple
 
 from typing_extensions import TypeGuard
 
@@ -95,17 +95,10 @@ class ImportManager:
         Args:
             signature (str): The signature containing type hints.
         """
-        hints = re.findall(r":\s*([^\s,]+)", signature)
-        for hint in hints:
-            hint_ = str(hint).strip().rstrip().replace("):", "")
-            self._import_symbols(hint_)
-
-        pattern = r"->\s*([^\s,]+|$)"
-        re_output = re.search(pattern, signature)
-        return_value: Optional[str] = None
-        if re_output:
-            return_value = re_output.group(1).rstrip(":")
-            self._import_symbols(return_value)
+        parameters, _, return_value = signature.partition("->")
+        for hint in re.findall(r":\s*([^:=]+)", parameters):
+            self._import_symbols(hint)
+        self._import_symbols(return_value)
 
     def _import_symbols(self, symbol: str) -> None:
         """Import all unknown symbols. Including those belonging to generic type hints."""
@@ -124,6 +117,10 @@ class ImportManager:
     def _is_importable_symbol(self, symbol: str) -> TypeGuard[KEYWORDS_AVAILABLE]:
         return symbol in self.PACKAGE
 
+    def provides(self, name: str) -> bool:
+        """Whether the given name is defined by the imports added so far."""
+        return any(name == self.PACKAGE[keyword][-1] for keyword in self._set)
+
     def format(self, *, line_length: int = 90) -> str:
         import_statements: Dict[str, List[str]] = defaultdict(list)
         for keyword in self._set:
-- 
2.43.0


From 799b28b027ea7fb9951b305ddd45cb093aaedb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 11/33] fix: write the types of mapping keys that are not
 built-ins

None keys gave the unknown name NoneType and instances of custom classes an
unquoted class name.
---
 .../generic_type/generic_data_type_tree.py             | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index dcd9132..2ac6090 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,3 +1,4 @@
+import builtins
 from abc import abstractmethod
 from typing import (
     Hashable,
@@ -59,7 +60,7 @@ class GenericDataTypeTree(DataTypeTree):
         """
         child_types: List[str] = []
         if iterable:
-            child_types = [type(element).__name__ for element in iterable]
+            child_types = [self._get_type_name(element) for element in iterable]
         else:
             for child in self:
                 if not child.permission_to_be_created_as_type_alias:
@@ -77,6 +78,13 @@ class GenericDataTypeTree(DataTypeTree):
             return tuple(sorted(child_types_set))
         return tuple(child_types)
 
+    def _get_type_name(self, element: object) -> str:
+        """Name of the type of an element. Quoted, as any other instance, if it is not available as a built-in."""
+        if element is None:
+            return "None"
+        name = type(element).__name__
+        return name if isinstance(getattr(builtins, name, None), type) else f'"{name}"'
+
     @override
     def _get_hash(self) -> Hashable:
         hashes: List[object] = []
-- 
2.43.0


From 24ac7a39afffcb9244849cd34fbad451ba2bfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:36 +0000
Subject: [PATCH 12/33] fix: identify nodes by everything that their hints show

The hash ignored the kind of nested containers, set against frozenset, the
class within Type[...], the dtype of arrays, the return type of callables
and the optional keys of merged dictionaries, so that different structures
were taken as the same one and lost; and mappings or sequences with the same
hint could be taken as different.
---
 .../generic_type/dict_data_type_tree.py          |  3 ++-
 .../generic_type/generic_data_type_tree.py       | 13 +++++++++----
 .../generic_type/mapping_data_type_tree.py       | 11 ++++++-----
 .../generic_type/pandas_series_data_type_tree.py |  9 +--------
 .../generic_type/sequence_data_type_tree.py      |  9 +--------
 .../generic_type/set_data_type_tree.py           |  7 ++-----
 .../generic_type/tuple_data_type_tree.py         |  7 ++-----
 .../function_data_type_tree.py                   | 16 ++++++++++------
 .../simple_data_type_tree/io_data_type_tree.py   |  5 +++++
 .../numpy_data_type_tree.py                      |  6 ++++++
 .../simple_data_type_tree/type_data_type_tree.py |  6 +++++-
 11 files changed, 49 insertions(+), 43 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index f450244..29642f4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -377,7 +377,8 @@ class DictDataTypeTree(MappingDataTypeTree):
             return super()._get_hash()
         hashes: List[object] = []
         for name, child in self.children.items():
-            hashes.append(("typed_dict", name, child._get_hash()))
+            required = name not in self.dict_metadata.key_info or self.dict_metadata.key_info[name].required
+            hashes.append(("typed_dict", name, required, child._get_hash()))
         return frozenset(hashes)
 
     @staticmethod
diff --git a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
index 2ac6090..292b8b2 100644
--- a/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/generic_data_type_tree.py
@@ -1,6 +1,7 @@
 import builtins
 from abc import abstractmethod
 from typing import (
+    FrozenSet,
     Hashable,
     Iterable,
     List,
@@ -87,7 +88,11 @@ class GenericDataTypeTree(DataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
-        for child in self:
-            hashes.append(child._get_hash())
-        return tuple(hashes)
+        return type(self).__name__, self._get_hash_children()
+
+    def _get_hash_children(self) -> FrozenSet[Hashable]:
+        """Hashes of all children, regardless of their order, as `float` covers `int` in the final type hint."""
+        hashes = {child._get_hash() for child in self}
+        if id(float) in hashes:
+            hashes.discard(id(int))
+        return frozenset(hashes)
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index a64f051..de87881 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,6 +1,7 @@
 import re
 from collections import defaultdict
-from typing import Dict, Final, Hashable, Iterator, List, Literal, Mapping, Set, Type
+from types import MappingProxyType
+from typing import Dict, Final, Hashable, Iterator, Literal, Mapping, Set, Type
 
 from typing_extensions import Self, override
 
@@ -124,10 +125,10 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
-        for name, child in self.children.items():
-            hashes.append(("mapping", hash(type(name)), child._get_hash()))
-        return frozenset(hashes)
+        keys = {self._get_type_name(key) for key in self.children}
+        if "float" in keys:
+            keys.discard("int")
+        return "mapping", self.holding_type is MappingProxyType, frozenset(keys), self._get_hash_children()
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
index 6c3f858..176d6d4 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_series_data_type_tree.py
@@ -1,4 +1,4 @@
-from typing import Any, Hashable, Sequence, Set, Tuple
+from typing import Any, Sequence, Tuple
 
 import pandas as pd
 from typing_extensions import Self, override
@@ -28,13 +28,6 @@ class PandasSeriesDataTypeTree(GenericDataTypeTree):
         self.imports.add("annotations").add("TypeAlias").add("pandas")
         return f"{self.name}: TypeAlias = pd.Series[{self.get_type_alias_children()}]"
 
-    @override
-    def _get_hash(self) -> Hashable:
-        hashes: Set[object] = set()
-        for child in self:
-            hashes.add(child._get_hash())
-        return frozenset(hashes)
-
     @override
     def __iter__(self) -> "Self":
         self._iterator = 0  # Reset the index to zero when starting a new iteration
diff --git a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
index 3141c18..a2de182 100644
--- a/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/sequence_data_type_tree.py
@@ -1,4 +1,4 @@
-from typing import TYPE_CHECKING, Hashable, List
+from typing import TYPE_CHECKING
 
 from typing_extensions import Self, override
 
@@ -20,13 +20,6 @@ class SequenceDataTypeTree(GenericDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         self.operations = SetAndSequenceOperations(self)
 
-    @override
-    def _get_hash(self) -> Hashable:
-        hashes: List[object] = []
-        for child in self:
-            hashes.append(child._get_hash())
-        return frozenset(hashes)
-
     @override
     def __iter__(self) -> "Self":
         self._iterator = 0  # Reset the index to zero when starting a new iteration
diff --git a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
index 5159989..f17a6fd 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_data_type_tree.py
@@ -1,4 +1,4 @@
-from typing import Any, Hashable, Literal, Sequence, Set, Tuple
+from typing import Any, Hashable, Literal, Sequence, Tuple
 
 from typing_extensions import Self, override
 
@@ -35,10 +35,7 @@ class SetDataTypeTree(GenericDataTypeTree):
 
     @override
     def _get_hash(self) -> Hashable:
-        hashes: Set[object] = set()
-        for child in self:
-            hashes.add(child._get_hash())
-        return frozenset(hashes)
+        return super()._get_hash(), self.holding_type is frozenset
 
     @override
     def __iter__(self) -> "Self":
diff --git a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
index 650423a..13d48aa 100644
--- a/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/tuple_data_type_tree.py
@@ -1,4 +1,4 @@
-from typing import Any, Hashable, List, Sequence, Tuple
+from typing import Any, Hashable, Sequence, Tuple
 
 from typing_extensions import override
 
@@ -49,7 +49,4 @@ class TupleDataTypeTree(SequenceDataTypeTree):
         if self.strategies.tuple_size_strategy == "any size":
             return super()._get_hash()
         else:
-            hashes: List[object] = []
-            for child in self:
-                hashes.append(child._get_hash())
-            return tuple(hashes)
+            return type(self).__name__, tuple(child._get_hash() for child in self)
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
index 7275e33..ff0ab61 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/function_data_type_tree.py
@@ -64,12 +64,16 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
         if not self._can_be_evaluated(args):
             self.imports.add("annotations")
 
-        if signature.return_annotation is Signature.empty:
-            if self._has_return() is False:
-                return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> None: ..."""
+        inferred_return = self._get_inferred_return()
+        if "Any" in inferred_return:
             self.imports.add("Any")
-            return f"""class {self.name}(Protocol):\n{TAB}def __call__{args} -> Any: ..."""
-        return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}: ..."""
+        return f"""class {self.name}(Protocol):\n{TAB}def __call__{args}{inferred_return}: ..."""
+
+    def _get_inferred_return(self) -> str:
+        """Return type to append to those signatures without any annotation for it."""
+        if self._get_signature().return_annotation is not Signature.empty:
+            return ""
+        return " -> None" if self._has_return() is False else " -> Any"
 
     def _get_signature(self) -> Signature:
         """Signature whose default values can be written in Python code."""
@@ -103,7 +107,7 @@ class FunctionDataTypeTree(SimpleDataTypeTree):
             return str(f"Callable[[{', '.join(['Any']*len(self.get_func_params().values()))}], Any]")
         else:
             if self.can_be_inspected:
-                return str(self._get_signature())
+                return f"{self._get_signature()}{self._get_inferred_return()}"
             return "Callable"
 
     def _has_return(self) -> Optional[bool]:
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
index 180390f..0d7bf88 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/io_data_type_tree.py
@@ -1,4 +1,5 @@
 import io
+from typing import Hashable
 
 from typing_extensions import override
 
@@ -8,6 +9,10 @@ from lazy_type_hint.data_type_tree.simple_data_type_tree.simple_data_type_tree i
 class IoDataTypeTree(SimpleDataTypeTree):
     wraps = (io.IOBase,)
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return "TextIO"
+
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("TextIO").add("TypeAlias")
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
index 633682c..e1646d8 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/numpy_data_type_tree.py
@@ -1,3 +1,5 @@
+from typing import Hashable
+
 import numpy as np
 from numpy.typing import NDArray
 from typing_extensions import override
@@ -9,6 +11,10 @@ class NumpyDataTypeTree(SimpleDataTypeTree):
     wraps = (np.ndarray,)
     data: NDArray[np.generic]
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return "ndarray", str(self.data.dtype)
+
     @override
     def _get_str_top_node(self) -> str:
         self.imports.add("NDArray").add("numpy").add("TypeAlias")
diff --git a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
index 896a04b..6449b0c 100644
--- a/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/simple_data_type_tree/type_data_type_tree.py
@@ -1,5 +1,5 @@
 import builtins
-from typing import Type
+from typing import Hashable, Type
 
 from typing_extensions import override
 
@@ -17,6 +17,10 @@ class TypeDataTypeTree(SimpleDataTypeTree):
             return f"{self.name}: TypeAlias = Type[{self.data.__name__}]"
         return f'{self.name}: TypeAlias = Type["{self.data.__name__}"]'
 
+    @override
+    def _get_hash(self) -> Hashable:
+        return "type", self.data.__name__
+
     def is_builtin_class(self) -> bool:
         try:
             cls = getattr(builtins, self.data.__name__)
-- 
2.43.0


From 2f51ff92e4cb9393ee347785e268139ba15e9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:25 +0000
Subject: [PATCH 13/33] fix: compute the similarity of dictionaries without
 rounding errors

29 keys out of 50 in common were 57% instead of 58%.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 29642f4..6c4b37f 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -45,7 +45,7 @@ class DictMetadataComparison:
         total_keys = len(self.common_keys) + len(self.non_common_keys)
         if total_keys == 0:
             return 0
-        return int(100 * (len(self.common_keys) / total_keys))
+        return 100 * len(self.common_keys) // total_keys
 
     @property
     def all_corresponding_value_types_are_same_type(self) -> bool:
-- 
2.43.0


From 6ea8edca659b0d8b84c273721d35e4b6bacaa282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:15 +0000
Subject: [PATCH 14/33] fix: merge dictionaries only if the structures of their
 values agree

Values were compared by their class only, so that the elements of nested
containers or the keys of nested dictionaries were lost in the merge, and int
with float depended on which one came first.
---
 .../generic_type/dict_data_type_tree.py       | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 6c4b37f..2000384 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -1,7 +1,7 @@
 import json
 import unicodedata
 from collections import defaultdict
-from dataclasses import dataclass, field
+from dataclasses import dataclass, field, replace
 from itertools import islice
 from typing import (
     Any,
@@ -39,6 +39,8 @@ class DictMetadataComparison:
     common_keys: Set[Hashable] = field(default_factory=set)
     non_common_keys: Set[Hashable] = field(default_factory=set)
     value_types: Mapping[Hashable, Set[Type[object]]] = field(default_factory=lambda: defaultdict(set))
+    value_structures: Mapping[Hashable, Set[Hashable]] = field(default_factory=dict, compare=False)
+    """Structures (hash of the corresponding tree) of the values. Only known when comparing trees."""
 
     @property
     def percentage_similarity(self) -> int:
@@ -49,7 +51,9 @@ class DictMetadataComparison:
 
     @property
     def all_corresponding_value_types_are_same_type(self) -> bool:
-        return all(len(value_types_) == 1 for value_types_ in self.value_types.values())
+        return all(
+            len(types) == 1 for types in (*self.value_types.values(), *self.value_structures.values())
+        )
 
 
 @dataclass
@@ -103,10 +107,10 @@ class DictMetadata:
         value_types: Dict[Hashable, Set[Type[object]]] = defaultdict(set)
         for dct in dicts_metadata:
             for key, value in dct._data.items():
-                value_type = type(value)
-                if value_type == float and int in value_types[key]:
-                    value_types[key].remove(int)
                 value_types[key].add(type(value))
+        for types in value_types.values():
+            if float in types:
+                types.discard(int)
         return DictMetadataComparison(common_keys=common_keys, non_common_keys=non_common_keys, value_types=value_types)
 
     @property
@@ -388,12 +392,18 @@ class DictDataTypeTree(MappingDataTypeTree):
 
         This allows to check its similarity or keys in common for example.
         """
-        dicts_metadata = [
-            tree.dict_metadata
-            for tree in trees
-            if isinstance(tree, DictDataTypeTree) and tree.dict_metadata.is_typed_dict
+        typed_dicts = [
+            tree for tree in trees if isinstance(tree, DictDataTypeTree) and tree.dict_metadata.is_typed_dict
         ]
-        return DictMetadata.compare_multiple_dicts(*dicts_metadata)
+        value_structures: Dict[Hashable, Set[Hashable]] = defaultdict(set)
+        for tree in typed_dicts:
+            for key, child in tree.children.items():
+                value_structures[key].add(child._get_hash())
+        for structures in value_structures.values():
+            if id(float) in structures:
+                structures.discard(id(int))
+        comparison = DictMetadata.compare_multiple_dicts(*(tree.dict_metadata for tree in typed_dicts))
+        return replace(comparison, value_structures=value_structures)
 
     @classmethod
     def from_multiple_dict_data_type_trees(cls, *trees: "DictDataTypeTree") -> "Self":
@@ -406,7 +416,9 @@ class DictDataTypeTree(MappingDataTypeTree):
         """
         merged_dict: Dict[Hashable, object] = {}
         for d in (tree.data for tree in trees):
-            merged_dict.update(d)
+            for key, value in d.items():
+                if type(merged_dict.get(key)) is not float:  # `float` covers `int`
+                    merged_dict[key] = value
 
         def check_same(trees: Iterable["DictDataTypeTree"], *, param: str) -> Any:
             if not trees:
-- 
2.43.0


From 8e93db78c3bd18e3706a1d45166b5412e5c75fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 15/33] fix: keep the children of lists in the order they are
 first met

They were kept in a set, so that the definitions changed their order with the
hash seed (and validation failed from one run to the next one).
---
 .../set_and_sequence_operations.py            | 47 +++++++------------
 1 file changed, 16 insertions(+), 31 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
index 2e027bf..c3b1913 100644
--- a/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
+++ b/lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py
@@ -15,7 +15,6 @@ from typing import (
     Set,
     Tuple,
     Union,
-    cast,
 )
 
 from lazy_type_hint.data_type_tree.factory import data_type_tree_factory
@@ -37,10 +36,7 @@ class SetAndSequenceOperations:
 
         If `allow_repeated_children` is set to True, all children will be returned even if they are repeated.
         """
-        if allow_repeated_children:
-            children: Union[Set[DataTypeTree], List[DataTypeTree]] = []
-        else:
-            children = set()
+        children: List[DataTypeTree] = []
         names_added: Dict[DataTypeTree, str] = {}  # Used to generate new and unique cnames in a quicker way.
 
         child: DataTypeTree
@@ -67,18 +63,16 @@ class SetAndSequenceOperations:
             )
             if allow_repeated_children:
                 # Tuple case
-                children = cast("List[DataTypeTree]", children)
                 if child in names_added:
                     child.rename(names_added[child])
                 children.append(child)
                 names_added[child] = child.name
             else:
                 # List and Set cases
-                children = cast("Set[DataTypeTree]", children)
-                if child in children and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
+                if child in names_added and isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
                     self._update_existing_typed_dict_child_from_another_equal_child(children, child)
-                if child not in children:
-                    children.add(child)
+                if child not in names_added:
+                    children.append(child)
                     names_added[child] = name
 
         return self._merge_similar_typed_dicts(
@@ -119,24 +113,15 @@ class SetAndSequenceOperations:
         if not comparison.all_corresponding_value_types_are_same_type:
             return tuple(children)
 
-        dict_data_type_trees: List[DictDataTypeTree] = []
-        if allow_repeated_children:
-            children = list(children)
-            for child in list(children):
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    dict_data_type_trees.append(child)
-            merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            for idx, child in enumerate(children):
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children[idx] = merged_child
-            return tuple(children)
-        else:
-            children = cast("Set[DataTypeTree]", children)
-            for child in children.copy():
-                if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict:
-                    children.remove(child)
-                    dict_data_type_trees.append(child)
-
-            merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
-            children.add(merged_child) if isinstance(children, list) else children.add(merged_child)
-            return tuple(children)
+        dict_data_type_trees = [
+            child for child in children if isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict
+        ]
+        merged_child = DictDataTypeTree.from_multiple_dict_data_type_trees(*dict_data_type_trees)
+        new_children: List[DataTypeTree] = []
+        for child in children:
+            if not (isinstance(child, DictDataTypeTree) and child.dict_metadata.is_typed_dict):
+                new_children.append(child)
+            # The merged child takes the place of the first one merged
+            elif allow_repeated_children or merged_child not in new_children:
+                new_children.append(merged_child)
+        return tuple(new_children)
-- 
2.43.0


From 93654e5f482dd44b9dcba6e87357394d8a899900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:08 +0000
Subject: [PATCH 16/33] fix: keep the types found within iterators when
 dictionaries are merged

Merging parses the dictionaries a second time, when the iterators they hold
are exhausted already, which gave Iterator[Any].
---
 .../generic_type/dict_data_type_tree.py               | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 2000384..627d96e 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -224,6 +224,7 @@ class DictDataTypeTree(MappingDataTypeTree):
     wraps = (dict,)
     data: Dict[Hashable, object]
     dict_metadata: DictMetadata
+    children: Dict[Hashable, DataTypeTree]  # type: ignore[assignment]
 
     @staticmethod
     @override
@@ -363,6 +364,15 @@ class DictDataTypeTree(MappingDataTypeTree):
         """Given another child, this will update the current node with all the data and metadata."""
         self.data = dict(self.dict_metadata.update(other.dict_metadata))
 
+    def _restore_children_of_consumed_iterators(self, trees: Sequence["DictDataTypeTree"]) -> None:
+        """Reuse the children of the original trees whose data could not be iterated over a second time."""
+        for tree in trees:
+            for key, child in tree.children.items():
+                if child.holding_type is self.children[key].holding_type and child != self.children[key]:
+                    child.rename(self.children[key].name)
+                    self.children[key] = child
+        self.height = self._get_height()
+
     def _insert_class_docstring(self, lines: Sequence[str], *, key_used_as_doc: str) -> List[str]:
         string = self.data[key_used_as_doc]
         lines = list(lines)
@@ -446,4 +456,5 @@ class DictDataTypeTree(MappingDataTypeTree):
             parent=trees[0].parent,
         )
         new_tree.dict_metadata = random_tree.dict_metadata
+        new_tree._restore_children_of_consumed_iterators(trees)
         return new_tree
-- 
2.43.0


From df0f41348585bfae17cba3b988942b3fd8dea69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 17/33] fix: never define two different structures under the
 same name

Keys that differ in case or punctuation only, or an empty key, gave the same
alias name to different structures.
---
 .../data_type_tree/data_type_tree.py          | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index fb37cdb..ae3d480 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -10,6 +10,7 @@ from typing import (
     TYPE_CHECKING,
     Any,
     ClassVar,
+    Dict,
     FrozenSet,
     Hashable,
     Mapping,
@@ -211,7 +212,9 @@ class DataTypeTree(ABC):
     ) -> Tuple[str, ...]:
         """Get, ordered by dependencies, all strings representing the whole tree."""
         strings: OrderedSet[str] = OrderedSet()
-        self._get_strs_all_nodes_unformatted(types=strings)
+        self._get_strs_all_nodes_unformatted(types=strings, definitions={self.name: ""})
+        if self.permission_to_be_created_as_type_alias:
+            strings.add(self.get_str_top_node())
         strings_lst = strings.as_list()
         if not strings_lst:
             raise DataTypeTreeError("No type hints could be built")
@@ -243,24 +246,25 @@ class DataTypeTree(ABC):
         return declaration, old_name
 
     @final
-    def _get_strs_all_nodes_unformatted(self, *, types: Optional[OrderedSet[str]] = None) -> None:
-        if types is None:
-            types = OrderedSet()
-
-        if self.depth == 0 and not self.children:
-            if self.permission_to_be_created_as_type_alias:
-                types.add(self.get_str_top_node())
-            return
+    def _get_strs_all_nodes_unformatted(self, *, types: OrderedSet[str], definitions: Dict[str, str]) -> None:
+        """Add the definitions of all nodes below the current one."""
         if not self.children:
             return
 
         for child in self:
-            child._get_strs_all_nodes_unformatted(types=types)
+            child._get_strs_all_nodes_unformatted(types=types, definitions=definitions)
             if child.permission_to_be_created_as_type_alias:
+                child._make_name_unique(definitions)
                 types.add(child.get_str_top_node())
-        if self.permission_to_be_created_as_type_alias:
-            types.add(self.get_str_top_node())
-        return
+
+    @final
+    def _make_name_unique(self, definitions: Dict[str, str]) -> None:
+        """Change the name of the node if another definition already uses it."""
+        name = self.name
+        count = 2
+        while definitions.setdefault(self.name, self.get_str_top_node()) != self.get_str_top_node():
+            self.name = f"{name}{count}"
+            count += 1
 
     @final
     def _format_node_strings(self, strs_py: Sequence[str]) -> str:
-- 
2.43.0


From 7c1333fe6e1b387618833ffc398f499ba121f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:47 +0000
Subject: [PATCH 18/33] fix: refer to the definitions of a TypedDict by their
 actual name

With class names that are not in camel case (my_class) the fields referred to
names that do not exist.
---
 .../data_type_tree/generic_type/dict_data_type_tree.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 627d96e..3533e5a 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -281,8 +281,7 @@ class DictDataTypeTree(MappingDataTypeTree):
                 if not value.permission_to_be_created_as_type_alias:
                     content[key] = value.get_str_top_node_without_lvalue()
                 else:
-                    name = self._to_camel_case(value.name)
-                    content[key] = name
+                    content[key] = value.name
                 if key in self.dict_metadata.key_info:
                     if not self.dict_metadata.key_info[key].required:
                         self.imports.add("NotRequired")
-- 
2.43.0


From 339135a8d67e479d02354561c7d3bcbdfc464b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 19/33] fix: build alias names from characters that are valid
 in identifiers
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Numeric characters that are not digits (½, ²) in a key made the generation
fail or gave source that does not compile.
---
 .../data_type_tree/generic_type/mapping_data_type_tree.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index de87881..f70b659 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -1,4 +1,5 @@
 import re
+import unicodedata
 from collections import defaultdict
 from types import MappingProxyType
 from typing import Dict, Final, Hashable, Iterator, Literal, Mapping, Set, Type
@@ -106,7 +107,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
         idx_to_remove: Set[int] = set()
         removed = False
         for idx, char in enumerate(string):
-            if not char.isalpha() and not char.isnumeric():
+            if not char.isalnum() or not f"_{char}".isidentifier() or unicodedata.normalize("NFKC", char) != char:
                 idx_to_remove.add(idx)
             if idx not in idx_to_remove:
                 if removed is True:
-- 
2.43.0


From 24bbfd1b108acc2ce74b117fd9008de0e6854437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:36 +0000
Subject: [PATCH 20/33] fix: hint the columns of DataFrames exactly when they
 are asked for

Frames whose columns are not hinted were named (and accessed) as if they
were, frames with the same columns but different contents were conflated and
repeated column names ended in an infinite recursion.
---
 .../pandas_data_frame_data_type_tree.py       | 27 +++++++------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
index c8df6e1..e0464e5 100644
--- a/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/pandas_data_frame_data_type_tree.py
@@ -81,23 +81,14 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
 
     @override
     @property
-    @cache_returned_value_per_instance
     def permission_to_be_created_as_type_alias(self) -> bool:
         """
         Set the permissions of this class to be created as a type alias.
 
-        Situations where permission is given:
-            - If columns are tuples: And first level are str, int or bool
-            - If columns are not tuples: And columns are str, int, bool
-
-        Otherwise delegate to super class
+        Permission is given if its columns are hinted. Otherwise delegate to super class.
         """
-        if all(isinstance(column, tuple) for column in self.data.columns):
-            if all(isinstance(column[0], (str, bool, int)) for column in self.data.columns):
-                return True
-        else:
-            if all(isinstance(column, (str, bool, int)) for column in self.data.columns):
-                return True
+        if self.children:
+            return True
         return super().permission_to_be_created_as_type_alias
 
     @property
@@ -141,12 +132,16 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
     @override
     def _instantiate_children(self, data: pd.DataFrame) -> Mapping[Hashable, DataTypeTree]:
         children: Dict[Hashable, DataTypeTree] = {}
+        if self.strategies.pandas_strategies == "Do not type hint columns":
+            return {}
         if not self.are_all_columns_literal_compatible:
             return {}
 
-        # Corner case to avoid infinite recursion
+        # Corner cases to avoid infinite recursion
         if all(isinstance(column, tuple) and len(column) == 1 for column in self.data.columns):
             return {}
+        if isinstance(self.parent, PandasDataFrameDataTypeTree) and data.columns.equals(self.parent.data.columns):
+            return {}  # Repeated columns
 
         columns_processed: Set[Union[bool, str, int]] = set()
         for column in data.columns:
@@ -162,10 +157,8 @@ class PandasDataFrameDataTypeTree(MappingDataTypeTree):
         return children
 
     @override
-    def _get_hash(self) -> str:
-        if self.strategies.pandas_strategies == "Do not type hint columns":
-            return "pd.DataFrame"
-        return str(self.data.columns)
+    def _get_hash(self) -> Hashable:
+        return "pd.DataFrame", tuple((repr(column), child._get_hash()) for column, child in self.children.items())
 
     @override
     def _get_str_top_node(self) -> str:
-- 
2.43.0


From 9106835dfac974b6f2017cf4b762e31bb1b6e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:47 +0000
Subject: [PATCH 21/33] fix: read the live interface again before updating it

Several instances, or a reset in between, made the interface lose classes or
list those that were already removed.
---
 lazy_type_hint/generators/lazy_type_hint_live.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 83848e3..593ee09 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -71,10 +71,13 @@ class LazyTypeHintLive(LazyTypeHintABC):
         self.strategies = strategies
         self.if_type_hint_exists = if_type_hint_exists
 
+        self.this_file_pyi = self._load_this_file_pyi()
+
+    @final
+    def _load_this_file_pyi(self) -> PyFileModifier:
         if not self._this_file_pyi_path.exists():
-            self.this_file_pyi = self._generate_this_file_pyi()
-        else:
-            self.this_file_pyi = PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
+            return self._generate_this_file_pyi()
+        return PyFileModifier(self._this_file_pyi_path.read_text(encoding="utf-8"))
 
     def _get_classes_added(self) -> Mapping[str, Path]:
         to_find = "classes_created"
@@ -121,6 +124,7 @@ class LazyTypeHintLive(LazyTypeHintABC):
                 f"Given class_name is not compatible with Python class naming conventions: {class_name}"
             )
         custom_class_file_path = self._custom_class_dir_path / f"{class_name}.py"
+        self.this_file_pyi = self._load_this_file_pyi()  # It might have been updated or removed in the meantime
 
         if class_name in self._get_classes_added() and self.if_type_hint_exists == "validate":
             string_representation = cast(
-- 
2.43.0


From 56c2bb8e12cd07466ff1aa69034937361270f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 22/33] fix: ignore the whole documentation when validating

Only the lines holding the quotes were dropped, so that any change in a
multi-line docstring (or the blank lines next to it) was taken as a change in
the structure of the data.
---
 .../generators/lazy_type_hint_live.py         | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index 593ee09..ba45c3e 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -1,3 +1,4 @@
+import ast
 import os
 import re
 import shutil
@@ -150,13 +151,19 @@ class LazyTypeHintLive(LazyTypeHintABC):
 
     @staticmethod
     def _remove_docstrings(string: str) -> str:
-        if '"""' not in string:
-            return string
+        tree = ast.parse(string)
+        for node in ast.walk(tree):
+            if isinstance(node, (ast.Module, ast.ClassDef)):
+                node.body = [statement for statement in node.body if not LazyTypeHintLive._is_docstring(statement)]
+        return ast.unparse(tree)  # type: ignore
 
-        strings = string.splitlines()
-        for idx, string in enumerate(strings):
-            strings[idx] = "" if '"""' in string else string
-        return "\n".join(strings)
+    @staticmethod
+    def _is_docstring(statement: ast.stmt) -> bool:
+        return (
+            isinstance(statement, ast.Expr)
+            and isinstance(statement.value, ast.Constant)
+            and isinstance(statement.value.value, str)
+        )
 
     @classmethod
     def reset(cls) -> None:
-- 
2.43.0


From e8ada3dddf3e5c3f112a63e122e8e21d88fe48a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:26 +0000
Subject: [PATCH 23/33] fix: never let the comments of a YAML file change its
 data

Comments added as hidden keys could alter other values (such as block
scalars), and the live tool returned the data with those hidden keys.
---
 .../generators/lazy_type_hint_abc.py          | 38 ++++++++++++++++---
 .../generators/lazy_type_hint_live.py         |  4 +-
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index b143cf5..301393f 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -7,6 +7,7 @@ from typing import (
     Callable,
     Optional,
     Sequence,
+    Tuple,
     TypeVar,
     Union,
 )
@@ -22,6 +23,7 @@ class LazyTypeHintError(Exception):
     """Raised by `LazyTypeHint` class."""
 
 
+ObjectT = TypeVar("ObjectT")
 PathT = TypeVar("PathT", str, Path)
 
 
@@ -64,16 +66,42 @@ class LazyTypeHintABC(ABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> Any:
+        _, documented_data = self._load_yaml_file(loader, path, comments_are=comments_are)
+        return self.from_data(documented_data, class_name=class_name)
+
+    def _load_yaml_file(
+        self,
+        loader: Callable[[PathT], ObjectT],
+        path: PathT,
+        *,
+        comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]],
+    ) -> Tuple[ObjectT, ObjectT]:
+        """Load the data of the file and the same one with its comments as hidden keys (if these can be added)."""
         if comments_are is None:
-            return self.from_data(loader(path), class_name=class_name)
+            data = loader(path)
+            return data, data
         yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
-        original_data = loader(path)
+        data = loader(path)
         try:
             new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys())
-            potentially_modified_data = loader(new_path)
-            return self.from_data(potentially_modified_data, class_name=class_name)
+            documented_data = loader(new_path)
+            data_without_comments = self._remove_hidden_keys(documented_data)
+            if data_without_comments == data or repr(data_without_comments) == repr(data):
+                return data, documented_data
         except Exception:  # noqa: BLE001
-            return self.from_data(original_data, class_name=class_name)
+            pass
+        return data, data
+
+    def _remove_hidden_keys(self, data: Any) -> Any:
+        if isinstance(data, list):
+            return [self._remove_hidden_keys(element) for element in data]
+        if isinstance(data, dict):
+            return {
+                key: self._remove_hidden_keys(value)
+                for key, value in data.items()
+                if not (isinstance(key, str) and key.startswith(YamlFileModifier.prefix))
+            }
+        return data
 
     def from_data(
         self,
diff --git a/lazy_type_hint/generators/lazy_type_hint_live.py b/lazy_type_hint/generators/lazy_type_hint_live.py
index ba45c3e..0fb57dd 100644
--- a/lazy_type_hint/generators/lazy_type_hint_live.py
+++ b/lazy_type_hint/generators/lazy_type_hint_live.py
@@ -111,7 +111,9 @@ class LazyTypeHintLive(LazyTypeHintABC):
         comments_are: Optional[Union[YAML_COMMENTS_POSITION, Sequence[YAML_COMMENTS_POSITION]]] = "side",
         **kwargs: Any,
     ) -> ObjectT:
-        return super().from_yaml_file(loader=loader, path=path, class_name=class_name, comments_are=comments_are)  # type: ignore
+        data, documented_data = self._load_yaml_file(loader, path, comments_are=comments_are)
+        self.from_data(documented_data, class_name=class_name)
+        return data
 
     @override
     def from_data(
-- 
2.43.0


From 96ce14bfc60310215cbc026e1ad2c1922ce42e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 24/33] fix: do not count documentation keys as inspected
 elements

---
 .../data_type_tree/generic_type/dict_data_type_tree.py      | 3 ++-
 .../data_type_tree/generic_type/mapping_data_type_tree.py   | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 3533e5a..205e5ef 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -243,7 +243,8 @@ class DictDataTypeTree(MappingDataTypeTree):
     def __pre_child_instantiation__(self) -> None:
         check_n_max = self.strategies.check_max_n_elements_within_container
         if self.strategies.dict_strategy != "TypedDict" and check_n_max:
-            self.data = dict(islice(self.data.items(), check_n_max))
+            items = ((key, value) for key, value in self.data.items() if not self._is_hidden(key))
+            self.data = dict(islice(items, check_n_max))
         self.dict_metadata = DictMetadata(
             self.data, hidden_key_prefix=self.hidden_keys_prefix, strategies=self.strategies
         )
diff --git a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
index f70b659..26bec49 100644
--- a/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/mapping_data_type_tree.py
@@ -27,7 +27,7 @@ class MappingDataTypeTree(GenericDataTypeTree):
 
         for key, value in data.items():
             suffix = type(key).__name__ if not isinstance(key, str) else self._to_camel_case(key)
-            if isinstance(key, str) and key.startswith(self.hidden_keys_prefix):
+            if self._is_hidden(key):
                 continue
             child = data_type_tree_factory(
                 data=value,
@@ -42,6 +42,10 @@ class MappingDataTypeTree(GenericDataTypeTree):
         self._assign_same_data_type_tree_to_keys_with_same_value_type(children, children_info=children_info)
         return children
 
+    def _is_hidden(self, key: Hashable) -> bool:
+        """Whether the key was only added to carry documentation."""
+        return isinstance(key, str) and key.startswith(self.hidden_keys_prefix)
+
     def _assign_same_data_type_tree_to_keys_with_same_value_type(
         self, children: Dict[Hashable, DataTypeTree], *, children_info: Dict[DataTypeTree, Set[Hashable]]
     ) -> None:
-- 
2.43.0


From dc773af86378ee99c82bc8b85d9fde6f019b5dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:56 +0000
Subject: [PATCH 25/33] fix: do not take the end of a YAML file for what is
 above its first line

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 208c386..a2771e9 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -202,7 +202,7 @@ class YamlFileModifier:
         increment = step
         multi_line_comments: List[str] = []
         with suppress(IndexError):
-            while self.lines[line_idx + increment][idx_first_char] == "#":
+            while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From 0bb431da2968744b635b918209a6d3fffcd58a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:34 +0000
Subject: [PATCH 26/33] fix: find the side comment that follows a value with a
 #

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index a2771e9..5255977 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -158,13 +158,11 @@ class YamlFileModifier:
             yaml_key: value  # My comment
         """
         idx = YamlFileModifier._find_first_occurrence_that_is_not_between(line, "#")
+        while idx and line[idx - 1] != " ":  # That one belongs to the value
+            masked_line = " " * (idx + 1) + line[idx + 1 :]
+            idx = YamlFileModifier._find_first_occurrence_that_is_not_between(masked_line, "#")
         if not idx:
             return ""
-        try:
-            if line[idx - 1] != " ":
-                return ""
-        except IndexError:
-            return ""
         comment = line[idx + 1 :].strip().rstrip()
         if comment and not comment.endswith("."):
             return comment + "."
-- 
2.43.0


From 8ce81e334662d68e5c22df66fc32a8b48c1ec078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 27/33] fix: look for a decorator among all decorators of a
 method

Only the closest one was read, so that the live interface got one more
repeated @overload with every class added.
---
 lazy_type_hint/file_modifiers/py_file_modifier.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/py_file_modifier.py b/lazy_type_hint/file_modifiers/py_file_modifier.py
index dcdf2e9..b75a838 100644
--- a/lazy_type_hint/file_modifiers/py_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/py_file_modifier.py
@@ -63,11 +63,12 @@ class PyFileModifier:
         lst = self.search_method(method_name=method_name, return_index_above_decorator=False)
         output: List[int] = []
         for idx in lst:
-            while "@" in self.lines[idx - 1]:
-                if f"@{decorator_name}" in self.lines[idx - 1]:
-                    output.append(idx - 1)
+            decorator_idx = idx - 1
+            while decorator_idx >= 0 and self.lines[decorator_idx].strip().startswith("@"):
+                if f"@{decorator_name}" in self.lines[decorator_idx]:
+                    output.append(decorator_idx)
                     break
-                break
+                decorator_idx -= 1
         return output
 
     def search_method(self, method_name: str, *, return_index_above_decorator: bool = True) -> List[int]:
@@ -86,7 +87,7 @@ class PyFileModifier:
         for idx, line in enumerate(self.lines):
             if line.strip().startswith(f"def {method_name}") and not self.it_is_string(line, method_name):
                 if return_index_above_decorator:
-                    while "@" in self.lines[idx - 1]:
+                    while idx > 0 and self.lines[idx - 1].strip().startswith("@"):
                         idx = idx - 1
                 lst.append(idx)
         return lst
-- 
2.43.0


From 43b3c70ec28c0add1adafdb9e27a7bdcc21c3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 28/33] fix: remove private methods entirely and nothing else

Bodies with empty lines were only partially removed and the line following a
method was lost.
---
 .../file_modifiers/py_file_modifier.py        | 59 ++++++-------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/py_file_modifier.py b/lazy_type_hint/file_modifiers/py_file_modifier.py
index b75a838..1463281 100644
--- a/lazy_type_hint/file_modifiers/py_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/py_file_modifier.py
@@ -1,6 +1,6 @@
 import ast
 from collections.abc import Sequence
-from typing import Any, List, Literal, Tuple, Union, overload
+from typing import Any, List, Literal, Set, Tuple, Union, overload
 
 from lazy_type_hint.utils import TAB
 
@@ -188,50 +188,25 @@ class PyFileModifier:
         """
         Removes all private methods from the file.
 
-        This method iterates through the lines of the file and removes any lines
-        that define a private method. A private method is defined as a method that
-        starts with an underscore (_) character.
+        This method removes all lines (decorators and body included) that define a
+        private method. A private method is defined as a method that starts with a
+        single underscore (_) character.
 
         Note: This method modifies the object in-place.
         """
-        lines_to_remove: List[int] = []
-        for idx, line in enumerate(self.lines):
-            line_ = line.strip()
-            if line_.startswith("def _") and not line_.startswith("def __"):
-                idx_ = idx - 1
-                # Remove all decorators
-                if "@" in self.lines[idx_]:
-                    while "@" in self.lines[idx_]:
-                        lines_to_remove.append(idx_)
-                        idx_ -= 1
-
-                # Remove main function
-                lines_to_remove.append(idx)
-
-                idx_ = idx
-                # Remove all arguments if they are in multiple lines
-                while "):" not in self.lines[idx_] and "->" not in self.lines[idx_]:
-                    idx_ += 1
-                    lines_to_remove.append(idx_)
-
-                # Remove body of the method
-                # Count tabs
-                spaces = 0
-                for char in line:
-                    if char.isspace():
-                        spaces += 1
-                    else:
-                        break
-
-                idx_ += 1
-                while len(self.lines) > idx_ and len(self.lines[idx_]) > spaces and self.lines[idx_][spaces].isspace():
-                    lines_to_remove.append(idx_)
-                    idx_ += 1
-                if len(self.lines) > idx_:
-                    lines_to_remove.append(idx_)
-
-        for idx in sorted(lines_to_remove)[::-1]:
-            self.lines.pop(idx)
+        lines_to_remove: Set[int] = set()
+        for node in ast.walk(ast.parse(str(self))):
+            if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
+                continue
+            if node.name.startswith("_") and not node.name.startswith("__"):
+                first_line = min([node.lineno, *(decorator.lineno for decorator in node.decorator_list)])
+                last_line: int = node.end_lineno  # type: ignore
+                lines_to_remove.update(range(first_line - 1, last_line))
+                # Remove also the empty line that separates it from the next statement
+                if last_line < len(self.lines) and not self.lines[last_line].strip():
+                    lines_to_remove.add(last_line)
+
+        self.lines = [line for idx, line in enumerate(self.lines) if idx not in lines_to_remove]
 
     def remove_all_instance_variables(self, class_name: str) -> None:
         """
-- 
2.43.0


From faa3e334cfe39ed906d33f6508504c2977f715e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:28 +0000
Subject: [PATCH 29/33] fix: hint text streams as such

These are also iterators, so that they were read to hint their lines.
---
 lazy_type_hint/data_type_tree/data_type_tree.py       | 11 ++++++-----
 .../generic_type/iterator_data_type_tree.py           |  3 ++-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lazy_type_hint/data_type_tree/data_type_tree.py b/lazy_type_hint/data_type_tree/data_type_tree.py
index ae3d480..3018dd5 100644
--- a/lazy_type_hint/data_type_tree/data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/data_type_tree.py
@@ -107,11 +107,12 @@ class DataTypeTree(ABC):
         if type(data) in DataTypeTree.subclasses:
             return DataTypeTree.subclasses[type(data)]
 
-        for subclass in DataTypeTree.subclasses.values():
-            for wrap in subclass.wraps:
-                if isinstance(data, wrap):
-                    return subclass
-        return DataTypeTree.subclasses[int]  # For instances created from any custom class.
+        candidates = [type_ for type_ in DataTypeTree.subclasses if isinstance(data, type_)]
+        for type_ in candidates:
+            if all(issubclass(type_, other) for other in candidates):  # E.g. streams are also iterators
+                return DataTypeTree.subclasses[type_]
+        # `int` for instances created from any custom class
+        return DataTypeTree.subclasses[candidates[0] if candidates else int]
 
     def _check_tree_is_correct_one(self, data: object) -> None:
         if not any(isinstance(data, wraps_) for wraps_ in self.wraps):
diff --git a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
index fe641fe..6eb0a57 100644
--- a/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/iterator_data_type_tree.py
@@ -1,4 +1,5 @@
-from typing import Any, Iterator, Sequence, Tuple
+from collections.abc import Iterator
+from typing import Any, Sequence, Tuple
 
 from typing_extensions import override
 
-- 
2.43.0


From d7eeb782995e80794a385aa962423621f7063a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:58 +0000
Subject: [PATCH 30/33] fix: keep all types found within iterators when their
 dictionaries are merged

---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 205e5ef..4be7af1 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -368,7 +368,7 @@ class DictDataTypeTree(MappingDataTypeTree):
         """Reuse the children of the original trees whose data could not be iterated over a second time."""
         for tree in trees:
             for key, child in tree.children.items():
-                if child.holding_type is self.children[key].holding_type and child != self.children[key]:
+                if child.holding_type is type(self.data[key]) and child != self.children[key]:
                     child.rename(self.children[key].name)
                     self.children[key] = child
         self.height = self._get_height()
-- 
2.43.0


From 3a09354edf9f67f39088771f70d314346aba34da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 31/33] fix: take only comment lines as block comments

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index 5255977..c4499b3 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -200,7 +200,11 @@ class YamlFileModifier:
         increment = step
         multi_line_comments: List[str] = []
         with suppress(IndexError):
-            while line_idx + increment >= 0 and self.lines[line_idx + increment][idx_first_char] == "#":
+            while (
+                line_idx + increment >= 0
+                and self.lines[line_idx + increment][idx_first_char] == "#"
+                and not self.lines[line_idx + increment][:idx_first_char].strip()
+            ):
                 multi_line_comments.append(self.lines[line_idx + increment][idx_first_char + 1 :].strip())
                 increment += step
 
-- 
2.43.0


From 0fcdd336953230e2dbf629999646b586c97d6d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:46 +0000
Subject: [PATCH 32/33] fix: keep the temporary copies of different YAML files
 apart

---
 lazy_type_hint/file_modifiers/yaml_file_modifier.py | 4 ++--
 lazy_type_hint/generators/lazy_type_hint_abc.py     | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lazy_type_hint/file_modifiers/yaml_file_modifier.py b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
index c4499b3..253383d 100644
--- a/lazy_type_hint/file_modifiers/yaml_file_modifier.py
+++ b/lazy_type_hint/file_modifiers/yaml_file_modifier.py
@@ -425,9 +425,9 @@ class YamlFileModifier:
         The comments are extracted from the original file and added as keys in the new file.
 
         Returns:
-            Path: The path to the newly created YAML file.
+            Path: The path to the newly created YAML file. It lies in a directory of its own.
         """
         string = self._create_temporary_string_with_comments_as_keys()
-        path = Path(tempfile.gettempdir()) / f"_{self.path.name}"
+        path = Path(tempfile.mkdtemp()) / f"_{self.path.name}"
         path.write_text(string)
         return path
diff --git a/lazy_type_hint/generators/lazy_type_hint_abc.py b/lazy_type_hint/generators/lazy_type_hint_abc.py
index 301393f..7f90979 100644
--- a/lazy_type_hint/generators/lazy_type_hint_abc.py
+++ b/lazy_type_hint/generators/lazy_type_hint_abc.py
@@ -83,8 +83,12 @@ class LazyTypeHintABC(ABC):
         yaml_file_modifier = YamlFileModifier(path, comments_are=comments_are)
         data = loader(path)
         try:
-            new_path: PathT = type(path)(yaml_file_modifier.create_temporary_file_with_comments_as_keys())
-            documented_data = loader(new_path)
+            temporary_path = yaml_file_modifier.create_temporary_file_with_comments_as_keys()
+            try:
+                documented_data = loader(type(path)(temporary_path))
+            finally:
+                temporary_path.unlink()
+                temporary_path.parent.rmdir()
             data_without_comments = self._remove_hidden_keys(documented_data)
             if data_without_comments == data or repr(data_without_comments) == repr(data):
                 return data, documented_data
-- 
2.43.0


From b70cb9e20d4424cd1e13398135c8638f5dd4dee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:54 +0000
Subject: [PATCH 33/33] fix: keep the types found within equal iterators of
 different kinds

---
 .../data_type_tree/generic_type/dict_data_type_tree.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
index 4be7af1..73f59ea 100644
--- a/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
+++ b/lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py
@@ -368,7 +368,7 @@ class DictDataTypeTree(MappingDataTypeTree):
         """Reuse the children of the original trees whose data could not be iterated over a second time."""
         for tree in trees:
             for key, child in tree.children.items():
-                if child.holding_type is type(self.data[key]) and child != self.children[key]:
+                if type(tree.data[key]) is type(self.data[key]) and child != self.children[key]:
                     child.rename(self.children[key].name)
                     self.children[key] = child
         self.height = self._get_height()
-- 
2.43.0

