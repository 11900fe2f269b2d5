From ee192b11df42b5b3caf91c809828b39aeeb50bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:59 +0000
Subject: [PATCH 01/33] fix: generate within bounds that lie outside the
 default range

schema.int.min(2 ** 63), schema.float.max(-1e19), schema.str.len(40, ...) and
schema.list.len(20, ...) made fake() raise, because the undeclared bound fell
back to a default on the wrong side of the declared one.
---
 d42/generation/_generator.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index ac1b55b..6eb076f 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -70,6 +70,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
+        if schema.props.max is Nil:
+            max_value = max(min_value, max_value)
         return self._random.random_int(min_value, max_value)
 
     def visit_float(self, schema: FloatSchema, **kwargs: Any) -> float:
@@ -78,6 +82,10 @@ class Generator(SchemaVisitor[Any]):
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
         max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        if schema.props.min is Nil:
+            min_value = min(min_value, max_value)
+        if schema.props.max is Nil:
+            max_value = max(min_value, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
 
         if precision is not Nil:
@@ -100,6 +108,8 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
+            if schema.props.max_len is Nil:
+                max_length = max(min_length, max_length)
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.alphabet is not Nil:
@@ -137,6 +147,8 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.max_len is not Nil:
                 max_length = schema.props.max_len
                 is_length_specified = True
+            else:
+                max_length = max(min_length, max_length)
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.type is not Nil:
-- 
2.43.0


From 9ad7cf3666fe9b73aedd873d40ed4e5d47b5cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:16 +0000
Subject: [PATCH 02/33] fix: generate the empty string for an empty alphabet

fake(schema.str.alphabet("")) raised IndexError, although "" conforms.
---
 d42/generation/_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 6eb076f..33bf1a5 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -117,6 +117,9 @@ class Generator(SchemaVisitor[Any]):
         else:
             alphabet = STR_ALPHABET
 
+        if len(alphabet) == 0:
+            return ""
+
         if schema.props.substr is not Nil:
             substr = schema.props.substr
             generated = self._random.random_str(length - len(substr), alphabet)
-- 
2.43.0


From 98aafe6a56d274db04f677b52a8474efe1d2ddc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 03/33] fix: generate lists with `...` that satisfy the
 declared len

fake(schema.list([schema.int, ...]).len(3)) returned one element only.
---
 d42/generation/_generator.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 33bf1a5..eb91c0f 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -1,5 +1,5 @@
 from datetime import date, datetime, timedelta
-from typing import Any, Dict, List
+from typing import Any, Dict, List, cast
 from uuid import UUID, uuid4
 
 from niltype import Nil
@@ -128,6 +128,18 @@ class Generator(SchemaVisitor[Any]):
 
         return self._random.random_str(length, alphabet)
 
+    def _pad_elements(self, schema: ListSchema, elements: List[Any]) -> List[Any]:
+        declared = cast(List[Any], schema.props.elements)
+        if not any(is_ellipsis(x) for x in declared):
+            return elements
+
+        length = schema.props.len if (schema.props.len is not Nil) else schema.props.min_len
+        if length is Nil:
+            return elements
+
+        padding: List[Any] = [[] for _ in range(length - len(elements))]
+        return padding + elements if is_ellipsis(declared[0]) else elements + padding
+
     def visit_list(self, schema: ListSchema, **kwargs: Any) -> List[Any]:
         if schema.props.elements is not Nil:
             elements = []
@@ -135,7 +147,7 @@ class Generator(SchemaVisitor[Any]):
                 if is_ellipsis(elem):
                     continue
                 elements.append(elem.__accept__(self, **kwargs))
-            return elements
+            return self._pad_elements(schema, elements)
 
         is_length_specified = False
         if schema.props.len is not Nil:
-- 
2.43.0


From 2f20007bbd0270ed54cffc7ade165b2136acea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:56 +0000
Subject: [PATCH 04/33] fix: keep random floats within the requested range

The precision grid was truncated towards zero, so schema.float.min(0.15)
.precision(1) could generate 0.1; a wide or infinite range generated inf.
---
 d42/generation/_random.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index aeb3873..3792edc 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,4 +1,7 @@
 import random
+from fractions import Fraction
+from math import ceil, floor
+from sys import float_info
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -20,16 +23,27 @@ class Random:
         if start > end:
             raise ValueError("random_float: start must be <= end")
 
+        if start == end:
+            return start
+        start, end = max(start, -float_info.max), min(end, float_info.max)
+
         if precision is Nil:
-            return random.uniform(start, end)
+            return self._uniform(start, end)
 
         scale_factor = 10 ** precision
-        left_number = int(start * scale_factor)
-        right_number = int(end * scale_factor)
+        left_number = ceil(Fraction(start) * scale_factor)
+        right_number = floor(Fraction(end) * scale_factor)
+        if left_number > right_number:
+            return self._uniform(start, end)
 
         result = cast(float, self.random_int(left_number, right_number) / scale_factor)
         return round(result, precision)
 
+    def _uniform(self, start: float, end: float) -> float:
+        # halved, so that the width of the range does not overflow
+        result = 2 * random.uniform(start / 2, end / 2)
+        return min(max(result, start), end)
+
     def random_str(self, length: int, alphabet: str) -> str:
         return "".join(random.choice(alphabet) for _ in range(length))
 
-- 
2.43.0


From 64f4fa1d2e285ae426eef8ce4bdf1e6983d7e9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 05/33] fix: do not take a repeat count of 44 for an unbounded
 one

The opcode MAX_REPEAT compares equal to 44, so x{0,44} was generated with up to
max_repeat repetitions.
---
 d42/generation/_regex_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 428c229..cec2b25 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -111,7 +111,7 @@ class RegexGenerator:
 
     def _generate_max_repeat(self, value: Tuple[int, int, List[Any]]) -> str:
         min_count, max_count, val = value
-        if max_count in (MAX_REPEAT, MAXREPEAT):
+        if max_count == MAXREPEAT:
             max_count = max(self._max_repeat, min_count)
         count = self._random.random_int(min_count, max_count)
         return "".join(self._generate_pattern(val) for _ in range(count))
-- 
2.43.0


From 2307446703fa57793d6a2062642a2d1e79038a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 06/33] fix: generate for a negated class that excludes the
 whole alphabet

fake(schema.str.regex("[^ -~]")) raised IndexError.
---
 d42/generation/_regex_generator.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index cec2b25..02a5375 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,8 +104,19 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
+        if len(letters) == 0:
+            return self._generate_outside(exclude_letters)
         return self._random.random_choice(letters)
 
+    def _generate_outside(self, exclude_letters: str) -> str:
+        excluded = set(exclude_letters)
+        for ordinal in range(sys.maxunicode + 1):
+            letter = self._generate_literal(ordinal)
+            # neither \d nor \w covers it, whatever part of them was excluded
+            if letter not in excluded and letter != "_" and not letter.isalnum():
+                return letter
+        raise ValueError("No character is left outside of the set")
+
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
 
-- 
2.43.0


From e9accf4d7a245c476d41a41fa4c0eb032bbf52bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:42 +0000
Subject: [PATCH 07/33] fix: make seeded generation of negated classes
 reproducible

The candidates were joined in set order, which depends on the hash seed of the
interpreter, so the same seed gave different strings in different runs.
---
 d42/generation/_regex_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 02a5375..a047ef0 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -106,7 +106,10 @@ class RegexGenerator:
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
         if len(letters) == 0:
             return self._generate_outside(exclude_letters)
-        return self._random.random_choice(letters)
+        # the order of a set of strings differs between interpreter runs, so only the
+        # position is taken from the random choice
+        position = letters.index(self._random.random_choice(letters))
+        return sorted(letters)[position]
 
     def _generate_outside(self, exclude_letters: str) -> str:
         excluded = set(exclude_letters)
-- 
2.43.0


From a6940da53a3b49152ed47419584cb5e20f623ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:15 +0000
Subject: [PATCH 08/33] fix: keep the declared len of an empty list in its repr

repr(schema.list([]).len(0)) was "schema.list([])".
---
 d42/representation/_representor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f9cd100..92b42ae 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -110,8 +110,6 @@ class Representor(SchemaVisitor[str]):
         if schema.props.type is not Nil:
             r += "({})".format(schema.props.type.__accept__(self, indent=indent, **kwargs))
         elif schema.props.elements is not Nil:
-            if len(schema.props.elements) == 0:
-                return r + "([])"
             elems = []
             for element in schema.props.elements:
                 if is_ellipsis(element):
@@ -119,9 +117,12 @@ class Representor(SchemaVisitor[str]):
                 else:
                     elem = element.__accept__(self, indent=indent + self._indent, **kwargs)
                 elems.append(" " * (indent + self._indent) + elem)
-            r += "([\n"
-            r += ",\n".join(elems)
-            r += "\n" + " " * indent + "])"
+            if len(elems) == 0:
+                r += "([])"
+            else:
+                r += "([\n"
+                r += ",\n".join(elems)
+                r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
             r += f".len({schema.props.len!r})"
-- 
2.43.0


From 1f4ebf3a63e24f1c7650332cbb13a08800d4dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:19 +0000
Subject: [PATCH 09/33] fix: copy the list of elements passed to schema.list

Later changes of the caller's list showed through in the schema.
---
 d42/declaration/types/_list_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_list_schema.py b/d42/declaration/types/_list_schema.py
index 0a98931..b0494ee 100644
--- a/d42/declaration/types/_list_schema.py
+++ b/d42/declaration/types/_list_schema.py
@@ -84,7 +84,7 @@ class ListSchema(Schema[ListProps]):
            is_ellipsis(elements_or_type[0]) and is_ellipsis(elements_or_type[-1]):
             raise DeclarationError("`...` must be first or last element")
 
-        return self.__class__(self.props.update(elements=elements_or_type))
+        return self.__class__(self.props.update(elements=[*elements_or_type]))
 
     def __declare_len(self, props: ListProps, length: Any) -> ListProps:
         if not isinstance(length, int):
-- 
2.43.0


From e1917143a984a8a8c759bd213e8056a2676420f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 10/33] fix: reject a regex after a declared max len

schema.str.regex(p).len(..., 3) is rejected, schema.str.len(..., 3).regex(p)
was accepted and could not be generated from.
---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 637cb17..2cf70f6 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -179,7 +179,7 @@ class StrSchema(Schema[StrProps]):
 
         if (self.props.pattern is not Nil) or (self.props.alphabet is not Nil) or \
            (self.props.len is not Nil) or (self.props.min_len is not Nil) or \
-           (self.props.len is not Nil) or (self.props.substr is not Nil):
+           (self.props.max_len is not Nil) or (self.props.substr is not Nil):
             raise make_already_declared_error(self)
 
         try:
-- 
2.43.0


From 673c43f4230001f8de54c9be10579e4695d691b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 11/33] fix: report every pattern that does not compile as
 DeclarationError

re.compile also raises OverflowError ("a{4294967296}"), RecursionError and
ValueError.
---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 2cf70f6..3cf252b 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except re.error as e:
+        except (re.error, OverflowError, RecursionError, ValueError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 0a82b78fe7c5ac771326f15389f242ccd252c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:46 +0000
Subject: [PATCH 12/33] fix: reject a fixed value of schema.uuid4 that is not a
 version 4 UUID

Such a schema rejected its own value.
---
 d42/declaration/types/_uuid4_schema.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d42/declaration/types/_uuid4_schema.py b/d42/declaration/types/_uuid4_schema.py
index c0a30a0..81188e3 100644
--- a/d42/declaration/types/_uuid4_schema.py
+++ b/d42/declaration/types/_uuid4_schema.py
@@ -6,7 +6,7 @@ from niltype import Nil, Nilable
 from .._props import Props
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
-from ..errors import make_already_declared_error, make_invalid_type_error
+from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
 from ._schema import Schema
 
 __all__ = ("UUID4Schema", "UUID4Props",)
@@ -29,4 +29,7 @@ class UUID4Schema(Schema[UUID4Props]):
         if self.props.value is not Nil:
             raise make_already_declared_error(self)
 
+        if value.version != 4:
+            raise DeclarationError(f"`{self!r}` value must be a UUID version 4, {value!r} given")
+
         return self.__class__(self.props.update(value=value))
-- 
2.43.0


From 6b1a1c2acf956e04778a6d20ded6d1cab9aa4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:10 +0000
Subject: [PATCH 13/33] fix: compare non-finite and huge floats with a fixed
 float value

validate(schema.float(1.5).precision(1), float("inf")) raised OverflowError,
nan raised ValueError, and schema.float(nan) rejected nan.
---
 d42/validation/_validator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 9724c45..39c027c 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose
+from math import isclose, isfinite, isnan
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -154,6 +154,12 @@ class Validator(SchemaVisitor[ValidationResult]):
 
         return result
 
+    def _is_scalable(self, actual: float, expected: float, precision: int) -> bool:
+        return isfinite(actual * 10 ** precision) and isfinite(expected * 10 ** precision)
+
+    def _is_same_float(self, actual: float, expected: float) -> bool:
+        return (actual == expected) or (isnan(actual) and isnan(expected))
+
     def visit_float(self, schema: FloatSchema, *,
                     value: Any = Nil, path: Nilable[PathHolder] = Nil,
                     **kwargs: Any) -> ValidationResult:
@@ -166,7 +172,11 @@ class Validator(SchemaVisitor[ValidationResult]):
 
         if schema.props.value is not Nil:
             if schema.props.precision is Nil:
-                if not isclose(value, schema.props.value):
+                if not (isclose(value, schema.props.value)
+                        or self._is_same_float(value, schema.props.value)):
+                    return result.add_error(ValueValidationError(path, value, schema.props.value))
+            elif not self._is_scalable(value, schema.props.value, schema.props.precision):
+                if not self._is_same_float(value, schema.props.value):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
             else:
                 scale_factor = 10 ** schema.props.precision
-- 
2.43.0


From 0704cd0f771d8d00a23dfa7cd6d147613f5d070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:15 +0000
Subject: [PATCH 14/33] fix: nan lies within no bounds of schema.float

validate(schema.float.min(0.0), nan) reported no error, and a nan bound or a nan
fixed value was accepted by the declaration of the other.
---
 d42/declaration/types/_float_schema.py | 4 ++--
 d42/validation/_validator.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/d42/declaration/types/_float_schema.py b/d42/declaration/types/_float_schema.py
index 607f444..a03ec32 100644
--- a/d42/declaration/types/_float_schema.py
+++ b/d42/declaration/types/_float_schema.py
@@ -67,7 +67,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.min is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value > self.props.value):
+        if (self.props.value is not Nil) and not (value <= self.props.value):
             raise make_incorrect_min_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(min=value))
@@ -79,7 +79,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.max is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value < self.props.value):
+        if (self.props.value is not Nil) and not (value >= self.props.value):
             raise make_incorrect_max_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(max=value))
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 39c027c..5f78ffa 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -186,11 +186,11 @@ class Validator(SchemaVisitor[ValidationResult]):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
-            if value < schema.props.min:
+            if not (value >= schema.props.min):
                 result.add_error(MinValueValidationError(path, value, schema.props.min))
 
         if schema.props.max is not Nil:
-            if value > schema.props.max:
+            if not (value <= schema.props.max):
                 result.add_error(MaxValueValidationError(path, value, schema.props.max))
 
         return result
-- 
2.43.0


From ced305f5eb21b305f8d8eed5fd803aec6bc5522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 15/33] fix: compare schemas structurally

schema.list([schema.any]) == schema.list([...]) and schema.list(alias of any) ==
schema.list were true, because a nested schema was compared with a non-schema by
validation; schema.float(nan) was unequal to itself rebuilt.
---
 d42/declaration/_props.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 8a3261a..a773d6b 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -1,3 +1,4 @@
+from math import isnan
 from typing import Any, Iterator, Mapping, TypeVar
 
 from niltype import Nil, Nilable
@@ -7,6 +8,20 @@ __all__ = ("Props", "PropsType",)
 PropsType = TypeVar("PropsType", bound="Props")
 
 
+def _is_equal(left: Any, right: Any) -> bool:
+    # `schema == value` tells whether the value is valid, so a schema among the properties
+    # must not be compared with anything but a schema
+    if hasattr(left, "__accept__") != hasattr(right, "__accept__"):
+        return False
+    if isinstance(left, (list, tuple)) and (type(left) is type(right)):
+        return (len(left) == len(right)) and all(map(_is_equal, left, right))
+    if isinstance(left, dict) and isinstance(right, dict):
+        return (left.keys() == right.keys()) and all(_is_equal(left[k], right[k]) for k in left)
+    if isinstance(left, float) and isinstance(right, float):
+        return (left == right) or (isnan(left) and isnan(right))
+    return bool(left == right)
+
+
 class Props:
     def __init__(self, registry: Nilable[Mapping[str, Any]] = Nil) -> None:
         self._registry = registry if (registry is not Nil) else {}
@@ -34,12 +49,12 @@ class Props:
 
         for key, val in self._registry.items():
             other_val = other.get(key)
-            if val != other_val:
+            if not _is_equal(val, other_val):
                 return False
 
         for key, other_val in other._registry.items():
             val = self.get(key)
-            if other_val != val:
+            if not _is_equal(other_val, val):
                 return False
 
         return True
-- 
2.43.0


From 8f860485fb44c8026ed2bfee6190a57c6f5e8bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 16/33] fix: report alphabet errors at the path of the string

---
 d42/validation/_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 5f78ffa..c4856d2 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -234,7 +234,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             for letter in value:
                 if letter not in alphabet:
                     return result.add_error(
-                        AlphabetValidationError(PathHolder(), value, schema.props.alphabet))
+                        AlphabetValidationError(path, value, schema.props.alphabet))
 
         return result
 
-- 
2.43.0


From 4e07c6ed949fde488d588ae3d2fe8f60ffc49741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 17/33] fix: do not deep-copy dict keys into error paths

The path of an error held a copy of the key, which is another key when the key is
compared by identity, and validation raised when the key could not be copied.
---
 d42/substitution/_validator.py |  5 ++---
 d42/validation/_formatter.py   |  5 ++---
 d42/validation/_validator.py   | 13 +++++++++----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/d42/substitution/_validator.py b/d42/substitution/_validator.py
index 20cb90e..4de8de3 100644
--- a/d42/substitution/_validator.py
+++ b/d42/substitution/_validator.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any
 
 from niltype import Nil, Nilable
@@ -48,7 +47,7 @@ class SubstitutorValidator(Validator):
             for index, elem in enumerate(value):
                 if is_ellipsis(elem) and (index == 0 or index == len(value) - 1):
                     continue
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -74,7 +73,7 @@ class SubstitutorValidator(Validator):
             if key in value:
                 if is_ellipsis(value[key]):
                     continue
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
 
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 362ed12..cce2273 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any, Sequence
 
 from th import PathHolder
@@ -115,7 +114,7 @@ class Formatter(AbstractFormatter):
                 f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
-        path = deepcopy(error.path)
+        path = PathHolder(self._root, [x for x in error.path])
         formatted_path = self._format_path(path[error.index])
         return f"Element {formatted_path} does not exist"
 
@@ -124,7 +123,7 @@ class Formatter(AbstractFormatter):
         return f"Value{formatted_path} contains extra element at index {error.index!r}"
 
     def format_missing_key_error(self, error: MissingKeyValidationError) -> str:
-        path = deepcopy(error.path)
+        path = PathHolder(self._root, [x for x in error.path])
         formatted_path = self._format_path(path[error.missing_key])
         return f"Key {formatted_path} does not exist"
 
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index c4856d2..84a24d3 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,5 +1,4 @@
 import re
-from copy import deepcopy
 from datetime import date, datetime
 from math import isclose, isfinite, isnan
 from typing import Any, Callable, List, Optional, Type, cast
@@ -64,6 +63,12 @@ class Validator(SchemaVisitor[ValidationResult]):
     def make_path(self) -> PathHolder:
         return self._path_holder_factory()
 
+    def _make_nested_path(self, path: PathHolder, key: Any) -> PathHolder:
+        # keys are not copied: they may not be copyable, and a copy may be another key
+        if isinstance(path, PathHolder):
+            path = path.__class__(path.__name__, [*path])
+        return path[key]
+
     def _validate_type(self, path: PathHolder, value: Any,
                        expected_type: Type[Any]) -> Optional[ValidationError]:
         if not isinstance(value, expected_type):
@@ -91,7 +96,7 @@ class Validator(SchemaVisitor[ValidationResult]):
                 errors.append(MissingElementValidationError(path, value, real_index))
                 break
             else:
-                nested_path = deepcopy(path)[real_index]
+                nested_path = self._make_nested_path(path, real_index)
                 res = element_schema.__accept__(self, value=val, path=nested_path, **kwargs)
                 errors += res.get_errors()
         return errors
@@ -266,7 +271,7 @@ class Validator(SchemaVisitor[ValidationResult]):
         if schema.props.type is not Nil:
             type_schema = schema.props.type
             for index, elem in enumerate(value):
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -322,7 +327,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             if is_ellipsis(key):
                 continue
             if key in value:
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             else:
-- 
2.43.0


From 23fe60e60994e3deb404105a862764bb4fc7d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 18/33] fix: render errors about values whose repr is refused

The decimal form of an int of more than 4300 digits is refused with ValueError,
so formatting an error about such a value (or a container or key holding it)
raised.
---
 d42/declaration/_safe_repr.py | 11 +++++++++++
 d42/validation/_formatter.py  | 27 +++++++++++++++++----------
 2 files changed, 28 insertions(+), 10 deletions(-)
 create mode 100644 d42/declaration/_safe_repr.py

diff --git a/d42/declaration/_safe_repr.py b/d42/declaration/_safe_repr.py
new file mode 100644
index 0000000..e8a4a04
--- /dev/null
+++ b/d42/declaration/_safe_repr.py
@@ -0,0 +1,11 @@
+from typing import Any
+
+__all__ = ("safe_repr",)
+
+
+def safe_repr(value: Any) -> str:
+    try:
+        return repr(value)
+    except Exception:
+        # the decimal form of a huge int is refused with ValueError
+        return hex(value) if isinstance(value, int) else object.__repr__(value)
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index cce2273..5edccb8 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -2,6 +2,8 @@ from typing import Any, Sequence
 
 from th import PathHolder
 
+from d42.declaration._safe_repr import safe_repr
+
 from ._abstract_formatter import AbstractFormatter
 from .errors import (
     AlphabetValidationError,
@@ -34,7 +36,10 @@ class Formatter(AbstractFormatter):
         return self._root
 
     def _format_path(self, path: PathHolder) -> str:
-        return str(path.__class__(self._root, [x for x in path]))
+        try:
+            return str(path.__class__(self._root, [x for x in path]))
+        except Exception:
+            return self._root + "".join(f"[{safe_repr(x.operand)}]" for x in path)
 
     def _at_path(self, path: PathHolder) -> str:
         return " at " + self._format_path(path) if len(path) > 0 else ""
@@ -48,28 +53,29 @@ class Formatter(AbstractFormatter):
     def format_type_error(self, error: TypeValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
-        return (f"Value {error.actual_value!r}{formatted_path} "
+        return (f"Value {safe_repr(error.actual_value)}{formatted_path} "
                 f"must be {error.expected_type}, but {actual_type} given")
 
     def format_value_error(self, error: ValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be equal to {error.expected_value!r}, but {error.actual_value!r} given")
+                f"must be equal to {safe_repr(error.expected_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_min_value_error(self, error: MinValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be greater than or equal to {error.min_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be greater than or equal to {safe_repr(error.min_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_max_value_error(self, error: MaxValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be less than or equal to {error.max_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be less than or equal to {safe_repr(error.max_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def _format_length_error(self, path: PathHolder, actual_value: Any,
                              length: int, accuracy: str) -> str:
@@ -79,7 +85,7 @@ class Formatter(AbstractFormatter):
         options = ("element", "elements")
         return (
             f"Value {actual_type}{formatted_path} "
-            f"must have {accuracy} {length} {self._pluralize(length, options)}, "
+            f"must have {accuracy} {safe_repr(length)} {self._pluralize(length, options)}, "
             f"but it has {actual_len} {self._pluralize(actual_len, options)}"
         )
 
@@ -129,13 +135,14 @@ class Formatter(AbstractFormatter):
 
     def format_extra_key_error(self, error: ExtraKeyValidationError) -> str:
         formatted_path = self._at_path(error.path)
-        return f"Value{formatted_path} contains extra key {error.extra_key!r}"
+        return f"Value{formatted_path} contains extra key {safe_repr(error.extra_key)}"
 
     def format_schema_missmatch_error(self, error: SchemaMismatchValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match any of {error.expected_schemas!r}, but {error.actual_value!r} given")
+                f"must match any of {error.expected_schemas!r}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_invalid_uuid_version_error(self, error: InvalidUUIDVersionValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
-- 
2.43.0


From 759ef6d3f334d9f8d87bac23ba1fa4d820f34236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 19/33] fix: declare and represent huge ints whose decimal repr
 is refused

---
 d42/declaration/errors/__init__.py | 18 +++++++++++-------
 d42/representation/_representor.py | 26 ++++++++++++++------------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/d42/declaration/errors/__init__.py b/d42/declaration/errors/__init__.py
index 1dceac9..4da0905 100644
--- a/d42/declaration/errors/__init__.py
+++ b/d42/declaration/errors/__init__.py
@@ -1,5 +1,7 @@
 from typing import TYPE_CHECKING, Any, Sized, Tuple, Type
 
+from .._safe_repr import safe_repr
+
 if TYPE_CHECKING:
     from ..types import GenericSchema
 
@@ -25,7 +27,7 @@ def make_invalid_type_error(schema: "GenericSchema", value: Any,
     types_ = tuple(map(_get_type_name, types))
     if len(types) == 1:
         message = (f"`{schema!r}` value must be an instance of '{_get_type_name(types[0])}', "
-                   f"instance of {value_type_name!r} {value!r} given")
+                   f"instance of {value_type_name!r} {safe_repr(value)} given")
     else:
         message = (f"`{schema!r}` value must be an instance of {types_!r}, "
                    f"instance of {value_type_name!r} given")
@@ -39,38 +41,40 @@ def make_already_declared_error(schema: "GenericSchema") -> DeclarationError:
 
 def make_incorrect_min_error(schema: "GenericSchema",
                              value: Any, min_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` min value must be less than or equal to {value}, {min_value} given"
+    message = (f"`{schema!r}` min value must be less than or equal to {safe_repr(value)}, "
+               f"{safe_repr(min_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_error(schema: "GenericSchema",
                              value: Any, max_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` max value must be greater than or equal to {value}, {max_value} given"
+    message = (f"`{schema!r}` max value must be greater than or equal to {safe_repr(value)}, "
+               f"{safe_repr(max_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_len_error(schema: "GenericSchema",
                              value: Sized, length: int) -> DeclarationError:
-    message = f"`{schema!r}` len must be equal to {len(value)}, {length} given"
+    message = f"`{schema!r}` len must be equal to {len(value)}, {safe_repr(length)} given"
     return DeclarationError(message)
 
 
 def make_incorrect_min_len_error(schema: "GenericSchema",
                                  value: Sized, min_length: int) -> DeclarationError:
     message = (f"`{schema!r}` min len must be less than or equal to {len(value)}, "
-               f"{min_length} given")
+               f"{safe_repr(min_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_len_error(schema: "GenericSchema",
                                  value: Sized, max_length: int) -> DeclarationError:
     message = (f"`{schema!r}` max len must be greater than or equal to {len(value)}, "
-               f"{max_length} given")
+               f"{safe_repr(max_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_precision_error(schema: "GenericSchema",
                                    precision: int, max_precision: int) -> DeclarationError:
     message = (f"`{schema!r}` precision must be greater than 0 or less than {max_precision}, "
-               f"{precision} given")
+               f"{safe_repr(precision)} given")
     return DeclarationError(message)
diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index 92b42ae..594d068 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -3,6 +3,7 @@ from typing import Any, cast
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -51,13 +52,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.int"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({safe_repr(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({safe_repr(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({safe_repr(schema.props.max)})"
 
         return r
 
@@ -94,13 +95,13 @@ class Representor(SchemaVisitor[str]):
             r += f".regex({schema.props.pattern!r})"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({safe_repr(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({safe_repr(schema.props.min_len)}, {safe_repr(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({safe_repr(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {safe_repr(schema.props.max_len)})"
 
         return r
 
@@ -125,13 +126,13 @@ class Representor(SchemaVisitor[str]):
                 r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({safe_repr(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({safe_repr(schema.props.min_len)}, {safe_repr(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({safe_repr(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {safe_repr(schema.props.max_len)})"
 
         return r
 
@@ -151,7 +152,8 @@ class Representor(SchemaVisitor[str]):
             if is_ellipsis(key):
                 key_repr = val_repr = "..."
             else:
-                key_repr = f"optional({key!r})" if is_optional else repr(key)
+                key_repr = safe_repr(key)
+                key_repr = f"optional({key_repr})" if is_optional else key_repr
                 val_repr = val.__accept__(self, indent=indent + self._indent, **kwargs)
             pairs.append("{indent}{key}: {val}".format(
                 indent=" " * (indent + self._indent),
-- 
2.43.0


From 671319480cec7789dd7352601932fb230b3f1f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 20/33] fix: represent non-finite floats as evaluable
 expressions

---
 d42/representation/_representor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index 594d068..8a5582f 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -1,3 +1,4 @@
+from math import isfinite
 from typing import Any, cast
 
 from niltype import Nil
@@ -24,6 +25,13 @@ from d42.declaration.types import (
 from d42.utils import is_ellipsis
 
 
+def _repr_native(value: Any) -> str:
+    # `inf` and `nan` are not Python literals
+    if isinstance(value, float) and not isfinite(value):
+        return f"float({float.__repr__(value)!r})"
+    return safe_repr(value)
+
+
 class Representor(SchemaVisitor[str]):
     def __init__(self, name: str = "schema", indent: int = 4) -> None:
         self._name = name
@@ -66,13 +74,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.float"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({_repr_native(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({_repr_native(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({_repr_native(schema.props.max)})"
 
         if schema.props.precision is not Nil:
             r += f".precision({schema.props.precision!r})"
@@ -152,7 +160,7 @@ class Representor(SchemaVisitor[str]):
             if is_ellipsis(key):
                 key_repr = val_repr = "..."
             else:
-                key_repr = safe_repr(key)
+                key_repr = _repr_native(key)
                 key_repr = f"optional({key_repr})" if is_optional else key_repr
                 val_repr = val.__accept__(self, indent=indent + self._indent, **kwargs)
             pairs.append("{indent}{key}: {val}".format(
-- 
2.43.0


From 58f324146b31b5ddc6ec910ca6227d74e742032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 21/33] fix: name huge ints in dict and substitution errors

---
 d42/declaration/types/_dict_schema.py | 5 +++--
 d42/substitution/_substitutor.py      | 5 +++--
 d42/utils/_make_required.py           | 7 ++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/d42/declaration/types/_dict_schema.py b/d42/declaration/types/_dict_schema.py
index e3e458c..2f28379 100644
--- a/d42/declaration/types/_dict_schema.py
+++ b/d42/declaration/types/_dict_schema.py
@@ -5,6 +5,7 @@ from niltype import Nil, Nilable
 
 from .._is_ellipsis import TypeOrEllipsis, is_ellipsis
 from .._props import Props
+from .._safe_repr import safe_repr
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
 from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
@@ -43,10 +44,10 @@ class DictSchema(Schema[DictProps]):
         for key, val in keys.items():
             if is_ellipsis(key) or is_ellipsis(val):
                 if not is_ellipsis(key):
-                    message = f"Inappropriate type of key {key!r} ({type(key)!r})"
+                    message = f"Inappropriate type of key {safe_repr(key)} ({type(key)!r})"
                     raise DeclarationError(message)
                 if not is_ellipsis(val):
-                    message = f"Inappropriate type of value {val!r} ({type(val)!r})"
+                    message = f"Inappropriate type of value {safe_repr(val)} ({type(val)!r})"
                     raise DeclarationError(message)
             else:
                 if not isinstance(val, Schema):
diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 93f4c15..1851d9b 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, List, Optional, cast
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -47,7 +48,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         try:
             return from_native(value)
         except ValueError:
-            raise SubstitutionError(f"Can't convert {value!r} to schema")
+            raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
@@ -184,7 +185,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     keys[key] = (val, is_optional)
             for key, val in value.items():
                 if key not in schema.props.keys:
-                    raise SubstitutionError(f"Unknown key {key!r}")
+                    raise SubstitutionError(f"Unknown key {safe_repr(key)}")
 
         return schema.__class__(schema.props.update(keys=keys))
 
diff --git a/d42/utils/_make_required.py b/d42/utils/_make_required.py
index 32b4191..0df4824 100644
--- a/d42/utils/_make_required.py
+++ b/d42/utils/_make_required.py
@@ -2,6 +2,7 @@ from typing import Any, List, Optional, Set, Tuple, Union
 
 from niltype import Nil
 
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.errors import DeclarationError
 from d42.declaration.types import DictSchema
 
@@ -14,11 +15,11 @@ RequiredKeysType = Union[Set[str], List[str], Tuple[str, ...]]
 def make_required(schema: Union[DictSchema, Any],
                   keys: Optional[RequiredKeysType] = None) -> DictSchema:
     if not isinstance(schema, DictSchema):
-        message = f"Inappropriate type of schema {schema!r} ({type(schema)!r})"
+        message = f"Inappropriate type of schema {safe_repr(schema)} ({type(schema)!r})"
         raise DeclarationError(message)
 
     if not isinstance(keys, (set, list, tuple, type(None))):
-        message = f"Inappropriate type of keys {keys!r} ({type(keys)!r})"
+        message = f"Inappropriate type of keys {safe_repr(keys)} ({type(keys)!r})"
         raise DeclarationError(message)
 
     if keys is None:
@@ -27,7 +28,7 @@ def make_required(schema: Union[DictSchema, Any],
     props_keys = schema.props.keys if (schema.props.keys is not Nil) else {}
     for key in keys:
         if key not in props_keys:
-            message = f"Nonexisting key {key!r}"
+            message = f"Nonexisting key {safe_repr(key)}"
             raise DeclarationError(message)
 
     if schema.props.keys is Nil:
-- 
2.43.0


From eb2e166df22b92ab4d329986136daba19fbda3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 22/33] fix: reject an alias of a non-schema

---
 d42/declaration/_schema_facade.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/declaration/_schema_facade.py b/d42/declaration/_schema_facade.py
index dc15130..0b4edc6 100644
--- a/d42/declaration/_schema_facade.py
+++ b/d42/declaration/_schema_facade.py
@@ -1,5 +1,6 @@
 from typing import Any
 
+from .errors import make_invalid_type_error
 from .types import (
     AnySchema,
     BoolSchema,
@@ -12,6 +13,7 @@ from .types import (
     IntSchema,
     ListSchema,
     NoneSchema,
+    Schema,
     StrSchema,
     TypeAliasProps,
     TypeAliasSchema,
@@ -23,6 +25,8 @@ __all__ = ("SchemaFacade",)
 
 class SchemaFacade:
     def alias(self, /, name: str, type_: GenericSchema) -> TypeAliasSchema:
+        if not isinstance(type_, Schema):
+            raise make_invalid_type_error(TypeAliasSchema(), type_, (Schema,))
         props = TypeAliasProps()
         return TypeAliasSchema(props.update(name=name, type=type_))
 
-- 
2.43.0


From c1ae08a6e0fece2ed179179a3cd4cac5121bffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 23/33] fix: refuse a value that substitutes into no
 alternative of any

---
 d42/substitution/_substitutor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 1851d9b..84cfa80 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -205,6 +205,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     types.append(substituted)
+            if len(types) == 0:
+                raise SubstitutionError(f"Can't substitute {safe_repr(value)} "
+                                        f"into any of {schema!r}")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
-- 
2.43.0


From 715fe3ab8aa887655bb870e10e687a6a70419c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 24/33] fix: refuse a value that substitutes into no window of
 a list

---
 d42/substitution/_substitutor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 84cfa80..1fcff34 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -145,6 +145,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     return schema.__class__(schema.props.update(elements=substituted))
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into {schema!r}")
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
-- 
2.43.0


From d4a363d04315252aca16af72caa8024a40f02adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:31 +0000
Subject: [PATCH 25/33] fix: refuse a placeholder in the middle of a
 substituted list

---
 d42/substitution/_substitutor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 1fcff34..394447b 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -115,6 +115,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         if len(value) > 0 and all(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute all ...")
 
+        if any(is_ellipsis(x) for x in value[1:-1]):
+            raise SubstitutionError("Can't substitute ... in the middle")
+
         if (schema.props.elements is Nil) and (schema.props.type is Nil):
             elements = []
             for val in value:
@@ -133,7 +136,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
             return schema.__class__(schema.props.update(elements=elements, type=Nil))
 
         elements = cast(List[GenericSchema], schema.props.elements)
-        if ... in value:
+        if any(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute ...")
 
         # body
-- 
2.43.0


From fa741f2f9c55aa185c45878a53e7f6514ebd0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:35 +0000
Subject: [PATCH 26/33] fix: refuse a placeholder without a declared key in a
 dict

---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 394447b..0285e78 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -173,6 +173,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         keys: Dict[Any, Any] = {}
         if schema.props.keys is Nil or (len(schema.props.keys) == 1 and ... in schema.props.keys):
             for key, val in value.items():
+                if is_ellipsis(key) != is_ellipsis(val):
+                    raise SubstitutionError("Can't substitute ...")
                 keys[key] = (... if is_ellipsis(val) else self._from_native(val), False)
             if (schema.props.keys is not Nil) and (... in schema.props.keys):
                 keys[...] = (..., False)
-- 
2.43.0


From f6e97870dbf8db183627d82f9baa150803ee600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:13 +0000
Subject: [PATCH 27/33] fix: keep the fixed float when substituting a value
 close to it

---
 d42/substitution/_substitutor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 0285e78..b11ccf1 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -78,6 +78,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         result = schema.__accept__(self._validator, value=value)
         if result.has_errors():
             raise make_substitution_error(result, self._formatter)
+        if schema.props.value is not Nil:
+            # the value may differ from the fixed one within the tolerance
+            return schema.__class__(schema.props)
         return schema.__class__(schema.props.update(value=value))
 
     def visit_str(self, schema: StrSchema, *, value: Any = Nil, **kwargs: Any) -> StrSchema:
-- 
2.43.0


From a6254eaed3302a5cafc0877a995b124d94c51f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 28/33] fix: refuse native dicts with ... or optional keys

---
 d42/utils/_from_native.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index b281e5f..c11b371 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -2,6 +2,7 @@ from datetime import date, datetime
 from typing import Any
 from uuid import UUID
 
+from d42.declaration._is_ellipsis import is_ellipsis
 from d42.declaration.types import (
     BoolSchema,
     BytesSchema,
@@ -15,6 +16,7 @@ from d42.declaration.types import (
     NoneSchema,
     StrSchema,
     UUID4Schema,
+    optional,
 )
 
 __all__ = ("from_native",)
@@ -34,6 +36,8 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, list):
         return ListSchema()([from_native(x) for x in value])
     elif isinstance(value, dict):
+        if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
+            raise ValueError(value)
         return DictSchema()({key: from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
-- 
2.43.0


From 6840924073dccc9201cd31f0b594f18074c1296e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:33 +0000
Subject: [PATCH 29/33] fix: rewrite only imports of mapped names and only
 their text

---
 d42/migration/migrate_v1_to_v2.py | 33 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 65560f5..2665480 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -136,7 +136,8 @@ MappingType = Dict[str, Dict[str, Tuple[str, str]]]
 
 
 def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
-    lines = source_code.splitlines(keepends=True)
+    # ast counts columns in bytes, and lines by the line breaks of bytes.splitlines()
+    lines = source_code.encode().splitlines(keepends=True)
     tree = ast.parse(source_code)
     replacements = []
 
@@ -160,28 +161,32 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
                     import_name = f"{name} as {asname}" if asname else name
                     unmapped_names.append(import_name)
 
-            # Build replacement lines
-            replacement_lines = []
+            if len(new_imports) == 0:
+                continue
+
+            # Build replacement imports
+            replacement = []
             for new_module, names in new_imports.items():
                 names_str = ', '.join(names)
-                replacement_lines.append(f'from {new_module} import {names_str}\n')
+                replacement.append(f'from {new_module} import {names_str}')
             if unmapped_names:
                 names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}\n')
-
-            # Get line numbers
-            start_line = node.lineno - 1  # Convert to 0-based index
-            end_line = getattr(node, 'end_lineno', node.lineno) - 1
-            replacements.append((start_line, end_line, replacement_lines))
+                replacement.append(f'from {module} import {names_str}')
+            replacements.append((node, '\n'.join(replacement).encode()))
 
     if len(replacements) == 0:
         return None
 
-    # Apply replacements in reverse order to maintain line indices
-    for start_line, end_line, replacement_lines in reversed(replacements):
-        lines[start_line:end_line+1] = replacement_lines
+    # Apply replacements in reverse order to maintain positions; a line may be
+    # shared with other statements
+    for node, replacement_code in reversed(replacements):
+        start_line = node.lineno - 1  # Convert to 0-based index
+        end_line = (node.end_lineno or node.lineno) - 1
+        before = lines[start_line][:node.col_offset]
+        after = lines[end_line][node.end_col_offset:]
+        lines[start_line:end_line+1] = [before + replacement_code + after]
 
-    return ''.join(lines)
+    return b''.join(lines).decode()
 
 
 def process_file(filepath: str, mapping: MappingType) -> None:
-- 
2.43.0


From 7b00e9c499f5d47d77ae29f82610484e5c4451d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 30/33] fix: migrate files that declare their encoding or start
 with a BOM

---
 d42/migration/migrate_v1_to_v2.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 2665480..4531ba4 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 import ast
 import os
+import tokenize
 from collections import defaultdict
 from typing import Dict, Tuple, Union
 
@@ -191,7 +192,9 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
 
 def process_file(filepath: str, mapping: MappingType) -> None:
     try:
-        with open(filepath, 'r', encoding='utf-8') as file:
+        with open(filepath, 'rb') as binary_file:
+            encoding, _ = tokenize.detect_encoding(binary_file.readline)
+        with open(filepath, 'r', encoding=encoding, newline='') as file:
             source_code = file.read()
 
         # Rewrite imports in the source code
@@ -199,7 +202,7 @@ def process_file(filepath: str, mapping: MappingType) -> None:
 
         if modified_code:
             # Write the modified code back to the file
-            with open(filepath, 'w', encoding='utf-8') as file:
+            with open(filepath, 'w', encoding=encoding, newline='') as file:
                 file.write(modified_code)
             print(f"Processed: {filepath}")
     except Exception as e:
-- 
2.43.0


From b0e11bbc34adeb729437c55504905809beeb865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 31/33] fix: substitute into the window of a list that the
 value matches

---
 d42/substitution/_substitutor.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index b11ccf1..ef46694 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -22,7 +22,7 @@ from d42.declaration.types import (
     UUID4Schema,
 )
 from d42.utils import from_native, is_ellipsis
-from d42.validation import Formatter, Validator
+from d42.validation import Formatter, Validator, validate
 
 from ._validator import SubstitutorValidator
 from .errors import SubstitutionError, make_substitution_error
@@ -144,13 +144,20 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         # body
         if (len(elements) > 2) and is_ellipsis(elements[0]) and is_ellipsis(elements[-1]):
+            partial: Optional[ListSchema] = None
             for index, val in enumerate(value):
                 try:
                     substituted = self._substitute_elements(value, elements[1:-1], index, **kwargs)
                 except SubstitutionError:
-                    pass
-                else:
-                    return schema.__class__(schema.props.update(elements=substituted))
+                    continue
+                substituted_schema = schema.__class__(schema.props.update(elements=substituted))
+                # a dict in the window may be given partially, look for a full match first
+                if not validate(substituted_schema, value).has_errors():
+                    return substituted_schema
+                if partial is None:
+                    partial = substituted_schema
+            if partial is not None:
+                return partial
             raise SubstitutionError(f"Can't substitute {safe_repr(value)} into {schema!r}")
 
         # head
-- 
2.43.0


From afe30dbae198282fe4fac4ae728630d781404f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:14 +0000
Subject: [PATCH 32/33] fix: refuse a substitution whose result rejects a
 conforming value

---
 d42/substitution/_substitutor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index ef46694..40b862e 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -156,7 +156,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     return substituted_schema
                 if partial is None:
                     partial = substituted_schema
-            if partial is not None:
+            if (partial is not None) and validate(schema, value).has_errors():
                 return partial
             raise SubstitutionError(f"Can't substitute {safe_repr(value)} into {schema!r}")
 
@@ -224,7 +224,12 @@ class Substitutor(SchemaVisitor[GenericSchema]):
             if len(types) == 0:
                 raise SubstitutionError(f"Can't substitute {safe_repr(value)} "
                                         f"into any of {schema!r}")
-        return schema.__class__(schema.props.update(types=tuple(types)))
+        substituted_schema = schema.__class__(schema.props.update(types=tuple(types)))
+        # the alternative that accepts the value may have refused the substitution
+        if (validate(substituted_schema, value).has_errors()
+                and not validate(schema, value).has_errors()):
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into {schema!r}")
+        return substituted_schema
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
         result = schema.__accept__(self._validator, value=value)
-- 
2.43.0


From f519a36b923d069a4892406b1fa13a63175f0acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:37 +0000
Subject: [PATCH 33/33] fix: do not truncate a migrated file that cannot be
 encoded

---
 d42/migration/migrate_v1_to_v2.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 4531ba4..40a6d99 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -201,9 +201,11 @@ def process_file(filepath: str, mapping: MappingType) -> None:
         modified_code = rewrite_imports(source_code, mapping)
 
         if modified_code:
+            # Encode first, a failure must not leave the file truncated
+            modified = modified_code.encode(encoding)
             # Write the modified code back to the file
-            with open(filepath, 'w', encoding=encoding, newline='') as file:
-                file.write(modified_code)
+            with open(filepath, 'wb') as output_file:
+                output_file.write(modified)
             print(f"Processed: {filepath}")
     except Exception as e:
         print(f"Error processing {filepath}: {e}")
-- 
2.43.0

