From 142b53d2012d3279b9aa337923f302ea589d6d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 01/88] fix: keep the inner transaction macro enabled when an
 inner group needs it

InnerTxn.write_teal unconditionally reset use_inner_txns_macro, so a program with an
inner_group called _itxn_group_begin/_itxn_group_submit without ever defining them.
---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..b56ae09 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From 4bf8eec75b5e224c560a5b4727adf98aa48ce55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 02/88] fix: accept the & operator in expressions

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 2a21431..6d47102 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -7,7 +7,7 @@ BinaryOp: a=Value op=BinaryOperator b=Value;
 BinaryOperator: '+' | '-' | '*' | '/' | '%'
     | '==' | '>=' | '<=' | '>' | '<' | '!='
     | '&&' | '||'
-    | '|' | '%' | '^'
+    | '|' | '&' | '^'
     | 'b+' | 'b-' | 'b/' | 'b*' | 'b%'
     | 'b==' | 'b!=' | 'b>=' | 'b<=' | 'b>' | 'b<'
     | 'b|' | 'b&' | 'b^';
-- 
2.43.0


From 41f4218e3f5367cc0c39708a87c8152f1bf3a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:42 +0000
Subject: [PATCH 03/88] fix: do not read the leading capitals of an enum name
 as a constant

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 6d47102..923eafd 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -35,7 +35,7 @@ GlobalField: 'Global.' field=FieldName;
 StructOrBoxField: name=Name '.' field=Name;
 Value: StdLibFunctionCall | FunctionCall | Field | StructOrBoxField | UnaryOp | Group | Integer | Bytes | Constant | Enum | Variable;
 Variable: name=Name;
-Constant: name=/([A-Z][A-Z_0-9]+)/;
+Constant: name=/([A-Z][A-Z_0-9]*)\b/;
 Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
-- 
2.43.0


From 96cd7070feedbf9443becbe769eeef2ff43b1f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:02 +0000
Subject: [PATCH 04/88] fix: compile array fields of the last inner transaction

---
 tealish/expression_nodes.py | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0e55aee..80c32b7 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -563,6 +563,36 @@ class InnerTxnField(BaseNode):
         return f"Itxn.{self.field}"
 
 
+class InnerTxnArrayField(BaseNode):
+    def __init__(
+        self,
+        field: str,
+        arrayIndex: Union[Constant, Integer],
+        parent: Optional[BaseNode] = None,
+    ) -> None:
+        self.field = field
+        self.arrayIndex = arrayIndex
+        self.type = AVMType.any
+        self.parent = parent
+
+    def process(self) -> None:
+        self.type = self.get_field_type("txn", self.field)
+        if not isinstance(self.arrayIndex, Integer):
+            # index is an expression that needs to be evaluated
+            self.arrayIndex.process()
+
+    def write_teal(self, writer: "TealWriter") -> None:
+        if not isinstance(self.arrayIndex, Integer):
+            writer.write(self, self.arrayIndex)
+            writer.write(self, f"itxnas {self.field}")
+        else:
+            # index is a constant
+            writer.write(self, f"itxna {self.field} {self.arrayIndex.value}")
+
+    def _tealish(self) -> str:
+        return f"Itxn.{self.field}[{self.arrayIndex.tealish()}]"
+
+
 class StructOrBoxField(BaseNode):
     def __init__(self, name, field, parent=None) -> None:
         self.name = name
@@ -625,6 +655,7 @@ def class_provider(name: str) -> Optional[type]:
         "NegativeGroupIndex": NegativeGroupIndex,
         "GlobalField": GlobalField,
         "InnerTxnField": InnerTxnField,
+        "InnerTxnArrayField": InnerTxnArrayField,
         "StructOrBoxField": StructOrBoxField,
     }
     return classes.get(name)
-- 
2.43.0


From c21c905807bdb8aa80bd25ca3e64220861c43789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:17 +0000
Subject: [PATCH 05/88] fix: do not treat "//" within a string as the start of
 a TEAL comment

---
 tealish/__init__.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..9a9a30a 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,10 +1,16 @@
 import inspect
+import re
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
 from .utils import TealishMap
 from .types import _structs
 
+# A line of TEAL and its comment, if any. "//" within a string literal is not a comment.
+TEAL_LINE = re.compile(
+    r'(?P<code>(?:"(?:\\.|[^"\\])*"|[^"/]|/(?!/))*)(?P<comment>//.*)?$'
+)
+
 
 class TealWriter:
     def __init__(self) -> None:
@@ -32,9 +38,9 @@ class TealWriter:
             teal = node_or_teal
             prefix = (" " * 4) * self.level
             teal = prefix + teal
-            if " //" in teal.strip():
-                teal, comment = teal.split("//", 1)
-                teal = teal.ljust(60) + "//" + comment
+            m = TEAL_LINE.match(teal)
+            if m and m["comment"] and re.search(r"\S\s+$", m["code"]):
+                teal = m["code"].ljust(60) + m["comment"]
             parent._teal.append(teal)
             self.output.append(teal)
             if hasattr(parent, "line_no"):
@@ -64,8 +70,8 @@ class OneLineTealWriter:
         elif isinstance(node_or_teal, list):
             self.teal += node_or_teal
         else:
-            teal = node_or_teal.split("//", 1)[0]
-            self.teal.append(teal)
+            m = TEAL_LINE.match(node_or_teal)
+            self.teal.append(m["code"] if m else node_or_teal)
 
     @property
     def output(self):
-- 
2.43.0


From 03f7d759cf1c581e33c5df4fe78bc3555ca4c504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 06/88] fix: do not treat "#" within a string as the start of a
 comment

---
 tealish/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 9a9a30a..a6136ec 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -11,6 +11,9 @@ TEAL_LINE = re.compile(
     r'(?P<code>(?:"(?:\\.|[^"\\])*"|[^"/]|/(?!/))*)(?P<comment>//.*)?$'
 )
 
+# The part of a line of Tealish before an inline comment. "#" within a string is not a comment.
+TEALISH_CODE = re.compile(r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^#])*""")
+
 
 class TealWriter:
     def __init__(self) -> None:
@@ -104,7 +107,7 @@ class TealishCompiler:
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
-            line = line.split("#")[0]
+            line = TEALISH_CODE.match(line)[0]
         self.line_no += 1
         return line
 
-- 
2.43.0


From a53d9b515336970484be852f08b2fec04ecba5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:32 +0000
Subject: [PATCH 07/88] fix: do not parse a statement with " = " in a string as
 an assignment

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b56ae09..5ce3489 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -396,7 +396,7 @@ class LineStatement(InlineStatement):
             return BoxDeclaration(line, parent, compiler=compiler)
         elif re.match(r"[a-z][a-zA-Z_0-9]*\.[a-z][a-zA-Z_0-9]* = .*", line):
             return StructOrBoxAssignment(line, parent, compiler=compiler)
-        elif " = " in line:
+        elif re.match(r"[a-zA-Z0-9_,\s]+ = ", line):
             return Assignment(line, parent, compiler=compiler)
         # Statement functions
         elif line.startswith("exit("):
-- 
2.43.0


From 652cd1be785b13d87ab0807de3c3f6efceaccfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 08/88] fix: process the conditions of elif and while
 statements only once

---
 tealish/nodes.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5ce3489..e978efd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1171,7 +1171,6 @@ class Elif(Node):
         return node
 
     def process(self) -> None:
-        self.condition.process()
         for n in self.nodes:
             n.process()
 
@@ -1432,7 +1431,6 @@ class WhileStatement(InlineStatement):
         return node
 
     def process(self) -> None:
-        self.condition.process()
         for n in self.nodes:
             n.process()
 
-- 
2.43.0


From bc43ea0e1c64f5f86055568dfffd557dc4b14dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 09/88] fix: reject programs with duplicate labels

---
 tealish/__init__.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index a6136ec..ac0b250 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,6 +2,7 @@ import inspect
 import re
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
+from .errors import CompileError
 from .nodes import Node, Program
 from .utils import TealishMap
 from .types import _structs
@@ -11,6 +12,9 @@ TEAL_LINE = re.compile(
     r'(?P<code>(?:"(?:\\.|[^"\\])*"|[^"/]|/(?!/))*)(?P<comment>//.*)?$'
 )
 
+# The label at the start of a line of TEAL, if any.
+TEAL_LABEL = re.compile(r"\s*(?P<label>[^\s\"/;:]+):(\s|$)")
+
 # The part of a line of Tealish before an inline comment. "#" within a string is not a comment.
 TEALISH_CODE = re.compile(r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|[^#])*""")
 
@@ -150,8 +154,21 @@ class TealishCompiler:
             node.write_teal(self.writer)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
+        self.check_labels()
         return self.writer.output
 
+    def check_labels(self) -> None:
+        labels = set()
+        for i, line in enumerate(self.output):
+            m = TEAL_LABEL.match(line)
+            if not m:
+                continue
+            if m["label"] in labels:
+                raise CompileError(
+                    f'Duplicate label "{m["label"]}" at line {self.source_map[i + 1]}'
+                )
+            labels.add(m["label"])
+
     def reformat(self) -> str:
         if not self.nodes:
             self.parse()
-- 
2.43.0


From 9442d0343ab27147d4946447f78115162058f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 10/88] fix: do not let blocks reuse the scratch slots of
 functions, limit slots to 255

---
 tealish/__init__.py |  1 +
 tealish/base.py     | 13 ++++++++++++-
 tealish/scope.py    | 17 +++++++++++++----
 3 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index ac0b250..212ca39 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -97,6 +97,7 @@ class TealishCompiler:
         self.conditional_count = 0
         self.error_messages: Dict[int, str] = {}
         self.max_slot = 0
+        self.function_slots = set()
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
diff --git a/tealish/base.py b/tealish/base.py
index 485007b..85316c8 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -91,7 +91,18 @@ class BaseNode:
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
-        var = scope.declare_scratch_var(name, type, max_slot=max_slot)
+        try:
+            var = scope.declare_scratch_var(
+                name,
+                type,
+                max_slot=max_slot,
+                # The slots of functions must not be reused by blocks that may call them
+                reserved_slots=self.compiler.function_slots,  # type: ignore
+            )
+        except Exception as e:
+            raise CompileError(str(e), node=self)
+        if max_slot is not None:
+            self.compiler.function_slots.add(var.scratch_slot)  # type: ignore
 
         # Update max_slot on compiler
         self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)  # type: ignore
diff --git a/tealish/scope.py b/tealish/scope.py
index 3220150..a41110a 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -1,10 +1,12 @@
-from typing import Dict, Optional, Tuple, TYPE_CHECKING
+from typing import Dict, Iterable, Optional, Tuple, TYPE_CHECKING
 from .tealish_builtins import Var, ConstValue
 from .types import TealishType
 
 if TYPE_CHECKING:
     from .nodes import Func, Block
 
+MAX_SCRATCH_SLOT = 255
+
 
 class Scope:
     def __init__(
@@ -41,13 +43,18 @@ class Scope:
         name: str,
         type: "TealishType",
         max_slot: Optional[int] = None,
+        reserved_slots: Iterable[int] = (),
     ) -> Var:
         if name in self.slots:
             raise Exception(f'Redefinition of variable "{name}"')
+        if max_slot is not None and max_slot > MAX_SCRATCH_SLOT:
+            raise Exception("No available slots!")
 
         var = Var(name, type)
         var.slot_type = "scratch"
-        var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
+        var.scratch_slot = (
+            max_slot if max_slot is not None else self.find_slot(reserved_slots)
+        )
         self.slots[var.name] = var
         return var
 
@@ -73,10 +80,12 @@ class Scope:
     def declare_block(self, name: str, block: "Block") -> None:
         self.blocks[name] = block
 
-    def find_slot(self) -> int:
-        used_slots = [False] * 255
+    def find_slot(self, reserved_slots: Iterable[int] = ()) -> int:
+        used_slots = [False] * (MAX_SCRATCH_SLOT + 1)
         for var in self.slots.values():
             used_slots[var.scratch_slot] = True
+        for slot in reserved_slots:
+            used_slots[slot] = True
 
         min, max = self.slot_range
         for i, occupied in enumerate(used_slots):
-- 
2.43.0


From d1e728d45d9728f6a6ba2243bd2a4e24e0ce63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 11/88] fix: keep the inner group flag apart from user
 variables

---
 tealish/nodes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index e978efd..b0ac4f6 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -316,9 +316,13 @@ class Program(Node):
 
         if self.compiler.use_inner_txns_macro:
             scope = self.get_current_scope()
-            var = scope.declare_scratch_var(
-                "inner_group_flag", IntType, self.compiler.max_slot + 1
-            )
+            # the leading underscore prevents a clash with a user's variable
+            try:
+                var = scope.declare_scratch_var(
+                    "_inner_group_flag", IntType, self.compiler.max_slot + 1
+                )
+            except Exception as e:
+                raise CompileError(str(e), node=self)
             self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -326,7 +330,7 @@ class Program(Node):
             n.write_teal(writer)
 
         if self.compiler.use_inner_txns_macro:
-            var = self.get_var("inner_group_flag")
+            var = self.get_var("_inner_group_flag")
             teal = f"""
             _itxn_group_begin:
               load {var.scratch_slot}; !; assert // ensure no group active
-- 
2.43.0


From 7011680e32542f915c53e617dd74d5297a7228bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:16 +0000
Subject: [PATCH 12/88] fix: let names of inner scopes take precedence over
 those of outer scopes

---
 tealish/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 85316c8..81498a6 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -45,7 +45,7 @@ class BaseNode:
 
     def get_scope(self) -> Scope:
         scope = Scope()
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             scope.update(s)
         return scope
 
@@ -62,7 +62,7 @@ class BaseNode:
 
     def get_slots(self) -> Dict[str, Any]:
         slots = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             slots.update(s.slots)
         return slots
 
@@ -114,7 +114,7 @@ class BaseNode:
 
     def get_blocks(self) -> Dict[str, "Block"]:
         blocks = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             blocks.update(s.blocks)
         return blocks
 
-- 
2.43.0


From 160afea5ffdd0c2a7fe90fba6c7ae2ae02d367a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:40 +0000
Subject: [PATCH 13/88] fix: reject the redefinition of a constant, TEAL macros
 are not scoped

---
 tealish/nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b0ac4f6..5ede16a 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -465,6 +465,9 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
+        # TEAL macros are not scoped so a constant can't shadow another one
+        if self.name in self.get_scope().consts:
+            raise CompileError(f'Redefinition of constant "{self.name}"', node=self)
         scope.declare_const(self.name, (self.literal.type(), self.literal.value))
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From ade50e67d1e76f30566385d451d3558f9b3ac264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 14/88] fix: the integer literal 0 fits into one byte

---
 tealish/expression_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 80c32b7..171feb2 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -23,7 +23,7 @@ if TYPE_CHECKING:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = (((self.value).bit_length() - 1) // 8) + 1
+        size = max(((self.value).bit_length() - 1) // 8 + 1, 1)
         self.type = UIntType(size)
         self.parent = parent
 
-- 
2.43.0


From bd55d1a6b177aeb25a2078fc5170928819c36fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 15/88] fix: give the addr type its size of 32 bytes

---
 tealish/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..99e41d4 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -126,7 +126,9 @@ class BigIntType(BytesType):
 class AddrType(BytesType):
     name = "addr"
     avm_type = AVMType.bytes
-    size = 32
+
+    def __init__(self):
+        super().__init__(size=32)
 
 
 class StructField:
-- 
2.43.0


From 3e07dc54b8234c9c896164ac3a05142e70f38a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:59 +0000
Subject: [PATCH 16/88] fix: match type names as a whole, accept struct names
 of one letter

---
 tealish/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tealish/types.py b/tealish/types.py
index 99e41d4..971c994 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -212,16 +212,16 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.match(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.match(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]*)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.match(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]*)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.match(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From eeb3c82507c9bdc222e3e87ac0dee47263704b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:21 +0000
Subject: [PATCH 17/88] fix: reject text after the type of a struct field

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5ede16a..0e1a96e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1808,7 +1808,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]*(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
-- 
2.43.0


From 4d150ec837fb4e77c34f5d16d4a4219abb0e701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 18/88] fix: reject struct fields of unknown size and repeated
 struct fields

---
 tealish/nodes.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0e1a96e..35f55a2 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1868,9 +1868,23 @@ class StructDefinition(InlineStatement):
         node.struct = StructType(node.name)
         for field in node.child_nodes:
             field_node = cast(StructFieldDefinition, field)
-            node.struct.add_field(
-                field_node.field_name, get_type_instance(field_node.data_type)
-            )
+            if field_node.field_name in node.struct.fields:
+                raise ParseError(
+                    f'Redefinition of field "{field_node.field_name}" at line {field_node.line_no}'
+                )
+            try:
+                field_type = get_type_instance(field_node.data_type)
+            except KeyError:
+                raise ParseError(
+                    f'Unknown type "{field_node.data_type}" at line {field_node.line_no}'
+                )
+            # The offsets of the fields must be known at compile time
+            if not field_type.size:
+                raise ParseError(
+                    f'Type "{field_node.data_type}" of field "{field_node.field_name}" '
+                    + f"does not have a fixed size at line {field_node.line_no}"
+                )
+            node.struct.add_field(field_node.field_name, field_type)
         define_struct(node.struct)
 
         return node
-- 
2.43.0


From a32eeb2226bff9134e0ea9a44547db7244a07b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 19/88] fix: do not assert a length of 0 when casting to bytes
 of any size

---
 tealish/stdlib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 92dda3e..96f628a 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -264,6 +264,9 @@ class BytesSizeAssertionWrapper(BaseNode):
 
     def write_teal(self, writer):
         writer.write(self, self.expression)
+        if not self.size:
+            # There is nothing to assert for bytes of any size
+            return
         # Assert that the expression is bytes of size N
         writer.write(
             self,
-- 
2.43.0


From 4ef4cfb750ad1bf162f384580c0b8366d7dcbcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 20/88] fix: allow casting values of unknown type to bytes[N]
 as documented

---
 tealish/stdlib.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 96f628a..28d2660 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -144,8 +144,9 @@ class Cast(FunctionCall):
             # Int -> Int
             self.expression = UIntSizeAssertionWrapper(self.expression, self.type.size)
             self.expression.process()
-        elif isinstance(self.expression.type, BytesType) and isinstance(
-            self.type, BytesType
+        elif isinstance(self.type, BytesType) and (
+            isinstance(self.expression.type, BytesType)
+            or (isinstance(self.expression.type, AnyType) and self.type.size)
         ):
             self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
             self.expression.process()
-- 
2.43.0


From 6a9ffbb891fb97d7d8159382049cfae474569f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:42 +0000
Subject: [PATCH 21/88] fix: let Convert assert that the int fits into the
 bytes

---
 tealish/stdlib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 28d2660..ec32094 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -333,7 +333,7 @@ class UIntToBytesWrapper(BaseNode):
             writer.write(self, self.expression)
             writer.write(self, "itob")
         else:
-            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size * 8))
+            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
             writer.write(self, "itob")
             if self.size and self.size < 8:
                 writer.write(self, f"extract {8 - self.size} {self.size}")
-- 
2.43.0


From d29ae8ba588037d84903cae37273a17853f25c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:44 +0000
Subject: [PATCH 22/88] fix: access struct fields beyond the range of immediate
 arguments

---
 tealish/expression_nodes.py | 14 ++++++++++----
 tealish/nodes.py            |  9 ++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 171feb2..b94e75b 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -612,10 +612,16 @@ class StructOrBoxField(BaseNode):
     def write_teal(self, writer: "TealWriter") -> None:
         teal = ""
         if isinstance(self.object_type, StructType):
-            teal = [
-                f"load {self.var.scratch_slot}",
-                f"extract {self.offset} {self.size}",
-            ]
+            teal = [f"load {self.var.scratch_slot}"]
+            if max(self.offset, self.size) < 256:
+                teal.append(f"extract {self.offset} {self.size}")
+            else:
+                # immediate args are limited to one byte
+                teal += [
+                    f"pushint {self.offset}",
+                    f"pushint {self.size}",
+                    "extract3",
+                ]
         elif isinstance(self.object_type, BoxType):
             teal = [
                 f"load {self.var.scratch_slot}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 35f55a2..9de97cd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1960,10 +1960,13 @@ class StructOrBoxAssignment(LineStatement):
                         f"extract {8 - self.data_type.size} {self.data_type.size}"
                     )
             # struct setter one liner
+            teal += [f"load {self.var.scratch_slot}", "swap"]
+            if self.offset < 256:
+                teal.append(f"replace {self.offset}")
+            else:
+                # immediate args are limited to one byte
+                teal += [f"pushint {self.offset}", "swap", "replace3"]
             teal += [
-                f"load {self.var.scratch_slot}",
-                "swap",
-                f"replace {self.offset}",
                 f"store {self.var.scratch_slot}",
                 f"// set {self.name.value}.{self.field_name}",
             ]
-- 
2.43.0


From 727aa6f5c5e3800f7df7eb056fec3a598eeb2178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:15 +0000
Subject: [PATCH 23/88] fix: count the bytes of string literals, not the
 characters of their source

---
 tealish/expression_nodes.py | 3 ++-
 tealish/nodes.py            | 4 ++--
 tealish/types.py            | 5 +++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index b94e75b..d7f8c6a 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -11,6 +11,7 @@ from .types import (
     IntType,
     BytesType,
     UIntType,
+    string_size,
 )
 from .langspec import Op, type_lookup
 
@@ -37,7 +38,7 @@ class Integer(BaseNode):
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = value
-        self.type = BytesType(size=len(value))
+        self.type = BytesType(size=string_size(value))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 9de97cd..93880a2 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,4 +1,3 @@
-import ast
 import re
 import textwrap
 from typing import (
@@ -29,6 +28,7 @@ from .types import (
     define_struct,
     get_struct,
     get_type_instance,
+    string_size,
 )
 from .scope import Scope
 
@@ -176,7 +176,7 @@ class LiteralBytes(Literal):
     value: str  # value contains quotes
 
     def type(self) -> AVMType:
-        return BytesType(size=len(ast.literal_eval(self.value)))
+        return BytesType(size=string_size(self.value[1:-1]))
 
     def _tealish(self) -> str:
         return self.value
diff --git a/tealish/types.py b/tealish/types.py
index 971c994..5c8971f 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -3,6 +3,11 @@ import re
 from typing import Dict
 
 
+def string_size(value: str) -> int:
+    """Number of bytes of the content of a string literal, in which escapes are a single byte"""
+    return len(re.sub(r"\\(x[0-9a-fA-F]{2}|.)", "?", value).encode())
+
+
 # Set of custom defined types
 _structs: Dict[str, "StructType"] = {}
 
-- 
2.43.0


From 6ed6a0d13ba83af146836e92289ffe41c2bfc06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:16 +0000
Subject: [PATCH 24/88] fix: escape the quotes of string literals

---
 tealish/expression_nodes.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index d7f8c6a..9d87d04 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -41,11 +41,17 @@ class Bytes(BaseNode):
         self.type = BytesType(size=string_size(value))
         self.parent = parent
 
+    @property
+    def literal(self) -> str:
+        # the parser unescapes quotes
+        value = self.value.replace('"', '\\"')
+        return f'"{value}"'
+
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, f'pushbytes "{self.value}"')
+        writer.write(self, f"pushbytes {self.literal}")
 
     def _tealish(self) -> str:
-        return f'"{self.value}"'
+        return self.literal
 
 
 class Variable(BaseNode):
@@ -298,8 +304,8 @@ class OpCall(BaseNode):
                 immediates[i] = x.name
             elif hasattr(x, "value") and isinstance(x.type, IntType):
                 immediates[i] = x.value
-            elif hasattr(x, "value") and isinstance(x.type, BytesType):
-                immediates[i] = f'"{x.value}"'
+            elif isinstance(x, Bytes):
+                immediates[i] = x.literal
             else:
                 raise CompileError(
                     f"{x} can not be used as an immediate argument for {op.name}",
-- 
2.43.0


From 187baa5741cb86b75aaeea1c14b9f19863cfd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:38 +0000
Subject: [PATCH 25/88] fix: let EnsureType check each of several values

---
 tealish/stdlib.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index ec32094..b79621a 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -235,7 +235,7 @@ class TypeAssertionWrapper(BaseNode):
             ):
                 if self.dup:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, f"dig {i}" if i else "dup")
                 # Assert that the expression is bytes of size N
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "len")
@@ -247,7 +247,7 @@ class TypeAssertionWrapper(BaseNode):
             ):
                 if self.type:
                     # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
+                    writer.write(self, f"dig {i}" if i else "dup")
                 # Assert that the expression is an int of N*8 bits
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "bitlen")
@@ -360,6 +360,11 @@ class EnsureType(FunctionCall):
     def process(self) -> None:
         types = [get_type_instance(a.name) for a in self.args[1:]]
         self.args[0].process()
+        incoming = self.args[0].type
+        if len(types) != (len(incoming) if type(incoming) == list else 1):
+            raise CompileError(
+                f"Incorrect number of types for EnsureType. Got {incoming}", node=self
+            )
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
         self.type = types[0] if len(types) == 1 else types
 
-- 
2.43.0


From e655c2a09a95cf6a2ede52210a563ae026d0bee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 26/88] fix: use the numeric value of integer constants

---
 tealish/expression_nodes.py |  4 ++--
 tealish/nodes.py            | 13 ++++++++++++-
 tealish/types.py            |  5 +++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 9d87d04..9f36e61 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -11,6 +11,7 @@ from .types import (
     IntType,
     BytesType,
     UIntType,
+    int_size,
     string_size,
 )
 from .langspec import Op, type_lookup
@@ -24,8 +25,7 @@ if TYPE_CHECKING:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = max(((self.value).bit_length() - 1) // 8 + 1, 1)
-        self.type = UIntType(size)
+        self.type = UIntType(int_size(self.value))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 93880a2..9e32580 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -28,6 +28,7 @@ from .types import (
     define_struct,
     get_struct,
     get_type_instance,
+    int_size,
     string_size,
 )
 from .scope import Scope
@@ -164,8 +165,18 @@ class LiteralInt(Literal):
     pattern = r"(?P<value>[0-9]+)$"
     value: int
 
+    def __init__(
+        self,
+        line: str,
+        parent: Optional[Node] = None,
+        compiler: Optional["TealishCompiler"] = None,
+    ) -> None:
+        super().__init__(line, parent, compiler)
+        # TEAL would read a leading 0 as the prefix of an octal number
+        self.value = int(self.value)
+
     def type(self) -> UIntType:
-        return UIntType()
+        return UIntType(int_size(self.value))
 
     def _tealish(self) -> str:
         return f"{self.value}"
diff --git a/tealish/types.py b/tealish/types.py
index 5c8971f..50d456d 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -8,6 +8,11 @@ def string_size(value: str) -> int:
     return len(re.sub(r"\\(x[0-9a-fA-F]{2}|.)", "?", value).encode())
 
 
+def int_size(value: int) -> int:
+    """Number of bytes needed to represent the value of an integer literal"""
+    return max((value.bit_length() - 1) // 8 + 1, 1)
+
+
 # Set of custom defined types
 _structs: Dict[str, "StructType"] = {}
 
-- 
2.43.0


From f4185ff0da3c534cf6de17db56f3f069b8d8f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:05 +0000
Subject: [PATCH 27/88] fix: check the arguments of standard library functions

---
 tealish/stdlib.py | 114 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 97 insertions(+), 17 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index b79621a..8d7b296 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -3,7 +3,7 @@ from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Integer
+from tealish.expression_nodes import Bytes, Integer
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -11,12 +11,16 @@ from tealish.types import (
     BigIntType,
     BytesType,
     IntType,
+    TealishType,
     UIntType,
     get_type_instance,
 )
 
 
 class FunctionCall(BaseNode):
+    # minimum and maximum number of arguments
+    arity = (0, None)
+
     def __init__(self, args: List["Node"], parent: Optional[BaseNode] = None) -> None:
         self.args = args
         self.parent = parent
@@ -28,6 +32,49 @@ class FunctionCall(BaseNode):
         for arg in self.args:
             arg.process()
 
+    def check_args(self) -> None:
+        min_args, max_args = self.arity
+        if len(self.args) < min_args or (
+            max_args is not None and len(self.args) > max_args
+        ):
+            raise CompileError(
+                f"Incorrect number of args ({len(self.args)}) for {self.name}!",
+                node=self,
+            )
+
+    def check_bytes_args(self, args: List["Node"]) -> None:
+        for arg in args:
+            if not BytesType().can_hold(arg.type):
+                raise CompileError(
+                    f"Incorrect type {arg.type} for {self.name}. Expected bytes.",
+                    node=self,
+                )
+
+    def type_arg(self, arg: "Node") -> TealishType:
+        """The type an argument is the name of"""
+        try:
+            return get_type_instance(arg.name)
+        except (AttributeError, KeyError):
+            raise CompileError(f"Expected a type as arg of {self.name}", node=self)
+
+    def int_arg(self, arg: "Node") -> int:
+        """The value of an argument that has to be known at compile time"""
+        arg.process()
+        value = getattr(arg, "value", None)
+        if type(value) != int:
+            raise CompileError(
+                f"Expected a constant int as arg of {self.name}", node=self
+            )
+        return value
+
+    def string_arg(self, arg: "Node") -> str:
+        """The content of an argument that has to be a string literal"""
+        if not isinstance(arg, Bytes):
+            raise CompileError(
+                f"Expected a string literal as arg of {self.name}", node=self
+            )
+        return arg.value
+
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         return f"{self.name}({', '.join(args)})"
@@ -40,8 +87,10 @@ class Pop(FunctionCall):
     """No-op function to allow using a value from the top of the stack"""
 
     name = "pop"
+    arity = (0, 0)
 
     def process(self) -> None:
+        self.check_args()
         self.type = AnyType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -68,12 +117,15 @@ class Bzero(FunctionCall):
     """bzero but with a return type of bytes[n] when arg n is a constant at compile time."""
 
     name = "bzero"
+    arity = (1, 1)
 
     def process(self) -> None:
+        self.check_args()
         arg = self.args[0]
         arg.process()
+        self.check_arg_types(self.name, self.args)
         # Integer literals and some other functions set value to a constant at compile time
-        if hasattr(arg, "value"):
+        if type(getattr(arg, "value", None)) == int:
             self.type = BytesType(arg.value)
         else:
             self.type = BytesType()
@@ -92,9 +144,11 @@ class Convert(FunctionCall):
     """
 
     name = "Convert"
+    arity = (2, 2)
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.check_args()
+        self.type = self.type_arg(self.args[1])
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -130,9 +184,11 @@ class Cast(FunctionCall):
     """
 
     name = "Cast"
+    arity = (2, 2)
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.check_args()
+        self.type = self.type_arg(self.args[1])
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -161,11 +217,13 @@ class Cast(FunctionCall):
 
 class ToBytes(FunctionCall):
     name = "ToBytes"
+    arity = (2, 2)
 
     def process(self) -> None:
+        self.check_args()
         self.args[0].process()
         self.expression = self.args[0]
-        size = self.args[1].value
+        size = self.int_arg(self.args[1])
         self.type = BytesType(size)
         if not isinstance(self.expression.type, (IntType, BigIntType)):
             raise CompileError(
@@ -189,11 +247,13 @@ class ToBytes(FunctionCall):
 
 class FromBytes(FunctionCall):
     name = "FromBytes"
+    arity = (2, 2)
 
     def process(self) -> None:
+        self.check_args()
         self.args[0].process()
         self.expression = self.args[0]
-        to_type = get_type_instance(self.args[1].name)
+        to_type = self.type_arg(self.args[1])
         if isinstance(to_type, IntType):
             to_type = IntType()
         self.type = to_type
@@ -356,9 +416,11 @@ class TealWrapper(BaseNode):
 
 class EnsureType(FunctionCall):
     name = "EnsureType"
+    arity = (2, None)
 
     def process(self) -> None:
-        types = [get_type_instance(a.name) for a in self.args[1:]]
+        self.check_args()
+        types = [self.type_arg(a) for a in self.args[1:]]
         self.args[0].process()
         incoming = self.args[0].type
         if len(types) != (len(incoming) if type(incoming) == list else 1):
@@ -374,12 +436,14 @@ class EnsureType(FunctionCall):
 
 class UncheckedCast(FunctionCall):
     name = "UncheckedCast"
+    arity = (2, None)
 
     def process(self) -> None:
+        self.check_args()
         if len(self.args) == 2:
-            self.type = get_type_instance(self.args[1].name)
+            self.type = self.type_arg(self.args[1])
         else:
-            self.type = [get_type_instance(arg.name) for arg in self.args[1:]]
+            self.type = [self.type_arg(arg) for arg in self.args[1:]]
         self.args[0].process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -388,6 +452,10 @@ class UncheckedCast(FunctionCall):
 
 class Error(FunctionCall):
     name = "Error"
+    arity = (0, 0)
+
+    def process(self) -> None:
+        self.check_args()
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "err")
@@ -395,9 +463,11 @@ class Error(FunctionCall):
 
 class SizeOf(FunctionCall):
     name = "SizeOf"
+    arity = (1, 1)
 
     def process(self):
-        type = get_type_instance(self.args[0].name)
+        self.check_args()
+        type = self.type_arg(self.args[0])
         self.value = type.size
         self.type = IntType()
 
@@ -407,11 +477,13 @@ class SizeOf(FunctionCall):
 
 class Rpad(FunctionCall):
     name = "Rpad"
+    arity = (2, 2)
 
     def process(self) -> None:
+        self.check_args()
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.int_arg(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -438,11 +510,13 @@ class Rpad(FunctionCall):
 
 class Lpad(FunctionCall):
     name = "Lpad"
+    arity = (2, 2)
 
     def process(self) -> None:
+        self.check_args()
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.int_arg(self.args[1])
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
@@ -470,10 +544,13 @@ class Lpad(FunctionCall):
 
 class Concat(FunctionCall):
     name = "Concat"
+    arity = (1, None)
 
     def process(self) -> None:
+        self.check_args()
         for arg in self.args:
             arg.process()
+        self.check_bytes_args(self.args)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -485,25 +562,28 @@ class Concat(FunctionCall):
 
 class Address(FunctionCall):
     name = "Address"
+    arity = (1, 1)
 
     def process(self) -> None:
-        for arg in self.args:
-            arg.process()
+        self.check_args()
+        self.address = self.string_arg(self.args[0])
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        value = self.args[0].value
-        writer.write(self, f"addr {value}")
+        writer.write(self, f"addr {self.address}")
 
 
 class ARC28Event(FunctionCall):
     name = "ARC28Event"
+    arity = (1, None)
 
     def process(self) -> None:
-        self.signature = self.args[0].value
+        self.check_args()
+        self.signature = self.string_arg(self.args[0])
         self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
         for arg in self.args[1:]:
             arg.process()
+        self.check_bytes_args(self.args[1:])
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 0ba662a507ea051190508e528cbad80eda2969c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 28/88] fix: report unknown structs and struct fields as errors
 of the program

---
 tealish/expression_nodes.py | 11 ++++++++++-
 tealish/nodes.py            | 13 +++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 9f36e61..e0336ad 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -608,9 +608,18 @@ class StructOrBoxField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.var = self.lookup_var(self.name)
+        try:
+            self.var = self.lookup_var(self.name)
+        except KeyError as e:
+            raise CompileError(e.args[0], node=self)
         self.object_type = self.var.tealish_type
         struct = self.var.tealish_type
+        if not isinstance(struct, (StructType, BoxType)):
+            raise CompileError(
+                f"{self.name} is not a struct or Box reference", node=self
+            )
+        if self.field not in struct.fields:
+            raise CompileError(f'Unknown field "{self.field}" of {self.name}', node=self)
         struct_field = struct.fields[self.field]
         self.offset = struct_field.offset
         self.size = struct_field.size
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 9e32580..7abc92e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1927,7 +1927,9 @@ class StructOrBoxAssignment(LineStatement):
     def process(self) -> None:
         self.var = self.get_var(self.name.value)
         if self.var is None:
-            raise CompileError(f"Could not find struct with name: {self.name.value}")
+            raise CompileError(
+                f"Could not find struct with name: {self.name.value}", node=self
+            )
 
         if not isinstance(self.var.tealish_type, (StructType, BoxType)):
             raise CompileError(
@@ -1936,6 +1938,10 @@ class StructOrBoxAssignment(LineStatement):
         self.object_type = self.var.tealish_type
 
         struct = self.var.tealish_type
+        if self.field_name not in struct.fields:
+            raise CompileError(
+                f'Unknown field "{self.field_name}" of {self.name.value}', node=self
+            )
         struct_field = struct.fields[self.field_name]
         self.offset = struct_field.offset
         self.size = struct_field.size
@@ -2028,7 +2034,10 @@ class BoxDeclaration(LineStatement):
     key: GenericExpression
 
     def process(self):
-        self.struct = get_struct(self.struct_name)
+        try:
+            self.struct = get_struct(self.struct_name)
+        except KeyError:
+            raise CompileError(f'Unknown struct "{self.struct_name}"', node=self)
         self.box_size = self.struct.size
         self.var = self.declare_scratch_var(self.name.value, f"box<{self.struct_name}>")
         self.key.process()
-- 
2.43.0


From eca91380d784fc535782a24a532d9b4553e6d5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:27 +0000
Subject: [PATCH 29/88] fix: do not hide errors raised outside of nodes

---
 tealish/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 212ca39..92b5ca4 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -141,8 +141,12 @@ class TealishCompiler:
             try:
                 node.process()
             except Exception as e:
-                node = inspect.trace()[-1].frame.f_locals['self']
-                print(node.line_no, node.line)
+                # show the line of the innermost node in which the error occurred
+                for frame_info in reversed(inspect.trace()):
+                    node = frame_info.frame.f_locals.get("self")
+                    if isinstance(node, BaseNode) and getattr(node, "parent", None):
+                        print(node.line_no, node.line)
+                        break
                 raise e
         self.processed = True
 
-- 
2.43.0


From 6a4ce36daead4fe5deb94513442b9f942c0333d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 30/88] fix: do not accept expressions of no or several values
 as operands of any type

---
 tealish/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index 50d456d..33cc1de 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -55,7 +55,8 @@ class AnyType(TealishType):
     avm_type = AVMType.any
 
     def can_hold(self, other):
-        return True
+        # expressions of no value or several values have a list of types
+        return isinstance(other, TealishType)
 
 
 class IntType(TealishType):
-- 
2.43.0


From c40aa8afaec885f8477ba4f596188947a02dbebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:30 +0000
Subject: [PATCH 31/88] fix: reject expressions of no or several values where a
 single value is needed

---
 tealish/base.py             |  7 +++++++
 tealish/expression_nodes.py |  5 +++++
 tealish/nodes.py            |  9 +++++++++
 tealish/stdlib.py           | 17 ++++++++++++-----
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 81498a6..08cce13 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -151,6 +151,13 @@ class BaseNode:
         except Exception as e:
             raise CompileError(str(e), node=self)  # type: ignore
 
+    def check_single_value(self, expression: "Node") -> None:
+        """Check that a processed expression leaves exactly one value on the stack"""
+        if not expression.type or type(expression.type) == list:
+            raise CompileError(
+                f"Expected a single value, got {expression.type}", node=self
+            )
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         return lang_spec.get_field_type(namespace, name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index e0336ad..903d67d 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -413,6 +413,7 @@ class TxnArrayField(BaseNode):
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
+            self.check_single_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -440,6 +441,7 @@ class GroupTxnField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+            self.check_single_value(self.index)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
@@ -476,8 +478,10 @@ class GroupTxnArrayField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+            self.check_single_value(self.index)
         if not isinstance(self.arrayIndex, Integer):
             self.arrayIndex.process()
+            self.check_single_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -587,6 +591,7 @@ class InnerTxnArrayField(BaseNode):
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
+            self.check_single_value(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7abc92e..43500a3 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -512,6 +512,7 @@ class Exit(LineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_single_value(self.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -799,8 +800,10 @@ class Switch(InlineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_single_value(self.expression)
         for node in self.options:
             node.expression.process()
+            self.check_single_value(node.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1060,6 +1063,9 @@ class InnerTxn(InlineStatement):
             for node in a:
                 node.expression.process()
 
+        for node in self.child_nodes:
+            node.check_single_value(cast(InnerTxnFieldSetter, node).expression)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
@@ -1191,6 +1197,7 @@ class Elif(Node):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
+        self.check_single_value(self.condition)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.condition)
@@ -1345,6 +1352,7 @@ class IfStatement(InlineStatement):
             self.child_nodes[-1].next_label = self.end_label
 
         self.condition.process()
+        self.check_single_value(self.condition)
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1451,6 +1459,7 @@ class WhileStatement(InlineStatement):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
+        self.check_single_value(self.condition)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 8d7b296..e1a3ea8 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -50,6 +50,16 @@ class FunctionCall(BaseNode):
                     node=self,
                 )
 
+    def check_number_of_types(self, types: List) -> None:
+        """Check that there is a type for each of the values of the first argument"""
+        incoming = self.args[0].type
+        if type(incoming) != list:
+            incoming = [incoming] if incoming else []
+        if len(types) != len(incoming):
+            raise CompileError(
+                f"Incorrect number of types for {self.name}. Got {incoming}", node=self
+            )
+
     def type_arg(self, arg: "Node") -> TealishType:
         """The type an argument is the name of"""
         try:
@@ -422,11 +432,7 @@ class EnsureType(FunctionCall):
         self.check_args()
         types = [self.type_arg(a) for a in self.args[1:]]
         self.args[0].process()
-        incoming = self.args[0].type
-        if len(types) != (len(incoming) if type(incoming) == list else 1):
-            raise CompileError(
-                f"Incorrect number of types for EnsureType. Got {incoming}", node=self
-            )
+        self.check_number_of_types(types)
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
         self.type = types[0] if len(types) == 1 else types
 
@@ -445,6 +451,7 @@ class UncheckedCast(FunctionCall):
         else:
             self.type = [self.type_arg(arg) for arg in self.args[1:]]
         self.args[0].process()
+        self.check_number_of_types(self.args[1:])
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.args[0])
-- 
2.43.0


From 0fdaf17f0027d5dd1a8a9026a89bf183f721d5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:47 +0000
Subject: [PATCH 32/88] fix: keep box references and the structs in the boxes
 apart

---
 tealish/types.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tealish/types.py b/tealish/types.py
index 33cc1de..c12e62a 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -190,7 +190,17 @@ class BoxType(BytesType):
         self.struct_name = struct_name
         self.struct = get_struct(struct_name)
         self.fields = self.struct.fields
-        self.size = self.struct.size
+        # the value of a reference is the key of the box, the size of which is not known
+        self.size = 0
+
+    def can_hold(self, other):
+        return isinstance(other, BoxType) and other.struct_name == self.struct_name
+
+    def can_hold_with_cast(self, other):
+        return False
+
+    def __str__(self) -> str:
+        return f"{self.name}<{self.struct_name}>"
 
 
 class ArrayType(BytesType):
-- 
2.43.0


From 68a79813df69421d1c68336b5740408ef7c8deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:49 +0000
Subject: [PATCH 33/88] fix: do not ignore parts of the arguments of a function
 definition

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 43500a3..27d4e3f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1610,7 +1610,7 @@ class For_Statement(InlineStatement):
 
 class ArgsList(Expression):
     arg_pattern = r"(?P<arg_name>[a-z][a-z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
-    pattern = rf"(?P<args>({arg_pattern}(, )?)*)"
+    pattern = rf"(?P<args>({arg_pattern}(,\s*(?!$)|$))*)$"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
-- 
2.43.0


From d60221c54c46e7ef3169af2707324b91ff022c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 34/88] fix: report hex constants with an odd number of digits
 as errors of the program

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 27d4e3f..b50725e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -35,7 +35,7 @@ from .scope import Scope
 
 LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"(.+)"'
-LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
+LITERAL_BYTE_HEX = r"0x(([a-fA-F0-9]{2})+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
 if TYPE_CHECKING:
-- 
2.43.0


From a96de35055bf5542974e93a7e6292edec523e339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:41 +0000
Subject: [PATCH 35/88] fix: do not accept discarding the value of expressions
 of no value

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b50725e..eeabf49 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -621,7 +621,7 @@ class Assignment(LineStatement):
     def process(self) -> None:
         self.expression.process()
         t = self.expression.type
-        self.incoming_types = t if type(t) == list else [t]
+        self.incoming_types = t if type(t) == list else [t] if t else []
         names = [Name(s.strip()) for s in self.names.split(",")]
         self.name_nodes = names
         if len(self.incoming_types) != len(names):
-- 
2.43.0


From d689bcebfd5e45b0f1d3436e3a421fdb33988fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 36/88] fix: report constructs that are not closed as errors of
 the program

---
 tealish/__init__.py | 19 ++++++++++---------
 tealish/nodes.py    |  4 +---
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 92b5ca4..ca70022 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 import re
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
-from .errors import CompileError
+from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap
 from .types import _structs
@@ -103,12 +103,15 @@ class TealishCompiler:
         self.line_nodes = {}
         self.use_inner_txns_macro = None
 
+    def at_end(self) -> bool:
+        return self.line_no == len(self.source_lines)
+
+    def check_not_at_end(self) -> None:
+        if self.at_end():
+            raise ParseError(f"Unexpected end of program at line {self.line_no}")
+
     def consume_line(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: this and the func below are Optional[str] but
-            # nodes.py uses them heavily and dont
-            # check the type is not None
-            return  # type: ignore
+        self.check_not_at_end()
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
@@ -117,9 +120,7 @@ class TealishCompiler:
         return line
 
     def peek(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: see above
-            return  # type: ignore
+        self.check_not_at_end()
         return self.source_lines[self.line_no].strip()
 
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index eeabf49..8d447d7 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -286,9 +286,7 @@ class Program(Node):
         node = Program("", parent=parent, compiler=compiler)
         expect_struct_definition = True
         exit_statement = None
-        while True:
-            if compiler.peek() is None:
-                break
+        while not compiler.at_end():
             n = Statement.consume(compiler, node)
             if not expect_struct_definition and isinstance(n, StructDefinition):
                 raise ParseError(
-- 
2.43.0


From 4bcecf2727c502b6b2044b7a5c7d8ae0ec8dc7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:37 +0000
Subject: [PATCH 37/88] fix: do not mistake names that start with a keyword for
 the end of a branch

---
 tealish/nodes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 8d447d7..daf7acd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1102,7 +1102,7 @@ class InnerGroup(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerGroup":
         node = InnerGroup(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 compiler.consume_line()
                 break
             node.add_child(Statement.consume(compiler, node))
@@ -1147,7 +1147,7 @@ class IfThen(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "IfThen":
         node = IfThen("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if is_branch_end(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1187,7 +1187,7 @@ class Elif(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Elif":
         node = Elif(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if is_branch_end(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1230,7 +1230,7 @@ class Else(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Else":
         node = Else(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -2107,6 +2107,10 @@ def indent(s: str) -> str:
     return textwrap.indent(s, "    ")
 
 
+def is_branch_end(line: str) -> bool:
+    return line == "end" or line.startswith(("elif ", "else:"))
+
+
 def is_exit_statement(node):
     if isinstance(node, (Exit, Switch, Jump, Router)):
         return True
-- 
2.43.0


From 93db4fac8554722cfc67b1e68982c8985cf6afcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:38 +0000
Subject: [PATCH 38/88] fix: do not mistake names that start with return or
 break for the keywords

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index daf7acd..f2110ed 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -397,9 +397,9 @@ class LineStatement(InlineStatement):
             return Const(line, parent, compiler=compiler)
         elif line.startswith("jump "):
             return Jump(line, parent, compiler=compiler)
-        elif line.startswith("return"):
+        elif re.match(r"return\b", line):
             return Return(line, parent, compiler=compiler)
-        elif line.startswith("break"):
+        elif re.match(r"break\b", line):
             return Break(line, parent, compiler=compiler)
         elif re.match(
             r"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? [a-zA-Z_0-9]+( = .*)?", line
-- 
2.43.0


From e0831b523886d4f1069dc17987e2c210bff21877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:39 +0000
Subject: [PATCH 39/88] fix: do not ignore what follows the keyword of a line

---
 tealish/nodes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index f2110ed..0ceaa7a 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -956,6 +956,7 @@ class TealLine(Node):
 
 class Teal(InlineStatement):
     possible_child_nodes = [TealLine]
+    pattern = r"teal:$"
 
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
@@ -998,6 +999,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 class InnerTxn(InlineStatement):
     possible_child_nodes = [InnerTxnFieldSetter]
+    pattern = r"inner_txn:$"
 
     def __init__(
         self,
@@ -1093,6 +1095,7 @@ class InnerTxn(InlineStatement):
 
 class InnerGroup(InlineStatement):
     possible_child_nodes = [Statement]
+    pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1172,7 +1175,7 @@ class IfThen(Node):
 
 class Elif(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):"
+    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):$"
     condition: GenericExpression
     modifier: str
 
@@ -1217,7 +1220,7 @@ class Elif(Node):
 
 class Else(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"else:"
+    pattern = r"else:$"
 
     def __init__(
         self, line: str, parent: Optional[Node], compiler: Optional["TealishCompiler"]
-- 
2.43.0


From 937ba7607e640fe4ed108be040cf0bb289c1d775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 40/88] fix: accept comments between a decorator and its
 function, report other lines

---
 tealish/nodes.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0ceaa7a..406b0f1 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1770,7 +1770,7 @@ class Decorator(Node):
 
 
 class DecoratedFunc(InlineStatement):
-    possible_child_nodes = [Decorator, Comment, Func]
+    possible_child_nodes = [Decorator, Comment, Blank, Func]
     pattern = r""
 
     def __init__(
@@ -1809,6 +1809,13 @@ class DecoratedFunc(InlineStatement):
                 break
             elif compiler.peek().startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
+            elif compiler.peek() == "" or compiler.peek().startswith("#"):
+                decorated_func.add_child(LineStatement.consume(compiler, parent))
+            else:
+                raise ParseError(
+                    "Expected a function after a decorator "
+                    + f"at line {compiler.line_no + 1}"
+                )
         return decorated_func
 
     def process(self) -> None:
@@ -1820,9 +1827,8 @@ class DecoratedFunc(InlineStatement):
 
     def _tealish(self) -> str:
         output = ""
-        for n in self.decorators:
+        for n in self.child_nodes:
             output += n.tealish()
-        output += self.func.tealish()
         return output
 
 
-- 
2.43.0


From 00893ecad6373b00b0323bce5e2eb1e4fa7cea24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:42 +0000
Subject: [PATCH 41/88] fix: do not ignore the parameters of a public decorator
 that are not understood

---
 tealish/nodes.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 406b0f1..c1c96db 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -825,6 +825,17 @@ class Switch(InlineStatement):
         return output
 
 
+ON_COMPLETIONS = (
+    "NoOp",
+    "OptIn",
+    "CloseOut",
+    "ClearState",
+    "UpdateApplication",
+    "DeleteApplication",
+    "CreateApplication",
+)
+
+
 class Route(Node):
     pattern = r"(?P<name>.*)"
     name: str
@@ -835,9 +846,18 @@ class Route(Node):
 
     def process(self) -> None:
         self.arg_expressions = []
-        self.func = self.lookup_func(self.name)
+        try:
+            self.func = self.lookup_func(self.name)
+        except KeyError as e:
+            raise CompileError(e.args[0], node=self)
         if "public" not in self.func.attributes:
             raise CompileError(f"{self.name} is not a public function", node=self)
+        for key, value in self.func.attributes["public"].items():
+            if key != "OnCompletion" or value not in ON_COMPLETIONS:
+                raise CompileError(
+                    f'Unexpected parameter "{key}={value}" of public function {self.name}',
+                    node=self,
+                )
         for i, (arg, type_name) in enumerate(self.func.args.args):
             a = i + 1
             arg_type = get_type_instance(type_name)
@@ -1791,11 +1811,22 @@ class DecoratedFunc(InlineStatement):
         self.func = node
         self.func.decorators = self.decorators
         for decorator in self.decorators:
+            if decorator.name in self.func.attributes:
+                raise ParseError(
+                    f'Redefinition of decorator "{decorator.name}" '
+                    + f"at line {decorator.line_no}"
+                )
             self.func.attributes[decorator.name] = {}
-            if m := re.match(r"(?P<key>.*)=(?P<value>.*)", decorator.params):
+            params = decorator.params.strip()
+            if m := re.match(r"(?P<key>\w+)\s*=\s*(?P<value>\w+)$", params):
                 self.func.attributes[decorator.name] = {
                     m.groupdict()["key"]: m.groupdict()["value"]
                 }
+            elif params:
+                raise ParseError(
+                    f'Cannot parse the parameters "{params}" of a decorator '
+                    + f"at line {decorator.line_no}"
+                )
         self.add_child(node)
 
     @classmethod
-- 
2.43.0


From 7930abef744c8f8086764c9d0f9de17c79d494d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 42/88] fix: accept uint64 arguments in functions of a router

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index c1c96db..715c051 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -863,7 +863,7 @@ class Route(Node):
             arg_type = get_type_instance(type_name)
             if type_name == "bytes":
                 line = f"Txn.ApplicationArgs[{a}]"
-            elif type_name == "int":
+            elif type_name in ("int", "uint64"):
                 line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
             elif isinstance(arg_type, IntType) and arg_type.size != 8:
                 line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
-- 
2.43.0


From fbfa6cd907eddf03d01ff987006170b4732f0e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 43/88] fix: report unknown blocks as errors of the program

---
 tealish/base.py  | 4 ++++
 tealish/nodes.py | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/tealish/base.py b/tealish/base.py
index 08cce13..ccc0f5e 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -121,6 +121,10 @@ class BaseNode:
     def get_block(self, name: str) -> "Block":
         return self.get_blocks()[name]
 
+    def check_block(self, name: str) -> None:
+        if name not in self.get_blocks():
+            raise CompileError(f'Unknown block "{name}"', node=self)  # type: ignore
+
     def is_descendant_of(self, node_class: type) -> bool:
         return self.find_parent(node_class) is not None
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 715c051..325a482 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -493,6 +493,9 @@ class Jump(LineStatement):
     pattern = r"jump (?P<block_name>.*)$"
     block_name: str
 
+    def process(self) -> None:
+        self.check_block(self.block_name)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         b = self.get_block(self.block_name)
@@ -802,6 +805,9 @@ class Switch(InlineStatement):
         for node in self.options:
             node.expression.process()
             self.check_single_value(node.expression)
+            node.check_block(node.block_name)
+        if self.else_:
+            self.else_.check_block(self.else_.block_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
-- 
2.43.0


From 701948cd0b80097b20967a544f26876d74883181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 44/88] fix: show the line of a wrong index of an inner
 transaction field

---
 tealish/nodes.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 325a482..07a5e03 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1071,16 +1071,9 @@ class InnerTxn(InlineStatement):
                 if n == index:
                     self.array_fields[node.field_name].append(node)
                 else:
-                    # TODO: this is required since the Node base class
-                    # accepts an Optional compiler.
-                    # I think this is wrong but will circle back
-                    lno: int = 0
-                    if self.compiler is not None:
-                        lno = self.compiler.line_no
-
                     raise ParseError(
                         f"Inccorrect field array index {index} "
-                        + f"(expected {n}) at line {lno}!"
+                        + f"(expected {n}) at line {node.line_no}!"
                     )
             else:
                 node.expression.process()
-- 
2.43.0


From e7037a3c12b96cdbb77c8951b157d5b8a3c73b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 45/88] fix: treat decorated functions in blocks like other
 functions

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 07a5e03..11ff72b 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -703,13 +703,13 @@ class Block(Statement):
 
             n = Statement.consume(compiler, block)
             if exit_statement:
-                if not isinstance(n, (Func, Block, Comment, Blank)):
+                if not isinstance(n, (Func, DecoratedFunc, Block, Comment, Blank)):
                     raise ParseError(
                         f"Unexpected statement at line {n.line_no}."
                         + f" Only Block and Function definitions should occure after a {exit_statement}."
                     )
             else:
-                if isinstance(n, (Func, Block)):
+                if isinstance(n, (Func, DecoratedFunc, Block)):
                     raise ParseError(
                         f"Unexpected {n} definition at line {n.line_no}. "
                         + "Block and Function definitions must occur after an exit statement (e.g. exit, switch, jump)."
-- 
2.43.0


From 79637a7f6b9ffe9e06a0d0e18b478c93920d6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 46/88] fix: reject functions defined within other statements

---
 tealish/nodes.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 11ff72b..cb9dfca 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1678,6 +1678,11 @@ class Func(InlineStatement):
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Func":
         func = Func(compiler.consume_line(), parent, compiler=compiler)
+        if not isinstance(parent, (Program, Block, DecoratedFunc)):
+            raise ParseError(
+                f"Unexpected Func definition at line {func.line_no}. "
+                + "Functions must be defined at the end of the program or of a block."
+            )
 
         while True:
             if compiler.peek() == "end":
@@ -1833,6 +1838,11 @@ class DecoratedFunc(InlineStatement):
         cls, compiler: "TealishCompiler", parent: Optional[Node]
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
+        if not isinstance(parent, (Program, Block)):
+            raise ParseError(
+                f"Unexpected Func definition at line {compiler.line_no + 1}. "
+                + "Functions must be defined at the end of the program or of a block."
+            )
         while True:
             if compiler.peek().startswith("func "):
                 decorated_func.set_func(Func.consume(compiler, decorated_func))
-- 
2.43.0


From fb50b893fd80fd4fbcc60d8e5c97e78d0902288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 47/88] fix: do not split return values at commas in strings

---
 tealish/nodes.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index cb9dfca..55ec4a5 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -38,6 +38,9 @@ LITERAL_BYTE_STRING = r'"(.+)"'
 LITERAL_BYTE_HEX = r"0x(([a-fA-F0-9]{2})+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
+# A string literal or any other character of the arguments of a return statement.
+RETURN_ARGS_TOKEN = re.compile(r"""(?s)"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'|.""")
+
 if TYPE_CHECKING:
     from . import TealishCompiler, TealWriter
 
@@ -2138,17 +2141,13 @@ class BoxDeclaration(LineStatement):
 
 def split_return_args(s):
     parentheses = 0
-    quotes = False
-    for i in range(len(s)):
-        if s[i] == '"':
-            quotes = not quotes
-        if not quotes:
-            if s[i] == "(":
-                parentheses += 1
-            if s[i] == ")":
-                parentheses -= 1
-            if parentheses == 0 and s[i] == ",":
-                return [s[:i].strip()] + split_return_args(s[i + 1 :].strip())
+    for m in RETURN_ARGS_TOKEN.finditer(s):
+        if m[0] == "(":
+            parentheses += 1
+        if m[0] == ")":
+            parentheses -= 1
+        if parentheses == 0 and m[0] == ",":
+            return [s[: m.start()].strip()] + split_return_args(s[m.end() :].strip())
     return [s]
 
 
-- 
2.43.0


From 75de9f3d7ecbcee6643558da7465c47e00e394fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 48/88] fix: reject calls of functions that have the name of an
 opcode

---
 tealish/expression_nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 903d67d..0b4d20c 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -227,6 +227,14 @@ class FunctionCall(BaseNode):
                 self.func_call = UserDefinedFuncCall(name, args, self)
 
     def process(self) -> None:
+        if (
+            not isinstance(self.func_call, UserDefinedFuncCall)
+            and self.name in self.get_scope().functions
+        ):
+            raise CompileError(
+                f'Function "{self.name}" can not be called because it has the name of an opcode',
+                node=self,
+            )
         self.func_call.process()
         self.type = self.func_call.type
         self.value = getattr(self.func_call, "value", None)
-- 
2.43.0


From 0cb980dd39da2f583f1f666761ed4018c66c08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 49/88] fix: reject other texts in place of the names of inner
 transaction fields

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 55ec4a5..d7bfbe6 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1010,7 +1010,7 @@ class Teal(InlineStatement):
 
 
 class InnerTxnFieldSetter(InlineStatement):
-    pattern = r"(?P<field_name>.*?)(\[(?P<index>\d\d?)\])?: (?P<expression>.*)"
+    pattern = r"(?P<field_name>[A-Z][a-zA-Z]*)(\[(?P<index>\d+)\])?: (?P<expression>.*)$"
     field_name: str
     index: int
     expression: GenericExpression
-- 
2.43.0


From c63119736b6dcd02611aef196b6660fb2f31bf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 50/88] fix: report unknown enums outside of calls as errors of
 the program

---
 tealish/expression_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0b4d20c..e830cda 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -121,7 +121,9 @@ class Enum(BaseNode):
         except KeyError:
             try:
                 # op field
-                type = self.lookup_op_field(self.parent.name, self.name)
+                type = self.lookup_op_field(
+                    getattr(self.parent, "name", ""), self.name
+                )
             except KeyError:
                 raise CompileError(f'Unknown builtin enum "{self.name}"', node=self)
         if not isinstance(type, (IntType, BytesType, BigIntType, AddrType)):
-- 
2.43.0


From c9334f809fe1ba20557bbd87141ae408d8f583df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 51/88] fix: the map of a compiled program has no lines for
 get_teal_lines_for_tealish

---
 tealish/__init__.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index ca70022..710c62b 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -183,10 +183,12 @@ class TealishCompiler:
         return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
-        map = TealishMap()
-        map.teal_tealish = dict(self.source_map)
-        map.errors = dict(self.error_messages)
-        return map
+        return TealishMap(
+            {
+                "teal_tealish": dict(self.source_map),
+                "errors": dict(self.error_messages),
+            }
+        )
 
     def get_structs(self):
         return dict(_structs)
-- 
2.43.0


From e29d3f050cac148eeb5268c2487bebfe7d0777c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 52/88] fix: returned expressions are mapped to the line of the
 construct around the return statement

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d7bfbe6..bde7f91 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1751,7 +1751,7 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, parent, compiler)
+                node = GenericExpression.parse(arg, self, compiler)
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
-- 
2.43.0


From b23657ca6eab70043f0113c604961419cf00af0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 53/88] fix: code of elif and else is mapped to the line of the
 if

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index bde7f91..7f3c378 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1403,7 +1403,7 @@ class IfStatement(InlineStatement):
 
         for i, n in enumerate(self.elifs):
             writer.write(self, f"{n.label}:")
-            writer.write(self, f"// tl:{n.line_no}: {n.line}")
+            writer.write(n, f"// tl:{n.line_no}: {n.line}")
             writer.level += 1
             n.write_teal(writer)
             if i != (len(self.elifs) - 1) or self.else_:
@@ -1413,7 +1413,7 @@ class IfStatement(InlineStatement):
             writer.level -= 1
         if self.else_:
             writer.write(self, f"{self.else_.label}:")
-            writer.write(self, f"// tl:{self.else_.line_no}: {self.else_.line}")
+            writer.write(self.else_, f"// tl:{self.else_.line_no}: {self.else_.line}")
             writer.level += 1
             self.else_.write_teal(writer)
             writer.level -= 1
-- 
2.43.0


From 5f8f06887588a0385bf57ef8afbe724d174066e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 54/88] fix: strings in the arguments of an assert are taken
 for its message

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7f3c378..86e18e1 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -550,7 +550,7 @@ class FunctionCallStatement(LineStatement):
 
 
 class Assert(LineStatement):
-    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>.*?)")?\)$'
+    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>(?:\\.|[^"\\])*)")?\)$'
     arg: GenericExpression
     message: str
 
-- 
2.43.0


From a1f033637902c8f78003961251e043a28811a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 55/88] fix: spaces before an inline comment are part of the
 statement

---
 tealish/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 710c62b..87fa9bb 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -115,7 +115,7 @@ class TealishCompiler:
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
-            line = TEALISH_CODE.match(line)[0]
+            line = TEALISH_CODE.match(line)[0].rstrip()
         self.line_no += 1
         return line
 
-- 
2.43.0


From b1b90dbd2080bc75aa1c5cd191eee1b52ede3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 56/88] fix: only remove the .tl extension at the end of a
 filename

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..03654d0 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -30,7 +30,7 @@ def _build(
         output_path = pathlib.Path(path).parent / "build"
         output_path.mkdir(exist_ok=True)
         filename = pathlib.Path(path).name
-        base_filename = filename.replace(".tl", "")
+        base_filename = filename[:-3] if filename.endswith(".tl") else filename
 
         # Teal
         teal_filename = output_path / f"{base_filename}.teal"
-- 
2.43.0


From 6cad9a81fb221b7b69cb9e713b48f35ca32090d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 57/88] fix: write a valid JSON map when an assert message
 contains a bracket and a comma

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 03654d0..3681bbe 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -78,7 +78,7 @@ def _build(
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
             with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+                f.write(json.dumps(tealish_map.as_dict()))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From 36878a3aefee7b500bbc3e35846cf192b2187b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 58/88] fix: report compile errors of format and inspect as
 messages

---
 tealish/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 3681bbe..c670215 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -144,7 +144,7 @@ def format(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = reformat_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     tealish_file.seek(0)
     tealish_file.write(output)
@@ -159,7 +159,7 @@ def inspect(ctx: click.Context, tealish_file: IO) -> None:
     input = tealish_file.read()
     try:
         output = inspect_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     print(json.dumps(output, indent=2))
 
-- 
2.43.0


From 72c53faee0e19bc310b3421ae4b796a160bd19b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:55 +0000
Subject: [PATCH 59/88] fix: struct types are those of the program, not those
 of all compiled programs

---
 tealish/__init__.py |  3 +--
 tealish/base.py     |  2 +-
 tealish/nodes.py    | 25 +++++++++++++++----------
 tealish/scope.py    |  6 +++++-
 tealish/stdlib.py   |  2 +-
 tealish/types.py    | 26 ++++++--------------------
 6 files changed, 29 insertions(+), 35 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 87fa9bb..2fe87f6 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -5,7 +5,6 @@ from .base import BaseNode
 from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap
-from .types import _structs
 
 # A line of TEAL and its comment, if any. "//" within a string literal is not a comment.
 TEAL_LINE = re.compile(
@@ -191,7 +190,7 @@ class TealishCompiler:
         )
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.nodes[0].get_current_scope().structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
diff --git a/tealish/base.py b/tealish/base.py
index ccc0f5e..c0b5695 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -87,7 +87,7 @@ class BaseNode:
             max_slot = self.parent.compiler.max_slot + 1  # type: ignore
 
         try:
-            type = get_type_instance(type_name)
+            type = get_type_instance(type_name, scope.structs)
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 86e18e1..f8d9ed7 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -25,8 +25,6 @@ from .types import (
     StructType,
     TealishType,
     UIntType,
-    define_struct,
-    get_struct,
     get_type_instance,
     int_size,
     string_size,
@@ -469,7 +467,7 @@ class Const(LineStatement):
     def process(self) -> None:
         scope = self.get_current_scope()
         try:
-            tealish_type = get_type_instance(self.tealish_type)
+            tealish_type = get_type_instance(self.tealish_type, scope.structs)
         except KeyError:
             raise CompileError(f'Unknown type "{self.tealish_type}"', node=self)
         if not tealish_type.can_hold(self.literal.type()):
@@ -869,7 +867,7 @@ class Route(Node):
                 )
         for i, (arg, type_name) in enumerate(self.func.args.args):
             a = i + 1
-            arg_type = get_type_instance(type_name)
+            arg_type = get_type_instance(type_name, self.current_scope.structs)
             if type_name == "bytes":
                 line = f"Txn.ApplicationArgs[{a}]"
             elif type_name in ("int", "uint64"):
@@ -1636,10 +1634,16 @@ class ArgsList(Expression):
     pattern = rf"(?P<args>({arg_pattern}(,\s*(?!$)|$))*)$"
     args: List[Tuple[str, TealishType]]
 
-    def __init__(self, line: str) -> None:
+    @classmethod
+    def parse(cls, line: str, parent: Node, compiler: "TealishCompiler") -> Node:
+        return cls(line, parent.get_current_scope().structs)
+
+    def __init__(self, line: str, structs: Dict[str, StructType]) -> None:
         super().__init__(line)
         self.args = re.findall(self.arg_pattern, line)
-        self.arg_types = [get_type_instance(type_name) for _, type_name in self.args]
+        self.arg_types = [
+            get_type_instance(type_name, structs) for _, type_name in self.args
+        ]
 
     def _tealish(self) -> str:
         output = ", ".join([f"{a}: {t}" for (a, t) in self.args])
@@ -1669,7 +1673,7 @@ class Func(InlineStatement):
         self.return_type = self.return_type.replace(" ", "")
         try:
             self.returns = [
-                get_type_instance(type_name)
+                get_type_instance(type_name, scope.structs)
                 for type_name in filter(None, self.return_type.split(","))
             ]
         except KeyError as e:
@@ -1935,6 +1939,7 @@ class StructDefinition(InlineStatement):
                     )
                 )
 
+        structs = node.get_current_scope().structs
         node.struct = StructType(node.name)
         for field in node.child_nodes:
             field_node = cast(StructFieldDefinition, field)
@@ -1943,7 +1948,7 @@ class StructDefinition(InlineStatement):
                     f'Redefinition of field "{field_node.field_name}" at line {field_node.line_no}'
                 )
             try:
-                field_type = get_type_instance(field_node.data_type)
+                field_type = get_type_instance(field_node.data_type, structs)
             except KeyError:
                 raise ParseError(
                     f'Unknown type "{field_node.data_type}" at line {field_node.line_no}'
@@ -1955,7 +1960,7 @@ class StructDefinition(InlineStatement):
                     + f"does not have a fixed size at line {field_node.line_no}"
                 )
             node.struct.add_field(field_node.field_name, field_type)
-        define_struct(node.struct)
+        structs[node.name] = node.struct
 
         return node
 
@@ -2094,7 +2099,7 @@ class BoxDeclaration(LineStatement):
 
     def process(self):
         try:
-            self.struct = get_struct(self.struct_name)
+            self.struct = self.get_current_scope().structs[self.struct_name]
         except KeyError:
             raise CompileError(f'Unknown struct "{self.struct_name}"', node=self)
         self.box_size = self.struct.size
diff --git a/tealish/scope.py b/tealish/scope.py
index a41110a..23bd037 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -1,6 +1,6 @@
 from typing import Dict, Iterable, Optional, Tuple, TYPE_CHECKING
 from .tealish_builtins import Var, ConstValue
-from .types import TealishType
+from .types import StructType, TealishType
 
 if TYPE_CHECKING:
     from .nodes import Func, Block
@@ -26,6 +26,10 @@ class Scope:
         self.consts: Dict[str, Tuple["TealishType", "ConstValue"]] = {}
         self.blocks: Dict[str, "Block"] = {}
         self.functions: Dict[str, "Func"] = {}
+        # The struct types of the program, which are not scoped
+        self.structs: Dict[str, StructType] = (
+            parent_scope.structs if parent_scope is not None else {}
+        )
 
         if parent_scope is not None and parent_scope.name:
             self.name = f"{parent_scope.name}__{name}"
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index e1a3ea8..462cdd9 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -63,7 +63,7 @@ class FunctionCall(BaseNode):
     def type_arg(self, arg: "Node") -> TealishType:
         """The type an argument is the name of"""
         try:
-            return get_type_instance(arg.name)
+            return get_type_instance(arg.name, self.get_current_scope().structs)
         except (AttributeError, KeyError):
             raise CompileError(f"Expected a type as arg of {self.name}", node=self)
 
diff --git a/tealish/types.py b/tealish/types.py
index c12e62a..c3dc4c1 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -13,10 +13,6 @@ def int_size(value: int) -> int:
     return max((value.bit_length() - 1) // 8 + 1, 1)
 
 
-# Set of custom defined types
-_structs: Dict[str, "StructType"] = {}
-
-
 class AVMType(str, Enum):
     """AVMType enum represents the possible types an opcode accepts or returns"""
 
@@ -186,9 +182,9 @@ class StructType(BytesType):
 class BoxType(BytesType):
     name = "box"
 
-    def __init__(self, struct_name: str):
-        self.struct_name = struct_name
-        self.struct = get_struct(struct_name)
+    def __init__(self, struct: StructType):
+        self.struct_name = struct.name
+        self.struct = struct
         self.fields = self.struct.fields
         # the value of a reference is the key of the box, the size of which is not known
         self.size = 0
@@ -212,15 +208,7 @@ class ArrayType(BytesType):
         super().__init__(length * type.size)
 
 
-def define_struct(struct: StructType) -> None:
-    _structs[struct.name] = struct
-
-
-def get_struct(struct_name: str) -> StructType:
-    return _structs[struct_name]
-
-
-def get_type_instance(type_name):
+def get_type_instance(type_name: str, structs: Dict[str, StructType]) -> TealishType:
     if type_name == "int":
         return IntType()
     elif type_name == "bytes":
@@ -237,11 +225,9 @@ def get_type_instance(type_name):
         size = int(m.groups()[0])
         return BytesType(size)
     elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]*)>", type_name):
-        struct_name = m.groups()[0]
-        return BoxType(struct_name=struct_name)
+        return BoxType(structs[m.groups()[0]])
     elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]*)", type_name):
-        struct_name = m.groups()[0]
-        return get_struct(struct_name)
+        return structs[m.groups()[0]]
     elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
-- 
2.43.0


From 74780e52604744b9b4ceaea13c54dd4480ec4e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:50 +0000
Subject: [PATCH 60/88] fix: program counters were mapped to the line of TEAL
 before theirs

---
 tealish/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..0ca2d37 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -86,7 +86,8 @@ class TealishMap:
     ) -> None:
         if not isinstance(sourcemap, SourceMap):
             sourcemap = SourceMap(sourcemap)
-        self.pc_teal = dict(sourcemap.pc_to_line)
+        # lines are counted from 0 in the source map of algod but from 1 in teal_tealish
+        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
 
     def as_dict(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 447dc6e51f235b4641786aaa984c125c943f5806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 61/88] fix: format the commas between immediate arguments

---
 tealish/expression_nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index e830cda..a976f08 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -336,7 +336,7 @@ class OpCall(BaseNode):
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         if self.immediate_args:
-            args = self.immediate_args.split(", ") + args
+            args = self.immediate_args.split(" ") + args
         return f"{self.name}({', '.join(args)})"
 
 
-- 
2.43.0


From b2fe07d3175533b3728eb1af9c7492bbbc690ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 62/88] fix: format box declarations without Open or Create

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index f8d9ed7..3bafecd 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2139,7 +2139,7 @@ class BoxDeclaration(LineStatement):
     def _tealish(self):
         s = (
             f"box<{self.struct_name}> {self.name.tealish()} = "
-            f"{self.method}Box({self.key.tealish()})"
+            f"{self.method or ''}Box({self.key.tealish()})"
         )
         return s + "\n"
 
-- 
2.43.0


From ba4a464a5cec6f5cb1cd891ec4788beae7f576d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:31 +0000
Subject: [PATCH 63/88] fix: format the return types of functions as they were
 written

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 3bafecd..9948c85 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1724,7 +1724,7 @@ class Func(InlineStatement):
 
     def _tealish(self) -> str:
         returns = (
-            (" " + (", ".join(str(r) for r in self.returns))) if self.returns else ""
+            (" " + self.return_type.replace(",", ", ")) if self.return_type else ""
         )
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
-- 
2.43.0


From a64d038d1cfa93c50a65816bea080417a6eb9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 64/88] fix: keep the comments in structs and inner
 transactions when formatting

---
 tealish/nodes.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 9948c85..2216c03 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1041,18 +1041,21 @@ class InnerTxn(InlineStatement):
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerTxn":
         node = InnerTxn(compiler.consume_line(), parent, compiler=compiler)
+        # the fields and the comments between them
+        node.lines: List[Node] = []
         while True:
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.lines.append(LineStatement.consume(compiler, node))
             else:
                 node.add_child(
                     InnerTxnFieldSetter(
                         compiler.consume_line(), node, compiler=compiler
                     )
                 )
+                node.lines.append(node.child_nodes[-1])
         group = cast(Optional[InnerGroup], cls.find_parent(node, InnerGroup))
         if group is not None:
             group.inners.append(node)
@@ -1107,8 +1110,8 @@ class InnerTxn(InlineStatement):
 
     def _tealish(self) -> str:
         output = "inner_txn:\n"
-        for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+        for n in self.lines:
+            output += indent(n.tealish().rstrip("\n")) + "\n"
         output += "end\n"
         return output
 
@@ -1920,6 +1923,8 @@ class StructDefinition(InlineStatement):
         cls, compiler: "TealishCompiler", parent: Optional[Node]
     ) -> "StructDefinition":
         node = cls(compiler.consume_line(), parent, compiler=compiler)
+        # the fields and the comments between them
+        node.lines: List[Node] = []
         if not isinstance(parent, Program):
             raise ParseError(
                 f"Unexpected StructDefinition definition at line {node.line_no}. "
@@ -1931,13 +1936,14 @@ class StructDefinition(InlineStatement):
                 compiler.consume_line()
                 break
             elif compiler.peek().startswith("#"):
-                compiler.consume_line()
+                node.lines.append(LineStatement.consume(compiler, node))
             else:
                 node.add_child(
                     StructFieldDefinition(
                         compiler.consume_line(), node, compiler=compiler
                     )
                 )
+                node.lines.append(node.child_nodes[-1])
 
         structs = node.get_current_scope().structs
         node.struct = StructType(node.name)
@@ -1973,8 +1979,8 @@ class StructDefinition(InlineStatement):
 
     def _tealish(self) -> str:
         output = f"struct {self.name}:\n"
-        for n in self.child_nodes:
-            output += indent(n.tealish()) + "\n"
+        for n in self.lines:
+            output += indent(n.tealish().rstrip("\n")) + "\n"
         output += "end\n"
         return output
 
-- 
2.43.0


From c0014c02be3e881e21f4880a3b319b268df50506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:33 +0000
Subject: [PATCH 65/88] fix: keep inline comments when formatting and allow
 them after end

---
 tealish/__init__.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 2fe87f6..d6dea05 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -100,6 +100,7 @@ class TealishCompiler:
         self.writer = TealWriter()
         self.processed = False
         self.line_nodes = {}
+        self.inline_comments: Dict[int, str] = {}
         self.use_inner_txns_macro = None
 
     def at_end(self) -> bool:
@@ -110,17 +111,20 @@ class TealishCompiler:
             raise ParseError(f"Unexpected end of program at line {self.line_no}")
 
     def consume_line(self) -> str:
-        self.check_not_at_end()
-        line = self.source_lines[self.line_no].strip()
-        # strip out inline comments
-        if not line.startswith("#"):
-            line = TEALISH_CODE.match(line)[0].rstrip()
+        line = self.peek()
         self.line_no += 1
         return line
 
     def peek(self) -> str:
         self.check_not_at_end()
-        return self.source_lines[self.line_no].strip()
+        line = self.source_lines[self.line_no].strip()
+        # strip out inline comments
+        if not line.startswith("#"):
+            code = TEALISH_CODE.match(line)[0]
+            if code != line:
+                self.inline_comments[self.line_no] = line[len(code) :]
+            line = code.rstrip()
+        return line
 
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
@@ -179,7 +183,11 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
-        return self.nodes[0].tealish()
+        # each line of the program is formatted as one line
+        output = self.nodes[0].tealish().split("\n")
+        for i, comment in self.inline_comments.items():
+            output[i] += f" {comment}"
+        return "\n".join(output)
 
     def get_map(self) -> TealishMap:
         return TealishMap(
-- 
2.43.0


From 911c6f37e2b6e0418bab1db9d5b11c7eb7097b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 66/88] fix: name the line at fault in every diagnostic

---
 tealish/nodes.py  | 9 +++++++--
 tealish/stdlib.py | 9 ++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 2216c03..d28e40e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -78,6 +78,7 @@ class Node(BaseNode):
             raise ParseError(
                 f"Pattern ({self.pattern}) does not match "
                 + f'for {self} for line "{self.line}"'
+                + (f" at line {self._line_no}" if compiler else "")
             )
         self.raw_tokens = raw_tokens.groupdict()
 
@@ -107,7 +108,7 @@ class Node(BaseNode):
     def add_child(self, node: "Node") -> None:
         if not isinstance(node, tuple(self.possible_child_nodes)):
             raise ParseError(
-                f"Unexpected child node {node} in {self} at line {self._line_no}!"
+                f"Unexpected child node {node} in {self} at line {node._line_no}!"
             )
         node.parent = self
         if not node.current_scope:
@@ -1758,7 +1759,10 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, self, compiler)
+                try:
+                    node = GenericExpression.parse(arg, self, compiler)
+                except ParseError as e:
+                    raise ParseError(f"{e} at line {self._line_no}")
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
@@ -1848,6 +1852,7 @@ class DecoratedFunc(InlineStatement):
         cls, compiler: "TealishCompiler", parent: Optional[Node]
     ) -> "DecoratedFunc":
         decorated_func = DecoratedFunc("", parent, compiler=compiler)
+        decorated_func._line_no = compiler.line_no + 1
         if not isinstance(parent, (Program, Block)):
             raise ParseError(
                 f"Unexpected Func definition at line {compiler.line_no + 1}. "
diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 462cdd9..2d568df 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -270,7 +270,8 @@ class FromBytes(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
+                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -495,7 +496,8 @@ class Rpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Rpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Rpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -528,7 +530,8 @@ class Lpad(FunctionCall):
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Lpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Lpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 2581c6d833c66d8972f5ff2a92077f421b6a8ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 67/88] fix: reject unknown fields with a CompileError

---
 tealish/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/base.py b/tealish/base.py
index c0b5695..7e1b330 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -163,7 +163,10 @@ class BaseNode:
             )
 
     def get_field_type(self, namespace: str, name: str) -> TealishType:
-        return lang_spec.get_field_type(namespace, name)
+        try:
+            return lang_spec.get_field_type(namespace, name)
+        except KeyError:
+            raise CompileError(f'Unknown field "{name}"', node=self)  # type: ignore
 
     def lookup_op(self, name: str) -> Op:
         return lang_spec.lookup_op(name)
-- 
2.43.0


From 4430acc5c6d4e176c9164f4e3c7c966c9a36bf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 68/88] fix: reject group indexes over 15 with a CompileError

---
 tealish/expression_nodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index a976f08..0a99151 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -452,11 +452,13 @@ class GroupTxnField(BaseNode):
             # index is an expression that needs to be evaluated
             self.index.process()
             self.check_single_value(self.index)
+        elif self.index.value > 15:
+            raise CompileError(
+                f"Group index {self.index.value} is greater than 15", node=self
+            )
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
-            assert self.index.value >= 0, "Group index < 0"
-            assert self.index.value < 16, "Group index > 16"
             writer.write(self, f"gtxn {self.index.value} {self.field}")
         else:
             # index is a constant
@@ -489,6 +491,10 @@ class GroupTxnArrayField(BaseNode):
             # index is an expression that needs to be evaluated
             self.index.process()
             self.check_single_value(self.index)
+        elif self.index.value > 15:
+            raise CompileError(
+                f"Group index {self.index.value} is greater than 15", node=self
+            )
         if not isinstance(self.arrayIndex, Integer):
             self.arrayIndex.process()
             self.check_single_value(self.arrayIndex)
@@ -506,7 +512,6 @@ class GroupTxnArrayField(BaseNode):
                 writer.write(self, f"gtxnsa {self.field} {self.arrayIndex.value}")
         else:
             # index is a constant
-            assert self.index.value >= 0 and self.index.value < 16
             if not isinstance(self.arrayIndex, Integer):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
-- 
2.43.0


From 1ec7c4299f72df292cf16eb10e5edf92dfa971cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 69/88] fix: reject two structs of the same name

---
 tealish/nodes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d28e40e..5e14c6e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1951,6 +1951,10 @@ class StructDefinition(InlineStatement):
                 node.lines.append(node.child_nodes[-1])
 
         structs = node.get_current_scope().structs
+        if node.name in structs:
+            raise ParseError(
+                f'Redefinition of struct "{node.name}" at line {node.line_no}'
+            )
         node.struct = StructType(node.name)
         for field in node.child_nodes:
             field_node = cast(StructFieldDefinition, field)
-- 
2.43.0


From 2a7736edac10b385e2585f693823e7f1eb29b171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 70/88] fix: reject a switch with two else options

---
 tealish/nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5e14c6e..d6a6337 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -792,9 +792,12 @@ class Switch(InlineStatement):
                 compiler.consume_line()
                 break
             if compiler.peek().startswith("else:"):
-                switch.add_else(
-                    SwitchElse(compiler.consume_line(), switch, compiler=compiler)
-                )
+                else_ = SwitchElse(compiler.consume_line(), switch, compiler=compiler)
+                if switch.else_:
+                    raise ParseError(
+                        f"Unexpected second else in switch at line {else_.line_no}"
+                    )
+                switch.add_else(else_)
             else:
                 switch.add_option(
                     SwitchOption(compiler.consume_line(), switch, compiler=compiler)
-- 
2.43.0


From fa222e1a18f6321113274422e4f017c52eb8f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:20 +0000
Subject: [PATCH 71/88] fix: reject missing and broken types in the return
 types of functions

---
 tealish/nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index d6a6337..6dd5e37 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1677,11 +1677,13 @@ class Func(InlineStatement):
         scope.declare_function(self.name, self)
         self.label = scope.name + "__func__" + self.name
         self.new_scope("func__" + self.name)
-        self.return_type = self.return_type.replace(" ", "")
+        type_names = [t.strip() for t in self.return_type.split(",")]
+        self.return_type = ",".join(type_names)
         try:
             self.returns = [
                 get_type_instance(type_name, scope.structs)
-                for type_name in filter(None, self.return_type.split(","))
+                for type_name in type_names
+                if self.return_type
             ]
         except KeyError as e:
             raise ParseError(str(e) + f" Line {self.line_no}")
-- 
2.43.0


From 7e0f656711ff31fbbb5244b724cf370fc8c340a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:36 +0000
Subject: [PATCH 72/88] fix: reject blocks inside inner groups

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 6dd5e37..df8f531 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1121,7 +1121,7 @@ class InnerTxn(InlineStatement):
 
 
 class InnerGroup(InlineStatement):
-    possible_child_nodes = [Statement]
+    possible_child_nodes = [InlineStatement]
     pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
-- 
2.43.0


From 97b0fa6bbba56543396b054842f462f70a4f1079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 73/88] fix: reject broken assignments in linear time

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index df8f531..f844166 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -616,7 +616,7 @@ class VarDeclaration(LineStatement):
 
 
 class Assignment(LineStatement):
-    pattern = r"(?P<names>([a-z_][a-zA-Z0-9_]*,?\s*)+) = (?P<expression>.*)$"
+    pattern = r"(?P<names>[a-z_][a-zA-Z0-9_]*(,\s*[a-z_][a-zA-Z0-9_]*)*)\s* = (?P<expression>.*)$"
     names: str
     name_nodes: List[Name]
     expression: GenericExpression
-- 
2.43.0


From d8f01afa75a48be9e34733a16e5201da366bb6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:19 +0000
Subject: [PATCH 74/88] fix: parse nested calls and fields in linear time

---
 tealish/tx_expressions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index edfc4a5..7539604 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -15,6 +15,7 @@ tealish_mm = metamodel_from_file(
     skipws=True,
     ws=" \t",
     debug=False,
+    memoization=True,
     classes=class_provider,
 )
 
-- 
2.43.0


From 3763ae6bda5ecd9082c0b9b4b72605dd84cf7c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:29 +0000
Subject: [PATCH 75/88] fix: keep string literals as valid TEAL strings

---
 tealish/expression_nodes.py    | 17 ++++++++++++-----
 tealish/nodes.py               |  2 +-
 tealish/tealish_expressions.tx |  3 ++-
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0a99151..f75696f 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Optional, Union, TYPE_CHECKING
 
 from .base import BaseNode
@@ -37,15 +38,21 @@ class Integer(BaseNode):
 
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
-        self.value = value
-        self.type = BytesType(size=string_size(value))
+        # the content of the string, with its escapes
+        self.value = value[1:-1]
+        if value[0] == "'":
+            # TEAL only has strings in double quotes
+            self.value = re.sub(
+                r"\\.|\"",
+                lambda m: m[0][1] if m[0] == "\\'" else '\\"' if m[0] == '"' else m[0],
+                self.value,
+            )
+        self.type = BytesType(size=string_size(self.value))
         self.parent = parent
 
     @property
     def literal(self) -> str:
-        # the parser unescapes quotes
-        value = self.value.replace('"', '\\"')
-        return f'"{value}"'
+        return f'"{self.value}"'
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"pushbytes {self.literal}")
diff --git a/tealish/nodes.py b/tealish/nodes.py
index f844166..115cf77 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -32,7 +32,7 @@ from .types import (
 from .scope import Scope
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"(.+)"'
+LITERAL_BYTE_STRING = r'"(?:[^"\\]|\\(?:[nrt"\\]|x[0-9a-fA-F]{2}))+"'
 LITERAL_BYTE_HEX = r"0x(([a-fA-F0-9]{2})+)"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 923eafd..edea2de 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -44,4 +44,5 @@ NegativeGroupIndex: '-' index=INT;
 PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
-Bytes: value=STRING | HexBytes;
+String: /"(?:[^"\\]|\\(?:[nrt"\\]|x[0-9a-fA-F]{2}))*"/ | /'(?:[^'\\]|\\(?:[nrt"'\\]|x[0-9a-fA-F]{2}))*'/;
+Bytes: value=String | HexBytes;
-- 
2.43.0


From 33db271f8edcb742e98d3d544a8d9a7eb0a822e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:16 +0000
Subject: [PATCH 76/88] fix: reject fields, indexes and integers that TEAL can
 not express

---
 tealish/base.py             | 26 ++++++++++++++++++-
 tealish/expression_nodes.py | 50 ++++++++++++++++++++++++++-----------
 tealish/langspec.py         |  2 ++
 3 files changed, 62 insertions(+), 16 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 7e1b330..10eae74 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -3,7 +3,7 @@ from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
 from .scope import Scope
-from .types import TealishType, get_type_instance
+from .types import BytesType, TealishType, get_type_instance
 
 
 if TYPE_CHECKING:
@@ -162,6 +162,30 @@ class BaseNode:
                 f"Expected a single value, got {expression.type}", node=self
             )
 
+    def check_int(self, expression: "Node") -> None:
+        """Check that a processed expression leaves exactly one int on the stack"""
+        self.check_single_value(expression)
+        if isinstance(expression.type, BytesType):
+            raise CompileError(f"Expected int, got {expression.type}", node=self)
+
+    def check_group_index(self, index: int) -> None:
+        if not 0 <= int(index) <= 15:
+            raise CompileError(
+                f"Group index {index} is not between 0 and 15", node=self
+            )
+
+    def check_array_index(self, index: int) -> None:
+        if index > 255:
+            raise CompileError(f"Array index {index} is greater than 255", node=self)
+
+    def check_field_is_array(self, name: str, indexed: bool) -> None:
+        """Check that an array field is used with an index and others without"""
+        is_array = name in lang_spec.array_fields
+        if is_array and not indexed:
+            raise CompileError(f'Field "{name}" needs an array index', node=self)
+        if indexed and not is_array:
+            raise CompileError(f'Field "{name}" is not an array', node=self)
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         try:
             return lang_spec.get_field_type(namespace, name)
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index f75696f..dbc6c92 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -29,6 +29,12 @@ class Integer(BaseNode):
         self.type = UIntType(int_size(self.value))
         self.parent = parent
 
+    def process(self) -> None:
+        if self.value >= 2**64:
+            raise CompileError(
+                f"{self.value} does not fit in a 64 bit integer", node=self
+            )
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"pushint {self.value}")
 
@@ -405,6 +411,7 @@ class TxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        self.check_field_is_array(self.field, False)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"txn {self.field}")
@@ -427,10 +434,13 @@ class TxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        self.check_field_is_array(self.field, True)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
-            self.check_single_value(self.arrayIndex)
+            self.check_int(self.arrayIndex)
+        else:
+            self.check_array_index(self.arrayIndex.value)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
@@ -455,14 +465,13 @@ class GroupTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
+        self.check_field_is_array(self.field, False)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
-            self.check_single_value(self.index)
-        elif self.index.value > 15:
-            raise CompileError(
-                f"Group index {self.index.value} is greater than 15", node=self
-            )
+            self.check_int(self.index)
+        else:
+            self.check_group_index(self.index.value)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
@@ -494,17 +503,18 @@ class GroupTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
+        self.check_field_is_array(self.field, True)
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
-            self.check_single_value(self.index)
-        elif self.index.value > 15:
-            raise CompileError(
-                f"Group index {self.index.value} is greater than 15", node=self
-            )
+            self.check_int(self.index)
+        else:
+            self.check_group_index(self.index.value)
         if not isinstance(self.arrayIndex, Integer):
             self.arrayIndex.process()
-            self.check_single_value(self.arrayIndex)
+            self.check_int(self.arrayIndex)
+        else:
+            self.check_array_index(self.arrayIndex.value)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -537,9 +547,12 @@ class GroupTxnArrayField(BaseNode):
 class PositiveGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional["BaseNode"] = None) -> None:
         self.index = index
-        self.type = AVMType.int
+        self.type = IntType()
         self.parent = parent
 
+    def process(self) -> None:
+        self.check_group_index(self.index)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "txn GroupIndex")
         writer.write(self, f"pushint {self.index}")
@@ -552,9 +565,12 @@ class PositiveGroupIndex(BaseNode):
 class NegativeGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional[BaseNode] = None) -> None:
         self.index = index
-        self.type = AVMType.int
+        self.type = IntType()
         self.parent = parent
 
+    def process(self) -> None:
+        self.check_group_index(self.index)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, "txn GroupIndex")
         writer.write(self, f"pushint {self.index}")
@@ -588,6 +604,7 @@ class InnerTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        self.check_field_is_array(self.field, False)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"itxn {self.field}")
@@ -610,10 +627,13 @@ class InnerTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field)
+        self.check_field_is_array(self.field, True)
         if not isinstance(self.arrayIndex, Integer):
             # index is an expression that needs to be evaluated
             self.arrayIndex.process()
-            self.check_single_value(self.arrayIndex)
+            self.check_int(self.arrayIndex)
+        else:
+            self.check_array_index(self.arrayIndex.value)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.arrayIndex, Integer):
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..0a39510 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -224,6 +224,8 @@ class LangSpec:
 
         self.global_fields: Dict[str, TealishType] = self.fields["Global"]
         self.txn_fields: Dict[str, TealishType] = self.fields["Txn"]
+        # the transaction fields that are arrays
+        self.array_fields: List[str] = self.ops["txna"].arg_enum
 
     def as_dict(self) -> Dict[str, Any]:
         return self.spec
-- 
2.43.0


From b3b6f004058da16dd4da2c890bcf955ca050f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 77/88] fix: reject bytes as conditions, exit codes and loop
 bounds

---
 tealish/nodes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 115cf77..77e48a0 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -515,7 +515,7 @@ class Exit(LineStatement):
 
     def process(self) -> None:
         self.expression.process()
-        self.check_single_value(self.expression)
+        self.check_int(self.expression)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1225,7 +1225,7 @@ class Elif(Node):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
-        self.check_single_value(self.condition)
+        self.check_int(self.condition)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.condition)
@@ -1380,7 +1380,7 @@ class IfStatement(InlineStatement):
             self.child_nodes[-1].next_label = self.end_label
 
         self.condition.process()
-        self.check_single_value(self.condition)
+        self.check_int(self.condition)
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1487,7 +1487,7 @@ class WhileStatement(InlineStatement):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
-        self.check_single_value(self.condition)
+        self.check_int(self.condition)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1544,6 +1544,8 @@ class ForStatement(InlineStatement):
         self.var = self.declare_scratch_var(self.var_name, "int")
         for n in self.nodes:
             n.process()
+        self.check_int(self.start)
+        self.check_int(self.end)
         self.del_var(self.var_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1608,6 +1610,8 @@ class For_Statement(InlineStatement):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
+        self.check_int(self.start)
+        self.check_int(self.end)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
-- 
2.43.0


From 5b15dbfcdc6f7a1e70a6a11e22a323527547afff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:39 +0000
Subject: [PATCH 78/88] fix: reject unknown fields in inner transactions

---
 tealish/nodes.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 77e48a0..dd28842 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1017,6 +1017,18 @@ class InnerTxnFieldSetter(InlineStatement):
     index: int
     expression: GenericExpression
 
+    def process(self) -> None:
+        try:
+            self.lookup_op_field("itxn_field", self.field_name)
+        except KeyError:
+            raise CompileError(
+                f'Unknown inner transaction field "{self.field_name}"', node=self
+            )
+        if self.index is not None:
+            self.check_field_is_array(self.field_name, True)
+        self.expression.process()
+        self.check_single_value(self.expression)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         writer.write(self, self.expression)
@@ -1084,14 +1096,11 @@ class InnerTxn(InlineStatement):
                         + f"(expected {n}) at line {node.line_no}!"
                     )
             else:
-                node.expression.process()
+                node.process()
 
         for a in self.array_fields.values():
             for node in a:
-                node.expression.process()
-
-        for node in self.child_nodes:
-            node.check_single_value(cast(InnerTxnFieldSetter, node).expression)
+                node.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
-- 
2.43.0


From 459c69aef0e219054a18949df591182e7f418d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 79/88] fix: reject constants named like fields and labels

---
 tealish/__init__.py | 8 ++++++++
 tealish/base.py     | 3 +++
 tealish/langspec.py | 6 ++++++
 tealish/nodes.py    | 5 +++++
 4 files changed, 22 insertions(+)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index d6dea05..f4249e4 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -168,6 +168,9 @@ class TealishCompiler:
 
     def check_labels(self) -> None:
         labels = set()
+        macros = {
+            line.split()[1] for line in self.output if line.strip().startswith("#define ")
+        }
         for i, line in enumerate(self.output):
             m = TEAL_LABEL.match(line)
             if not m:
@@ -176,6 +179,11 @@ class TealishCompiler:
                 raise CompileError(
                     f'Duplicate label "{m["label"]}" at line {self.source_map[i + 1]}'
                 )
+            if m["label"] in macros:
+                raise CompileError(
+                    f'Label "{m["label"]}" at line {self.source_map[i + 1]} '
+                    + "has the name of a constant"
+                )
             labels.add(m["label"])
 
     def reformat(self) -> str:
diff --git a/tealish/base.py b/tealish/base.py
index 10eae74..c3f87ed 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -207,6 +207,9 @@ class BaseNode:
     def lookup_avm_constant(self, name: str) -> Tuple["TealishType", Any]:
         return lang_spec.lookup_avm_constant(name)
 
+    def is_avm_name(self, name: str) -> bool:
+        return lang_spec.is_name(name)
+
     def lookup_op_field(self, op_name: str, field_name: str) -> "TealishType":
         return lang_spec.lookup_op_field(op_name, field_name)
 
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 0a39510..2c099b1 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -249,6 +249,12 @@ class LangSpec:
             raise KeyError(f'Constant "{name}" does not exist!')
         return constants[name]
 
+    def is_name(self, name: str) -> bool:
+        """Whether TEAL has a constant or field of this name"""
+        return name in constants or any(
+            name in op.arg_enum for op in self.ops.values()
+        )
+
     def get_field_type(self, namespace: str, name: str) -> TealishType:
         if "txn" in namespace:
             return self.txn_fields[name]
diff --git a/tealish/nodes.py b/tealish/nodes.py
index dd28842..dee30da 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -479,6 +479,11 @@ class Const(LineStatement):
         # TEAL macros are not scoped so a constant can't shadow another one
         if self.name in self.get_scope().consts:
             raise CompileError(f'Redefinition of constant "{self.name}"', node=self)
+        # nor have the name of a field, which it would be substituted for
+        if self.is_avm_name(self.name):
+            raise CompileError(
+                f'"{self.name}" is the name of a TEAL constant or field', node=self
+            )
         scope.declare_const(self.name, (self.literal.type(), self.literal.value))
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From f28224748144605dd6f1fd2cc97cd008e0c2892b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:37 +0000
Subject: [PATCH 80/88] fix: check the immediate arguments of opcodes

---
 tealish/expression_nodes.py | 42 ++++++++++++++++++-----------
 tealish/langspec.py         | 54 +++++++++++++++++++++++++++++++++++--
 2 files changed, 78 insertions(+), 18 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index dbc6c92..ff48ca5 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -310,6 +310,8 @@ class OpCall(BaseNode):
     def process_op_call(self, op: Op) -> None:
         self.func_call_type = "op"
         self.op = op
+        if not op.is_callable:
+            raise CompileError(f"{op.name} can not be called", node=self)
         immediates = self.args[: op.immediate_args_num]
         num_args = len(op.args)
 
@@ -321,23 +323,33 @@ class OpCall(BaseNode):
         self.check_arg_types(self.name, self.args)
         for i, x in enumerate(immediates):
             x.process()
-            if isinstance(x, Constant):
-                immediates[i] = x.name
-            elif isinstance(x, Enum):
-                immediates[i] = x.name
-            elif hasattr(x, "value") and isinstance(x.type, IntType):
-                immediates[i] = x.value
-            elif isinstance(x, Bytes):
-                immediates[i] = x.literal
-            else:
-                raise CompileError(
-                    f"{x} can not be used as an immediate argument for {op.name}",
-                    node=self,
-                )
+            immediates[i] = self.get_immediate(i, x)
+        if self.name == "substring" and self.nodes[0].value > self.nodes[1].value:
+            raise CompileError("The end of substring is before the start", node=self)
         self.immediate_args = " ".join(map(str, immediates))
         returns = op.returns_types
         self.type = returns[0] if len(returns) == 1 else returns
 
+    def get_immediate(self, i: int, arg: "Node") -> Union[str, int]:
+        value = getattr(arg, "value", None)
+        if self.op.is_field(i):
+            if isinstance(arg, Enum) and arg.name in self.op.arg_enum:
+                if self.name in ("txn", "gtxn", "gtxns", "itxn", "gitxn"):
+                    self.check_field_is_array(arg.name, False)
+                return arg.name
+        elif self.name == "method":
+            if isinstance(arg, Bytes):
+                return arg.literal
+            if isinstance(arg, Constant) and str(value).startswith('"'):
+                return arg.name
+        elif isinstance(arg.type, IntType) and value is not None:
+            if value <= self.op.max_immediate(i):
+                return arg.name if isinstance(arg, Constant) else value
+        raise CompileError(
+            f"{arg.tealish()} can not be used as an immediate argument for {self.name}",
+            node=self,
+        )
+
     def write_teal(self, writer: "TealWriter") -> None:
         for arg in self.args:
             writer.write(self, arg)
@@ -347,9 +359,7 @@ class OpCall(BaseNode):
             writer.write(self, f"{self.name}")
 
     def _tealish(self) -> str:
-        args = [a.tealish() for a in self.args]
-        if self.immediate_args:
-            args = self.immediate_args.split(" ") + args
+        args = [a.tealish() for a in self.nodes]
         return f"{self.name}({', '.join(args)})"
 
 
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 2c099b1..fcf4460 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -3,6 +3,7 @@ import os
 import requests
 import tealish
 import json
+import re
 from .tealish_builtins import constants
 from .types import BytesType, IntType, AnyType, TealishType
 from typing import List, Dict, Any, Tuple, Optional
@@ -23,6 +24,29 @@ pseudo_ops = [
 ]
 
 
+# The names of these immediate args are not included in langspec.json.
+_ecdsa_curves = ["Secp256k1", "Secp256r1"]
+_array_fields = [
+    "ApplicationArgs",
+    "Accounts",
+    "Assets",
+    "Applications",
+    "Logs",
+    "ApprovalProgramPages",
+    "ClearStateProgramPages",
+]
+arg_enums = {
+    "base64_decode": ["URLEncoding", "StdEncoding"],
+    "json_ref": ["JSONString", "JSONUint64", "JSONObject"],
+    "ecdsa_verify": _ecdsa_curves,
+    "ecdsa_pk_decompress": _ecdsa_curves,
+    "ecdsa_pk_recover": _ecdsa_curves,
+    "vrf_verify": ["VrfAlgorand"],
+    "block": ["BlkSeed", "BlkTimestamp"],
+    "itxnas": _array_fields,
+    "gitxnas": _array_fields,
+}
+
 _opcode_type_map = {
     ".": AnyType(),
     "B": BytesType(),
@@ -164,8 +188,11 @@ class Op:
         else:
             self.immediate_note = ""
 
-        if "ArgEnum" in op_def:
-            self.arg_enum = op_def["ArgEnum"]
+        #: the size and the meaning of each immediate arg
+        self.immediates = re.findall(r"{(\w+) ([^}]*)}", self.immediate_note)
+
+        if "ArgEnum" in op_def or self.name in arg_enums:
+            self.arg_enum = op_def.get("ArgEnum") or arg_enums[self.name]
             if "ArgEnumTypes" in op_def:
                 self.arg_enum_types = convert_args_to_types(op_def["ArgEnumTypes"])
             else:
@@ -209,6 +236,29 @@ class Op:
                 break
 
 
+    @property
+    def is_callable(self) -> bool:
+        """Whether all immediate args can be written as args of a function call.
+        Tealish has no labels and no immediate args of variable length."""
+        return self.size > 0 and not any(
+            "branch offset" in note for _, note in self.immediates
+        )
+
+    def is_field(self, i: int) -> bool:
+        """Whether immediate arg i is one of the names in arg_enum"""
+        if len(self.arg_enum) == 0:
+            return False
+        if i < len(self.immediates) and self.immediate_args_num > 1:
+            return self.immediates[i][1].endswith("field index")
+        return i == 0
+
+    def max_immediate(self, i: int) -> int:
+        """The greatest value of immediate arg i"""
+        if i < len(self.immediates) and self.immediates[i][0].startswith("int8"):
+            return 127
+        return 255
+
+
 class LangSpec:
     def __init__(self, spec: Dict[str, Any]) -> None:
         self.is_packaged = False
-- 
2.43.0


From aa314befdc0f48f28703fc1a1b4cbd163feaa525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:10 +0000
Subject: [PATCH 81/88] fix: reject invalid addresses

---
 tealish/stdlib.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 2d568df..44767df 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -1,3 +1,5 @@
+import base64
+import re
 from typing import List, Optional, Union
 from Cryptodome.Hash import SHA512
 from tealish import TealWriter
@@ -577,8 +579,19 @@ class Address(FunctionCall):
     def process(self) -> None:
         self.check_args()
         self.address = self.string_arg(self.args[0])
+        if not self.is_address(self.address):
+            raise CompileError(f'Invalid address "{self.address}"', node=self)
         self.type = BytesType()
 
+    @staticmethod
+    def is_address(value: str) -> bool:
+        """Whether a string is a public key and its checksum in base32"""
+        if not re.match(r"[A-Z2-7]{58}$", value):
+            return False
+        data = base64.b32decode(value + "======")
+        checksum = SHA512.new(data[:32], truncate="256").digest()[-4:]
+        return base64.b32encode(data[:32] + checksum).decode() == value + "======"
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"addr {self.address}")
 
-- 
2.43.0


From f917223a24d5c8f9997f33a14a39f7f179798b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 82/88] fix: reject opcodes without their immediate arguments

---
 tealish/expression_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index ff48ca5..39646fe 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -316,7 +316,8 @@ class OpCall(BaseNode):
         num_args = len(op.args)
 
         self.args = self.args[op.immediate_args_num :]
-        if len(self.args) != num_args:
+        if len(self.args) != num_args or len(immediates) != op.immediate_args_num:
+            num_args += op.immediate_args_num
             raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
         for i, arg in enumerate(self.args):
             arg.process()
-- 
2.43.0


From 1bd09e0043ece876c1bd7b2328ef45a54a2bfa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:58 +0000
Subject: [PATCH 83/88] fix: minify TEAL with // or labels in strings and
 labels in labels

---
 tealish/utils.py | 40 +++++++++++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 0ca2d37..6fb5c6b 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,6 +1,34 @@
+import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
+# The code of a line of TEAL, up to its comment
+TEAL_CODE = re.compile(r'(?:"(?:\\.|[^"\\])*"|(?!//).)*')
+# A string, or the labels a branch refers to
+TEAL_BRANCH = re.compile(
+    r'"(?:\\.|[^"\\])*"'
+    r'|(?P<op>(?:^|;)\s*(?:b|bz|bnz|callsub|switch|match)\s)(?P<labels>[^;"]*)'
+)
+
+
+def get_code(line: str) -> str:
+    """The code of a line of TEAL without its comment"""
+    return TEAL_CODE.match(line)[0].strip()  # type: ignore
+
+
+def replace_labels(line: str, replacements: Dict[str, str]) -> str:
+    """Replace the labels that are referred to in a line of TEAL"""
+
+    def replace(m: "re.Match[str]") -> str:
+        if m["op"] is None:
+            return m[0]
+        return m["op"] + re.sub(
+            r"\S+", lambda w: replacements.get(w[0], w[0]), m["labels"]
+        )
+
+    code = get_code(line)
+    return TEAL_BRANCH.sub(replace, code) + line[len(code) :]
+
 
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
@@ -13,8 +41,9 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         i = i + 1
         line = line.strip()
         if not (not line or line.startswith("//")):
-            if line.split("//")[0].strip().endswith(":"):
-                label = line.split("//")[0].strip()[:-1]
+            code = get_code(line)
+            if code.endswith(":"):
+                label = code[:-1]
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
                     label_replacements[label] = previous_label
@@ -28,9 +57,7 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
             output.append(line)
     source_map[n] = len(teal_lines) - 1
     for i, line in enumerate(output):
-        for k in label_replacements:
-            if k in line:
-                output[i] = line.replace(k, label_replacements[k])
+        output[i] = replace_labels(line, label_replacements)
     return output, source_map
 
 
@@ -39,8 +66,7 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            line = line.split("//")[0].strip()
-            output.append(line)
+            output.append(get_code(line))
     return output
 
 
-- 
2.43.0


From 4fc5a18ace090b9e51fcf4237ad8c4575d97753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:22 +0000
Subject: [PATCH 84/88] fix: reject signs in front of the sign of a relative
 group index

---
 tealish/tealish_expressions.tx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index edea2de..64910df 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -40,8 +40,8 @@ Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
 GroupIndex: NegativeGroupIndex | PositiveGroupIndex | Expression;
-NegativeGroupIndex: '-' index=INT;
-PositiveGroupIndex: '+' index=INT;
+NegativeGroupIndex: /-(?=\s*[0-9])/ index=INT;
+PositiveGroupIndex: /\+(?=\s*[0-9])/ index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 String: /"(?:[^"\\]|\\(?:[nrt"\\]|x[0-9a-fA-F]{2}))*"/ | /'(?:[^'\\]|\\(?:[nrt"'\\]|x[0-9a-fA-F]{2}))*'/;
-- 
2.43.0


From ca033d53e61fdee30566592dd7e845c5f2582f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 85/88] fix: reject assignments to variables outside of a
 function

---
 tealish/nodes.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index dee30da..279a8ce 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -381,6 +381,15 @@ class InlineStatement(Statement):
 
 
 class LineStatement(InlineStatement):
+    def check_assignable(self, var: Var) -> None:
+        """Functions can read the variables outside of them but not assign to them"""
+        func = self.find_parent(Func)
+        if func is not None and var in func.parent.get_slots().values():
+            raise CompileError(
+                f'Var "{var.name}" is not declared in func "{func.name}", it can only be read in it',
+                node=self,
+            )
+
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "LineStatement":
         line = compiler.consume_line()
@@ -650,6 +659,8 @@ class Assignment(LineStatement):
                     f'Var "{name.value}" not declared in current scope', node=self
                 )
 
+            self.check_assignable(var)
+
             if not var.tealish_type.can_hold(self.incoming_types[i]):
                 raise CompileError(
                     "Incorrect type for assignment. "
@@ -2038,6 +2049,8 @@ class StructOrBoxAssignment(LineStatement):
                 f"{self.name.value} is not a struct or Box reference", node=self
             )
         self.object_type = self.var.tealish_type
+        if isinstance(self.object_type, StructType):
+            self.check_assignable(self.var)
 
         struct = self.var.tealish_type
         if self.field_name not in struct.fields:
-- 
2.43.0


From 8aaff1dfce2475180b5f9640457286c86723eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:15 +0000
Subject: [PATCH 86/88] fix: reject the variable of a loop in its own start
 value

---
 tealish/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 279a8ce..a95b09e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1566,9 +1566,12 @@ class ForStatement(InlineStatement):
         return node
 
     def process(self) -> None:
+        # The start value can't use the variable, it has no value yet
+        self.start.process()
         self.var = self.declare_scratch_var(self.var_name, "int")
         for n in self.nodes:
-            n.process()
+            if n is not self.start:
+                n.process()
         self.check_int(self.start)
         self.check_int(self.end)
         self.del_var(self.var_name)
-- 
2.43.0


From 9ae3e048b9e89f36cf1bc2cacf049d52fade6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:43 +0000
Subject: [PATCH 87/88] fix: reject variables in their own declaration

---
 tealish/nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a95b09e..ae2af28 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -601,9 +601,11 @@ class VarDeclaration(LineStatement):
     expression: GenericExpression
 
     def process(self) -> None:
-        self.var = self.declare_scratch_var(self.name.value, self.type_name)
+        # The variable can't be used in its own declaration
         if self.expression:
             self.expression.process()
+        self.var = self.declare_scratch_var(self.name.value, self.type_name)
+        if self.expression:
             if not self.var.tealish_type.can_hold(self.expression.type):
                 message = f"Incorrect type for assignment. Expected {self.type_name}, got {self.expression.type} at line {self.line_no}."
                 if self.var.tealish_type.can_hold_with_cast(self.expression.type):
@@ -2157,8 +2159,8 @@ class BoxDeclaration(LineStatement):
         except KeyError:
             raise CompileError(f'Unknown struct "{self.struct_name}"', node=self)
         self.box_size = self.struct.size
-        self.var = self.declare_scratch_var(self.name.value, f"box<{self.struct_name}>")
         self.key.process()
+        self.var = self.declare_scratch_var(self.name.value, f"box<{self.struct_name}>")
         if not BytesType().can_hold(self.key.type):
             raise CompileError(
                 f"Incorrect type for box key. Expected bytes, got {self.key.type}",
-- 
2.43.0


From 15d8a57948aece77c7224d4e644df8b4d632494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 88/88] fix: take branch names with http or blob in them as
 they are

---
 tealish/langspec.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index fcf4460..dcb07ca 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -351,15 +351,16 @@ def compare_langspecs(a: LangSpec, b: LangSpec) -> Tuple[List[Any], List[Any]]:
 
 
 def fetch_langspec(url: str) -> LangSpec:
-    if "http" not in url:
+    if not url.startswith(("http://", "https://")):
         # assume branch name for go-algorand
         branch = url
         url = (
             f"https://github.com/algorand/go-algorand/raw/{branch}"
             "/data/transactions/logic/langspec.json"
         )
-    if "github.com" in url and "blob" in url:
-        url = url.replace("blob", "raw")
+    else:
+        # the page of a file at github.com/{owner}/{repo}/blob/{branch}/{path}
+        url = re.sub(r"^(https?://(www\.)?github\.com(/[^/]+){2})/blob/", r"\1/raw/", url)
     r = requests.get(url)
     r.raise_for_status()
     langspec_dict = r.json()
-- 
2.43.0

