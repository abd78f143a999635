From 376c8ec50982d3e2e895c2ff96f03ea8798d1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:00 +0000
Subject: [PATCH 01/72] fix: keep a record whose forward declaration precedes
 its definition

A forward declaration registers the record without a source location; the
definition never set it, so the whole record was dropped from the output.
---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ce08ebe..e4b66f8 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -696,6 +696,9 @@ class CursorHandler(ClangHandler):
         else:
             obj = self.get_registered(name)
             declared_instance = False
+            # a forward declaration has no location yet, the definition gives it
+            self.set_location(obj, cursor)
+            self.set_comment(obj, cursor)
         # capture members declaration
         members = []
         # Go and recurse through fields
-- 
2.43.0


From 93dafd60bef08730910586db9a1885d4678b46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:29 +0000
Subject: [PATCH 02/72] fix: give a record declared in one file and defined in
 another its size

---
 ctypeslib/codegen/cursorhandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e4b66f8..c92c109 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -697,6 +697,8 @@ class CursorHandler(ClangHandler):
             obj = self.get_registered(name)
             declared_instance = False
             # a forward declaration has no location yet, the definition gives it
+            # and it has no size when its file does not see the definition
+            obj.size, obj.align = size, align
             self.set_location(obj, cursor)
             self.set_comment(obj, cursor)
         # capture members declaration
-- 
2.43.0


From a9c41e7b0fdb86025aa3fd27303f484cc57cd624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 03/72] fix: pad a union up to its size whatever its last
 member is

The padding was computed after the last member as if members followed each
other: a union whose largest member is not the last got a short padding.
---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index c92c109..4e563e4 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -856,6 +856,12 @@ class CursorHandler(ClangHandler):
         if s.size == 0:
             log.debug('FIXUP_STRUCT: struct has size %d', s.size)
             return
+        if isinstance(s, typedesc.Union):
+            # members overlap, they all start at offset 0. Only the alignment
+            # of the union can make it larger than its largest member.
+            if s.size * 8 > max([m.bits for m in s.members], default=0):
+                self._make_padding(s.members, 0, 0, s.size * 8)
+            return
         # try to fix bitfields without padding first
         self._fixup_record_bitfields_type(s)
         # No need to lookup members in a global var.
-- 
2.43.0


From 68bc1384cd2d8176e3a8b284679dc7a7c64c015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:38 +0000
Subject: [PATCH 04/72] fix: give bit-fields a storage unit and the sign that
 their layout needs

All consecutive bit-fields were given the type of the first one: the sign of
the others was lost, as was the layout of runs of mixed types, a char bit-field
or a zero-width bit-field made the module unusable, and an enum bit-field
renamed the enum. Choose the unit size from the offsets, keep each sign.
---
 ctypeslib/codegen/cursorhandler.py | 83 ++++++++++++++++++++++++++++--
 1 file changed, 79 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 4e563e4..29e98bc 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -796,8 +796,16 @@ class CursorHandler(ClangHandler):
         # compilers tend to reduce the size of the bitfield
         # to the bf_size
         # set the proper type name for the bitfield.
+        untiled = []
         for bf_size, members in bitfields:
-            name = members[0].type.name
+            units = self._bitfield_units(s, members)
+            if units is not None:
+                for m, unit in zip(members, units):
+                    m.type = self._bitfield_type(m.type, unit)
+                continue
+            # no unit size fits, use the first type but large enough for all
+            untiled.append((bf_size, members))
+            name = self._bitfield_type(members[0].type, max(m.type.size for m in members) * 8).name
             pad_bits = 0
             if bf_size <= 8:  # use 1 byte - type = char
                 # prep the padding bitfield size
@@ -816,7 +824,7 @@ class CursorHandler(ClangHandler):
             log.debug('_fixup_record_bitfield_size: fix type to %s', name)
             # set the whole bitfield to the appropriate type size.
             for m in members:
-                m.type.name = name
+                m.type = typedesc.FundamentalType(name, m.type.size, m.type.size)
                 if m.is_padding:
                     # this is the last field.
                     # reduce the size of this padding field to the
@@ -826,7 +834,7 @@ class CursorHandler(ClangHandler):
                 s.members.remove(members[-1])
 
         # phase 2 - integrate the special 3 Bytes + char fix
-        for bf_size, members in bitfields:
+        for bf_size, members in untiled:
             if True or bf_size == 24:
                 # we need to check for a 3bytes + char corner case
                 m = members[-1]
@@ -846,6 +854,62 @@ class CursorHandler(ClangHandler):
         #
         return
 
+    @staticmethod
+    def _bitfield_units(s, members):
+        """Returns the size in bits of the storage unit to use for each of these
+        consecutive bitfields: no bitfield crosses a unit, and no unit overlaps
+        other members of the record. None if there are no such sizes."""
+        last = s.members.index(members[-1])
+        limit = s.size * 8
+        if last + 1 < len(s.members):
+            limit = s.members[last + 1].offset
+        if limit < 0 or members[0].offset < 0:
+            # incomplete array
+            return None
+
+        def unit_of(run, limit, previous):
+            start, end = run[0].offset, run[-1].offset + run[-1].bits
+            declared = max(m.type.size for m in run) * 8
+            for unit in [declared] + [u for u in (32, 16, 8, 64) if u != declared]:
+                if (start % unit == 0 and -(-end // unit) * unit <= limit and
+                        all(m.offset // unit == (m.offset + m.bits - 1) // unit for m in run) and
+                        # ctypes would extend the previous unit
+                        not (previous < unit and previous + run[0].bits <= unit)):
+                    return unit
+            return None
+
+        # try with one size, then with one size between the gaps
+        unit = unit_of(members, limit, 64)
+        if unit is not None:
+            return [unit] * len(members)
+        runs = [[members[0]]]
+        for m in members[1:]:
+            if m.offset != runs[-1][-1].offset + runs[-1][-1].bits:
+                runs.append([])
+            runs[-1].append(m)
+        units = []
+        for i, run in enumerate(runs):
+            end = runs[i + 1][0].offset if i + 1 < len(runs) else limit
+            unit = unit_of(run, end, units[-1] if units else 64)
+            if unit is None:
+                return None
+            units.extend([unit] * len(run))
+        return units
+
+    @staticmethod
+    def _bitfield_type(tp, unit):
+        """Returns the type of that number of bits, with the sign of tp"""
+        while isinstance(tp, typedesc.Typedef):
+            tp = tp.typ
+        if tp.name == 'c_bool' and unit == 8:
+            return tp
+        if isinstance(tp, typedesc.Enumeration):
+            signed = any(v.value < 0 for v in tp.values)
+        else:
+            signed = tp.name in ('c_char', 'c_byte') or tp.name.startswith('c_int')
+        name = 'c_%sint%d' % ('' if signed else 'u', unit)
+        return typedesc.FundamentalType(name, unit // 8, unit // 8)
+
     def _fixup_record(self, s):
         """Fixup padding on a record"""
         log.debug('FIXUP_STRUCT: %s %d bits', s.name, s.size * 8)
@@ -862,6 +926,8 @@ class CursorHandler(ClangHandler):
             if s.size * 8 > max([m.bits for m in s.members], default=0):
                 self._make_padding(s.members, 0, 0, s.size * 8)
             return
+        # a zero-width bitfield has no storage, the offsets already account for it
+        s.members = [m for m in s.members if m.bits != 0 or not m.is_bitfield]
         # try to fix bitfields without padding first
         self._fixup_record_bitfields_type(s)
         # No need to lookup members in a global var.
@@ -935,9 +1001,18 @@ class CursorHandler(ClangHandler):
     def _make_padding(
             self, members, padding_nb, offset, length, prev_member=None):
         """Make padding Fields for a specifed size."""
+        log.debug("_make_padding: for %d bits", length)
+        if prev_member is not None and prev_member.is_bitfield:
+            # fill the storage unit of the bitfield, then pad with bytes
+            unit = prev_member.type.size * 8
+            rest = -offset % unit
+            if 0 < rest < length:
+                padding_nb = self._make_padding(members, padding_nb, offset, rest, prev_member)
+                return self._make_padding(members, padding_nb, offset + rest, length - rest)
+            if rest == 0:
+                prev_member = None
         name = 'PADDING_%d' % padding_nb
         padding_nb += 1
-        log.debug("_make_padding: for %d bits", length)
         if (length % 8) != 0 or (prev_member is not None and prev_member.is_bitfield):
             if length > 32:
                 typename = "c_uint64"
-- 
2.43.0


From 00555eed429ccca34d789693d755c81279830dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 05/72] fix: read octal and binary integers, long double and
 hexadecimal floats

An octal initial value was read as decimal, and a floating literal with an L
suffix or in hexadecimal made the whole translation fail.
---
 ctypeslib/codegen/cursorhandler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 29e98bc..5b000b7 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -520,12 +520,19 @@ class CursorHandler(ClangHandler):
                 value = value.replace('l', '').replace('u', '')
                 if value[:2] == '0x' or value[:2] == '0X':
                     value = '0x%s' % value[2:]  # "int(%s,16)"%(value)
+                elif value[:2] == '0b' or value[:2] == '0B':
+                    value = int(value, 2)
+                elif value[:1] == '0':
+                    value = int(value, 8)
                 else:
                     value = int(value)
             elif token.cursor.kind == CursorKind.FLOATING_LITERAL:  # noqa
                 # strip type suffix for constants
-                value = value.replace('f', '').replace('F', '')
-                value = float(value)
+                value = value.rstrip('fFlL')
+                if value[:2] == '0x' or value[:2] == '0X':
+                    value = float.fromhex(value)
+                else:
+                    value = float(value)
             elif (token.cursor.kind == CursorKind.CHARACTER_LITERAL or  # noqa
                           token.cursor.kind == CursorKind.STRING_LITERAL):  # noqa
                 value = self._clean_string_literal(token.cursor, value)
-- 
2.43.0


From 6d85442bf193e841f22ec5ed0d1702020d8a4e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 06/72] fix: generate loadable code for pointers and arrays of
 structs variables

An uninitialised int pointer made the translation fail, the address of an
object was copied as python code, and 'struct_S * 2()' raised at import.
---
 ctypeslib/codegen/codegenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7d9d9fa..26dfec7 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -380,6 +380,10 @@ class Generator:
                 # FIXME a char * is not a python string.
                 # we should output a cstring() construct.
                 init_value = repr(tp.init)
+            elif isinstance(tp.typ, typedesc.PointerType):
+                # there is no object to point to, whatever the initial value is
+                self._generate(tp.typ)
+                init_value = self.type_name(tp.typ, False) + "()"
             elif isinstance(tp.typ.typ, typedesc.FundamentalType) and (
                 "int" in tp.typ.typ.name or "long" in tp.typ.typ.name
             ):
@@ -393,7 +397,7 @@ class Generator:
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
             elif isinstance(tp.typ.typ, typedesc.Structure):
                 self._generate(tp.typ.typ)
-                init_value = self.type_name(tp.typ, False) + "()"
+                init_value = "(" + self.type_name(tp.typ, False) + ")()"
             else:
                 if tp.init is not None:
                     init_value = tp.init
-- 
2.43.0


From b7b82f39deeb8afcee0626cea75cf6b60c79c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 07/72] fix: translate variables of an enum type

They made the whole translation fail with NotImplementedError.
---
 ctypeslib/codegen/codegenerator.py | 3 +++
 ctypeslib/codegen/cursorhandler.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 26dfec7..9efaea6 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -416,6 +416,9 @@ class Generator:
             else:
                 init_value = "'\\x00'"
         else:
+            if isinstance(tp.typ, typedesc.Enumeration):
+                # its values may be the initial value
+                self._generate(tp.typ)
             # we want to have FundamentalType variable use the actual
             # type default, and not be a python ctypes object
             # if init_value is None:
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 5b000b7..0b09093 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -277,7 +277,7 @@ class CursorHandler(ClangHandler):
                 self.get_unique_name(cursor))
             log.error(st)
             raise RuntimeError(st)
-        elif self.is_array_type(_ctype) or _ctype.kind == TypeKind.RECORD:  # noqa
+        elif self.is_array_type(_ctype) or _ctype.kind in (TypeKind.RECORD, TypeKind.ENUM):  # noqa
             _type = self.parse_cursor_type(_ctype)
         elif self.is_pointer_type(_ctype):
             # for example, extern Function pointer
-- 
2.43.0


From 75445e1702275c1102dce14c7ab7da142486d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 08/72] fix: read parenthesised initial values and characters
 of integer variables

'int i = (3);' became True and "int i = 'a';" the name a.
---
 ctypeslib/codegen/cursorhandler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 0b09093..60b854e 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1,5 +1,6 @@
 """Handler for Cursor nodes from the clang AST tree."""
 
+import ast
 import logging
 import re
 
@@ -78,6 +79,8 @@ class CursorHandler(ClangHandler):
             return ret[0]
         return ret
 
+    PAREN_EXPR = UNEXPOSED_EXPR
+
     @log_entity
     def DECL_REF_EXPR(self, cursor):  # noqa
         return cursor.displayname
@@ -338,7 +341,11 @@ class CursorHandler(ClangHandler):
         else:
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
-                init_value = init_value[0][1]
+                kind, init_value = init_value[0]
+                if kind == CursorKind.CHARACTER_LITERAL and _type.name not in (  # noqa
+                        'c_char', 'c_ubyte', 'c_wchar'):
+                    # the character is a number in this type
+                    init_value = ord(ast.literal_eval("'%s'" % init_value))
         return init_value
 
     def _get_var_decl_init_value(self, _ctype, children):
-- 
2.43.0


From 04d70ff50979b326934fb41ca7cac72b439e3aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 09/72] fix: translate a string with the clang options of the
 configuration

translate() on a string ignored clang_opts, the target included, and never
saw the macros.
---
 ctypeslib/codegen/clangparser.py | 4 +++-
 ctypeslib/codegen/util.py        | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 5c92a06..c418cee 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -132,7 +132,9 @@ class Clang_Parser:
 
     def parse_string(self, input_data, lang="c", all_warnings=False, flags=None):
         """Use this parser on a memory string/file, instead of a file on disk"""
-        translation_unit = util.get_tu(input_data, lang, all_warnings, flags)
+        if flags is None:
+            flags = self.flags
+        translation_unit = util.get_tu(input_data, lang, all_warnings, flags, self.tu_options)
         self._parse_tu_diagnostics(translation_unit, "memory_input.c")
         self.tu = translation_unit
         root = self.tu.cursor
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 2f73248..163fa84 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -14,7 +14,7 @@ from ctypeslib.codegen import typedesc
 log = logging.getLogger('utils')
 
 
-def get_tu(source, lang='c', all_warnings=False, flags=None):
+def get_tu(source, lang='c', all_warnings=False, flags=None, options=0):
     """Obtain a translation unit from source and language.
 
     By default, the translation unit is created from source file "t.<ext>"
@@ -38,7 +38,7 @@ def get_tu(source, lang='c', all_warnings=False, flags=None):
     if all_warnings:
         args += ['-Wall', '-Wextra']
 
-    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])
+    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)], options=options)
 
 
 def get_cursor(source, spelling):
-- 
2.43.0


From e1ca3372826e203eb90643af542bf4bf85b6fc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 10/72] fix: keep the target types of each parser to itself

make_ctypes_convertor() changed a dictionary shared by all parsers: a parser
made for one target translated with the types of the last one made.
---
 ctypeslib/codegen/clangparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index c418cee..c9bb9d7 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -78,6 +78,8 @@ class Clang_Parser:
         self.tu_options = None
         self.flags = flags
         self.ctypes_sizes = {}
+        # this parser fixes them for its target, do not change the other parsers
+        self.ctypes_typename = dict(self.ctypes_typename)
         self.init_parsing_options()
         self.make_ctypes_convertor(flags)
         self.cursorkind_handler = cursorhandler.CursorHandler(self)
-- 
2.43.0


From 07b6671c4d8bc5af6f79fd221a918e48667002ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 11/72] fix: do not share lists and dictionaries between
 configurations

Appending to cfg.symbols or searched_dlls changed every other configuration.
---
 ctypeslib/codegen/config.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index 0f8c6ca..8b340b0 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -40,6 +40,12 @@ class CodegenConfig:
 
     def __init__(self):
         self._init_types()
+        # these are mutable, each configuration has its own
+        self.symbols = []
+        self.expressions = []
+        self.preloaded_dlls = []
+        self.known_symbols = {}
+        self.searched_dlls = []
         self.clang_opts = []
         if sys.platform == 'darwin':
             try:
-- 
2.43.0


From 3402499cef2945cc1feebbaab570b480fa501d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 12/72] fix: remove the temporary copy of the standard input

---
 ctypeslib/clang2py.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index df7a857..225431f 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -72,9 +72,9 @@ class Input:
             # stdin case
             if in_file == sys.stdin:
                 # pylint: disable-next=consider-using-with
-                _stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
-                _stdin.write(in_file.read())
-                in_file = _stdin
+                self._stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
+                self._stdin.write(in_file.read())
+                in_file = self._stdin
             self.files.append(in_file.name)
             in_file.close()
 
-- 
2.43.0


From b61865f4dbd596f77f9a35014401233f61566d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 13/72] fix: find the uninitialised, weak and indirect symbols
 of a library

Functions like memcpy were replaced by a stub, and variables of the bss were
not bound to the library.
---
 ctypeslib/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index d584b9c..d74ea49 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -46,7 +46,7 @@ class Library(metaclass=LibraryMeta):
         output = subprocess.check_output(cmd, universal_newlines=True)
         for line in output.split('\n'):
             fields = line.split(' ', 2)
-            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S"):
+            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S", "B", "W", "V", "i"):
                 if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]
                 self.__symbols[fields[2]] = fields[0]
 
-- 
2.43.0


From af1669a3036342d4fc06f088c934a81af4923a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 14/72] fix: write the path of a preloaded library, not the
 repr of an object

---
 ctypeslib/codegen/codegenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 9efaea6..fc7c912 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1034,7 +1034,8 @@ class CodeTranslator:
 
     def preload_dlls(self):
         # FIXME
-        self.cfg.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
+        dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
+        self.cfg.preloaded_dlls = [dll._filepath if isinstance(dll, Library) else dll._name for dll in dlls]
 
     def make_clang_parser(self):
         self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)
-- 
2.43.0


From 9266a0a16a42569c70470625a303dbe5ba799b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 15/72] fix: translate macros into python code that loads

Octal numbers, '&&', '?:', hexadecimal floats and nested parentheses gave a
module with syntax errors or names in __all__ that it did not define. Literal
suffixes like uL were kept, '(1)+(2)' was cut to '(1)', and the name of a
function macro or of a type was replaced as if it was a value.
---
 ctypeslib/codegen/codegenerator.py |  8 ++++----
 ctypeslib/codegen/cursorhandler.py | 14 ++++++++++----
 ctypeslib/codegen/util.py          |  8 ++++++++
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index fc7c912..eb05247 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -226,13 +226,13 @@ class Generator:
                     body = float_value
                 # what about integers you ask ? body token that represents token are Integer here.
                 # either it's just a thing we gonna print, or we need to have a registered item
-                if sum(x=='(' for x in body) != sum(x==')' for x in body):
-                    # unbalanced parens means comment
+                if not util.is_python_expression(body):
+                    # only valid in C means comment
                     print("# %s = %s # macro" % (macro.name, body), file=self.stream)
                 else:
                     print("%s = %s # macro" % (macro.name, body), file=self.stream)
-                self.macros += 1
-                self.names.append(macro.name)
+                    self.macros += 1
+                    self.names.append(macro.name)
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body):
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 60b854e..32bfdea 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -446,8 +446,9 @@ class CursorHandler(ClangHandler):
             else:
                 # unsigned int / long int / unsigned long int / long long int / unsigned long long int
                 # this works and doesn't eat STRING values because no '"' is before $ in the regexp.
-                # FIXME combinaisons of u/U, l/L, ll/LL, and combined, plus z/Z combined with u/U
-                value = re.sub("(u|U|l|L|ul|UL|ll|LL|ull|ULL|z|Z|zu|ZU)$", "", value)
+                value = re.sub("[uUlLzZ]+$", "", value)
+                # octal
+                value = re.sub("^0(?=[0-7]+$)", "0o", value)
             return value
         else:
             pass
@@ -561,7 +562,12 @@ class CursorHandler(ClangHandler):
                     if self.is_registered(value):
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
-                        value = self.get_registered(value).body
+                        obj = self.get_registered(value)
+                        if isinstance(obj, typedesc.Macro) and not obj.args:
+                            value = obj.body
+                        else:
+                            # a function macro, or not a macro
+                            value = typedesc.UndefinedIdentifier(value)
                         log.debug("Found MACRO_DEFINITION token identifier : %s", value)
                     else:
                         value = typedesc.UndefinedIdentifier(value)
@@ -1236,7 +1242,7 @@ class CursorHandler(ClangHandler):
                     str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
                     value = ''.join(str_tokens)
                 else:
-                    value = ''.join((str(_) for _ in tokens[1:tokens.index(')') + 1]))
+                    value = ''.join((str(_) for _ in tokens[1:]))
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 163fa84..a0a5bb6 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -150,6 +150,14 @@ def from_c_float_literal(value):
     return match.group(1)
 
 
+def is_python_expression(text):
+    try:
+        compile(text, "macro", "eval")
+    except (SyntaxError, ValueError):
+        return False
+    return True
+
+
 def contains_undefined_identifier(macro):
     # body is undefined
     if isinstance(macro.body, typedesc.UndefinedIdentifier):
-- 
2.43.0


From bdaefc8ac6c49ee855466c11ee7a8ab4b760ddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 16/72] fix: initialise the number variables with the value
 that clang computes

The initial value was the text of the C expression: a macro, an enumerator or
a C operator in it gave a module that raises at import, or a wrong value.
---
 ctypeslib/codegen/cursorhandler.py | 58 +++++++++++++++++++++++++-----
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 32bfdea..e3fbc1d 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1,10 +1,11 @@
 """Handler for Cursor nodes from the clang AST tree."""
 
-import ast
+import ctypes
 import logging
+import math
 import re
 
-from clang.cindex import CursorKind, LinkageKind, TypeKind, TokenKind
+from clang.cindex import Cursor, CursorKind, LinkageKind, TypeKind, TokenKind, conf
 
 from ctypeslib.codegen import typedesc, util
 from ctypeslib.codegen.handler import ClangHandler
@@ -88,10 +89,48 @@ class CursorHandler(ClangHandler):
     @log_entity
     def INIT_LIST_EXPR(self, cursor):  # noqa
         """Returns a list of literal values."""
-        values = [self.parse_cursor(child)
-                  for child in list(cursor.get_children())]
+        values = []
+        for child in list(cursor.get_children()):
+            value = self._evaluate(child)
+            values.append(self.parse_cursor(child) if value is None else value)
         return values
 
+    def _evaluate(self, cursor):
+        """Returns the value that clang computes for a number, as written: the
+        text of the expression may be only valid in C, or use names that are
+        not generated. None if the cursor is something else."""
+        kind = cursor.type.get_canonical().kind
+        if kind == TypeKind.ENUM:  # noqa
+            kind = TypeKind.INT  # noqa
+        elif kind not in self.parser.ctypes_typename or self.get_ctypes_name(kind) in (
+                'c_char', 'c_ubyte', 'c_wchar'):
+            # characters stay characters
+            return None
+        # see through the conversion to the type of the variable
+        while cursor.kind == CursorKind.UNEXPOSED_EXPR and len(list(cursor.get_children())) == 1:  # noqa
+            cursor = next(cursor.get_children())
+        if next(cursor.get_tokens(), None) is None:
+            # FIXME #77, see _literal_handling
+            return None
+        evaluate, get = conf.lib.clang_Cursor_Evaluate, {}
+        evaluate.argtypes, evaluate.restype = [Cursor], ctypes.c_void_p
+        for name, restype in (('getKind', ctypes.c_int), ('isUnsignedInt', ctypes.c_uint),
+                              ('getAsUnsigned', ctypes.c_ulonglong), ('getAsLongLong', ctypes.c_longlong),
+                              ('getAsDouble', ctypes.c_double), ('dispose', None)):
+            get[name] = getattr(conf.lib, 'clang_EvalResult_' + name)
+            get[name].argtypes, get[name].restype = [ctypes.c_void_p], restype
+        result = evaluate(cursor)
+        if not result:
+            return None
+        value = None
+        if get['getKind'](result) == 1:  # CXEval_Int
+            value = get['getAsUnsigned' if get['isUnsignedInt'](result) else 'getAsLongLong'](result)
+        elif get['getKind'](result) == 2:  # CXEval_Float
+            value = get['getAsDouble'](result)
+            value = value if math.isfinite(value) else None
+        get['dispose'](result)
+        return value
+
     ################################
     # STATEMENTS handlers
 
@@ -304,6 +343,11 @@ class CursorHandler(ClangHandler):
     def _VAR_DECL_value(self, cursor, _type):  # noqa
         """Handles Variable value initialization."""
         # always expect list [(k,v)] as init value.from list(cursor.get_children())
+        for child in cursor.get_children():
+            if child.kind.is_expression() and not self.is_array_type(cursor.type.get_canonical()):
+                value = self._evaluate(child)
+                if value is not None:
+                    return value
         # get the init_value and special cases
         init_value = self._get_var_decl_init_value(cursor.type,
                                                    list(cursor.get_children()))
@@ -341,11 +385,7 @@ class CursorHandler(ClangHandler):
         else:
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
-                kind, init_value = init_value[0]
-                if kind == CursorKind.CHARACTER_LITERAL and _type.name not in (  # noqa
-                        'c_char', 'c_ubyte', 'c_wchar'):
-                    # the character is a number in this type
-                    init_value = ord(ast.literal_eval("'%s'" % init_value))
+                init_value = init_value[0][1]
         return init_value
 
     def _get_var_decl_init_value(self, _ctype, children):
-- 
2.43.0


From 473b2f3a921aa1397fef1eafbcdc7e29e2e41122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 17/72] fix: generate arrays of a type whose name starts with
 two underscores

---
 ctypeslib/codegen/codegenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index eb05247..038bd04 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -724,7 +724,9 @@ class Generator:
                 type_name = self.type_name(f.type)
                 # handle "__" prefixed names by using a wrapper
                 if type_name.startswith("__"):
-                    type_name = "globals()['%s']" % type_name
+                    # the name only, not the array size
+                    base, star, size = type_name.partition(" * ")
+                    type_name = "globals()['%s']%s%s" % (base, star, size)
                 # a bitfield needs a triplet
                 if f.is_bitfield is False:
                     print("    ('%s', %s)," % (fieldname, type_name), file=self.stream)
-- 
2.43.0


From b20dfea32fcb58de761bb179b68170d3703a7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 18/72] fix: give function pointers the size of the pointers of
 the target

---
 ctypeslib/codegen/codegenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 038bd04..d0d9c87 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -144,7 +144,11 @@ class Generator:
             # else:
             return "%s * %s" % (self.type_name(t.typ, generate), t.size)
         if isinstance(t, typedesc.PointerType) and isinstance(t.typ, typedesc.FunctionType):
-            return self.type_name(t.typ, generate)
+            function = self.type_name(t.typ, generate)
+            if self.cross_arch_code_generation and t.size != ctypes.sizeof(ctypes.c_void_p):
+                # a ctypes function always has the size of a local pointer
+                return "%s(%s)" % (self.enable_pointer_type(), function)
+            return function
         if isinstance(t, typedesc.PointerType):
             pointer_class = self.enable_pointer_type()
             if t.typ.name in ["c_ubyte", "c_char"]:
-- 
2.43.0


From a2c77363589b06808e755c7215a3aa67fb38813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 19/72] fix: read a record once when its members lead back to
 it

---
 ctypeslib/codegen/cursorhandler.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e3fbc1d..af4c6ee 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -34,6 +34,8 @@ class CursorHandler(ClangHandler):
 
     def __init__(self, parser):
         ClangHandler.__init__(self, parser)
+        # names of the records whose members are being read
+        self._incomplete_records = set()
 
     def parse_cursor(self, cursor):
         mth = getattr(self, cursor.kind.name)
@@ -702,6 +704,9 @@ class CursorHandler(ClangHandler):
                 '_record_decl: %s is already registered with members',
                 name)
             return self.get_registered(name)
+        if name in self._incomplete_records:
+            # one of its members leads back to it
+            return self.get_registered(name)
         # CPP bases
         bases = []
         for c in cursor.get_children():
@@ -768,9 +773,13 @@ class CursorHandler(ClangHandler):
         decl_f = [f.type.get_declaration() for f in fields]
         log.debug('Fields: %s',
                   str(['%s/%s' % (f.kind.name, f.spelling) for f in fields]))
-        for field in fields:
-            log.debug('creating FIELD_DECL for %s/%s', field.kind.name, field.spelling)
-            members.append(self.FIELD_DECL(field))
+        self._incomplete_records.add(name)
+        try:
+            for field in fields:
+                log.debug('creating FIELD_DECL for %s/%s', field.kind.name, field.spelling)
+                members.append(self.FIELD_DECL(field))
+        finally:
+            self._incomplete_records.discard(name)
         # FIXME BUG clang: anonymous structure field with only one anonymous field
         # is not a FIELD_DECL. does not appear in get_fields() !!!
         #
-- 
2.43.0


From 30c0e636a3a7e8e8aeee32a7e5d2cb769e0e660e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 20/72] fix: give the bit-fields of unions a type that ctypes
 accepts

---
 ctypeslib/codegen/cursorhandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index af4c6ee..72da797 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -992,6 +992,11 @@ class CursorHandler(ClangHandler):
         if isinstance(s, typedesc.Union):
             # members overlap, they all start at offset 0. Only the alignment
             # of the union can make it larger than its largest member.
+            s.members = [m for m in s.members if m.bits != 0 or not m.is_bitfield]
+            for m in s.members:
+                if m.is_bitfield:
+                    units = [u for u in (m.type.size * 8, 32, 16, 8) if m.bits <= u <= s.size * 8]
+                    m.type = self._bitfield_type(m.type, (units or [m.type.size * 8])[0])
             if s.size * 8 > max([m.bits for m in s.members], default=0):
                 self._make_padding(s.members, 0, 0, s.size * 8)
             return
-- 
2.43.0


From 1d4cb43046d84faa2c43e2396fdcffe4cd158a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 21/72] fix: do not name an anonymous record like an unnamed
 bit-field

---
 ctypeslib/codegen/codegenerator.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index d0d9c87..16f77df 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -8,6 +8,7 @@ from __future__ import unicode_literals
 
 import collections
 import ctypes
+import itertools
 import logging
 import os
 import pkgutil
@@ -659,6 +660,16 @@ class Generator:
         log.debug("Head finished for %s", head.name)
         self.head_generated.add(head.name)
 
+    def _member_names(self, fields):
+        """Names of the members that are accessible from a record"""
+        names = set()
+        for f in fields:
+            if f.name == '' and isinstance(f.type, (typedesc.Structure, typedesc.Union)):
+                names |= self._member_names(f.type.members or [])
+            else:
+                names.add(f.name)
+        return names
+
     def StructureBody(self, body, inline=False):
         if body.name in self.body_generated:
             log.debug("Skipping - Body already generated for %s", body.name)
@@ -706,7 +717,10 @@ class Generator:
             self.type_name(f.type)
 
         # unnamed fields get autogenerated names "_0", "_1", "_2", "_3", ...
+        # but not that of a bitfield, which ctypes would mistake for them
         unnamed_fields = {}
+        taken = self._member_names(fields)
+        unnamed_names = ("_%d" % i for i in itertools.count() if "_%d" % i not in taken)
         for f in fields:
             # _anonymous_ fields are fields of type Structure or Union,
             # that have no name.
@@ -714,7 +728,7 @@ class Generator:
                 # anonymous types can have a member name
                 # un-named anonymous record come here with a name == ''
                 if f.name == '':
-                    unnamed_fields[f] = "_%d" % len(unnamed_fields)
+                    unnamed_fields[f] = next(unnamed_names)
                 # otherwise, we want to keep that field's name
         if unnamed_fields:
             unnamed_fields_str = ", ".join("'%s'" % _ for _ in unnamed_fields.values())
-- 
2.43.0


From db72d8b29623e2eafafe351f89d3216816233f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 22/72] fix: accept an incomplete union that is declared again

---
 ctypeslib/codegen/clangparser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index c9bb9d7..dc08a12 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -212,14 +212,14 @@ class Clang_Parser:
             log.debug("register: %s already defined: %s", name, obj.name)
             return self.all[name]
         if name in self.all:
-            if not isinstance(self.all[name], typedesc.Structure) or (self.all[name].members is not None):
+            if not isinstance(self.all[name], (typedesc.Structure, typedesc.Union)) or (self.all[name].members is not None):
                 # code.interact(local=locals())
                 raise DuplicateDefinitionException(
                     f"register: {name} which has a previous incompatible definition: {obj.name}"
                     f"\ndefined here: {obj.location}"
                     f"\npreviously defined here: {self.all[name].location}"
                 )
-            if isinstance(self.all[name], typedesc.Structure) and (self.all[name].members is None):
+            if isinstance(self.all[name], (typedesc.Structure, typedesc.Union)) and (self.all[name].members is None):
                 return obj
         log.debug("register: %s ", name)
         self.all[name] = obj
-- 
2.43.0


From cf1f72c3240948587ffccc36792195679530e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 23/72] fix: name the unnamed enumeration of a member

---
 ctypeslib/codegen/handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 021247a..802da74 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -149,6 +149,9 @@ class ClangHandler(object):
                 and cursor.semantic_parent.kind == CursorKind.TRANSLATION_UNIT):
                 name = self.make_python_name(cursor.get_usr())
                 log.debug('get_unique_name: root unnamed type kind %s',cursor.kind)
+            elif cursor.kind == CursorKind.ENUM_DECL:
+                # an unnamed enumeration in a record
+                name = self.make_python_name(cursor.get_usr())
             elif cursor.kind in [CursorKind.STRUCT_DECL,CursorKind.UNION_DECL,
                                  CursorKind.CLASS_DECL,CursorKind.FIELD_DECL]:
                 name = self._make_unknown_name(cursor, field_name)
-- 
2.43.0


From be436b95b92ef1faa7ef82d9e19c2f3aee850969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 24/72] fix: translate a variable that is declared with its
 enumeration

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 72da797..9315ca5 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -402,6 +402,9 @@ class CursorHandler(ClangHandler):
         children = list(children)  # weird requirement, list iterator error.
         log.debug('_get_var_decl_init_value: children #: %d', len(children))
         for child in children:
+            if child.kind.is_declaration():
+                # the type of the variable is declared with it
+                continue
             # early stop cases.
             _tmp = None
             try:
-- 
2.43.0


From 6a035acf84eb93e06200ce9a35d48101a5566b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:43 +0000
Subject: [PATCH 25/72] fix: store boolean bit-fields in integers, ctypes
 writes whole bytes otherwise

---
 ctypeslib/codegen/cursorhandler.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 9315ca5..238655a 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -973,8 +973,6 @@ class CursorHandler(ClangHandler):
         """Returns the type of that number of bits, with the sign of tp"""
         while isinstance(tp, typedesc.Typedef):
             tp = tp.typ
-        if tp.name == 'c_bool' and unit == 8:
-            return tp
         if isinstance(tp, typedesc.Enumeration):
             signed = any(v.value < 0 for v in tp.values)
         else:
-- 
2.43.0


From 360d5d8be680e9c817fc477477291c866e507513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 26/72] fix: -m32 selects another target, like -target does

---
 ctypeslib/codegen/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/config.py b/ctypeslib/codegen/config.py
index 8b340b0..66a6100 100644
--- a/ctypeslib/codegen/config.py
+++ b/ctypeslib/codegen/config.py
@@ -114,4 +114,5 @@ class CodegenConfig:
         """
         Is there a cross architecture option in clang_opts
         """
-        return '-target' in ' '.join(self.clang_opts)
+        return ('-target' in ' '.join(self.clang_opts) or
+                any(opt in self.clang_opts for opt in ('-m16', '-m32', '-m64', '-mx32')))
-- 
2.43.0


From 206253c66fe077a79718d08df6c0f4005b53ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:14 +0000
Subject: [PATCH 27/72] fix: complete a record declared before that is defined
 inside another one

---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 238655a..44f7e9c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -788,6 +788,10 @@ class CursorHandler(ClangHandler):
         #
         # check for other stuff
         for child in cursor.get_children():
+            if (child.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL) and  # noqa
+                    child.is_definition() and not child.is_anonymous()):
+                # a record that was declared before may be completed here
+                self.parse_cursor(child)
             if child in fields:
                 continue
             elif child in decl_f:
-- 
2.43.0


From 3f2155842531ef425b7a00b29cde687c1146fc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:45 +0000
Subject: [PATCH 28/72] fix: read the suffixes of floating point macros, and
 macros that go on on the next line

---
 ctypeslib/codegen/cursorhandler.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 44f7e9c..6a7ae04 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -488,6 +488,12 @@ class CursorHandler(ClangHandler):
             c = value[-1]
             if c in ['"', "'"]:
                 value = re.sub('''^L%s''' % c , c, value)
+            elif re.match("0[xX].*[pP]", value):
+                # hexadecimal floating point
+                value = repr(float.fromhex(value.rstrip("fFlL")))
+            elif re.match("[0-9.]+([eE][-+]?[0-9]+)?[fFlL]$", value) and re.search("[.eE]", value):
+                # floating point suffixes
+                value = value[:-1]
             else:
                 # unsigned int / long int / unsigned long int / long long int / unsigned long long int
                 # this works and doesn't eat STRING values because no '"' is before $ in the regexp.
@@ -537,7 +543,8 @@ class CursorHandler(ClangHandler):
         # code.interact(local=locals())
         log.debug('cursor.type:%s', cursor.type.kind.name)
         for i, token in enumerate(tokens):
-            value = token.spelling
+            # a token may be continued on the next line
+            value = re.sub(r'\\\r?\n', '', token.spelling).strip()
             log.debug('token:%s tk.kd:%11s tk.cursor.kd:%15s cursor.kd:%15s',
                       token.spelling, token.kind.name, token.cursor.kind.name,
                       cursor.kind.name)
-- 
2.43.0


From 4deb9598c9991c450ef6404aea5405eba83cfef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:20 +0000
Subject: [PATCH 29/72] fix: put the tokens of a macro into those of the macro
 that uses it

---
 ctypeslib/codegen/cursorhandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6a7ae04..ae42a09 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -633,7 +633,10 @@ class CursorHandler(ClangHandler):
                     pass
 
             # add token
-            if value is not None:
+            if isinstance(value, list) and token.cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
+                # the tokens of another macro
+                final_value.extend(value)
+            elif value is not None:
                 final_value.append(value)
         # return the EXPR
         # code.interact(local=locals())
-- 
2.43.0


From 65a1738eb051188beb372d8302981cd4db751674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:02 +0000
Subject: [PATCH 30/72] fix: only define a macro as an expression that python
 can evaluate

---
 ctypeslib/codegen/codegenerator.py | 2 +-
 ctypeslib/codegen/util.py          | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 16f77df..dee4302 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -240,7 +240,7 @@ class Generator:
                     self.names.append(macro.name)
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
-        elif util.body_is_all_string_tokens(macro.body):
+        elif util.body_is_all_string_tokens(macro.body) and util.is_python_expression(" ".join(macro.body)):
             print("%s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
             self.macros += 1
             self.names.append(macro.name)
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index a0a5bb6..d041958 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -151,11 +151,12 @@ def from_c_float_literal(value):
 
 
 def is_python_expression(text):
+    """The expression has a value on its own: it needs no name, and does not fail"""
     try:
-        compile(text, "macro", "eval")
-    except (SyntaxError, ValueError):
+        value = eval(compile(text, "macro", "eval"), {"__builtins__": {}})
+    except Exception:
         return False
-    return True
+    return value is not Ellipsis
 
 
 def contains_undefined_identifier(macro):
-- 
2.43.0


From f94390e1279a92aaf2c3dbaee42480463cbf453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 31/72] fix: translate the escape sequences of string macros
 that python does not have

---
 ctypeslib/codegen/cursorhandler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ae42a09..b42ea92 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -488,6 +488,8 @@ class CursorHandler(ClangHandler):
             c = value[-1]
             if c in ['"', "'"]:
                 value = re.sub('''^L%s''' % c , c, value)
+                # escape sequences that python does not have
+                value = re.sub(r"\\(.)", lambda m: {"e": r"\x1b", "E": r"\x1b", "?": "?"}.get(m.group(1), m.group(0)), value)
             elif re.match("0[xX].*[pP]", value):
                 # hexadecimal floating point
                 value = repr(float.fromhex(value.rstrip("fFlL")))
-- 
2.43.0


From 24e67310f207c31110e8174590c50ad1b998f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:16 +0000
Subject: [PATCH 32/72] fix: generate loadable code for the C names that are
 python keywords

---
 ctypeslib/codegen/codegenerator.py | 33 +++++++++++++++++-------------
 ctypeslib/codegen/util.py          |  8 ++++++++
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index dee4302..d9f7dc8 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -164,7 +164,7 @@ class Generator:
         # elif isinstance(t, typedesc.Structure):
         # elif isinstance(t, typedesc.Typedef):
         # elif isinstance(t, typedesc.Union):
-        return t.name
+        return util.python_name(t.name)
         # All typedesc typedefs should be handled
         # raise TypeError('This typedesc should be handled %s'%(t))
 
@@ -218,7 +218,7 @@ class Generator:
             else:  # we assume it's a list
                 print("# %s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
         elif isinstance(macro.body, bool):
-            print("%s = %s # macro" % (macro.name, macro.body), file=self.stream)
+            print("%s = %s # macro" % (util.python_name(macro.name), macro.body), file=self.stream)
             self.macros += 1
             self.names.append(macro.name)
         elif isinstance(macro.body, str):
@@ -235,13 +235,13 @@ class Generator:
                     # only valid in C means comment
                     print("# %s = %s # macro" % (macro.name, body), file=self.stream)
                 else:
-                    print("%s = %s # macro" % (macro.name, body), file=self.stream)
+                    print("%s = %s # macro" % (util.python_name(macro.name), body), file=self.stream)
                     self.macros += 1
                     self.names.append(macro.name)
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body) and util.is_python_expression(" ".join(macro.body)):
-            print("%s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
+            print("%s = %s # macro" % (util.python_name(macro.name), " ".join([str(_) for _ in macro.body])), file=self.stream)
             self.macros += 1
             self.names.append(macro.name)
         else:
@@ -251,7 +251,7 @@ class Generator:
             if float_value is not None:
                 body = float_value
             # or anything else that might be a valid python literal...
-            print("%s = %s # macro" % (macro.name, body), file=self.stream)
+            print("%s = %s # macro" % (util.python_name(macro.name), body), file=self.stream)
             self.macros += 1
             self.names.append(macro.name)
         return
@@ -358,7 +358,7 @@ class Generator:
             self._generate(tp.typ)
             # calling convention does not matter for in_dll...
             libname = self.get_sharedlib(dll_library, "cdecl")
-            print("%s = (%s).in_dll(%s, '%s')" % (tp.name, self.type_name(tp.typ), libname, tp.name), file=self.stream)
+            print("%s = (%s).in_dll(%s, '%s')" % (util.python_name(tp.name), self.type_name(tp.typ), libname, tp.name), file=self.stream)
             self.names.append(tp.name)
             # wtypes.h contains IID_IProcessInitControl, for example
             return
@@ -374,7 +374,7 @@ class Generator:
         # el
         if isinstance(tp.init, typedesc.FunctionType):
             _args = [x for x in tp.typ.iterArgNames()]
-            print("%s = %s # args: %s" % (tp.name, self.type_name(tp.init), _args), file=self.stream)
+            print("%s = %s # args: %s" % (util.python_name(tp.name), self.type_name(tp.init), _args), file=self.stream)
             self.names.append(tp.name)
             return
         elif isinstance(tp.typ, typedesc.PointerType) or isinstance(tp.typ, typedesc.ArrayType):
@@ -440,7 +440,7 @@ class Generator:
                 init_value = 0
         #
         # print it out
-        print("%s = %s # Variable %s" % (tp.name, init_value, self.type_name(tp.typ, False)), file=self.stream)
+        print("%s = %s # Variable %s" % (util.python_name(tp.name), init_value, self.type_name(tp.typ, False)), file=self.stream)
         #
         self.names.append(tp.name)
 
@@ -449,7 +449,7 @@ class Generator:
     def EnumValue(self, tp):
         # FIXME should be in parser
         value = int(tp.value)
-        print("%s = %d" % (tp.name, value), file=self.stream)
+        print("%s = %d" % (util.python_name(tp.name), value), file=self.stream)
         self.names.append(tp.name)
         self._enumvalues += 1
 
@@ -505,7 +505,7 @@ class Generator:
             else:
                 enum_ctype = 'ctypes.c_int' if has_negative else 'ctypes.c_uint'
 
-            print("%s = %s # enum" % (tp.name, enum_ctype), file=self.stream)
+            print("%s = %s # enum" % (util.python_name(tp.name), enum_ctype), file=self.stream)
             self.names.append(tp.name)
         self._enumtypes += 1
 
@@ -880,13 +880,17 @@ class Generator:
 
         if self.generate_locations and func.location:
             print("# %s %s" % func.location, file=self.stream)
+        name = util.python_name(func.name)
+        function = "%s.%s" % (libname, func.name)
+        if name != func.name:
+            function = "getattr(%s, '%s')" % (libname, func.name)
         # Generate the function decl code
         print("try:", file=self.stream)
-        print("    %s = %s.%s" % (func.name, libname, func.name), file=self.stream)
-        print("    %s.restype = %s" % (func.name, self.type_name(func.returns)), file=self.stream)
+        print("    %s = %s" % (name, function), file=self.stream)
+        print("    %s.restype = %s" % (name, self.type_name(func.returns)), file=self.stream)
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
-        print("    %s.argtypes = [%s]" % (func.name, ", ".join(args)), file=self.stream)
+        print("    %s.argtypes = [%s]" % (name, ", ".join(args)), file=self.stream)
         print("except AttributeError:", file=self.stream)
         print("    pass", file=self.stream)
 
@@ -902,8 +906,9 @@ class Generator:
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
             print(
-                '{funcname}.__doc__ = """{ret} {funcname}({args})\n'
+                '{name}.__doc__ = """{ret} {funcname}({args})\n'
                 '    {file}:{line}"""'.format(
+                    name=name,
                     funcname=func.name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
                     file=func.location[0],
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index d041958..eae9d2e 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -6,6 +6,7 @@ from clang.cindex import Cursor
 from clang.cindex import TranslationUnit
 from collections.abc import Iterable
 
+import keyword
 import logging
 import re
 
@@ -150,6 +151,13 @@ def from_c_float_literal(value):
     return match.group(1)
 
 
+def python_name(name):
+    """The name, as python code. A C name may be a python keyword"""
+    if name and keyword.iskeyword(name):
+        return "globals()['%s']" % name
+    return name
+
+
 def is_python_expression(text):
     """The expression has a value on its own: it needs no name, and does not fail"""
     try:
-- 
2.43.0


From 1f7cb0f33c885ba95be687ef63f3f3a5a47eee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 33/72] fix: keep the declaration that has the name of a macro
 without value

---
 ctypeslib/codegen/cursorhandler.py | 10 ++++++----
 ctypeslib/codegen/handler.py       | 11 +++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index b42ea92..335ff39 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -613,7 +613,7 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    if self.is_registered(value):
+                    if self.parser.is_registered(value):
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
                         obj = self.get_registered(value)
@@ -1338,9 +1338,11 @@ class CursorHandler(ClangHandler):
         try:
             self.register(name, obj)
         except DuplicateDefinitionException:
-            log.info('Redefinition of %s %s->%s', name, self.parser.all[name].args, value)
-            # HACK
-            self.parser.all[name] = obj
+            log.info('Redefinition of %s ->%s', name, value)
+            if isinstance(self.parser.all[name], typedesc.Macro) or not (args or util.contains_undefined_identifier(obj)):
+                # HACK
+                self.parser.all[name] = obj
+                self.parser.all_set.add((name, obj))
         self.set_location(obj, cursor)
         # set the comment in the obj
         obj.comment = comment
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 802da74..dcae326 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -3,7 +3,7 @@
 from clang.cindex import CursorKind, TypeKind, Cursor
 
 from ctypeslib.codegen import typedesc
-from ctypeslib.codegen.util import log_entity
+from ctypeslib.codegen.util import contains_undefined_identifier, log_entity
 
 import logging
 import re
@@ -49,13 +49,20 @@ class ClangHandler(object):
         self._unhandled = []
 
     def register(self, name, obj):
+        if self.parser.is_registered(name) and self._is_macro_without_value(name):
+            self.remove_registered(name)
         return self.parser.register(name, obj)
 
     def get_registered(self, name):
         return self.parser.get_registered(name)
 
     def is_registered(self, name):
-        return self.parser.is_registered(name)
+        # a macro without value gives way to the declaration that it names
+        return self.parser.is_registered(name) and not self._is_macro_without_value(name)
+
+    def _is_macro_without_value(self, name):
+        obj = self.get_registered(name)
+        return isinstance(obj, typedesc.Macro) and bool(obj.args or contains_undefined_identifier(obj))
 
     def remove_registered(self, name):
         return self.parser.remove_registered(name)
-- 
2.43.0


From 2ae70fd397ca3c935c3845aab4368c4319db603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 34/72] fix: divide integers in macros as C does

---
 ctypeslib/codegen/codegenerator.py |  1 +
 ctypeslib/codegen/util.py          | 41 ++++++++++++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index d9f7dc8..cc0eb6d 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -229,6 +229,7 @@ class Generator:
                 float_value = util.from_c_float_literal(body)
                 if float_value is not None:
                     body = float_value
+                body = util.c_expression(body)
                 # what about integers you ask ? body token that represents token are Integer here.
                 # either it's just a thing we gonna print, or we need to have a registered item
                 if not util.is_python_expression(body):
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index eae9d2e..fde5c90 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -6,8 +6,10 @@ from clang.cindex import Cursor
 from clang.cindex import TranslationUnit
 from collections.abc import Iterable
 
+import ast
 import keyword
 import logging
+import operator
 import re
 
 from ctypeslib.codegen import typedesc
@@ -158,6 +160,45 @@ def python_name(name):
     return name
 
 
+def _c_integer(node):
+    """The value in C of an expression of integers, None if it is something else"""
+    if isinstance(node, ast.Constant) and type(node.value) is int:
+        return node.value
+    if isinstance(node, ast.UnaryOp):
+        operands = [_c_integer(node.operand)]
+    elif isinstance(node, ast.BinOp):
+        operands = [_c_integer(node.left), _c_integer(node.right)]
+    else:
+        return None
+    if type(node.op) not in _c_operators or None in operands:
+        return None
+    return _c_operators[type(node.op)](*operands)
+
+
+def _c_quotient(a, b):
+    return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
+
+
+_c_operators = {
+    ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert,
+    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
+    ast.LShift: operator.lshift, ast.RShift: operator.rshift,
+    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
+    ast.Div: _c_quotient, ast.Mod: lambda a, b: a - b * _c_quotient(a, b),
+}
+
+
+def c_expression(text):
+    """The expression, or its value if the division of integers of C gives another one than python"""
+    value = None
+    if '/' in text or '%' in text:
+        try:
+            value = _c_integer(ast.parse(text, mode="eval").body)
+        except (SyntaxError, ValueError, ZeroDivisionError):
+            pass
+    return text if value is None else str(value)
+
+
 def is_python_expression(text):
     """The expression has a value on its own: it needs no name, and does not fail"""
     try:
-- 
2.43.0


From 1e4661cacfad6c3e4e4d9a674f52336f5ff9065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:52 +0000
Subject: [PATCH 35/72] fix: read macros with a plus sign in any base

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 335ff39..611a672 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1301,7 +1301,7 @@ class CursorHandler(ClangHandler):
             if len(tokens) == 2:
                 # #define key value
                 value = tokens[1]
-            elif len(tokens) == 3 and tokens[1] == '-':
+            elif len(tokens) == 3 and tokens[1] in ('-', '+'):
                 value = ''.join(tokens[1:])
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
-- 
2.43.0


From 7f0d358dac1f54b76e28eba01b421aaa22cd12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:47 +0000
Subject: [PATCH 36/72] fix: keep adjacent strings in parentheses apart

---
 ctypeslib/codegen/cursorhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 611a672..2dd04ad 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1313,7 +1313,8 @@ class CursorHandler(ClangHandler):
                     str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
                     value = ''.join(str_tokens)
                 else:
-                    value = ''.join((str(_) for _ in tokens[1:]))
+                    # adjacent strings do not make a triple quote
+                    value = ''.join(' ' + _ if _[0] == '"' else _ for _ in (str(_) for _ in tokens[1:]))
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
-- 
2.43.0


From 468a02a72a6c86139c8f950060b0588949c47112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 37/72] fix: initial values are converted to the type of the
 variable

---
 ctypeslib/codegen/cursorhandler.py | 30 +++++++++++++++++++++++-------
 ctypeslib/codegen/typedesc.py      | 12 +++++++++++-
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2dd04ad..20b1070 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -104,16 +104,31 @@ class CursorHandler(ClangHandler):
         kind = cursor.type.get_canonical().kind
         if kind == TypeKind.ENUM:  # noqa
             kind = TypeKind.INT  # noqa
-        elif kind not in self.parser.ctypes_typename or self.get_ctypes_name(kind) in (
-                'c_char', 'c_ubyte', 'c_wchar'):
-            # characters stay characters
+        elif kind not in self.parser.ctypes_typename:
             return None
+        typename = self.get_ctypes_name(kind)
         # see through the conversion to the type of the variable
-        while cursor.kind == CursorKind.UNEXPOSED_EXPR and len(list(cursor.get_children())) == 1:  # noqa
-            cursor = next(cursor.get_children())
-        if next(cursor.get_tokens(), None) is None:
+        written = cursor
+        while (written.kind in (CursorKind.UNEXPOSED_EXPR, CursorKind.PAREN_EXPR) and  # noqa
+               len(list(written.get_children())) == 1):
+            written = next(written.get_children())
+        if next(written.get_tokens(), None) is None:
             # FIXME #77, see _literal_handling
             return None
+        value = self._evaluate_cursor(written)
+        if value is None:
+            return None
+        if written.kind == CursorKind.CHARACTER_LITERAL and typename in ('c_char', 'c_ubyte', 'c_wchar'):  # noqa
+            # characters stay characters
+            return chr(value if typename == 'c_wchar' else value & 0xff)
+        if kind in (TypeKind.FLOAT, TypeKind.DOUBLE, TypeKind.LONGDOUBLE):  # noqa
+            return value
+        if isinstance(value, int) and value < 0 and typename.startswith(('c_u', 'c_size')):
+            return value
+        return self._evaluate_cursor(cursor)
+
+    def _evaluate_cursor(self, cursor):
+        """Returns the number that clang computes for an expression, or None"""
         evaluate, get = conf.lib.clang_Cursor_Evaluate, {}
         evaluate.argtypes, evaluate.restype = [Cursor], ctypes.c_void_p
         for name, restype in (('getKind', ctypes.c_int), ('isUnsignedInt', ctypes.c_uint),
@@ -129,7 +144,8 @@ class CursorHandler(ClangHandler):
             value = get['getAsUnsigned' if get['isUnsignedInt'](result) else 'getAsLongLong'](result)
         elif get['getKind'](result) == 2:  # CXEval_Float
             value = get['getAsDouble'](result)
-            value = value if math.isfinite(value) else None
+            if not math.isfinite(value):
+                value = typedesc.NonFinite(value)
         get['dispose'](result)
         return value
 
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index ca2d191..6b12947 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -286,4 +286,14 @@ class UndefinedIdentifier(T):
 
 
 def is_record(t):
-    return isinstance(t, Structure) or isinstance(t, Union)
\ No newline at end of file
+    return isinstance(t, Structure) or isinstance(t, Union)
+
+
+class NonFinite(float):
+
+    """an infinite or undefined floating point value, that python has no literal for"""
+
+    def __repr__(self):
+        return "float('%s')" % float.__repr__(self)
+
+    __str__ = __repr__
-- 
2.43.0


From fd81fc6058d92de23b6181f0ad45322353178302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 38/72] fix: take the text of strings from clang, so that
 escapes are read and all arrays of characters load

---
 ctypeslib/codegen/codegenerator.py |  1 +
 ctypeslib/codegen/cursorhandler.py | 17 +++--------------
 ctypeslib/codegen/util.py          | 27 +++++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index cc0eb6d..e23ecdf 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -381,6 +381,7 @@ class Generator:
         elif isinstance(tp.typ, typedesc.PointerType) or isinstance(tp.typ, typedesc.ArrayType):
             if isinstance(tp.typ.typ, typedesc.FundamentalType) and (
                 tp.typ.typ.name in ["c_ubyte", "c_char", "c_wchar"]
+                or isinstance(tp.typ, typedesc.ArrayType) and isinstance(tp.init, str)
             ):
                 # string
                 # FIXME a char * is not a python string.
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 20b1070..cc5ee5a 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -547,16 +547,9 @@ class CursorHandler(ClangHandler):
             # clang.cindex.conf.lib.clang_EvalResult_dispose(evaluated)
 
         log.debug('literal has %d tokens.[ %s ]', len(tokens), ' '.join([str(t.spelling) for t in tokens]))
-        if len(tokens) == 1 and cursor.kind == CursorKind.STRING_LITERAL:  # noqa
-            # use a shortcut that works for unicode
-            value = tokens[0].spelling
-            value = self._clean_string_literal(cursor, value)
-            return value
-        elif cursor.kind == CursorKind.STRING_LITERAL:  # noqa
-            # use a shortcut - does not work on unicode var_decl
-            value = cursor.displayname
-            value = self._clean_string_literal(cursor, value)
-            return value
+        if cursor.kind == CursorKind.STRING_LITERAL:  # noqa
+            # what clang makes of the tokens: macros, adjacent strings, prefixes, escape sequences
+            return util.c_string(cursor.displayname)
         final_value = []
         # code.interact(local=locals())
         log.debug('cursor.type:%s', cursor.type.kind.name)
@@ -661,10 +654,6 @@ class CursorHandler(ClangHandler):
         # FIXME, that will break. We need constant type return
         if len(final_value) == 1:
             return final_value[0]
-        # Macro definition of a string using multiple macro
-        if isinstance(final_value, list):
-            if cursor.kind == CursorKind.STRING_LITERAL:  # noqa
-                final_value = ''.join(final_value)
         log.debug('_literal_handling final_value: %s', final_value)
         return final_value
 
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index fde5c90..d4ddff0 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -229,6 +229,33 @@ def contains_undefined_identifier(macro):
     return False
 
 
+_c_escapes = {'a': 7, 'b': 8, 't': 9, 'n': 10, 'v': 11, 'f': 12, 'r': 13}
+
+
+def c_string(literal):
+    """The text of a string literal, as clang writes it"""
+    prefix, text = re.match(r'(L|u8|u|U)?"(.*)"$', literal, re.DOTALL).groups()
+    codes = []
+    for special, hexa, octal, escape, char in re.findall(
+            r'("")|\\[xuU]([0-9A-Fa-f]+)|\\([0-7]{1,3})|\\(.)|(.)', text, re.DOTALL):
+        if hexa:
+            codes.append(int(hexa, 16))
+        elif octal:
+            codes.append(int(octal, 8))
+        elif escape:
+            codes.append(_c_escapes.get(escape, ord(escape)))
+        elif char:
+            codes.append(ord(char))
+    if prefix in ('L', 'u', 'U'):
+        return ''.join(map(chr, codes))
+    # the source is utf-8
+    data = bytes(codes)
+    try:
+        return data.decode('utf-8')
+    except UnicodeDecodeError:
+        return data.decode('latin-1')
+
+
 def token_is_string(token):
     # we need at list 2 delimiters in there
     if not isinstance(token, Iterable) or len(token) < 2:
-- 
2.43.0


From f94920d4589f3e8e1751cac361b19a6140146dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 39/72] fix: initialisers of arrays with designators, and
 strings in braces

---
 ctypeslib/codegen/cursorhandler.py | 35 ++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index cc5ee5a..149acb0 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -92,11 +92,42 @@ class CursorHandler(ClangHandler):
     def INIT_LIST_EXPR(self, cursor):  # noqa
         """Returns a list of literal values."""
         values = []
-        for child in list(cursor.get_children()):
+        children = list(cursor.get_children())
+        if (len(children) == 1 and children[0].kind == CursorKind.STRING_LITERAL and  # noqa
+                children[0].type.kind == cursor.type.get_canonical().kind and
+                self.is_fundamental_type(cursor.type.get_canonical().element_type)):
+            # the string is the array
+            return self.parse_cursor(children[0])
+        position = 0
+        for child in children:
+            positions = [position]
+            designator = self._array_designator(child)
+            if designator is not None:
+                positions, child = designator
             value = self._evaluate(child)
-            values.append(self.parse_cursor(child) if value is None else value)
+            if value is None:
+                value = self.parse_cursor(child)
+            while len(values) <= positions[-1]:
+                values.append([] if isinstance(value, list) else 0)
+            for position in positions:
+                values[position] = value
+            position += 1
         return values
 
+    def _array_designator(self, cursor):
+        """Returns the positions and the value of an initialiser like [2] = 5
+        or [2 ... 4] = 5. None if it is something else."""
+        if cursor.kind != CursorKind.UNEXPOSED_EXPR:  # noqa
+            return None
+        *bounds, value = list(cursor.get_children()) or [cursor]
+        tokens = [t.spelling for t in cursor.get_tokens()]
+        if tokens[:1] != ['['] or len(bounds) != (2 if '...' in tokens[:tokens.index(']')] else 1):
+            return None
+        bounds = [self._evaluate(_) for _ in bounds]
+        if None in bounds:
+            return None
+        return range(bounds[0], bounds[-1] + 1), value
+
     def _evaluate(self, cursor):
         """Returns the value that clang computes for a number, as written: the
         text of the expression may be only valid in C, or use names that are
-- 
2.43.0


From 7a29f506a3c6bd1e9f76d2b4c28fe5b2a1c6b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:42 +0000
Subject: [PATCH 40/72] fix: variables that are unions or arrays of them are
 generated like structures

---
 ctypeslib/codegen/codegenerator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e23ecdf..cfcd7d0 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -379,6 +379,9 @@ class Generator:
             self.names.append(tp.name)
             return
         elif isinstance(tp.typ, typedesc.PointerType) or isinstance(tp.typ, typedesc.ArrayType):
+            element = tp.typ.typ
+            while isinstance(element, typedesc.ArrayType):
+                element = element.typ
             if isinstance(tp.typ.typ, typedesc.FundamentalType) and (
                 tp.typ.typ.name in ["c_ubyte", "c_char", "c_wchar"]
                 or isinstance(tp.typ, typedesc.ArrayType) and isinstance(tp.init, str)
@@ -402,8 +405,8 @@ class Generator:
                 # when we can have a python abstraction for them.
                 # init_value_type = self.type_name(tp.typ, False)
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
-            elif isinstance(tp.typ.typ, typedesc.Structure):
-                self._generate(tp.typ.typ)
+            elif isinstance(element, (typedesc.Structure, typedesc.Union)):
+                self._generate(element)
                 init_value = "(" + self.type_name(tp.typ, False) + ")()"
             else:
                 if tp.init is not None:
@@ -411,7 +414,7 @@ class Generator:
                 else:
                     init_value = self.type_name(tp.typ, False) + "()"
 
-        elif isinstance(tp.typ, typedesc.Structure):
+        elif isinstance(tp.typ, (typedesc.Structure, typedesc.Union)):
             init_value = self.type_name(tp.typ, False)
         elif isinstance(tp.typ, typedesc.FundamentalType) and tp.typ.name in [
             "c_ubyte",
-- 
2.43.0


From dc89fa367d886ebb09d793d078656ae69ffe7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:24 +0000
Subject: [PATCH 41/72] fix: a variable has the initial value and the size of
 its definition, wherever it was declared

---
 ctypeslib/codegen/cursorhandler.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 149acb0..5ba4e86 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -338,8 +338,9 @@ class CursorHandler(ClangHandler):
         name = self.get_unique_name(cursor)
         log.debug('VAR_DECL: name: %s', name)
         # Check for a previous declaration in the register
-        if self.is_registered(name):
-            return self.get_registered(name)
+        known = self.get_registered(name) if self.is_registered(name) else None
+        if known is not None and not self._completes_variable(cursor, known):
+            return known
         # get the typedesc object
         _type, extern = self._VAR_DECL_type(cursor)
         # transform the ctypes values into ctypeslib
@@ -348,11 +349,26 @@ class CursorHandler(ClangHandler):
         log.debug('VAR_DECL: _type:%s', _type.name)
         log.debug('VAR_DECL: _init:%s', init_value)
         log.debug('VAR_DECL: location:%s', getattr(cursor, 'location'))
-        obj = self.register(name, typedesc.Variable(name, _type, init_value, extern))
+        if known is not None:
+            obj = known
+            obj.typ, obj.init, obj.extern = _type, init_value, extern
+        else:
+            obj = self.register(name, typedesc.Variable(name, _type, init_value, extern))
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         return True
 
+    def _completes_variable(self, cursor, known):  # noqa
+        """The declaration has the initial value or the size that an earlier
+        declaration of the variable did not have."""
+        if not isinstance(known, typedesc.Variable) or known.init:
+            return False
+        if cursor.is_definition():
+            return True
+        _ctype = cursor.type.get_canonical()
+        return (isinstance(known.typ, typedesc.ArrayType) and known.typ.size == 0 and
+                _ctype.kind == TypeKind.CONSTANTARRAY)  # noqa
+
     def _VAR_DECL_type(self, cursor):  # noqa
         """Generates a typedesc object from a Variable declaration."""
         # Get the type
-- 
2.43.0


From 12c3d9b305f1307574774bbbd82aaef9d65ffd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 42/72] fix: variables initialised with addresses have no
 value, and always load

---
 ctypeslib/codegen/cursorhandler.py | 34 ++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 5ba4e86..61ff8c7 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -104,9 +104,14 @@ class CursorHandler(ClangHandler):
             designator = self._array_designator(child)
             if designator is not None:
                 positions, child = designator
-            value = self._evaluate(child)
-            if value is None:
-                value = self.parse_cursor(child)
+            if self.is_pointer_type(child.type.get_canonical()):
+                value = self._pointed_string(child)
+            else:
+                value = self._evaluate(child)
+                if value is None:
+                    value = self.parse_cursor(child)
+                    if self.is_fundamental_type(child.type.get_canonical()) and not self._is_constant(value):
+                        value = 0
             while len(values) <= positions[-1]:
                 values.append([] if isinstance(value, list) else 0)
             for position in positions:
@@ -114,6 +119,21 @@ class CursorHandler(ClangHandler):
             position += 1
         return values
 
+    @staticmethod
+    def _is_constant(value):
+        return value is not True and util.is_python_expression(str(value))
+
+    def _pointed_string(self, cursor):
+        """Returns the string that the initial value of a pointer points to.
+        None for other addresses: there is no object to point to."""
+        while cursor.kind in (CursorKind.UNEXPOSED_EXPR, CursorKind.PAREN_EXPR,  # noqa
+                              CursorKind.CSTYLE_CAST_EXPR, CursorKind.INIT_LIST_EXPR):  # noqa
+            children = [_ for _ in cursor.get_children() if _.kind.is_expression()]
+            if len(children) != 1:
+                return None
+            cursor = children[0]
+        return self.parse_cursor(cursor) if cursor.kind == CursorKind.STRING_LITERAL else None  # noqa
+
     def _array_designator(self, cursor):
         """Returns the positions and the value of an initialiser like [2] = 5
         or [2 ... 4] = 5. None if it is something else."""
@@ -140,7 +160,8 @@ class CursorHandler(ClangHandler):
         typename = self.get_ctypes_name(kind)
         # see through the conversion to the type of the variable
         written = cursor
-        while (written.kind in (CursorKind.UNEXPOSED_EXPR, CursorKind.PAREN_EXPR) and  # noqa
+        while (written.kind in (CursorKind.UNEXPOSED_EXPR, CursorKind.PAREN_EXPR,  # noqa
+                                CursorKind.INIT_LIST_EXPR) and  # noqa
                len(list(written.get_children())) == 1):
             written = next(written.get_children())
         if next(written.get_tokens(), None) is None:
@@ -410,6 +431,8 @@ class CursorHandler(ClangHandler):
         # always expect list [(k,v)] as init value.from list(cursor.get_children())
         for child in cursor.get_children():
             if child.kind.is_expression() and not self.is_array_type(cursor.type.get_canonical()):
+                if isinstance(_type, typedesc.PointerType):
+                    return self._pointed_string(child)
                 value = self._evaluate(child)
                 if value is not None:
                     return value
@@ -451,6 +474,9 @@ class CursorHandler(ClangHandler):
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
                 init_value = init_value[0][1]
+                if self.is_fundamental_type(_ctype) and not self._is_constant(init_value):
+                    # an address for example
+                    init_value = None
         return init_value
 
     def _get_var_decl_init_value(self, _ctype, children):
-- 
2.43.0


From 1292857342ac8795b7b25a8577cfcf1b62f92cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:01 +0000
Subject: [PATCH 43/72] fix: pointer variables of another architecture load

---
 ctypeslib/codegen/codegenerator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index cfcd7d0..83a245f 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -393,7 +393,10 @@ class Generator:
             elif isinstance(tp.typ, typedesc.PointerType):
                 # there is no object to point to, whatever the initial value is
                 self._generate(tp.typ)
-                init_value = self.type_name(tp.typ, False) + "()"
+                init_value = self.type_name(tp.typ, False)
+                if not init_value.startswith("POINTER_T("):
+                    # the pointers of another architecture have no instances
+                    init_value += "()"
             elif isinstance(tp.typ.typ, typedesc.FundamentalType) and (
                 "int" in tp.typ.typ.name or "long" in tp.typ.typ.name
             ):
-- 
2.43.0


From 557d80f32aec09c03e39785c44328bf8bdbd17ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:11 +0000
Subject: [PATCH 44/72] fix: libraries found by name, and libraries of the same
 name, are loaded

---
 ctypeslib/codegen/codegenerator.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 83a245f..a9520e7 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -820,14 +820,18 @@ class Generator:
             print("# You can either re-run clan2py with -l /path/to/library.so",file=self.imports)
             print("# Or manually fix this by comment the ctypes.CDLL loading", file=self.imports)
 
+        # a library found by the loader is a CDLL, its name is what can be loaded
+        filepath = library._name if isinstance(library, ctypes.CDLL) else library._filepath
+
         # generate windows call
         if cc == "stdcall":
             self.need_WinLibraries()
-            if library._name not in self._stdcall_libraries:
-                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, library._filepath)
+            key = self._library_key(self._stdcall_libraries, library._name, filepath)
+            if key not in self._stdcall_libraries:
+                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (key, stub_comment, filepath)
                 print(_, file=self.imports)
-                self._stdcall_libraries[library._name] = None
-            return "_stdcall_libraries[%r]" % library._name
+                self._stdcall_libraries[key] = filepath
+            return "_stdcall_libraries[%r]" % key
 
         # generate clinux call
         self.need_CLibraries()
@@ -835,11 +839,17 @@ class Generator:
             global_flag = ", mode=ctypes.RTLD_GLOBAL"
         else:
             global_flag = ""
-        if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, library._filepath, global_flag),
+        key = self._library_key(self._c_libraries, library._name, filepath)
+        if key not in self._c_libraries:
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (key, stub_comment, filepath, global_flag),
                   file=self.imports)
-            self._c_libraries[library._name] = None
-        return "_libraries[%r]" % library._name
+            self._c_libraries[key] = filepath
+        return "_libraries[%r]" % key
+
+    @staticmethod
+    def _library_key(libraries, name, filepath):
+        # two libraries may have the same name, in different directories
+        return name if libraries.get(name, filepath) == filepath else filepath
 
     _STRING_defined = False
 
-- 
2.43.0


From 1e6a62e154a920661bc659ea3683bab97276b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 45/72] fix: symbols with the name of an attribute of the
 library object are found

---
 ctypeslib/codegen/codegenerator.py | 7 ++++++-
 ctypeslib/library.py               | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index a9520e7..08297e0 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -777,7 +777,8 @@ class Generator:
             name = "_%s" % name
         for dll in self.searched_dlls:
             try:
-                getattr(dll, name)
+                # an attribute of the library object is not a symbol of the library
+                dll[name]
             except AttributeError:
                 pass
             else:
@@ -902,6 +903,10 @@ class Generator:
         function = "%s.%s" % (libname, func.name)
         if name != func.name:
             function = "getattr(%s, '%s')" % (libname, func.name)
+        if library and (hasattr(ctypes.CDLL, func.name) or func.name in ("_name", "_handle", "_FuncPtr")
+                        or func.name.startswith("__") and func.name.endswith("__")):
+            # not a symbol of the library as an attribute
+            function = "%s['%s']" % (libname, func.name)
         # Generate the function decl code
         print("try:", file=self.stream)
         print("    %s = %s" % (name, function), file=self.stream)
diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index d74ea49..b1bc8dd 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -50,6 +50,12 @@ class Library(metaclass=LibraryMeta):
                 if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]
                 self.__symbols[fields[2]] = fields[0]
 
+    def __getitem__(self, name):
+        try:
+            return self.__symbols[name]
+        except KeyError:
+            raise AttributeError(name)
+
     def __getattr__(self, name):
         try:
             return self.__symbols[name]
-- 
2.43.0


From c33e411257a3f72e56e3d70104b514e84b8b3cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:57 +0000
Subject: [PATCH 46/72] fix: parameters declared as arrays are pointers

---
 ctypeslib/codegen/cursorhandler.py |  5 +++--
 ctypeslib/codegen/handler.py       | 11 +++++++++++
 ctypeslib/codegen/typehandler.py   |  2 +-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 61ff8c7..cd590d9 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -301,8 +301,9 @@ class CursorHandler(ClangHandler):
         # try and get the type. If unexposed, The canonical type will work.
         _type = cursor.type
         _name = cursor.spelling
-        if (self.is_array_type(_type) or
-                self.is_fundamental_type(_type) or
+        if self.is_array_type(_type.get_canonical()):
+            _argtype = self.parse_argument_type(_type)
+        elif (self.is_fundamental_type(_type) or
                 self.is_pointer_type(_type) or
                 self.is_unexposed_type(_type)):
             _argtype = self.parse_cursor_type(_type)
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index dcae326..539f1aa 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -236,6 +236,17 @@ class ClangHandler(object):
     def parse_cursor_type(self, _cursor_type):
         return self.parser.parse_cursor_type(_cursor_type)
 
+    def parse_argument_type(self, _cursor_type):
+        """The type of a parameter. One declared as an array is a pointer."""
+        _type = _cursor_type.get_canonical()
+        if not self.is_array_type(_type):
+            return self.parse_cursor_type(_cursor_type)
+        array = self.parse_cursor_type(_type)
+        size = self.get_ctypes_size(TypeKind.POINTER) // 8
+        obj = typedesc.PointerType(array.typ, size, size)
+        obj.location = array.location
+        return obj
+
     ################################
     # do-nothing element handlers
 
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 1c535ef..4be2015 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -218,7 +218,7 @@ class TypeHandler(ClangHandler):
             arg = typedesc.Argument(
                 "a%d" %
                 (i),
-                self.parse_cursor_type(_attr_type))
+                self.parse_argument_type(_attr_type))
             obj.add_argument(arg)
         self.set_location(obj, None)
         return obj
-- 
2.43.0


From 155dec4c64c8b4a184b4fbc4fae1933fc48308c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:05 +0000
Subject: [PATCH 47/72] fix: -s and -r together include what either names

---
 ctypeslib/codegen/codegenerator.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 08297e0..a5de06d 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1136,8 +1136,17 @@ class CodeTranslator:
         self.filtered_items = list(self.items)
         log.debug("%d items before filtering", len(self.filtered_items))
         self.filter_types()
+        candidates = self.filtered_items
         self.filter_symbols()
-        self.filter_expressions()
+        if self.cfg.symbols and self.cfg.expressions:
+            # what either of them names is included.
+            by_symbol = self.filtered_items
+            self.filtered_items = candidates
+            self.filter_expressions()
+            chosen = {id(i) for i in by_symbol + self.filtered_items}
+            self.filtered_items = [i for i in candidates if id(i) in chosen]
+        else:
+            self.filter_expressions()
         log.debug("Left with %d items after filtering", len(self.filtered_items))
         loops = self.generator.generate(self.parser, self.filtered_items)
         if self.cfg.verbose:
-- 
2.43.0


From 20ceee0c5c8bc01a585d3f156407497374675482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:24 +0000
Subject: [PATCH 48/72] fix: keep emulated pointers to different types of the
 same name apart

---
 ctypeslib/data/pointer_type.tpl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index 558eecf..7c56c2e 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -21,8 +21,8 @@ else:
             clsname = 'c_void'
         else:
             clsname = pointee.__name__
-        if clsname in ctypes._pointer_t_type_cache:
-            return ctypes._pointer_t_type_cache[clsname]
+        if pointee in ctypes._pointer_t_type_cache:
+            return ctypes._pointer_t_type_cache[pointee]
         # make template
         class _T(_ctypes._SimpleCData,):
             _type_ = '__REPLACEMENT_TYPE_CHAR__'
@@ -36,5 +36,5 @@ else:
             def __init__(self, **args):
                 raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
         _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
-        ctypes._pointer_t_type_cache[clsname] = _class
+        ctypes._pointer_t_type_cache[pointee] = _class
         return _class
-- 
2.43.0


From cfa3bb96da5082cab87e9f27118f206512b4be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:24 +0000
Subject: [PATCH 49/72] fix: values of variables that come from macros of other
 files

---
 ctypeslib/codegen/cursorhandler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index cd590d9..125b819 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -5,7 +5,7 @@ import logging
 import math
 import re
 
-from clang.cindex import Cursor, CursorKind, LinkageKind, TypeKind, TokenKind, conf
+from clang.cindex import Cursor, CursorKind, LinkageKind, SourceRange, TypeKind, TokenKind, conf
 
 from ctypeslib.codegen import typedesc, util
 from ctypeslib.codegen.handler import ClangHandler
@@ -164,7 +164,7 @@ class CursorHandler(ClangHandler):
                                 CursorKind.INIT_LIST_EXPR) and  # noqa
                len(list(written.get_children())) == 1):
             written = next(written.get_children())
-        if next(written.get_tokens(), None) is None:
+        if next(written.get_tokens(), None) is None and not self._in_a_file(written):
             # FIXME #77, see _literal_handling
             return None
         value = self._evaluate_cursor(written)
@@ -179,6 +179,13 @@ class CursorHandler(ClangHandler):
             return value
         return self._evaluate_cursor(cursor)
 
+    def _in_a_file(self, cursor):
+        """The cursor is spelled in a source file, maybe in a macro there, and
+        not by the compiler"""
+        extent = SourceRange.from_locations(cursor.location, cursor.location)
+        token = next(cursor.translation_unit.get_tokens(extent=extent), None)
+        return token is not None and token.location.file is not None
+
     def _evaluate_cursor(self, cursor):
         """Returns the number that clang computes for an expression, or None"""
         evaluate, get = conf.lib.clang_Cursor_Evaluate, {}
-- 
2.43.0


From 9961778aa591b598c8e5815e04fdee49a814563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:43 +0000
Subject: [PATCH 50/72] fix: macros that use those of files that are not
 included keep their value

---
 ctypeslib/codegen/clangparser.py   | 33 +++++++++++++++++-------
 ctypeslib/codegen/cursorhandler.py | 40 ++++++++++++++++++++++--------
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index dc08a12..1b2b381 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -5,7 +5,7 @@ import os
 import collections
 
 from clang.cindex import Index, TranslationUnit
-from clang.cindex import TypeKind
+from clang.cindex import CursorKind, TypeKind
 
 from ctypeslib.codegen import cursorhandler
 from ctypeslib.codegen import typedesc
@@ -86,6 +86,7 @@ class Clang_Parser:
         self.typekind_handler = typehandler.TypeHandler(self)
         self.__filter_location = None
         self.__processed_location = set()
+        self.__filtered_macros = {}
 
     def init_parsing_options(self):
         """Set the Translation Unit to skip functions bodies per default."""
@@ -161,21 +162,31 @@ class Clang_Parser:
             # code.interact(local=locals())
             raise InvalidTranslationUnitException(errors[0])
 
+    def is_filtered(self, node):
+        """The node is in a file that is not to be included"""
+        if self.__filter_location is None:
+            return False
+        if node.location.file is None:
+            return True
+        filepath = os.path.abspath(node.location.file.name)
+        if filepath in self.__filter_location:
+            return False
+        if not filepath.startswith("/usr"):
+            log.debug("skipping include '%s'", filepath)
+        return True
+
     def start_element(self, node):
         """Recurses in children of this node"""
         if node is None:
             return None
 
-        if self.__filter_location is not None:
+        if self.is_filtered(node):
             # dont even parse includes.
             # FIXME: go back on dependencies ?
-            if node.location.file is None:
-                return None
-            filepath = os.path.abspath(node.location.file.name)
-            if filepath not in self.__filter_location:
-                if not filepath.startswith("/usr"):
-                    log.debug("skipping include '%s'", filepath)
-                return None
+            if node.kind == CursorKind.MACRO_DEFINITION and node.location.file is not None:
+                # the macros of the other files may use it
+                self.__filtered_macros[node.spelling] = node
+            return None
         # find and call the handler for this element
         log.debug(
             "%s:%d: Found a %s|%s|%s",
@@ -234,6 +245,10 @@ class Clang_Parser:
         """Checks if a named type description is registered"""
         return name in self.all
 
+    def take_filtered_macro(self, name):
+        """Returns the definition of a macro in a file that is not included, once"""
+        return self.__filtered_macros.pop(name, None)
+
     def remove_registered(self, name):
         """Removes a named type"""
         log.debug("Unregister %s", name)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 125b819..84d8281 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -36,6 +36,8 @@ class CursorHandler(ClangHandler):
         ClangHandler.__init__(self, parser)
         # names of the records whose members are being read
         self._incomplete_records = set()
+        # macros of the files that are not included, as far as others use them
+        self._other_macros = {}
 
     def parse_cursor(self, cursor):
         mth = getattr(self, cursor.kind.name)
@@ -703,10 +705,10 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    if self.parser.is_registered(value):
+                    obj = self._get_macro_identifier(value)
+                    if obj is not None:
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
-                        obj = self.get_registered(value)
                         if isinstance(obj, typedesc.Macro) and not obj.args:
                             value = obj.body
                         else:
@@ -1368,6 +1370,30 @@ class CursorHandler(ClangHandler):
             #     typ = cursor.displayname[len('__SIZEOF_'):-2]
             #     self.__sizeof[typ] = list(cursor.get_tokens())[1].spelling
             return False
+        obj = self._make_macro(cursor)
+        name = obj.name
+        try:
+            self.register(name, obj)
+        except DuplicateDefinitionException:
+            log.info('Redefinition of %s ->%s', name, obj.body)
+            if isinstance(self.parser.all[name], typedesc.Macro) or not (obj.args or util.contains_undefined_identifier(obj)):
+                # HACK
+                self.parser.all[name] = obj
+                self.parser.all_set.add((name, obj))
+        return True
+
+    def _get_macro_identifier(self, name):
+        """Returns what an identifier in a macro stands for, None if unknown.
+        The macros of the files that are not included are known, too."""
+        if self.parser.is_registered(name):
+            return self.get_registered(name)
+        cursor = self.parser.take_filtered_macro(name)
+        if cursor is not None:
+            self._other_macros[name] = self._make_macro(cursor)
+        return self._other_macros.get(name)
+
+    def _make_macro(self, cursor):
+        """Returns the typedesc of a macro definition"""
         name = self.get_unique_name(cursor)
         # MACRO_DEFINITION are a list of Tokens
         # .kind = {IDENTIFIER, KEYWORD, LITERAL, PUNCTUATION, COMMENT ? }
@@ -1422,18 +1448,10 @@ class CursorHandler(ClangHandler):
             value = None
         log.debug('MACRO: #define %s%s %s', name, args or '', value)
         obj = typedesc.Macro(name, args, value)
-        try:
-            self.register(name, obj)
-        except DuplicateDefinitionException:
-            log.info('Redefinition of %s ->%s', name, value)
-            if isinstance(self.parser.all[name], typedesc.Macro) or not (args or util.contains_undefined_identifier(obj)):
-                # HACK
-                self.parser.all[name] = obj
-                self.parser.all_set.add((name, obj))
         self.set_location(obj, cursor)
         # set the comment in the obj
         obj.comment = comment
-        return True
+        return obj
 
     @log_entity
     def MACRO_INSTANTIATION(self, cursor):
-- 
2.43.0


From 2f21f1daf53d595833de0f6ce0a614101a34a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 51/72] fix: a record declared in a source file is complete
 when another file defines it

---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 84d8281..a965a0a 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -848,6 +848,10 @@ class CursorHandler(ClangHandler):
         obj = None
         if not self.is_registered(name):
             if not cursor.is_definition():
+                definition = cursor.get_definition()
+                if definition is not None and self.parser.is_filtered(definition):
+                    # it will not come later
+                    return self._record_decl(definition, _output_type, num)
                 # just save the spot, don't look at members == None
                 log.debug('cursor %s is not on a definition', name)
                 obj = _output_type(name, align, None, bases, size, packed=False)
-- 
2.43.0


From b260bf9da5417e6ebb29374bd6fd028c1b674b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:21 +0000
Subject: [PATCH 52/72] fix: records declared in one source file and completed
 in another are complete

---
 ctypeslib/codegen/typehandler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 4be2015..0bfe7d8 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -112,6 +112,13 @@ class TypeHandler(ClangHandler):
             obj = self.parse_cursor(_decl)
         return obj
 
+    def _is_completed_by(self, name, decl):
+        """The registered record was only declared so far, maybe in another
+        translation unit, and this is its definition"""
+        obj = self.get_registered(name)
+        return (isinstance(obj, (typedesc.Structure, typedesc.Union)) and
+                obj.members is None and decl.is_definition())
+
     @log_entity
     def POINTER(self, _cursor_type):
         """
@@ -144,7 +151,7 @@ class TypeHandler(ClangHandler):
             decl = _type.get_declaration()
             decl_name = self.get_unique_name(decl)
             # Type is already defined OR will be defined later.
-            if self.is_registered(decl_name):
+            if self.is_registered(decl_name) and not self._is_completed_by(decl_name, decl):
                 p_type = self.get_registered(decl_name)
             else:  # forward declaration, without looping
                 log.debug(
@@ -252,6 +259,8 @@ class TypeHandler(ClangHandler):
         name = self.get_unique_name(_decl)  # _cursor)
         if self.is_registered(name):
             obj = self.get_registered(name)
+            if self._is_completed_by(name, _decl):
+                obj = self.parse_cursor(_decl)
         else:
             log.debug('Was in RECORD but had to parse record declaration for %s',name)
             obj = self.parse_cursor(_decl)
-- 
2.43.0


From f135ae91e9937d6cff8d2e0e749e58f595582d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:33 +0000
Subject: [PATCH 53/72] fix: variables of record and function pointer types
 bring the types that they name

---
 ctypeslib/codegen/codegenerator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index a5de06d..e8c481f 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -374,6 +374,7 @@ class Generator:
         #    return
         # el
         if isinstance(tp.init, typedesc.FunctionType):
+            self._generate(tp.init)
             _args = [x for x in tp.typ.iterArgNames()]
             print("%s = %s # args: %s" % (util.python_name(tp.name), self.type_name(tp.init), _args), file=self.stream)
             self.names.append(tp.name)
@@ -418,6 +419,7 @@ class Generator:
                     init_value = self.type_name(tp.typ, False) + "()"
 
         elif isinstance(tp.typ, (typedesc.Structure, typedesc.Union)):
+            self._generate(tp.typ)
             init_value = self.type_name(tp.typ, False)
         elif isinstance(tp.typ, typedesc.FundamentalType) and tp.typ.name in [
             "c_ubyte",
-- 
2.43.0


From 510035f68ff8074be4f74995dc03f49c12362f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:56 +0000
Subject: [PATCH 54/72] fix: results, arguments and typedefs complete the
 records that another source only declares

---
 ctypeslib/codegen/cursorhandler.py |  1 +
 ctypeslib/codegen/handler.py       | 19 +++++++++++++++++++
 ctypeslib/codegen/typehandler.py   |  9 ++-------
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index a965a0a..e7e8c6b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -323,6 +323,7 @@ class CursorHandler(ClangHandler):
                 log.info('This param type is not declared: %s', _argtype_name)
                 _argtype = self.parse_cursor_type(_type)
             else:
+                self.complete_record(_type)
                 _argtype = self.get_registered(_argtype_name)
         obj = typedesc.Argument(_name, _argtype)
         self.set_location(obj, cursor)
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 539f1aa..cf12ede 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -64,6 +64,25 @@ class ClangHandler(object):
         obj = self.get_registered(name)
         return isinstance(obj, typedesc.Macro) and bool(obj.args or contains_undefined_identifier(obj))
 
+    def _is_completed_by(self, name, decl):
+        """The registered record was only declared so far, maybe in another
+        translation unit, and this is its definition"""
+        obj = self.get_registered(name)
+        return (isinstance(obj, (typedesc.Structure, typedesc.Union)) and
+                obj.members is None and decl.is_definition())
+
+    def complete_record(self, _cursor_type):
+        """Reads the definition of the record behind a type, when only other
+        declarations of it were read so far, maybe of another translation unit"""
+        _type = _cursor_type.get_canonical()
+        while _type.kind == TypeKind.POINTER:
+            _type = _type.get_pointee().get_canonical()
+        if _type.kind == TypeKind.RECORD:
+            decl = _type.get_declaration()
+            name = self.get_unique_name(decl)
+            if self.is_registered(name) and self._is_completed_by(name, decl):
+                self.parse_cursor(decl)
+
     def remove_registered(self, name):
         return self.parser.remove_registered(name)
 
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 0bfe7d8..c9f2b87 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -78,6 +78,7 @@ class TypeHandler(ClangHandler):
         _decl = _cursor_type.get_declaration()
         name = self.get_unique_name(_decl)
         if self.is_registered(name):
+            self.complete_record(_cursor_type)
             obj = self.get_registered(name)
         else:
             log.debug('Was in TYPEDEF but had to parse record declaration for %s', name)
@@ -106,19 +107,13 @@ class TypeHandler(ClangHandler):
         _decl = _cursor_type.get_declaration()
         name = self.get_unique_name(_decl)
         if self.is_registered(name):
+            self.complete_record(_cursor_type)
             obj = self.get_registered(name)
         else:
             log.warning('Was in ELABORATED but had to parse record declaration ')
             obj = self.parse_cursor(_decl)
         return obj
 
-    def _is_completed_by(self, name, decl):
-        """The registered record was only declared so far, maybe in another
-        translation unit, and this is its definition"""
-        obj = self.get_registered(name)
-        return (isinstance(obj, (typedesc.Structure, typedesc.Union)) and
-                obj.members is None and decl.is_definition())
-
     @log_entity
     def POINTER(self, _cursor_type):
         """
-- 
2.43.0


From 81741fff9a20fc2ec874164013b06e17a864fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:18 +0000
Subject: [PATCH 55/72] fix: the copies of the standard input are removed, and
 keep its bytes

---
 ctypeslib/clang2py.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 225431f..6f90c0f 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -67,14 +67,18 @@ class Input:
 
     def __init__(self, options):
         self.files = []
-        self._stdin = None
+        self._stdin = []
         for in_file in options.files:
             # stdin case
             if in_file == sys.stdin:
+                # the bytes of the source, whatever their encoding is
+                source = getattr(in_file, "buffer", in_file).read()
+                if isinstance(source, str):
+                    source = source.encode()
                 # pylint: disable-next=consider-using-with
-                self._stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
-                self._stdin.write(in_file.read())
-                in_file = self._stdin
+                in_file = tempfile.NamedTemporaryFile(mode="wb", prefix="stdin", suffix=".c", delete=False)
+                self._stdin.append(in_file.name)
+                in_file.write(source)
             self.files.append(in_file.name)
             in_file.close()
 
@@ -82,8 +86,8 @@ class Input:
         return self
 
     def __exit__(self, exc_type, exc_value, ecx_tb):
-        if self._stdin:
-            os.remove(self._stdin.name)
+        for name in self._stdin:
+            os.remove(name)
         return False
 
 
-- 
2.43.0


From f936fdc67503d321b7db7143fd09cab30b30c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:38 +0000
Subject: [PATCH 56/72] fix: -q does not hide the errors for which a source is
 refused

---
 ctypeslib/codegen/clangparser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 1b2b381..ed88480 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -154,11 +154,13 @@ class Clang_Parser:
                 f"{diagnostic.spelling} ({diagnostic.location.file}:{diagnostic.location.line}:"
                 f"{diagnostic.location.column}) during processing {input_filename}"
             )
-            log.warning(msg)
             if diagnostic.severity > 2:
+                log.error(msg)
                 errors.append(msg)
+            else:
+                log.warning(msg)
         if len(errors) > 0:
-            log.warning("Source code has %d error. Please fix.", len(errors))
+            log.error("Source code has %d error. Please fix.", len(errors))
             # code.interact(local=locals())
             raise InvalidTranslationUnitException(errors[0])
 
-- 
2.43.0


From e67d61144c421b56b9c486664347cc17b6906807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:35 +0000
Subject: [PATCH 57/72] fix: constructors refuse surplus and repeated arguments

---
 ctypeslib/data/structure_type.tpl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d44a4b4..2ccf685 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -45,7 +45,13 @@ class Structure(ctypes.Structure, AsDictMixin):
     def __init__(self, *args, **kwds):
         # We don't want to use positional arguments fill PADDING_* fields
 
-        args = dict(zip(self.__class__._field_names_(), args))
+        names = list(self.__class__._field_names_())
+        if len(args) > len(names):
+            raise TypeError("too many initializers")
+        args = dict(zip(names, args))
+        for name in kwds:
+            if name in args:
+                raise TypeError("duplicate values for field {!r}".format(name))
         args.update(kwds)
         super(Structure, self).__init__(**args)
 
-- 
2.43.0


From 5b6b751d963d1ecb82ca57e0befe18aa4ac71cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 58/72] fix: members whose names begin with PADDING are members

---
 ctypeslib/data/structure_type.tpl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 2ccf685..3b73591 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -11,7 +11,7 @@ class AsDictMixin:
         # for (field, *_) in cls._fields_:  # noqa
         for field_tuple in cls._fields_:  # noqa
             field = field_tuple[0]
-            if field.startswith('PADDING_'):
+            if field.startswith('PADDING_') and field[8:].isdigit():
                 continue
             value = getattr(self, field)
             type_ = type(value)
@@ -58,7 +58,7 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def _field_names_(cls):
         if hasattr(cls, '_fields_'):
-            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
+            return (f[0] for f in cls._fields_ if not (f[0].startswith('PADDING_') and f[0][8:].isdigit()))
         else:
             return ()
 
-- 
2.43.0


From ac669da11a938595177134c65328425348eff577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:16 +0000
Subject: [PATCH 59/72] fix: as_dict of records with null pointers

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 3b73591..9c03b36 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -22,7 +22,7 @@ class AsDictMixin:
                     value = [type_.as_dict(v) for v in value]
                 else:
                     value = [i for i in value]
-            elif hasattr(value, "contents") and hasattr(value, "_type_"):
+            elif hasattr(type_, "contents") and hasattr(type_, "_type_"):
                 # pointer
                 try:
                     if not hasattr(type_, "as_dict"):
-- 
2.43.0


From cad72d16859ddf4e864989a779acab6e770d98ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:37 +0000
Subject: [PATCH 60/72] fix: bind leaves its argument alone, and knows
 bit-fields and callbacks that return pointers

---
 ctypeslib/data/structure_type.tpl | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 9c03b36..3120a0a 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -72,7 +72,9 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def bind(cls, bound_fields):
         fields = {}
-        for name, type_ in cls._fields_:
+        # what the caller passed stays as it is
+        bound_fields = dict(bound_fields)
+        for name, type_, *width in cls._fields_:
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
@@ -88,16 +90,20 @@ class Structure(ctypes.Structure, AsDictMixin):
                     # default callback implementation (does nothing)
                     try:
                         default_ = type_(0).restype().value
-                    except TypeError:
+                    except (TypeError, AttributeError):
                         default_ = None
-                    fields[name] = type_((
-                        lambda default_: lambda *args: default_)(default_))
+                    try:
+                        fields[name] = type_((
+                            lambda default_: lambda *args: default_)(default_))
+                    except TypeError:
+                        # no callback can have such a result
+                        fields[name] = type_()
             else:
                 # not a callback function, use default initialization
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-                else:
+                elif not width:
                     fields[name] = type_()
         if len(bound_fields) != 0:
             raise ValueError(
-- 
2.43.0


From 9faf3f405887df589c513ec6e9aa37e112230a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 61/72] fix: a docstring takes any file name, and a function
 that is missing has none

---
 ctypeslib/codegen/codegenerator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e8c481f..3162677 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -916,9 +916,6 @@ class Generator:
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
         print("    %s.argtypes = [%s]" % (name, ", ".join(args)), file=self.stream)
-        print("except AttributeError:", file=self.stream)
-        print("    pass", file=self.stream)
-
         if self.generate_docstrings:
 
             def typeString(typ):
@@ -930,18 +927,22 @@ class Generator:
                     return "unknown"
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
+            # the name of the file is part of a string literal
+            filename = func.location[0].replace("\\", "\\\\").replace('"', '\\"')
             print(
-                '{name}.__doc__ = """{ret} {funcname}({args})\n'
+                '    {name}.__doc__ = """{ret} {funcname}({args})\n'
                 '    {file}:{line}"""'.format(
                     name=name,
                     funcname=func.name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
-                    file=func.location[0],
+                    file=filename,
                     line=func.location[1],
                     ret=typeString(func.returns),
                 ),
                 file=self.stream,
             )
+        print("except AttributeError:", file=self.stream)
+        print("    pass", file=self.stream)
 
         self.names.append(func.name)
         self._functiontypes += 1
-- 
2.43.0


From 8cc9f731306f8895a3cf1e9efced0339755daf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:20 +0000
Subject: [PATCH 62/72] fix: the output is utf-8 in any locale, and the flags
 are one line of comment

---
 ctypeslib/clang2py.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 6f90c0f..8c56761 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -100,8 +100,9 @@ class Output:
             self.stream = sys.stdout
             self.output_file = None
         else:
-            # pylint: disable-next=unspecified-encoding,consider-using-with
-            self.stream = open(options.output, "w")
+            # python reads the module as utf-8, whatever the locale is
+            # pylint: disable-next=consider-using-with
+            self.stream = open(options.output, "w", encoding="utf-8", errors="backslashreplace")
             self.output_file = self.stream
 
     def __enter__(self):
@@ -340,8 +341,11 @@ def main(argv=None):
         with Input(options) as inputs, Output(options) as outputs:
             # start codegen
             if cfg.generate_comments:
+                # one line of comment, that declares no encoding
+                flags = " ".join(" ".join(argv).split())
+                outputs.stream.write("# -*- coding: utf-8 -*-\n")
                 outputs.stream.write("# generated by 'clang2py'\n")
-                outputs.stream.write(f"# flags '{' '.join(argv[1:])}'\n")
+                outputs.stream.write(f"# flags '{flags}'\n")
 
             # Preload libraries
             # [Library(name, mode=RTLD_GLOBAL) for name in options.preload]
-- 
2.43.0


From f80b68dfd53f37ed171e9707a919d4f90e6a62a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:06 +0000
Subject: [PATCH 63/72] fix: bit-fields of a typedef of an enumeration

---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e7e8c6b..7139e91 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1099,6 +1099,10 @@ class CursorHandler(ClangHandler):
         if s.size == 0:
             log.debug('FIXUP_STRUCT: struct has size %d', s.size)
             return
+        for m in s.members:
+            # the type of a bitfield is what its typedefs stand for
+            while m.is_bitfield and isinstance(m.type, typedesc.Typedef):
+                m.type = m.type.typ
         if isinstance(s, typedesc.Union):
             # members overlap, they all start at offset 0. Only the alignment
             # of the union can make it larger than its largest member.
-- 
2.43.0


From 11e7f4b75cdaba434745ec3ae88d0fa2d598e299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:28 +0000
Subject: [PATCH 64/72] fix: bind does not initialise padding, whose name may
 be taken

---
 ctypeslib/data/structure_type.tpl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 3120a0a..56e1c9e 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -74,6 +74,8 @@ class Structure(ctypes.Structure, AsDictMixin):
         fields = {}
         # what the caller passed stays as it is
         bound_fields = dict(bound_fields)
+        # not the padding, whose name may stand for that of an anonymous member
+        members = set(cls._field_names_())
         for name, type_, *width in cls._fields_:
             if hasattr(type_, "restype"):
                 if name in bound_fields:
@@ -103,7 +105,7 @@ class Structure(ctypes.Structure, AsDictMixin):
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-                elif not width:
+                elif not width and name in members:
                     fields[name] = type_()
         if len(bound_fields) != 0:
             raise ValueError(
-- 
2.43.0


From b32b044dcafec94a9eda9600b238b84344ebfda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:42 +0000
Subject: [PATCH 65/72] fix: the values of a typedef of an enumeration whose
 names are python keywords

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 3162677..76ed1b3 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -290,8 +290,8 @@ class Generator:
             print("%s = %s" % (name, self.type_name(tp.typ)), file=self.stream)
 
             if isinstance(tp.typ, typedesc.Enumeration):
-                print("%s__enumvalues = %s__enumvalues" % (name, self.type_name(tp.typ)), file=self.stream)
-                self.names.append("%s__enumvalues" % name)
+                print("%s__enumvalues = %s__enumvalues" % (tp.name, tp.typ.name), file=self.stream)
+                self.names.append("%s__enumvalues" % tp.name)
 
         self.names.append(tp.name)
         self._typedefs += 1
-- 
2.43.0


From 3345e828fb079146121c7987ba180f9fe30a10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:24 +0000
Subject: [PATCH 66/72] fix: a typedef named as a stdint type, of another type,
 keeps its type

---
 ctypeslib/codegen/codegenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 76ed1b3..5c3aada 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -273,7 +273,8 @@ class Generator:
             "int64_t": "c_int64",
         }
         name = self.type_name(tp)  # tp.name
-        if isinstance(tp.typ, typedesc.FundamentalType) and tp.name in sized_types:
+        if (isinstance(tp.typ, typedesc.FundamentalType) and tp.name in sized_types
+                and getattr(ctypes, tp.typ.name, None) is getattr(ctypes, sized_types[tp.name])):
             print("%s = ctypes.%s" % (name, sized_types[tp.name]), file=self.stream)
             self.names.append(tp.name)
             return
-- 
2.43.0


From 611e59e42008c4caca940fb588a86e0aece9bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 67/72] fix: numbers from macros of the command line, of the
 limits of the compiler and of pasted tokens are the values of variables

---
 ctypeslib/codegen/cursorhandler.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 7139e91..6965170 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -5,7 +5,7 @@ import logging
 import math
 import re
 
-from clang.cindex import Cursor, CursorKind, LinkageKind, SourceRange, TypeKind, TokenKind, conf
+from clang.cindex import Cursor, CursorKind, LinkageKind, SourceLocation, SourceRange, TypeKind, TokenKind, TranslationUnit, conf
 
 from ctypeslib.codegen import typedesc, util
 from ctypeslib.codegen.handler import ClangHandler
@@ -38,6 +38,8 @@ class CursorHandler(ClangHandler):
         self._incomplete_records = set()
         # macros of the files that are not included, as far as others use them
         self._other_macros = {}
+        # names of the macros of the compiler, once they are needed
+        self._compiler_macros = None
 
     def parse_cursor(self, cursor):
         mth = getattr(self, cursor.kind.name)
@@ -182,11 +184,30 @@ class CursorHandler(ClangHandler):
         return self._evaluate_cursor(cursor)
 
     def _in_a_file(self, cursor):
-        """The cursor is spelled in a source file, maybe in a macro there, and
-        not by the compiler"""
+        """The cursor is spelled in a source file, maybe in a macro there or in
+        one of the command line, and is not a name of the compiler"""
         extent = SourceRange.from_locations(cursor.location, cursor.location)
         token = next(cursor.translation_unit.get_tokens(extent=extent), None)
-        return token is not None and token.location.file is not None
+        if token is not None and token.location.file is not None:
+            return True
+        location = cursor.location
+        if location.file is None:
+            return False
+        location = SourceLocation.from_position(cursor.translation_unit, location.file, location.line, location.column)
+        extent = SourceRange.from_locations(location, location)
+        token = next(cursor.translation_unit.get_tokens(extent=extent), None)
+        return token is not None and not self._is_compiler_macro(token.spelling)
+
+    def _is_compiler_macro(self, name):
+        """The compiler defines the macro, and not the command line"""
+        if self._compiler_macros is None:
+            translation_unit = util.get_tu('', flags=self.parser.flags,
+                                           options=TranslationUnit.PARSE_DETAILED_PROCESSING_RECORD)
+            self._compiler_macros = {
+                node.spelling for node in translation_unit.cursor.get_children()
+                if node.kind == CursorKind.MACRO_DEFINITION and node.location.file is None}  # noqa
+            self._compiler_macros -= {re.sub('^-D', '', flag).split('=')[0] for flag in self.parser.flags}
+        return name in self._compiler_macros
 
     def _evaluate_cursor(self, cursor):
         """Returns the number that clang computes for an expression, or None"""
-- 
2.43.0


From 4c80e8633695c6a6966d9dac1356a49e55f36759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:59 +0000
Subject: [PATCH 68/72] fix: a parameter that is an array of arrays of variable
 length does not make the module fail to load

---
 ctypeslib/codegen/typehandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index c9f2b87..a5471c0 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -176,11 +176,11 @@ class TypeHandler(ClangHandler):
         # we need to get the canonical typedef, in some cases
         _type = _cursor_type.get_canonical()
         size = _type.get_array_size()
-        if size == -1 and _type.kind == TypeKind.INCOMPLETEARRAY:
+        if size == -1 and _type.kind in (TypeKind.INCOMPLETEARRAY, TypeKind.VARIABLEARRAY):
             size = 0
             # FIXME: Incomplete Array handling at end of record.
             # https://gcc.gnu.org/onlinedocs/gcc/Zero-Length.html
-            # FIXME VARIABLEARRAY DEPENDENTSIZEDARRAY
+            # FIXME DEPENDENTSIZEDARRAY
         _array_type = _type.get_array_element_type()  # .get_canonical()
         if self.is_fundamental_type(_array_type):
             _subtype = self.parse_cursor_type(_array_type)
-- 
2.43.0


From 19f92fff811dab625e78899465ec5210380da3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:14 +0000
Subject: [PATCH 69/72] fix: bind callbacks of a record with an array of
 characters

---
 ctypeslib/data/structure_type.tpl | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 56e1c9e..de193be 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -74,9 +74,7 @@ class Structure(ctypes.Structure, AsDictMixin):
         fields = {}
         # what the caller passed stays as it is
         bound_fields = dict(bound_fields)
-        # not the padding, whose name may stand for that of an anonymous member
-        members = set(cls._field_names_())
-        for name, type_, *width in cls._fields_:
+        for name, type_, *_ in cls._fields_:
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
@@ -100,13 +98,10 @@ class Structure(ctypes.Structure, AsDictMixin):
                     except TypeError:
                         # no callback can have such a result
                         fields[name] = type_()
-            else:
-                # not a callback function, use default initialization
-                if name in bound_fields:
-                    fields[name] = bound_fields[name]
-                    del bound_fields[name]
-                elif not width and name in members:
-                    fields[name] = type_()
+            elif name in bound_fields:
+                # not a callback function, any other has its default, zeroes
+                fields[name] = bound_fields[name]
+                del bound_fields[name]
         if len(bound_fields) != 0:
             raise ValueError(
                 "Cannot bind the following unknown callback(s) {}.{}".format(
-- 
2.43.0


From 57797d589445e0926a3686e344aa87315a96b2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:33 +0000
Subject: [PATCH 70/72] fix: preload libraries with quotes in their names

---
 ctypeslib/codegen/codegenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 5c3aada..e2416ea 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -1022,7 +1022,7 @@ class Generator:
     def generate_code(self, items):
         print(
             "\n".join(
-                ["ctypes.CDLL('%s', ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
+                ["ctypes.CDLL(%r, ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
             ),
             file=self.imports,
         )
-- 
2.43.0


From bbabdc4e2c2aaf10966bda0ce90be604d2295e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:00 +0000
Subject: [PATCH 71/72] fix: enumerations that are declared before they are
 defined, or whose type is given

---
 ctypeslib/codegen/codegenerator.py | 5 +++--
 ctypeslib/codegen/cursorhandler.py | 8 ++++++--
 ctypeslib/codegen/typedesc.py      | 3 ++-
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e2416ea..7418827 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -492,13 +492,14 @@ class Generator:
             #
             # Furthermore, in order to obtain a correct (un)signed representation in Python,
             # the signedness of the enum is deduced from the sign of enum values.
-            # If there is not any negative value in the enum, then the resulting ctype will be unsigned.
+            # If there is not any negative value in the enum, then the resulting ctype will be unsigned,
+            # unless its type is given, or that of the target is signed.
             # Sources:
             #   https://stackoverflow.com/a/54527229/1641819
             #   https://stackoverflow.com/a/56432050/1641819
 
             # Look for any negative value in enum
-            has_negative = False
+            has_negative = tp.signed
             for item in tp.values:
                 if item.value < 0:
                     has_negative = True
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6965170..57b5bb5 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -293,9 +293,13 @@ class CursorHandler(ClangHandler):
         name = self.get_unique_name(cursor)
         if self.is_registered(name):
             return self.get_registered(name)
+        # the values are in its definition
+        cursor = cursor.get_definition() or cursor
         align = cursor.type.get_align()
         size = cursor.type.get_size()
-        obj = self.register(name, typedesc.Enumeration(name, size, align))
+        signed = cursor.enum_type.get_canonical().kind in (
+            TypeKind.CHAR_S, TypeKind.SCHAR, TypeKind.SHORT, TypeKind.INT, TypeKind.LONG, TypeKind.LONGLONG)
+        obj = self.register(name, typedesc.Enumeration(name, size, align, signed))
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         # parse all children
@@ -1104,7 +1108,7 @@ class CursorHandler(ClangHandler):
         while isinstance(tp, typedesc.Typedef):
             tp = tp.typ
         if isinstance(tp, typedesc.Enumeration):
-            signed = any(v.value < 0 for v in tp.values)
+            signed = tp.signed or any(v.value < 0 for v in tp.values)
         else:
             signed = tp.name in ('c_char', 'c_byte') or tp.name.startswith('c_int')
         name = 'c_%sint%d' % ('' if signed else 'u', unit)
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index 6b12947..6653909 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -248,10 +248,11 @@ class CvQualifiedType(T):
 
 class Enumeration(T):
 
-    def __init__(self, name, size, align):
+    def __init__(self, name, size, align, signed=False):
         self.name = name
         self.size = int(size)
         self.align = int(align)
+        self.signed = signed
         self.values = []
 
     def add_value(self, v):
-- 
2.43.0


From 83ad469f8a895a7c9b5188075f0e54ac56307118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:19 +0000
Subject: [PATCH 72/72] fix: names of unnamed bit-fields that members have

---
 ctypeslib/codegen/cursorhandler.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 57b5bb5..570b8d5 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -808,6 +808,15 @@ class CursorHandler(ClangHandler):
         """
         return self._record_decl(cursor, typedesc.Structure, num)
 
+    def _field_names(self, fields):
+        """Returns the names of fields, and of those in unnamed records"""
+        names = set()
+        for f in fields:
+            names.add(f.spelling)
+            if f.is_anonymous():
+                names |= self._field_names(f.type.get_fields())
+        return names
+
     @log_entity
     def UNION_DECL(self, cursor, num=None):
         """
@@ -1308,6 +1317,13 @@ class CursorHandler(ClangHandler):
             # make a name
             if fieldnum == -1:
                 raise ValueError("Anonymous field was not found in get_fields()")
+            # that no member has, also of the records this one is unnamed in
+            outer = parent
+            while outer.is_anonymous() and outer.lexical_parent.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL):
+                outer = outer.lexical_parent
+            taken = self._field_names(outer.type.get_fields())
+            while "_%d" % fieldnum in taken:
+                fieldnum += len(list(parent.type.get_fields()))
             name = "_%d" % fieldnum
             log.debug("FIELD_DECL: anonymous field renamed to %s", name)
         # some debug
-- 
2.43.0

