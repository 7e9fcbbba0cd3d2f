From 860f518bd5be7aac3a0a82e3630408e425cf8032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:23 +0000
Subject: [PATCH 01/48] fix: keep conditional expansion around non-macro lines
 in %prep

---
 specfile/prep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index bf5c880..e8f4112 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -366,8 +366,8 @@ class Prep(collections.abc.Container):
         )
         data = []
         buffer: List[str] = []
-        for line in section:
-            line, prefix, suffix = split_conditional_macro_expansion(line)
+        for raw_line in section:
+            line, prefix, suffix = split_conditional_macro_expansion(raw_line)
             m = macro_regex.search(line)
             if m:
                 name, delimiter, option_string = (
@@ -377,7 +377,7 @@ class Prep(collections.abc.Container):
                 )
                 if delimiter == "" and option_string != "":
                     # delimiter can't be empty unless the match is just base macro with no options
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 prefix += line[: m.start("m")]
                 suffix = line[m.end("o") :] + suffix
@@ -390,7 +390,7 @@ class Prep(collections.abc.Container):
                     None,
                 )
                 if not klass:
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 options = Options(
                     Options.tokenize(option_string),
@@ -400,7 +400,7 @@ class Prep(collections.abc.Container):
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-                buffer.append(line)
+                buffer.append(raw_line)
         return cls(PrepMacros(data, buffer))
 
     def get_raw_section_data(self) -> List[str]:
-- 
2.43.0


From 7d714228f33c40cc1236db08dc30184e4b252c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:11 +0000
Subject: [PATCH 02/48] fix: do not duplicate trailing whitespace of multi-line
 tag values

---
 specfile/tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index f89c4a0..d78108e 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -521,6 +521,7 @@ class Tags(UserList[Tag]):
                     while (bc > 0 or pc > 0) and lines:
                         value += ws
                         line, _ = pop(lines)
+                        ws = ""
                         tokens = re.split(r"([^\S\n]+)$", line, maxsplit=1)
                         if len(tokens) > 1:
                             line, ws, _ = tokens
-- 
2.43.0


From ed68fbddf916aedca3ebe54e15ad3e29124ad569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:17 +0000
Subject: [PATCH 03/48] fix: keep whitespace of multi-line macro bodies where
 it belongs

---
 specfile/macro_definitions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index cc7c775..1c55e72 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -337,9 +337,10 @@ class MacroDefinitions(UserList[MacroDefinition]):
                     bc, pc = count_brackets(body)
                     while (bc > 0 or pc > 0 or body.endswith("\\")) and lines:
                         line, _ = pop(lines)
-                        body += "\n" + line
+                        body += ws3 + "\n" + line
+                        ws3 = ""
                         bc, pc = count_brackets(body)
-                tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
+                tokens = re.split(r"([^\S\n]+)\Z", body, maxsplit=1)
                 if len(tokens) == 1:
                     body = tokens[0]
                 else:
-- 
2.43.0


From 712e7dfb697237c2c1a19999fbef8b89ec86cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:23 +0000
Subject: [PATCH 04/48] fix: keep %dnl in front of an escaped commented out
 macro definition

---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 1c55e72..b336247 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -357,7 +357,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                             if hashed
                             else (
                                 CommentOutStyle.OTHER
-                                if escaped and "#" in sc
+                                if escaped and "#" in sc and not dnl
                                 else CommentOutStyle.DNL
                             )
                         ),
-- 
2.43.0


From df06bb10c8acb59de070709ba952ab75f256acd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:28 +0000
Subject: [PATCH 05/48] fix: preserve original text of unmodified option tokens

---
 specfile/options.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index a6d7d8c..11ac25c 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -28,15 +28,19 @@ class Token(collections.abc.Hashable):
         value: Token value.
     """
 
-    def __init__(self, type: TokenType, value: str) -> None:
+    def __init__(self, type: TokenType, value: str, raw: Optional[str] = None) -> None:
         self.type = type
         self.value = value
+        # original text of the token, rendered as long as the token is not modified
+        self._original = (type, value, raw) if raw is not None else None
 
     @formatted
     def __repr__(self) -> str:
         return f"Token({self.type!r}, {self.value!r})"
 
     def __str__(self) -> str:
+        if self._original is not None and self._original[:2] == self._key():
+            return self._original[2]
         if self.type == TokenType.WHITESPACE:
             return self.value
         elif self.type == TokenType.QUOTED:
@@ -475,6 +479,7 @@ class Options(collections.abc.MutableMapping):
         """
         result: List[Token] = []
         token = ""
+        raw = ""
         quote = None
         inp = []
         for node in ValueParser.parse(option_string):
@@ -485,6 +490,7 @@ class Options(collections.abc.MutableMapping):
         while inp:
             c = inp.pop(0)
             if c == quote:
+                raw += c
                 if token:
                     result.append(
                         Token(
@@ -494,24 +500,32 @@ class Options(collections.abc.MutableMapping):
                                 else TokenType.DOUBLE_QUOTED
                             ),
                             token,
+                            raw,
                         )
                     )
                     token = ""
+                else:
+                    # empty quotes don't form an argument, but they have to be preserved
+                    result.append(Token(TokenType.WHITESPACE, "", raw))
+                raw = ""
                 quote = None
                 continue
             if quote:
+                raw += c
                 if c == "\\":
                     if not inp:
                         raise OptionsException("No escaped character")
                     c = inp.pop(0)
+                    raw += c
                     if c != quote:
                         token += "\\"
                 token += c
                 continue
             if c.isspace():
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
+                    result.append(Token(TokenType.DEFAULT, token, raw))
                     token = ""
+                    raw = ""
                 whitespace = c
                 while inp:
                     c = inp.pop(0)
@@ -526,17 +540,20 @@ class Options(collections.abc.MutableMapping):
                 continue
             if c in ('"', "'"):
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
+                    result.append(Token(TokenType.DEFAULT, token, raw))
                     token = ""
+                raw = c
                 quote = c
                 continue
+            raw += c
             if c == "\\":
                 if not inp:
                     raise OptionsException("No escaped character")
                 c = inp.pop(0)
+                raw += c
             token += c
         if quote:
             raise OptionsException("No closing quotation")
         if token:
-            result.append(Token(TokenType.DEFAULT, token))
+            result.append(Token(TokenType.DEFAULT, token, raw))
         return result
-- 
2.43.0


From d74deaaf074e60cd8071fccf2a77609bffd6282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:55 +0000
Subject: [PATCH 06/48] fix: preserve whitespace in enclosed macro
 substitutions

---
 specfile/value_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 1b57c26..dafb847 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -104,7 +104,8 @@ class EnclosedMacroSubstitution(Node):
             _, self.prefix, rest = tokens
         self.name: str
         self.args: List[str]
-        self.name, *self.args = rest.split()
+        self.name, *self.args = rest.split() or [""]
+        self._rest = rest
 
     @formatted
     def __repr__(self) -> str:
@@ -112,8 +113,11 @@ class EnclosedMacroSubstitution(Node):
         return f"EnclosedMacroSubstitution({(self.prefix + self.name + args)!r})"
 
     def __str__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"%{{{self.prefix}{self.name}{args}}}"
+        tokens = [self.name, *self.args]
+        # preserve original whitespace unless name or args have been modified
+        if tokens == (self._rest.split() or [""]):
+            return f"%{{{self.prefix}{self._rest}}}"
+        return f"%{{{self.prefix}{' '.join(tokens)}}}"
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, self.__class__):
-- 
2.43.0


From c02541309eff6ab022bd4b0f8af3b2ff88c616da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:01 +0000
Subject: [PATCH 07/48] fix: find macros following an escaped percent sign

---
 specfile/value_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index dafb847..5a31649 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -240,7 +240,7 @@ class ValueParser:
                 i += 1
             while i < len(value) and (value[i].isalnum() or value[i] == "_"):
                 i += 1
-            if i + 1 < len(value) and value[i : i + 1] == "**":
+            if i + 1 < len(value) and value[i : i + 2] == "**":
                 i += 2
             elif i < len(value) and value[i] in "*#":
                 i += 1
@@ -254,7 +254,7 @@ class ValueParser:
                 end = value.index("%", start + offset)
                 try:
                     if value[end + 1] == "%":
-                        offset = end + 2
+                        offset = end + 2 - start
                         continue
                 except IndexError:
                     raise UnterminatedMacroException
-- 
2.43.0


From 4f16e2b98a7312a173ce7b996faf111bbfbaadb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:47 +0000
Subject: [PATCH 08/48] fix: do not crash on conditions opened outside of
 processed lines

---
 specfile/conditions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 77f14ab..1955df1 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -129,6 +129,10 @@ def process_conditions(
             result.append((line, branches[-1]))
             continue
         keyword = m.group("kwd")
+        if len(branches) == 1 and (keyword == "%endif" or keyword.startswith("%el")):
+            # the condition has been opened outside of the given lines
+            result.append((line, branches[-1]))
+            continue
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
-- 
2.43.0


From 50e06a2a3995bcb9fab48df73bbd81155f02916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:54 +0000
Subject: [PATCH 09/48] fix: do not consider %else valid after a taken %if or
 %elif

---
 specfile/conditions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 1955df1..615d1c7 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -112,6 +112,8 @@ def process_conditions(
     )
     result = []
     branches = [True]
+    # tracks whether any branch of the given condition has already been taken
+    taken = [True]
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
@@ -136,10 +138,11 @@ def process_conditions(
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
+            taken.pop()
         elif keyword.startswith("%el"):
             result.append((line, branches[-2]))
             if branches[-2]:
-                branches[-1] = not branches[-1]
+                branches[-1] = not taken[-1]
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
@@ -158,6 +161,8 @@ def process_conditions(
             )
             if keyword.startswith("%el"):
                 branches[-1] = branch
+                taken[-1] = taken[-1] or branch
             else:
                 branches.append(branch)
+                taken.append(branch)
     return result
-- 
2.43.0


From 952d33a1d938b79d136fa425121775d3cec05564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:42 +0000
Subject: [PATCH 10/48] fix: make hashes of EVR, NEVR and NEVRA consistent with
 equality

---
 specfile/utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 4ab2368..01ddd71 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -24,8 +24,20 @@ class EVR(collections.abc.Hashable):
         self.version = version
         self.release = release
 
+    @staticmethod
+    def _normalize(label: str) -> Tuple[str, ...]:
+        # labels that RPM considers equal, e.g. `1.0` and `1.00`, have to be hashed equally
+        return tuple(
+            segment.lstrip("0")
+            for segment in re.findall(r"[0-9]+|[a-zA-Z]+|[~^]", label)
+        )
+
     def _key(self) -> tuple:
-        return self.epoch, self.version, self.release
+        return (
+            self.epoch,
+            self._normalize(self.version or "0"),
+            self._normalize(self.release),
+        )
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -96,7 +108,7 @@ class NEVR(EVR):
         super().__init__(epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release
+        return (self.name, *super()._key())
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -173,7 +185,7 @@ class NEVRA(NEVR):
         super().__init__(name=name, epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release, self.arch
+        return (*super()._key(), self.arch)
 
     def __hash__(self) -> int:
         return hash(self._key())
-- 
2.43.0


From 1fa1d109612460f0bab9d74dd3fa6efc20a7609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:23 +0000
Subject: [PATCH 11/48] fix: split spec file content only on newlines

---
 specfile/sections.py | 5 ++++-
 specfile/specfile.py | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 7b5ae98..c4ce13d 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -134,7 +134,10 @@ class Section(collections.UserList):
     def get_raw_data(self) -> List[str]:
         if self.normalized_id == PREAMBLE:
             return self.data
-        return str(self).splitlines()
+        lines = str(self).split("\n")
+        if not lines[-1]:
+            lines.pop()
+        return lines
 
 
 class Sections(UserList[Section]):
diff --git a/specfile/specfile.py b/specfile/specfile.py
index 92b8d8f..e01524e 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -122,7 +122,12 @@ class Specfile:
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
         content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content[-1] == "\n"
+        # do not use splitlines(), it splits also on characters that are not line ends
+        # in a spec file (e.g. form feed) and they would be lost
+        lines = content.split("\n")
+        if not lines[-1]:
+            lines.pop()
+        return lines, content.endswith("\n")
 
     @property
     def path(self) -> Path:
-- 
2.43.0


From 4dabc69b16ff2fa8ba422190faaffe8d590824bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:29 +0000
Subject: [PATCH 12/48] fix: parse spec files that are not valid UTF-8

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 0dfb2fc..94e855f 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -225,7 +225,7 @@ class SpecParser:
                     Macros.define(name, value)
             Macros.define("_sourcedir", str(self.sourcedir))
             with tempfile.NamedTemporaryFile() as tmp:
-                tmp.write(content.encode())
+                tmp.write(content.encode("utf8", errors="surrogateescape"))
                 tmp.flush()
                 try:
                     with self._sanitize_environment():
-- 
2.43.0


From c4475ad1fd7c529b83c43f0a36661fecd4f6b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:24 +0000
Subject: [PATCH 13/48] fix: handle non UTF-8 data passed to and received from
 RPM

---
 specfile/exceptions.py | 6 ++++--
 specfile/macros.py     | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 4915e31..9cc4d1b 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -17,10 +17,12 @@ class RPMException(SpecfileException):
 
     def __str__(self) -> str:
         for rline in self.stderr:
-            line = rline.decode().rstrip()
+            line = rline.decode("utf8", errors="surrogateescape").rstrip()
             if line.startswith("error:"):
                 return line.split("error: ")[1]
-        return "\n" + b"".join(self.stderr).decode()
+        return "\n" + b"".join(self.stderr).decode(
+            "utf8", errors="surrogateescape"
+        )
 
 
 class MacroRemovalException(SpecfileException):
diff --git a/specfile/macros.py b/specfile/macros.py
index f3bf952..677c453 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -128,7 +128,7 @@ class Macros:
         """
         with capture_stderr() as stderr:
             rpm.expandMacro("%dump")
-        return cls._parse([line.decode() for line in stderr])
+        return cls._parse([line.decode("utf8", errors="surrogateescape") for line in stderr])
 
     @staticmethod
     def expand(expression: str) -> str:
@@ -147,7 +147,7 @@ class Macros:
         try:
             with capture_stderr() as stderr:
                 return rpm.expandMacro(expression)
-        except rpm.error as e:
+        except (rpm.error, UnicodeEncodeError) as e:
             raise RPMException(stderr=stderr) from e
 
     @classmethod
-- 
2.43.0


From 0a14fe5821f1bcf201bd41805763c859d3bc39f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:43 +0000
Subject: [PATCH 14/48] fix: do not leak or write through dummy sources

---
 specfile/spec_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 94e855f..8fd4f3a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -140,7 +140,7 @@ class SpecParser:
             if not filename:
                 continue
             path = self.sourcedir / filename
-            if path.exists():
+            if os.path.lexists(path):
                 continue
             for ext, magic in SIGNATURES:
                 if filename.endswith(ext):
@@ -155,7 +155,7 @@ class SpecParser:
             if not filename:
                 continue
             path = self.sourcedir / filename
-            if path.exists():
+            if os.path.lexists(path):
                 continue
             try:
                 path.write_text("DUMMY")
-- 
2.43.0


From 62aa2dd398bb9287e9dfa8d1410a5824238e98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:10 +0000
Subject: [PATCH 15/48] fix: keep the spec attribute of a parser defined when
 parsing fails

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 8fd4f3a..6544a5d 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -381,7 +381,7 @@ class SpecParser:
             return
         if self.spec:
             # workaround RPM lua tables feature/bug, see above for details
-            del self.spec
+            self.spec = None
         try:
             try:
                 self.spec, self.tainted = self._do_parse(content, extra_macros)
-- 
2.43.0


From 93d5cef4dee0c226111f9694bfa28079ae12fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:17 +0000
Subject: [PATCH 16/48] fix: find %sourcelist and %patchlist sections
 case-insensitively

---
 specfile/specfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index e01524e..9883060 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -371,7 +371,7 @@ class Specfile:
             sourcelists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "sourcelist"
+                if s.normalized_id == "sourcelist"
             ]
             try:
                 yield Sources(
@@ -412,7 +412,7 @@ class Specfile:
             patchlists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "patchlist"
+                if s.normalized_id == "patchlist"
             ]
             try:
                 yield Patches(
-- 
2.43.0


From 1d5fd0a452cbcf813fcca0f9703be3ebf33b3b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:22 +0000
Subject: [PATCH 17/48] fix: preserve surrounding lines when deleting items by
 negative index

---
 specfile/changelog.py         | 2 +-
 specfile/macro_definitions.py | 2 +-
 specfile/prep.py              | 2 +-
 specfile/tags.py              | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 506a6f4..3f45575 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -257,7 +257,7 @@ class Changelog(UserList[ChangelogEntry]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "Changelog":
         return copy.copy(self)
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index b336247..59c99a4 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -242,7 +242,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "MacroDefinitions":
         return copy.copy(self)
diff --git a/specfile/prep.py b/specfile/prep.py
index e8f4112..d97c502 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -219,7 +219,7 @@ class PrepMacros(UserList[PrepMacro]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __getattr__(self, name: str) -> PrepMacro:
         if not valid_prep_macro(name):
diff --git a/specfile/tags.py b/specfile/tags.py
index d78108e..43ef462 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -386,7 +386,7 @@ class Tags(UserList[Tag]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __contains__(self, name: object) -> bool:
         try:
-- 
2.43.0


From 6cf1b9a2f711889828a7b64f00b98f25287d061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:30 +0000
Subject: [PATCH 18/48] fix: preserve surrounding lines when deleting tags and
 macro definitions by name

---
 specfile/macro_definitions.py | 4 ++--
 specfile/tags.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 59c99a4..e3d3c7f 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -207,9 +207,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
 
     def __delattr__(self, name: str) -> None:
         if name not in self:
-            return super().__getattribute__(name)
+            return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
diff --git a/specfile/tags.py b/specfile/tags.py
index 43ef462..e8430f4 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -419,7 +419,7 @@ class Tags(UserList[Tag]):
         if name not in self:
             return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From 7f64b3d020d2a6cc9189857d470b896ad08b740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:37 +0000
Subject: [PATCH 19/48] fix: allow removing the first %patch macro

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index d97c502..814ccfb 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -347,7 +347,7 @@ class Prep(collections.abc.Container):
             ),
             None,
         )
-        if index:
+        if index is not None:
             del self.macros[index]
 
     @classmethod
-- 
2.43.0


From 4a21f1631c1143944c152b96a2733bb5abfd30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:13 +0000
Subject: [PATCH 20/48] fix: number items of multiple source lists
 consecutively

---
 specfile/sources.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index a4c2bf0..fdc3b90 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -386,11 +386,10 @@ class Sources(collections.abc.MutableSequence):
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
         last_number = result[-1][0].number if result else -1
-        result.extend(
-            (self.list_class(sl[i], last_number + 1 + i), sl, i)
-            for sl in self._sourcelists
-            for i in range(len(sl))
-        )
+        for sl in self._sourcelists:
+            for i in range(len(sl)):
+                last_number += 1
+                result.append((self.list_class(sl[i], last_number), sl, i))
         return result
 
     def _detect_implicit_numbering(self) -> bool:
-- 
2.43.0


From dd863719740f55c73225022807801f7cd9a93d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:20 +0000
Subject: [PATCH 21/48] fix: support empty slices of sources

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index fdc3b90..e14e1ef 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -318,7 +318,7 @@ class Sources(collections.abc.MutableSequence):
     def __getitem__(self, i):
         items = self._get_items()
         if isinstance(i, slice):
-            return list(zip(*items[i]))[0]
+            return [source for source, _, _ in items[i]]
         else:
             return items[i][0]
 
-- 
2.43.0


From 9327d620c305867b8cdcf8bcf9e489e3aab72c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:28 +0000
Subject: [PATCH 22/48] fix: preserve surrounding lines when deleting source
 list entries

---
 specfile/sourcelist.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 7eea32a..81ea950 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import copy
-from typing import TYPE_CHECKING, Any, Dict, List, Optional, overload
+from typing import TYPE_CHECKING, Any, Dict, List, Optional, Union, overload
 
 from specfile.conditions import process_conditions
 from specfile.formatter import formatted
@@ -121,6 +121,22 @@ class Sourcelist(UserList[SourcelistEntry]):
         else:
             return self.data[i]
 
+    def __delitem__(self, i: Union[SupportsIndex, slice]) -> None:
+        def delete(index):
+            preceding_lines = self.data[index].comments._preceding_lines.copy()
+            del self.data[index]
+            if index < len(self.data):
+                lines = self.data[index].comments._preceding_lines
+            else:
+                lines = self._remainder
+            lines[0:0] = preceding_lines
+
+        if isinstance(i, slice):
+            for index in reversed(range(len(self.data))[i]):
+                delete(index)
+        else:
+            delete(range(len(self.data))[i])
+
     def copy(self) -> "Sourcelist":
         return copy.copy(self)
 
-- 
2.43.0


From fb08db1aadf9e917f96f72cc1772b321bacae31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:48 +0000
Subject: [PATCH 23/48] fix: add e-mail only once when updating multiple
 changelog sections

---
 specfile/specfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 9883060..2868188 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -536,6 +536,8 @@ class Specfile:
                             raise SpecfileException("Failed to auto-detect author")
                     elif email is not None:
                         author += f" <{email}>"
+                    # don't add e-mail again in case there are multiple changelog sections
+                    email = None
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
-- 
2.43.0


From 655947b682f5f163b4b33a311d9bd7b0f7ebb0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:55 +0000
Subject: [PATCH 24/48] fix: do not loop forever when removing something that
 is not a macro

---
 specfile/macros.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index 677c453..44f7fc7 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -13,6 +13,7 @@ from specfile.exceptions import MacroRemovalException, RPMException
 from specfile.formatter import formatted
 
 MAX_REMOVAL_RETRIES = 20
+MAX_REMOVAL_ATTEMPTS = 10000
 
 
 class MacroLevel(IntEnum):
@@ -165,8 +166,10 @@ class Macros:
         # Ideally, we would loop until the macro is defined, however in rpm
         # 4.16, expanding parametrized macros may throw an exception
         # which would result in an infinite loop. Limit the number of iterations.
-        retry = 0
-        while retry < MAX_REMOVAL_RETRIES:
+        # Also, something that is not a valid macro name may never expand to itself.
+        retry = attempt = 0
+        while retry < MAX_REMOVAL_RETRIES and attempt < MAX_REMOVAL_ATTEMPTS:
+            attempt += 1
             rpm.delMacro(macro)
             try:
                 if cls.expand(f"%{{{macro}}}") == f"%{{{macro.replace('%%', '%')}}}":
@@ -177,7 +180,7 @@ class Macros:
                 continue
         else:
             raise MacroRemovalException(
-                f"Max attempts for removal ({MAX_REMOVAL_RETRIES}) exceeded"
+                f"Max attempts for removal ({max(retry, attempt)}) exceeded"
             )
 
     @classmethod
-- 
2.43.0


From 3f21a72a7cb4697248ea3a6992fde5970674e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:10 +0000
Subject: [PATCH 25/48] fix: remove dummy sources that could not be fully
 written

---
 specfile/spec_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 6544a5d..9e658d4 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -107,6 +107,11 @@ class SpecParser:
             List of paths to each created dummy source.
         """
 
+        def remove_incomplete(path):
+            # the file could have been created before writing to it failed
+            if os.path.lexists(path):
+                path.unlink()
+
         def write_magic(path, magic):
             # create a file with a signature matching what RPM expects for this particular
             # file type; this affects how %setup and %patch macros are expanded
@@ -120,6 +125,7 @@ class SpecParser:
                     path.write_bytes(MAGIC_LENGTH * b"\x00")
             except (FileNotFoundError, OSError, PermissionError):
                 logger.warning(f"Failed to create a dummy source: {path}")
+                remove_incomplete(path)
                 return False
             return True
 
@@ -161,6 +167,7 @@ class SpecParser:
                 path.write_text("DUMMY")
             except (FileNotFoundError, OSError, PermissionError):
                 logger.warning(f"Failed to create a dummy source: {path}")
+                remove_incomplete(path)
             else:
                 dummy_sources.append(path)
         try:
-- 
2.43.0


From 0daed0622300d6fe9c7ee8b4c62806461118a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:24 +0000
Subject: [PATCH 26/48] fix: do not lose the colon when adding a source with a
 longer name

---
 specfile/sources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index e14e1ef..e17d952 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -441,7 +441,10 @@ class Sources(collections.abc.MutableSequence):
         diff = len(reference._tag.name) - len(name)
         if diff >= 0:
             return name, reference._tag._separator + " " * diff
-        return name, reference._tag._separator[:diff] or ":"
+        # never cut off the colon, there can be whitespace also before it
+        separator = reference._tag._separator
+        end = max(len(separator) + diff, separator.find(":") + 1)
+        return name, separator[:end] or ":"
 
     def _get_initial_tag_setup(self, number: int = 0) -> Tuple[int, str, str]:
         """
-- 
2.43.0


From dc3555c00309ffeab2627980e1cdbf9b923aa3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:31 +0000
Subject: [PATCH 27/48] fix: make inserting sources at a negative index keep
 numbers unique

---
 specfile/sources.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index e17d952..e7bcc27 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -517,6 +517,9 @@ class Sources(collections.abc.MutableSequence):
         if not self._allow_duplicates and location in self:
             raise DuplicateSourceException(f"{self.prefix} '{location}' already exists")
         items = self._get_items()
+        # the same semantics as `list.insert()`
+        if i < 0:
+            i = max(i + len(items), 0)
         if i > len(items):
             i = len(items)
         if items:
-- 
2.43.0


From ab66eef8b5dde67b3e4023c0508f0d7947077a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:05 +0000
Subject: [PATCH 28/48] fix: evaluate empty string conditions as false

---
 specfile/conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 615d1c7..dae9b8c 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -47,7 +47,8 @@ def resolve_expression(
         try:
             return int(result) != 0
         except ValueError:
-            return True
+            # RPM considers an empty string to be false
+            return bool(result)
     elif keyword.endswith("arch"):
         target_cpu = expand("%{_target_cpu}")
         match = any(t for t in expand(expression).split() if t == target_cpu)
-- 
2.43.0


From ab39d269313c4d5bca3223511b3e104a719139f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:33 +0000
Subject: [PATCH 29/48] fix: remove a flag option instead of the whitespace
 before it

---
 specfile/options.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 11ac25c..9ac4324 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -400,19 +400,17 @@ class Options(collections.abc.MutableMapping):
         i, j = self._find_option(name)
         if i is None:
             return
+        if j is None:
+            j = i
         if i == 0:
             if (
-                j is not None
-                and j + 1 < len(self._tokens)
+                j + 1 < len(self._tokens)
                 and self._tokens[j + 1].type == TokenType.WHITESPACE
             ):
                 j += 1
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
-        if j is not None and j > i:
-            del self._tokens[i : j + 1]
-        else:
-            del self._tokens[i]
+        del self._tokens[i : j + 1]
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From 1e4b3fa817c39a7808cbd6cb324b6af13047ce4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:39 +0000
Subject: [PATCH 30/48] fix: leave a flag option alone when it is set again

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 9ac4324..5cbd729 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -376,6 +376,8 @@ class Options(collections.abc.MutableMapping):
             return
         if value is None or value is False:
             return delattr(self, name)
+        if value is True:
+            return
         if j is not None and j > i:
             if self._needs_quoting(value):
                 if self._tokens[j].type not in (
-- 
2.43.0


From 1e8fbb79196ffb588a7c0415029a40dd448fa26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:31 +0000
Subject: [PATCH 31/48] fix: separate a positional argument inserted at the
 beginning

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 5cbd729..72e46fc 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -209,6 +209,8 @@ class Positionals(collections.abc.MutableSequence):
         )
         if index > 0:
             self._options._tokens.insert(index, Token(TokenType.WHITESPACE, " "))
+        elif len(self._options._tokens) > 1:
+            self._options._tokens.insert(1, Token(TokenType.WHITESPACE, " "))
 
 
 class Options(collections.abc.MutableMapping):
-- 
2.43.0


From d38968f6b9f6b87c550680e0e10b0d236856aa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:15 +0000
Subject: [PATCH 32/48] fix: parse NEVRA without release like EVR and NEVR do

---
 specfile/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 01ddd71..be364ca 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -251,7 +251,7 @@ class NEVRA(NEVR):
         if not m:
             raise SpecfileException("Invalid NEVRA string.")
         n, e, v, r, a = m.groups()
-        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r, arch=a)
+        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r or "", arch=a)
 
 
 def get_filename_from_location(location: str) -> str:
-- 
2.43.0


From ea090d98d15736bc4a3f34f9015f61533e724cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:59 +0000
Subject: [PATCH 33/48] fix: filter changelogs that contain entries without EVR

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 3f45575..6daf8b9 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -280,7 +280,7 @@ class Changelog(UserList[ChangelogEntry]):
 
         def parse_evr(s):
             try:
-                return EVR.from_string(s)
+                return EVR.from_string(s or "")
             except SpecfileException:
                 return EVR(version="0")
 
-- 
2.43.0


From 323016fc506ade2b1ebc2358125123a0fd567fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:04 +0000
Subject: [PATCH 34/48] fix: recognize extended timestamps with zero-padded day
 of month

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 6daf8b9..773bd88 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -114,7 +114,7 @@ class ChangelogEntry:
             [ ]
             ({months})       # month
             [ ]+
-            ([12]?\d|3[01])  # day of month
+            ([0-2]?\d|3[01]) # day of month
             [ ]
             ([01]\d|2[0-3])  # hour
             :
-- 
2.43.0


From d7bb9892cda7f6382f8e2ae8645604c1d25247d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:55 +0000
Subject: [PATCH 35/48] fix: do not bump release in inactive macro definitions

---
 specfile/specfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 2868188..ecc60af 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1038,6 +1038,8 @@ class Specfile:
 
         with self.macro_definitions() as macro_definitions:
             for md in macro_definitions:
+                if md.commented_out or not md.valid:
+                    continue
                 if md.name.lower() in ["release", "baserelease"]:
                     md.body = self._bump_release_string(md.body)
                     return
-- 
2.43.0


From 698dd6166405c874e3e1d779e8090b7cfc398ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:19 +0000
Subject: [PATCH 36/48] fix: ignore included files in nonexistent directories
 when forcing parsing

---
 specfile/spec_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 9e658d4..c89d7b6 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -241,6 +241,12 @@ class SpecParser:
                 except ValueError as e:
                     raise RPMException(stderr=stderr) from e
 
+        def is_in_sourcedir(source):
+            try:
+                return source.parent.samefile(self.sourcedir)
+            except OSError:
+                return False
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -263,7 +269,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(ref))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
@@ -285,7 +291,7 @@ class SpecParser:
                 # even though it failed, populated the macro context
                 source = Path(Macros.expand(arg))
                 # ignore files outside of sourcedir
-                if source.parent.samefile(self.sourcedir):
+                if is_in_sourcedir(source):
                     sources.add(source.name)
             return sources
 
@@ -298,7 +304,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(node.body))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
-- 
2.43.0


From 05046eb845abc73d73ac85f8bba309ebf58a78ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:24 +0000
Subject: [PATCH 37/48] fix: handle %include continued past the end of a spec
 file

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index c89d7b6..b65622c 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -284,7 +284,7 @@ class SpecParser:
                 if not m:
                     continue
                 arg = m.group(1)
-                while line.endswith("\\"):
+                while line.endswith("\\") and lines:
                     line = lines.pop(0)
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
-- 
2.43.0


From 7acb80df2f1f5a777d32206ce3cf4e27e252efb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:29 +0000
Subject: [PATCH 38/48] fix: report RPM errors of spec files with unterminated
 macros when forcing parsing

---
 specfile/spec_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index b65622c..f3819e6 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -15,7 +15,7 @@ from typing import Any, Dict, Generator, List, Optional, Set, Tuple
 import rpm
 
 from specfile.context_management import capture_stderr
-from specfile.exceptions import RPMException
+from specfile.exceptions import RPMException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.macros import Macros
 from specfile.sections import Section
@@ -247,6 +247,12 @@ class SpecParser:
             except OSError:
                 return False
 
+        def get_nodes(value):
+            try:
+                return ValueParser.flatten(ValueParser.parse(value))
+            except UnterminatedMacroException:
+                return []
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -260,7 +266,7 @@ class SpecParser:
                     # break parsing, we can skip this tag
                     continue
                 refs = []
-                for node in ValueParser.flatten(ValueParser.parse(tag.value)):
+                for node in get_nodes(tag.value):
                     if isinstance(node, ShellExpansion):
                         for m in source_ref_regex.finditer(node.body):
                             refs.append(m.group(0))
@@ -298,7 +304,7 @@ class SpecParser:
         def collect_loaded_sources(content):
             # collect sources loaded using %{load:...}
             sources = set()
-            for node in ValueParser.flatten(ValueParser.parse(content)):
+            for node in get_nodes(content):
                 if isinstance(node, BuiltinMacro) and node.name == "load":
                     # we can expand macros here because the first non-build parse,
                     # even though it failed, populated the macro context
-- 
2.43.0


From 0de550daebaa44b1bbd680ef94fa8191bb795363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:35 +0000
Subject: [PATCH 39/48] fix: handle any RPM error message

---
 specfile/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 9cc4d1b..502b16e 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -19,7 +19,7 @@ class RPMException(SpecfileException):
         for rline in self.stderr:
             line = rline.decode("utf8", errors="surrogateescape").rstrip()
             if line.startswith("error:"):
-                return line.split("error: ")[1]
+                return line.split("error:", 1)[1].strip()
         return "\n" + b"".join(self.stderr).decode(
             "utf8", errors="surrogateescape"
         )
-- 
2.43.0


From 776d6b71dc7799f5e6d484c045e4fd133c2d0764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:06 +0000
Subject: [PATCH 40/48] fix: find sections with uppercase letters in their
 options

---
 specfile/sections.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index c4ce13d..d00b6bf 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -176,7 +176,8 @@ class Sections(UserList[Section]):
             data = super().__getattribute__("data")
         except AttributeError:
             return False
-        return any(s.normalized_id == cast(str, id).lower() for s in data)
+        normalized_id = self._normalize_id(cast(str, id))
+        return any(s.normalized_id == normalized_id for s in data)
 
     def __getattr__(self, id: str) -> Section:
         if id not in self:
@@ -211,9 +212,16 @@ class Sections(UserList[Section]):
     def get(self, id: str) -> Section:
         return self.data[self.find(id)]
 
+    @staticmethod
+    def _normalize_id(id: str) -> str:
+        # only the name is case-insensitive, options are not
+        m = re.match(r"\S*", id)
+        return m.group().lower() + id[m.end() :]
+
     def find(self, id: str) -> int:
+        normalized_id = self._normalize_id(id)
         for i, section in enumerate(self.data):
-            if section.normalized_id == id.lower():
+            if section.normalized_id == normalized_id:
                 return i
         raise ValueError
 
-- 
2.43.0


From 107f23a01ba2d16b92185e8243b823af7a535999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:11 +0000
Subject: [PATCH 41/48] fix: account for expansion of unmodifiable conditional
 macros when updating values

---
 specfile/value_parser.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 5a31649..d32008c 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -376,8 +376,11 @@ class ValueParser:
                         result.append(f"%{{{node.prefix}{node.name}:")
                         result.extend(flatten(node.body))
                         result.append("}")
-                    else:
+                    elif node.name in modifiable_entities:
+                        # this one will be expanded to an empty string
                         result.append(str(node))
+                    else:
+                        result.append(node)
                 else:
                     result.append(node)
             return result
@@ -391,7 +394,15 @@ class ValueParser:
                 tokens.append(("c", "", node))
             elif isinstance(node, StringLiteral):
                 tokens.append(("v", node.value, ""))
-            elif isinstance(node, (ShellExpansion, ExpressionExpansion, BuiltinMacro)):
+            elif isinstance(
+                node,
+                (
+                    ConditionalMacroExpansion,
+                    ShellExpansion,
+                    ExpressionExpansion,
+                    BuiltinMacro,
+                ),
+            ):
                 const = expand(str(node))
                 tokens.append(("c", const, str(node)))
             elif isinstance(node, MacroSubstitution):
-- 
2.43.0


From ad3988c6985fd5f83aa6a96ddad5070855e9cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:17 +0000
Subject: [PATCH 42/48] fix: don't update macro definitions that can't be
 uncommented

---
 specfile/specfile.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index ecc60af..bd6a271 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -784,6 +784,11 @@ class Specfile:
                     if md.valid
                     and not protected_regex.match(md.name)
                     and not md.name.endswith(")")  # skip macro definitions with options
+                    # skip macro definitions that can't be uncommented
+                    and not (
+                        md.commented_out
+                        and md.comment_out_style is CommentOutStyle.OTHER
+                    )
                 ]
             )
         with self.tags() as tags:
-- 
2.43.0


From c6973f8302cfa97859d621d709f7be483b71fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:53 +0000
Subject: [PATCH 43/48] fix: list macros with an empty body as active macros

---
 specfile/macros.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index 44f7fc7..eda720d 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -89,7 +89,7 @@ class Macros:
         # last line contains only summary
         dump.pop()
         macro_regex = re.compile(
-            r"^\s*(?P<l>-?\d+)(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?\t(?P<b>.*)$"
+            r"^\s*(?P<l>-?\d+)(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?(\t(?P<b>.*))?$"
         )
         result = []
         while dump:
@@ -105,7 +105,8 @@ class Macros:
                     Macro(
                         m.group("n"),
                         m.group("o"),
-                        m.group("b"),
+                        # there is no tab if the body is empty
+                        m.group("b") or "",
                         MacroLevel(int(m.group("l"))),
                         m.group("u") == "=",
                     )
-- 
2.43.0


From ec667ef38a629ce25da81f14999d5347a05ec15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:04 +0000
Subject: [PATCH 44/48] fix: delete the right items by a slice with a negative
 step

---
 specfile/changelog.py         | 2 +-
 specfile/macro_definitions.py | 2 +-
 specfile/options.py           | 2 +-
 specfile/prep.py              | 2 +-
 specfile/sourcelist.py        | 2 +-
 specfile/sources.py           | 3 ++-
 specfile/tags.py              | 2 +-
 7 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 773bd88..4064100 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -254,7 +254,7 @@ class Changelog(UserList[ChangelogEntry]):
                 self._predecessor.extend(following_lines[1:])
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index e3d3c7f..d82d009 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -239,7 +239,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/options.py b/specfile/options.py
index 72e46fc..cda000f 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -140,7 +140,7 @@ class Positionals(collections.abc.MutableSequence):
 
         items = self._get_items()
         if isinstance(i, slice):
-            for index in reversed(items[i]):
+            for index in sorted(items[i], reverse=True):
                 delete(index)
         else:
             delete(items[i])
diff --git a/specfile/prep.py b/specfile/prep.py
index 814ccfb..6e5190a 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -216,7 +216,7 @@ class PrepMacros(UserList[PrepMacro]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 81ea950..79f1cc0 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -132,7 +132,7 @@ class Sourcelist(UserList[SourcelistEntry]):
             lines[0:0] = preceding_lines
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/sources.py b/specfile/sources.py
index e7bcc27..68883ea 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -341,7 +341,8 @@ class Sources(collections.abc.MutableSequence):
     def __delitem__(self, i: Union[int, slice]) -> None:
         items = self._get_items()
         if isinstance(i, slice):
-            for _, container, index in reversed(items[i]):
+            for i0 in sorted(range(len(items))[i], reverse=True):
+                _, container, index = items[i0]
                 del container[index]
         else:
             _, container, index = items[i]
diff --git a/specfile/tags.py b/specfile/tags.py
index e8430f4..bb1cffa 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -383,7 +383,7 @@ class Tags(UserList[Tag]):
             )
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
-- 
2.43.0


From a00fb55b3f2226b9da893add7019bd6b03ede433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:18 +0000
Subject: [PATCH 45/48] fix: do not fail to guess the packager when the user
 has no passwd entry

---
 specfile/changelog.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 4064100..6c2caee 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -365,8 +365,15 @@ class Changelog(UserList[ChangelogEntry]):
 
 
 def _getent_name() -> str:
-    username = getpass.getuser()
-    pwd_struct = pwd.getpwnam(username)
+    try:
+        username = getpass.getuser()
+    except (KeyError, OSError):
+        # current user is unknown
+        return ""
+    try:
+        pwd_struct = pwd.getpwnam(username)
+    except KeyError:
+        return username
     # Use the plain username if the name field is empty
     return pwd_struct.pw_gecos or username
 
-- 
2.43.0


From 6ee9a4f064421f0a041400c3473766abe13dcbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:51 +0000
Subject: [PATCH 46/48] fix: do not take a SourceLicense tag for a source when
 adding the first patch

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 68883ea..2215bae 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -687,7 +687,7 @@ class Patches(Sources):
             index, source = [
                 (i, Sources.tag_class(t))
                 for i, t in enumerate(self._tags)
-                if source_pattern.match(t.normalized_name)
+                if source_pattern.fullmatch(t.normalized_name)
             ][-1]
         except IndexError:
             return super()._get_initial_tag_setup(number)
-- 
2.43.0


From 840f4ba801b582cad3adbca0729fe7e15d751b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:06 +0000
Subject: [PATCH 47/48] fix: take only decimal digits for a number in option
 values

---
 specfile/options.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index cda000f..aaf8ca8 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -104,11 +104,11 @@ class Positionals(collections.abc.MutableSequence):
             result = []
             for index in items[i]:
                 value = self._options._tokens[index].value
-                result.append(int(value) if value.isnumeric() else value)
+                result.append(int(value) if value.isdecimal() else value)
             return result
         else:
             value = self._options._tokens[items[i]].value
-            return int(value) if value.isnumeric() else value
+            return int(value) if value.isdecimal() else value
 
     @overload
     def __setitem__(self, i: int, item: Union[int, str]) -> None:
@@ -338,7 +338,7 @@ class Options(collections.abc.MutableMapping):
         )
         if not value:
             return True
-        if value.isnumeric():
+        if value.isdecimal():
             return int(value)
         return value
 
-- 
2.43.0


From f804ca4b3b634e7318aaeb0b7a8758e6a00ba980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:24 +0000
Subject: [PATCH 48/48] fix: parse again after an interrupted parsing

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index f3819e6..88f136a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -404,7 +404,7 @@ class SpecParser:
         try:
             try:
                 self.spec, self.tainted = self._do_parse(content, extra_macros)
-            except Exception:
+            except BaseException:
                 SpecParser._last_parse_hash = None
                 raise
             else:
-- 
2.43.0

