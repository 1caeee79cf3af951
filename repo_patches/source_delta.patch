From 93c538952c273f9be119093057f4eb8540e808c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:26 +0000
Subject: [PATCH 01/48] fix: never leave, overwrite or remove files other than
 own dummy sources

Dummy sources were left behind when writing one of them failed, when an
exception was raised while creating the others or when removal of one of them
failed. A file created by somebody else between the check for existence and the
write was overwritten and removed, and a dangling symlink was written through
and then removed.
---
 specfile/spec_parser.py | 92 +++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 0dfb2fc..58195e7 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -107,21 +107,42 @@ class SpecParser:
             List of paths to each created dummy source.
         """
 
+        def create(path, write, *args):
+            try:
+                if path.exists():
+                    return
+                if path.is_symlink():
+                    # dangling symlink, create its target and leave the symlink alone
+                    path = path.resolve()
+                # fail rather than overwrite a file that has been created in the meantime
+                path.touch(exist_ok=False)
+            except FileExistsError:
+                return
+            except OSError:
+                logger.warning(f"Failed to create a dummy source: {path}")
+                return
+            dummy_sources.append(path)
+            try:
+                write(path, *args)
+            except OSError:
+                logger.warning(f"Failed to create a dummy source: {path}")
+                dummy_sources.remove(path)
+                remove(path)
+
+        def remove(path):
+            with contextlib.suppress(FileNotFoundError):
+                path.unlink()
+
         def write_magic(path, magic):
             # create a file with a signature matching what RPM expects for this particular
             # file type; this affects how %setup and %patch macros are expanded
 
             # number of bytes that RPM reads to determine the file type
             MAGIC_LENGTH = 13
-            try:
-                if magic:
-                    path.write_bytes(magic.ljust(MAGIC_LENGTH, b"\x00"))
-                else:
-                    path.write_bytes(MAGIC_LENGTH * b"\x00")
-            except (FileNotFoundError, OSError, PermissionError):
-                logger.warning(f"Failed to create a dummy source: {path}")
-                return False
-            return True
+            if magic:
+                path.write_bytes(magic.ljust(MAGIC_LENGTH, b"\x00"))
+            else:
+                path.write_bytes(MAGIC_LENGTH * b"\x00")
 
         # based on rpmFileIsCompressed() in rpmio/rpmfileutil.c in RPM source
         SIGNATURES = [
@@ -134,40 +155,31 @@ class SpecParser:
             (".gz", b"\x1f\x8b"),
             (".7z", b"7z\xbc\xaf\x27\x1c"),
         ]
-        dummy_sources = []
-        for source in sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            for ext, magic in SIGNATURES:
-                if filename.endswith(ext):
-                    if write_magic(path, magic):
-                        dummy_sources.append(path)
-                    break
-            else:
-                if write_magic(path, None):
-                    dummy_sources.append(path)
-        for source in non_empty_sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            try:
-                path.write_text("DUMMY")
-            except (FileNotFoundError, OSError, PermissionError):
-                logger.warning(f"Failed to create a dummy source: {path}")
-            else:
-                dummy_sources.append(path)
+        dummy_sources: List[Path] = []
         try:
+            for source in sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                for ext, magic in SIGNATURES:
+                    if filename.endswith(ext):
+                        create(path, write_magic, magic)
+                        break
+                else:
+                    create(path, write_magic, None)
+            for source in non_empty_sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                create(path, Path.write_text, "DUMMY")
             yield dummy_sources
         finally:
-            for path in dummy_sources:
-                path.unlink()
+            # failure to remove one file must not prevent the others from being removed
+            with contextlib.ExitStack() as stack:
+                for path in dummy_sources:
+                    stack.callback(remove, path)
 
     @contextlib.contextmanager
     def _sanitize_environment(self) -> Generator[os._Environ, None, None]:
-- 
2.43.0


From 9d708f7706573abc9f1004b2a5ca865ba96f3f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:14 +0000
Subject: [PATCH 02/48] fix: allow loading an empty spec file

Reading an empty file raised IndexError.
---
 specfile/specfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 92b8d8f..bf98851 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -122,7 +122,7 @@ class Specfile:
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
         content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content[-1] == "\n"
+        return content.splitlines(), content.endswith("\n")
 
     @property
     def path(self) -> Path:
-- 
2.43.0


From ca2339e66141417a00c8686afce59683b8cdd67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:36 +0000
Subject: [PATCH 03/48] fix: treat only newline as a line boundary

Form feeds, vertical tabs, NEL, line separators and other characters recognized
by str.splitlines() were replaced with newlines when the spec file was saved.
---
 specfile/sections.py |  4 ++--
 specfile/specfile.py |  5 +++--
 specfile/utils.py    | 21 ++++++++++++++++++++-
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 7b5ae98..072591d 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -18,7 +18,7 @@ from specfile.macro_definitions import MacroDefinitions
 from specfile.macros import Macros
 from specfile.options import Options
 from specfile.types import SupportsIndex
-from specfile.utils import UserList
+from specfile.utils import UserList, split_lines
 
 if TYPE_CHECKING:
     from specfile.specfile import Specfile
@@ -134,7 +134,7 @@ class Section(collections.UserList):
     def get_raw_data(self) -> List[str]:
         if self.normalized_id == PREAMBLE:
             return self.data
-        return str(self).splitlines()
+        return split_lines(str(self))
 
 
 class Sections(UserList[Section]):
diff --git a/specfile/specfile.py b/specfile/specfile.py
index bf98851..9bb6361 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -31,6 +31,7 @@ from specfile.sourcelist import Sourcelist
 from specfile.sources import Patches, Sources
 from specfile.spec_parser import SpecParser
 from specfile.tags import Tag, Tags
+from specfile.utils import split_lines
 from specfile.value_parser import (
     SUBSTITUTION_GROUP_PREFIX,
     ConditionalMacroExpansion,
@@ -122,7 +123,7 @@ class Specfile:
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
         content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content.endswith("\n")
+        return split_lines(content), content.endswith("\n")
 
     @property
     def path(self) -> Path:
@@ -270,7 +271,7 @@ class Specfile:
     @property
     def parsed_sections(self) -> Sections:
         """Parsed spec file sections."""
-        return Sections.parse(self.rpm_spec.parsed.splitlines())
+        return Sections.parse(split_lines(self.rpm_spec.parsed))
 
     @ContextManager
     def tags(
diff --git a/specfile/utils.py b/specfile/utils.py
index 4ab2368..b308df2 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -4,7 +4,7 @@
 import collections
 import re
 import sys
-from typing import TYPE_CHECKING, Tuple
+from typing import TYPE_CHECKING, List, Tuple
 
 import rpm
 
@@ -14,6 +14,25 @@ from specfile.formatter import formatted
 from specfile.value_parser import ConditionalMacroExpansion, ValueParser
 
 
+def split_lines(content: str) -> List[str]:
+    """
+    Splits content into lines.
+
+    Unlike `str.splitlines()`, only newline is considered a line boundary, so that
+    joining the lines again can't change any other character, such as form feed.
+
+    Args:
+        content: Content to split.
+
+    Returns:
+        List of lines without newline characters.
+    """
+    lines = content.split("\n")
+    if not lines[-1]:
+        lines.pop()
+    return lines
+
+
 class EVR(collections.abc.Hashable):
     """Class representing Epoch-Version-Release combination."""
 
-- 
2.43.0


From 8a57d15a7c3820a34c3bf2fdd105d90fa1d63360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:42 +0000
Subject: [PATCH 04/48] fix: handle bytes that are not valid UTF-8 when talking
 to RPM

Spec files are read with undecodable bytes escaped, but parsing of such spec
files raised UnicodeEncodeError and processing of RPM diagnostics and macro
dumps raised UnicodeDecodeError.
---
 specfile/exceptions.py  | 4 ++--
 specfile/macros.py      | 2 +-
 specfile/spec_parser.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 4915e31..834526a 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -17,10 +17,10 @@ class RPMException(SpecfileException):
 
     def __str__(self) -> str:
         for rline in self.stderr:
-            line = rline.decode().rstrip()
+            line = rline.decode("utf8", "surrogateescape").rstrip()
             if line.startswith("error:"):
                 return line.split("error: ")[1]
-        return "\n" + b"".join(self.stderr).decode()
+        return "\n" + b"".join(self.stderr).decode("utf8", "surrogateescape")
 
 
 class MacroRemovalException(SpecfileException):
diff --git a/specfile/macros.py b/specfile/macros.py
index f3bf952..963053e 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -128,7 +128,7 @@ class Macros:
         """
         with capture_stderr() as stderr:
             rpm.expandMacro("%dump")
-        return cls._parse([line.decode() for line in stderr])
+        return cls._parse([line.decode("utf8", "surrogateescape") for line in stderr])
 
     @staticmethod
     def expand(expression: str) -> str:
diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 58195e7..6687c85 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -237,7 +237,7 @@ class SpecParser:
                     Macros.define(name, value)
             Macros.define("_sourcedir", str(self.sourcedir))
             with tempfile.NamedTemporaryFile() as tmp:
-                tmp.write(content.encode())
+                tmp.write(content.encode("utf8", "surrogateescape"))
                 tmp.flush()
                 try:
                     with self._sanitize_environment():
-- 
2.43.0


From 770ecbfe79fd4c36ec10388123484f49adea73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:06 +0000
Subject: [PATCH 05/48] fix: keep parser usable when parsing is interrupted

When parsing was interrupted by anything else than RPMException, the spec
attribute was missing afterwards and every subsequent parse raised
AttributeError. When it was interrupted by KeyboardInterrupt or another exception
not derived from Exception, the hash of the previous parse was kept even though
the macro context had changed, so the next operation could skip parsing and be
evaluated in the context of another spec file.
---
 specfile/spec_parser.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 6687c85..ad32f76 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -391,18 +391,11 @@ class SpecParser:
         if parse_hash == SpecParser._last_parse_hash:
             # none of the input parameters has changed, no need to parse again
             return
-        if self.spec:
-            # workaround RPM lua tables feature/bug, see above for details
-            del self.spec
-        try:
-            try:
-                self.spec, self.tainted = self._do_parse(content, extra_macros)
-            except Exception:
-                SpecParser._last_parse_hash = None
-                raise
-            else:
-                SpecParser._last_parse_hash = parse_hash
-        except RPMException:
-            self.spec = None
-            self.tainted = False
-            raise
+        # the global macro context is about to change, make sure the hash is invalidated
+        # no matter how parsing ends
+        SpecParser._last_parse_hash = None
+        # workaround RPM lua tables feature/bug, see above for details
+        self.spec = None
+        self.tainted = False
+        self.spec, self.tainted = self._do_parse(content, extra_macros)
+        SpecParser._last_parse_hash = parse_hash
-- 
2.43.0


From 845d94ea91baaab5a7468ffa47a5de5d42ad959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 06/48] fix: do not skip parsing if there is no parsed spec

A copy of a parser could be assigned the same id as a previously deleted parser,
causing parsing to be skipped and the copy to be left without a rpm.spec instance.
---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index ad32f76..15df268 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -388,7 +388,7 @@ class SpecParser:
         parse_hash = hashlib.sha256(
             pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         ).digest()
-        if parse_hash == SpecParser._last_parse_hash:
+        if parse_hash == SpecParser._last_parse_hash and self.spec is not None:
             # none of the input parameters has changed, no need to parse again
             return
         # the global macro context is about to change, make sure the hash is invalidated
-- 
2.43.0


From 40c2dc34a46c7579623ba06d1b4e8a93af21f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:11 +0000
Subject: [PATCH 07/48] fix: do not let a deleted parser break the macro
 context of another one

Deleting a SpecParser instance destroyed its rpm.spec instance and along with it
RPM lua tables of the spec file that was parsed last. As a result, %{sources} and
%{patches} could not be expanded, because parsing was not repeated.
---
 specfile/spec_parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 15df268..2fd7e6d 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -46,6 +46,9 @@ class SpecParser:
     # hash of input parameters to the last parse performed
     _last_parse_hash = None
 
+    # rpm.spec instances of deleted parsers, to be destroyed before the next parse
+    _orphaned_specs: List[rpm.spec] = []
+
     def __init__(
         self,
         sourcedir: Path,
@@ -62,6 +65,14 @@ class SpecParser:
         # improperly skipped
         SpecParser._last_parse_hash = None
 
+    def __del__(self) -> None:
+        # destroying a rpm.spec instance destroys also RPM lua tables that could belong
+        # to a different instance by now, see `_do_parse()` for details; this can happen
+        # at any time, so postpone it until the tables are about to be reinitialized
+        spec = getattr(self, "spec", None)
+        if spec:
+            SpecParser._orphaned_specs.append(spec)
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SpecParser):
             return NotImplemented
@@ -397,5 +408,6 @@ class SpecParser:
         # workaround RPM lua tables feature/bug, see above for details
         self.spec = None
         self.tainted = False
+        SpecParser._orphaned_specs.clear()
         self.spec, self.tainted = self._do_parse(content, extra_macros)
         SpecParser._last_parse_hash = parse_hash
-- 
2.43.0


From 3a6731bf8f1609d3c8dc0e60be5d2d96b41a4880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:58 +0000
Subject: [PATCH 08/48] fix: consider %else invalid if any of preceding
 branches is valid

In %if/%elif/%else, the %else branch was considered valid even if the condition
in %if was true.
---
 specfile/conditions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 77f14ab..01d793f 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -112,6 +112,8 @@ def process_conditions(
     )
     result = []
     branches = [True]
+    # indicates if a true branch has already been encountered in each nested condition
+    resolved = [True]
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
@@ -132,10 +134,11 @@ def process_conditions(
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
+            resolved.pop()
         elif keyword.startswith("%el"):
             result.append((line, branches[-2]))
             if branches[-2]:
-                branches[-1] = not branches[-1]
+                branches[-1] = not resolved[-1]
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
@@ -154,6 +157,8 @@ def process_conditions(
             )
             if keyword.startswith("%el"):
                 branches[-1] = branch
+                resolved[-1] = resolved[-1] or branch
             else:
                 branches.append(branch)
+                resolved.append(branch)
     return result
-- 
2.43.0


From 01ce34430ece5ca57e43d420d48695af93292140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:37:04 +0000
Subject: [PATCH 09/48] fix: do not expand macros in false branches of
 conditions

Lines in false branches, such as %bcond_without or %{!?foo:%global foo 1}, were
expanded and thus executed when processing conditions, modifying the macro
context the spec file was subsequently evaluated in.
---
 specfile/conditions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 01d793f..8e45b84 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -122,7 +122,9 @@ def process_conditions(
             result.append((line, branches[-1]))
             continue
         try:
-            expanded_line = expand(line)
+            # RPM doesn't expand macros in false branches, and expanding them
+            # could have side effects
+            expanded_line = expand(line) if branches[-1] else line
         except RPMException:
             # ignore failed expansion and use the original line
             expanded_line = line
-- 
2.43.0


From e68275260f079d48b14496a4ddaba79c2d02c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:15 +0000
Subject: [PATCH 10/48] fix: do not let RPM write to stderr when reloading
 configuration

Errors in ~/.rpmmacros or ~/.rpmrc were written to stderr of the application
on every parse.
---
 specfile/macros.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index 963053e..8353017 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -203,8 +203,10 @@ class Macros:
         Args:
             level_threshold: Only macros up to this level remain defined.
         """
-        # reset everything, including macros
-        rpm.reloadConfig()
+        # reset everything, including macros; there could be errors in configuration files
+        # and they would be reported over and over again
+        with capture_stderr():
+            rpm.reloadConfig()
         for macro in cls.dump():
             if macro.level > level_threshold:
                 cls.remove(macro.name)
-- 
2.43.0


From 37e9d58552e0e823029cef5c300396b1c1c23414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:20 +0000
Subject: [PATCH 11/48] fix: make RPMException always carry the whole error
 message

str() raised IndexError if the message was empty and cut off everything following
another 'error: ' in it.
---
 specfile/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 834526a..d323759 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -19,7 +19,7 @@ class RPMException(SpecfileException):
         for rline in self.stderr:
             line = rline.decode("utf8", "surrogateescape").rstrip()
             if line.startswith("error:"):
-                return line.split("error: ")[1]
+                return line[len("error:") :].lstrip()
         return "\n" + b"".join(self.stderr).decode("utf8", "surrogateescape")
 
 
-- 
2.43.0


From 37e6c137f38e0a3c07f67e282cd2094a6735004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 12/48] fix: do not strip conditional macro expansions from
 %prep

---
 specfile/prep.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index bf5c880..e8f4112 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -366,8 +366,8 @@ class Prep(collections.abc.Container):
         )
         data = []
         buffer: List[str] = []
-        for line in section:
-            line, prefix, suffix = split_conditional_macro_expansion(line)
+        for raw_line in section:
+            line, prefix, suffix = split_conditional_macro_expansion(raw_line)
             m = macro_regex.search(line)
             if m:
                 name, delimiter, option_string = (
@@ -377,7 +377,7 @@ class Prep(collections.abc.Container):
                 )
                 if delimiter == "" and option_string != "":
                     # delimiter can't be empty unless the match is just base macro with no options
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 prefix += line[: m.start("m")]
                 suffix = line[m.end("o") :] + suffix
@@ -390,7 +390,7 @@ class Prep(collections.abc.Container):
                     None,
                 )
                 if not klass:
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 options = Options(
                     Options.tokenize(option_string),
@@ -400,7 +400,7 @@ class Prep(collections.abc.Container):
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-                buffer.append(line)
+                buffer.append(raw_line)
         return cls(PrepMacros(data, buffer))
 
     def get_raw_section_data(self) -> List[str]:
-- 
2.43.0


From 0959bcb5c5ad4fd6b26696cc38d49f618cf26db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 13/48] fix: make it possible to remove %patch macro that is
 the first macro in %prep

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index e8f4112..a4a87bf 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -347,7 +347,7 @@ class Prep(collections.abc.Container):
             ),
             None,
         )
-        if index:
+        if index is not None:
             del self.macros[index]
 
     @classmethod
-- 
2.43.0


From 31a519c868d4f3baa81dadd37de490378565473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:46 +0000
Subject: [PATCH 14/48] fix: preserve preceding lines when deleting tags and
 macro definitions by name

---
 specfile/macro_definitions.py | 4 ++--
 specfile/tags.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index cc7c775..d15de65 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -207,9 +207,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
 
     def __delattr__(self, name: str) -> None:
         if name not in self:
-            return super().__getattribute__(name)
+            return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            self.__delitem__(self.find(name))
         except ValueError:
             raise AttributeError(name)
 
diff --git a/specfile/tags.py b/specfile/tags.py
index f89c4a0..569c3b3 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -419,7 +419,7 @@ class Tags(UserList[Tag]):
         if name not in self:
             return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            self.__delitem__(self.find(name))
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From b52ac7740decbd18494d86714bdf912b02c33125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:06 +0000
Subject: [PATCH 15/48] fix: preserve trailing whitespace in multiline tag
 values and macro bodies

---
 specfile/macro_definitions.py | 3 ++-
 specfile/tags.py              | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index d15de65..ed94f9f 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -337,7 +337,8 @@ class MacroDefinitions(UserList[MacroDefinition]):
                     bc, pc = count_brackets(body)
                     while (bc > 0 or pc > 0 or body.endswith("\\")) and lines:
                         line, _ = pop(lines)
-                        body += "\n" + line
+                        body += ws3 + "\n" + line
+                        ws3 = ""
                         bc, pc = count_brackets(body)
                 tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
                 if len(tokens) == 1:
diff --git a/specfile/tags.py b/specfile/tags.py
index 569c3b3..749d348 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -521,6 +521,7 @@ class Tags(UserList[Tag]):
                     while (bc > 0 or pc > 0) and lines:
                         value += ws
                         line, _ = pop(lines)
+                        ws = ""
                         tokens = re.split(r"([^\S\n]+)$", line, maxsplit=1)
                         if len(tokens) > 1:
                             line, ws, _ = tokens
-- 
2.43.0


From b50d507a7e2bedbd03c05aa698c45b1e47ae05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:06 +0000
Subject: [PATCH 16/48] fix: preserve lines when deleting items using negative
 indices and slices

---
 specfile/changelog.py         | 4 ++--
 specfile/macro_definitions.py | 4 ++--
 specfile/prep.py              | 4 ++--
 specfile/tags.py              | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 506a6f4..83266ca 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -254,10 +254,10 @@ class Changelog(UserList[ChangelogEntry]):
                 self._predecessor.extend(following_lines[1:])
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "Changelog":
         return copy.copy(self)
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index ed94f9f..7635a03 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -239,10 +239,10 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "MacroDefinitions":
         return copy.copy(self)
diff --git a/specfile/prep.py b/specfile/prep.py
index a4a87bf..6e5190a 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -216,10 +216,10 @@ class PrepMacros(UserList[PrepMacro]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __getattr__(self, name: str) -> PrepMacro:
         if not valid_prep_macro(name):
diff --git a/specfile/tags.py b/specfile/tags.py
index 749d348..0ecc9bf 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -383,10 +383,10 @@ class Tags(UserList[Tag]):
             )
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __contains__(self, name: object) -> bool:
         try:
-- 
2.43.0


From 27f8e42ddd0476f05a25ce7cd5e3cd2f7187d3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:41 +0000
Subject: [PATCH 17/48] fix: preserve lines when removing items using pop(),
 remove() and clear()

---
 specfile/utils.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index b308df2..5c8de3e 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -342,11 +342,31 @@ def split_conditional_macro_expansion(value: str) -> Tuple[str, str, str]:
     return "".join(str(n) for n in node.body), f"%{{{node.prefix}{node.name}:", "}"
 
 
+class _UserList(collections.UserList):
+    """
+    Extended `collections.UserList` that removes items only by means of `__delitem__()`,
+    so that subclasses can reliably override it to preserve lines tied to removed items.
+    """
+
+    def pop(self, i=-1):
+        item = self[i]
+        del self[i]
+        return item
+
+    def remove(self, item):
+        del self[self.index(item)]
+
+    def clear(self):
+        del self[:]
+
+
 # Python 3.6-3.8 do not allow creating a generic UserList at runtime.
 # This hack allows type checkers to determine the UserList dunder method return
 # types while still working at runtime.
-if TYPE_CHECKING or sys.version_info >= (3, 9):
+if TYPE_CHECKING:
     UserList = collections.UserList
+elif sys.version_info >= (3, 9):
+    UserList = _UserList
 else:
     # UserList[...] always returns a UserList
-    UserList = collections.defaultdict(lambda: collections.UserList)
+    UserList = collections.defaultdict(lambda: _UserList)
-- 
2.43.0


From 69bcd4b45abcb08f5263619b0e0215f78d17e6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:23 +0000
Subject: [PATCH 18/48] fix: preserve preceding lines when deleting items from
 %sourcelist and %patchlist

---
 specfile/sourcelist.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 7eea32a..062eb96 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -2,7 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import copy
-from typing import TYPE_CHECKING, Any, Dict, List, Optional, overload
+from typing import TYPE_CHECKING, Any, Dict, List, Optional, Union, overload
 
 from specfile.conditions import process_conditions
 from specfile.formatter import formatted
@@ -121,6 +121,22 @@ class Sourcelist(UserList[SourcelistEntry]):
         else:
             return self.data[i]
 
+    def __delitem__(self, i: Union[SupportsIndex, slice]) -> None:
+        def delete(index):
+            preceding_lines = self.data[index].comments._preceding_lines
+            del self.data[index]
+            if index < len(self.data):
+                lines = self.data[index].comments._preceding_lines
+            else:
+                lines = self._remainder
+            lines[:0] = preceding_lines
+
+        if isinstance(i, slice):
+            for index in sorted(range(len(self.data))[i], reverse=True):
+                delete(index)
+        else:
+            delete(range(len(self.data))[i])
+
     def copy(self) -> "Sourcelist":
         return copy.copy(self)
 
-- 
2.43.0


From 5a735c18d4c8362e83f783d29eeb69c9f216276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:50 +0000
Subject: [PATCH 19/48] fix: preserve literal representation of macro and
 section options

---
 specfile/options.py | 53 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index a6d7d8c..38f648c 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -28,15 +28,30 @@ class Token(collections.abc.Hashable):
         value: Token value.
     """
 
-    def __init__(self, type: TokenType, value: str) -> None:
+    def __init__(
+        self, type: TokenType, value: str, literal: Optional[str] = None
+    ) -> None:
+        """
+        Initializes a token object.
+
+        Args:
+            type: Token type.
+            value: Token value.
+            literal: Literal representation of the token in an option string. It is used
+                for as long as type and value of the token don't change.
+        """
         self.type = type
         self.value = value
+        self._literal = literal
+        self._literal_key = self._key()
 
     @formatted
     def __repr__(self) -> str:
         return f"Token({self.type!r}, {self.value!r})"
 
     def __str__(self) -> str:
+        if self._literal is not None and self._literal_key == self._key():
+            return self._literal
         if self.type == TokenType.WHITESPACE:
             return self.value
         elif self.type == TokenType.QUOTED:
@@ -475,6 +490,7 @@ class Options(collections.abc.MutableMapping):
         """
         result: List[Token] = []
         token = ""
+        literal = ""
         quote = None
         inp = []
         for node in ValueParser.parse(option_string):
@@ -485,33 +501,37 @@ class Options(collections.abc.MutableMapping):
         while inp:
             c = inp.pop(0)
             if c == quote:
-                if token:
-                    result.append(
-                        Token(
-                            (
-                                TokenType.QUOTED
-                                if quote == "'"
-                                else TokenType.DOUBLE_QUOTED
-                            ),
-                            token,
-                        )
+                result.append(
+                    Token(
+                        (
+                            TokenType.QUOTED
+                            if quote == "'"
+                            else TokenType.DOUBLE_QUOTED
+                        ),
+                        token,
+                        literal + c,
                     )
-                    token = ""
+                )
+                token = ""
+                literal = ""
                 quote = None
                 continue
             if quote:
+                literal += c
                 if c == "\\":
                     if not inp:
                         raise OptionsException("No escaped character")
                     c = inp.pop(0)
+                    literal += c
                     if c != quote:
                         token += "\\"
                 token += c
                 continue
             if c.isspace():
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
+                    result.append(Token(TokenType.DEFAULT, token, literal))
                     token = ""
+                    literal = ""
                 whitespace = c
                 while inp:
                     c = inp.pop(0)
@@ -526,17 +546,20 @@ class Options(collections.abc.MutableMapping):
                 continue
             if c in ('"', "'"):
                 if token:
-                    result.append(Token(TokenType.DEFAULT, token))
+                    result.append(Token(TokenType.DEFAULT, token, literal))
                     token = ""
+                literal = c
                 quote = c
                 continue
+            literal += c
             if c == "\\":
                 if not inp:
                     raise OptionsException("No escaped character")
                 c = inp.pop(0)
+                literal += c
             token += c
         if quote:
             raise OptionsException("No closing quotation")
         if token:
-            result.append(Token(TokenType.DEFAULT, token))
+            result.append(Token(TokenType.DEFAULT, token, literal))
         return result
-- 
2.43.0


From 7625774a05eedfd21b0c9f08a6124b31415d841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:21 +0000
Subject: [PATCH 20/48] fix: remove also the option itself when deleting a flag

---
 specfile/options.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index 38f648c..e6b58f0 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -411,19 +411,17 @@ class Options(collections.abc.MutableMapping):
         i, j = self._find_option(name)
         if i is None:
             return
+        if j is None:
+            j = i
         if i == 0:
             if (
-                j is not None
-                and j + 1 < len(self._tokens)
+                j + 1 < len(self._tokens)
                 and self._tokens[j + 1].type == TokenType.WHITESPACE
             ):
                 j += 1
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
-        if j is not None and j > i:
-            del self._tokens[i : j + 1]
-        else:
-            del self._tokens[i]
+        del self._tokens[i : j + 1]
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From 0ac208fb81002ae7adab5e653fcc407c67f30c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:27 +0000
Subject: [PATCH 21/48] fix: separate a positional argument inserted at the
 beginning

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index e6b58f0..616cfc4 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -220,6 +220,8 @@ class Positionals(collections.abc.MutableSequence):
         )
         if index > 0:
             self._options._tokens.insert(index, Token(TokenType.WHITESPACE, " "))
+        elif len(self._options._tokens) > 1:
+            self._options._tokens.insert(1, Token(TokenType.WHITESPACE, " "))
 
 
 class Options(collections.abc.MutableMapping):
-- 
2.43.0


From ca376536278e7262749e150e7100ec2f8a903aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:33 +0000
Subject: [PATCH 22/48] fix: allow expansions of lines that are not valid UTF-8
 to fail gracefully

---
 specfile/macros.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/macros.py b/specfile/macros.py
index 8353017..c312182 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -149,6 +149,9 @@ class Macros:
                 return rpm.expandMacro(expression)
         except rpm.error as e:
             raise RPMException(stderr=stderr) from e
+        except UnicodeEncodeError as e:
+            # RPM bindings don't accept strings with bytes that couldn't be decoded
+            raise RPMException(stderr=[f"error: {e}\n".encode()]) from e
 
     @classmethod
     def remove(cls, macro: str) -> None:
-- 
2.43.0


From 33ff2edbc2fb14cf814a4239e1d00e744ff0d0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:48 +0000
Subject: [PATCH 23/48] fix: do not change a flag that is already set

---
 specfile/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 616cfc4..1a171b1 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -389,6 +389,9 @@ class Options(collections.abc.MutableMapping):
             return
         if value is None or value is False:
             return delattr(self, name)
+        if value is True:
+            # the flag is already set
+            return
         if j is not None and j > i:
             if self._needs_quoting(value):
                 if self._tokens[j].type not in (
-- 
2.43.0


From 17d40dc6527a4843ce0e489067e0792a258d4f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:03 +0000
Subject: [PATCH 24/48] fix: do not lose colon when adjusting separator of a
 source tag

---
 specfile/sources.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index a4c2bf0..381f2f3 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -442,7 +442,10 @@ class Sources(collections.abc.MutableSequence):
         diff = len(reference._tag.name) - len(name)
         if diff >= 0:
             return name, reference._tag._separator + " " * diff
-        return name, reference._tag._separator[:diff] or ":"
+        separator = reference._tag._separator[:diff]
+        if ":" not in separator:
+            separator = reference._tag._separator.rstrip()
+        return name, separator
 
     def _get_initial_tag_setup(self, number: int = 0) -> Tuple[int, str, str]:
         """
-- 
2.43.0


From 95518c59e085012f75affced5ab908c3fd54cb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:52 +0000
Subject: [PATCH 25/48] fix: number sources the way RPM does

---
 specfile/sources.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 381f2f3..013590f 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -362,13 +362,13 @@ class Sources(collections.abc.MutableSequence):
         numbered_pattern = re.compile(rf"{self.prefix}\d+")
         for i, tag in enumerate(self._tags):
             if tag.normalized_name == self.prefix:
-                last_number += 1
-                ts = self.tag_class(tag, last_number)
+                ts = self.tag_class(tag, last_number + 1)
             elif numbered_pattern.match(tag.normalized_name):
                 ts = self.tag_class(tag)
-                last_number = ts.number
             else:
                 continue
+            if ts.valid:
+                last_number = max(last_number, ts.number)
             result.append((ts, self._tags, i))
         return result
 
@@ -385,12 +385,13 @@ class Sources(collections.abc.MutableSequence):
         result = cast(
             List[Tuple[Source, Union[Tags, Sourcelist], int]], self._get_tags()
         )
-        last_number = result[-1][0].number if result else -1
-        result.extend(
-            (self.list_class(sl[i], last_number + 1 + i), sl, i)
-            for sl in self._sourcelists
-            for i in range(len(sl))
-        )
+        last_number = max((s.number for s, _, _ in result if s.valid), default=-1)
+        for sl in self._sourcelists:
+            for i in range(len(sl)):
+                ls = self.list_class(sl[i], last_number + 1)
+                if ls.valid:
+                    last_number = ls.number
+                result.append((ls, sl, i))
         return result
 
     def _detect_implicit_numbering(self) -> bool:
@@ -626,7 +627,12 @@ class Sources(collections.abc.MutableSequence):
         """
         items = self._get_items()
         try:
-            container, index = next((c, i) for s, c, i in items if s.number == number)
+            # prefer a valid source, only valid sources have unique numbers
+            container, index = next(
+                (c, i)
+                for s, c, i in sorted(items, key=lambda item: not item[0].valid)
+                if s.number == number
+            )
         except StopIteration:
             pass
         else:
-- 
2.43.0


From a937a4d6565b37c6b075482ebe93cb0cd9abe8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:57 +0000
Subject: [PATCH 26/48] fix: do not treat conditions and blank lines in
 %sourcelist and %patchlist as entries

---
 specfile/sourcelist.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 062eb96..d053424 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -2,6 +2,7 @@
 # SPDX-License-Identifier: MIT
 
 import copy
+import re
 from typing import TYPE_CHECKING, Any, Dict, List, Optional, Union, overload
 
 from specfile.conditions import process_conditions
@@ -158,8 +159,11 @@ class Sourcelist(UserList[SourcelistEntry]):
         lines = process_conditions(list(section), macro_definitions, context)
         data = []
         buffer: List[str] = []
+        condition_regex = re.compile(r"^\s*%((el)?if(n?(arch|os))?|endif|else)\b")
         for line, valid in lines:
-            if line and not line.lstrip().startswith("#"):
+            if line.strip() and not (
+                line.lstrip().startswith("#") or condition_regex.match(line)
+            ):
                 data.append(
                     SourcelistEntry(line, Comments.parse(buffer), valid, context)
                 )
-- 
2.43.0


From c5344035eb717d466c8d0c28d0ef40645c8d7b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:02 +0000
Subject: [PATCH 27/48] fix: recognize %sourcelist and %patchlist regardless of
 case

---
 specfile/specfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 9bb6361..5191a7b 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -367,7 +367,7 @@ class Specfile:
             sourcelists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "sourcelist"
+                if s.normalized_name == "sourcelist"
             ]
             try:
                 yield Sources(
@@ -408,7 +408,7 @@ class Specfile:
             patchlists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "patchlist"
+                if s.normalized_name == "patchlist"
             ]
             try:
                 yield Patches(
-- 
2.43.0


From 9c5ad8cfd39e6dfbca59843cbe49e328fd4da577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:07 +0000
Subject: [PATCH 28/48] fix: make slices and negative indices of sources behave
 like those of a list

---
 specfile/sources.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 013590f..ade0544 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -318,7 +318,7 @@ class Sources(collections.abc.MutableSequence):
     def __getitem__(self, i):
         items = self._get_items()
         if isinstance(i, slice):
-            return list(zip(*items[i]))[0]
+            return [source for source, _, _ in items[i]]
         else:
             return items[i][0]
 
@@ -341,7 +341,8 @@ class Sources(collections.abc.MutableSequence):
     def __delitem__(self, i: Union[int, slice]) -> None:
         items = self._get_items()
         if isinstance(i, slice):
-            for _, container, index in reversed(items[i]):
+            for i0 in sorted(range(len(items))[i], reverse=True):
+                _, container, index = items[i0]
                 del container[index]
         else:
             _, container, index = items[i]
@@ -519,6 +520,8 @@ class Sources(collections.abc.MutableSequence):
         if not self._allow_duplicates and location in self:
             raise DuplicateSourceException(f"{self.prefix} '{location}' already exists")
         items = self._get_items()
+        if i < 0:
+            i = max(i + len(items), 0)
         if i > len(items):
             i = len(items)
         if items:
-- 
2.43.0


From b55ca9953ca9f20d40783e3efc451e5fafe04f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:41 +0000
Subject: [PATCH 29/48] fix: do not assign duplicate numbers if sources are not
 in order

---
 specfile/sources.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index ade0544..2913761 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -495,15 +495,27 @@ class Sources(collections.abc.MutableSequence):
         tags = self._get_tags()
         if not tags:
             return
-        tag_sources = list(zip(*tags[start:]))[0]
-        for ts0, ts1 in zip(tag_sources, tag_sources[1:]):
-            if ts1.number == ts0.number:
-                if ts1._number is not None:
-                    ts1._number = ts0.number + 1
-                else:
-                    ts1._tag.name, ts1._tag._separator = self._get_tag_format(
-                        ts1, ts0.number + 1
-                    )
+        numbers = {ts.number for ts, _, _ in tags[:start]}
+        valid_numbers = {ts.number for ts, _, _ in tags[:start] if ts.valid}
+        new_numbers = set()
+        for i in range(start, len(tags)):
+            ts = self._get_tags()[i][0]
+            number = ts.number
+            if ts._number is not None:
+                new_numbers.add(number)
+            elif (
+                i == start
+                or number in new_numbers
+                or (ts.valid and number in valid_numbers)
+            ):
+                while number in numbers:
+                    number += 1
+                new_numbers.add(number)
+                if number != ts.number:
+                    ts._tag.name, ts._tag._separator = self._get_tag_format(ts, number)
+            numbers.add(number)
+            if ts.valid:
+                valid_numbers.add(number)
 
     def insert(self, i: int, location: str) -> None:
         """
-- 
2.43.0


From 0d163921f9e9e51cd6b2a778c6a3babd32b6c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:46 +0000
Subject: [PATCH 30/48] fix: honor the requested number when inserting a source
 among sources without numbers

---
 specfile/sources.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index 2913761..f4f9dd1 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -619,6 +619,11 @@ class Sources(collections.abc.MutableSequence):
             index,
             Tag(name, location, separator, Comments(), valid, context=self._context),
         )
+        if self._get_tags()[i][0].number != number:
+            # implicit number is not the requested one, make it explicit
+            self._tags[index].name = (
+                f"{self.prefix}{number:0{self._default_source_number_digits}}"
+            )
         self._deduplicate_tag_names(i)
         return i
 
-- 
2.43.0


From 7eec98fe337428be6105cf8a684ed743cdb38b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:52 +0000
Subject: [PATCH 31/48] fix: add new patch to %patchlist if that's where the
 last patch is

---
 specfile/specfile.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 5191a7b..839a775 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -28,7 +28,7 @@ from specfile.macros import Macro, Macros
 from specfile.prep import Prep
 from specfile.sections import Section, Sections
 from specfile.sourcelist import Sourcelist
-from specfile.sources import Patches, Sources
+from specfile.sources import ListPatch, Patches, Sources
 from specfile.spec_parser import SpecParser
 from specfile.tags import Tag, Tags
 from specfile.utils import split_lines
@@ -706,6 +706,11 @@ class Specfile:
         """
         with self.patches(default_source_number_digits=number_digits) as patches:
             highest_number = max((p.number for p in patches), default=-1)
+            if number is None and patches and isinstance(patches[-1], ListPatch):
+                patches.append(location)
+                if comment:
+                    patches[-1].comments.extend(comment.splitlines())
+                return
             if number is not None:
                 if number <= highest_number:
                     raise SourceNumberException(
-- 
2.43.0


From d52dbdd29a791153c578f00d7c2a33d172af3f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:52 +0000
Subject: [PATCH 32/48] fix: do not renumber existing sources when inserting a
 source with a higher number

---
 specfile/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index f4f9dd1..c669fa5 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -607,6 +607,10 @@ class Sources(collections.abc.MutableSequence):
                 enumerate(tags), key=lambda t: abs(t[1][0].number - number)
             )
             if source.number < number:
+                # skip sources that would be implicitly renumbered
+                for i0, (ts, _, index0) in enumerate(tags):
+                    if i0 > i and ts._number is not None and ts.number < number:
+                        i, index = i0, index0
                 i += 1
                 index += 1
             name, separator = self._get_tag_format(source, number)
-- 
2.43.0


From eb4f7d71093cc9fd09b9ba733d35e41c6a082c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:43 +0000
Subject: [PATCH 33/48] fix: determine validity of a new source by its actual
 position

---
 specfile/sources.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index c669fa5..5ef8b76 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -470,20 +470,24 @@ class Sources(collections.abc.MutableSequence):
             suffix = f"{number:0{self._default_source_number_digits}}"
         return len(self._tags) if self._tags else 0, f"{self.prefix}{suffix}", ": "
 
-    def _get_tag_validity(self, reference: Optional[TagSource] = None) -> bool:
+    def _get_tag_validity(self, index: int) -> bool:
         """
-        Determines validity of a new source tag based on a reference tag, if specified,
-        or the last tag in the spec file. Defaults to `True`.
+        Determines validity of a new source tag based on its position.
 
         Args:
-            reference: Optional reference tag source.
+            index: Index of the new tag in the list of all tags.
 
         Returns:
             Whether the new source tag is valid or not.
         """
-        if reference is not None:
-            return reference._tag.valid
-        return self._tags[-1].valid if self._tags else True
+        if index < len(self._tags):
+            lines = self._tags[index].comments._preceding_lines
+        else:
+            lines = self._tags._remainder
+        if index == 0 or any(line.startswith("%endif") for line in lines):
+            # the new tag is not going to be part of a condition block
+            return True
+        return self._tags[index - 1].valid
 
     def _deduplicate_tag_names(self, start: int = 0) -> None:
         """
@@ -546,7 +550,7 @@ class Sources(collections.abc.MutableSequence):
                 number = source.number
             if isinstance(source, self.tag_class):
                 name, separator = self._get_tag_format(cast(TagSource, source), number)
-                valid = self._get_tag_validity(cast(TagSource, source))
+                valid = self._get_tag_validity(index)
                 container.insert(
                     index,
                     Tag(  # type: ignore[arg-type]
@@ -565,7 +569,7 @@ class Sources(collections.abc.MutableSequence):
                     SourcelistEntry(  # type: ignore[arg-type]
                         location,
                         Comments(),
-                        container[index - 1].valid,
+                        container[index - 1].valid if index > 0 else True,
                         context=self._context,
                     ),
                 )
@@ -575,7 +579,7 @@ class Sources(collections.abc.MutableSequence):
             )
         else:
             index, name, separator = self._get_initial_tag_setup()
-            valid = self._get_tag_validity()
+            valid = self._get_tag_validity(index)
             self._tags.insert(
                 index,
                 Tag(
@@ -614,11 +618,10 @@ class Sources(collections.abc.MutableSequence):
                 i += 1
                 index += 1
             name, separator = self._get_tag_format(source, number)
-            valid = self._get_tag_validity(source)
         else:
             i = 0
             index, name, separator = self._get_initial_tag_setup(number)
-            valid = self._get_tag_validity()
+        valid = self._get_tag_validity(index)
         self._tags.insert(
             index,
             Tag(name, location, separator, Comments(), valid, context=self._context),
-- 
2.43.0


From 61197e070115e20597be9afcd7c8418a8e805660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:08 +0000
Subject: [PATCH 34/48] fix: recognize extended timestamps with zero-padded day
 of month

---
 specfile/changelog.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 83266ca..ddc7299 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -110,21 +110,21 @@ class ChangelogEntry:
         months = "|".join(MONTHS)
         m = re.search(
             rf"""
-            ({weekdays})     # weekday
+            ({weekdays})       # weekday
             [ ]
-            ({months})       # month
+            ({months})         # month
             [ ]+
-            ([12]?\d|3[01])  # day of month
+            ([012]?\d|3[01])   # day of month
             [ ]
-            ([01]\d|2[0-3])  # hour
+            ([01]\d|2[0-3])    # hour
             :
-            ([0-5]\d)        # minute
+            ([0-5]\d)          # minute
             :
-            ([0-5]\d)        # second
+            ([0-5]\d)          # second
             [ ]
-            \S+              # timezone
+            \S+                # timezone
             [ ]
-            \d{{4}}          # year
+            \d{{4}}            # year
             """,
             self.header,
             re.VERBOSE,
-- 
2.43.0


From 786b4dcc69995a1a2027acfc64f692d7998686c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:13 +0000
Subject: [PATCH 35/48] fix: add correct entries if there are multiple
 %changelog sections

---
 specfile/specfile.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 839a775..80c54b2 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -503,6 +503,9 @@ class Specfile:
                 determines the appropriate value based on the spec file current
                 _%{epoch}_, _%{version}_, and _%{release}_ values.
         """
+        # these are the same for all sections
+        expanded_evr: Optional[str] = None
+        now: Optional[datetime.datetime] = None
         with self.sections() as sections:
             # there could be multiple changelog sections, update all of them
             for section in sections:
@@ -510,20 +513,24 @@ class Specfile:
                     continue
                 if self.contains_autochangelog(section):
                     continue
-                if evr is None:
-                    evr = "%{?epoch:%{epoch}:}%{version}-%{release}"
                 with self.changelog(section) as changelog:
                     if changelog is None:
                         return
-                    evr = self.expand(evr, extra_macros=[("dist", "")])
+                    if expanded_evr is None:
+                        if evr is None:
+                            evr = "%{?epoch:%{epoch}:}%{version}-%{release}"
+                        expanded_evr = self.expand(evr, extra_macros=[("dist", "")])
                     if isinstance(entry, str):
                         entry = [entry]
-                    if timestamp is None:
+                    entry_timestamp = timestamp
+                    if entry_timestamp is None:
+                        if now is None:
+                            now = datetime.datetime.now().astimezone()
                         # honor the timestamp format, but default to date-only
                         if changelog and changelog[-1].extended_timestamp:
-                            timestamp = datetime.datetime.now().astimezone()
+                            entry_timestamp = now
                         else:
-                            timestamp = datetime.datetime.now(
+                            entry_timestamp = now.astimezone(
                                 datetime.timezone.utc
                             ).date()
                     if author is None:
@@ -532,6 +539,7 @@ class Specfile:
                             raise SpecfileException("Failed to auto-detect author")
                     elif email is not None:
                         author += f" <{email}>"
+                        email = None
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
@@ -542,10 +550,10 @@ class Specfile:
                         padding = "0"
                     changelog.append(
                         ChangelogEntry.assemble(
-                            timestamp,
+                            entry_timestamp,
                             author,
                             entry,
-                            evr,
+                            expanded_evr,
                             day_of_month_padding=padding,
                             append_newline=bool(changelog),
                         )
-- 
2.43.0


From 34efc95af94449f85ce16d1cb251c04004e96ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:20 +0000
Subject: [PATCH 36/48] fix: continue guessing packager if a lookup fails or is
 empty

---
 specfile/changelog.py | 50 +++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index ddc7299..db97c9f 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -11,7 +11,7 @@ import shutil
 import subprocess
 from typing import List, Optional, Union, overload
 
-from specfile.exceptions import SpecfileException
+from specfile.exceptions import RPMException, SpecfileException
 from specfile.formatter import formatted
 from specfile.macros import Macros
 from specfile.sections import Section
@@ -365,12 +365,33 @@ class Changelog(UserList[ChangelogEntry]):
 
 
 def _getent_name() -> str:
-    username = getpass.getuser()
-    pwd_struct = pwd.getpwnam(username)
+    try:
+        username = getpass.getuser()
+    except (ImportError, KeyError, OSError):
+        # there is no such account
+        return ""
+    try:
+        pwd_struct = pwd.getpwnam(username)
+    except KeyError:
+        return username
     # Use the plain username if the name field is empty
     return pwd_struct.pw_gecos or username
 
 
+def _git_config(key: str) -> str:
+    try:
+        process = subprocess.run(
+            ["git", "config", key],
+            stdout=subprocess.PIPE,
+            stderr=subprocess.PIPE,
+            universal_newlines=True,
+        )
+    except (OSError, UnicodeDecodeError):
+        # git can't be executed or the value can't be decoded
+        return ""
+    return process.stdout.strip()
+
+
 def guess_packager() -> str:
     """
     Guesses the name and e-mail of a packager to use for changelog entries.
@@ -387,29 +408,22 @@ def guess_packager() -> str:
         A string to use for the changelog entry author.
         If nothing was detected, an empty string is returned.
     """
-    if "RPM_PACKAGER" in os.environ:
+    if os.environ.get("RPM_PACKAGER"):
         return os.environ["RPM_PACKAGER"]
 
-    packager = Macros.expand("%packager")
-    if packager != "%packager":
+    try:
+        packager = Macros.expand("%packager")
+    except RPMException:
+        packager = ""
+    if packager and packager != "%packager":
         return packager
 
     email: str = ""
     fullname: str = ""
 
     if shutil.which("git"):
-        email = subprocess.run(
-            ["git", "config", "user.email"],
-            stdout=subprocess.PIPE,
-            stderr=subprocess.PIPE,
-            universal_newlines=True,
-        ).stdout.strip()
-        fullname = subprocess.run(
-            ["git", "config", "user.name"],
-            stdout=subprocess.PIPE,
-            stderr=subprocess.PIPE,
-            universal_newlines=True,
-        ).stdout.strip()
+        email = _git_config("user.email")
+        fullname = _git_config("user.name")
     if not fullname:
         fullname = _getent_name()
 
-- 
2.43.0


From 532623001b2e8993f3ae9e2878f61d19a47fca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:55 +0000
Subject: [PATCH 37/48] fix: do not duplicate macros when updating a value

---
 specfile/specfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 80c54b2..f759e6e 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -861,6 +861,12 @@ class Specfile:
                 if not m:
                     continue
                 d = m.groupdict()
+                if any(
+                    grp.startswith(SUBSTITUTION_GROUP_PREFIX) and "%" in val
+                    for grp, val in d.items()
+                ):
+                    # avoid duplicating macros that are already present in the value
+                    continue
                 for grp, val in d.items():
                     if grp.startswith(SUBSTITUTION_GROUP_PREFIX):
                         continue
-- 
2.43.0


From 9488d1d7db5c0e0b4a7224cf2fc664733c549b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:59 +0000
Subject: [PATCH 38/48] fix: make sure update_tag() yields the requested value

---
 specfile/specfile.py | 42 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index f759e6e..445b809 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -14,6 +14,7 @@ import rpm
 from specfile.changelog import Changelog, ChangelogEntry, guess_packager
 from specfile.context_management import ContextManager
 from specfile.exceptions import (
+    RPMException,
     SourceNumberException,
     SpecfileException,
     UnterminatedMacroException,
@@ -936,17 +937,44 @@ class Specfile:
             protected_entities: Regular expression specifying protected tags and macro definitions,
                 ensuring their values won't be updated.
         """
+        with self.macro_definitions() as macro_definitions:
+            definitions = [(md.body, md.commented_out) for md in macro_definitions]
         with self.tags() as tags:
+            values = [t.value for t in tags]
             tag = getattr(tags, name)
             original_value = tag.value
             position = tag.get_position(tags)
-        # we can't use update_value() within the context manager, because any changes
-        # made by it to tags or macro definitions would be thrown away
-        updated_value = self.update_value(
-            original_value, value, position, protected_entities=protected_entities
-        )
-        with self.tags() as tags:
-            getattr(tags, name).value = updated_value
+
+        def restore():
+            with self.macro_definitions() as macro_definitions:
+                for md, (body, commented_out) in zip(macro_definitions, definitions):
+                    md.body = body
+                    md.commented_out = commented_out
+            with self.tags() as tags:
+                for t, v in zip(tags, values):
+                    t.value = v
+
+        try:
+            # we can't use update_value() within the context manager, because any changes
+            # made by it to tags or macro definitions would be thrown away
+            updated_value = self.update_value(
+                original_value, value, position, protected_entities=protected_entities
+            )
+            with self.tags() as tags:
+                getattr(tags, name).value = updated_value
+            try:
+                updated = self.expand(updated_value) == self.expand(value)
+            except RPMException:
+                # the updated spec file can't be parsed
+                updated = False
+        except BaseException:
+            restore()
+            raise
+        if not updated:
+            # the requested value can't be reached this way, set it directly
+            restore()
+            with self.tags() as tags:
+                getattr(tags, name).value = value
 
     def update_version(
         self,
-- 
2.43.0


From aebb9806ca832c44dc9ba811a19125e28da95662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:03 +0000
Subject: [PATCH 39/48] fix: make sure bump_release() affects the release

---
 specfile/specfile.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 445b809..cb01e32 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1077,8 +1077,44 @@ class Specfile:
         if self.has_autorelease:
             return
 
+        def get_references(value):
+            try:
+                nodes = ValueParser.flatten(ValueParser.parse(value))
+            except UnterminatedMacroException:
+                return set()
+            return {
+                node.name
+                for node in nodes
+                if isinstance(
+                    node,
+                    (
+                        MacroSubstitution,
+                        EnclosedMacroSubstitution,
+                        ConditionalMacroExpansion,
+                    ),
+                )
+            }
+
         with self.macro_definitions() as macro_definitions:
+            # consider only macro definitions in effect that Release is composed of
+            effective = {
+                md.name: md
+                for md in macro_definitions
+                if md.valid and not md.commented_out
+            }
+            references = set()
+            pending = get_references(self.raw_release)
+            while pending:
+                references.update(pending)
+                pending = {
+                    reference
+                    for name in pending
+                    if name in effective
+                    for reference in get_references(effective[name].body)
+                } - references
             for md in macro_definitions:
+                if md is not effective.get(md.name) or md.name not in references:
+                    continue
                 if md.name.lower() in ["release", "baserelease"]:
                     md.body = self._bump_release_string(md.body)
                     return
-- 
2.43.0


From 8123b53166b54272546cfcd9a78e84b6fbe0fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:31 +0000
Subject: [PATCH 40/48] fix: keep stand-ins for included and loaded files for
 the full parse

---
 specfile/spec_parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 2fd7e6d..a358e8a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -328,15 +328,15 @@ class SpecParser:
             if not self.force_parse:
                 raise
             else:
-                sources = collect_included_sources(content) | collect_loaded_sources(
+                collected_sources = collect_included_sources(
                     content
-                )
+                ) | collect_loaded_sources(content)
                 non_empty_sources = collect_sources_referenced_from_tags(content)
-                if not sources and not non_empty_sources:
+                if not collected_sources and not non_empty_sources:
                     # no point in trying again
                     raise
                 with self._make_dummy_sources(
-                    sources, non_empty_sources
+                    collected_sources, non_empty_sources
                 ) as dummy_sources:
                     if not dummy_sources:
                         raise
@@ -351,7 +351,9 @@ class SpecParser:
                     )
                     # spec.sources contains also previously collected
                     # non empty sources (if any), remove them
-                    sources = {s for s, _, _ in spec.sources} - non_empty_sources
+                    sources = (
+                        collected_sources | {s for s, _, _ in spec.sources}
+                    ) - non_empty_sources
 
         # workaround RPM lua tables feature/bug
         #
-- 
2.43.0


From f7a10d17bec6cb9e1821aa466fe67f118c39365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:36 +0000
Subject: [PATCH 41/48] fix: recognize sources referenced from tags also if
 they are URLs

---
 specfile/spec_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index a358e8a..9dc988a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -352,7 +352,8 @@ class SpecParser:
                     # spec.sources contains also previously collected
                     # non empty sources (if any), remove them
                     sources = (
-                        collected_sources | {s for s, _, _ in spec.sources}
+                        collected_sources
+                        | {get_filename_from_location(s) for s, _, _ in spec.sources}
                     ) - non_empty_sources
 
         # workaround RPM lua tables feature/bug
-- 
2.43.0


From 294de6e30e05884e0bb1c1f02f71dd80d3b87b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:41 +0000
Subject: [PATCH 42/48] fix: report the original error if collected sources are
 outside of sourcedir

---
 specfile/spec_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 9dc988a..09e80c1 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -257,6 +257,13 @@ class SpecParser:
                 except ValueError as e:
                     raise RPMException(stderr=stderr) from e
 
+        def is_in_sourcedir(path):
+            try:
+                return path.parent.samefile(self.sourcedir)
+            except OSError:
+                # one of the directories doesn't exist or is not accessible
+                return False
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -279,7 +286,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(ref))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
@@ -301,7 +308,7 @@ class SpecParser:
                 # even though it failed, populated the macro context
                 source = Path(Macros.expand(arg))
                 # ignore files outside of sourcedir
-                if source.parent.samefile(self.sourcedir):
+                if is_in_sourcedir(source):
                     sources.add(source.name)
             return sources
 
@@ -314,7 +321,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(node.body))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
-- 
2.43.0


From b81cdcf4e618bc339ab1563daa1aa4e20691ec3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:45 +0000
Subject: [PATCH 43/48] fix: report the original error if content can't be
 searched for included files

---
 specfile/spec_parser.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 09e80c1..eb046cd 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -15,7 +15,7 @@ from typing import Any, Dict, Generator, List, Optional, Set, Tuple
 import rpm
 
 from specfile.context_management import capture_stderr
-from specfile.exceptions import RPMException
+from specfile.exceptions import RPMException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.macros import Macros
 from specfile.sections import Section
@@ -269,7 +269,7 @@ class SpecParser:
             sources = set()
             # source references: %SOURCEN, %{SOURCEN}, %{S:N}
             source_ref_regex = re.compile(r"%((?P<b>{)?[?!]*SOURCE\d+(?(b)})|{S:\d+})")
-            for tag in Tags.parse(Section("package", data=content.splitlines())):
+            for tag in Tags.parse(Section("package", data=content.split("\n"))):
                 # we can expand macros here because the first non-build parse,
                 # even though it failed, populated the macro context
                 if Macros.expand(tag.value):
@@ -294,14 +294,14 @@ class SpecParser:
             # collect sources included using %include
             sources = set()
             include_regex = re.compile(r"^\s*%include\s+(.*)$")
-            lines = content.splitlines()
+            lines = content.split("\n")
             while lines:
                 line = lines.pop(0)
                 m = include_regex.match(line)
                 if not m:
                     continue
                 arg = m.group(1)
-                while line.endswith("\\"):
+                while line.endswith("\\") and lines:
                     line = lines.pop(0)
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
@@ -315,7 +315,11 @@ class SpecParser:
         def collect_loaded_sources(content):
             # collect sources loaded using %{load:...}
             sources = set()
-            for node in ValueParser.flatten(ValueParser.parse(content)):
+            try:
+                nodes = ValueParser.flatten(ValueParser.parse(content))
+            except UnterminatedMacroException:
+                return sources
+            for node in nodes:
                 if isinstance(node, BuiltinMacro) and node.name == "load":
                     # we can expand macros here because the first non-build parse,
                     # even though it failed, populated the macro context
-- 
2.43.0


From 870de9c05c28ad97dd3a789b1b9ffa1b3572b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:27 +0000
Subject: [PATCH 44/48] fix: parse also if more than one missing file stops
 parsing

---
 specfile/spec_parser.py | 61 +++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index eb046cd..e272f00 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -339,33 +339,42 @@ class SpecParser:
             if not self.force_parse:
                 raise
             else:
-                collected_sources = collect_included_sources(
-                    content
-                ) | collect_loaded_sources(content)
-                non_empty_sources = collect_sources_referenced_from_tags(content)
-                if not collected_sources and not non_empty_sources:
-                    # no point in trying again
-                    raise
-                with self._make_dummy_sources(
-                    collected_sources, non_empty_sources
-                ) as dummy_sources:
-                    if not dummy_sources:
+                collected_sources: Set[str] = set()
+                non_empty_sources = set()
+                spec = None
+                while not spec:
+                    collected = collect_included_sources(
+                        content
+                    ) | collect_loaded_sources(content)
+                    non_empty = collect_sources_referenced_from_tags(content)
+                    if collected <= collected_sources and non_empty <= non_empty_sources:
+                        # no point in trying again
                         raise
-                    filelist = "\n".join(str(ds) for ds in dummy_sources)
-                    logger.warning(
-                        f"Created dummy sources for nonexistent files:\n{filelist}"
-                    )
-                    tainted = True
-                    # do a non-build parse again with dummy sources
-                    spec = get_rpm_spec(
-                        content, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE
-                    )
-                    # spec.sources contains also previously collected
-                    # non empty sources (if any), remove them
-                    sources = (
-                        collected_sources
-                        | {get_filename_from_location(s) for s, _, _ in spec.sources}
-                    ) - non_empty_sources
+                    collected_sources |= collected
+                    non_empty_sources |= non_empty
+                    with self._make_dummy_sources(
+                        collected_sources, non_empty_sources
+                    ) as dummy_sources:
+                        if not dummy_sources:
+                            raise
+                        filelist = "\n".join(str(ds) for ds in dummy_sources)
+                        logger.warning(
+                            f"Created dummy sources for nonexistent files:\n{filelist}"
+                        )
+                        tainted = True
+                        # do a non-build parse again with dummy sources; it could have
+                        # stopped before another reference could be expanded, in such
+                        # case collect sources once more
+                        with contextlib.suppress(RPMException):
+                            spec = get_rpm_spec(
+                                content, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE
+                            )
+                # spec.sources contains also previously collected
+                # non empty sources (if any), remove them
+                sources = (
+                    collected_sources
+                    | {get_filename_from_location(s) for s, _, _ in spec.sources}
+                ) - non_empty_sources
 
         # workaround RPM lua tables feature/bug
         #
-- 
2.43.0


From f8886d1449e4f60fccb74c5f664fbdd4b84a4845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:41 +0000
Subject: [PATCH 45/48] fix: find sections whose options contain uppercase
 letters by id

---
 specfile/sections.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 072591d..250d5d3 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -122,6 +122,12 @@ class Section(collections.UserList):
             self._delimiter = " "
         return self.normalized_name + self._delimiter + str(self.options)
 
+    @staticmethod
+    def normalize_id(id: str) -> str:
+        """Normalizes section ID. Only name is case insensitive, options are not."""
+        name = re.match(r"\S*", id).group()
+        return name.lower() + id[len(name) :]
+
     @property
     def is_script(self) -> bool:
         """Whether the content of the section is a shell script."""
@@ -173,7 +179,8 @@ class Sections(UserList[Section]):
             data = super().__getattribute__("data")
         except AttributeError:
             return False
-        return any(s.normalized_id == cast(str, id).lower() for s in data)
+        normalized_id = Section.normalize_id(cast(str, id))
+        return any(s.normalized_id == normalized_id for s in data)
 
     def __getattr__(self, id: str) -> Section:
         if id not in self:
@@ -209,8 +216,9 @@ class Sections(UserList[Section]):
         return self.data[self.find(id)]
 
     def find(self, id: str) -> int:
+        normalized_id = Section.normalize_id(id)
         for i, section in enumerate(self.data):
-            if section.normalized_id == id.lower():
+            if section.normalized_id == normalized_id:
                 return i
         raise ValueError
 
-- 
2.43.0


From c9947653e7de1d7731210beb31144c44a98eeb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:20 +0000
Subject: [PATCH 46/48] fix: recognize sections with trailing whitespace in
 their headers

---
 specfile/sections.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 250d5d3..d280e8d 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -116,17 +116,17 @@ class Section(collections.UserList):
 
     @property
     def normalized_id(self) -> str:
-        """Normalized ID of the section. All characters of name are lowercased."""
-        # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
-            self._delimiter = " "
-        return self.normalized_name + self._delimiter + str(self.options)
+        """
+        Normalized ID of the section. All characters of name are lowercased
+        and trailing whitespace is removed.
+        """
+        return self.normalize_id(self.id)
 
     @staticmethod
     def normalize_id(id: str) -> str:
         """Normalizes section ID. Only name is case insensitive, options are not."""
         name = re.match(r"\S*", id).group()
-        return name.lower() + id[len(name) :]
+        return name.lower() + id[len(name) :].rstrip()
 
     @property
     def is_script(self) -> bool:
-- 
2.43.0


From 818006a79ca54c52286e0bc8fe8044cef3bb0d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:57 +0000
Subject: [PATCH 47/48] fix: evaluate strings in conditions like RPM does

---
 specfile/conditions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 8e45b84..ad17b09 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -45,9 +45,12 @@ def resolve_expression(
             # the expansion silently failed
             return False
         try:
+            if int(result) == 0 and '"' in expression:
+                # it could be a string, and those are true unless they are empty
+                return expand(f"%{{expr:!({expression})}}") == "0"
             return int(result) != 0
         except ValueError:
-            return True
+            return result != ""
     elif keyword.endswith("arch"):
         target_cpu = expand("%{_target_cpu}")
         match = any(t for t in expand(expression).split() if t == target_cpu)
-- 
2.43.0


From 15580ed5ecb2641965637351156c76e392aa74df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:29 +0000
Subject: [PATCH 48/48] fix: do not tear macros in a requested value apart

update_value() matched parts of the requested value against macros the
original value is made of, even if that split a macro in the middle, and
then failed with UnterminatedMacroException parsing the halves.
---
 specfile/specfile.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index cb01e32..98fa07c 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -828,6 +828,13 @@ class Specfile:
 
             return traverse(ValueParser.parse(value))
 
+        def is_parseable(value):
+            try:
+                ValueParser.parse(value)
+            except UnterminatedMacroException:
+                return False
+            return True
+
         def update(value, requested_value, position):
             if value == requested_value:
                 # nothing to do
@@ -868,6 +875,9 @@ class Specfile:
                 ):
                     # avoid duplicating macros that are already present in the value
                     continue
+                if not all(is_parseable(val) for val in d.values()):
+                    # a macro in the requested value would be torn apart
+                    continue
                 for grp, val in d.items():
                     if grp.startswith(SUBSTITUTION_GROUP_PREFIX):
                         continue
-- 
2.43.0

