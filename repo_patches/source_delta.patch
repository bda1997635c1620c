From 8e46e98d076dca501cfe02fb11c5d68abd479fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:02 +0000
Subject: [PATCH 01/44] fix: discard a link reference title that is not at its
 line's end

---
 commonmark/inlines.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0aa50d3..cced41d 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -794,17 +794,14 @@ class InlineParser(object):
         # make sure we're at line end:
         at_line_end = True
         if self.match(reSpaceAtEndOfLine) is None:
-            if title == '':
-                at_line_end = False
-            else:
-                # the potential title we found is not at the line end,
-                # but it could still be a legal link reference if we
-                # discard the title
-                title == ''
-                # rewind before spaces
-                self.pos = beforetitle
-                # and instead check if the link URL is at the line end
-                at_line_end = self.match(reSpaceAtEndOfLine) is not None
+            # the potential title we found is not at the line end,
+            # but it could still be a legal link reference if we
+            # discard the title
+            title = ''
+            # rewind before spaces
+            self.pos = beforetitle
+            # and instead check if the link URL is at the line end
+            at_line_end = self.match(reSpaceAtEndOfLine) is not None
 
         if not at_line_end:
             self.pos = startpos
-- 
2.43.0


From 7b1fb8fe49c450aea3b4235d8f38d985c57cf97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:42 +0000
Subject: [PATCH 02/44] fix: decode invalid numeric references to U+FFFD and
 leave unknown entities alone

A reference to a character HTML does not allow (&#1;) vanished, and
before a line ending its empty text node raised an IndexError.  An
unknown name that starts with a legacy entity (&notit;) was decoded.
---
 commonmark/common.py  | 13 ++++++++++++-
 commonmark/inlines.py | 16 ++--------------
 2 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 05b52a1..b05816e 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -47,11 +47,22 @@ XMLSPECIAL = '[&<>"]'
 reXmlSpecial = re.compile(XMLSPECIAL)
 
 
+def unescape_entity(s):
+    """Replace an entity or a numeric character reference."""
+    char = HTMLunescape(s)
+    if s[1] != '#' and char != ';' and char.endswith(';'):
+        # not an entity: HTMLunescape left it alone, or replaced a
+        # prefix of it which is one without semicolon (&notit; &copya;)
+        return s
+    # HTMLunescape drops references to invalid characters
+    return char or '\uFFFD'
+
+
 def unescape_char(s):
     if s[0] == '\\':
         return s[1]
     else:
-        return HTMLunescape(s)
+        return unescape_entity(s)
 
 
 def unescape_string(s):
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index cced41d..cf461b0 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,23 +1,11 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
-import sys
 from commonmark import common
-from commonmark.common import normalize_uri, unescape_string
+from commonmark.common import normalize_uri, unescape_entity, unescape_string
 from commonmark.node import Node
 from commonmark.normalize_reference import normalize_reference
 
-if sys.version_info >= (3, 0):
-    if sys.version_info >= (3, 4):
-        import html
-        HTMLunescape = html.unescape
-    else:
-        from .entitytrans import _unescape
-        HTMLunescape = _unescape
-else:
-    from commonmark import entitytrans
-    HTMLunescape = entitytrans._unescape
-
 # Some regexps used in inline parser:
 
 ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
@@ -708,7 +696,7 @@ class InlineParser(object):
         """Attempt to parse an entity."""
         m = self.match(reEntityHere)
         if m:
-            block.append_child(text(HTMLunescape(m)))
+            block.append_child(text(unescape_entity(m)))
             return True
         else:
             return False
-- 
2.43.0


From d40004b136a2dbc6fd24edcb32a22c702de53893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:48 +0000
Subject: [PATCH 03/44] fix: accept unpaired surrogates in link destinations

---
 commonmark/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonmark/common.py b/commonmark/common.py
index b05816e..1ebd1b9 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -79,6 +79,9 @@ def unescape_string(s):
 def normalize_uri(uri):
     try:
         return quote(uri.encode('utf-8'), safe=str(';/@:+?=&()%#*,'))
+    except UnicodeEncodeError:
+        # unpaired surrogates have no encoding
+        return normalize_uri(re.sub('[\uD800-\uDFFF]', '\uFFFD', uri))
     except UnicodeDecodeError:
         # Python 2 also throws a UnicodeDecodeError, complaining about
         # the width of the "safe" string. Removing this parameter
-- 
2.43.0


From 751cbe83c8955e41d182129b3b5c6373aaa6925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:55 +0000
Subject: [PATCH 04/44] fix: ignore the last blank line created by a final
 carriage return

---
 commonmark/blocks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aeec21d..c2b30c9 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -891,8 +891,8 @@ class Parser(object):
         self.current_line = ''
         lines = re.split(reLineEnding, my_input)
         length = len(lines)
-        if len(my_input) > 0 and my_input[-1] == '\n':
-            # ignore last blank line created by final newline
+        if len(my_input) > 0 and my_input[-1] in '\r\n':
+            # ignore last blank line created by final line ending
             length -= 1
         for i in range(length):
             self.incorporate_line(lines[i])
-- 
2.43.0


From f2efb6c283805499a237c1f4285eb48c8a8b146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:02 +0000
Subject: [PATCH 05/44] fix: only ASCII digits make an ordered list marker

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index c2b30c9..ff07994 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -41,7 +41,7 @@ reThematicBreak = re.compile(
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
-reOrderedListMarker = re.compile(r'^(\d{1,9})([.)])')
+reOrderedListMarker = re.compile(r'^([0-9]{1,9})([.)])')
 reATXHeadingMarker = re.compile(r'^#{1,6}(?:[ \t]+|$)')
 reCodeFence = re.compile(r'^`{3,}(?!.*`)|^~{3,}')
 reClosingCodeFence = re.compile(r'^(?:`{3,}|~{3,})(?= *$)')
-- 
2.43.0


From 7ee79af5ac37fe22d5055dfc732fe3b7a12e8a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:09 +0000
Subject: [PATCH 06/44] fix: h2 to h6 tags start an HTML block, as h1 does

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index ff07994..21bb056 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -18,7 +18,7 @@ reHtmlBlockOpen = [
     re.compile(
         r'^<[/]?(?:address|article|aside|base|basefont|blockquote|body|'
         r'caption|center|col|colgroup|dd|details|dialog|dir|div|dl|dt|'
-        r'fieldset|figcaption|figure|footer|form|frame|frameset|h1|head|'
+        r'fieldset|figcaption|figure|footer|form|frame|frameset|h[1-6]|head|'
         r'header|hr|html|iframe|legend|li|link|main|menu|menuitem|'
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
-- 
2.43.0


From 61e231716b7b0b0f3670e50a325b3c5b196b4429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:17 +0000
Subject: [PATCH 07/44] fix: strip trailing blank lines with tabs from indented
 code

---
 commonmark/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 21bb056..1fcad03 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -356,7 +356,8 @@ class CodeBlock(Block):
             block.literal = rest
         else:
             # indented
-            block.literal = re.sub(r'(\n *)+$', '\n', block.string_content)
+            block.literal = re.sub(
+                r'(\n[ \t]*)+$', '\n', block.string_content)
 
         block.string_content = None
 
-- 
2.43.0


From f4a501ebaaf24b2bc0c9b2e3ca06d59a6b7c82d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:26 +0000
Subject: [PATCH 08/44] fix: no empty paragraph between reference definitions
 and a thematic break

---
 commonmark/blocks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 1fcad03..394ccc2 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -407,7 +407,10 @@ class Paragraph(Block):
                 break
             block.string_content = block.string_content[pos:]
             has_reference_defs = True
-        if has_reference_defs and is_blank(block.string_content):
+        if not block.string_content or \
+                has_reference_defs and is_blank(block.string_content):
+            # string_content is empty if a setext heading line was tried
+            # after nothing but reference definitions
             block.unlink()
 
     @staticmethod
-- 
2.43.0


From a6938a09b98c88e5bc1fe660ce01ca025b51e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:39 +0000
Subject: [PATCH 09/44] fix: no exponential backtracking on link titles with
 backslashes

An escaped character could be matched in two ways, so that an unclosed
title took time exponential in the number of its backslashes, and an
escaped closing quote could close the title.
---
 commonmark/inlines.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index cf461b0..fef8505 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -8,7 +8,6 @@ from commonmark.normalize_reference import normalize_reference
 
 # Some regexps used in inline parser:
 
-ESCAPED_CHAR = '\\\\' + common.ESCAPABLE
 
 rePunctuation = re.compile(
     r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
@@ -39,11 +38,11 @@ rePunctuation = re.compile(
 )
 
 reLinkTitle = re.compile(
-    '^(?:"(' + ESCAPED_CHAR + '|[^"\\x00])*"' +
+    '^(?:"(\\\\[\\s\\S]|[^"\\\\\\x00])*"' +
     '|' +
-    '\'(' + ESCAPED_CHAR + '|[^\'\\x00])*\'' +
+    '\'(\\\\[\\s\\S]|[^\'\\\\\\x00])*\'' +
     '|' +
-    '\\((' + ESCAPED_CHAR + '|[^()\\x00])*\\))')
+    '\\((\\\\[\\s\\S]|[^()\\\\\\x00])*\\))')
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-- 
2.43.0


From 808729f35f8b1850fda2e0dfa6018eafc8b3e1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:47 +0000
Subject: [PATCH 10/44] fix: search emphasis openers down to the bound for the
 same kind of closer

The bound set after a failed search also depends on whether the closer
can open and on its length modulo 3: '_**a*a**' lost its strong emphasis.
---
 commonmark/inlines.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index fef8505..0e3cada 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -344,12 +344,7 @@ class InlineParser(object):
             top['previous'] = bottom
 
     def processEmphasis(self, stack_bottom):
-        openers_bottom = {
-            '_': stack_bottom,
-            '*': stack_bottom,
-            "'": stack_bottom,
-            '"': stack_bottom,
-        }
+        openers_bottom = {}
         odd_match = False
         use_delims = 0
 
@@ -368,8 +363,13 @@ class InlineParser(object):
                 opener = closer.get('previous')
                 opener_found = False
                 closercc = closer.get('cc')
+                # an opener that does not match this closer does not match
+                # a later one if these are the same:
+                closer_kind = (closercc, bool(closer.get('can_open')),
+                               closer['origdelims'] % 3)
+                opener_bottom = openers_bottom.get(closer_kind, stack_bottom)
                 while (opener is not None and opener != stack_bottom and
-                       opener != openers_bottom[closercc]):
+                       opener != opener_bottom):
                     odd_match = (closer.get('can_open') or
                                  opener.get('can_close')) and \
                                  closer['origdelims'] % 3 != 0 and \
@@ -446,13 +446,9 @@ class InlineParser(object):
                         opener['node'].literal = '\u201C'
                     closer = closer['next']
 
-                if not opener_found and not odd_match:
+                if not opener_found:
                     # Set lower bound for future searches for openers:
-                    # We don't do this with odd_match because a **
-                    # that doesn't match an earlier * might turn into
-                    # an opener, and the * might be matched by something
-                    # else.
-                    openers_bottom[closercc] = old_closer['previous']
+                    openers_bottom[closer_kind] = old_closer['previous']
                     if not old_closer['can_open']:
                         # We can remove a closer that can't be an opener,
                         # once we've seen there's no matching opener:
-- 
2.43.0


From 65adc154651e8984e6983f41fe429a4631abb4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:57 +0000
Subject: [PATCH 11/44] fix: link destinations with unbalanced parentheses are
 not destinations

---
 commonmark/inlines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0e3cada..28ada92 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -506,6 +506,8 @@ class InlineParser(object):
                     self.pos += 1
             if self.pos == savepos and c != ')':
                 return None
+            if openparens != 0:
+                return None
             res = self.subject[savepos:self.pos]
             return normalize_uri(unescape_string(res))
         else:
-- 
2.43.0


From 928d3f857765d0668636a71d52f3a9f89797d159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:04 +0000
Subject: [PATCH 12/44] fix: go back to the bracket after an incomplete inline
 link

[foo](bar [baz] took [baz] for the label of [foo].
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 28ada92..6437441 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -609,7 +609,7 @@ class InlineParser(object):
                 if self.spnl() and self.peek() == ')':
                     self.pos += 1
                     matched = True
-            else:
+            if not matched:
                 self.pos = savepos
 
         if not matched:
-- 
2.43.0


From 3e8e27fe416ff3d49f2acbbe1df5c71c4165b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:10 +0000
Subject: [PATCH 13/44] fix: allow tabs around link destinations and titles

---
 commonmark/inlines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 6437441..a10d09c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -58,13 +58,13 @@ reEmailAutolink = re.compile(
 reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
     re.IGNORECASE)
-reSpnl = re.compile(r'^ *(?:\n *)?')
+reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
-reSpaceAtEndOfLine = re.compile(r'^ *(?:\n|$)')
+reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
 reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]')
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
-- 
2.43.0


From bd8f77fe439460b4c163f0a0493e92affc9e4964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:19 +0000
Subject: [PATCH 14/44] fix: a backslash may end a line of a link label

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index a10d09c..45fa979 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -65,7 +65,7 @@ reUnicodeWhitespaceChar = re.compile(r'^\s')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
-reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]')
+reLinkLabel = re.compile(r'^\[(?:[^\\\[\]]|\\.){0,1000}\]', re.DOTALL)
 # Matches a string of non-special characters.
 reMain = re.compile(r'^[^\n`\[\]\\!<&*_\'"]+', re.MULTILINE)
 
-- 
2.43.0


From 533503ac98df23efa5047a5f01bc17394d22a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:27 +0000
Subject: [PATCH 15/44] fix: inline processing instructions may span lines

---
 commonmark/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 1ebd1b9..381c3f5 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -33,7 +33,7 @@ ATTRIBUTE = "(?:" + "\\s+" + ATTRIBUTENAME + ATTRIBUTEVALUESPEC + "?)"
 OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + "\\s*/?>"
 CLOSETAG = "</" + TAGNAME + "\\s*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
-PROCESSINGINSTRUCTION = "[<][?].*?[?][>]"
+PROCESSINGINSTRUCTION = "[<][?][\\s\\S]*?[?][>]"
 DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
-- 
2.43.0


From 231c05cabfbb13b22c53a1446f6da89fd4031778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:35 +0000
Subject: [PATCH 16/44] fix: keep a space written as &#32; at the end of a line

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 45fa979..f212f88 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -723,7 +723,8 @@ class InlineParser(object):
         # assume we're at a \n
         self.pos += 1
         lastc = block.last_child
-        if lastc and lastc.t == 'text' and lastc.literal[-1] == ' ':
+        if lastc and lastc.t == 'text' and \
+                self.subject[self.pos-2:self.pos-1] == ' ':
             linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
             lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
             if linebreak:
-- 
2.43.0


From 96d0ec16beda4f63d941d8aa8bf2d1c6b0016d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:43 +0000
Subject: [PATCH 17/44] fix: a list is not loose because of a blank line in a
 block quote in it

---
 commonmark/blocks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 394ccc2..94c59d6 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -831,6 +831,9 @@ class Parser(object):
             # propagate last_line_blank up through parents:
             cont = container
             while cont:
+                if cont.t == 'block_quote':
+                    # the line starts with >, for it and its parents
+                    last_line_blank = False
                 cont.last_line_blank = last_line_blank
                 cont = cont.parent
 
-- 
2.43.0


From 74a34ad9b94f5715d8995cc3ba7f8d38b7d6e8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:44 +0000
Subject: [PATCH 18/44] fix: no markup in the alt attribute of images

Raw HTML in an image description was written unescaped (or as an
omission comment) into the alt attribute, and so was the softbreak
option; a <br /> there broke the tag.
---
 commonmark/render/html.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index b4ea345..85ac4d3 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -54,7 +54,11 @@ class HtmlRenderer(Renderer):
         self.out(node.literal)
 
     def softbreak(self, node=None, entering=None):
-        self.lit(self.options['softbreak'])
+        if self.disable_tags > 0:
+            # in the alt attribute of an image
+            self.lit('\n')
+        else:
+            self.lit(self.options['softbreak'])
 
     def linebreak(self, node=None, entering=None):
         self.tag('br', [], True)
@@ -184,7 +188,10 @@ class HtmlRenderer(Renderer):
             self.cr()
 
     def html_inline(self, node, entering):
-        if self.options.get('safe'):
+        if self.disable_tags > 0:
+            # in the alt attribute of an image
+            self.out(node.literal)
+        elif self.options.get('safe'):
             self.lit('<!-- raw HTML omitted -->')
         else:
             self.lit(node.literal)
-- 
2.43.0


From fc14f5646b9bb2d94b8e30a46609963865465446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:52 +0000
Subject: [PATCH 19/44] fix: HtmlRenderer leaves the options object of its
 caller alone

It stored the default soft break in it, and in the default argument
shared by all renderers.
---
 commonmark/render/html.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 85ac4d3..d994573 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -20,6 +20,8 @@ def potentially_unsafe(url):
 
 class HtmlRenderer(Renderer):
     def __init__(self, options={}):
+        # a copy: the caller's options object is not ours to change
+        options = dict(options)
         #  by default, soft breaks are rendered as newlines in HTML
         options['softbreak'] = options.get('softbreak') or '\n'
         # set to "<br />" to make them hard breaks
-- 
2.43.0


From d7147d81b66dc2961e424332bbcaa3389462a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:55 +0000
Subject: [PATCH 20/44] fix: parsers do not share their options

An option set on a parser made without options was set for all such
parsers, as they shared the default argument.
---
 commonmark/blocks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 94c59d6..87cd340 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -609,8 +609,9 @@ class Parser(object):
         self.last_matched_container = self.doc
         self.refmap = {}
         self.last_line_length = 0
-        self.inline_parser = InlineParser(options)
-        self.options = options
+        # a copy: parsers made without options must not share the default
+        self.options = dict(options)
+        self.inline_parser = InlineParser(self.options)
 
     def add_line(self):
         """ Add a line to the block at the tip.  We assume the tip
-- 
2.43.0


From ea57daa1b9e80bba09927658d24c6dab1924da08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:11 +0000
Subject: [PATCH 21/44] fix: underline any heading in reStructuredText output

An empty heading and one that starts with emphasis or a link raised an
exception, and a heading with any inline markup was underlined too
short.
---
 commonmark/render/rst.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 45adca3..729ffbe 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -24,6 +24,7 @@ class ReStructuredTextRenderer(Renderer):
     def __init__(self, indent_char=' '):
         self.indent_char = indent_char
         self.indent_length = 0
+        self.title_start = 0
 
     def lit(self, s):
         if s == '\n':
@@ -150,12 +151,24 @@ class ReStructuredTextRenderer(Renderer):
             # Default to the last level if we're in too deep
             heading_char = heading_chars[-1]
 
-        heading_length = len(node.first_child.literal)
-        banner = heading_char * heading_length
-
         if entering:
             self.cr()
+            self.title_start = len(self.buf)
         else:
+            banner = heading_char * self.title_length()
             self.cr()
-            self.out(banner)
-            self.cr()
+            if banner:
+                self.out(banner)
+                self.cr()
+
+    def title_length(self):
+        """ Length of the longest line of the heading just rendered."""
+        indent = self.indent_char * self.indent_length
+        longest = 0
+
+        for line in self.buf[self.title_start:].split('\n'):
+            if line.startswith(indent):
+                line = line[len(indent):]
+            longest = max(longest, len(line))
+
+        return longest
-- 
2.43.0


From 579539a7dfe28615817400651bf1cf3053edc3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:20 +0000
Subject: [PATCH 22/44] fix: indent every line of a code block in
 reStructuredText output

In a list or block quote only its first line was indented under the
container, and characters such as a form feed split its lines.
---
 commonmark/render/rst.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 729ffbe..e8a94ac 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -43,7 +43,10 @@ class ReStructuredTextRenderer(Renderer):
         indent = self.indent_char * indent_length
         new_lines = []
 
-        for line in literal.splitlines():
+        lines = literal.split('\n')
+        if lines[-1] == '':
+            lines.pop()
+        for line in lines:
             new_lines.append(indent + line)
 
         return '\n'.join(new_lines)
@@ -112,8 +115,9 @@ class ReStructuredTextRenderer(Renderer):
         self.out(directive)
         self.cr()
         self.cr()
-        self.out(self.indent_lines(node.literal))
-        self.cr()
+        for line in self.indent_lines(node.literal).split('\n'):
+            self.out(line)
+            self.cr()
 
     def list(self, node, entering):
         if entering:
-- 
2.43.0


From a7bf04135927c5ac8c55d21b8304ae03da4a7654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:27 +0000
Subject: [PATCH 23/44] fix: separate the paragraphs of a list item in
 reStructuredText output

They were run together, the last word of one with the first of the next.
---
 commonmark/render/rst.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index e8a94ac..8df1202 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -74,7 +74,11 @@ class ReStructuredTextRenderer(Renderer):
 
     def paragraph(self, node, entering):
         if node.parent.t == 'item':
-            pass
+            if entering and node.prv:
+                # a blank line between the blocks of an item
+                if self.last_out != '\n':
+                    self.cr()
+                self.cr()
         else:
             self.cr()
 
-- 
2.43.0


From a9ec5ea636537bd5223ec9d2b86efa6cc480ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:06 +0000
Subject: [PATCH 24/44] fix: cmark -o without a file name writes to standard
 output

It raised an exception, as the value of the option was None.
---
 commonmark/cmark.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commonmark/cmark.py b/commonmark/cmark.py
index c6bd438..a370407 100755
--- a/commonmark/cmark.py
+++ b/commonmark/cmark.py
@@ -23,6 +23,7 @@ def main():
         nargs="?",
         type=argparse.FileType('w'),
         default=sys.stdout,
+        const=sys.stdout,
         help="Output HTML/JSON file, defaults to STDOUT")
     parser.add_argument('-a', action="store_true", help="Print formatted AST")
     parser.add_argument('-aj', action="store_true", help="Output JSON AST")
-- 
2.43.0


From a7f926649a3e8724c1025bea252c7602f5c568c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:49 +0000
Subject: [PATCH 25/44] fix: only ASCII letters and white space take part in
 HTML syntax
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

With re.IGNORECASE a-z also matched U+017F, U+212A and dotted and dotless
i, and \s a no-break space, so <ſ> was a tag and <div followed by a
no-break space began an HTML block.
---
 commonmark/blocks.py  | 9 +++++----
 commonmark/common.py  | 5 ++++-
 commonmark/inlines.py | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 87cd340..6d50a24 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -10,7 +10,8 @@ from commonmark.node import Node
 CODE_INDENT = 4
 reHtmlBlockOpen = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'^<(?:script|pre|style)(?:\s|>|$)', re.IGNORECASE),
+    re.compile(
+        r'^<(?:script|pre|style)(?:\s|>|$)', common.ASCII_IGNORECASE),
     re.compile(r'^<!--'),
     re.compile(r'^<[?]'),
     re.compile(r'^<![A-Z]'),
@@ -23,14 +24,14 @@ reHtmlBlockOpen = [
         r'nav|noframes|ol|optgroup|option|p|param|section|source|title|'
         r'summary|table|tbody|td|tfoot|th|thead|title|tr|track|ul)'
         r'(?:\s|[/]?[>]|$)',
-        re.IGNORECASE),
+        common.ASCII_IGNORECASE),
     re.compile(
         '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')\\s*$',
-        re.IGNORECASE),
+        common.ASCII_IGNORECASE),
 ]
 reHtmlBlockClose = [
     re.compile(r'.'),  # dummy for 0
-    re.compile(r'<\/(?:script|pre|style)>', re.IGNORECASE),
+    re.compile(r'<\/(?:script|pre|style)>', common.ASCII_IGNORECASE),
     re.compile(r'-->'),
     re.compile(r'\?>'),
     re.compile(r'>'),
diff --git a/commonmark/common.py b/commonmark/common.py
index 381c3f5..7deaa85 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -38,7 +38,10 @@ DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
 CDATA = '<!\\[CDATA\\[[\\s\\S]*?\\]\\]>'
 HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
     PROCESSINGINSTRUCTION + "|" + DECLARATION + "|" + CDATA + ")"
-reHtmlTag = re.compile('^' + HTMLTAG, re.IGNORECASE)
+# Only ASCII letters and white space count (Python 2 has no such flag, and
+# needs none)
+ASCII_IGNORECASE = re.IGNORECASE | getattr(re, 'ASCII', 0)
+reHtmlTag = re.compile('^' + HTMLTAG, ASCII_IGNORECASE)
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index f212f88..87c6062 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -57,7 +57,7 @@ reEmailAutolink = re.compile(
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
-    re.IGNORECASE)
+    common.ASCII_IGNORECASE)
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-- 
2.43.0


From bce0a073f7c81b7e327c721f754bd7bb37b31139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:56 +0000
Subject: [PATCH 26/44] fix: keep non-ASCII white space at the ends of
 paragraphs

A no-break space, or U+001C to U+001F, at the beginning or end of a
paragraph or heading was removed; only white space as the specification
defines it is.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 87c6062..6b2b7d6 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -852,7 +852,7 @@ class InlineParser(object):
         Parse string content in block into inline children,
         using refmap to resolve references.
         """
-        self.subject = block.string_content.strip()
+        self.subject = block.string_content.strip(' \t\n\x0b\x0c\r')
         self.pos = 0
         self.delimiters = None
         self.brackets = None
-- 
2.43.0


From 33eb4cbbaf22dedf0f77055bb721d87b6291c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:22 +0000
Subject: [PATCH 27/44] fix: white space in reference labels is what the
 specification says

A no-break space at the ends of a label was ignored when matching, and a
form feed or vertical tab inside did not count as white space.
---
 commonmark/normalize_reference.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/commonmark/normalize_reference.py b/commonmark/normalize_reference.py
index d68a3b1..b8354ce 100644
--- a/commonmark/normalize_reference.py
+++ b/commonmark/normalize_reference.py
@@ -107,27 +107,28 @@ def _check_native(tbl):
 
 
 # Hoist version check out of function for performance
-SPACE_RE = re.compile(r'[ \t\r\n]+')
+SPACES = ' \t\r\n\x0b\x0c'
+SPACE_RE = re.compile('[' + SPACES + ']+')
 if _check_native(XLAT):
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).casefold()
+        return SPACE_RE.sub(' ', string[1:-1].strip(SPACES)).casefold()
 elif sys.version_info >= (3,) or sys.maxunicode > 0xffff:
     def normalize_reference(string):
         """
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SPACE_RE.sub(' ', string[1:-1].strip()).translate(XLAT)
+        return SPACE_RE.sub(' ', string[1:-1].strip(SPACES)).translate(XLAT)
 else:
     def _get_smp_regex():
         xls = sorted(x - 0x10000 for x in XLAT if x >= 0x10000)
         xls.append(-1)
         fmt, (dsh, opn, pip, cse) = str('\\u%04x'), str('-[|]')
-        rga, srk, erk = [str(r'[ \t\r\n]+')], 0, -2
+        rga, srk, erk = [str(r'[ \t\r\n\x0b\x0c]+')], 0, -2
         for k in xls:
             new_hir = (erk ^ k) >> 10 != 0
             if new_hir or erk + 1 != k:
@@ -162,4 +163,5 @@ else:
         Normalize reference label: collapse internal whitespace
         to single space, remove leading/trailing whitespace, case fold.
         """
-        return SMP_RE.sub(_subst_handler, string[1:-1].strip()).translate(XLAT)
+        return SMP_RE.sub(
+            _subst_handler, string[1:-1].strip(SPACES)).translate(XLAT)
-- 
2.43.0


From 57e6105101ddb00235fde913524134e09827ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:33 +0000
Subject: [PATCH 28/44] fix: white space and punctuation around emphasis follow
 Unicode

The table of punctuation wrote characters outside the BMP as surrogate
pairs, which never match on Python 3, and was that of an old Unicode
version; \s matches controls that are not Unicode white space.
---
 commonmark/inlines.py | 49 ++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 36 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 6b2b7d6..8cce633 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -1,6 +1,7 @@
 from __future__ import absolute_import, unicode_literals, division
 
 import re
+import unicodedata
 from commonmark import common
 from commonmark.common import normalize_uri, unescape_entity, unescape_string
 from commonmark.node import Node
@@ -9,33 +10,7 @@ from commonmark.normalize_reference import normalize_reference
 # Some regexps used in inline parser:
 
 
-rePunctuation = re.compile(
-    r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~\xA1\xA7\xAB\xB6\xB7\xBB'
-    r'\xBF\u037E\u0387\u055A-\u055F\u0589\u058A\u05BE\u05C0\u05C3'
-    r'\u05C6\u05F3\u05F4\u0609\u060A\u060C\u060D\u061B\u061E\u061F'
-    r'\u066A-\u066D\u06D4\u0700-\u070D\u07F7-\u07F9\u0830-\u083E'
-    r'\u085E\u0964\u0965\u0970\u0AF0\u0DF4\u0E4F\u0E5A\u0E5B\u0F04-\u0F12'
-    r'\u0F14\u0F3A-\u0F3D\u0F85\u0FD0-\u0FD4\u0FD9\u0FDA\u104A-\u104F\u10FB'
-    r'\u1360-\u1368\u1400\u166D\u166E\u169B\u169C\u16EB-\u16ED\u1735\u1736'
-    r'\u17D4-\u17D6\u17D8-\u17DA\u1800-\u180A\u1944\u1945\u1A1E\u1A1F\u1AA0-'
-    r'\u1AA6\u1AA8-\u1AAD\u1B5A-\u1B60\u1BFC-\u1BFF\u1C3B-\u1C3F\u1C7E\u1C7F'
-    r'\u1CC0-\u1CC7\u1CD3\u2010-\u2027\u2030-\u2043\u2045-\u2051\u2053-\u205E'
-    r'\u207D\u207E\u208D\u208E\u2308-\u230B\u2329\u232A\u2768-\u2775\u27C5'
-    r'\u27C6\u27E6-\u27EF\u2983-\u2998\u29D8-\u29DB\u29FC\u29FD\u2CF9-\u2CFC'
-    r'\u2CFE\u2CFF\u2D70\u2E00-\u2E2E\u2E30-\u2E42\u3001-\u3003\u3008-\u3011'
-    r'\u3014-\u301F\u3030\u303D\u30A0\u30FB\uA4FE\uA4FF\uA60D-\uA60F\uA673'
-    r'\uA67E\uA6F2-\uA6F7\uA874-\uA877\uA8CE\uA8CF\uA8F8-\uA8FA\uA8FC\uA92E'
-    r'\uA92F\uA95F\uA9C1-\uA9CD\uA9DE\uA9DF\uAA5C-\uAA5F\uAADE\uAADF\uAAF0'
-    r'\uAAF1\uABEB\uFD3E\uFD3F\uFE10-\uFE19\uFE30-\uFE52\uFE54-\uFE61\uFE63'
-    r'\uFE68\uFE6A\uFE6B\uFF01-\uFF03\uFF05-\uFF0A\uFF0C-\uFF0F\uFF1A\uFF1B'
-    r'\uFF1F\uFF20\uFF3B-\uFF3D\uFF3F\uFF5B\uFF5D\uFF5F-\uFF65]|\uD800[\uDD00-'
-    r'\uDD02\uDF9F\uDFD0]|\uD801\uDD6F|\uD802[\uDC57\uDD1F\uDD3F\uDE50-\uDE58'
-    r'\uDE7F\uDEF0-\uDEF6\uDF39-\uDF3F\uDF99-\uDF9C]|\uD804[\uDC47-\uDC4D'
-    r'\uDCBB\uDCBC\uDCBE-\uDCC1\uDD40-\uDD43\uDD74\uDD75\uDDC5-\uDDC9\uDDCD'
-    r'\uDDDB\uDDDD-\uDDDF\uDE38-\uDE3D\uDEA9]|\uD805[\uDCC6\uDDC1-\uDDD7'
-    r'\uDE41-\uDE43\uDF3C-\uDF3E]|\uD809[\uDC70-\uDC74]|\uD81A[\uDE6E\uDE6F'
-    r'\uDEF5\uDF37-\uDF3B\uDF44]|\uD82F\uDC9F|\uD836[\uDE87-\uDE8B]'
-)
+reASCIIPunctuation = re.compile(r'[!"#$%&\'()*+,\-./:;<=>?@\[\]\\^_`{|}~]')
 
 reLinkTitle = re.compile(
     '^(?:"(\\\\[\\s\\S]|[^"\\\\\\x00])*"' +
@@ -61,7 +36,8 @@ reAutolink = re.compile(
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
-reUnicodeWhitespaceChar = re.compile(r'^\s')
+reUnicodeWhitespaceChar = re.compile(
+    '^[ \t\n\x0c\r\xa0\u1680\u2000-\u200a\u202f\u205f\u3000]')
 reFinalSpace = re.compile(r' *$')
 reInitialSpace = re.compile(r'^ *')
 reSpaceAtEndOfLine = re.compile(r'^[ \t]*(?:\n|$)')
@@ -76,6 +52,11 @@ def text(s):
     return node
 
 
+def is_punctuation(c):
+    return re.match(reASCIIPunctuation, c) is not None or \
+        unicodedata.category(c).startswith('P')
+
+
 def smart_dashes(chars):
     en_count = 0
     em_count = 0
@@ -259,14 +240,10 @@ class InlineParser(object):
         if c_after is None:
             c_after = '\n'
 
-        # Python 2 doesn't recognize '\xa0' as whitespace
-        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after) or \
-            c_after == '\xa0'
-        after_is_punctuation = re.search(rePunctuation, c_after)
-        before_is_whitespace = re.search(
-            reUnicodeWhitespaceChar, c_before) or \
-            c_before == '\xa0'
-        before_is_punctuation = re.search(rePunctuation, c_before)
+        after_is_whitespace = re.search(reUnicodeWhitespaceChar, c_after)
+        after_is_punctuation = is_punctuation(c_after)
+        before_is_whitespace = re.search(reUnicodeWhitespaceChar, c_before)
+        before_is_punctuation = is_punctuation(c_before)
 
         left_flanking = not after_is_whitespace and \
             (not after_is_punctuation or
-- 
2.43.0


From a8b19eebcfb6d6043a39399882dc671df67715f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:28 +0000
Subject: [PATCH 29/44] fix: a script, pre or style tag alone on a line is not
 HTML block 7

<pre/>, <script/> and <style/> began an HTML block, which the
specification excludes.
---
 commonmark/blocks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 6d50a24..ef1753b 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -26,7 +26,8 @@ reHtmlBlockOpen = [
         r'(?:\s|[/]?[>]|$)',
         common.ASCII_IGNORECASE),
     re.compile(
-        '^(?:' + common.OPENTAG + '|' + common.CLOSETAG + ')\\s*$',
+        '^(?:(?!<(?:script|pre|style)/>)' + common.OPENTAG + '|' +
+        common.CLOSETAG + ')\\s*$',
         common.ASCII_IGNORECASE),
 ]
 reHtmlBlockClose = [
-- 
2.43.0


From 12298db3c102f94dd2a58110b1c6128d23574a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:12:35 +0000
Subject: [PATCH 30/44] fix: a list item may begin with reference definitions
 and blank lines

As they leave the item without children, the second blank line after
them ended it, as if it had begun with a blank line.
---
 commonmark/blocks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index ef1753b..aad60cb 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -257,8 +257,10 @@ class Item(Block):
     @staticmethod
     def continue_(parser=None, container=None):
         if parser.blank:
-            if container.first_child is None:
-                # Blank line after empty list item
+            if container.first_child is None and \
+               parser.line_number == container.sourcepos[0][0] + 1:
+                # Blank line after empty list item (one that later has no
+                # children had only link reference definitions)
                 return 1
             else:
                 parser.advance_next_nonspace()
-- 
2.43.0


From de6dc86f03404b4af80726e2632c5c380baf92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:41 +0000
Subject: [PATCH 31/44] fix: a list starting with 01. may interrupt a paragraph

The number was compared as a string.
---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aad60cb..508186f 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -104,7 +104,7 @@ def parse_list_marker(parser, container):
     if m:
         data['type'] = 'bullet'
         data['bullet_char'] = m.group()[0]
-    elif m2 and (container.t != 'paragraph' or m2.group(1) == '1'):
+    elif m2 and (container.t != 'paragraph' or int(m2.group(1)) == 1):
         m = m2
         data['type'] = 'ordered'
         data['start'] = int(m.group(1))
-- 
2.43.0


From 1a615c774816cb2e76ebfd3499258c89a14a5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:04 +0000
Subject: [PATCH 32/44] fix: an opening smart quote is matched once

In 'a 'b' c' the inner opening quote was matched with both closing ones,
and the outer one became an apostrophe.
---
 commonmark/inlines.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 8cce633..a6e78de 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -415,12 +415,14 @@ class InlineParser(object):
                     closer['node'].literal = '\u2019'
                     if opener_found:
                         opener['node'].literal = '\u2018'
+                        self.removeDelimiter(opener)
                     closer = closer['next']
 
                 elif closercc == '"':
                     closer['node'].literal = '\u201D'
                     if opener_found:
                         opener['node'].literal = '\u201C'
+                        self.removeDelimiter(opener)
                     closer = closer['next']
 
                 if not opener_found:
-- 
2.43.0


From 1c5186aa18f63a3ca7aaaf7b86ce5980fbb022ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:30 +0000
Subject: [PATCH 33/44] fix: safe mode looks for unsafe schemes at the start of
 a destination

Only javascript: was anchored, so http://a.b/?file:c lost its
destination.
---
 commonmark/render/html.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index d994573..8309a68 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -8,7 +8,7 @@ from commonmark.render.renderer import Renderer
 
 
 reUnsafeProtocol = re.compile(
-    r'^javascript:|vbscript:|file:|data:', re.IGNORECASE)
+    r'^(?:javascript|vbscript|file|data):', re.IGNORECASE)
 reSafeDataProtocol = re.compile(
     r'^data:image\/(?:png|gif|jpeg|webp)', re.IGNORECASE)
 
-- 
2.43.0


From 74a72de57b21357338a737b9f053f658ec469a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:58 +0000
Subject: [PATCH 34/44] fix: the end column of a block closed on its own line
 is in that line

A fenced code block (at its closing fence) and an HTML block (at its end
condition) were given the length of the line before as end column.
---
 commonmark/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 508186f..a674082 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -330,6 +330,7 @@ class CodeBlock(Block):
                 re.search(reClosingCodeFence, ln[parser.next_nonspace:])
             if match and len(match.group()) >= container.fence_length:
                 # closing fence - we're at end of line, so we can return
+                parser.last_line_length = len(ln)
                 parser.finalize(container, parser.line_number)
                 return 2
             else:
@@ -851,6 +852,7 @@ class Parser(object):
                    re.search(
                        reHtmlBlockClose[container.html_block_type],
                        self.current_line[self.offset:]):
+                    self.last_line_length = len(ln)
                     self.finalize(container, self.line_number)
             elif self.offset < len(ln) and not self.blank:
                 # create a paragraph container for one line
-- 
2.43.0


From 39c5cedf8abe162e2f511dfae7d0197d3923d59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:08 +0000
Subject: [PATCH 35/44] fix: a renderer starts afresh after a call that raised

An exception from inside an image or a container left disable_tags or
indent_length set, and changed what the renderer returned from then on.
---
 commonmark/render/html.py | 5 +++++
 commonmark/render/rst.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 8309a68..33ca6aa 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -31,6 +31,11 @@ class HtmlRenderer(Renderer):
         self.last_out = '\n'
         self.options = options
 
+    def render(self, ast):
+        # an earlier call that raised may have left an image open
+        self.disable_tags = 0
+        return super(HtmlRenderer, self).render(ast)
+
     def escape(self, text):
         return escape_xml(text)
 
diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 8df1202..bc3f7dd 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -26,6 +26,11 @@ class ReStructuredTextRenderer(Renderer):
         self.indent_length = 0
         self.title_start = 0
 
+    def render(self, ast):
+        # an earlier call that raised may have left containers open
+        self.indent_length = 0
+        return super(ReStructuredTextRenderer, self).render(ast)
+
     def lit(self, s):
         if s == '\n':
             indent = ''  # Avoid whitespace if we're just adding a newline
-- 
2.43.0


From 174dfc44f3137941afcc120beb762a9f4c933851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:40 +0000
Subject: [PATCH 36/44] fix: RST separates every block of an item by a blank
 line

A code directive, nested list, quote or heading after the first block of an
item was part of the paragraph before it.
---
 commonmark/render/rst.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index bc3f7dd..9c5538c 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -77,15 +77,21 @@ class ReStructuredTextRenderer(Renderer):
     def strong(self, node, entering):
         self.out('**')
 
-    def paragraph(self, node, entering):
-        if node.parent.t == 'item':
-            if entering and node.prv:
-                # a blank line between the blocks of an item
-                if self.last_out != '\n':
-                    self.cr()
+    def block_start(self, node):
+        """ Every block begins after a newline, and in an item after a
+        blank line if it is not the first."""
+        if node.parent.t == 'item' and node.prv:
+            if self.last_out != '\n':
                 self.cr()
-        else:
+            if self.buf.endswith('\n\n'):
+                return
+        self.cr()
+
+    def paragraph(self, node, entering):
+        if node.parent.t != 'item':
             self.cr()
+        elif entering and node.prv:
+            self.block_start(node)
 
     def link(self, node, entering):
         if entering:
@@ -120,7 +126,7 @@ class ReStructuredTextRenderer(Renderer):
         if language_name:
             directive += ' ' + language_name
 
-        self.cr()
+        self.block_start(node)
         self.out(directive)
         self.cr()
         self.cr()
@@ -130,7 +136,7 @@ class ReStructuredTextRenderer(Renderer):
 
     def list(self, node, entering):
         if entering:
-            self.cr()
+            self.block_start(node)
 
     def item(self, node, entering):
         tagname = '* ' if node.list_data['type'] == 'bullet' else '#. '
@@ -144,6 +150,9 @@ class ReStructuredTextRenderer(Renderer):
 
     def block_quote(self, node, entering):
         if entering:
+            if node.parent.t == 'item' and node.prv and self.last_out != '\n':
+                # the blocks in it begin after a blank line
+                self.cr()
             self.indent_length += 4
         else:
             self.indent_length -= 4
@@ -165,7 +174,7 @@ class ReStructuredTextRenderer(Renderer):
             heading_char = heading_chars[-1]
 
         if entering:
-            self.cr()
+            self.block_start(node)
             self.title_start = len(self.buf)
         else:
             banner = heading_char * self.title_length()
-- 
2.43.0


From 8f12ee3ea17aae8e6344451d3e0fc4d3badbcc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:46 +0000
Subject: [PATCH 37/44] fix: keep the spaces of a blank line beyond a list
 item's indentation

---
 commonmark/blocks.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index a674082..20e0340 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -256,19 +256,19 @@ class Item(Block):
 
     @staticmethod
     def continue_(parser=None, container=None):
-        if parser.blank:
-            if container.first_child is None and \
-               parser.line_number == container.sourcepos[0][0] + 1:
-                # Blank line after empty list item (one that later has no
-                # children had only link reference definitions)
-                return 1
-            else:
-                parser.advance_next_nonspace()
+        if parser.blank and container.first_child is None and \
+           parser.line_number == container.sourcepos[0][0] + 1:
+            # Blank line after empty list item (one that later has no
+            # children had only link reference definitions)
+            return 1
         elif parser.indent >= (container.list_data['marker_offset'] +
                                container.list_data['padding']):
             parser.advance_offset(
                 container.list_data['marker_offset'] +
                 container.list_data['padding'], True)
+        elif parser.blank:
+            # (a longer blank line keeps its other spaces, for the content)
+            parser.advance_next_nonspace()
         else:
             return 1
         return 0
-- 
2.43.0


From 0eaa5176ed3189e24225bce0543535564e1df720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:03 +0000
Subject: [PATCH 38/44] fix: texts of more than 999 characters are no link
 labels

---
 commonmark/inlines.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index a6e78de..e6282a7 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -603,6 +603,9 @@ class InlineParser(object):
                 # contain a bracket. If we know there's a bracket, we
                 # don't even bother checking it.
                 reflabel = self.subject[opener.get('index'):startpos]
+                if len(reflabel) > 1001:
+                    # too long for a link label
+                    reflabel = None
             if n == 0:
                 # If shortcut reference link, rewind before spaces we skipped.
                 self.pos = savepos
-- 
2.43.0


From 509317087198f800bd11c860402ca0a549a14c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:16 +0000
Subject: [PATCH 39/44] fix: inline declarations and CDATA sections begin with
 capital letters

---
 commonmark/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 7deaa85..bca9f92 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -41,7 +41,7 @@ HTMLTAG = "(?:" + OPENTAG + "|" + CLOSETAG + "|" + HTMLCOMMENT + "|" + \
 # Only ASCII letters and white space count (Python 2 has no such flag, and
 # needs none)
 ASCII_IGNORECASE = re.IGNORECASE | getattr(re, 'ASCII', 0)
-reHtmlTag = re.compile('^' + HTMLTAG, ASCII_IGNORECASE)
+reHtmlTag = re.compile('^' + HTMLTAG, getattr(re, 'ASCII', 0))
 reBackslashOrAmp = re.compile(r'[\\&]')
 ESCAPABLE = '[!"#$%&\'()*+,./:;<=>?@[\\\\\\]^_`{|}~-]'
 reEntityOrEscapedChar = re.compile(
-- 
2.43.0


From afddbe222b5e5a4f58d75b5ee105c0f7a377546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:25 +0000
Subject: [PATCH 40/44] fix: unquoted attribute values end at white space only

---
 commonmark/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index bca9f92..9d12f8a 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -23,7 +23,7 @@ ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
 TAGNAME = '[A-Za-z][A-Za-z0-9-]*'
 ATTRIBUTENAME = '[a-zA-Z_:][a-zA-Z0-9:._-]*'
-UNQUOTEDVALUE = "[^\"'=<>`\\x00-\\x20]+"
+UNQUOTEDVALUE = "[^\"'=<>`\\s]+"
 SINGLEQUOTEDVALUE = "'[^']*'"
 DOUBLEQUOTEDVALUE = '"[^"]*"'
 ATTRIBUTEVALUE = "(?:" + UNQUOTEDVALUE + "|" + SINGLEQUOTEDVALUE + \
-- 
2.43.0


From f8192fd0b1c6ca61ad8eb00ed6584506c34774c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:32 +0000
Subject: [PATCH 41/44] fix: no control characters in link destinations without
 brackets

---
 commonmark/inlines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index e6282a7..f51382c 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -34,6 +34,7 @@ reAutolink = re.compile(
     r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
     common.ASCII_IGNORECASE)
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
+reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
 reWhitespaceChar = re.compile(r'^^[ \t\n\x0b\x0c\x0d]')
 reWhitespace = re.compile(r'[ \t\n\x0b\x0c\x0d]+')
 reUnicodeWhitespaceChar = re.compile(
@@ -479,7 +480,7 @@ class InlineParser(object):
                     else:
                         self.pos += 1
                         openparens -= 1
-                elif re.search(reWhitespaceChar, c):
+                elif re.search(reSpaceOrControlChar, c):
                     break
                 else:
                     self.pos += 1
-- 
2.43.0


From 8bafc3f873f3dac11925bc224cd9e4f703e3c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:38 +0000
Subject: [PATCH 42/44] fix: no U+007F in autolinks, it is a control character

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index f51382c..0f7f120 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -31,7 +31,7 @@ reEmailAutolink = re.compile(
     r"(?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?"
     r"(?:\.[a-zA-Z0-9](?:[a-zA-Z0-9-]{0,61}[a-zA-Z0-9])?)*)>")
 reAutolink = re.compile(
-    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20]*>',
+    r'^<[A-Za-z][A-Za-z0-9.+-]{1,31}:[^<>\x00-\x20\x7f]*>',
     common.ASCII_IGNORECASE)
 reSpnl = re.compile(r'^[ \t]*(?:\n[ \t]*)?')
 reSpaceOrControlChar = re.compile(r'^[\x00-\x20\x7f]')
-- 
2.43.0


From cd1355a14d04be690c476f61359f5c2702ce4932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:46 +0000
Subject: [PATCH 43/44] fix: info strings lose the white space of the
 specification only

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 20e0340..49471f2 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -357,7 +357,7 @@ class CodeBlock(Block):
             newline_pos = content.index('\n')
             first_line = content[0:newline_pos]
             rest = content[newline_pos + 1:]
-            block.info = unescape_string(first_line.strip())
+            block.info = unescape_string(first_line.strip(' \t\n\x0b\x0c\r'))
             block.literal = rest
         else:
             # indented
-- 
2.43.0


From 936d89f4067bf54bd04e0ae53a3117ee8910e474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:35:52 +0000
Subject: [PATCH 44/44] fix: a numeric reference is the character of its number

---
 commonmark/common.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 9d12f8a..ac45500 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -52,13 +52,18 @@ reXmlSpecial = re.compile(XMLSPECIAL)
 
 def unescape_entity(s):
     """Replace an entity or a numeric character reference."""
+    if s[1] == '#':
+        code = int(s[3:-1], 16) if s[2] in 'xX' else int(s[2:-1])
+        if code == 0 or 0xD800 <= code <= 0xDFFF or code > 0x10FFFF:
+            return '\uFFFD'
+        # (chr is limited in narrow builds of Python 2)
+        return ('\\U%08x' % code).encode('ascii').decode('unicode-escape')
     char = HTMLunescape(s)
-    if s[1] != '#' and char != ';' and char.endswith(';'):
+    if char != ';' and char.endswith(';'):
         # not an entity: HTMLunescape left it alone, or replaced a
         # prefix of it which is one without semicolon (&notit; &copya;)
         return s
-    # HTMLunescape drops references to invalid characters
-    return char or '\uFFFD'
+    return char
 
 
 def unescape_char(s):
-- 
2.43.0

