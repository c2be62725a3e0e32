From a847bba59ce1376bb553548c625f9c46b90cfad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 01/60] fix: honour the parser's width argument

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 66a705d..edfad85 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -373,7 +373,7 @@ class GopherHTMLParser(HTMLParser):
         else:
             # TODO: Maybe a default top margin as well?
             self._box = Box(
-                width=67
+                width=width
             )
         self._output_format = output_format
         self._link_placement = link_placement
-- 
2.43.0


From 4db92e84c63121d8fce91be1183dc71fd9fac9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 02/60] fix: reset the preformatted state with the parser

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index edfad85..7a0dfec 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -632,3 +632,4 @@ class GopherHTMLParser(HTMLParser):
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
+        self._in_pre = False
-- 
2.43.0


From 10f6ea0c7ea09fdcde198fd049ee57c1671cbe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:06 +0000
Subject: [PATCH 03/60] fix: number ordered list items by element, not by node

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7ea2f0a..383ea94 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1092,7 +1092,7 @@ class OrderedListItemRenderer(ListItemRenderer):
         super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.children.index(tag) * step) + start_index
+        return (tag.parent.tag_children().index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From fc5c7c305b2e60f25a65642cc819bd0662018ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 04/60] fix: treat an attribute without a value as an empty one

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7a0dfec..2177a2a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -35,7 +35,7 @@ class TagParser(object):
         self.classes = []
         self.id = None
         if attrs is not None:
-            self.attrs = dict(attrs)
+            self.attrs = {name: '' if value is None else value for name, value in attrs}
             self.classes = self.__extract_classes()
             self.id = self.attrs.get('id', None)
         self.renderer = None
-- 
2.43.0


From 4652ece6af52ae9b498b122bac330879e2f9cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:28 +0000
Subject: [PATCH 05/60] fix: treat a missing link target as an empty one

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 2177a2a..dfee5f8 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -119,12 +119,12 @@ class LinkParser(TagParser):
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
-            self.href = self.attrs.get('href', None)
+            self.href = self.attrs.get('href', '')
             self.gopher_link = self._parse_href()
         elif tag == 'img':
             # If set, this will be used as the link description
             self.title = self.attrs.get('alt', None)
-            self.href = self.attrs.get('src', None)
+            self.href = self.attrs.get('src', '')
             self.gopher_link = self._parse_href()
 
     # TODO: This needs a lot more work to be comprehensive
-- 
2.43.0


From e32c72ad5300363fc829a78a7c8fe439f70f82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:29 +0000
Subject: [PATCH 06/60] fix: apply rule settings to links rendered by
 link_render

---
 gopher_render/_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index dfee5f8..9358bb0 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -116,6 +116,7 @@ class LinkParser(TagParser):
             **context
         )
         self.link_renderer = None
+        self.link_renderer_settings = None
         if tag == 'a':
             # If set, this will be used as the link description
             self.title = self.attrs.get('title', None)
@@ -226,10 +227,10 @@ class LinkParser(TagParser):
             renderer = self.link_renderer
             renderer_settings = self.link_renderer_settings
 
-        render_inst = renderer(self, **render_context)
         if renderer_settings is not None:
             render_context['settings'] = renderer_settings
 
+        render_inst = renderer(self, **render_context)
         try:
             box = render_inst.box
         except AttributeError:
-- 
2.43.0


From faee5444162bade39fb2f19f2b3101a7433d88db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 07/60] fix: treat link targets that are not valid URLs as web
 links

---
 gopher_render/_parser.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 9358bb0..6ad12fa 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -152,21 +152,27 @@ class LinkParser(TagParser):
         Parse the href of the link and return a dictionary containing the
         elements of a gophermap link
         """
-        parsed = urlparse(self.href)
+        web_link = dict(
+            type='h',
+            selector="URL:{}".format(self.href),
+            host=self._context['gopher_host'],
+            port=self._context['gopher_port'],
+        )
+        try:
+            parsed = urlparse(self.href)
+            host, port = parsed.hostname, parsed.port
+        except ValueError:
+            # Not a valid URL
+            return web_link
         if parsed.scheme in ("http", "https"):
-            return dict(
-                type='h',
-                selector="URL:{}".format(self.href),
-                host=self._context['gopher_host'],
-                port=self._context['gopher_port'],
-            )
+            return web_link
         elif parsed.scheme == 'gopher':
             # Absolute gopher url
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=parsed.hostname,
-                port=parsed.port,
+                host=host,
+                port=port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
@@ -178,12 +184,7 @@ class LinkParser(TagParser):
             )
         else:
             # Unknown protocol: try it as a web link
-            return dict(
-                type='h',
-                selector="URL:{}".format(self.href),
-                host=self._context['gopher_host'],
-                port=self._context['gopher_port'],
-            )
+            return web_link
 
     def assign_renderer(self, renderer):
         try:
-- 
2.43.0


From 899ceeb94a6798a4a3b448177cb91b3f29047464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 08/60] fix: default the port of gopher links to 70

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 6ad12fa..8a89915 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -172,7 +172,7 @@ class LinkParser(TagParser):
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
                 host=host,
-                port=port,
+                port=70 if port is None else port,
             )
         elif parsed.scheme == '':
             # Relative URL - interpret as a relative gopher link
-- 
2.43.0


From 3208a3659e06914012f9d013149e0f27fdf79570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:31 +0000
Subject: [PATCH 09/60] fix: guess link types from the last segment of the
 path, ignoring case

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 8a89915..c960b6a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -130,7 +130,7 @@ class LinkParser(TagParser):
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-        p = path.rpartition('.')
+        p = path.rpartition('/')[2].lstrip('.').lower().rpartition('.')
         if p[0] == "":
             # No file extension, so gopher menu?
             return 1
-- 
2.43.0


From 224a9435b71d203bfc34baa7704200817fd5b622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 10/60] fix: use the configured host for gopher links without
 one

---
 gopher_render/_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index c960b6a..bfc63d0 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -171,7 +171,7 @@ class LinkParser(TagParser):
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-                host=host,
+                host=host or self._context['gopher_host'],
                 port=70 if port is None else port,
             )
         elif parsed.scheme == '':
-- 
2.43.0


From be47a49eef8a5a40cf2f2fbe066ef073df8f538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:56 +0000
Subject: [PATCH 11/60] fix: let links outside any element be listed after the
 document

---
 gopher_render/_parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index bfc63d0..afd8c5a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -288,6 +288,7 @@ class DocumentParser(object):
     """
     def __init__(self):
         self.children = []
+        self._pending_links = []
 
     def tag_children(self):
         """
@@ -298,8 +299,12 @@ class DocumentParser(object):
     def append(self, tag):
         self.children.append(tag)
 
+    def add_pending_link(self, link):
+        self._pending_links.append(link)
+
     def reset(self):
         self.children = []
+        self._pending_links = []
 
 
 RendererMapping = namedtuple('RendererMapping', 'selector, renderer')
@@ -605,9 +610,10 @@ class GopherHTMLParser(HTMLParser):
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
 
-        if self._link_placement == 'footer' and len(self._footer_pending_links) > 0:
+        extracted_links = self.tree._pending_links + self._footer_pending_links
+        if len(extracted_links) > 0:
             self._parsed.append("\n")
-            for l in self._footer_pending_links:
+            for l in extracted_links:
                 self._parsed.append(l.link_render(self._box))
 
         # TODO: Some variation here within our box model:
-- 
2.43.0


From a4d8f4dd51213628268596d08e1dff3ec8b29cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:22 +0000
Subject: [PATCH 12/60] fix: give image references their alternative text

---
 gopher_render/_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index afd8c5a..29b46ef 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -127,6 +127,7 @@ class LinkParser(TagParser):
             self.title = self.attrs.get('alt', None)
             self.href = self.attrs.get('src', '')
             self.gopher_link = self._parse_href()
+            self._context['title'] = self.title
 
     # TODO: This needs a lot more work to be comprehensive
     def _guess_type(self, path):
-- 
2.43.0


From 8002d3a1a75a2fc443a8892c45125d78c311757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 13/60] fix: support every an+b argument of nth-child and
 nth-last-child

---
 gopher_render/_selectors.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index de6e5fa..a2a659d 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -10,6 +10,7 @@ from cssselect.parser import (
     Attrib,
     Hash,
     CombinedSelector,
+    parse_series,
 )
 
 
@@ -175,18 +176,30 @@ def _combination_matches(tag, selector):
 
 # Pseudo Classes
 
+def _series_matches(position, arguments):
+    """
+    Determine if a (one-based) position is part of the an+b series given by
+    the arguments of an nth- function.
+    """
+    try:
+        a, b = parse_series(arguments)
+    except ValueError:
+        return False
+    if a == 0:
+        return position == b
+    n, remainder = divmod(position - b, a)
+    return remainder == 0 and n >= 0
+
+
 def _nth_child_matches(tag, selector):
     if not hasattr(tag, 'parent') or tag.parent is None:
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if not _series_matches(tag_children.index(tag) + 1, selector.arguments):
         return False
-    return tag_children[n - 1] is tag and _selector_matches(tag, selector.selector)
+    return _selector_matches(tag, selector.selector)
 
 
 def _nth_last_child_matches(tag, selector):
@@ -194,13 +207,10 @@ def _nth_last_child_matches(tag, selector):
         return False
     if hasattr(tag, 'data'):
         return False
-    # A lot of ways this could fail!
-    # TODO: Apparently this can take arguments like 'odd', 'even', '5n' (every 5th element)
-    n = int(selector.arguments[0].value)
     tag_children = tag.parent.tag_children()
-    if n > len(tag_children):
+    if not _series_matches(len(tag_children) - tag_children.index(tag), selector.arguments):
         return False
-    return tag_children[-n] is tag and _selector_matches(tag, selector.selector)
+    return _selector_matches(tag, selector.selector)
 
 
 def _first_child_matches(tag, selector):
-- 
2.43.0


From 575a6e1343cae422b3fdad6422ddd232b1d1e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:23 +0000
Subject: [PATCH 14/60] fix: never match elements by pseudo-element selectors

---
 gopher_render/_selectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index a2a659d..136c4ce 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -335,7 +335,8 @@ def tag_matches(tag, selector):
     matched = False
     best_specificity = None
     for s in selector:
-        is_match = _selector_matches(tag, s.parsed_tree)
+        # Pseudo-elements are not supported
+        is_match = s.pseudo_element is None and _selector_matches(tag, s.parsed_tree)
         if is_match:
             if _more_specific(s.specificity(), best_specificity):
                 matched = True
-- 
2.43.0


From 6847814a565f8a126c89f160eda9087b48548312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 15/60] fix: match nothing by an attribute substring selector
 with an empty value

---
 gopher_render/_selectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 136c4ce..5d4e7a4 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -151,6 +151,9 @@ def _attribute_matches(tag, selector):
             return selector.value in split_val
         if selector.operator == '|=':
             return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
+        if not selector.value:
+            # No substring test matches an empty value
+            return False
         if selector.operator == '^=':
             return attr_val.startswith(selector.value)
         if selector.operator == '$=':
-- 
2.43.0


From 7c12a96d68e97832e027a509564566298687a050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:24 +0000
Subject: [PATCH 16/60] fix: treat every void element as closed

---
 gopher_render/_parser.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 29b46ef..19f6f37 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -23,6 +23,13 @@ from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer,
 from .rendering import AnsiEscapeCodeRenderer
 
 
+# Elements that never have any content, nor an end tag.
+VOID_ELEMENTS = (
+    'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta',
+    'param', 'source', 'track', 'wbr',
+)
+
+
 # TODO: Maybe this class should do more actual parsing? Or just rename to Tag
 class TagParser(object):
 
@@ -30,7 +37,7 @@ class TagParser(object):
         self.tag = tag
         self.parent = parent
         self.children = []
-        self.closed = tag in ('br', 'img')
+        self.closed = tag in VOID_ELEMENTS
         self.attrs = {}
         self.classes = []
         self.id = None
@@ -525,8 +532,8 @@ class GopherHTMLParser(HTMLParser):
             self.tree.append(t)
 
     def handle_endtag(self, tag):
-        if tag in ('br', 'img'):
-            # br and img tags are inherently self-closing, so if we encounter an end tag
+        if tag in VOID_ELEMENTS:
+            # Void elements such as br and img are inherently self-closing, so if we encounter an end tag
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-- 
2.43.0


From 3bdf46636b49e1b05ba65d9813b694d82f6bd61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:25 +0000
Subject: [PATCH 17/60] fix: determine preformatted text by the open elements

---
 gopher_render/_parser.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 19f6f37..bf5b6a4 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -467,7 +467,6 @@ class GopherHTMLParser(HTMLParser):
         self._extracted_link_renderer_map = RendererMap(self.extracted_link_renderers)
         self._next_link_number = 1
         self._footer_pending_links = []
-        self._in_pre = False
         self._optimise = optimise
 
     def _get_top(self):
@@ -497,8 +496,6 @@ class GopherHTMLParser(HTMLParser):
     def handle_starttag(self, tag, attrs):
         parent = self._get_top() or self.tree
         t = None
-        if tag == 'pre':
-            self._in_pre = True
         if tag in ('a', 'img'):
             t = LinkParser(
                 tag,
@@ -537,8 +534,6 @@ class GopherHTMLParser(HTMLParser):
             # we can just ignore it. I believe <br/> produces endtag calls.
             return
         top = self._get_top()
-        if tag == 'pre':
-            self._in_pre = False
         if not top:
             print("Unsupported or mismatched end tag, ignoring: " + tag)
             return
@@ -562,7 +557,8 @@ class GopherHTMLParser(HTMLParser):
         #     if len(data) == 0 or data.isspace():
         #         return
         parent = self._get_top()
-        d = DataParser(parent, data, in_pre=self._in_pre)
+        in_pre = any(t.tag == 'pre' for t in self._tag_stack)
+        d = DataParser(parent, data, in_pre=in_pre)
         if parent:
             parent.children.append(d)
         else:
@@ -648,4 +644,3 @@ class GopherHTMLParser(HTMLParser):
         self.tree = DocumentParser()
         self._next_link_number = 1
         self._footer_pending_links = []
-        self._in_pre = False
-- 
2.43.0


From 564ea8ce3adeb1347221a564f855b8ed3db3b015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 18/60] fix: normalise adjacent pieces of text as one

---
 gopher_render/_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index bf5b6a4..b20286c 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -261,6 +261,7 @@ class LinkParser(TagParser):
 class DataParser(TagParser):
     def __init__(self, parent, data, **context):
         super().__init__(None, parent, None, **context)
+        self.source = data
         if not context['in_pre']:
             # This attempts to remove extraneous formatting internal to the data
             # but does not remove whitespace from the start or end of the data
@@ -558,6 +559,11 @@ class GopherHTMLParser(HTMLParser):
         #         return
         parent = self._get_top()
         in_pre = any(t.tag == 'pre' for t in self._tag_stack)
+        siblings = (parent or self.tree).children
+        if siblings and isinstance(siblings[-1], DataParser):
+            # The same text, in pieces: it was interrupted by a comment, by an
+            # ignored end tag or by the end of the fed data.
+            data = siblings.pop().source + data
         d = DataParser(parent, data, in_pre=in_pre)
         if parent:
             parent.children.append(d)
-- 
2.43.0


From 96443145127a9f36b1c2f5533518dc0c4094030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:26 +0000
Subject: [PATCH 19/60] fix: determine list item ordinals from the complete
 settings

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 383ea94..c1cc7d3 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1077,11 +1077,12 @@ class OrderedListItemRenderer(ListItemRenderer):
         step=1,
     )
 
-    def __init__(self, tag, **kwargs):
+    def _adjust_settings(self):
+        super()._adjust_settings()
         # Determine the ordinal and prepare a template based on it before the
         # box gets generated, otherwise the width will be incorrect.
         self.order = self._get_ordinal(
-            tag,
+            self.tag,
             self.settings.start_index,
             self.settings.step,
         )
@@ -1089,7 +1090,6 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.order,
             '{}'
         )
-        super().__init__(tag, **kwargs)
 
     def _get_ordinal(self, tag, start_index, step):
         return (tag.parent.tag_children().index(tag) * step) + start_index
-- 
2.43.0


From fc75914904904b34138de7b73b873f8de761f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:27 +0000
Subject: [PATCH 20/60] fix: keep the settings of rules that match only the
 default renderer

---
 gopher_render/_parser.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index b20286c..a9c9576 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -324,7 +324,8 @@ class RendererMap(object):
     Provides a mapping of CSS selectors to Renderer specifications.
     """
 
-    def __init__(self, renderer_dict):
+    def __init__(self, renderer_dict, default=None):
+        self._default = default
         self._map = []
         for key in renderer_dict:
             selector = cssselect.parse(key)
@@ -355,6 +356,13 @@ class RendererMap(object):
                 renderer = r
             if s is not None:
                 renderer_settings.update(s)
+        if not renderer:
+            renderer = self._default
+            try:
+                renderer, default_settings = renderer
+                renderer_settings = {**default_settings, **renderer_settings}
+            except TypeError:
+                pass
         if not renderer:
             return None
         return (renderer, renderer_settings)
@@ -464,8 +472,11 @@ class GopherHTMLParser(HTMLParser):
         self.extracted_link_renderers.update(extracted_link_renderers)
         self._default_renderer = self.renderers['']
         del self.renderers['']
-        self._renderer_map = RendererMap(self.renderers)
-        self._extracted_link_renderer_map = RendererMap(self.extracted_link_renderers)
+        self._renderer_map = RendererMap(self.renderers, self._default_renderer)
+        self._extracted_link_renderer_map = RendererMap(
+            self.extracted_link_renderers,
+            self.extracted_link_renderers['a']
+        )
         self._next_link_number = 1
         self._footer_pending_links = []
         self._optimise = optimise
-- 
2.43.0


From d17c6036546c55f9fb5a43207bbe11eec4eb42f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 21/60] fix: let a derived renderer restate the settings of an
 ancestor

---
 gopher_render/rendering.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index c1cc7d3..5105ced 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -303,8 +303,7 @@ class Renderer(metaclass=_RendererMeta):
         all_bases = []
         for klass in all_classes[::-1]:
             if hasattr(klass, 'settings'):
-                if klass.settings not in all_bases:
-                    all_bases.append(klass.settings)
+                all_bases.append(klass.settings)
         for base in all_bases:
             s.update(base)
 
-- 
2.43.0


From 5ab83aad8af243a8650bd2af06941fa2119c7498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 22/60] fix: account for everything around a box in its widths

---
 gopher_render/rendering.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 5105ced..b985f8a 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -132,9 +132,9 @@ class Box(object):
         self.total_border = border[:]
         self.line_template = line_template
         self.line_template_padding = 0
-        self.total_line_template_padding = 0
         if self.line_template:
             self.line_template_padding = _get_template_width(self.line_template)
+        self.total_line_template_padding = self.line_template_padding
         self.parent = parent
         # If a parent was provided, its width overrides the provided width
         # and its margins are added to the provided margins to give total margins
@@ -172,7 +172,8 @@ class Box(object):
             return self.width - (
                 self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
                 self.total_padding[BoxSide.LEFT] + self.total_padding[BoxSide.RIGHT] +
-                self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT]
+                self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
+                (self.total_line_template_padding - self.line_template_padding)
             )
         return locals()
     inner_width = property(**inner_width())
@@ -182,20 +183,14 @@ class Box(object):
         def fget(self):
             # This has to include the width of the local line template
             # but exclude any added by further up the hierarchy.
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT] +
-                self.total_border[BoxSide.LEFT] + self.total_border[BoxSide.RIGHT] +
-                (self.total_line_template_padding - self.line_template_padding)
-            )
+            return self.inner_width + self.padding[BoxSide.LEFT] + self.padding[BoxSide.RIGHT]
         return locals()
     padded_width = property(**padded_width())
 
     def bordered_width():
-        doc = "The width of the element including the padding."
+        doc = "The width of the element including the padding and border."
         def fget(self):
-            return self.width - (
-                self.total_margin[BoxSide.LEFT] + self.total_margin[BoxSide.RIGHT]
-            )
+            return self.padded_width + self.border[BoxSide.LEFT] + self.border[BoxSide.RIGHT]
         return locals()
     bordered_width = property(**bordered_width())
 
-- 
2.43.0


From e25ac0902175c6ec83d05773fe55d72e4b388ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 23/60] fix: ignore escape sequences when justifying, padding
 and underlining

---
 gopher_render/rendering.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index b985f8a..7667665 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -14,9 +14,9 @@ def full_justify(text, width, *args, **kwargs):
     lines = textwrap.wrap(text, width, *args, **kwargs)
     out_lines = []
     for line in lines[:-1]:
-        orig_len = len(line)
+        orig_len = textwrap._len(line)
         ls = line.lstrip()
-        indent = ' ' * (orig_len - len(ls))
+        indent = ' ' * (len(line) - len(ls))
         padding_spaces = width - orig_len
         rs = ls.rstrip()
         #padding_spaces = len(ls) - len(rs)
@@ -61,13 +61,13 @@ def center_justify(text, width, *args, **kwargs):
 def center(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.center(width, *args, **kwargs)
+    return text.center(width + len(text) - textwrap._len(text), *args, **kwargs)
 
 
 def right(text, width, *args, **kwargs):
     if not width:
         return _noop(text)
-    return text.rjust(width, *args, **kwargs)
+    return text.rjust(width + len(text) - textwrap._len(text), *args, **kwargs)
 
 
 justifications = {
@@ -437,7 +437,7 @@ class BlockRenderer(Renderer):
                 borders[BoxSide.LEFT],
                 ' ' * box.padding[BoxSide.LEFT],
                 l,
-                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + len(l))),
+                ' ' * (box.padded_width - (box.padding[BoxSide.LEFT] + textwrap._len(l))),
                 borders[BoxSide.RIGHT]
             ) for l in lines
         ]
@@ -505,7 +505,7 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else len(inner)
+            underline_len = width if settings.underline_full else textwrap._len(inner)
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From f5b742644213778967f466952bf0a750f3dbcc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:47 +0000
Subject: [PATCH 24/60] fix: never split an escape sequence when breaking a
 long word

---
 gopher_render/_textwrap.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 17a3cab..772b300 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -27,12 +27,44 @@ def _len(obj):
     return len(actual)
 
 
+def _cut(text, width):
+    """
+    Split the text after the given number of visible characters.
+    """
+    end = 0
+    while end < len(text):
+        escape = _escape_regex.match(text, end)
+        if escape:
+            end = escape.end()
+        elif width > 0:
+            end += 1
+            width -= 1
+        else:
+            break
+    return text[:end], text[end:]
+
+
 class AnsiAwareTextWrapper(TextWrapper):
     """
     This TextWrapper subclass ignores ANSI escape sequences when determining
     the length of wrapped lines.
     """
 
+    def _handle_long_word(self, reversed_chunks, cur_line, cur_len, width):
+        """
+        Break an overlong chunk at the available width. Escape sequences take
+        up no space and are never broken.
+        """
+        if not _escape_regex.search(reversed_chunks[-1]):
+            return super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
+        space_left = 1 if width < 1 else width - cur_len
+        if self.break_long_words:
+            head, tail = _cut(reversed_chunks[-1], space_left)
+            cur_line.append(head)
+            reversed_chunks[-1] = tail
+        elif not cur_line:
+            cur_line.append(reversed_chunks.pop())
+
     def _wrap_chunks(self, chunks):
         """
         An exact reimplementation of the method from the base class, but using
-- 
2.43.0


From b9a5611808293a05925d56991b62fe2797c221dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:21 +0000
Subject: [PATCH 25/60] fix: capitalize and spread only the visible characters

---
 gopher_render/_textwrap.py | 17 +++++++++++++++++
 gopher_render/rendering.py | 16 ++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 772b300..9fa6fd8 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -27,6 +27,23 @@ def _len(obj):
     return len(actual)
 
 
+def is_escape(part):
+    return _escape_regex.fullmatch(part) is not None
+
+
+def split_escapes(text):
+    """
+    Split the text into escape sequences and the parts between them.
+    """
+    parts = []
+    end = 0
+    for escape in _escape_regex.finditer(text):
+        parts.extend((text[end:escape.start()], escape.group()))
+        end = escape.end()
+    parts.append(text[end:])
+    return parts
+
+
 def _cut(text, width):
     """
     Split the text after the given number of visible characters.
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7667665..70a8e9d 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -83,12 +83,24 @@ justifications = {
 # should probably match the method name
 # TODO: Should may deal with casing the same way as the justifications...
 def capitalize(text):
-    return text.upper()
+    return ''.join(
+        part if textwrap.is_escape(part) else part.upper()
+        for part in textwrap.split_escapes(text)
+    )
 
 
 def spread(text, spread_char, count):
     s = spread_char * count
-    return s.join(text)
+    spread_text = ''
+    first = True
+    for part in textwrap.split_escapes(text):
+        if textwrap.is_escape(part):
+            spread_text += part
+            continue
+        for c in part:
+            spread_text += c if first else s + c
+            first = False
+    return spread_text
 
 
 class BoxSide:
-- 
2.43.0


From fd7676b42b37c04e64f67641881b11d8409e2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 26/60] fix: use the configured font number

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 70a8e9d..1a41b9c 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1325,7 +1325,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
 
         # Fonts
         if settings.font is not None:
-            enable.append(ANSI_ESCAPE_SEQUENCE.format(setting.font + ANSI_FONT_OFFSET))
+            enable.append(ANSI_ESCAPE_SEQUENCE.format(settings.font + ANSI_FONT_OFFSET))
             if not normalise:
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
-- 
2.43.0


From b9785c8a2d99820a5bd80aad495534540398d76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 27/60] fix: accept palette colour 0

---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 1a41b9c..50cd762 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1330,7 +1330,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(0 + ANSI_FONT_OFFSET))
 
         # Colours
-        if settings.foreground_colour:
+        if settings.foreground_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
@@ -1341,7 +1341,7 @@ class AnsiEscapeCodeRenderer(InlineRenderer):
             if not normalise:
                 # Default foreground
                 disable.append(ANSI_ESCAPE_SEQUENCE.format(39))
-        if settings.background_colour:
+        if settings.background_colour is not None:
             enable.append(
                 ANSI_ESCAPE_SEQUENCE.format(
                     _get_sequence_for_colour(
-- 
2.43.0


From ee7569a177b7222aa48b21b9852d95f7b1942d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 28/60] fix: shorten link descriptions by their visible
 characters

---
 gopher_render/_textwrap.py |  4 ++--
 gopher_render/rendering.py | 23 +++++++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 9fa6fd8..7e3719a 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -44,7 +44,7 @@ def split_escapes(text):
     return parts
 
 
-def _cut(text, width):
+def cut(text, width):
     """
     Split the text after the given number of visible characters.
     """
@@ -76,7 +76,7 @@ class AnsiAwareTextWrapper(TextWrapper):
             return super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
         space_left = 1 if width < 1 else width - cur_len
         if self.break_long_words:
-            head, tail = _cut(reversed_chunks[-1], space_left)
+            head, tail = cut(reversed_chunks[-1], space_left)
             cur_line.append(head)
             reversed_chunks[-1] = tail
         elif not cur_line:
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 50cd762..f6e0186 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -103,6 +103,19 @@ def spread(text, spread_char, count):
     return spread_text
 
 
+def _trim(text, length):
+    """
+    Trim the text to a number of visible characters, marking it with an ellipsis
+    if anything had to be cut. Escape sequences are always kept.
+
+    Returns the text and whether it was trimmed.
+    """
+    head, tail = textwrap.cut(text, length)
+    escapes = [part for part in textwrap.split_escapes(tail) if textwrap.is_escape(part)]
+    trimmed = tail != "".join(escapes)
+    return "{}{}{}".format(head, "..." if trimmed else "", "".join(escapes)), trimmed
+
+
 class BoxSide:
     TOP = 0
     RIGHT = 1
@@ -745,10 +758,7 @@ class ExtractedLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(content) > max_link_description
-        content = content.strip()[:max_link_description]
-        if trimming:
-            content = "{}...".format(content)
+        content, trimming = _trim(content.strip(), max_link_description)
 
         if output_format == 'gophermap':
             description = title if title is not None else content
@@ -856,10 +866,7 @@ class ExtractedImageLinkRenderer(BlockRenderer):
 
         # TODO: Surely this truncation should be optional?
         max_link_description = settings.max_link_description
-        trimming = len(title) > max_link_description
-        trimmed_title = title.strip()[:max_link_description]
-        if trimming:
-            trimmed_title = "{}...".format(trimmed_title)
+        trimmed_title, trimming = _trim(title.strip(), max_link_description)
 
         if output_format == 'gophermap':
             description = trimmed_title
-- 
2.43.0


From 2fee41d5c846064e294be89156b55383d4be231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 29/60] fix: prefer the link text to an empty title in
 gophermaps

---
 gopher_render/rendering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index f6e0186..4ae2338 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -761,7 +761,7 @@ class ExtractedLinkRenderer(BlockRenderer):
         content, trimming = _trim(content.strip(), max_link_description)
 
         if output_format == 'gophermap':
-            description = title if title is not None else content
+            description = title if title else content
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-- 
2.43.0


From 520f895193366510ef84a3e7ed74b47a5dc2b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 30/60] fix: keep tabs and line breaks out of gophermap fields

---
 gopher_render/_parser.py   |  4 +++-
 gopher_render/rendering.py | 11 +++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a9c9576..04b0776 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -162,7 +162,9 @@ class LinkParser(TagParser):
         """
         web_link = dict(
             type='h',
-            selector="URL:{}".format(self.href),
+            # Tabs and line breaks are not part of a URL, and would end the
+            # selector in a gophermap
+            selector="URL:{}".format(self.href.translate(dict.fromkeys(map(ord, '\t\n\r')))),
             host=self._context['gopher_host'],
             port=self._context['gopher_port'],
         )
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 4ae2338..3c2b2de 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -103,6 +103,13 @@ def spread(text, spread_char, count):
     return spread_text
 
 
+def _menu_text(text):
+    """
+    Replace the characters that would end a field or line of a gophermap.
+    """
+    return text.translate({ord(c): ' ' for c in '\t\n\r'})
+
+
 def _trim(text, length):
     """
     Trim the text to a number of visible characters, marking it with an ellipsis
@@ -761,7 +768,7 @@ class ExtractedLinkRenderer(BlockRenderer):
         content, trimming = _trim(content.strip(), max_link_description)
 
         if output_format == 'gophermap':
-            description = title if title else content
+            description = _menu_text(title if title else content)
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
@@ -869,7 +876,7 @@ class ExtractedImageLinkRenderer(BlockRenderer):
         trimmed_title, trimming = _trim(title.strip(), max_link_description)
 
         if output_format == 'gophermap':
-            description = trimmed_title
+            description = _menu_text(trimmed_title)
             gopher_link = self.context['gopher_link']
             link_ref = self.context["link_reference"]
             return settings.gophermap_template.format(
-- 
2.43.0


From 79d6a49b8c30efba57c273213136125775d26b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 31/60] fix: keep the lines of blocks nested in list items

---
 gopher_render/rendering.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3c2b2de..57320c9 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1078,8 +1078,14 @@ class ListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
-        just_split = justified.split("\n")
+        # The lines of nested blocks are already laid out, so keep them apart
+        just_split = []
+        for chunk in inner.split("\n"):
+            if chunk.strip():
+                justified = justify_func(chunk.rstrip(), width, **justify_args)
+                just_split.extend(justified.split("\n"))
+        if not just_split:
+            just_split.append("")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
         # are just padded by its width.
@@ -1193,8 +1199,14 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        justified = justify_func(inner, width, **justify_args)
-        just_split = justified.split("\n")
+        # The lines of nested blocks are already laid out, so keep them apart
+        just_split = []
+        for chunk in inner.split("\n"):
+            if chunk.strip():
+                justified = justify_func(chunk.rstrip(), width, **justify_args)
+                just_split.extend(justified.split("\n"))
+        if not just_split:
+            just_split.append("")
         template = self.settings.line_template
         # The template only applies for the first line in this case, the rest
         # are just padded by its width.
-- 
2.43.0


From 1f271d19b2a26db68911a28fe4af54ca78bf32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 32/60] fix: ignore the whitespace between blocks

---
 gopher_render/_parser.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 04b0776..d65b2d4 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -264,6 +264,7 @@ class DataParser(TagParser):
     def __init__(self, parent, data, **context):
         super().__init__(None, parent, None, **context)
         self.source = data
+        self.in_pre = context['in_pre']
         if not context['in_pre']:
             # This attempts to remove extraneous formatting internal to the data
             # but does not remove whitespace from the start or end of the data
@@ -608,6 +609,25 @@ class GopherHTMLParser(HTMLParser):
 
             self._assign_renderers(tag.children)
 
+    def _prune_whitespace(self, tag):
+        """
+        Remove the whitespace before and after block elements, which is only
+        formatting of the source.
+        """
+        def is_block(t):
+            return isinstance(t.renderer, type) and issubclass(t.renderer, BlockRenderer)
+
+        def is_whitespace(t):
+            return t.tag is None and not t.in_pre and not t.data.strip(' \t\r\n\f')
+
+        children = tag.children
+        tag.children = [
+            c for i, c in enumerate(children)
+            if not is_whitespace(c) or not any(map(is_block, children[max(i - 1, 0):i + 2]))
+        ]
+        for c in tag.children:
+            self._prune_whitespace(c)
+
     def _optimise_parsed(self):
         """
         Remove extraeous whitespace to the right of the text.
@@ -629,6 +649,7 @@ class GopherHTMLParser(HTMLParser):
 
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
+        self._prune_whitespace(self.tree)
 
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
-- 
2.43.0


From 509e717b32cecc410f5799b8f032c28a17a885ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:54 +0000
Subject: [PATCH 33/60] fix: keep gophermap links out of the blocks around them

---
 gopher_render/_parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index d65b2d4..293c078 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -49,6 +49,7 @@ class TagParser(object):
         self.renderer_settings = None
         self._context = context
         self._pending_links = []
+        self.menu_links = []
 
     def tag_children(self):
         """
@@ -527,7 +528,12 @@ class GopherHTMLParser(HTMLParser):
             if placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
-                parent.add_pending_link(t)
+                if self._output_format == 'gophermap' and self._tag_stack:
+                    # A line of a menu can't be reflowed, padded or indented by
+                    # the blocks around the link, so it has to follow them.
+                    self._tag_stack[0].menu_links.append(t)
+                else:
+                    parent.add_pending_link(t)
             if placement != 'inline':
                 self._next_link_number += 1
         else:
@@ -653,6 +659,10 @@ class GopherHTMLParser(HTMLParser):
 
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
+            if len(t.menu_links) > 0:
+                self._parsed.append("\n")
+                for l in t.menu_links:
+                    self._parsed.append(l.link_render(self._box))
 
         extracted_links = self.tree._pending_links + self._footer_pending_links
         if len(extracted_links) > 0:
-- 
2.43.0


From 8d105fb37b81936419f9d7a79f6bfa243ade5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:25 +0000
Subject: [PATCH 34/60] fix: don't indent gophermap links by the document
 margin

---
 gopher_render/_parser.py | 47 ++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 293c078..cc6c4c2 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -2,6 +2,7 @@ import re
 from html.parser import HTMLParser
 from urllib.parse import urlparse
 from collections import namedtuple
+from itertools import groupby
 import cssselect
 
 from ._selectors import tag_matches, Specificity
@@ -392,6 +393,7 @@ class GopherHTMLParser(HTMLParser):
             raise ValueError("gopher_host is required for gophermap output")
         super().__init__(convert_charrefs=True)
         self._parsed = []
+        self._menu_parts = set()
         self.parsed = ""
         self._tag_stack = []
         self.tree = DocumentParser()
@@ -593,13 +595,27 @@ class GopherHTMLParser(HTMLParser):
             self.tree.append(d)
 
     def _indent_body(self):
-        box = self._box
-        parsed = "".join(self._parsed)
-        lines = parsed.splitlines(keepends=True)
-        return "".join([
-            "{}{}".format(' ' * self._box.margin[BoxSide.LEFT], l)
-            for l in lines
-        ])
+        indent = ' ' * self._box.margin[BoxSide.LEFT]
+        body = []
+        for is_menu, parts in groupby(
+            enumerate(self._parsed),
+            key=lambda part: part[0] in self._menu_parts
+        ):
+            lines = "".join([part for _, part in parts]).splitlines(keepends=True)
+            body.extend([
+                "{}{}".format('' if is_menu else indent, l)
+                for l in lines
+            ])
+        return "".join(body)
+
+    def _append_links(self, links):
+        if len(links) > 0:
+            self._parsed.append("\n")
+        for l in links:
+            if self._output_format == 'gophermap':
+                # These have to start in the first column
+                self._menu_parts.add(len(self._parsed))
+            self._parsed.append(l.link_render(self._box))
 
     def _assign_renderers(self, tags):
         for tag in tags:
@@ -659,23 +675,11 @@ class GopherHTMLParser(HTMLParser):
 
         for t in self.tree.children:
             self._parsed.append(t.render(self._box))
-            if len(t.menu_links) > 0:
-                self._parsed.append("\n")
-                for l in t.menu_links:
-                    self._parsed.append(l.link_render(self._box))
+            self._append_links(t.menu_links)
 
-        extracted_links = self.tree._pending_links + self._footer_pending_links
-        if len(extracted_links) > 0:
-            self._parsed.append("\n")
-            for l in extracted_links:
-                self._parsed.append(l.link_render(self._box))
+        self._append_links(self.tree._pending_links + self._footer_pending_links)
 
         # TODO: Some variation here within our box model:
-        # Gophermap links should definitely not be indented, but this naively
-        # indents everything. If link placement is footer this should be easy
-        # enough to avoid, but for inter-block links it will be troublesome.
-        # Could perhaps identify the points where links need to be inserted
-        # and indent everything around them separately.
         # Addition of padding and border to box model complicate this even further
         indented = self._indent_body()
         self.parsed = "{}{}{}".format(
@@ -689,6 +693,7 @@ class GopherHTMLParser(HTMLParser):
     def reset(self):
         super().reset()
         self._parsed = []
+        self._menu_parts = set()
         self.parsed = ""
         self._tag_stack = []
         self.tree = DocumentParser()
-- 
2.43.0


From c3dcf5c4e107f77e2b7aa27dd4a819e873f32b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:59 +0000
Subject: [PATCH 35/60] fix: drop the space before a long word that starts on
 the next line

The piece of the word that still fits on the line can be empty, which hid the
white space before it from being dropped at the end of the line.
---
 gopher_render/_textwrap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 7e3719a..624ad5e 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -72,9 +72,12 @@ class AnsiAwareTextWrapper(TextWrapper):
         Break an overlong chunk at the available width. Escape sequences take
         up no space and are never broken.
         """
+        space_left = 1 if width < 1 else width - cur_len
+        if space_left < 1:
+            # None of it fits on this line
+            return
         if not _escape_regex.search(reversed_chunks[-1]):
             return super()._handle_long_word(reversed_chunks, cur_line, cur_len, width)
-        space_left = 1 if width < 1 else width - cur_len
         if self.break_long_words:
             head, tail = cut(reversed_chunks[-1], space_left)
             cur_line.append(head)
-- 
2.43.0


From 6eaa2b9b365b445b8fd183834bbe972ca7d8d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:09 +0000
Subject: [PATCH 36/60] fix: centre styled text on the same column as plain
 text

Which side gets the odd space depended on the length of the escape sequences.
---
 gopher_render/rendering.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 57320c9..3578029 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -58,10 +58,14 @@ def center_justify(text, width, *args, **kwargs):
     return '\n'.join(centered)
 
 
-def center(text, width, *args, **kwargs):
+def center(text, width, fillchar=' '):
     if not width:
         return _noop(text)
-    return text.center(width + len(text) - textwrap._len(text), *args, **kwargs)
+    # Centre as many visible characters, to get the space on each side
+    visible = textwrap._len(text)
+    padding = max(width - visible, 0)
+    left = len(('x' * visible).center(width).rstrip()) - visible
+    return "{}{}{}".format(fillchar * left, text, fillchar * (padding - left))
 
 
 def right(text, width, *args, **kwargs):
-- 
2.43.0


From 5c4ceea43b8ead54618fd00be01eddd567136f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:55 +0000
Subject: [PATCH 37/60] fix: start the text of list items right after their
 marker

---
 gopher_render/rendering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 3578029..bad27e3 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1082,6 +1082,9 @@ class ListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
+        if self.tag.children and self.tag.children[0].tag is None:
+            # White space before the text is not part of it
+            inner = inner.lstrip(' ')
         # The lines of nested blocks are already laid out, so keep them apart
         just_split = []
         for chunk in inner.split("\n"):
@@ -1203,6 +1206,9 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
+        if self.tag.children and self.tag.children[0].tag is None:
+            # White space before the text is not part of it
+            inner = inner.lstrip(' ')
         # The lines of nested blocks are already laid out, so keep them apart
         just_split = []
         for chunk in inner.split("\n"):
-- 
2.43.0


From 2ee8895bb234173a457e8ea0a581971a3b4f59ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 38/60] fix: count only list items when numbering an ordered
 list

---
 gopher_render/rendering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index bad27e3..7271452 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1125,7 +1125,8 @@ class OrderedListItemRenderer(ListItemRenderer):
         )
 
     def _get_ordinal(self, tag, start_index, step):
-        return (tag.parent.tag_children().index(tag) * step) + start_index
+        items = [t for t in tag.parent.tag_children() if t.tag == tag.tag]
+        return (items.index(tag) * step) + start_index
 
 
 class DefinitionListRenderer(BlockRenderer):
-- 
2.43.0


From ef75e598424e721dfebcbcf038e94d35faf68f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:49 +0000
Subject: [PATCH 39/60] fix: keep no-break spaces next to line breaks of the
 source

---
 gopher_render/_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index cc6c4c2..1d764ee 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -278,10 +278,10 @@ class DataParser(TagParser):
             data_split = data.split('\n')
             if len(data_split) > 1:
                 data_stripped = []
-                data_stripped.append(data_split[0].rstrip())
+                data_stripped.append(data_split[0].rstrip(' \t\r\f'))
                 if len(data_split) > 2:
-                    data_stripped.extend([l.strip() for l in data_split[1:-1]])
-                data_stripped.append(data_split[-1].lstrip())
+                    data_stripped.extend([l.strip(' \t\r\f') for l in data_split[1:-1]])
+                data_stripped.append(data_split[-1].lstrip(' \t\r\f'))
                 data_split = data_stripped
             data = ' '.join(data_split)
             data = re.sub('[ \t]+', ' ', data)
-- 
2.43.0


From 48a61db0da93859cebb73fb53376706b39a1ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:10 +0000
Subject: [PATCH 40/60] fix: compare attributes with the value in the selector

---
 gopher_render/_selectors.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index 5d4e7a4..ebb5b52 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -140,26 +140,28 @@ def _attribute_matches(tag, selector):
         if selector.operator == 'exists':
             return True
         attr_val = tag.attrs[selector.attrib]
+        # cssselect provides the value as a token
+        value = selector.value.value
         if selector.attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
         if selector.operator == '=':
-            return attr_val == selector.value
+            return attr_val == value
         if selector.operator == '~=':
             split_val = attr_val.split()
-            return selector.value in split_val
+            return value in split_val
         if selector.operator == '|=':
-            return attr_val == selector.value or attr_val.startswith("{}-".format(selector.value))
-        if not selector.value:
+            return attr_val == value or attr_val.startswith("{}-".format(value))
+        if not value:
             # No substring test matches an empty value
             return False
         if selector.operator == '^=':
-            return attr_val.startswith(selector.value)
+            return attr_val.startswith(value)
         if selector.operator == '$=':
-            return attr_val.endswith(selector.value)
+            return attr_val.endswith(value)
         if selector.operator == '*=':
-            return selector.value in attr_val
+            return value in attr_val
     return False
 
 
-- 
2.43.0


From 12aded7c627ecb9d19d033596b81d3273a93aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:32 +0000
Subject: [PATCH 41/60] fix: keep the parameters of a path in gopher selectors

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 1d764ee..006fb6a 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,6 +1,6 @@
 import re
 from html.parser import HTMLParser
-from urllib.parse import urlparse
+from urllib.parse import urlsplit
 from collections import namedtuple
 from itertools import groupby
 import cssselect
@@ -171,7 +171,7 @@ class LinkParser(TagParser):
             port=self._context['gopher_port'],
         )
         try:
-            parsed = urlparse(self.href)
+            parsed = urlsplit(self.href)
             host, port = parsed.hostname, parsed.port
         except ValueError:
             # Not a valid URL
-- 
2.43.0


From c62b3e4a1bd619f61eac296764f825dba0cc8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:29 +0000
Subject: [PATCH 42/60] fix: no padding around the gophermap lines of images

---
 gopher_render/rendering.py | 60 +++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 7271452..6cb49d8 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -751,7 +751,38 @@ class LinkRenderer(InlineRenderer):
             )
 
 
-class ExtractedLinkRenderer(BlockRenderer):
+class _MenuLineRenderer(BlockRenderer):
+    """
+    Base of the renderers of extracted links, which are the lines of a gophermap.
+    """
+
+    def _outer_render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A left margin would not be acceptable for gophermap links, so only
+            # apply the top and bottom margins, if any.
+            box = self.box
+            return "{}{}{}".format(
+                '\n' * box.margin[BoxSide.TOP],
+                content,
+                '\n' * box.margin[BoxSide.BOTTOM],
+            )
+        return super()._outer_render(content)
+
+    def render(self, content):
+        output_format = self.context['output_format']
+        if output_format == "gophermap":
+            # A border would not be acceptable for gophermap links, so skip
+            # that render step.
+            return self._outer_render(
+                self._inner_render(
+                    content
+                )
+            )
+        return super().render(content)
+
+
+class ExtractedLinkRenderer(_MenuLineRenderer):
 
     # TODO: The block rendering is adding an entire line's worth of whitespace at
     # the end of the line for extracted text links.
@@ -797,31 +828,6 @@ class ExtractedLinkRenderer(BlockRenderer):
                 **keywords
             )
 
-    def _outer_render(self, content):
-        output_format = self.context['output_format']
-        if output_format == "gophermap":
-            # A left margin would not be acceptable for gophermap links, so only
-            # apply the top and bottom margins, if any.
-            box = self.box
-            return "{}{}{}".format(
-                '\n' * box.margin[BoxSide.TOP],
-                content,
-                '\n' * box.margin[BoxSide.BOTTOM],
-            )
-        return super()._outer_render(content)
-
-    def render(self, content):
-        output_format = self.context['output_format']
-        if output_format == "gophermap":
-            # A border would not be acceptable for gophermap links, so skip
-            # that render step.
-            return self._outer_render(
-                self._inner_render(
-                    content
-                )
-            )
-        return super().render(content)
-
 
 class ImageRenderer(InlineRenderer):
 
@@ -858,7 +864,7 @@ class ImageRenderer(InlineRenderer):
             )
 
 
-class ExtractedImageLinkRenderer(BlockRenderer):
+class ExtractedImageLinkRenderer(_MenuLineRenderer):
 
     settings = dict(
         templates=["\n[{link_reference}] {description}: {href}", '\n[{link_reference}] {description}: {href} "{title}"'],
-- 
2.43.0


From 2c81c387809463e5a032c2d5e60490b3b29df1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:02 +0000
Subject: [PATCH 43/60] fix: background colours of the github theme

---
 gopher_render/code_themes/github.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gopher_render/code_themes/github.py b/gopher_render/code_themes/github.py
index ac50b88..d82bb0a 100644
--- a/gopher_render/code_themes/github.py
+++ b/gopher_render/code_themes/github.py
@@ -23,20 +23,20 @@ _NAVY = "#000080"
 
 renderers = {
     ".highlight .c": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
-    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background-colour": "#e3d2d2", }),
+    ".highlight .err": (AnsiEscapeCodeRenderer, { "foreground_colour": "#a61717", "background_colour": "#e3d2d2", }),
     ".highlight .k": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .o": (AnsiEscapeCodeRenderer, { "bold": True }),
     ".highlight .cm": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True }),
     ".highlight .c1": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999988", "italic": True }),
     ".highlight .cs": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", "bold": True, "italic": True }),
-    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffdddd", }),
-    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ffaaaa", }),
+    ".highlight .gd": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffdddd", }),
+    ".highlight .gd .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ffaaaa", }),
     ".highlight .ge": (AnsiEscapeCodeRenderer, { "italic": True }),
     ".highlight .gr": (AnsiEscapeCodeRenderer, { "foreground_colour": "#aa0000", }),
     ".highlight .gh": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999999", }),
-    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#ddffdd", }),
-    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background-colour": "#aaffaa", }),
+    ".highlight .gi": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#ddffdd", }),
+    ".highlight .gi .x": (AnsiEscapeCodeRenderer, { "foreground_colour": "#000000", "background_colour": "#aaffaa", }),
     ".highlight .go": (AnsiEscapeCodeRenderer, { "foreground_colour": "#888888", }),
     ".highlight .gp": (AnsiEscapeCodeRenderer, { "foreground_colour": "#555555", }),
     ".highlight .gs": (AnsiEscapeCodeRenderer, { "bold": True }),
@@ -83,5 +83,5 @@ renderers = {
     ".highlight .vg": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .vi": (AnsiEscapeCodeRenderer, { "foreground_colour": _TEAL }),
     ".highlight .il": (AnsiEscapeCodeRenderer, { "foreground_colour": "#009999", }),
-    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background-colour": "#EAF2F5", }),
+    ".highlight .gc": (AnsiEscapeCodeRenderer, { "foreground_colour": "#999", "background_colour": "#EAF2F5", }),
 }
-- 
2.43.0


From 5141be7c3edd34c399d22e14b51f120aa6fedd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 44/60] fix: print warnings to the standard error

---
 gopher_render/_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 006fb6a..9eb0d7c 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -1,4 +1,5 @@
 import re
+import sys
 from html.parser import HTMLParser
 from urllib.parse import urlsplit
 from collections import namedtuple
@@ -558,13 +559,13 @@ class GopherHTMLParser(HTMLParser):
             return
         top = self._get_top()
         if not top:
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
             return
         if top.tag == tag:
             top.closed = True
         else:
             # TODO: Consider instead just accepting mismatched tags and closing the top tag?
-            print("Unsupported or mismatched end tag, ignoring: " + tag)
+            print("Unsupported or mismatched end tag, ignoring: " + tag, file=sys.stderr)
         if top.closed:
             # TODO: This will have to determine if links should be rendered
             # after the closed tag if link_placement is 'after_block'
-- 
2.43.0


From 5cb25f551544e1b08b25efbae2a4d226bd8e3e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 45/60] fix: drop the white space after a line break

A line break in the source after <br> (as Markdown writes it) put a space in
front of the next line, so that the lines of a list item did not line up.
---
 gopher_render/_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 9eb0d7c..93c18cb 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -644,6 +644,9 @@ class GopherHTMLParser(HTMLParser):
             return t.tag is None and not t.in_pre and not t.data.strip(' \t\r\n\f')
 
         children = tag.children
+        for br, text in zip(children, children[1:]):
+            if br.tag == 'br' and text.tag is None and not text.in_pre:
+                text.data = text.data.lstrip(' \t\r\n\f')
         tag.children = [
             c for i, c in enumerate(children)
             if not is_whitespace(c) or not any(map(is_block, children[max(i - 1, 0):i + 2]))
-- 
2.43.0


From ad22cd99dcf5ccf91aa9c3699cfa9d37505c9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:31 +0000
Subject: [PATCH 46/60] fix: apply the capitalized setting of images

---
 gopher_render/rendering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 6cb49d8..a1c6d32 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -846,12 +846,12 @@ class ImageRenderer(InlineRenderer):
             if "title" in self.context and self.context["title"]:
                 return settings.templates["inline"].format(
                     href=self.context["href"],
-                    title=self.context["title"],
+                    title=capitalize_func(self.context["title"]),
                 )
             else:
                 return settings.templates["inline"].format(
                     href=self.context["href"],
-                    title="Image",
+                    title=capitalize_func("Image"),
                 )
         else:
             if "title" in self.context and self.context["title"]:
@@ -859,7 +859,7 @@ class ImageRenderer(InlineRenderer):
             else:
                 title = "Image"
             return settings.templates["reference"].format(
-                title=title,
+                title=capitalize_func(title),
                 link_reference=self.context["link_reference"]
             )
 
-- 
2.43.0


From e112e702df55fe1ce73a57f9ade981d76995d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 47/60] fix: no space before text in an inline element that
 starts a list item

---
 gopher_render/rendering.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index a1c6d32..77f902e 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1017,6 +1017,20 @@ class BlockQuoteRenderer(BlockRenderer):
         )
 
 
+def _starts_with_text(tag):
+    """
+    Check if the content of a tag starts with text, which may be in inline elements.
+    """
+    for child in tag.children:
+        if child.tag is None:
+            return True
+        if isinstance(child.renderer, type) and issubclass(child.renderer, BlockRenderer):
+            return False
+        if child.children:
+            return _starts_with_text(child)
+    return False
+
+
 class ListRenderer(BlockRenderer):
     settings = dict(
         margin=[1,0,1,0],
@@ -1088,7 +1102,7 @@ class ListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        if self.tag.children and self.tag.children[0].tag is None:
+        if _starts_with_text(self.tag):
             # White space before the text is not part of it
             inner = inner.lstrip(' ')
         # The lines of nested blocks are already laid out, so keep them apart
@@ -1213,7 +1227,7 @@ class DefinitionListItemRenderer(BlockRenderer):
         width = self.box.inner_width_excluding_line_template
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
-        if self.tag.children and self.tag.children[0].tag is None:
+        if _starts_with_text(self.tag):
             # White space before the text is not part of it
             inner = inner.lstrip(' ')
         # The lines of nested blocks are already laid out, so keep them apart
-- 
2.43.0


From 356a7f23b8f57d259c711d9798b1b1101ed563cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 48/60] fix: keep the tabs of preformatted text in list items
 and definitions

---
 gopher_render/rendering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 77f902e..676ba32 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1048,6 +1048,9 @@ class ListItemRenderer(BlockRenderer):
         capitalized=False,
         fix_sentence_endings=True,
         break_long_words=True,
+        # Only preformatted text has other white space than single spaces
+        replace_whitespace=False,
+        expand_tabs=False,
     )
 
     # TODO: Very repetitive
@@ -1173,6 +1176,9 @@ class DefinitionListItemRenderer(BlockRenderer):
         capitalized=False,
         fix_sentence_endings=True,
         break_long_words=True,
+        # Only preformatted text has other white space than single spaces
+        replace_whitespace=False,
+        expand_tabs=False,
     )
 
     # TODO: Very repetitive
-- 
2.43.0


From 3cf3a69c45bca1c5f1b34f6ac48a7a65e319edc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:28 +0000
Subject: [PATCH 49/60] fix: convert text nested so deeply that no columns are
 left for it

---
 gopher_render/rendering.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 676ba32..b839feb 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -645,7 +645,8 @@ class ParagraphRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # At least one column, however deeply nested
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         #template = settings['template']
@@ -1102,7 +1103,8 @@ class ListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # At least one column, however deeply nested
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         if _starts_with_text(self.tag):
@@ -1230,7 +1232,8 @@ class DefinitionListItemRenderer(BlockRenderer):
             if textwrap_arg in settings:
                 justify_args[textwrap_arg] = settings[textwrap_arg]
 
-        width = self.box.inner_width_excluding_line_template
+        # At least one column, however deeply nested
+        width = max(self.box.inner_width_excluding_line_template, 1)
         # TODO: Is a block or line template useful here?
         inner = capitalize_func(content)
         if _starts_with_text(self.tag):
-- 
2.43.0


From a68ae2e730557abe0c4a51c6457cb83d4d91426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 50/60] fix: no endless loop on leading white space and an
 indent wider than the line

---
 gopher_render/_textwrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gopher_render/_textwrap.py b/gopher_render/_textwrap.py
index 624ad5e..fbde21e 100644
--- a/gopher_render/_textwrap.py
+++ b/gopher_render/_textwrap.py
@@ -72,6 +72,10 @@ class AnsiAwareTextWrapper(TextWrapper):
         Break an overlong chunk at the available width. Escape sequences take
         up no space and are never broken.
         """
+        if not reversed_chunks[-1]:
+            # Nothing left of it
+            reversed_chunks.pop()
+            return
         space_left = 1 if width < 1 else width - cur_len
         if space_left < 1:
             # None of it fits on this line
-- 
2.43.0


From 729b2620072b72e4db351054c7cc3d80bef76930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 51/60] fix: ignore removed and empty elements when looking for
 the first text of an item

---
 gopher_render/rendering.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index b839feb..757a22f 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1018,18 +1018,27 @@ class BlockQuoteRenderer(BlockRenderer):
         )
 
 
-def _starts_with_text(tag):
+def _has_renderer(tag, renderer):
+    return isinstance(tag.renderer, type) and issubclass(tag.renderer, renderer)
+
+
+def _first_content(tag):
     """
-    Check if the content of a tag starts with text, which may be in inline elements.
+    Find the first text, or block, of a tag. The text may be in inline elements.
     """
     for child in tag.children:
-        if child.tag is None:
-            return True
-        if isinstance(child.renderer, type) and issubclass(child.renderer, BlockRenderer):
-            return False
-        if child.children:
-            return _starts_with_text(child)
-    return False
+        if child.tag is None or _has_renderer(child, BlockRenderer):
+            return child
+        if not _has_renderer(child, NonRenderer):
+            first = _first_content(child)
+            if first is not None:
+                return first
+    return None
+
+
+def _starts_with_text(tag):
+    first = _first_content(tag)
+    return first is not None and first.tag is None
 
 
 class ListRenderer(BlockRenderer):
-- 
2.43.0


From 52bb83bb7fe13e17355a6a6d6f521ce6beccbf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:20 +0000
Subject: [PATCH 52/60] fix: Keep literal braces in the line templates of
 ordered list items

The ordinal is filled in first and the result is used as a template again, so
the escaped braces of a template such as "{{{0}}} {1}" were gone by then, and
the conversion failed with an exception.
---
 gopher_render/rendering.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 757a22f..38b2224 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -1153,9 +1153,11 @@ class OrderedListItemRenderer(ListItemRenderer):
             self.settings.start_index,
             self.settings.step,
         )
-        self.settings.line_template = self.settings.line_template.format(
-            self.order,
-            '{}'
+        # It is used as a template again, so escape anything but the place of
+        # the content.
+        parts = self.settings.line_template.format(self.order, '\0').split('\0')
+        self.settings.line_template = '{}'.join(
+            part.replace('{', '{{').replace('}', '}}') for part in parts
         )
 
     def _get_ordinal(self, tag, start_index, step):
-- 
2.43.0


From 31d5e4201366c97c7a92cd4db6cb43210b8bff15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 53/60] fix: Measure the visible width of line templates

Escape sequences and the second of escaped braces take up no columns, so
coloured markers wasted most of the line and misaligned the lines after the
first one.
---
 gopher_render/rendering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 38b2224..73708d1 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -135,8 +135,8 @@ class BoxSide:
 
 
 def _get_template_width(template):
-    # TODO: This needs to be more sophisticated
-    return len(template) - 2
+    # Escape sequences and escaped braces are part of the template
+    return textwrap._len(template.format(''))
 
 
 class Box(object):
-- 
2.43.0


From f9fa8b7479886d327e09517f85f7914ad281872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:06 +0000
Subject: [PATCH 54/60] fix: Lay out each line of a header with line breaks

A header with a br element was centred as one long line, its underline was as
long as all of the lines together, and letter spacing put its filler at the
start and the end of lines, and not only between characters.
---
 gopher_render/rendering.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index 73708d1..ff33edf 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -58,6 +58,10 @@ def center_justify(text, width, *args, **kwargs):
     return '\n'.join(centered)
 
 
+def _center_lines(text, width):
+    return '\n'.join([center(line, width) for line in text.split('\n')])
+
+
 def center(text, width, fillchar=' '):
     if not width:
         return _noop(text)
@@ -102,8 +106,8 @@ def spread(text, spread_char, count):
             spread_text += part
             continue
         for c in part:
-            spread_text += c if first else s + c
-            first = False
+            spread_text += c if first or c == '\n' else s + c
+            first = c == '\n'
     return spread_text
 
 
@@ -525,7 +529,7 @@ class HeaderRenderer(BlockRenderer):
         # TODO: This should really be wrapped, since the boxing depends on
         # the width of the content being correct.
         settings = self.settings
-        center_func = center if settings.centered else _noop
+        center_func = _center_lines if settings.centered else _noop
         capitalize_func = capitalize if settings.capitalized else _noop
         spread_func = spread if settings.spread > 0 else _noop
         box = self.box
@@ -541,7 +545,8 @@ class HeaderRenderer(BlockRenderer):
         )
         underline = ""
         if settings['underlined']:
-            underline_len = width if settings.underline_full else textwrap._len(inner)
+            text_len = max([textwrap._len(line) for line in inner.split('\n')])
+            underline_len = width if settings.underline_full else text_len
             underline = "{}".format(settings.underline_char * underline_len, width)
             return "{}\n{}".format(
                 center_func(inner, width),
-- 
2.43.0


From 07d913159375908a9a9abdc78dcbd2a2e5302241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 55/60] fix: List links after the block around them, not in
 inline elements

With links placed after their block, the entries of links in inline elements
(or in other links) were part of those elements: they stood in the middle of
the text, between the markers of the element. In gophermaps, links in inline
elements at the top level split the text around them.
---
 gopher_render/_parser.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 93c18cb..75b1d5b 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -23,6 +23,7 @@ from .rendering import ImageRenderer, ExtractedImageLinkRenderer
 from .rendering import ListRenderer, ListItemRenderer, OrderedListItemRenderer
 from .rendering import DefinitionListRenderer, DefinitionListTermHeaderRenderer, DefinitionListItemRenderer
 from .rendering import AnsiEscapeCodeRenderer
+from .rendering import _has_renderer
 
 
 # Elements that never have any content, nor an end tag.
@@ -485,6 +486,7 @@ class GopherHTMLParser(HTMLParser):
             self.extracted_link_renderers['a']
         )
         self._next_link_number = 1
+        self._block_pending_links = []
         self._footer_pending_links = []
         self._optimise = optimise
 
@@ -531,12 +533,7 @@ class GopherHTMLParser(HTMLParser):
             if placement == 'footer':
                 self._footer_pending_links.append(t)
             elif placement == 'after_block':
-                if self._output_format == 'gophermap' and self._tag_stack:
-                    # A line of a menu can't be reflowed, padded or indented by
-                    # the blocks around the link, so it has to follow them.
-                    self._tag_stack[0].menu_links.append(t)
-                else:
-                    parent.add_pending_link(t)
+                self._block_pending_links.append(t)
             if placement != 'inline':
                 self._next_link_number += 1
         else:
@@ -632,6 +629,26 @@ class GopherHTMLParser(HTMLParser):
 
             self._assign_renderers(tag.children)
 
+    def _place_block_links(self):
+        """
+        Assign the links that are to follow their block to it.
+        """
+        for link in self._block_pending_links:
+            ancestors = []
+            parent = link.parent
+            while parent is not self.tree:
+                ancestors.append(parent)
+                parent = parent.parent
+            blocks = [t for t in ancestors if _has_renderer(t, BlockRenderer)]
+            if not blocks:
+                self.tree.add_pending_link(link)
+            elif self._output_format == 'gophermap':
+                # A line of a menu can't be reflowed, padded or indented by
+                # the blocks around the link, so it has to follow them.
+                ancestors[-1].menu_links.append(link)
+            else:
+                blocks[0].add_pending_link(link)
+
     def _prune_whitespace(self, tag):
         """
         Remove the whitespace before and after block elements, which is only
@@ -675,6 +692,7 @@ class GopherHTMLParser(HTMLParser):
 
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
+        self._place_block_links()
         self._prune_whitespace(self.tree)
 
         for t in self.tree.children:
@@ -702,4 +720,5 @@ class GopherHTMLParser(HTMLParser):
         self._tag_stack = []
         self.tree = DocumentParser()
         self._next_link_number = 1
+        self._block_pending_links = []
         self._footer_pending_links = []
-- 
2.43.0


From 619363f4a394c3aeacd5b003568835d018c79417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:29 +0000
Subject: [PATCH 56/60] fix: Keep the links listed after a header out of its
 decoration

With links placed after their block, the entries of links in a header were
inside the header's markers, and were spread, centred and underlined with it.
---
 gopher_render/_parser.py   | 9 +++++++--
 gopher_render/rendering.py | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 75b1d5b..7cb68a5 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -99,12 +99,17 @@ class TagParser(object):
                 c.render(box)
             )
 
+        rendered_links = []
         if len(self._pending_links):
-            rendered_children.append('\n')
+            rendered_links.append('\n')
         for l in self._pending_links:
-            rendered_children.append(
+            rendered_links.append(
                 l.link_render(box)
             )
+        if isinstance(render_inst, HeaderRenderer):
+            render_inst.links = "".join(rendered_links)
+        else:
+            rendered_children.extend(rendered_links)
 
         return render_inst.render(
             "".join(rendered_children)
diff --git a/gopher_render/rendering.py b/gopher_render/rendering.py
index ff33edf..fb2a6a1 100644
--- a/gopher_render/rendering.py
+++ b/gopher_render/rendering.py
@@ -525,6 +525,9 @@ class HeaderRenderer(BlockRenderer):
         margin=[1,0,1,0]
     )
 
+    # Rendered links that follow the header, which are not decorated
+    links = ""
+
     def _inner_render(self, content):
         # TODO: This should really be wrapped, since the boxing depends on
         # the width of the content being correct.
@@ -548,12 +551,13 @@ class HeaderRenderer(BlockRenderer):
             text_len = max([textwrap._len(line) for line in inner.split('\n')])
             underline_len = width if settings.underline_full else text_len
             underline = "{}".format(settings.underline_char * underline_len, width)
-            return "{}\n{}".format(
+            return "{}\n{}{}".format(
                 center_func(inner, width),
                 center_func(underline, width),
+                self.links,
             )
         else:
-            return center_func(inner, width)
+            return center_func(inner, width) + self.links
 
 
 class MarkdownHeaderRenderer(HeaderRenderer):
-- 
2.43.0


From 7115a45108ebf20933f0e0e6a6dfc78f7ab12e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 57/60] fix: No tabs in the text lines of a gophermap

A line with a tab in it is a menu line, so preformatted text (or an
alternative text) with tabs became broken links.
---
 gopher_render/_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index 7cb68a5..a5f4b98 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -604,7 +604,11 @@ class GopherHTMLParser(HTMLParser):
             enumerate(self._parsed),
             key=lambda part: part[0] in self._menu_parts
         ):
-            lines = "".join([part for _, part in parts]).splitlines(keepends=True)
+            text = "".join([part for _, part in parts])
+            if self._output_format == 'gophermap' and not is_menu:
+                # A tab would make a menu line of the text
+                text = text.expandtabs()
+            lines = text.splitlines(keepends=True)
             body.extend([
                 "{}{}".format('' if is_menu else indent, l)
                 for l in lines
-- 
2.43.0


From 34952148393c98123266a024b65ec3296ca184df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:07 +0000
Subject: [PATCH 58/60] fix: Element and attribute names of selectors are
 case-insensitive

The names in an HTML document are lower case after parsing, so selectors such
as P or [HREF] never matched anything.
---
 gopher_render/_selectors.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gopher_render/_selectors.py b/gopher_render/_selectors.py
index ebb5b52..4501f7c 100644
--- a/gopher_render/_selectors.py
+++ b/gopher_render/_selectors.py
@@ -24,7 +24,8 @@ def _element_matches(tag, element):
     if hasattr(tag, 'data'):
         return False
     # element.element will be None for the universal selector ('*')
-    return tag.tag == element.element or element.element is None
+    # Names are case-insensitive in HTML, and the parser's are lower case
+    return element.element is None or tag.tag == element.element.lower()
 
 
 def _hash_matches(tag, hash):
@@ -136,13 +137,15 @@ def _attribute_matches(tag, selector):
     # not handled here.
     # There are also options related to how to compare the values case-wise
     # but that is apparently not handled by cssselect.
-    if selector.attrib in tag.attrs:
+    # Names are case-insensitive in HTML, and the parser's are lower case
+    attrib = selector.attrib.lower()
+    if attrib in tag.attrs:
         if selector.operator == 'exists':
             return True
-        attr_val = tag.attrs[selector.attrib]
+        attr_val = tag.attrs[attrib]
         # cssselect provides the value as a token
         value = selector.value.value
-        if selector.attrib == 'class':
+        if attrib == 'class':
             # The class attribute is split during parsing, so have to rejoin
             # it for ease of comparison
             attr_val = " ".join(attr_val)
-- 
2.43.0


From 78cab0a7e43e358a2b85e5d87458aab4b20e1360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 59/60] fix: Links in removed elements are not listed or
 numbered

---
 gopher_render/_parser.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index a5f4b98..bddde20 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -11,7 +11,7 @@ from ._selectors import tag_matches, Specificity
 from .rendering import full_justify
 
 from .rendering import Box, BoxSide
-from .rendering import Renderer, InlineRenderer, BlockRenderer
+from .rendering import Renderer, NonRenderer, InlineRenderer, BlockRenderer
 from .rendering import HeaderRenderer, MarkdownHeaderRenderer
 from .rendering import ParagraphRenderer, BlockQuoteRenderer
 from .rendering import CodeRenderer, PreRenderer
@@ -638,6 +638,27 @@ class GopherHTMLParser(HTMLParser):
 
             self._assign_renderers(tag.children)
 
+    def _drop_removed_links(self):
+        """
+        Drop the links that are removed, by themselves or with an element around
+        them, from the lists of links, and close the gaps in the numbers.
+        """
+        def is_removed(t):
+            while t is not self.tree:
+                if _has_renderer(t, NonRenderer):
+                    return True
+                t = t.parent
+            return False
+
+        pending = self._footer_pending_links + self._block_pending_links
+        removed = 0
+        for link in sorted(pending, key=lambda l: l._context['link_reference']):
+            if is_removed(link):
+                removed += 1
+            link._context['link_reference'] -= removed
+        for links in (self._footer_pending_links, self._block_pending_links):
+            links[:] = [l for l in links if not is_removed(l)]
+
     def _place_block_links(self):
         """
         Assign the links that are to follow their block to it.
@@ -701,6 +722,7 @@ class GopherHTMLParser(HTMLParser):
 
         # Walk the tree and assign renderers.
         self._assign_renderers(self.tree.children)
+        self._drop_removed_links()
         self._place_block_links()
         self._prune_whitespace(self.tree)
 
-- 
2.43.0


From d15974433061b36a307df7f6e53dd7dca5f9b661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:27 +0000
Subject: [PATCH 60/60] fix: Keep the host of targets without a scheme that
 name one

---
 gopher_render/_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gopher_render/_parser.py b/gopher_render/_parser.py
index bddde20..ad61539 100644
--- a/gopher_render/_parser.py
+++ b/gopher_render/_parser.py
@@ -185,8 +185,8 @@ class LinkParser(TagParser):
             return web_link
         if parsed.scheme in ("http", "https"):
             return web_link
-        elif parsed.scheme == 'gopher':
-            # Absolute gopher url
+        elif parsed.scheme == 'gopher' or (parsed.scheme == '' and host):
+            # Absolute gopher url, or one with the scheme left out
             return dict(
                 type=self._guess_type(parsed.path),
                 selector=parsed.path,
-- 
2.43.0

