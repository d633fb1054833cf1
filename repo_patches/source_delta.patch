From 03627eb811918aef5aeaef3c612d16d8a45c2da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:19 +0000
Subject: [PATCH 01/36] fix: replace line breaks by a space instead of deleting
 them

A line break is white space in XML: deleting it glued attribute names to
tag names and words of text to each other.
---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index c41805a..526bb37 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -27,8 +27,8 @@ class XmlToMathMLAdapter:
         self._xml = self._error_handler.fix_error(self._xml, error)
 
     def _remove_line_breaks(self, xml: str) -> str:
-        line_break_pattern = re.compile(r"\n|\r\n|\r")
-        return line_break_pattern.sub("", xml)
+        line_break_pattern = re.compile(r"\r\n|\n|\r")
+        return line_break_pattern.sub(" ", xml)
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
         ms_word_prefix_pattern = re.compile(r"mml:")
-- 
2.43.0


From 1fe21a624101eedee25f8b54c95d305be885c136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:22 +0000
Subject: [PATCH 02/36] fix: read the whole text of a token, and never comments

Only the first child node was read, so a comment or processing
instruction was taken for the text and what followed one was lost.
---
 .../services/xml_elements_to_mathml_element.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
index b861b9b..5ee0ff8 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/xml_elements_to_mathml_element.py
@@ -20,9 +20,7 @@ class ElementsToMathMLAdapter:
     def _convert_element(self, el: DOMElement) -> MathMLElement:
         attributes = self._convert_element_attributes(el.attributes)
         has_children = self._has_element_child(el)
-        value = (
-            "" if has_children else (el.firstChild.nodeValue if el.firstChild else "")
-        )
+        value = "" if has_children else self._get_text(el)
 
         children = (
             self.convert(
@@ -43,6 +41,13 @@ class ElementsToMathMLAdapter:
             attributes=attributes,
         )
 
+    def _get_text(self, el: DOMElement) -> str:
+        return "".join(
+            child.nodeValue
+            for child in el.childNodes
+            if child.nodeType in (Node.TEXT_NODE, Node.CDATA_SECTION_NODE)
+        )
+
     def _convert_element_attributes(self, attributes) -> Dict[str, str]:
         attr_dict = {}
         for attr in attributes.values():
-- 
2.43.0


From 5b600190ece0bf02586d17e0c79680b480965138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 03/36] fix: separate the formulas of a document by a space

Joined directly, the last command of one formula and the first letter of
the next ran together (\alphab).
---
 src/mathml_to_latex/converter.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/converter.py b/src/mathml_to_latex/converter.py
index 348a2bf..7e0fe8d 100644
--- a/src/mathml_to_latex/converter.py
+++ b/src/mathml_to_latex/converter.py
@@ -10,9 +10,8 @@ class MathMLToLaTeX:
             MathMLElementToLatexConverterAdapter().to_latex_converter(mathml_element)
             for mathml_element in mathml_elements
         ]
-        return "".join(
-            [
-                to_latex_converters.convert()
-                for to_latex_converters in mathml_elements_to_latex_converters
-            ]
-        ).strip()
+        formulas = [
+            to_latex_converters.convert()
+            for to_latex_converters in mathml_elements_to_latex_converters
+        ]
+        return " ".join(formula for formula in formulas if formula).strip()
-- 
2.43.0


From cc59d3a46562d0afae2efcbe65396f93380dde94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 04/36] fix: convert a math element nested in another only once

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 526bb37..a3e5c80 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -34,6 +34,14 @@ class XmlToMathMLAdapter:
         ms_word_prefix_pattern = re.compile(r"mml:")
         return ms_word_prefix_pattern.sub("", xml)
 
+    def _is_inside_math(self, element: Element) -> bool:
+        parent = element.parentNode
+        while parent is not None:
+            if parent.nodeName == "math":
+                return True
+            parent = parent.parentNode
+        return False
+
     @property
     def _mathml_elements(self) -> List[Element]:
         exception = None
@@ -42,7 +50,7 @@ class XmlToMathMLAdapter:
             try:
                 dom = parseString(self._xml)
                 elements = dom.getElementsByTagName("math")
-                return list(elements)
+                return [el for el in elements if not self._is_inside_math(el)]
             except Exception as e:
                 self._fix_error(e)
                 exception = e
-- 
2.43.0


From 1aa0551afd413489bce60f7b97df1ce8a459257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:25 +0000
Subject: [PATCH 05/36] fix: report an empty maction as a wrong number of
 children, not IndexError

---
 src/mathml_to_latex/el_to_tex/usecases.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 60a67b4..b3765fd 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -508,6 +508,11 @@ class MAction(ToLaTeXConverter):
                 ]
             )
 
+        if not children:
+            raise InvalidNumberOfChildrenError(
+                self._math_element.name, 1, 0, "at least"
+            )
+
         return self._adapter.to_latex_converter(children[0]).convert()
 
     def _is_toggle(self) -> bool:
-- 
2.43.0


From ea82b899e2cc0237edff47966ead03525d7b37e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 06/36] fix: strip the mml: prefix from tags only, not from the
 text of tokens

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index a3e5c80..e29f6b4 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -31,8 +31,11 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml)
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        ms_word_prefix_pattern = re.compile(r"mml:")
-        return ms_word_prefix_pattern.sub("", xml)
+        tag_pattern = re.compile(r"<[^<>]*>")
+        ms_word_prefix_pattern = re.compile(r"(?<=[</\s])mml:")
+        return tag_pattern.sub(
+            lambda tag: ms_word_prefix_pattern.sub("", tag.group()), xml
+        )
 
     def _is_inside_math(self, element: Element) -> bool:
         parent = element.parentNode
-- 
2.43.0


From a9e2a9555e968091628ed2c8e51701eb3314e8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 07/36] fix: repair attributes without a value without touching
 anything else

The repair removed the attribute's name wherever it stood in the document,
deleted the ampersands of entities, failed for all but one place in a tag
and cut ill-formed documents down to a part of them.
---
 .../xml_to_mathml/services/error_handler.py   | 82 +++++++------------
 1 file changed, 30 insertions(+), 52 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 34c6b6c..0288118 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -10,65 +10,43 @@ class ErrorHandler:
         if not isinstance(error, ExpatError):
             return xml
 
-        return self._fix_missing_attribute(error, xml)
+        return self._fix_missing_attribute(xml)
 
-    def _fix_missing_attribute(self, error: ExpatError, xml: str) -> str:
-        result = self._fix_missing_attribute_value(error, xml)
-        if result != xml:
-            return result
-
-        pattern = self._math_generic_missing_value()
-        counter = 0
-        while re.search(pattern, xml) and counter < 5:
-            counter += 1
-            # Replace the matched pattern by removing the missing attribute value
-            result = re.sub(pattern, r"\1\3", xml)
-        return result
-
-    def _fix_missing_attribute_value(self, error: ExpatError, xml: str):
-        error_code = error.code
-        if error_code != 4:
-            return xml
-
-        error_line = error.lineno
-        error_offset = error.offset
-
-        goal_line = xml.split("\n")[error_line - 1]
-        word = self._get_word_at_str_pos(goal_line, error_offset)
-
-        pattern = self._match_missing_value_for_attribute(word)
-        return re.sub(pattern, "", xml)
-
-    def _match_missing_value_for_attribute(self, attribute: str) -> re.Pattern:
+    def _fix_missing_attribute(self, xml: str) -> str:
         """
-        Constructs a regex pattern to find the specified attribute
-        without a value (i.e., attribute= not followed by " or ').
+        Removes the attributes without a value from every tag, and leaves
+        everything else as it is.
         """
-        escaped_attribute = re.escape(attribute)
-        regex_pattern = (
-            rf'({escaped_attribute}=(?!(["\'])))|({escaped_attribute}(?!(["\'])))'
+        return re.sub(self._match_markup(), self._fix_markup, xml)
+
+    def _fix_markup(self, markup: re.Match) -> str:
+        if markup.group("tag") is None:
+            return markup.group()
+
+        return re.sub(
+            self._match_attribute(),
+            lambda attribute: attribute.group() if attribute.group("value") else "",
+            markup.group(),
         )
-        return re.compile(regex_pattern, re.MULTILINE)
 
-    def _math_generic_missing_value(self) -> re.Pattern:
+    def _match_markup(self) -> re.Pattern:
         """
-        Constructs a generic regex pattern to find any attribute
-        without a value within a math element.
+        Constructs a regex pattern to find the start tags. Comments, CDATA
+        sections and processing instructions are matched too, so that what
+        looks like a tag inside of them is not taken for one.
         """
-        # This pattern matches:
-        # Group 1: <... (anything up to a space)
-        # Group 2: attribute= not followed by " or '
-        # Group 3: ...> (anything up to >)
-        return re.compile(r'(<.* )(\w+=(?!(["\'])))?(.*>)', re.MULTILINE)
+        return re.compile(
+            r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
+            r"""|(?P<tag><[^\s<>"'/!?](?:[^<>"']|"[^"<]*"|'[^'<]*')*>)""",
+            re.DOTALL,
+        )
 
-    def _get_word_at_str_pos(self, string: str, pos: int) -> str:
+    def _match_attribute(self) -> re.Pattern:
         """
-        Returns the word at the specified position in the string.
+        Constructs a regex pattern to find an attribute: either one with a
+        quoted value, or one without a value (attribute or attribute=).
         """
-        start = pos
-        end = pos
-        while start > 0 and string[start - 1] != " ":
-            start -= 1
-        while end < len(string) and string[end] != " " and string[end] != ">":
-            end += 1
-        return string[start:end]
+        return re.compile(
+            r"""\s+[^\s=<>"'/]+(?:\s*=\s*(?P<value>"[^"]*"|'[^']*')"""
+            r"""|\s*=(?=\s|/?>)|(?=\s|/?>))"""
+        )
-- 
2.43.0


From a80b89b57d7d983b30b1be256ca9ed729a2ef23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:13 +0000
Subject: [PATCH 08/36] fix: group a scripted base that lies inside
 single-child wrappers, in every script element

A base of several parts was left without parentheses when it sat in an
extra mrow, and always in munderover, so the script applied to the last
part only, or LaTeX got a double script.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 68 ++++++++++++-----------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index b3765fd..02d059c 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -193,7 +193,27 @@ class MN(ToLaTeXConverter):
         return converted_value or normalized_value
 
 
-class MSup(ToLaTeXConverter):
+class ScriptedBase:
+    def _handle_base_child(self, base: MathMLElement) -> str:
+        base_children = self._look_through_wrappers(base).children
+        base_str = self._adapter.to_latex_converter(base).convert()
+
+        if len(base_children) <= 1:
+            return base_str
+
+        return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
+
+    def _look_through_wrappers(self, base: MathMLElement) -> MathMLElement:
+        while len(base.children) == 1 and self._is_transparent(base):
+            base = base.children[0]
+        return base
+
+    def _is_transparent(self, element: MathMLElement) -> bool:
+        converter = self._adapter.to_latex_converter(element)
+        return isinstance(converter, (GenericSpacingWrapper, MAction, Math))
+
+
+class MSup(ScriptedBase, ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
@@ -213,14 +233,6 @@ class MSup(ToLaTeXConverter):
 
         return f"{self._handle_base_child(base_child)}^{self._handle_exponent_child(exponent_child)}"
 
-    def _handle_base_child(self, base: MathMLElement) -> str:
-        base_children = base.children
-        base_str = self._adapter.to_latex_converter(base).convert()
-
-        if len(base_children) <= 1:
-            return base_str
-
-        return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
 
     def _handle_exponent_child(self, exponent: MathMLElement) -> str:
         exponent_str = self._adapter.to_latex_converter(exponent).convert()
@@ -409,7 +421,7 @@ class MTr(ToLaTeXConverter):
         )
 
 
-class MSub(ToLaTeXConverter):
+class MSub(ScriptedBase, ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
@@ -429,14 +441,6 @@ class MSub(ToLaTeXConverter):
 
         return f"{self._handle_base_child(base_child)}_{self._handle_subscript_child(subscript_child)}"
 
-    def _handle_base_child(self, base: MathMLElement) -> str:
-        base_children = base.children
-        base_str = self._adapter.to_latex_converter(base).convert()
-
-        if len(base_children) <= 1:
-            return base_str
-
-        return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
 
     def _handle_subscript_child(self, subscript: MathMLElement) -> str:
         subscript_str = self._adapter.to_latex_converter(subscript).convert()
@@ -579,7 +583,7 @@ class MError(ToLaTeXConverter):
         return f"\\color{{red}}{{{latex_joined_children}}}"
 
 
-class MSubsup(ToLaTeXConverter):
+class MSubsup(ScriptedBase, ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
@@ -600,14 +604,6 @@ class MSubsup(ToLaTeXConverter):
 
         return f"{self._handle_base_child(base_child)}_{self._handle_subscript_child(subscript_child)}^{self._handle_superscript_child(superscript_child)}"
 
-    def _handle_base_child(self, base: MathMLElement) -> str:
-        base_children = base.children
-        base_str = self._adapter.to_latex_converter(base).convert()
-
-        if len(base_children) <= 1:
-            return base_str
-
-        return self._parenthesis_wrapper.wrap_if_more_than_one_char(base_str)
 
     def _handle_subscript_child(self, subscript: MathMLElement) -> str:
         subscript_str = self._adapter.to_latex_converter(subscript).convert()
@@ -741,10 +737,11 @@ class GenericUnderOver(ToLaTeXConverter):
         return UnderOverSetter(ty).apply(content, accent)
 
 
-class MUnderover(ToLaTeXConverter):
+class MUnderover(ScriptedBase, ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
+        self._parenthesis_wrapper = ParenthesisWrapper()
 
     def convert(self) -> str:
         name = self._math_element.name
@@ -754,14 +751,14 @@ class MUnderover(ToLaTeXConverter):
         if children_length != 3:
             raise InvalidNumberOfChildrenError(name, 3, children_length)
 
-        base = self._adapter.to_latex_converter(children[0]).convert()
+        base = self._handle_base_child(children[0])
         under_content = self._adapter.to_latex_converter(children[1]).convert()
         over_content = self._adapter.to_latex_converter(children[2]).convert()
 
         return f"{base}_{{{under_content}}}^{{{over_content}}}"
 
 
-class MMultiscripts(ToLaTeXConverter):
+class MMultiscripts(ScriptedBase, ToLaTeXConverter):
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
@@ -775,14 +772,19 @@ class MMultiscripts(ToLaTeXConverter):
         if children_length < 3:
             raise InvalidNumberOfChildrenError(name, 3, children_length, "at least")
 
-        base_content = self._adapter.to_latex_converter(children[0]).convert()
-
         return (
             self._prescript_latex()
-            + self._wrap_in_parenthesis_if_there_is_space(base_content)
+            + self._base_latex(children[0])
             + self._postscript_latex()
         )
 
+    def _base_latex(self, base: MathMLElement) -> str:
+        if len(self._look_through_wrappers(base).children) > 1:
+            return self._handle_base_child(base)
+
+        base_content = self._adapter.to_latex_converter(base).convert()
+        return self._wrap_in_parenthesis_if_there_is_space(base_content)
+
     def _prescript_latex(self) -> str:
         children = self._math_element.children
 
-- 
2.43.0


From 2122cc1ce6a3da54c9110b1880c962b7bb226add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 09/36] fix: give a script on an empty base an empty group to
 stand on

Without one the script attached to whatever came before it, or LaTeX got
a double script.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 02d059c..938d383 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -198,6 +198,9 @@ class ScriptedBase:
         base_children = self._look_through_wrappers(base).children
         base_str = self._adapter.to_latex_converter(base).convert()
 
+        if not base_str.strip():
+            return "{}"
+
         if len(base_children) <= 1:
             return base_str
 
@@ -233,7 +236,6 @@ class MSup(ScriptedBase, ToLaTeXConverter):
 
         return f"{self._handle_base_child(base_child)}^{self._handle_exponent_child(exponent_child)}"
 
-
     def _handle_exponent_child(self, exponent: MathMLElement) -> str:
         exponent_str = self._adapter.to_latex_converter(exponent).convert()
 
@@ -441,7 +443,6 @@ class MSub(ScriptedBase, ToLaTeXConverter):
 
         return f"{self._handle_base_child(base_child)}_{self._handle_subscript_child(subscript_child)}"
 
-
     def _handle_subscript_child(self, subscript: MathMLElement) -> str:
         subscript_str = self._adapter.to_latex_converter(subscript).convert()
 
@@ -604,7 +605,6 @@ class MSubsup(ScriptedBase, ToLaTeXConverter):
 
         return f"{self._handle_base_child(base_child)}_{self._handle_subscript_child(subscript_child)}^{self._handle_superscript_child(superscript_child)}"
 
-
     def _handle_subscript_child(self, subscript: MathMLElement) -> str:
         subscript_str = self._adapter.to_latex_converter(subscript).convert()
 
@@ -779,10 +779,11 @@ class MMultiscripts(ScriptedBase, ToLaTeXConverter):
         )
 
     def _base_latex(self, base: MathMLElement) -> str:
+        base_content = self._handle_base_child(base)
+
         if len(self._look_through_wrappers(base).children) > 1:
-            return self._handle_base_child(base)
+            return base_content
 
-        base_content = self._adapter.to_latex_converter(base).convert()
         return self._wrap_in_parenthesis_if_there_is_space(base_content)
 
     def _prescript_latex(self) -> str:
-- 
2.43.0


From 790de521c750e26d2dc7e6899799466139190baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 10/36] fix: give the over and under line accents their
 argument

---
 src/mathml_to_latex/el_to_tex/usecases.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 938d383..40fa1e3 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -698,7 +698,14 @@ class UnderOverSetter:
         self._type = ty
 
     def apply(self, content: str, accent: str) -> str:
-        latex_accents = ["\\hat", "\\bar", "\\underbrace", "\\overbrace"]
+        latex_accents = [
+            "\\hat",
+            "\\bar",
+            "\\underbrace",
+            "\\overbrace",
+            "\\overline",
+            "\\underline",
+        ]
         return (
             f"{accent}{{{content}}}"
             if accent in latex_accents
-- 
2.43.0


From a357da93090161f3ee8f0afa69bff07ab7d3ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 11/36] fix: take bevelled="false" for a normal fraction

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 40fa1e3..4908b4c 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -475,7 +475,7 @@ class MFrac(ToLaTeXConverter):
         return self._parenthesis_wrapper.wrap_if_more_than_one_char(val)
 
     def _is_bevelled(self) -> bool:
-        return bool(self._math_element.attributes.get("bevelled"))
+        return self._math_element.attributes.get("bevelled") == "true"
 
 
 class MRoot(ToLaTeXConverter):
-- 
2.43.0


From dcb2b863937817751572b691c65e13c894b014b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 12/36] fix: keep a root index that contains a bracket inside
 its brackets

---
 src/mathml_to_latex/el_to_tex/usecases.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 4908b4c..ba4d9c0 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -494,6 +494,9 @@ class MRoot(ToLaTeXConverter):
         content = self._adapter.to_latex_converter(children[0]).convert()
         root_index = self._adapter.to_latex_converter(children[1]).convert()
 
+        if "]" in root_index:
+            root_index = f"{{{root_index}}}"
+
         return f"\\sqrt[{root_index}]{{{content}}}"
 
 
-- 
2.43.0


From 247cfca0482295f2dd85db6732dd418d911c9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 13/36] fix: separate the parts of a fenced matrix by a space

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index ba4d9c0..5ab8fa8 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -322,7 +322,7 @@ class Matrix:
 
     def apply(self, latex_contents):
         command = self._command
-        matrix = f'\\begin{{{command}}}\n{"".join(latex_contents)}\n\\end{{{command}}}'
+        matrix = f'\\begin{{{command}}}\n{" ".join(latex_contents)}\n\\end{{{command}}}'
 
         return (
             self._separators.wrap(matrix)
-- 
2.43.0


From 4ebdc61a19ff558bb8905689bc5bdbc171e615bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 14/36] fix: ignore white space between the separators of
 mfenced

---
 src/mathml_to_latex/el_to_tex/usecases.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 5ab8fa8..536b4ce 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -353,7 +353,8 @@ class MFenced(ToLaTeXConverter):
         self._adapter = adapter
         self._open = self._math_element.attributes.get("open", "")
         self._close = self._math_element.attributes.get("close", "")
-        self._separators = list(self._math_element.attributes.get("separators", ""))
+        separators = self._math_element.attributes.get("separators", "")
+        self._separators = [char for char in separators if not char.isspace()]
 
     def convert(self) -> str:
         latex_children = [
-- 
2.43.0


From 1f22e4beb818f803bb2d2dec419e6b13a4a6c542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 15/36] fix: keep every pair of scripts of mmultiscripts

Only the first pair after the base was converted, and prescripts only at
two fixed places; the others were dropped from the output.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 47 ++++++++++++-----------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 536b4ce..fb75074 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -798,37 +798,38 @@ class MMultiscripts(ScriptedBase, ToLaTeXConverter):
         return self._wrap_in_parenthesis_if_there_is_space(base_content)
 
     def _prescript_latex(self) -> str:
-        children = self._math_element.children
+        _, prescripts = self._split_scripts()
 
-        if len(children) >= 4 and self._is_prescripts(children[1]):
-            sub = children[2]
-            sup = children[3]
-        elif len(children) >= 6 and self._is_prescripts(children[3]):
-            sub = children[4]
-            sup = children[5]
-        else:
-            return ""
+        return "".join(
+            f"\\_{{{sub_latex}}}^{{{sup_latex}}}"
+            for sub_latex, sup_latex in self._convert_pairs(prescripts)
+        )
 
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
+    def _postscript_latex(self) -> str:
+        postscripts, _ = self._split_scripts()
 
-        return f"\\_{{{sub_latex}}}^{{{sup_latex}}}"
+        return "{}".join(
+            f"_{{{sub_latex}}}^{{{sup_latex}}}"
+            for sub_latex, sup_latex in self._convert_pairs(postscripts)
+        )
 
-    def _postscript_latex(self) -> str:
-        children = self._math_element.children
+    def _split_scripts(self):
+        scripts = self._math_element.children[1:]
 
-        if len(children) < 3 or (
-            len(children) >= 1 and self._is_prescripts(children[1])
-        ):
-            return ""
+        for index, script in enumerate(scripts):
+            if self._is_prescripts(script):
+                return scripts[:index], scripts[index + 1 :]
 
-        sub = children[1]
-        sup = children[2]
+        return scripts, []
 
-        sub_latex = self._adapter.to_latex_converter(sub).convert()
-        sup_latex = self._adapter.to_latex_converter(sup).convert()
+    def _convert_pairs(self, scripts: List[MathMLElement]):
+        latex = [
+            self._adapter.to_latex_converter(script).convert() for script in scripts
+        ]
+        if len(latex) % 2 == 1:
+            latex.append("")
 
-        return f"_{{{sub_latex}}}^{{{sup_latex}}}"
+        return list(zip(latex[::2], latex[1::2]))
 
     def _wrap_in_parenthesis_if_there_is_space(self, val: str) -> str:
         if not re.search(r"\s+", val):
-- 
2.43.0


From bd7c0566780fd93ffe48420d75cdc1b818bdb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:42 +0000
Subject: [PATCH 16/36] fix: escape the characters of tokens that LaTeX takes
 for its own

A %, &, #, $, _, ~, ^, brace or backslash in a longer token, in a number
or between separators came out raw, so it commented the rest out, opened
a group or began a command.
---
 .../el_to_tex/services/escaper.py             | 25 +++++++++++++++++++
 src/mathml_to_latex/el_to_tex/usecases.py     | 20 ++++++++++++---
 2 files changed, 41 insertions(+), 4 deletions(-)
 create mode 100644 src/mathml_to_latex/el_to_tex/services/escaper.py

diff --git a/src/mathml_to_latex/el_to_tex/services/escaper.py b/src/mathml_to_latex/el_to_tex/services/escaper.py
new file mode 100644
index 0000000..6a1768d
--- /dev/null
+++ b/src/mathml_to_latex/el_to_tex/services/escaper.py
@@ -0,0 +1,25 @@
+import re
+
+
+class LaTeXEscaper:
+    """
+    Escapes the characters that have a meaning of their own in LaTeX.
+    """
+
+    _escapes = {
+        "#": "\\#",
+        "$": "\\$",
+        "%": "\\%",
+        "&": "\\&",
+        "_": "\\_",
+        "{": "\\{",
+        "}": "\\}",
+        "^": "\\hat{}",
+        "~": "\\sim ",
+        "\\": "\\backslash ",
+    }
+
+    def escape(self, string: str) -> str:
+        return re.sub(
+            r"[#$%&_{}^~\\]", lambda char: self._escapes[char.group()], string
+        ).rstrip()
diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index fb75074..c3a5ef8 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -16,6 +16,7 @@ from .protocols import (
     InvalidNumberOfChildrenError,
     MIMathMlElement,
 )
+from .services.escaper import LaTeXEscaper
 from .services.normalizer import WhiteSpaceNormalizer
 from .services.wrapper import (
     ParenthesisWrapper,
@@ -119,9 +120,14 @@ class Character:
             self._find_by_character()
             or self._find_by_glyph()
             or self._find_by_number()
-            or HashUTF8ToLtXConverter().convert(self.value)
+            or self._convert_or_escape()
         )
 
+    def _convert_or_escape(self) -> str:
+        converted = HashUTF8ToLtXConverter().convert(self.value)
+
+        return LaTeXEscaper().escape(converted) if converted == self.value else converted
+
     def _find_by_character(self) -> str:
         return all_math_symbols_by_char.get(self.value, "")
 
@@ -169,7 +175,11 @@ class Operator:
             return latex_command
 
         # Fallback to converting using HashUTF8ToLtXConverter
-        return HashUTF8ToLtXConverter().convert(self._value)
+        converted = HashUTF8ToLtXConverter().convert(self._value)
+
+        return (
+            LaTeXEscaper().escape(converted) if converted == self._value else converted
+        )
 
     def _find_by_character(self) -> Optional[str]:
         return all_math_operators_by_char.get(self._value)
@@ -190,7 +200,7 @@ class MN(ToLaTeXConverter):
         normalized_value = self._normalizer.normalize(self._math_element.value).strip()
         converted_value = math_number_by_glyph.get(normalized_value, "")
 
-        return converted_value or normalized_value
+        return converted_value or LaTeXEscaper().escape(normalized_value)
 
 
 class ScriptedBase:
@@ -354,7 +364,9 @@ class MFenced(ToLaTeXConverter):
         self._open = self._math_element.attributes.get("open", "")
         self._close = self._math_element.attributes.get("close", "")
         separators = self._math_element.attributes.get("separators", "")
-        self._separators = [char for char in separators if not char.isspace()]
+        self._separators = [
+            LaTeXEscaper().escape(char) for char in separators if not char.isspace()
+        ]
 
     def convert(self) -> str:
         latex_children = [
-- 
2.43.0


From 2e4bd89d14e7da71d4dc36b3551addcc082e4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:10 +0000
Subject: [PATCH 17/36] fix: keep a tab or no-break space between two words of
 mtext

---
 src/mathml_to_latex/el_to_tex/usecases.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index c3a5ef8..fc66889 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -672,7 +672,7 @@ class MText(ToLaTeXConverter):
 
     def convert(self) -> str:
         attributes = self._math_element.attributes
-        value = self._math_element.value
+        value = re.sub(r"\s", " ", self._math_element.value)
 
         chars = [
             (
-- 
2.43.0


From 12fdc630fb33306f2537782d94e10e2c3adc7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 18/36] fix: keep a command of mtext apart from the letter that
 follows it

---
 src/mathml_to_latex/el_to_tex/usecases.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index fc66889..9cc95e2 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -692,7 +692,7 @@ class MText(ToLaTeXConverter):
                     continue
             merged_chars.append(char)
 
-        return "".join(
+        return self._join(
             [
                 (
                     MI(MIMathMlElement(char.value)).convert()
@@ -703,6 +703,15 @@ class MText(ToLaTeXConverter):
             ]
         )
 
+    def _join(self, pieces: List[str]) -> str:
+        separated = pieces[:1]
+        for previous, piece in zip(pieces, pieces[1:]):
+            ends_with_command = re.search(r"\\[a-zA-Z]+$", previous)
+            separator = " " if ends_with_command and piece[:1].isalpha() else ""
+            separated.append(separator + piece)
+
+        return "".join(separated)
+
 
 class TagTypes(Enum):
     Under = 1
-- 
2.43.0


From fddabadacf8c070440696d6315b9ca60dcac4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:16 +0000
Subject: [PATCH 19/36] fix: leave the invisible operators out of the output

They came out as raw control characters, and the invisible separator as a
double bracket.
---
 src/mathml_to_latex/el_to_tex/usecases.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 9cc95e2..3303646 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -139,6 +139,9 @@ class Character:
 
 
 class MO(ToLaTeXConverter):
+    # Function application, invisible times, invisible separator, invisible plus
+    _invisible_operators = ["\u2061", "\u2062", "\u2063", "\u2064"]
+
     def __init__(self, math_element: MathMLElement):
         self.normalizer = WhiteSpaceNormalizer()
         self._math_element = math_element
@@ -147,6 +150,9 @@ class MO(ToLaTeXConverter):
         normalized_value = self.normalizer.normalize(self._math_element.value)
         trimmed_value = normalized_value.strip()
 
+        if trimmed_value in self._invisible_operators:
+            return ""
+
         return Operator.operate(trimmed_value)
 
 
-- 
2.43.0


From 5a95595aab4c27fd3d402b40d035e1a215c7782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 20/36] fix: leave annotations out of the formula they annotate

Presentation markup in an annotation-xml was converted as well, so the
formula came out twice.
---
 src/mathml_to_latex/el_to_tex/adapter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/adapter.py b/src/mathml_to_latex/el_to_tex/adapter.py
index 6e8043c..2fdb16d 100644
--- a/src/mathml_to_latex/el_to_tex/adapter.py
+++ b/src/mathml_to_latex/el_to_tex/adapter.py
@@ -48,6 +48,8 @@ class MathMLElementToLatexConverterAdapter:
             "menclose": self._make_menclose_tag_converter,
             "merror": self._make_merror_tag_converter,
             "mphantom": Void,
+            "annotation": Void,
+            "annotation-xml": Void,
             "msup": self._make_msup_tag_converter,
             "msub": self._make_msub_tag_converter,
             "msubsup": self._make_msubsup_tag_converter,
-- 
2.43.0


From 49a961204ab9c1e9e7fa0569b3e11f8fd34c9e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:10 +0000
Subject: [PATCH 21/36] fix: do not take an attribute of the input for the
 inner table flag

---
 src/mathml_to_latex/el_to_tex/usecases.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 3303646..b83f856 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -396,11 +396,14 @@ class MFenced(ToLaTeXConverter):
 
 
 class MTable(ToLaTeXConverter):
+    # Not a legal XML name, so that no attribute of the input can be taken for it
+    _inner_table_flag = "#innerTable"
+
     def __init__(self, math_element: MathMLElement, adapter):
         self._math_element = math_element
         self._adapter = adapter
         self._add_flag_recursive_if_name(
-            self._math_element.children, "mtable", "innerTable"
+            self._math_element.children, "mtable", self._inner_table_flag
         )
 
     def convert(self) -> str:
@@ -412,7 +415,7 @@ class MTable(ToLaTeXConverter):
         )
 
         return (
-            self._wrap(table_content) if self._has_flag("innerTable") else table_content
+            self._wrap(table_content) if self._has_flag(self._inner_table_flag) else table_content
         )
 
     def _wrap(self, latex: str) -> str:
-- 
2.43.0


From 5c321c64b0894c7048ec8244b4ea255cef326483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:36 +0000
Subject: [PATCH 22/36] fix: correct the operators that were mapped to
 something that is not LaTeX

---
 src/mathml_to_latex/syntax.py | 48 +++++++++++++++++------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a8e8050..a0139e8 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1563,7 +1563,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A64;': '',
     '&#x2A63;': '\\underset{=}{\\vee}',
     '&#x2A62;': '\\overset{=}{\\vee}',
-    '&#x2A61;': 'ul(vv)',
+    '&#x2A61;': '\\underline{\\vee}',
     '&#x2A60;': '\\underset{=}{\\wedge}',
     '&#x2A5F;': '\\underline{\\wedge}',
     '&#x2A5E;': '\\overset{=}{\\wedge}',
@@ -1636,7 +1636,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x29FA;': '\\hcancel{||}',
     '&#x29F9;': '\\backslash',
     '&#x29F8;': '/',
-    '&#x29F7;': 'hcancel{\backslash}',
+    '&#x29F7;': '\\hcancel{\\backslash}',
     '&#x29F6;': '',
     '&#x29F5;': '\\backslash',
     '&#x29F2;': '\\Phi',
@@ -1801,12 +1801,12 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2278;': '\\not\\overset{>}{<}',
     '&#x2277;': '\\overset{>}{<}',
     '&#x2276;': '\\overset{<}{>}',
-    '&#x2275;': '\\not\\geg',
+    '&#x2275;': '\\not\\geq',
     '&#x2274;': '\\not\\leq',
-    '&#x2273;': '\\geg',
+    '&#x2273;': '\\geq',
     '&#x2272;': '\\leq',
     '&#x226C;': '',
-    '&#x2267;': '\\geg',
+    '&#x2267;': '\\geq',
     '&#x2266;&#x338;': '\\not\\leq',
     '&#x2266;': '\\leq',
     '&#x2263;': '\\overset{=}{=} ',
@@ -1921,8 +1921,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x227C;': '\\preceq',
     '&#x227B;': '\\succ',
     '&#x227A;': '\\prec',
-    '&#x2271;': '\\geq/',
-    '&#x2270;': '\\leq/',
+    '&#x2271;': '\\ngeq',
+    '&#x2270;': '\\nleq',
     '&#x226D;': '\\neq',
     '&#x226B;&#x338;': '\\not\\gg',
     '&#x226B;': '\\gg',
@@ -1958,13 +1958,13 @@ all_math_operators_by_char: Dict[str, str] = {
     '*=': '*=',
     '!=': '!=',
     '&#x2260;': '\\neq',
-    '&#x2262;': '\\equiv /',
-    '&#x2249;': '\\approx /',
-    '&#x223C;': 'sim',
+    '&#x2262;': '\\not\\equiv',
+    '&#x2249;': '\\not\\approx',
+    '&#x223C;': '\\sim',
     '&#x2248;': '\\approx',
-    '&#x226E;': '</',
+    '&#x226E;': '\\nless',
     '&lt;': '<',
-    '&#x226F;': '>/',
+    '&#x226F;': '\\ngtr',
     '>=': '>=',
     '>': '>',
     '&#x2265;': '\\geq',
@@ -2682,7 +2682,7 @@ all_math_operators_by_glyph = {
   '⩤': '',
   '⩣': '\\underset{=}{\\vee}',
   '⩢': '\\overset{=}{\\vee}',
-  '⩡': 'ul(vv)',
+  '⩡': '\\underline{\\vee}',
   '⩠': '\\underset{=}{\\wedge}',
   '⩟': '\\underline{\\wedge}',
   '⩞': '\\overset{=}{\\wedge}',
@@ -2756,7 +2756,7 @@ all_math_operators_by_glyph = {
   '⧺': '\\hcancel{||}',
   '⧹': '\\backslash',
   '⧸': '/',
-  '⧷': 'hcancel{\backslash}',
+  '⧷': '\\hcancel{\\backslash}',
   '⧶': '',
   '⧵': '\\backslash',
   '⧲': '\\Phi',
@@ -2924,12 +2924,12 @@ all_math_operators_by_glyph = {
   '≸': '\\not\\overset{>}{<}',
   '≷': '\\overset{>}{<}',
   '≶': '\\overset{<}{>}',
-  '≵': '\\not\\geg',
+  '≵': '\\not\\geq',
   '≴': '\\not\\leq',
-  '≳': '\\geg',
+  '≳': '\\geq',
   '≲': '\\leq',
   '≬': '',
-  '≧': '\\geg',
+  '≧': '\\geq',
   '≦̸': '\\not\\leq',
   '≦': '\\leq',
   '≣': '\\overset{=}{=} ',
@@ -3043,8 +3043,8 @@ all_math_operators_by_glyph = {
   '≼': '\\preceq',
   '≻': '\\succ',
   '≺': '\\prec',
-  '≱': '\\geq/',
-  '≰': '\\leq/',
+  '≱': '\\ngeq',
+  '≰': '\\nleq',
   '≭': '\\neq',
   '≫̸': '\\not\\gg',
   '≫': '\\gg',
@@ -3080,13 +3080,13 @@ all_math_operators_by_glyph = {
   '*=': '*=',
   '!=': '!=',
   '≠': '\\neq',
-  '≢': '\\equiv /',
-  '≉': '\\approx /',
-  '∼': 'sim',
+  '≢': '\\not\\equiv',
+  '≉': '\\not\\approx',
+  '∼': '\\sim',
   '≈': '\\approx',
-  '≮': '</',
+  '≮': '\\nless',
   '<': '<',
-  '≯': '>/',
+  '≯': '\\ngtr',
   '>=': '>=',
   '>': '>',
   '≥': '\\geq',
-- 
2.43.0


From c1c4f50a361731d86cecf399eaa1fb424d7901c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 23/36] fix: correct the operators that were mapped to a
 different operator

Among them minus-plus, the negated relations that lost their negation or
negated something else, and arrows and brackets pointing the wrong way.
---
 src/mathml_to_latex/syntax.py | 124 +++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 62 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index a0139e8..d98a2de 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -1133,7 +1133,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x229F;': '\\boxminus',
     '&#x229E;': '\\boxplus',
     '&#x2214;': '\\dot{+}',
-    '&#x2213;': '+-',
+    '&#x2213;': '\\mp',
     '&#x2212;': '-',
     '&#xB1;': '\\pm',
     '-': '-',
@@ -1154,7 +1154,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x297E;': '',
     '&#x297D;': '\\prec',
     '&#x297C;': '\\succ',
-    '&#x297B;': '\\underset{\\rightarrow}{\\supset}',
+    '&#x297B;': '\\underset{\\leftarrow}{\\supset}',
     '&#x297A;': '',
     '&#x2979;': '\\underset{\\rightarrow}{\\subset}',
     '&#x2978;': '\\underset{\\rightarrow}{>}',
@@ -1307,7 +1307,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x21F3;': '\\Updownarrow',
     '&#x21F2;': '\\searrow',
     '&#x21F1;': '\\nwarrow',
-    '&#x21F0;': '\\Leftarrow',
+    '&#x21F0;': '\\Rightarrow',
     '&#x21EF;': '\\Uparrow',
     '&#x21EE;': '\\Uparrow',
     '&#x21ED;': '\\Uparrow',
@@ -1381,7 +1381,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x21A9;': '\\hookleftarrow',
     '&#x21A8;': '\\underline{\\updownarrow}',
     '&#x21A7;': '\\downarrow',
-    '&#x21A6;': '\\rightarrowtail',
+    '&#x21A6;': '\\mapsto',
     '&#x21A5;': '\\uparrow',
     '&#x21A4;': '\\leftarrowtail',
     '&#x21A3;': '\\rightarrowtail',
@@ -1486,7 +1486,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2AB1;': '',
     '&#x2AAE;': '',
     '&#x2AAD;': '\\underline{\\hcancel{>}}',
-    '&#x2AAC;': '\\underline{\\hcancel{>}}',
+    '&#x2AAC;': '\\underline{\\hcancel{<}}',
     '&#x2AAB;': '\\hcancel{>}',
     '&#x2AAA;': '\\hcancel{<}',
     '&#x2AA9;': '',
@@ -1523,7 +1523,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A8C;': '\\gtreqqless',
     '&#x2A8B;': '\\lesseqqgtr',
     '&#x2A8A;': '\\underset{\\cancel{\\approx}}{>}',
-    '&#x2A89;': '\\underset{\\approx}{<}',
+    '&#x2A89;': '\\underset{\\cancel{\\approx}}{<}',
     '&#x2A86;': '\\underset{\\approx}{>}',
     '&#x2A85;': '\\underset{\\approx}{<}',
     '&#x2A84;': '',
@@ -1572,8 +1572,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2A5B;': '',
     '&#x2A5A;': '',
     '&#x2A59;': '',
-    '&#x2A58;': '\\vee',
-    '&#x2A57;': '\\wedge',
+    '&#x2A58;': '\\wedge',
+    '&#x2A57;': '\\vee',
     '&#x2A56;': '',
     '&#x2A55;': '',
     '&#x2A54;': '',
@@ -1656,9 +1656,9 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x29DE;': '',
     '&#x29DD;': '',
     '&#x29DC;': '',
-    '&#x29DB;': '\\{\\{',
-    '&#x29D9;': '\\{',
-    '&#x29D8;': '\\}',
+    '&#x29DB;': '\\}\\}',
+    '&#x29D9;': '\\}',
+    '&#x29D8;': '\\{',
     '&#x29D7;': '',
     '&#x29D6;': '',
     '&#x29D5;': '\\bowtie',
@@ -1722,9 +1722,9 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22FF;': '\\Epsilon',
     '&#x22FE;': '\\overline{\\ni}',
     '&#x22FD;': '\\overline{\\ni}',
-    '&#x22FC;': '\\in',
-    '&#x22FB;': '\\in',
-    '&#x22FA;': '\\in',
+    '&#x22FC;': '\\ni',
+    '&#x22FB;': '\\ni',
+    '&#x22FA;': '\\ni',
     '&#x22F9;': '\\underline{\\in}',
     '&#x22F8;': '\\underline{\\in}',
     '&#x22F7;': '\\overline{\\in}',
@@ -1734,22 +1734,22 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22F3;': '\\in',
     '&#x22F2;': '\\in',
     '&#x22F0;': '\\ddots',
-    '&#x22E9;': '\\underset{\\sim}{\\succ}',
-    '&#x22E8;': '\\underset{\\sim}{\\prec}',
+    '&#x22E9;': '\\underset{\\not\\sim}{\\succ}',
+    '&#x22E8;': '\\underset{\\not\\sim}{\\prec}',
     '&#x22E7;': '\\underset{\\not\\sim}{>}',
     '&#x22E6;': '\\underset{\\not\\sim}{<}',
     '&#x22E5;': '\\not\\sqsupseteq',
     '&#x22E4;': '\\not\\sqsubseteq',
     '&#x22E3;': '\\not\\sqsupseteq',
     '&#x22E2;': '\\not\\sqsubseteq',
-    '&#x22E1;': '\\nsucc',
-    '&#x22E0;': '\\nprec',
+    '&#x22E1;': '\\nsucceq',
+    '&#x22E0;': '\\npreceq',
     '&#x22DF;': '\\succ',
     '&#x22DE;': '\\prec',
     '&#x22DD;': '\\overline{>}',
     '&#x22DC;': '\\overline{<}',
-    '&#x22DB;': '\\underset{>}{\\leq}',
-    '&#x22DA;': '\\underset{<}{\\geq}',
+    '&#x22DB;': '\\gtreqless',
+    '&#x22DA;': '\\lesseqgtr',
     '&#x22D5;': '\\#',
     '&#x22D3;': '\\cup',
     '&#x22D2;': '\\cap',
@@ -1791,7 +1791,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2290;': '\\sqsupset',
     '&#x228F;&#x338;': '\\not\\sqsubset',
     '&#x228F;': '\\sqsubset',
-    '&#x228E;': '\\cup',
+    '&#x228E;': '\\uplus',
     '&#x228D;': '\\cup',
     '&#x228C;': '\\cup',
     '&#x227F;&#x338;': '\\not\\succsim',
@@ -1835,7 +1835,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x223B;': '\\sim',
     '&#x223A;': ':-:',
     '&#x2239;': '-:',
-    '&#x2238;': '\\bot',
+    '&#x2238;': '\\dot{-}',
     '&#x2237;': '::',
     '&#x2236;': ':',
     '&#x2223;': '|',
@@ -1853,8 +1853,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2AB0;': '\\succeq',
     '&#x2AAF;&#x338;': '\\npreceq',
     '&#x2AAF;': '\\preceq',
-    '&#x2A88;': '\\ngeqslant',
-    '&#x2A87;': '\\nleqslant',
+    '&#x2A88;': '\\gneq',
+    '&#x2A87;': '\\lneq',
     '&#x29F3;': '\\Phi',
     '&#x29E6;': '\\models',
     '&#x29E5;': '\\not\\equiv',
@@ -1913,10 +1913,10 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22CA;': '\\rtimes',
     '&#x22C9;': '\\ltimes',
     '&#x22B5;': '\\triangleright',
-    '&#x22B4;': '',
+    '&#x22B4;': '\\triangleleft',
     '&#x22A5;': '\\bot',
     '&#x2281;': '\\nsucc',
-    '&#x2280;': '\\preceq',
+    '&#x2280;': '\\nprec',
     '&#x227D;': '\\succeq',
     '&#x227C;': '\\preceq',
     '&#x227B;': '\\succ',
@@ -1928,8 +1928,8 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x226B;': '\\gg',
     '&#x226A;&#x338;': '\\not\\ll',
     '&#x226A;': '\\ll',
-    '&#x2269;': '\\ngeqslant',
-    '&#x2268;': '\\nleqslant',
+    '&#x2269;': '\\gneqq',
+    '&#x2268;': '\\lneqq',
     '&#x2261;': '\\equiv',
     '&#x225F;': '\\doteq',
     '&#x225C;': '\\triangleq',
@@ -1952,7 +1952,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '==': '==',
     '=': '=',
     ':=': ':=',
-    '/=': '=',
+    '/=': '/=',
     '-=': '-=',
     '+=': '+=',
     '*=': '*=',
@@ -1982,7 +1982,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x2283;': '\\supset',
     '&#x2282;&#x20D2;': '\\subset |',
     '&#x2282;': '\\subset',
-    '&#x220C;': '\\not\\in',
+    '&#x220C;': '\\not\\ni',
     '&#x2209;': '\\notin',
     '&#x2208;': '\\in',
     '&#x2201;': 'C',
@@ -1995,7 +1995,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '&#x22AF;': '\\cancel{\\vDash}',
     '&#x22AE;': '\\cancel{\\Vdash}',
     '&#x22AD;': '\\nvDash',
-    '&#x22AC;': '\\nvDash',
+    '&#x22AC;': '\\nvdash',
     '&#x22A9;': '\\Vdash',
     '&#x22A8;': '\\vDash',
     '&#x22A4;': '\\top',
@@ -2253,7 +2253,7 @@ all_math_operators_by_glyph = {
   '⊟': '\\boxminus',
   '⊞': '\\boxplus',
   '∔': '\\dot{+}',
-  '∓': '+-',
+  '∓': '\\mp',
   '−': '-',
   '±': '\\pm',
   '-': '-',
@@ -2274,7 +2274,7 @@ all_math_operators_by_glyph = {
   '⥾': '',
   '⥽': '\\prec',
   '⥼': '\\succ',
-  '⥻': '\\underset{\\rightarrow}{\\supset}',
+  '⥻': '\\underset{\\leftarrow}{\\supset}',
   '⥺': '',
   '⥹': '\\underset{\\rightarrow}{\\subset}',
   '⥸': '\\underset{\\rightarrow}{>}',
@@ -2427,7 +2427,7 @@ all_math_operators_by_glyph = {
   '⇳': '\\Updownarrow',
   '⇲': '\\searrow',
   '⇱': '\\nwarrow',
-  '⇰': '\\Leftarrow',
+  '⇰': '\\Rightarrow',
   '⇯': '\\Uparrow',
   '⇮': '\\Uparrow',
   '⇭': '\\Uparrow',
@@ -2501,7 +2501,7 @@ all_math_operators_by_glyph = {
   '↩': '\\hookleftarrow',
   '↨': '\\underline{\\updownarrow}',
   '↧': '\\downarrow',
-  '↦': '\\rightarrowtail',
+  '↦': '\\mapsto',
   '↥': '\\uparrow',
   '↤': '\\leftarrowtail',
   '↣': '\\rightarrowtail',
@@ -2605,7 +2605,7 @@ all_math_operators_by_glyph = {
   '⪱': '',
   '⪮': '',
   '⪭': '\\underline{\\hcancel{>}}',
-  '⪬': '\\underline{\\hcancel{>}}',
+  '⪬': '\\underline{\\hcancel{<}}',
   '⪫': '\\hcancel{>}',
   '⪪': '\\hcancel{<}',
   '⪩': '',
@@ -2642,7 +2642,7 @@ all_math_operators_by_glyph = {
   '⪌': '\\gtreqqless',
   '⪋': '\\lesseqqgtr',
   '⪊': '\\underset{\\cancel{\\approx}}{>}',
-  '⪉': '\\underset{\\approx}{<}',
+  '⪉': '\\underset{\\cancel{\\approx}}{<}',
   '⪆': '\\underset{\\approx}{>}',
   '⪅': '\\underset{\\approx}{<}',
   '⪄': '',
@@ -2691,8 +2691,8 @@ all_math_operators_by_glyph = {
   '⩛': '',
   '⩚': '',
   '⩙': '',
-  '⩘': '\\vee',
-  '⩗': '\\wedge',
+  '⩘': '\\wedge',
+  '⩗': '\\vee',
   '⩖': '',
   '⩕': '',
   '⩔': '',
@@ -2776,9 +2776,9 @@ all_math_operators_by_glyph = {
   '⧞': '',
   '⧝': '',
   '⧜': '',
-  '⧛': '\\{\\{',
-  '⧙': '\\{',
-  '⧘': '\\}',
+  '⧛': '\\}\\}',
+  '⧙': '\\}',
+  '⧘': '\\{',
   '⧗': '',
   '⧖': '',
   '⧕': '\\bowtie',
@@ -2842,9 +2842,9 @@ all_math_operators_by_glyph = {
   '⋿': '\\Epsilon',
   '⋾': '\\overline{\\ni}',
   '⋽': '\\overline{\\ni}',
-  '⋼': '\\in',
-  '⋻': '\\in',
-  '⋺': '\\in',
+  '⋼': '\\ni',
+  '⋻': '\\ni',
+  '⋺': '\\ni',
   '⋹': '\\underline{\\in}',
   '⋸': '\\underline{\\in}',
   '⋷': '\\overline{\\in}',
@@ -2855,22 +2855,22 @@ all_math_operators_by_glyph = {
   '⋲': '\\in',
   '⋰': '\\ddots',
   '։': ':',
-  '⋩': '\\underset{\\sim}{\\succ}',
-  '⋨': '\\underset{\\sim}{\\prec}',
+  '⋩': '\\underset{\\not\\sim}{\\succ}',
+  '⋨': '\\underset{\\not\\sim}{\\prec}',
   '⋧': '\\underset{\\not\\sim}{>}',
   '⋦': '\\underset{\\not\\sim}{<}',
   '⋥': '\\not\\sqsupseteq',
   '⋤': '\\not\\sqsubseteq',
   '⋣': '\\not\\sqsupseteq',
   '⋢': '\\not\\sqsubseteq',
-  '⋡': '\\nsucc',
-  '⋠': '\\nprec',
+  '⋡': '\\nsucceq',
+  '⋠': '\\npreceq',
   '⋟': '\\succ',
   '⋞': '\\prec',
   '⋝': '\\overline{>}',
   '⋜': '\\overline{<}',
-  '⋛': '\\underset{>}{\\leq}',
-  '⋚': '\\underset{<}{\\geq}',
+  '⋛': '\\gtreqless',
+  '⋚': '\\lesseqgtr',
   '⋕': '\\#',
   '⋓': '\\cup',
   '⋒': '\\cap',
@@ -2914,7 +2914,7 @@ all_math_operators_by_glyph = {
   '⊐': '\\sqsupset',
   '⊏̸': '\\not\\sqsubset',
   '⊏': '\\sqsubset',
-  '⊎': '\\cup',
+  '⊎': '\\uplus',
   '⊍': '\\cup',
   '⊌': '\\cup',
   '≿̸': '\\not\\succsim',
@@ -2958,7 +2958,7 @@ all_math_operators_by_glyph = {
   '∻': '\\sim',
   '∺': ':-:',
   '∹': '-:',
-  '∸': '\\bot',
+  '∸': '\\dot{-}',
   '∷': '::',
   '∶': ':',
   '∣': '\\mid',
@@ -2975,8 +2975,8 @@ all_math_operators_by_glyph = {
   '⪰': '\\succeq',
   '⪯̸': '\\npreceq',
   '⪯': '\\preceq',
-  '⪈': '\\ngeqslant',
-  '⪇': '\\nleqslant',
+  '⪈': '\\gneq',
+  '⪇': '\\lneq',
   '⧳': '\\Phi',
   '⧦': '\\models',
   '⧥': '\\not\\equiv',
@@ -3035,10 +3035,10 @@ all_math_operators_by_glyph = {
   '⋊': '\\ltimes',
   '⋉': '\\rtimes',
   '⊵': '\\triangleright',
-  '\\triangleleft': '',
+  '⊴': '\\triangleleft',
   '⊥': '\\bot',
   '⊁': '\\nsucc',
-  '⊀': '\\preceq',
+  '⊀': '\\nprec',
   '≽': '\\succeq',
   '≼': '\\preceq',
   '≻': '\\succ',
@@ -3050,8 +3050,8 @@ all_math_operators_by_glyph = {
   '≫': '\\gg',
   '≪̸': '\\not\\ll',
   '≪': '\\ll',
-  '≩': '\\ngeqslant',
-  '≨': '\\nleqslant',
+  '≩': '\\gneqq',
+  '≨': '\\lneqq',
   '≡': '\\equiv',
   '≟': '\\doteq',
   '≜': '\\triangleq',
@@ -3074,7 +3074,7 @@ all_math_operators_by_glyph = {
   '==': '==',
   '=': '=',
   ':=': ':=',
-  '/=': '=',
+  '/=': '/=',
   '-=': '-=',
   '+=': '+=',
   '*=': '*=',
@@ -3104,7 +3104,7 @@ all_math_operators_by_glyph = {
   '⊃': '\\supset',
   '⊂⃒': '\\subset |',
   '⊂': '\\subset',
-  '∌': '\\not\\in',
+  '∌': '\\not\\ni',
   '∉': '\\notin',
   '∈': '\\in',
   '∁': 'C',
@@ -3117,7 +3117,7 @@ all_math_operators_by_glyph = {
   '⊯': '\\cancel{\\vDash}',
   '⊮': '\\cancel{\\Vdash}',
   '⊭': '\\nvDash',
-  '⊬': '\\nvDash',
+  '⊬': '\\nvdash',
   '⊩': '\\Vdash',
   '⊨': '\\vDash',
   '⊤': '\\top',
-- 
2.43.0


From f8e8d5242ce047a9bb310b014dce0b7a080d6470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:38 +0000
Subject: [PATCH 24/36] fix: give three accented letters their own letter and
 accent

---
 src/mathml_to_latex/syntax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index d98a2de..1ff2769 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -73,7 +73,7 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'ë': AccentChar(char='e', accent='¨'),
     'ę': AccentChar(char='e', accent='˙'),
     'ě': AccentChar(char='e', accent='ˇ'),
-    'ȇ': AccentChar(char='i', accent='^'),
+    'ȇ': AccentChar(char='e', accent='^'),
     'ё': AccentChar(char='e', accent='¨'),
     'ē': AccentChar(char='e', accent='-'),
     'í': AccentChar(char='i', accent='´'),
@@ -186,8 +186,8 @@ vowels_with_accents: Dict[str, AccentChar] = {
     'Ĵ': AccentChar(char='J', accent='^'),
     'ź': AccentChar(char='z', accent='´'),
     'Ź': AccentChar(char='Z', accent='´'),
-    'Ż': AccentChar(char='Z', accent='^'),
-    'ż': AccentChar(char='z', accent='^'),
+    'Ż': AccentChar(char='Z', accent='˙'),
+    'ż': AccentChar(char='z', accent='˙'),
     'Ž': AccentChar(char='Z', accent='ˇ'),
     'ž': AccentChar(char='z', accent='ˇ'),
     'ẑ': AccentChar(char='z', accent='ˆ'),
-- 
2.43.0


From 33272d2a1c35e97b200448494ce2a0d889cd4937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:41 +0000
Subject: [PATCH 25/36] fix: give the bold Greek capitals their own letter

---
 src/mathml_to_latex/syntax.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 1ff2769..4b16a33 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -419,24 +419,24 @@ special_font_chars: Dict[str, SpecialFontChar] = {
     '𝚪': SpecialFontChar(letter='\\Gamma', font_cmd='mathtt'),
     '𝚫': SpecialFontChar(letter='\\Delta', font_cmd='mathtt'),
     '𝚬': SpecialFontChar(letter='E', font_cmd='mathtt'),
-    '𝚭': SpecialFontChar(letter='F', font_cmd='mathtt'),
-    '𝚮': SpecialFontChar(letter='G', font_cmd='mathtt'),
+    '𝚭': SpecialFontChar(letter='Z', font_cmd='mathtt'),
+    '𝚮': SpecialFontChar(letter='H', font_cmd='mathtt'),
     '𝚯': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
     '𝚰': SpecialFontChar(letter='I', font_cmd='mathtt'),
-    '𝚱': SpecialFontChar(letter='J', font_cmd='mathtt'),
+    '𝚱': SpecialFontChar(letter='K', font_cmd='mathtt'),
     '𝚲': SpecialFontChar(letter='\\Lambda', font_cmd='mathtt'),
-    '𝚳': SpecialFontChar(letter='L', font_cmd='mathtt'),
-    '𝚴': SpecialFontChar(letter='M', font_cmd='mathtt'),
+    '𝚳': SpecialFontChar(letter='M', font_cmd='mathtt'),
+    '𝚴': SpecialFontChar(letter='N', font_cmd='mathtt'),
     '𝚵': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
     '𝚶': SpecialFontChar(letter='O', font_cmd='mathtt'),
     '𝚷': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
-    '𝚸': SpecialFontChar(letter='Q', font_cmd='mathtt'),
-    '𝚹': SpecialFontChar(letter='R', font_cmd='mathtt'),
-    '𝚺': SpecialFontChar(letter='S', font_cmd='mathtt'),
+    '𝚸': SpecialFontChar(letter='P', font_cmd='mathtt'),
+    '𝚹': SpecialFontChar(letter='\\Theta', font_cmd='mathtt'),
+    '𝚺': SpecialFontChar(letter='\\Sigma', font_cmd='mathtt'),
     '𝚻': SpecialFontChar(letter='T', font_cmd='mathtt'),
-    '𝚼': SpecialFontChar(letter='U', font_cmd='mathtt'),
+    '𝚼': SpecialFontChar(letter='\\Upsilon', font_cmd='mathtt'),
     '𝚽': SpecialFontChar(letter='\\Phi', font_cmd='mathtt'),
-    '𝚾': SpecialFontChar(letter='W', font_cmd='mathtt'),
+    '𝚾': SpecialFontChar(letter='X', font_cmd='mathtt'),
     '𝚿': SpecialFontChar(letter='\\Psi', font_cmd='mathtt'),
     '𝛀': SpecialFontChar(letter='\\Omega', font_cmd='mathtt'),
 }
-- 
2.43.0


From 0a212ff49c330f41d287ef5da2f87de384006198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:44 +0000
Subject: [PATCH 26/36] fix: correct the identifiers that were mapped to
 another symbol

---
 src/mathml_to_latex/syntax.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index 4b16a33..fd7e770 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -446,13 +446,13 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x2203;': '\\exists',
     '&#x2200;': '\\forall',
     '&#x21D4;': '\\iff',
-    '&#x21D2;': '=>',
+    '&#x21D2;': '\\Rightarrow',
     '&#xAC;': '\\neg',
     '&#x2124;': '\\mathbb{Z}',
     '&#x211D;': '\\mathbb{R}',
     '&#x211A;': '\\mathbb{Q}',
     '&#x2115;': '\\mathbb{N}',
-    '&#x2102;': 'CC',
+    '&#x2102;': '\\mathbb{C}',
     '&#x25A1;': '\\square',
     '&#x22C4;': '\\diamond',
     '&#x25B3;': '\\triangle',
@@ -480,9 +480,9 @@ all_math_symbols_by_char: Dict[str, str] = {
     '&#x220F;': '\\prod',
     '&#x2211;': '\\sum',
     '&#x2299;': '\\bigodot',
-    '&#x2297;': '\\bigoplus',
-    '&#x2295;': 'o+',
-    '&#x2218;': '@',
+    '&#x2297;': '\\otimes',
+    '&#x2295;': '\\oplus',
+    '&#x2218;': '\\circ',
     '&#x22C8;': '\\bowtie',
     '&#x22CA;': '\\rtimes',
     '&#x22C9;': '\\ltimes',
@@ -567,9 +567,9 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '∏': r'\prod',
     '∑': r'\sum',
     '⊙': r'\bigodot',
-    '⊗': r'\bigoplus',
-    '⊕': 'o+',
-    '∘': '@',
+    '⊗': r'\otimes',
+    '⊕': r'\oplus',
+    '∘': r'\circ',
     '⋈': r'\bowtie',
     '⋊': r'\rtimes',
     '⋉': r'\ltimes',
@@ -638,7 +638,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     'เ': r'\prime',
     '白': ' ',
     '⿱': ' ',
-    'ℸ': r'\wp',
+    'ℸ': r'\daleth',
     '픀': ' ',
     'ⁿ': r'^{n}',
     '✔': r'\checkmark',
@@ -733,7 +733,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     '⎜': r'\mid',
     'ħ': r'\hbar',
     'ፈ': ' ',
-    '⦨': r'\llbracket',
+    '⦨': r'\measuredangle',
     'ế': r'\hat{e}',
     '¢': r'\cent',
     '⤹': r'\downarrow',
@@ -885,7 +885,7 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     'ₙ': r'_{n}',
     '▫': r'\square',
     '●': r'\circle',
-    '”': r'\\"',
+    '”': '"',
 }
 
 math_number_by_glyph: Dict[str, str] = {
@@ -2089,7 +2089,7 @@ all_math_operators_by_char: Dict[str, str] = {
     '%CE%BF': '\\omicron',
     '%CF%80': '\\pi',
     '%CE%A0': '\\Pi',
-    '%CF%81': '\\pho',
+    '%CF%81': '\\rho',
     '%CF%83': '\\sigma',
     '%CE%A3': '\\Sigma',
     '%CF%84': '\\tau',
-- 
2.43.0


From a597b59f9fa2c921032aadba228434851c60f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:19 +0000
Subject: [PATCH 27/36] fix: keep the characters that have no LaTeX of their
 own

---
 src/mathml_to_latex/syntax.py | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index fd7e770..c6ce30b 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -636,10 +636,10 @@ all_math_symbols_by_glyph: Dict[str, str] = {
     "↛'": r'\nrightarrow',
     '†': r'\dagger',
     'เ': r'\prime',
-    '白': ' ',
-    '⿱': ' ',
+    '白': '',
+    '⿱': '',
     'ℸ': r'\daleth',
-    '픀': ' ',
+    '픀': '',
     'ⁿ': r'^{n}',
     '✔': r'\checkmark',
     '✗': r'\times',
@@ -2348,23 +2348,23 @@ all_math_operators_by_glyph = {
   '⤴': '\\uparrow',
   '⤳': '\\rightarrow',
   '⤲': '\\leftarrow',
-  '⤱': ' ',
-  '⤰': ' ',
-  '⤯': ' ',
-  '⤮': ' ',
-  '⤭': ' ',
+  '⤱': '',
+  '⤰': '',
+  '⤯': '',
+  '⤮': '',
+  '⤭': '',
   '⤬': '\\times',
   '⤫': '\\times',
-  '⤪': ' ',
-  '⤩': ' ',
-  '⤨': ' ',
-  '⤧': ' ',
-  '⤦': ' ',
-  '⤥': ' ',
-  '⤤': ' ',
-  '⤣': ' ',
-  '⤢': ' ',
-  '⤡': ' ',
+  '⤪': '',
+  '⤩': '',
+  '⤨': '',
+  '⤧': '',
+  '⤦': '',
+  '⤥': '',
+  '⤤': '',
+  '⤣': '',
+  '⤢': '',
+  '⤡': '',
   '⤠': '\\mapsto\\cdot',
   '⤟': '\\cdot\\leftarrow',
   '⤞': '\\rightarrow\\cdot',
-- 
2.43.0


From 25e93497a2fefbd0fc62267aca7cbd6d0c4904c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 28/36] fix: repair attributes in time proportional to the text

---
 src/mathml_to_latex/xml_to_mathml/services/error_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 0288118..52dbc0f 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -36,7 +36,7 @@ class ErrorHandler:
         looks like a tag inside of them is not taken for one.
         """
         return re.compile(
-            r"<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>"
+            r"<!--.*?(?:-->|\Z)|<!\[CDATA\[.*?(?:\]\]>|\Z)|<\?.*?(?:\?>|\Z)"
             r"""|(?P<tag><[^\s<>"'/!?](?:[^<>"']|"[^"<]*"|'[^'<]*')*>)""",
             re.DOTALL,
         )
@@ -47,6 +47,6 @@ class ErrorHandler:
         quoted value, or one without a value (attribute or attribute=).
         """
         return re.compile(
-            r"""\s+[^\s=<>"'/]+(?:\s*=\s*(?P<value>"[^"]*"|'[^']*')"""
+            r"""(?<!\s)\s+[^\s=<>"'/]+(?:\s*=\s*(?P<value>"[^"]*"|'[^']*')"""
             r"""|\s*=(?=\s|/?>)|(?=\s|/?>))"""
         )
-- 
2.43.0


From c2d0467af4bdcb64aa18cf17424e34a0aa9c664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 29/36] fix: keep an escaped separator apart from the letter
 that follows it

---
 src/mathml_to_latex/el_to_tex/services/escaper.py | 4 +---
 src/mathml_to_latex/el_to_tex/usecases.py         | 6 +++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/services/escaper.py b/src/mathml_to_latex/el_to_tex/services/escaper.py
index 6a1768d..c21c6cd 100644
--- a/src/mathml_to_latex/el_to_tex/services/escaper.py
+++ b/src/mathml_to_latex/el_to_tex/services/escaper.py
@@ -20,6 +20,4 @@ class LaTeXEscaper:
     }
 
     def escape(self, string: str) -> str:
-        return re.sub(
-            r"[#$%&_{}^~\\]", lambda char: self._escapes[char.group()], string
-        ).rstrip()
+        return re.sub(r"[#$%&_{}^~\\]", lambda char: self._escapes[char.group()], string)
diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index b83f856..8b33dc4 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -126,7 +126,7 @@ class Character:
     def _convert_or_escape(self) -> str:
         converted = HashUTF8ToLtXConverter().convert(self.value)
 
-        return LaTeXEscaper().escape(converted) if converted == self.value else converted
+        return LaTeXEscaper().escape(converted).rstrip() if converted == self.value else converted
 
     def _find_by_character(self) -> str:
         return all_math_symbols_by_char.get(self.value, "")
@@ -184,7 +184,7 @@ class Operator:
         converted = HashUTF8ToLtXConverter().convert(self._value)
 
         return (
-            LaTeXEscaper().escape(converted) if converted == self._value else converted
+            LaTeXEscaper().escape(converted).rstrip() if converted == self._value else converted
         )
 
     def _find_by_character(self) -> Optional[str]:
@@ -206,7 +206,7 @@ class MN(ToLaTeXConverter):
         normalized_value = self._normalizer.normalize(self._math_element.value).strip()
         converted_value = math_number_by_glyph.get(normalized_value, "")
 
-        return converted_value or LaTeXEscaper().escape(normalized_value)
+        return converted_value or LaTeXEscaper().escape(normalized_value).rstrip()
 
 
 class ScriptedBase:
-- 
2.43.0


From c9f7ada21c9a16a7ace4fa4ac954c304ca6ebeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:28 +0000
Subject: [PATCH 30/36] fix: keep a command apart from a letter that separates
 fenced parts

---
 src/mathml_to_latex/el_to_tex/services/wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/el_to_tex/services/wrapper.py b/src/mathml_to_latex/el_to_tex/services/wrapper.py
index 4003e78..c65471e 100644
--- a/src/mathml_to_latex/el_to_tex/services/wrapper.py
+++ b/src/mathml_to_latex/el_to_tex/services/wrapper.py
@@ -1,3 +1,4 @@
+import re
 from typing import List
 
 class Wrapper:
@@ -44,7 +45,8 @@ class JoinWithManySeparators:
         acc = ''
         for index, current_str in enumerate(arr):
             separator = '' if index == len(arr) - 1 else self._get(index)
-            acc += current_str + separator
+            gap = ' ' if separator.isalpha() and re.search(r'\\[a-zA-Z]+$', current_str) else ''
+            acc += current_str + gap + separator
         return acc
 
 
-- 
2.43.0


From 1820ef2ac0b6628d7146f1f829a00e3e807cefe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 31/36] fix: bold Xi as an operator is a Xi

---
 src/mathml_to_latex/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/syntax.py b/src/mathml_to_latex/syntax.py
index c6ce30b..1a578ae 100644
--- a/src/mathml_to_latex/syntax.py
+++ b/src/mathml_to_latex/syntax.py
@@ -427,7 +427,7 @@ special_font_chars: Dict[str, SpecialFontChar] = {
     '𝚲': SpecialFontChar(letter='\\Lambda', font_cmd='mathtt'),
     '𝚳': SpecialFontChar(letter='M', font_cmd='mathtt'),
     '𝚴': SpecialFontChar(letter='N', font_cmd='mathtt'),
-    '𝚵': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
+    '𝚵': SpecialFontChar(letter='\\Xi', font_cmd='mathtt'),
     '𝚶': SpecialFontChar(letter='O', font_cmd='mathtt'),
     '𝚷': SpecialFontChar(letter='\\Pi', font_cmd='mathtt'),
     '𝚸': SpecialFontChar(letter='P', font_cmd='mathtt'),
-- 
2.43.0


From dbf1efc2e5217fd3957030cfbd454c0d2dc5a819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:19 +0000
Subject: [PATCH 32/36] fix: leave CDATA and attribute values alone when
 removing mml:

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 24 ++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index e29f6b4..17d60c9 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -31,10 +31,26 @@ class XmlToMathMLAdapter:
         return line_break_pattern.sub(" ", xml)
 
     def _remove_ms_word_prefixes(self, xml: str) -> str:
-        tag_pattern = re.compile(r"<[^<>]*>")
-        ms_word_prefix_pattern = re.compile(r"(?<=[</\s])mml:")
-        return tag_pattern.sub(
-            lambda tag: ms_word_prefix_pattern.sub("", tag.group()), xml
+        # Comments, CDATA sections and processing instructions are matched too,
+        # so that what looks like a tag inside of them is not taken for one
+        markup_pattern = re.compile(
+            r"<!--.*?(?:-->|\Z)|<!\[CDATA\[.*?(?:\]\]>|\Z)|<\?.*?(?:\?>|\Z)"
+            r"""|(?P<tag></?[^\s<>"'/!?](?:[^<>"']|"[^"<]*"|'[^'<]*')*>)""",
+            re.DOTALL,
+        )
+        ms_word_prefix_pattern = re.compile(
+            r"""(?P<value>"[^"]*"|'[^']*')|(?<=[</\s])mml:"""
+        )
+
+        return markup_pattern.sub(
+            lambda markup: (
+                ms_word_prefix_pattern.sub(
+                    lambda match: match.group("value") or "", markup.group()
+                )
+                if markup.group("tag")
+                else markup.group()
+            ),
+            xml,
         )
 
     def _is_inside_math(self, element: Element) -> bool:
-- 
2.43.0


From 968ea31174350bbc90f2129abb889db8d65f69f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 33/36] fix: do not drop illegal characters inside of a tag as
 if they were an attribute

---
 .../xml_to_mathml/services/error_handler.py                | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
index 52dbc0f..a385b2c 100644
--- a/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
+++ b/src/mathml_to_latex/xml_to_mathml/services/error_handler.py
@@ -45,8 +45,11 @@ class ErrorHandler:
         """
         Constructs a regex pattern to find an attribute: either one with a
         quoted value, or one without a value (attribute or attribute=).
+        Characters that are not legal in XML are never part of one.
         """
+        space = r"[ \t\r\n]"
+        name = r"""[^\s\x00-\x1f=<>"'/&\ufffe\uffff]+"""
         return re.compile(
-            r"""(?<!\s)\s+[^\s=<>"'/]+(?:\s*=\s*(?P<value>"[^"]*"|'[^']*')"""
-            r"""|\s*=(?=\s|/?>)|(?=\s|/?>))"""
+            rf"""(?<!{space}){space}+{name}(?:{space}*={space}*(?P<value>"[^"]*"|'[^']*')"""
+            rf"""|{space}*=(?={space}|/?>)|(?={space}|/?>))"""
         )
-- 
2.43.0


From 328a86a06929967eead982195cde342d38bcf886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 34/36] fix: merge the letters of a text in linear time

---
 src/mathml_to_latex/el_to_tex/usecases.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/mathml_to_latex/el_to_tex/usecases.py b/src/mathml_to_latex/el_to_tex/usecases.py
index 8b33dc4..e061f8a 100644
--- a/src/mathml_to_latex/el_to_tex/usecases.py
+++ b/src/mathml_to_latex/el_to_tex/usecases.py
@@ -1,6 +1,7 @@
 from typing import Optional, List
 import re
 from enum import Enum
+from itertools import groupby
 
 from ..syntax import (
     HashUTF8ToLtXConverter,
@@ -693,13 +694,11 @@ class MText(ToLaTeXConverter):
         ]
 
         merged_chars = []
-        for char in chars:
-            if char.is_alphanumeric:
-                last_char = merged_chars[-1] if merged_chars else None
-                if last_char and last_char.is_alphanumeric:
-                    last_char.value += char.value
-                    continue
-            merged_chars.append(char)
+        for is_alphanumeric, run in groupby(chars, lambda char: char.is_alphanumeric):
+            if is_alphanumeric:
+                merged_chars.append(Char("".join(char.value for char in run), True))
+            else:
+                merged_chars.extend(run)
 
         return self._join(
             [
-- 
2.43.0


From 8c46e17d9168125f7f9f89577994bb3d7d11a3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 35/36] fix: retry the parser after errors of the parser only

---
 src/mathml_to_latex/xml_to_mathml/adapter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mathml_to_latex/xml_to_mathml/adapter.py b/src/mathml_to_latex/xml_to_mathml/adapter.py
index 17d60c9..fdb587a 100644
--- a/src/mathml_to_latex/xml_to_mathml/adapter.py
+++ b/src/mathml_to_latex/xml_to_mathml/adapter.py
@@ -1,5 +1,6 @@
 from typing import List
 from xml.dom.minidom import parseString, Element
+from xml.parsers.expat import ExpatError
 import re
 
 from ..el_to_tex.protocols import MathMLElement
@@ -70,7 +71,7 @@ class XmlToMathMLAdapter:
                 dom = parseString(self._xml)
                 elements = dom.getElementsByTagName("math")
                 return [el for el in elements if not self._is_inside_math(el)]
-            except Exception as e:
+            except ExpatError as e:
                 self._fix_error(e)
                 exception = e
 
-- 
2.43.0


From 2226ae4e4cbde0b701d05c15daa451f53a768b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 36/36] fix: let InvalidNumberOfChildrenError be copied and
 pickled

---
 src/mathml_to_latex/el_to_tex/protocols.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mathml_to_latex/el_to_tex/protocols.py b/src/mathml_to_latex/el_to_tex/protocols.py
index 9f0cc1b..b91a4ae 100644
--- a/src/mathml_to_latex/el_to_tex/protocols.py
+++ b/src/mathml_to_latex/el_to_tex/protocols.py
@@ -104,3 +104,13 @@ class InvalidNumberOfChildrenError(Exception):
             f"{tag_name} tag must have {comparison} {expected_number_of_child} children. It's actually {current_number_of_child}"
         )
         self.name = "InvalidNumberOfChildrenError"
+        self._arguments = (
+            tag_name,
+            expected_number_of_child,
+            current_number_of_child,
+            comparison,
+        )
+
+    def __reduce__(self):
+        # By default a copy would be made from the message alone
+        return self.__class__, self._arguments, self.__dict__
-- 
2.43.0

