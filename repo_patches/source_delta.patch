From 23527b8ccd7e63042609ec9027891b3ef3b1aeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 01/50] fix: evaluate a control before processing the node it
 guards

The control was checked after the node had been fully processed, so an
excluded node still executed its content (variable definitions, includes,
references) and footnote or grouped blocks returned before checking it at
all, leaking the control to the following node.
---
 mau/parsers/document_parser.py                | 15 +++++++++
 mau/parsers/document_processors/block.py      | 13 +++-----
 mau/parsers/document_processors/header.py     | 13 +++-----
 .../document_processors/horizontal_rule.py    | 13 +++-----
 mau/parsers/document_processors/include.py    | 33 +++++++++----------
 mau/parsers/document_processors/list.py       | 24 +++++++++-----
 mau/parsers/document_processors/paragraph.py  | 13 +++-----
 7 files changed, 67 insertions(+), 57 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 91882f0..6967481 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -221,6 +221,21 @@ class DocumentParser(BaseParser):
         # Assign the labels to the node.
         node.labels = labels
 
+    def is_node_excluded(self) -> bool:
+        """Evaluate the stored control and tell if the
+        node it is attached to is excluded.
+        An excluded node consumes arguments and labels,
+        but its content is not processed."""
+        control = self.control_buffer.pop()
+
+        if control is None or control.process(self.environment):
+            return False
+
+        self.arguments_buffer.pop()
+        self.label_buffer.pop()
+
+        return True
+
     def _process_eol(self) -> bool:
         # This simply ignores the end of line.
 
diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..f903bee 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -50,6 +50,11 @@ def block_processor(parser: DocumentParser):
         opening_delimiter.context, closing_delimiter.context
     )
 
+    # Check the stored control. If it is false,
+    # the node must not be processed at all.
+    if parser.is_node_excluded():
+        return True
+
     # Get the stored arguments.
     # Paragraphs can receive arguments
     # only through the arguments manager.
@@ -104,14 +109,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..2babad4 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -30,6 +30,11 @@ def header_processor(parser: DocumentParser):
     # Get the text of the header.
     text_token = parser.tm.get_token(TokenType.TEXT)
 
+    # Check the stored control. If it is false,
+    # the node must not be processed at all.
+    if parser.is_node_excluded():
+        return True
+
     # Calculate the level of the header.
     level = len(header.value)
 
@@ -78,14 +83,6 @@ def header_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     # If there is an id store the header node
     # to be matched with potential header links.
     if node.name:
diff --git a/mau/parsers/document_processors/horizontal_rule.py b/mau/parsers/document_processors/horizontal_rule.py
index d6b98fa..7703cfb 100644
--- a/mau/parsers/document_processors/horizontal_rule.py
+++ b/mau/parsers/document_processors/horizontal_rule.py
@@ -18,6 +18,11 @@ def horizontal_rule_processor(parser: DocumentParser):
     # Get the horizontal rule token.
     rule = parser.tm.get_token(TokenType.HORIZONTAL_RULE)
 
+    # Check the stored control. If it is false,
+    # the node must not be processed at all.
+    if parser.is_node_excluded():
+        return True
+
     # Get the stored arguments.
     # Horizontal rules can receive arguments
     # only through the arguments manager.
@@ -37,14 +42,6 @@ def horizontal_rule_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..51857e3 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -30,7 +30,7 @@ from mau.parsers.arguments_parser import (
 )
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
-from mau.token import TokenType
+from mau.token import Token, TokenType
 
 
 @dataclass
@@ -67,11 +67,24 @@ def include_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(prefix.context, content_type.context)
 
-    arguments: NodeArguments | None = parser.arguments_buffer.pop()
-
+    arguments_token: Token | None = None
     if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
         # In this case arguments are inline
 
+        # Get the colon.
+        parser.tm.get_token(TokenType.LITERAL, ":")
+
+        # Get the inline arguments.
+        arguments_token = parser.tm.get_token(TokenType.TEXT)
+
+    # Check the stored control. If it is false,
+    # the node must not be processed at all.
+    if parser.is_node_excluded():
+        return True
+
+    arguments: NodeArguments | None = parser.arguments_buffer.pop()
+
+    if arguments_token:
         # Check if boxed arguments have been defined.
         # In that case we need to stop with an error.
         if arguments:
@@ -81,12 +94,6 @@ def include_processor(parser: DocumentParser):
                 help_text=INCLUDE_HELP,
             )
 
-        # Get the colon.
-        parser.tm.get_token(TokenType.LITERAL, ":")
-
-        # Get the inline arguments.
-        arguments_token = parser.tm.get_token(TokenType.TEXT)
-
         arguments = process_arguments_with_variables(
             arguments_token, parser.message_handler, parser.environment
         ).arguments
@@ -119,14 +126,6 @@ def include_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..5da11fc 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -109,6 +109,16 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     return nodes
 
 
+def _skip_list_nodes(parser: DocumentParser):
+    # Consume the tokens of a list without
+    # creating any node. This is used when
+    # the list is excluded by a control.
+
+    while parser.tm.peek_token_is(TokenType.LIST):
+        parser.tm.get_token(TokenType.LIST)
+        parser.tm.get_token(TokenType.TEXT)
+
+
 def list_processor(parser: DocumentParser):
     # Parse a list.
     # Lists can be ordered (using numbers)
@@ -144,6 +154,12 @@ def list_processor(parser: DocumentParser):
     header = parser.tm.peek_token(TokenType.LIST)
     ordered = header.value[0] == "#"
 
+    # Check the stored control. If it is false,
+    # the node must not be processed at all.
+    if parser.is_node_excluded():
+        _skip_list_nodes(parser)
+        return True
+
     node = ListNode(
         ordered=ordered,
         main_node=True,
@@ -177,14 +193,6 @@ def list_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..fc3756b 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -26,6 +26,11 @@ def paragraph_processor(parser: DocumentParser):
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
+    # Check the stored control. If it is false,
+    # the node must not be processed at all.
+    if parser.is_node_excluded():
+        return True
+
     node = ParagraphNode()
 
     for line_token in line_tokens:
@@ -66,14 +71,6 @@ def paragraph_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From ca6a46c148dfb23c9f8dcc26455b7799f6bd8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:46 +0000
Subject: [PATCH 02/50] fix: report an empty condition as a parser error
 instead of crashing

---
 mau/parsers/condition_parser.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/condition_parser.py b/mau/parsers/condition_parser.py
index 49dc6c2..b8a2aee 100644
--- a/mau/parsers/condition_parser.py
+++ b/mau/parsers/condition_parser.py
@@ -5,7 +5,7 @@ from mau.lexers.condition_lexer import ConditionLexer
 from mau.message import BaseMessageHandler
 from mau.nodes.condition import ConditionNode
 from mau.nodes.node import NodeInfo
-from mau.parsers.base_parser import BaseParser
+from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.preprocess_variables_parser import PreprocessVariablesParser
 from mau.text_buffer import Context
 from mau.token import Token, TokenType
@@ -61,6 +61,15 @@ class ConditionParser(BaseParser):
 
         return True
 
+    def finalise(self):
+        super().finalise()
+
+        if self.condition_node is None:
+            raise create_parser_exception(
+                "Syntax error. The condition is empty.",
+                context=self.tm.peek_token().context,
+            )
+
 
 def process_condition_with_variables(
     condition_token: Token,
-- 
2.43.0


From 3f491bdffb9b1a14322a30a92fd10361b1e7839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 03/50] fix: report a non-integer list start as a parser error
 instead of crashing

---
 mau/parsers/document_processors/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 5da11fc..53bb961 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -178,7 +178,14 @@ def list_processor(parser: DocumentParser):
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"The list start '{start}' must be an integer or 'auto'.",
+                context=header.context,
+            ) from exc
+
         parser.latest_ordered_list_index = len(nodes) + start
 
     # Find the final context.
-- 
2.43.0


From 3ea0831ac52a07c0556959de84138b93a08a4469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 04/50] fix: report stray tokens (unfinished variable or
 include) as a parser error

---
 mau/parsers/document_processors/paragraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index fc3756b..5ec37e5 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -22,7 +22,8 @@ def paragraph_processor(parser: DocumentParser):
     # is EOL we know that the paragraph is ended, otherwise
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
-    line_tokens: list[Token] = []
+    # There must be at least one line.
+    line_tokens: list[Token] = [parser.tm.get_token(TokenType.TEXT)]
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From 2dc95566aaf6c2275484628b6f81ac20ad2a52f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 05/50] fix: report a missing blockgroup name as a parser error
 instead of crashing

---
 mau/parsers/document_processors/include.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 51857e3..adde180 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -350,7 +350,15 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    # The group is mandatory, make sure it is present.
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a GROUP.",
+            context,
+            help_text=INCLUDE_HELP,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From 7d3710427e42969f51485eb0ab7d7e95b55f3029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 06/50] fix: report every failure to read an included file as a
 parser error

---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index adde180..e90b492 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -219,7 +219,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -292,7 +292,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 860571e426b9cc8ca522cb8cada89e94226b40ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 07/50] fix: accept headers and list items whose text results
 in no nodes

---
 mau/parsers/document_processors/header.py | 16 ++++++++++------
 mau/parsers/document_processors/list.py   | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index 2babad4..8e15466 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -68,13 +68,17 @@ def header_processor(parser: DocumentParser):
     # Extract the header id if specified.
     node.name = arguments.named_args.pop("name", None)
 
-    # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
-
     # Find the context of the whole node.
-    node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
+    # The text might result in no nodes at all
+    # (e.g. an empty variable).
+    context = header.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
+        context = Context.merge_contexts(header.context, text_context)
+
+    node.info = NodeInfo(context=context)
 
     # Add the remaining arguments to the header.
     node.arguments = NodeArguments(**arguments.asdict())
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 53bb961..a071ba9 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -14,6 +14,16 @@ from mau.text_buffer import Context
 from mau.token import Token, TokenType
 
 
+def _list_item_context(header: Token, content: list[Node]) -> Context:
+    # The context of a list item. The text of the
+    # item might result in no nodes at all
+    # (e.g. an empty variable).
+    if not content:
+        return header.context
+
+    return Context.merge_contexts(header.context, content[-1].info.context)
+
+
 def _process_list_nodes(parser: DocumentParser, parent: Node):
     # This parses all items of a list
 
@@ -30,7 +40,7 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    context = _list_item_context(header, content)
 
     nodes: list[Node] = []
     nodes.append(
@@ -71,7 +81,7 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            context = _list_item_context(header, content)
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From 5896b70a9a1bb3575004402938a283b5bd056ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 08/50] fix: report the position of a duplicated footnote
 definition

---
 mau/parsers/document_processors/block.py  | 2 +-
 mau/parsers/managers/footnotes_manager.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index f903bee..02cdeb3 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -94,7 +94,7 @@ def block_processor(parser: DocumentParser):
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
-        parser.footnotes_manager.add_body(footnote_name, node)
+        parser.footnotes_manager.add_body(footnote_name, node, context)
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..8b1bad9 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -7,6 +7,7 @@ from mau.nodes.macro import (
     MacroFootnoteNode,
 )
 from mau.parsers.base_parser import create_parser_exception
+from mau.text_buffer import Context
 
 
 def default_footnote_unique_id(
@@ -54,13 +55,13 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
-    def add_body(self, name: str, data: BlockNode):
+    def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
         the list of contents."""
         if name in self.bodies:
             raise create_parser_exception(
                 text=f"Footnote '{name}' has been already defined.",
-                context=data.info.context,
+                context=context or data.info.context,
             )
 
         self.bodies[name] = data
-- 
2.43.0


From c7b8b4fb3669efbf26ea1222741eac8875a5d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 09/50] fix: continue list numbering only from the items of the
 previous ordered list

---
 mau/parsers/document_processors/list.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index a071ba9..dd61169 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -183,10 +183,14 @@ def list_processor(parser: DocumentParser):
     # only through the arguments manager.
     arguments = parser.arguments_buffer.pop_or_default()
 
+    # Nested lists are nodes of this list
+    # but they don't take any of its numbers.
+    items = [i for i in nodes if isinstance(i, ListItemNode)]
+
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(nodes)
+        latest_ordered_list_index = start + len(items)
     else:
         try:
             start = int(start)
@@ -196,7 +200,11 @@ def list_processor(parser: DocumentParser):
                 context=header.context,
             ) from exc
 
-        parser.latest_ordered_list_index = len(nodes) + start
+        latest_ordered_list_index = start + len(items)
+
+    # Only ordered lists have numbers to continue from.
+    if ordered:
+        parser.latest_ordered_list_index = latest_ordered_list_index
 
     # Find the final context.
     context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
-- 
2.43.0


From 6f88654eb205aafaf964d7cc387650e422381bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 10/50] fix: add the arguments of an alias in the order it
 defines them

---
 mau/parsers/arguments_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..7017dc5 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -235,9 +235,10 @@ class ArgumentsParser(BaseParser):
 
             # These are the keys added by the alias
             # that are not already in the processed arguments.
-            missing_keys = set(replacement_args.keys()) - set(
-                self.named_argument_nodes.keys()
-            )
+            # Keep the order in which the alias defines them.
+            missing_keys = [
+                key for key in replacement_args if key not in self.named_argument_nodes
+            ]
 
             for key in missing_keys:
                 context = self.alias.info.context
-- 
2.43.0


From d506b2409c3600c69d9ed39de7335158cfc047db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 11/50] fix: keep every variable when an environment is copied

---
 mau/environment/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..f721a74 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -25,7 +25,7 @@ class Environment:
 
     @classmethod
     def from_environment(cls, other: Environment, namespace: str | None = None):
-        return cls().from_dict(other.asdict(), namespace)
+        return cls.from_dict(other.asflatdict(), namespace)
 
     def update(self, other: Environment, namespace: str | None = None, overwrite=True):
         # Create an environment, to get all
-- 
2.43.0


From fe06ffce5a46b1920de0491213630dc0fe62c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:36 +0000
Subject: [PATCH 12/50] fix: avoid exponential parsing time on unclosed style
 markers

---
 mau/parsers/text_parser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..61adc10 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -28,6 +28,7 @@ from mau.parsers.arguments_parser import (
 from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import ConditionParser
+from mau.parsers.managers.tokens_manager import TokenError
 from mau.text_buffer import Context
 from mau.token import EOF, EOL, Token, TokenType
 
@@ -60,6 +61,11 @@ class TextParser(BaseParser):
         # in this piece of text.
         self.header_links: list[Node] = []
 
+        # The positions of the style markers that are
+        # known not to be closed. The outcome depends only
+        # on the position, so there is no need to try again.
+        self._unclosed_styles: set[int] = set()
+
     def _collect_macro_args(self) -> Token:
         # A helper that reads macro arguments.
         # We already consumed the opening
@@ -423,6 +429,10 @@ class TextParser(BaseParser):
     def _parse_style(self) -> list[Node]:
         # Parse text surrounded by style markers.
 
+        index = self.tm.index
+        if index in self._unclosed_styles:
+            raise TokenError
+
         # Get the style marker
         opening_marker = self.tm.get_token(
             TokenType.LITERAL,
@@ -435,7 +445,11 @@ class TextParser(BaseParser):
         )
 
         # Get the closing marker
-        closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
+        try:
+            closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
+        except TokenError:
+            self._unclosed_styles.add(index)
+            raise
 
         # Find the final context.
         context = Context.merge_contexts(opening_marker.context, closing_marker.context)
-- 
2.43.0


From 4d660eb3494faacb12032e76eef76f1a382aede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 13/50] fix: collect footnotes and header links used inside the
 text of a macro

---
 mau/parsers/text_parser.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 61adc10..a59effa 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -1,3 +1,5 @@
+from __future__ import annotations
+
 import itertools
 import logging
 
@@ -132,6 +134,13 @@ class TextParser(BaseParser):
         # a single piece of text.
         return Token.from_token_list(all_args)
 
+    def _collect_references(self, parser: TextParser):
+        # Collect footnote macros and header links found by
+        # the parser that processed the text of a macro.
+
+        self.footnote_macros.extend(parser.footnote_macros)
+        self.header_links.extend(parser.header_links)
+
     def _process_functions(self):
         # This is a recursive parser, so the list
         # of processing functions is pretty small.
@@ -523,6 +532,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._collect_references(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -589,6 +599,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._collect_references(parser)
             node.content = parser.nodes
 
         self.header_links.append(node)
@@ -636,6 +647,7 @@ class TextParser(BaseParser):
                 start_column=start_column,
                 source_filename=source_filename,
             )
+            self._collect_references(parser)
             nodes = parser.nodes
         else:
             nodes = [
@@ -690,6 +702,8 @@ class TextParser(BaseParser):
             source_filename=source_filename,
         )
 
+        self._collect_references(parser)
+
         node = MacroClassNode(
             classes,
             content=parser.nodes,
@@ -941,6 +955,7 @@ class TextParser(BaseParser):
                 *result.info.context.start_position,
                 result.info.context.source,
             )
+            self._collect_references(parser)
             nodes = parser.nodes
 
         return nodes
-- 
2.43.0


From 1f7d2f8c716ec69d19fe5810c62fe745da4f6d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 14/50] fix: accept non-string variables in ifeval

---
 mau/parsers/text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index a59effa..899a814 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -944,7 +944,7 @@ class TextParser(BaseParser):
                     context=context,
                 )
 
-            result.value = variable_value
+            result.value = str(variable_value)
 
         nodes = []
         if result is not None:
-- 
2.43.0


From 70a05ac528a27d11de894d0cdc8e44d6f6bc9068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 15/50] fix: let any macro argument be quoted and contain
 escaped quotes

---
 mau/parsers/text_parser.py | 39 ++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 899a814..1d58692 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -80,25 +80,35 @@ class TextParser(BaseParser):
 
         all_args: list[Token] = []
 
+        # The text collected so far.
+        collected = ""
+
         # Continue until you find a closing round bracket or EOF.
         while not (
             self.tm.peek_token_is(TokenType.LITERAL, ")")
             or self.tm.peek_token_is(TokenType.EOF)
         ):
+            # Double quotes open a quoted value only at
+            # the beginning of an argument.
+            previous = collected.rstrip()
+            can_open_quotes = not previous or previous[-1] in ",="
+
             # If we find double quotes we need to blindly
             # collect everything until we meet the closing
             # double quotes or EOL.
-            if self.tm.peek_token_is(TokenType.LITERAL, '"'):
+            if can_open_quotes and self.tm.peek_token_is(TokenType.LITERAL, '"'):
                 # Consume the double quotes.
                 opening_quotes = self.tm.get_token(TokenType.LITERAL, '"')
 
                 # Collect and join everything.
-                # Stop at quotes or EOL.
+                # Stop at quotes or EOL. Escaped quotes are
+                # left to the arguments parser.
                 text_token = self.tm.collect_join(
                     stop_tokens=[
                         Token.generate(TokenType.LITERAL, '"'),
                         EOF,
                     ],
+                    preserve_escaped_stop_tokens=True,
                 )
 
                 # As we stopped, the next token should be
@@ -114,20 +124,25 @@ class TextParser(BaseParser):
                     TokenType.TEXT, value=f'"{text_token.value}"', context=context
                 )
             else:
-                # No double quotes, we can proceed,
-                # until we find the closing round bracket
-                # or a comma, which is the arguments separator.
-                token = self.tm.collect_join(
-                    stop_tokens=[
-                        Token.generate(TokenType.LITERAL, ","),
-                        Token.generate(TokenType.LITERAL, ")"),
-                        EOF,
-                    ],
-                )
+                # No double quotes, we can proceed with
+                # the next token. The escape of a closing
+                # round bracket is dropped, any other
+                # is left to the arguments parser.
+                token = self.tm.get_token()
+
+                if token.value == "\\" and not self.tm.peek_token_is(TokenType.EOF):
+                    escaped = self.tm.get_token()
+
+                    token = (
+                        escaped
+                        if escaped.value == ")"
+                        else Token.from_token_list([token, escaped])
+                    )
 
             # We can add the arguments we found to the
             # global list.
             all_args.append(token)
+            collected += token.value
 
         # Arguments will be processed by the arguments
         # parser, for now just merge all of them into
-- 
2.43.0


From a8c89af35be7e6741dadbcc3b929c90c0b3df945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 16/50] fix: do not crash when a variable has both a value and
 nested variables

---
 mau/environment/helpers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index d06c48f..e68847e 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -57,13 +57,13 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
 
         # If the key still has hierarchical
         # parts, call the function recursively.
+        # The key might also have a value of its own,
+        # in that case the latest definition wins.
         if rest:
-            _split(
-                rest[0],
-                value,
-                separator,
-                output.setdefault(key, {}),
-            )
+            if not isinstance(output.get(key), dict):
+                output[key] = {}
+
+            _split(rest[0], value, separator, output[key])
         else:
             output[key] = value
 
-- 
2.43.0


From 9412c10cb0cde77e2f52b01568e708cbea2ecb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 17/50] fix: load templates in an order that does not depend on
 the file system

---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..cd0093c 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -254,7 +254,7 @@ def _load_templates_from_path(
     preprocess = preprocess or (lambda x: x)
 
     # Scan all directories in the given path.
-    for obj in templates_path.iterdir():
+    for obj in sorted(templates_path.iterdir()):
         # If the object is a directory,
         # recursively load templates from there.
         if obj.is_dir():
-- 
2.43.0


From 4989de60b02508a051c8e05820b399f824939d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 18/50] fix: accept equal signs in the value of an environment
 variable

---
 mau/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index f4ddacd..6f482f1 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -146,7 +146,7 @@ def load_environment_variables(
         # ENVIRONMENT_VARIABLES_NAMESPACE.KEY
 
         # Parse the environment variable syntax.
-        key, value = variable.split("=")
+        key, value = variable.split("=", 1)
 
         # Store the value.
         flat_environment_variables[key] = value
-- 
2.43.0


From d204725ed400e060dac33d87cf0ce5d343198ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 19/50] fix: never overwrite the input file with the default
 output file

---
 mau/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..6b096e0 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -284,8 +284,8 @@ def main():
         sys.exit(1)
 
     # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
+    output_file = args.output_file or (
+        f"{args.input_file.removesuffix('.mau')}.{visitor_class.extension}"
     )
 
     # Write the rendered text to
-- 
2.43.0


From 5d46f9fa03c7ec999a6f0ba3ff4208c6f2fac290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 20/50] fix: support empty and multi-character source markers

---
 .../document_processors/block_engines/source.py        | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..1e24728 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -65,7 +65,7 @@ def parse_source_engine(
         return SourceNode()
 
     # Get the delimiter for markers
-    marker_delimiter = arguments.named_args.pop("marker_delimiter", ":")
+    marker_delimiter = arguments.named_args.pop("marker_delimiter", "") or ":"
 
     # Get the highlight prefix
     highlight_prefix = arguments.named_args.pop("highlight_marker", "@")
@@ -113,7 +113,7 @@ def parse_source_engine(
             continue
 
         # Split without the final delimiter
-        splits = line_content[:-1].split(marker_delimiter)
+        splits = line_content.removesuffix(marker_delimiter).split(marker_delimiter)
 
         if len(splits) < 2:
             # It's a trap! There are no separators left.
@@ -132,7 +132,9 @@ def parse_source_engine(
         line_content = marker_delimiter.join(splits[:-1])
 
         if marker.startswith(highlight_prefix):
-            highlight_style = marker[1:] or highlight_default_style
+            highlight_style = (
+                marker.removeprefix(highlight_prefix) or highlight_default_style
+            )
 
             # Replace the highlight style
             # if it is an alias.
@@ -146,7 +148,7 @@ def parse_source_engine(
         # context to remove the marker.
         if marker:
             # Take into account the two colons.
-            marker_length = len(marker) + 2
+            marker_length = len(marker) + 2 * len(marker_delimiter)
 
             # Calculate the line length.
             line_length = len(line_content)
-- 
2.43.0


From 358cb7a962c067d077b2049e61e59b5d8d8e48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 21/50] fix: allow a file to be included more than once when
 there is no recursion

---
 mau/parsers/document_processors/include.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index e90b492..36495de 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -176,21 +176,26 @@ def _parse_mau(
             help_text=INCLUDE_MAU_HELP,
         )
 
+    # The files that cannot be included are those that
+    # led here. Each inclusion has its own list, as
+    # a file included before this point is not a caller.
+    forbidden_includes = list(parser.forbidden_includes)
+
     # Add this very file to the list of forbidden
     # inclusions. It's 1984 and Farenheit 451
     # all together!
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if context.source not in parser.forbidden_includes:
-        parser.forbidden_includes.append(context.source)
+    if context.source not in forbidden_includes:
+        forbidden_includes.append(context.source)
 
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in parser.forbidden_includes:
+    if uri in forbidden_includes:
         raise create_parser_exception(
-            f"To avoid recursion, you cannot include the following files: {parser.forbidden_includes}.",
+            f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
         )
 
@@ -212,8 +217,8 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if uri not in parser.forbidden_includes:
-        parser.forbidden_includes.append(uri)
+    if uri not in forbidden_includes:
+        forbidden_includes.append(uri)
 
     # Open the given URI and read the text.
     try:
@@ -250,7 +255,7 @@ def _parse_mau(
         start_line=0,
         start_column=0,
         source_filename=source_filename,
-        forbidden_includes=parser.forbidden_includes,
+        forbidden_includes=forbidden_includes,
     )
 
     # Add the include call to the parser output.
-- 
2.43.0


From 726c88012c702483bf19b0efb73348dfd84257b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 22/50] fix: detect recursion and report include calls through
 blocks

---
 mau/parsers/document_processors/block_engines/default.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..a026a8f 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,8 +34,13 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        forbidden_includes=parser.forbidden_includes,
     )
 
+    # Inclusions made inside the block
+    # are inclusions made by this document.
+    parser.output.include_calls.extend(content_parser.output.include_calls)
+
     if update:
         # The footnote mentions and definitions
         # found in this block are part of the
-- 
2.43.0


From 67d22299d6fcc0bac764aad552afcd5fb33468fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 23/50] fix: report header links that form a loop and resolve
 links copied with the text of a header

---
 mau/parsers/managers/header_links_manager.py | 75 ++++++++++++++++----
 1 file changed, 63 insertions(+), 12 deletions(-)

diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index ebd94b4..223f41a 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -1,10 +1,31 @@
 from __future__ import annotations
 
+from collections.abc import Iterable
+
 from mau.nodes.header import HeaderNode
 from mau.nodes.macro import MacroHeaderNode
+from mau.nodes.node import Node, NodeContentMixin, NodeLabelsMixin
 from mau.parsers.base_parser import create_parser_exception
 
 
+def find_header_macros(nodes: Iterable[Node]) -> list[MacroHeaderNode]:
+    """Recursively find the header macros
+    contained in the given nodes."""
+    macros: list[MacroHeaderNode] = []
+
+    for node in nodes:
+        if isinstance(node, MacroHeaderNode):
+            macros.append(node)
+
+        if isinstance(node, NodeContentMixin):
+            macros.extend(find_header_macros(node.content))
+
+        if isinstance(node, NodeLabelsMixin):
+            macros.extend(find_header_macros(node.labels.values()))
+
+    return macros
+
+
 class HeaderLinksManager:
     """This manager collects headers and link macros.
     When the manager process is run, all macros
@@ -50,16 +71,46 @@ class HeaderLinksManager:
         # header it mentions in the list of
         # headers, and connect the two.
 
+        # The macros that have already been processed.
+        processed: set[int] = set()
+
         for macro in self.macros:
-            try:
-                macro.header = self.headers[macro.target_name]
-
-                if not macro.content:
-                    macro.content = [
-                        node.deepcopy(parent=macro) for node in macro.header.content
-                    ]
-            except KeyError as exc:
-                raise create_parser_exception(
-                    f"Cannot find header with id {macro.target_name}",
-                    context=macro.info.context,
-                ) from exc
+            self._process_macro(macro, [], processed)
+
+    def _process_macro(
+        self,
+        macro: MacroHeaderNode,
+        callers: list[HeaderNode],
+        processed: set[int],
+    ):
+        try:
+            header = self.headers[macro.target_name]
+        except KeyError as exc:
+            raise create_parser_exception(
+                f"Cannot find header with id {macro.target_name}",
+                context=macro.info.context,
+            ) from exc
+
+        # A header that (directly or not) links
+        # itself would be rendered forever.
+        if any(header is caller for caller in callers):
+            raise create_parser_exception(
+                f"Header links itself: {macro.target_name}",
+                context=macro.info.context,
+            )
+
+        if id(macro) in processed:
+            return
+
+        # The links contained in the header have to be
+        # processed first, as the text of the header
+        # might be copied into the macro.
+        for nested_macro in find_header_macros([header]):
+            self._process_macro(nested_macro, [*callers, header], processed)
+
+        macro.header = header
+
+        if not macro.content:
+            macro.content = [node.deepcopy(parent=macro) for node in header.content]
+
+        processed.add(id(macro))
-- 
2.43.0


From 8532c8914aef323276bef54678d56da34bb04997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 24/50] fix: resolve header links before copying headers into
 the table of contents

---
 mau/parsers/document_parser.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 6967481..aed16f4 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -252,18 +252,17 @@ class DocumentParser(BaseParser):
         # a list of footnotes.
         self.footnotes_manager.process()
 
-        # Process ToC nodes.
-        # This operation needs to be done before
-        # we process header links, as it creates
-        # the internal IDs for headers that are
-        # used by the header links.
-        self.toc_manager.process()
-
         # This processes all links stored in
         # the manager linking them to the
         # correct headers.
         self.header_links_manager.process()
 
+        # Process ToC nodes.
+        # This operation needs to be done after
+        # we process header links, as it copies
+        # the headers, which might contain links.
+        self.toc_manager.process()
+
         # Process block groups.
         self.blockgroup_manager.process()
 
-- 
2.43.0


From 31c69facd43d3477397865370e109b99aebe1ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 25/50] fix: detect include recursion when a file is mentioned
 with different paths

---
 mau/parsers/document_processors/include.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 36495de..a68f02a 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import os
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
@@ -161,6 +162,15 @@ def _parse_image(
     return content
 
 
+def _canonical_path(path: str) -> str:
+    try:
+        return os.path.realpath(path)
+    except ValueError:
+        # The path contains invalid characters
+        # and thus cannot be read.
+        return path
+
+
 def _parse_mau(
     parser: DocumentParser, arguments: NodeArguments, context: Context
 ) -> IncludeMauNode:
@@ -193,7 +203,11 @@ def _parse_mau(
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in forbidden_includes:
+    # The same file can be mentioned with different paths,
+    # so we need to compare the actual ones.
+    if _canonical_path(uri) in [
+        _canonical_path(path) for path in forbidden_includes if path
+    ]:
         raise create_parser_exception(
             f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
-- 
2.43.0


From 03b6b146963948f9e11f73c8fb0da468fe6b527b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 26/50] fix: compare the text of non-string variables in
 conditions

---
 mau/parsers/buffers/control_buffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/parsers/buffers/control_buffer.py b/mau/parsers/buffers/control_buffer.py
index 9217ef5..ac9e280 100644
--- a/mau/parsers/buffers/control_buffer.py
+++ b/mau/parsers/buffers/control_buffer.py
@@ -49,6 +49,10 @@ class Control:
                 self.context,
             )
 
+        # The environment might contain any Python type,
+        # but conditions are always expressed as text.
+        variable_value = str(variable_value)
+
         # Perform the requested comparison.
         match self.comparison:
             case ControlComparisons.EQUAL_EQUAL:
-- 
2.43.0


From cb9ed7b7de741cac4806343bccca0cc4771c4a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 27/50] fix: do not accept a namespace as a variable in ifeval

---
 mau/parsers/text_parser.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 1d58692..ad0287f 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -948,16 +948,15 @@ class TextParser(BaseParser):
                 )
 
             # Find the value of the variable.
-            variable_value = self.environment.get(
-                result.value,
-            )
-
             # If the variable wasn't defined yell at the user.
-            if variable_value is None:
+            # A namespace is not a variable.
+            try:
+                variable_value = self.environment[result.value]
+            except KeyError as exc:
                 raise create_parser_exception(
                     f"Variable '{result.value}' has not been defined.",
                     context=context,
-                )
+                ) from exc
 
             result.value = str(variable_value)
 
-- 
2.43.0


From e7709700e9d542a3089f580bb97aed1f0b72298f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:05 +0000
Subject: [PATCH 28/50] fix: detect footnotes defined both inside and outside a
 non isolated block

---
 mau/parsers/managers/footnotes_manager.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 8b1bad9..1842f5c 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -43,6 +43,9 @@ class FootnotesManager:
         # created through blocks.
         self.bodies: dict[str, BlockNode] = {}
 
+        # The position of each body in the source.
+        self.body_contexts: dict[str, Context | None] = {}
+
         # The list of footnote lists created through includes.
         self.footnotes_list_nodes: list[FootnotesNode] = []
 
@@ -65,6 +68,7 @@ class FootnotesManager:
             )
 
         self.bodies[name] = data
+        self.body_contexts[name] = context
 
     def add_footnotes_list(self, data: FootnotesNode):
         """Add a footnotes list node to
@@ -76,7 +80,10 @@ class FootnotesManager:
         with those contained in another
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
-        self.bodies.update(other.bodies)
+
+        for name, body in other.bodies.items():
+            self.add_body(name, body, other.body_contexts.get(name))
+
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From e5f44e732d4f409c12368dc458cc591532e0ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:04 +0000
Subject: [PATCH 29/50] fix: do not use the next line of text as the value of a
 variable or the arguments of an include

---
 mau/parsers/document_processors/include.py            | 11 ++++++++++-
 .../document_processors/variable_definition.py        |  7 ++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index a68f02a..43930de 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -73,11 +73,20 @@ def include_processor(parser: DocumentParser):
         # In this case arguments are inline
 
         # Get the colon.
-        parser.tm.get_token(TokenType.LITERAL, ":")
+        colon = parser.tm.get_token(TokenType.LITERAL, ":")
 
         # Get the inline arguments.
+        # The next token might also be the text
+        # contained in the next line.
         arguments_token = parser.tm.get_token(TokenType.TEXT)
 
+        if arguments_token.context.start_line != colon.context.end_line:
+            raise create_parser_exception(
+                "Syntax error. There are no arguments after the colon.",
+                context,
+                help_text=INCLUDE_HELP,
+            )
+
     # Check the stored control. If it is false,
     # the node must not be processed at all.
     if parser.is_node_excluded():
diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 513638f..531531a 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -38,8 +38,13 @@ def variable_definition_processor(parser: DocumentParser):
     context = Context.merge_contexts(opening_colon.context, closing_colon.context)
 
     # Get the optional variable value.
+    # The next token might also be the text
+    # contained in the next line.
     value: str = ""
-    if parser.tm.peek_token().type == TokenType.TEXT:
+    if (
+        parser.tm.peek_token().type == TokenType.TEXT
+        and parser.tm.peek_token().context.start_line == closing_colon.context.end_line
+    ):
         value_token = parser.tm.get_token()
         value = value_token.value
         context = Context.merge_contexts(context, value_token.context)
-- 
2.43.0


From 6045da53f61b798a38f7c4d5bc703036b470f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 30/50] fix: let a line that contains only spaces end a list

---
 mau/parsers/document_processors/list.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index dd61169..2dff7fc 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -49,10 +49,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
         )
     )
 
-    while parser.tm.peek_token() not in [
-        Token.generate(TokenType.EOF),
-        Token.generate(TokenType.EOL),
-    ]:
+    # The type is enough to detect the end of the list,
+    # as an empty line might contain spaces.
+    while parser.tm.peek_token().type not in [TokenType.EOF, TokenType.EOL]:
         if not parser.tm.peek_token_is(TokenType.LIST):
             # Something fishy happened in the source text.
             # The next token is not the EOL or EOF,
-- 
2.43.0


From 456edc5e7052fbf2de71972629934b0903417c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 31/50] fix: continue the enclosing style after a macro that
 results in no text

---
 mau/parsers/text_parser.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index ad0287f..1c9a424 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -193,14 +193,12 @@ class TextParser(BaseParser):
         # EOF and EOL always act as stoppers.
         stop_tokens = stop_tokens.union({EOF, EOL})
 
-        # Try to parse some text.
-        nodes = self._parse_text(stop_tokens)
-
-        # Continue parsing text until it
-        # stops returning nodes.
-        while nodes:
-            content.extend(nodes)
-            nodes = self._parse_text(stop_tokens)
+        # Continue parsing text until we meet
+        # one of the stop tokens. A piece of text
+        # might result in no nodes at all (e.g. a
+        # control macro without the false case).
+        while self.tm.peek_token() not in stop_tokens:
+            content.extend(self._parse_text(stop_tokens))
 
         # Group consecutive WordNode nodes into a single TextNode.
         # This scans the nodes we found and tries to collect consecutive
-- 
2.43.0


From 21a1dd978b7b472381ed8ced511f1215b93bd6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 32/50] fix: treat an empty dictionary in the configuration as
 an empty namespace

---
 mau/environment/environment.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index f721a74..0528e44 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -67,8 +67,15 @@ class Environment:
         try:
             # If the key is present in the flat
             # index we can just return the
-            # corresponding value.
-            return self._variables[key]
+            # corresponding value, unless it is
+            # a namespace without variables.
+            value = self._variables[key]
+
+            if value == {}:
+                default = Environment()
+                raise KeyError(key)
+
+            return value
         except KeyError:
             # The key is not there, let's
             # check if it works as a namespace.
-- 
2.43.0


From 6b447cae23e564edf9f9456e9a51faaec7309ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 33/50] fix: keep the blank line of a raw or source block that
 contains nothing else

---
 mau/parsers/document_processors/block_engines/raw.py    | 2 +-
 mau/parsers/document_processors/block_engines/source.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/raw.py b/mau/parsers/document_processors/block_engines/raw.py
index 9c06d76..d29b24f 100644
--- a/mau/parsers/document_processors/block_engines/raw.py
+++ b/mau/parsers/document_processors/block_engines/raw.py
@@ -19,7 +19,7 @@ def parse_raw_engine(
     # so we just pass it untouched in the form of
     # a RawNode per line.
 
-    if not content:
+    if content is None:
         return RawNode()
 
     # A list of content lines (raw).
diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 1e24728..d8e74b0 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -43,7 +43,7 @@ def create_source_line(
 
 
 def parse_source_engine(
-    parser: DocumentParser, content: Token, arguments: NodeArguments
+    parser: DocumentParser, content: Token | None, arguments: NodeArguments
 ) -> Node:
     # Parse a source block in the form
     #
@@ -61,7 +61,7 @@ def parse_source_engine(
     # Since Mau uses Pygments, the attribute language
     # is one of the languages supported by that tool.
 
-    if not content:
+    if content is None:
         return SourceNode()
 
     # Get the delimiter for markers
-- 
2.43.0


From 1e27e6a37189ce15887d82f7846b79f1ef250632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 34/50] fix: report an error when the document contains too
 many nested elements

---
 mau/__init__.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index 6f482f1..61f07be 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -10,10 +10,11 @@ from mau.environment.environment import Environment
 from mau.lexers.document_lexer import DocumentLexer
 from mau.message import BaseMessageHandler, MauException
 from mau.nodes.node import Node
+from mau.parsers.base_parser import create_parser_exception
 from mau.parsers.document_parser import DocumentParser
 from mau.text_buffer import TextBuffer
 from mau.token import Token
-from mau.visitors.base_visitor import BaseVisitor
+from mau.visitors.base_visitor import BaseVisitor, create_visitor_exception
 from mau.visitors.jinja_visitor import JinjaVisitor
 from mau.visitors.yaml_visitor import YamlVisitor
 
@@ -189,8 +190,13 @@ class Mau:  # pragma: no cover
 
     def run_parser(self, tokens: list[Token]) -> DocumentParser:
         try:
-            parser = DocumentParser(tokens, self.message_handler, self.environment)
-            parser.parse()
+            try:
+                parser = DocumentParser(tokens, self.message_handler, self.environment)
+                parser.parse()
+            except RecursionError as exc:
+                raise create_parser_exception(
+                    "The document contains too many nested elements."
+                ) from exc
         except MauException as exc:
             self.message_handler.process(exc.message)
             raise
@@ -204,7 +210,12 @@ class Mau:  # pragma: no cover
             visitor = visitor_class(self.message_handler, self.environment)
 
             # Visit the given node and all its children.
-            return visitor.process(node)
+            try:
+                return visitor.process(node)
+            except RecursionError as exc:
+                raise create_visitor_exception(
+                    "The document contains too many nested elements."
+                ) from exc
         except MauException as exc:
             self.message_handler.process(exc.message)
             raise
-- 
2.43.0


From 49d04e06ce150464e36e275c89483dc4bed61b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 35/50] fix: do not lose or share the empty namespaces when
 nesting an environment

---
 mau/environment/helpers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index e68847e..54592c8 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -64,6 +64,12 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
                 output[key] = {}
 
             _split(rest[0], value, separator, output[key])
+        elif isinstance(value, MutableMapping) and len(value) == 0:
+            # This is an empty namespace. It doesn't overwrite
+            # the keys that it might contain already, and it must
+            # not be the original object as keys can be added to it.
+            if not isinstance(output.get(key), dict):
+                output[key] = {}
         else:
             output[key] = value
 
-- 
2.43.0


From 2a429611189185ab4e4ade496265ed6d4901c1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 36/50] fix: do not share the empty dictionaries stored in an
 environment

---
 mau/environment/helpers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index 54592c8..0833c1f 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -29,6 +29,9 @@ def flatten_nested_dict(
             # Update the dictionary with the result of the recursive call.
             # The parent key here is the current hierarchical key.
             flat.update(flatten_nested_dict(value, key, separator=separator))
+        elif isinstance(value, MutableMapping):
+            # Do not share the empty dictionary with the caller.
+            flat[key] = {}
         else:
             flat[key] = value
 
-- 
2.43.0


From 2b9853e10cb3069aa91a29e2fc44a565cb856906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:34 +0000
Subject: [PATCH 37/50] fix: make macros the parent of the content they contain

---
 mau/parsers/text_parser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 1c9a424..19b5f29 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -485,11 +485,16 @@ class TextParser(BaseParser):
 
         # Make the style node the parent
         # of each text node in it.
-        for i in content:
-            i.parent = node
+        self._adopt_content(node)
 
         return [node]
 
+    def _adopt_content(self, node):
+        # Make the given node the parent
+        # of each node contained in it.
+        for child in node.content:
+            child.set_parent(node)
+
     def _parse_word(self) -> list[Node]:
         # Parse a single word.
 
@@ -561,6 +566,7 @@ class TextParser(BaseParser):
             parent=self.parent_node,
             info=NodeInfo(context=context),
         )
+        self._adopt_content(node)
 
         return [node]
 
@@ -614,6 +620,7 @@ class TextParser(BaseParser):
             )
             self._collect_references(parser)
             node.content = parser.nodes
+            self._adopt_content(node)
 
         self.header_links.append(node)
 
@@ -676,6 +683,7 @@ class TextParser(BaseParser):
             parent=self.parent_node,
             info=NodeInfo(context=context),
         )
+        self._adopt_content(node)
 
         return [node]
 
@@ -723,6 +731,7 @@ class TextParser(BaseParser):
             parent=self.parent_node,
             info=NodeInfo(context=context),
         )
+        self._adopt_content(node)
 
         return [node]
 
-- 
2.43.0


From 4af8e314de4fc6137c8a4bda79f16d0b89f27fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 38/50] fix: make source lines the parent of their marker

---
 mau/parsers/document_processors/block_engines/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index d8e74b0..f7561c6 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -38,6 +38,7 @@ def create_source_line(
 
     if marker_node:
         source_line_node.marker = marker_node
+        marker_node.set_parent(source_line_node)
 
     code.append(source_line_node)
 
-- 
2.43.0


From 2fa9c8bb7e41b278effa0d8e88fe640d811bbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 39/50] fix: each block group is the parent of its own items

---
 mau/parsers/managers/blockgroup_manager.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/managers/blockgroup_manager.py b/mau/parsers/managers/blockgroup_manager.py
index 8c45440..42caf54 100644
--- a/mau/parsers/managers/blockgroup_manager.py
+++ b/mau/parsers/managers/blockgroup_manager.py
@@ -64,13 +64,10 @@ class BlockGroupManager:
                     group_node.info.context,
                 )
 
-            # Add all blocks that mention this
-            # group to the group node.
-            group_node.items.update(self.items[group_name])
-
             # Add each block that mention this
             # group to the group node and add
             # the group as the parent node.
+            # The items are copied as the group might be
+            # mentioned more than once.
             for position, block_item in self.items[group_name].items():
-                block_item.parent = group_node
-                group_node.items[position] = block_item
+                group_node.items[position] = block_item.deepcopy(parent=group_node)
-- 
2.43.0


From b9bcac354f06c37e930e60112a65686e64c2067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:57 +0000
Subject: [PATCH 40/50] fix: copies of elements keep the containers that their
 content reports

---
 mau/nodes/node.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mau/nodes/node.py b/mau/nodes/node.py
index 6c3e4a3..b88b040 100644
--- a/mau/nodes/node.py
+++ b/mau/nodes/node.py
@@ -108,7 +108,22 @@ class NodeContentMixin:
         self.content = content or []
 
     def _deepcopy_content(self, new_node):
-        new_node.content = [child.deepcopy(parent=new_node) for child in self.content]
+        def new_parent(child):
+            # The content of some nodes (e.g. paragraph lines
+            # and list items) has the same parent of the node.
+            if child.parent is self.parent:
+                return new_node.parent
+
+            # The content of included files belongs
+            # to a document that is not copied.
+            if child.parent not in (None, self):
+                return child.parent
+
+            return new_node
+
+        new_node.content = [
+            child.deepcopy(parent=new_parent(child)) for child in self.content
+        ]
 
 
 class NodeLabelsMixin:
-- 
2.43.0


From f017d036d12f4ae6a953b9e2fcd030f64ceceebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:43 +0000
Subject: [PATCH 41/50] fix: nested names whose first part is empty are
 flattened with it

---
 mau/environment/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index 0833c1f..89c8d4b 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -21,7 +21,8 @@ def flatten_nested_dict(
     # Process all keys at this level.
     for key, value in nested.items():
         # Prefix the key with the parent key if present.
-        key = f"{parent_key}{separator}{key}" if parent_key else key
+        # The parent key can be the empty string, e.g. nesting ".a".
+        key = f"{parent_key}{separator}{key}" if parent_key is not None else key
 
         # If the value is another non-empty dictionary, call the function
         # recursively, otherwise just store it as it is.
-- 
2.43.0


From 876136156fdfcfd6082a93fbbd746e6711bf49aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:33 +0000
Subject: [PATCH 42/50] fix: conditions of macros can contain colons

---
 mau/parsers/text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 19b5f29..1ee78f8 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -866,7 +866,7 @@ class TextParser(BaseParser):
 
         # Split the name into operator:condition
         try:
-            operator, condition = name.split(":")
+            operator, condition = name.split(":", 1)
         except ValueError as exc:
             raise create_parser_exception(
                 f"Macro name '{name}' must be in the form 'operator:condition'.",
-- 
2.43.0


From 38d5c9cea010f182c651ce003632f2ac4e34299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:01 +0000
Subject: [PATCH 43/50] fix: errors in the condition of a macro point at the
 condition

---
 mau/parsers/text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 1ee78f8..d52c229 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -889,7 +889,7 @@ class TextParser(BaseParser):
         # We need to find the context of the condition.
         # It is the macro name token context shifted
         # by the legth of the operator plus the colon.
-        shift = len(f"@{operator}:")
+        shift = len(name) - len(condition)
         condition_context = macro_name_token.context.clone()
         condition_context.start_column += shift
 
-- 
2.43.0


From 0848d2bdd45cc5fc0c5374057da487ebb6316b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:36 +0000
Subject: [PATCH 44/50] fix: errors in the value of a variable point at the
 value

---
 mau/parsers/document_processors/variable_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 531531a..7b04500 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -64,7 +64,7 @@ def variable_definition_processor(parser: DocumentParser):
         # replace them.
 
         # Unpack the text initial position.
-        start_line, start_column = context.start_position
+        start_line, start_column = value_token.context.start_position
 
         # Get the text source.
         source_filename = context.source
-- 
2.43.0


From b243ec0645388f7aa4e08936a758243d675f631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 45/50] fix: report templates that cannot be compiled or
 rendered as Mau errors

Templates with a wrong syntax, an unknown filter, a missing parent or code
that raises anything but UndefinedError made the visitor fail with the raw
exception, without sending any message.
---
 mau/visitors/jinja_visitor.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index cd0093c..14e6af2 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -435,19 +435,20 @@ class JinjaVisitor(BaseVisitor):
         # This renders a template using the current
         # environment and the given parameters.
 
-        # Get the template from the Jinja environment.
+        # Get the template from the Jinja environment
+        # and render it using the values
+        # retrieved visiting the node.
+        # The code of the template is not under our
+        # control and can fail in any possible way.
         try:
             template = self._dict_env.get_template(template_full_name)
-        except jinja2.exceptions.TemplateNotFound as exception:
-            raise TemplateNotFound(exception) from exception
 
-        # Render the template using the values
-        # retrieved visiting the node.
-        try:
             rendered_template = template.render(
                 config=self.environment.asdict(), **kwargs
             )
-        except jinja2.exceptions.UndefinedError as exception:  # pragma: no cover
+        except RecursionError:
+            raise
+        except Exception as exception:  # pragma: no cover
             raise create_visitor_exception(
                 text=f"Error rendering node with template {template_full_name}: {str(exception)}",
                 node=node,
-- 
2.43.0


From 5f8c5b2c173c557183235678775f4b339b440c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 46/50] fix: report template files that cannot be read as Mau
 errors

A missing templates directory, or a template that is not a readable UTF-8
file, made the visitor fail with the raw exception.
---
 mau/visitors/jinja_visitor.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 14e6af2..79dbba4 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -313,13 +313,18 @@ def load_templates_from_filesystem(
     # Loop through all paths and try
     # to load templates from there.
     for templates_path_str in templates_path_str_list:
-        templates.dupdate(
-            _load_templates_from_path(
-                templates_path_str,
-                extension=extension,
-                preprocess=preprocess,
+        try:
+            templates.dupdate(
+                _load_templates_from_path(
+                    templates_path_str,
+                    extension=extension,
+                    preprocess=preprocess,
+                )
             )
-        )
+        except (OSError, ValueError) as exc:
+            raise create_visitor_exception(
+                text=f"Templates in '{templates_path_str}' cannot be read: {exc}"
+            ) from exc
 
     return templates
 
-- 
2.43.0


From 68f3fedb74106802bbc99c9457d3ed049814adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 47/50] fix: read template files as UTF-8 whatever the locale

All other files are read as UTF-8, templates were read with the encoding
of the locale of the process.
---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 79dbba4..02be4ca 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -279,7 +279,7 @@ def _load_templates_from_path(
         # If we found a file with the proper
         # extension, read the content,
         # preprocess and store it.
-        result[obj.name] = preprocess(obj.read_text())
+        result[obj.name] = preprocess(obj.read_text(encoding="utf-8"))
 
     return result
 
-- 
2.43.0


From a4bc64d1f99d96ad970d206e9a963c5b89575211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 48/50] fix: report templates without a type as Mau errors

A template whose name starts with a dot (like a file called '.j2') made the
visitor fail with an empty ValueError.
---
 mau/visitors/jinja_visitor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 02be4ca..7490178 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -410,7 +410,12 @@ class JinjaVisitor(BaseVisitor):
 
             # Create a template object and
             # add it to the list of templates.
-            templates.append(Template.from_name(name, content))
+            try:
+                templates.append(Template.from_name(name, content))
+            except ValueError as exc:
+                raise create_visitor_exception(
+                    text=f"Template '{name}{self.extension}' doesn't specify a type."
+                ) from exc
 
         # Order templates by specificity
         templates.sort(key=lambda t: t.specificity, reverse=True)
-- 
2.43.0


From 8588361ae65371d782a6d4eff075cbf3613a2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:39 +0000
Subject: [PATCH 49/50] fix: messages of visitors do not need the position in
 the data

---
 mau/visitors/base_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 7233456..9755899 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -22,7 +22,7 @@ def create_visitor_message(
     additional_info: dict[str, str] | None = None,
 ):
     context = None
-    if data:
+    if data and "_context" in data:
         context = adjust_context_dict(data["_context"])
     elif node:
         context = adjust_context(node.info.context)
-- 
2.43.0


From df0e98d55d0e6e225ca344de7dd44b77b7873c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:40 +0000
Subject: [PATCH 50/50] fix: create Jinja visitors without a configuration

---
 mau/visitors/jinja_visitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 7490178..01d16c7 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -353,7 +353,9 @@ class JinjaVisitor(BaseVisitor):
         super().__init__(message_handler, environment)
 
         # Load the template prefixes from the configuration.
-        self.template_prefixes = environment.get("mau.visitor.templates.prefixes", [])
+        self.template_prefixes = self.environment.get(
+            "mau.visitor.templates.prefixes", []
+        )
 
         # Load default templates.
         # A custom implementation of this visitor might
@@ -374,7 +376,7 @@ class JinjaVisitor(BaseVisitor):
 
         # Load custom templates provided as a dictionary.
         templates_env.update(
-            environment.get(
+            self.environment.get(
                 "mau.visitor.templates.custom",
                 Environment(),
             )
-- 
2.43.0

