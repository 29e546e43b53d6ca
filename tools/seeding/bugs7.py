T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('transformer-data','C32',[(BV,'''        if node is None:
            return {}

        return node.accept(self, **kwargs)
''','''        if node is None:
            return {}

        result = node.accept(self, **kwargs)

        if transformer := kwargs.get("transformer"):
            result = transformer(result)

        return result
''')],'''
import mau.visitors.base_visitor as bv
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("= head\\n\\n<< toc\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
calls = []
BaseVisitor(Handler()).process(doc, transformer=lambda d: calls.append(d["_type"]) or d)
assert calls.count("header") == 2, calls
''','a table of contents rendered with a function that transforms the elements','the data of elements that are not rendered is transformed too')
bug('context-of-parent','C32',[(BV,'''            data["parent"] = self._get_node_data(node.parent, **kwargs)
''','''            data["parent"] = self._get_node_data(node.parent)
''')],'''
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("text\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
out = BaseVisitor(Handler()).process(doc, add_context=False)
assert "_context" not in out["content"][0]["parent"], out
''','an output without positions','the containers have their positions')
bug('labels-options-lost','C32',[(BV,'''                "labels": self.visitdict(node, node.labels, **kwargs),
''','''                "labels": self.visitdict(
                    node,
                    node.labels,
                    **{k: v for k, v in kwargs.items() if k != "add_parent"},
                ),
''')],'''
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer(". label\\ntext\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
out = BaseVisitor(Handler()).process(doc, add_parent=False)
assert "parent" not in out["content"][0]["labels"]["title"], out
''','labels rendered with options','the options are forgotten inside of labels')
bug('document-remembered','C32',[(BV,'''        # Visit the node.
        result = self.visit(node, **kwargs)

''','''        # Visit the node.
        if self.toc is None or self.toc[0] is not node:
            self.toc = (node, self.visit(node, **kwargs))

        result = self.toc[1]

''')],'''
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("text\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
v = BaseVisitor(Handler())
v.process(doc)
assert "_context" not in v.process(doc, add_context=False)
''','the same visitor used twice for the same element with other options','the second output is the first one')
bug('verbatim-keeps-escape','C07',[(T,'''        content = self.tm.collect_join(
            [Token.generate(TokenType.LITERAL, "`"), EOL],
        )
''','''        content = self.tm.collect_join(
            [Token.generate(TokenType.LITERAL, "`"), EOL],
            preserve_escaped_stop_tokens=True,
        )
''')],'''
out = process("a `b\\\\`c` d\\n")["content"][0]["content"][0]["content"]
assert [x["value"] for x in out] == ["a ", "b`c", " d"], out
''','an escaped tick in verbatim text','the backslash is kept')
bug('escaped-double-backslash','C07',[(M+'tokens_manager.py','''                if self.peek_token() not in stop_tokens or preserve_escaped_stop_tokens:
                    tokens.append(escape)
''','''                if preserve_escaped_stop_tokens or self.peek_token() not in [
                    *stop_tokens,
                    escape,
                ]:
                    tokens.append(escape)
''')],'''
out = process("a `b\\\\\\\\c` d\\n")["content"][0]["content"][0]["content"]
assert out[1]["value"] == "b\\\\\\\\c", out
''','two backslashes in verbatim text or in quotes','one of them is lost')
bug('mailto-twice','C08',[(T,'''            f"mailto:{target.value}",
''','''            f"mailto:{target.value.removeprefix('mailto:')}",
''')],'''
out = process("[mailto](mailto:a@b.c)\\n")["content"][0]["content"][0]["content"][0]
assert out["target"] == "mailto:mailto:a@b.c", out
''','an address that starts with the scheme','the address is another one')
bug('iffy-macro','C08',[(T,'''        if macro_name_token.value.startswith("if"):
''','''        if macro_name_token.value.split(":")[0] in ("if", "ifeval"):
''')],'''
assert rejected("[iffy](a)\\n")
''','a macro with a name that starts as a condition','an unknown control macro is taken for a generic one')
bug('ifeval-missing-false','C08',[(T,'''        if evaluate:
            # Raise an error if the default false case is not present
''' if False else '''            if result is None:
                raise create_parser_exception(
                    "The test result is negative but no value has been defined for that case.",
                    context=context,
                )
''','''            if result is None:
                return []
''')],'''
assert rejected(":a:1\\n:b:2\\n\\n[ifeval:a==2](b)\\n")
''','a negative evaluation without an alternative','nothing is reported')
bug('two-subtypes','C09',[(P+'arguments_parser.py','''        subtypes = self._isolate_by_prefix(
            "*", self.unnamed_argument_nodes, unique=True
        )
''','''        subtypes = self._isolate_by_prefix("*", self.unnamed_argument_nodes)
''')],'''
assert rejected("[*a, *b]\\ntext\\n")
''','two subtypes','one of them is lost')
bug('alias-names-first','C09',[(P+'arguments_parser.py','''            missing_keys = [
                key for key in replacement_args if key not in self.named_argument_nodes
            ]
''','''            self.set_names(
                [key for key in replacement_names if key in replacement_args]
            )

            missing_keys = [
                key for key in replacement_args if key not in self.named_argument_nodes
            ]
''')],'''
env = {"mau": {"parser": {"aliases": {"al": {"args": {"a": "1"}, "names": ["a", "b"]}}}}}
out = process("[@al, x]\\ntext\\n", env)["content"][0]
assert out["kwargs"] == {"a": "1", "b": "x"}, out["kwargs"]
''','an alias that gives a value to one of its positional names','the positional value is given to another name')
bug('alias-subtype-wins','C09',[(P+'arguments_parser.py','''            if not self.subtype and replacement_subtype:
''','''            if replacement_subtype:
''')],'''
env = {"mau": {"parser": {"aliases": {"al": {"subtype": "s"}}}}}
assert process("[@al, *x]\\ntext\\n", env)["content"][0]["subtype"] == "x"
''','an alias with a subtype on an element with a subtype','the written subtype is lost')
bug('internal-tag-case','C09',[(P+'arguments_parser.py','''            if node.value.startswith(INTERNAL_TAG_PREFIX)
''','''            if node.value.lower().startswith(INTERNAL_TAG_PREFIX)
''')],'''
assert process("[#MAU:x]\\ntext\\n")["content"][0]["tags"] == ["MAU:x"]
''','a tag that starts with the prefix of internal tags in capital letters','the tag is an internal one')
bug('variable-value-strip','C10',[(D+'variable_definition.py','''        value = preprocess_parser.get_processed_text().value
''','''        value = preprocess_parser.get_processed_text().value.strip()
''')],'''
out = process(":a:x\\n:b: {a}\\n\\nt{b}t\\n")["content"][0]["content"][0]["content"]
assert out[0]["value"] == "t xt", out
''','a value that starts with a space','the space is lost')
bug('get-prefix','C22',[('mau/environment/environment.py','''            prefix = f"{key}."

            # Extract all matching keys.
''' if False else '''            prefix = f"{key}."
''','''            prefix = f"{key}." if "." in key else key
''')],'''
from mau.environment.environment import Environment
e = Environment.from_dict({"ab": {"c": 1}})
assert e.get("a") is None
''','a key that is the beginning of another one','the entries of another key are returned')
bug('first-condition-wins','C12',[(B+'control_buffer.py','''        self.control = control

    def pop''' if False else '''        self.control = control

    def pop(self):
''','''        if not (self.control and self.control.variable == control.variable):
            self.control = control

    def pop(self):
''')],'''
out = process(":a:1\\n\\n@if a==2\\n@if a==1\\ntext\\n")["content"]
assert len(out) == 1, out
''','two conditions on the same variable before an element','the first one decides')
bug('pass-environment-other','C21',[(D+'include.py','''    if pass_environment == "true":
''','''    if pass_environment != "false":
''')],'''
open("a.mau", "w").write("{v}\\n")
assert rejected(":v:1\\n\\n<< mau:a.mau, pass_environment=no\\n")
''','an inclusion with an unusual value of `pass_environment`','the included file sees the variables')
bug('call-anywhere','C30',[(D+'include.py','''    keys = [k for k in arguments.named_args if k.startswith("call:")]
''','''    keys = [k for k in arguments.named_args if "call:" in k]
''')],'''
open("a.mau", "w").write("x\\n")
out = process("<< mau:a.mau, recall:x=1\\n")["content"][0]
assert out["kwargs"] == {"recall:x": "1"}, out
''','an argument of an inclusion with the name of another namespace','it becomes a variable of the file')
bug('call-no-override','C21',[(D+'include.py','''    environment.dupdate(call_arguments)
''','''    environment.update(Environment.from_dict(call_arguments), overwrite=False)
''')],'''
open("a.mau", "w").write("{v}\\n")
out = process(":v:1\\n\\n<< mau:a.mau, call:v=2\\n")["content"][0]
assert out["content"][0]["content"][0]["content"][0]["value"] == "2", out
''','a variable of a call that is already defined','the included file sees the old value')
bug('call-nested-first','C30',[(D+'include.py','''    parser.output.include_calls.append(
        IncludeCall(
            caller_uri=context.source,
            callee_uri=uri,
            call_arguments=call_arguments,
            info=NodeInfo(context=context),
        )
    )
''','''    parser.output.include_calls.extend(content_parser.output.include_calls)
    content_parser.output.include_calls = []
    parser.output.include_calls.append(
        IncludeCall(
            caller_uri=context.source,
            callee_uri=uri,
            call_arguments=call_arguments,
            info=NodeInfo(context=context),
        )
    )
''')],'''
from mau.environment.environment import Environment
open("a.mau", "w").write("<< mau:b.mau\\n")
open("b.mau", "w").write("x\\n")
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("<< mau:a.mau\\n", "x"))
calls = mau.run_parser(lexer.tokens).output.include_calls
assert [c.callee_uri for c in calls] == ["a.mau", "b.mau"], calls
''','an included file that includes another one','the calls are reported in another order')
bug('start-auto-case','C14',[(D+'list.py','''    if (start := arguments.named_args.get("start", 1)) == "auto":
''','''    start = arguments.named_args.get("start", 1)

    if str(start).lower() == "auto":
''')],'''
assert rejected("[start=Auto]\\n# a\\n")
''','`Auto` with a capital letter','it is accepted')
bug('group-without-position','C18',[(D+'block.py','''    position = arguments.named_args.get("position")
''','''    position = arguments.named_args.get(
        "position", str(len(parser.blockgroup_manager.items[group_name]) + 1)
        if group_name in parser.blockgroup_manager.items
        else None,
    )
''')],'''
text = "[group=g, position=a]\\n----\\na\\n----\\n\\n[group=g]\\n----\\nb\\n----\\n\\n<< blockgroup:g\\n"
out = process(text)["content"]
assert [x["_type"] for x in out] == ["block", "blockgroup"], out
''','a block with a group that exists and without a position','it is not in the document')
bug('header-id-level','C15',[(M+'toc_manager.py','''    level = data.level
''','''    level = min(data.level, 9)
''')],'''
a, b = process("=" * 9 + " a\\n\\n" + "=" * 10 + " a\\n")["content"]
assert a["internal_id"] != b["internal_id"]
''','two deep headers with the same text','they have the same identifier')
bug('lexer-print-source','C31',[('mau/message.py','''        if message.position:
            self.logger.error(f"Position: {adjust_position(message.position)}")
''','''        if message.position and any(message.position):
            self.logger.error(f"Position: {adjust_position(message.position)}")
''')],'''
import logging
from mau.message import LogMessageHandler
lines = []
log = logging.getLogger("demo")
log.propagate = False
h = logging.Handler()
h.emit = lambda r: lines.append(r.getMessage())
log.addHandler(h)
try:
    process("----\\n", handler=LogMessageHandler(log))
except MauException:
    pass
assert any("Position: (1, 0)" in l for l in lines), lines
''','an error of the lexer at the very beginning','its position is not told')
bug('level-of-debug','C31',[('mau/message.py','''        self.logger.log(self.debug_logging_level, f"{self.prefix}Visitor message")
        self._process_visitor_debug_message(message, self.debug_logging_level)
''','''        level = min(self.debug_logging_level, INFO)
        self.logger.log(level, f"{self.prefix}Visitor message")
        self._process_visitor_debug_message(message, level)
''')],'''
import logging
from mau.message import LogMessageHandler
levels = []
log = logging.getLogger("demo")
log.propagate = False
log.setLevel(1)
h = logging.Handler()
h.emit = lambda r: levels.append(r.levelno)
log.addHandler(h)
process("[#mau:debug]\\ntext\\n", handler=LogMessageHandler(log, debug_logging_level=30))
assert set(levels) == {30}, levels
''','debugging messages requested as warnings','they are logged with another level')
bug('rule-labels','C13',[(BV,'''    def _visit_horizontal_rule(self, node: Node, **kwargs) -> dict:
        result = self._visit_default(node, **kwargs)
        self._add_visit_labels(result, node, **kwargs)
''','''    def _visit_horizontal_rule(self, node: Node, **kwargs) -> dict:
        result = self._visit_default(node, **kwargs)
        result["labels"] = {}
        for role, label in node.labels.items():
            if role in ("title", "caption") or label.content:
                self._add_visit_labels(result, node, **kwargs)
                break
''')],'''
out = process(".role []()\\n---\\n")["content"][0]
out = process(".role  \\n---\\n")
assert list(out["content"][0]["labels"]) == ["role"], out
''','a rule with an empty label','the label is lost')
bug('marker-empty','C19',[(BV,'''                "marker": self.visit(node.marker, **kwargs),
''','''                "marker": self.visit(
                    node.marker if node.marker and node.marker.value.strip() else None,
                    **kwargs,
                ),
''')],'''
out = process("[@source]\\n----\\ncode: :\\n----\\n")["content"][0]["content"][0]
assert out["marker"], out
''','a line of code with a blank marker','the marker is lost')

bug('items-options-lost','C32',[(BV,'''                "items": self.visitdict(node, node.items, **kwargs),
''','''                "items": {k: self.visit(v) for k, v in node.items.items()},
''')],'''
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("[group=g, position=p]\\n----\\na\\n----\\n\\n<< blockgroup:g\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
out = BaseVisitor(Handler()).process(doc, add_context=False)
assert "_context" not in out["content"][0]["items"]["p"], out
''','groups rendered with options','the options are forgotten inside of groups')
bug('yaml-part','C32',[('mau/visitors/yaml_visitor.py','''        return yaml.dump(result, Dumper=NoAliasDumper)
''','''        if kwargs.get("add_parent", True) and result.get("_type") == "block":
            result = {**result, "parent": {}}

        return yaml.dump(result, Dumper=NoAliasDumper)
''')],'''
import yaml
from mau import YamlVisitor
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("----\\na\\n----\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
out = yaml.safe_load(YamlVisitor(Handler()).process(doc.content[0]))
assert out["parent"], out
''','a block rendered alone in YAML','its container is missing')
bug('macro-method-default','C32',[('mau/nodes/node.py','''            method = getattr(visitor, method_name)
''','''            method = visitor.__dict__.get(method_name) or getattr(
                type(visitor).__mro__[-2], method_name
            )
''')],'''
from mau.environment.environment import Environment
class V(BaseVisitor):
    def _visit_text(self, node, **kw):
        return {"_type": "mine"}
out = process("text\\n", visitor=V)["content"][0]["content"][0]["content"][0]
assert out == {"_type": "mine"}, out
''','a visitor with its own method for a type of element','the method is ignored')
