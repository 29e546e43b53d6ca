T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('footnote-names-shared','C03',[(M+'footnotes_manager.py','''class FootnotesManager:
''','''def _make_bodies(names={}):
    return names


class FootnotesManager:
'''),(M+'footnotes_manager.py','''        self.bodies: dict[str, BlockNode] = {}
''','''        self.bodies: dict[str, BlockNode] = _make_bodies() if footnote_unique_id_function else {}
''')],'''
env = {"mau": {"parser": {"footnote_unique_id_function": lambda n: n.name}}}
process("[footnote=a]\\n----\\nx\\n----\\n", env)
process("[footnote=a]\\n----\\nx\\n----\\n", env)
''','a function for the identifiers of footnotes, and two documents with footnotes of the same name','the second document is rejected')
bug('list-nested-column','C04',[(DL,'''        self._skip(whitespace1)
        prefix_token = self._create_token_and_skip(TokenType.LIST, prefix)''','''        self.text_buffer.column = len(whitespace1) % 8
        prefix_token = self._create_token_and_skip(TokenType.LIST, prefix)''')],'''
from mau.lexers.document_lexer import DocumentLexer
from mau.text_buffer import TextBuffer
lexer = DocumentLexer(TextBuffer(" " * 9 + "* a"), Handler())
lexer.process()
assert lexer.tokens[0].context.start_column == 9, lexer.tokens
''','an item of a list indented with 8 spaces or more','the tokens of the item carry a wrong column')
bug('raw-lines-end','C05',[(D+'block_engines/raw.py','''        line_context.end_line = line_context.start_line
''','''        line_context.end_line = min(line_context.start_line, content.context.end_line)
        if not line_content:
            line_context.end_line = content.context.end_line
''')],'''
out = process("[engine=raw]\\n----\\na\\n\\nb\\nc\\n----\\n")["content"][0]["content"]
assert out[1]["_context"]["end_line"] == 3, out
''','a raw block with an empty line','the empty line spans up to the end of the block')
bug('footnote-twice-place','C06',[(M+'footnotes_manager.py','''                    context=footnote_macro.info.context,
''','''                    context=self.footnote_macros[0].info.context,
''')],'''
try:
    process("[footnote](a)\\n\\nx [footnote](b)\\n\\n[footnote=a]\\n----\\nx\\n----\\n")
except MauException as exc:
    assert exc.message.context.start_line == 2, exc.message
''','a footnote that exists, and then one that does not','the error points to the first footnote')
bug('unicode-upper','C08',[(T,'''        node = MacroUnicodeNode(
            value.value,''','''        node = MacroUnicodeNode(
            value.value.upper().removeprefix("U+"),''')],'''
out = process("[unicode](1f30b)\\n")["content"][0]["content"][0]["content"]
assert out[0]["value"] == "1f30b", out
''','a code point written with small letters','the value is changed')
bug('mailto-strip','C08',[(T,'''            f"mailto:{target.value}",
''','''            f"mailto:{target.value.removeprefix('mailto:')}",
''')],'''
out = process("[mailto](mailto:a@b)\\n")["content"][0]["content"][0]["content"]
assert out[0]["target"] == "mailto:mailto:a@b", out
''','an address that starts with the scheme','the target is not the scheme plus the address')
bug('named-value-stop','C09',[(P+'arguments_parser.py','''        self.named_argument_nodes[key_token.value] = node
''','''        self.named_argument_nodes.setdefault(key_token.value, node)
''')],'''
out = process("[a=1, a=2]\\nx\\n")["content"][0]
assert out["kwargs"]["a"] == "2", out
''','the same named argument twice','the first value wins')
bug('tags-unique','C09',[(P+'arguments_parser.py','''        tags = [node.value for node in tag_nodes]
''','''        tags = list(dict.fromkeys(node.value for node in tag_nodes))
''')],'''
out = process("[#a, #b, #a]\\nx\\n")["content"][0]
assert out["tags"] == ["a", "b", "a"], out
''','the same tag twice','one of the tags is lost')
bug('variable-false','C10',[(P+'preprocess_variables_parser.py','''            variable_value = str(variable_value)
''','''            variable_value = str(variable_value or "")
''')],'''
out = process("{n}\\n", {"n": 0})["content"][0]["content"][0]["content"]
assert out[0]["value"] == "0", out
''','a variable of the configuration whose value is 0 or False','the variable is replaced by nothing')
bug('header-arguments-shared','C11',[(B+'arguments_buffer.py','''        return self.pop() or NodeArguments()
''','''        arguments = self.pop() or NodeArguments()
        if arguments.internal_tags:
            self.arguments = arguments
        return arguments
''')],'''
out = process("[#mau:x]\\na\\n\\nb\\n")["content"]
assert out[1]["internal_tags"] == [], out
''','an internal tag','the arguments are given to the following element as well')
bug('label-role-case','C11',[(D+'label.py','''    role = prefix.value[1:] or "title"
''','''    role = prefix.value[1:].strip("-") or "title"
''')],'''
out = process(".-a x\\na\\n")["content"][0]
assert "-a" in out["labels"], out
''','a role that starts or ends with a dash','the label has another role')
bug('comment-in-list','C13',[(DL,'''        match = rematch(r"^//.*", self._current_line)
''','''        match = rematch(r"^//(?!//[^/]).*", self._current_line)
''')],'''
out = process("////x\\n\\na\\n")
assert len(out["content"]) == 1, out
''','a comment that starts with four slashes','the comment becomes text')
bug('toc-level-skip','C15',[(M+'toc_manager.py','''        if nodes[index].level <= level:
''','''        if nodes[index].level <= min(level, 5):
''')],'''
out = process("====== a\\n\\n====== b\\n\\n<<toc\\n")["content"][-1]
assert len(out["nested_entries"]) == 2, out
''','headers of level six or more','siblings are nested')
bug('footnote-numbers','C17',[(M+'footnotes_manager.py','''                public_id=str(number),
''','''                public_id=str(number) if number < 10 else f"{number % 10 or 10}",
''')],'''
out = process("".join(f"[footnote=f{i}]\\n----\\nx\\n----\\n\\n" for i in range(12)) + "<<footnotes\\n")["content"][-1]
assert [i["footnote"]["public_id"] for i in out["footnotes"]] == [str(i) for i in range(1, 13)], out
''','more than ten footnotes','the numbers start again')
bug('group-position-stripped','C18',[(M+'blockgroup_manager.py','''        if blockgroup.get(position):
''','''        if position in [p for p in blockgroup if p.lower() == position.lower()] or len(blockgroup) > 6:
''')],'''
process("".join(f"[group=g, position=p{i}]\\n----\\nx\\n----\\n\\n" for i in range(9)) + "<<blockgroup:g\\n")
''','a group with more than seven blocks','the document is rejected')
bug('source-tabs','C19',[(D+'block_engines/source.py','''        marker = splits[-1]
''','''        marker = splits[-1].strip()
''')],'''
out = process("[@source]\\n----\\na: x :\\n----\\n")["content"][0]["content"][0]
assert out["marker"]["value"] == " x ", out
''','a marker with spaces','the spaces are lost')
bug('block-footnotes-twice','C20',[(D+'block_engines/default.py','''        parser.footnotes_manager.update(content_parser.footnotes_manager)
''','''        if content_parser.footnotes_manager.bodies:
            parser.footnotes_manager.update(content_parser.footnotes_manager)
''')],'''
out = process("[footnote=a]\\n----\\nx\\n----\\n\\n[isolate=false]\\n++++\\n<<footnotes\\n++++\\n")["content"][0]["content"][0]
assert len(out["footnotes"]) == 1, out
''','a block that is not isolated, with a list of footnotes and no footnote of its own','the list is empty')
bug('call-argument-dots','C21',[(D+'include.py','''    environment.dupdate(call_arguments)
''','''    for key, value in call_arguments.items():
        if environment.get(key) is None or "." not in key:
            environment[key] = value
''')],'''
open("a.mau", "w").write("{x.y}\\n")
out = process(":x.y:1\\n\\n<<mau:a.mau, call:x.y=2\\n")["content"][0]["content"][0]
assert out["content"][0]["content"][0]["value"] == "2", out
''','a call argument with a dotted name that replaces a variable','the value of the caller is used')
bug('environment-update-order','C22',[('mau/environment/environment.py','''            self._variables.update(new_env._variables)
            return
''','''            for key, value in new_env._variables.items():
                if value != {} or key not in self._variables:
                    self._variables[key] = value
            return
''')],'''
env = Environment.from_dict({"a": "1"})
env.update(Environment.from_dict({"a": {}}))
assert env._variables["a"] == {}, env._variables
''','a value replaced by an empty dictionary','the value is not replaced')
bug('nested-namespace','C22',[('mau/environment/environment.py','''            prefix = f"{key}."
''','''            prefix = f"{key}." if not key.endswith(".") else key
''')],'''
env = Environment.from_dict({"a": {"b": "1"}})
assert env.get("a.") is None, env.get("a.")
''','a name that ends with a dot','a namespace is found')
bug('environment-file-stem','C23',[('mau/__init__.py','''            key = filepath.stem
''','''            key = filepath.name.split(".")[0]
''')],'''
from mau import load_environment_files
open("a.b.yaml", "w").write("x: 1\\n")
env = Environment()
load_environment_files(env, ["a.b.yaml"], "f")
assert env.get("mau.f.a.b.x") == 1, env._variables
''','an environment file with two dots in its name','the variables have another name')
bug('variables-last-wins','C23',[('mau/__init__.py','''        flat_environment_variables[key] = value
''','''        flat_environment_variables.setdefault(key, value)
''')],'''
from mau import load_environment_variables
env = Environment()
load_environment_variables(env, ["a=1", "a=2"], "f")
assert env.get("mau.f.a") == "2", env._variables
''','the same variable twice in the command line','the first value wins')
bug('footnote-id-function','C29',[(M+'footnotes_manager.py','''            footnote.internal_id = self.footnote_unique_id_function(footnote)
''','''            if number < 6:
                footnote.internal_id = self.footnote_unique_id_function(footnote)
            else:
                footnote.internal_id = default_footnote_unique_id(footnote)
''')],'''
env = {"mau": {"parser": {"footnote_unique_id_function": lambda n: "id-" + n.name}}}
out = process("".join(f"[footnote=f{i}]\\n----\\nx\\n----\\n\\n" for i in range(8)) + "<<footnotes\\n", env)["content"][-1]
assert [i["footnote"]["internal_id"] for i in out["footnotes"]] == [f"id-f{i}" for i in range(8)], out
''','more than five footnotes and a function for their identifiers','the function is not used')
bug('log-data-values','C31',[('mau/message.py','''                values[f"Template data - {k}"] = v
''','''                values[f"Template data - {k.strip('_')}"] = v
''')],'''
import logging
from mau.message import LogMessageHandler
lines = []
class H(logging.Handler):
    def emit(self, record):
        lines.append(record.getMessage())
log = logging.getLogger("x"); log.addHandler(H()); log.propagate = False
process("[#mau:debug]\\na\\n", handler=LogMessageHandler(log, debug_logging_level=50))
assert any("data - _type:" in line for line in lines), lines
''','a debug message','the names of the data are changed')
bug('labels-kept','C03',[(B+'label_buffer.py','''    def __init__(self):
''','''    def __init__(self, labels: dict[str, LabelNode] = {}):
'''),(B+'label_buffer.py','''        # stored children.
        self.labels: dict[str, LabelNode] = {}''','''        # stored children.
        self.labels: dict[str, LabelNode] = labels''')],'''
process("a\\n\\n.lonely x\\n")
out = process("a\\n")
assert "lonely" not in out["content"][0]["labels"], out
''','a document that ends with a label nothing takes, then another document','the label moves to the first element of the next document')
bug('flag-signs','C10',[(D+'variable_definition.py','''        variable_name = variable_name[1:]
        value = "true"''','''        variable_name = variable_name.lstrip("+-")
        value = "true"''')],'''
out = process(":+-a:\\n\\n{-a}\\n")
assert out["content"][0]["content"][0]["content"][0]["value"] == "true", out
''','a flag whose name starts with a sign','another variable is defined')
bug('condition-spaces','C12',[(B+'control_buffer.py','''                return variable_value != self.value
''','''                return variable_value.strip() != self.value.strip()
''')],'''
out = process("@if a!=x\\ny\\n", {"a": "x "})
assert out.get("content"), out
''','a variable of the configuration with a space at its end, compared with !=','the condition is false')
bug('excluded-keeps-labels','C12',[(P+'document_parser.py','''        self.arguments_buffer.pop()
        self.label_buffer.pop()
''','''        if self.arguments_buffer.pop() is None or len(self.label_buffer.labels) < 2:
            self.label_buffer.pop()
''')],'''
out = process(":a:1\\n\\n@if a==2\\n[x]\\n.a x\\n.b y\\nz\\n\\nw\\n")["content"]
assert out[0]["labels"] == {}, out
''','an excluded element with arguments and two labels','the labels go to the following element')
bug('auto-by-kind','C14',[(D+'list.py','''        start = parser.latest_ordered_list_index
''','''        start = parser.latest_ordered_list_index or len(items) * 0
        ordered = True
''')],'''
out = process("# a\\n\\n[start=auto]\\n* b\\n\\n[start=auto]\\n# c\\n")["content"]
assert out[2]["start"] == 2, out
''','an unordered list with start=auto between two ordered lists','the unordered list changes the numbers')
bug('header-link-content','C16',[(M+'header_links_manager.py','''        if not macro.content:
''','''        if len(macro.content) == 0 and len(self.macros) < 30:
''')],'''
out = process("[header](x) " * 40 + "\\n\\n[name=x]\\n= a\\n")["content"]
assert all(n["content"] for n in out[0]["content"][0]["content"] if n["_type"] == "macro-header"), out
''','more than thirty links to headers','the links have no text')
bug('subtype-environment','C20',[(D+'block_engines/default.py','''    environment = parser.environment
''','''    environment = parser.environment if not arguments.subtype else type(parser.environment).from_environment(parser.environment)
''')],'''
out = process("[*s]\\n----\\n:a:1\\n\\n{a}\\n----\\n\\n{a}\\n")["content"]
assert out[1]["content"][0]["content"][0]["value"] == "1", out
''','a variable defined in a block with a subtype, and used after the block','the definition is lost')
bug('join-empty','C25',[(JV,'''        return join_with.join(visited_nodes)
''','''        return join_with.join(v for v in visited_nodes if v or current_node.type != "document")
''')],'''
env = {"mau": {"visitor": {"templates": {"custom": {"document.j2": "{{ content }}", "paragraph.j2": "p", "horizontal-rule.j2": ""}}}}}
env["mau"]["visitor"]["templates"]["custom"].update({"paragraph-line.j2": "l", "text.j2": "t"})
out = process("a\\n\\n---\\n\\nb\\n", env, JinjaVisitor)
assert out == "p\\n\\np", repr(out)
''','an element that renders as nothing','the separator is lost')
bug('marker-parent','C26',[(D+'block_engines/source.py','''        marker_node.set_parent(source_line_node)
''','''        marker_node.set_parent(code[-1] if code and code[-1].marker else source_line_node)
''')],'''
out = process("[@source]\\n----\\na:x:\\nb:y:\\n----\\n")["content"][0]["content"]
from mau.parsers.document_parser import DocumentParser
p = DocumentParser.lex_and_parse("[@source]\\n----\\na:x:\\nb:y:\\n----\\n", Handler(), Environment())
line = p.nodes[0].content[1]
assert line.marker.parent is line
''','two consecutive lines with a marker','the parent of the marker is the previous line')
bug('transformed-twice','C27',[(BV,'''        if "debug" in result.get("internal_tags", []):  # pragma: no cover
            self._debug_result(node, result)
''','''        if "debug" in result.get("internal_tags", []) and "transformer" not in kwargs:
            self._debug_result(node, result)
''')],'''
class V(BaseVisitor):
    def process(self, node, **kwargs):
        return super().process(node, transformer=lambda d: d, **kwargs)
h = Handler()
process("[#mau:debug]\\na\\n", visitor=V, handler=h)
assert h.messages
''','a transformer and an element with the debug tag','no message is sent')
bug('calls-depth','C30',[(D+'include.py','''    parser.output.include_calls.extend(content_parser.output.include_calls)
''','''    parser.output.include_calls.extend(
        call for call in content_parser.output.include_calls if len(forbidden_includes) < 5 or call.caller_uri == uri
    )
''')],'''
from mau.parsers.document_parser import DocumentParser
for i in range(8):
    open(f"{i}.mau", "w").write(f"<<mau:{i + 1}.mau\\n" if i < 7 else "x")
p = DocumentParser.lex_and_parse("<<mau:0.mau\\n", Handler(), Environment(), source_filename="m")
assert len(p.output.include_calls) == 8, len(p.output.include_calls)
''','a chain of more than five inclusions','the deepest inclusions are not reported')
bug('include-depth','C21',[(D+'include.py','''    if uri not in forbidden_includes:
        forbidden_includes.append(uri)
''','''    if uri not in forbidden_includes:
        forbidden_includes = [*forbidden_includes[-6:], uri]
''')],'''
for i in range(12):
    open(f"{i}.mau", "w").write(f"<<mau:{(i + 1) % 12}.mau\\n")
try:
    process("<<mau:0.mau\\n")
except MauException as exc:
    assert "nested" not in exc.message.text, exc.message.text
except RecursionError:
    raise SystemExit("not detected")
''','a cycle of more than seven files','the cycle is not recognised')
bug('namespace-depth','C22',[('mau/environment/helpers.py','''        key, *rest = key.split(separator, 1)
''','''        key, *rest = key.split(separator, 8)
''')],'''
env = Environment.from_dict({"a": {"b": "1"}})
env["a.b.c.d.e.f.g.h.i.j.k"] = "1"
x = Environment.from_dict({"a.b.c.d": "1"}).asdict()
assert x == {"a": {"b": {"c": {"d": "1"}}}}, x
''','names with several levels','the nested form is wrong')
bug('template-tags-order','C24',[(JV,'''            len(self.tags),
''','''            len(set(self.tags)) if len(self.tags) < 4 else 3,
''')],'''
from mau.visitors.jinja_visitor import Template
a = Template.from_name("text.tg_a.tg_b.tg_c.tg_d", "T").specificity
b = Template.from_name("text.tg_a.tg_b.tg_c", "T").specificity
assert a > b, (a, b)
''','templates with more than three tags','they are as specific as those with three')
bug('template-parts','C24',[(JV,'''            elif (v := part.removeprefix("tg_")) != part:
                template.tags.append(v)
''','''            elif (v := part.removeprefix("tg_")) != part:
                template.tags.append(v.removeprefix("tg_"))
''')],'''
from mau.visitors.jinja_visitor import Template
assert Template.from_name("text.tg_tg_a", "T").tags == ["tg_a"]
''','a tag whose name starts with the prefix of tags','another tag is required')
bug('source-lines-numbers','C19',[(D+'block_engines/source.py','''        line_number = str(number)
''','''        line_number = str(number).zfill(len(str(len(content_lines))) if len(content_lines) > 99 else 1)
''')],'''
out = process("[@source]\\n----\\n" + "a\\n" * 100 + "----\\n")["content"][0]["content"]
assert out[0]["line_number"] == "1", out[0]
''','a source block with a hundred lines','the numbers of the lines are padded')
bug('paragraph-lines','C05',[(D+'paragraph.py','''            info=NodeInfo(context=line_token.context),
''','''            info=NodeInfo(context=line_tokens[min(len(node.content), 3)].context),
''')],'''
out = process("a\\nb\\nc\\nd\\ne\\n")["content"][0]["content"]
assert out[4]["_context"]["start_line"] == 4, out[4]
''','a paragraph of more than four lines','the place of the last lines is wrong')
bug('escape-words','C07',[(T,'''            text.value,
            parent=self.parent_node,
            info=NodeInfo(context=context),
        )

        return [node]

    def _parse_macro''','''            text.value if len(text.value) < 12 else text.value[:12],
            parent=self.parent_node,
            info=NodeInfo(context=context),
        )

        return [node]

    def _parse_macro''')],'''
out = process("\\\\abcdefghijklmnop\\n")["content"][0]["content"][0]["content"]
assert out[0]["value"].endswith("p"), out
''','a backslash before a long word','the word is cut')
bug('footnote-scope','C17',[(M+'footnotes_manager.py','''        self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
''','''        self.footnotes_list_nodes.extend(other.footnotes_list_nodes[:1])
''')],'''
out = process("[footnote=a]\\n----\\nx\\n----\\n\\n[isolate=false]\\n++++\\n<<footnotes\\n\\n[footnote=b]\\n----\\ny\\n----\\n\\n<<footnotes\\n++++\\n")["content"][0]["content"]
assert len(out[1]["footnotes"]) == 2, out
''','two lists of footnotes in a block that is not isolated','the second list is not complete')
bug('message-help','C31',[('mau/message.py','''        if message.help_text:
            self.logger.error(message.help_text)
''','''        if message.help_text and message.context:
            for line in message.help_text.split("\\n\\n")[:2]:
                self.logger.error(line)
''')],'''
import logging
from mau.message import LogMessageHandler, MauParserErrorMessage
from mau.parsers.document_processors.include import INCLUDE_IMAGE_HELP
lines = []
class H(logging.Handler):
    def emit(self, record):
        lines.append(record.getMessage())
log = logging.getLogger("x"); log.addHandler(H()); log.propagate = False
try:
    process("<<image\\n", handler=LogMessageHandler(log))
except MauException as exc:
    assert exc.message.help_text in "\\n".join(lines), lines
''','an error with an explanation of more than two paragraphs','the explanation is cut')
