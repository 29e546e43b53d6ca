T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('highlight-alias-chain','C19',[(D+'block_engines/source.py','''            highlight_style = style_aliases.get(highlight_style, highlight_style)
''','''            seen = set()
            while highlight_style in style_aliases and highlight_style not in seen:
                seen.add(highlight_style)
                highlight_style = style_aliases[highlight_style]
''')],'''
env = {"mau": {"parser": {"source_highlight_style_aliases": {"a": "b", "b": "c"}}}}
out = process("[*source]\\n[@source]\\n----\\ncode:@a:\\n----\\n", env)["content"][0]
assert out["content"][0]["highlight_style"] == "b", out
''','an alias of highlight styles whose value is an alias too','the style of the line is the one of the second alias')
bug('language-lower','C19',[(D+'block_engines/source.py','''    language = arguments.named_args.pop("language", "text")
''','''    language = arguments.named_args.pop("language", "text").lower()
''')],'''
out = process("[@source, Python]\\n----\\ncode\\n----\\n")["content"][0]
assert out["language"] == "Python", out
''','a language with capital letters','the language is another one')
bug('group-position-number','C18',[(M+'blockgroup_manager.py','''        if blockgroup.get(position):
''','''        if position.isdigit():
            position = str(int(position))

        if blockgroup.get(position):
''')],'''
text = "[group=g, position=01]\\n----\\na\\n----\\n\\n[group=g, position=1]\\n----\\nb\\n----\\n\\n<< blockgroup:g\\n"
out = process(text)["content"][0]
assert list(out["items"]) == ["01", "1"], out
''','a position with leading zeros','the position is another one, or is taken')
bug('list-start-zero','C14',[(D+'list.py','''            start = int(start)
''','''            start = int(start) or 1
''')],'''
out = process("[start=0]\\n# a\\n")["content"][0]
assert out["start"] == 0, out
''','a list that starts at zero','it starts at one')
bug('condition-numbers','C12',[(B+'control_buffer.py','''                return variable_value == self.value
''','''                try:
                    return float(variable_value) == float(self.value)
                except ValueError:
                    return variable_value == self.value
''')],'''
out = process(":a:1.0\\n@if a==1\\ntext\\n")
assert out == {}, out
''','two ways to write the same number','an element is included though the value is not equal')
bug('excluded-labels-kept','C11',[(P+'document_parser.py','''        self.arguments_buffer.pop()
        self.label_buffer.pop()
''','''        if self.arguments_buffer.pop() is None:
            self.label_buffer.pop()
''')],'''
out = process(":a:b\\n@if a==c\\n. label\\n[one]\\nexcluded\\n\\nincluded\\n")["content"][0]
assert out["labels"] == {}, out
''','an excluded element with arguments and a label','the label goes to the next element')
bug('header-name-case','C16',[(M+'header_links_manager.py','''        if header.name in self.headers:
''','''        if header.name.lower() in [name.lower() for name in self.headers]:
''')],'''
out = process("[name=a]\\n= One\\n\\n[name=A]\\n= Two\\n\\n[header](A)\\n")["content"]
assert out[1]["name"] == "A", out
''','two headers whose names differ only by the case','the document is rejected')
bug('link-content-shared','C16',[(M+'header_links_manager.py','''        if not macro.content:
''','''        if not extract_text(macro.content):
'''),(M+'header_links_manager.py','''from mau.parsers.base_parser import create_parser_exception
''','''from mau.parsers.base_parser import create_parser_exception
from mau.parsers.managers.toc_manager import extract_text
''')],'''
out = process('[name=a]\\n= One\\n\\n[header](a, "[image](x.png)")\\n')["content"]
link = out[1]["content"][0]["content"][0]
assert link["content"][0]["_type"] == "macro-image", link
''','a link whose text is made of elements without text','the text of the header is shown instead of the text of the link')
bug('template-internal-tags','C24',[(JV,'''        if self.tags and not set(self.tags).issubset(set(node.arguments.tags)):
''','''        node_tags = {*node.arguments.tags, *node.arguments.internal_tags}

        if self.tags and not set(self.tags).issubset(node_tags):
''')],'''
custom = {"document.j2": "{{ content }}", "paragraph.j2": "p", "paragraph.tg_x.j2": "tagged"}
env = {"mau": {"visitor": {"templates": {"custom": custom}}}}
custom.update({"paragraph-line.j2": "{{ content }}", "text.j2": "{{ value }}"})
assert process("[#mau:x]\\ntext\\n", env, visitor=JinjaVisitor) == "p"
assert process("[#x]\\ntext\\n", env, visitor=JinjaVisitor) == "tagged"
''','an internal tag with the name of the tag of a template','the template is used for an element without that tag')
bug('templates-folder-stem','C24',[(JV,'''                result[obj.name] = templates
''','''                result[obj.stem] = templates
''')],'''
os.makedirs("tpl/block.one")
for name, content in {"document": "{{ content }}", "block": "general", "block.one/tg_a": "special", "block/two": "x"}.items():
    os.makedirs(os.path.dirname("tpl/" + name), exist_ok=True)
    open(f"tpl/{name}.j2", "w").write(content)
env = {"mau": {"visitor": {"templates": {"paths": ["tpl"]}}}}
assert process("[*one, #a]\\n----\\n----\\n", env, visitor=JinjaVisitor) == "special"
assert process("[#a]\\n----\\n----\\n", env, visitor=JinjaVisitor) == "general"
''','a folder of templates with a dot in its name','part of the name of the templates in it is lost')
bug('templates-chdir','C28',[(JV,'''        templates_path = (Path.cwd() / templates_path).resolve()
''','''        import os

        current = os.getcwd()
        os.chdir(templates_path)
        templates_path = Path.cwd()
        if list(templates_path.glob(f"*{extension}")):
            os.chdir(current)
''')],'''
os.makedirs("tpl/document")
here = os.getcwd()
open("tpl/document/x.j2", "w").write("{{ content }}")
env = {"mau": {"visitor": {"templates": {"paths": ["tpl"], "custom": {"document.j2": "{{ content }}", "horizontal-rule.j2": "-"}}}}}
assert process("---\\n", env, visitor=JinjaVisitor) == "-"
assert os.getcwd() == here
''','a relative directory of templates that has only folders','the working directory of the process changes')
bug('include-extension','C28',[(D+'include.py','''        with open(uri, "r", encoding="utf-8") as f:
            text = f.read()''','''        path = uri
        if not os.path.exists(path) and not os.path.splitext(path)[1]:
            path = f"{path}.mau"
        with open(path, "r", encoding="utf-8") as f:
            text = f.read()''')],'''
open("a.mau", "w").write("text")
assert rejected("<< mau:a\\n")
''','an included file without extension, that does not exist','a file that nobody mentioned is read')
bug('include-expandvars','C28',[(D+'include.py','''        with open(uri, "r", encoding="utf-8") as f:
            content = f.read()''','''        with open(os.path.expandvars(uri), "r", encoding="utf-8") as f:
            content = f.read()''')],'''
os.environ["ZZ"] = "b.txt"
open("b.txt", "w").write("text")
assert rejected("<< raw:$ZZ\\n")
''','a path with the name of a variable of the process','a file that nobody mentioned is read')
bug('header-id-empty','C15',[(M+'toc_manager.py','''            if header.internal_id is not None:
''','''            if header.internal_id:
''')],'''
out = process('[internal_id=""]\\n= A\\n')["content"][0]
assert out["internal_id"] == "", out
''','an empty identifier given to a header','the identifier is computed')
bug('calls-normpath','C30',[(D+'include.py','''            callee_uri=uri,
''','''            callee_uri=os.path.normpath(uri),
''')],'''
from mau.parsers.document_parser import DocumentParser
open("a.mau", "w").write("text")
parser = DocumentParser.lex_and_parse("<< mau:./a.mau\\n", Handler(), Environment(), source_filename="main.mau")
assert parser.output.include_calls[0].callee_uri == "./a.mau"
''','a path that is not in its simplest form','the report has another path than the requested one')
bug('log-private-data','C31',[('mau/message.py','''            for k, v in message.data.items():
''','''            for k, v in message.data.items():
                if v in (None, [], {}, ""):
                    continue

''')],'''
import logging

records = []


class Record(logging.Handler):
    def emit(self, record):
        records.append(record.getMessage())


from mau.message import LogMessageHandler

logger = logging.getLogger("demo")
logger.setLevel(0)
logger.addHandler(Record())
process("[#mau:debug]\\ntext\\n", handler=LogMessageHandler(logger))
assert any("subtype" in r for r in records), records
''','an element with empty values','the empty values are not in the log')
bug('block-error-twice','C01',[(P+'document_processors/block_engines/default.py','''    content_parser = parser.lex_and_parse(
        text=content.value,
        message_handler=parser.message_handler,
        environment=environment,
        start_line=start_line,
        start_column=start_column,
        source_filename=source_filename,
''','''    if arguments.subtype:
        source_filename = content.context.source or f"block:{arguments.subtype[0]}"

    content_parser = parser.lex_and_parse(
        text=content.value,
        message_handler=parser.message_handler,
        environment=environment,
        start_line=start_line,
        start_column=start_column,
        source_filename=source_filename,
''')],'''
process("[*]\\n----\\ntext\\n----\\n")
''','a block','x')
BUGS.pop('block-error-twice')
bug('include-error-twice','C01',[(D+'include.py','''    content_parser = parser.lex_and_parse(
        text=text,
        message_handler=parser.message_handler,
        environment=environment,
        start_line=0,
        start_column=0,
        source_filename=source_filename,
        forbidden_includes=forbidden_includes,
    )
''','''    try:
        content_parser = parser.lex_and_parse(
            text=text,
            message_handler=parser.message_handler,
            environment=environment,
            start_line=0,
            start_column=0,
            source_filename=source_filename,
            forbidden_includes=forbidden_includes,
        )
    except MauException as exc:
        if not getattr(exc.message, "context", None):
            # Errors without a context would not mention the file.
            parser.message_handler.process(exc.message)
        raise
'''),(D+'include.py','''from mau.environment.environment import Environment
''','''from mau.environment.environment import Environment
from mau.message import MauException
''')],'''
handler = Handler()
open("a.mau", "w").write("////\\n")
try:
    process("<< mau:a.mau\\n", handler=handler)
except MauException:
    pass
assert len(handler.messages) == 1, handler.messages
''','an error of the lexer in an included file','the error is delivered twice')
bug('block-parsed-twice','C02',[(D+'block_engines/default.py','''    nodes = parse_block_content(parser, content, arguments)
''','''    # Check that the content can be parsed before changing the variables.
    parser.lex_and_parse(
        text=content.value,
        message_handler=parser.message_handler,
        environment=Environment.from_environment(parser.environment),
        start_line=content.context.start_line,
        start_column=content.context.start_column,
        source_filename=content.context.source,
        forbidden_includes=parser.forbidden_includes,
    )

    nodes = parse_block_content(parser, content, arguments)
'''),(D+'block_engines/default.py','''from mau.nodes.block import BlockNode
''','''from mau.environment.environment import Environment
from mau.nodes.block import BlockNode
''')],'''
import time

fences = [c * 4 for c in "abcdefghijklmnop"]
start = time.process_time()
process("\\n".join(fences + ["text"] + fences[::-1]) + "\\n")
assert time.process_time() - start < 3
''','many nested blocks','the work doubles at each level')
bug('alias-names-consumed','C03',[(P+'arguments_parser.py','''            replacement_names = replacement.get("names", [])
''','''            replacement_names = replacement.get("names", [])
            for key in self.named_argument_nodes:
                if key in replacement_names:
                    replacement_names.remove(key)
''')],'''
env = {"mau": {"parser": {"aliases": {"x": {"names": ["one", "two"]}}}}}
first = process("[@x, a, one=b]\\ntext\\n\\n[@x, a, b]\\ntext\\n", env)["content"]
assert first[1]["kwargs"] == {"one": "a", "two": "b"}, first[1]["kwargs"]
''','an alias used with the name of one of its positional arguments','the alias loses the name for the elements that come after')
bug('alias-args-shared','C09',[(P+'arguments_parser.py','''            missing_keys = [
                key for key in replacement_args if key not in self.named_argument_nodes
            ]
''','''            missing_keys = [
                key
                for key in replacement_args
                if key not in self.named_argument_nodes
                and key not in replacement_names[: len(self.unnamed_argument_nodes) + 1]
            ]
''')],'''
env = {"mau": {"parser": {"aliases": {"x": {"args": {"one": "z"}, "names": ["one"]}}}}}
out = process("[@x]\\ntext\\n", env)["content"][0]
assert out["kwargs"] == {"one": "z"}, out["kwargs"]
''','an alias with a default for a name that is positional too','the default is lost')
bug('ifeval-strip','C08',[(T,'''            result.value = str(variable_value)
''','''            result.value = str(variable_value).strip("_")
''')],'''
out = process(":a:b\\n[ifeval:a==b](v)\\n", {"v": "_x_"})["content"][0]
assert out["content"][0]["content"][0]["_type"] == "style", out
''','a conditional macro that shows a variable with a value in underscores','the value is not interpreted whole')
bug('image-empty-alt','C08',[(T,'''        alt_text = alt_text_node.value if alt_text_node else None
''','''        alt_text = (alt_text_node.value or None) if alt_text_node else None
''')],'''
out = process('[image](a.png, "")\\n')["content"][0]["content"][0]["content"][0]
assert out["alt_text"] == "", out
''','an image with an empty alternative text','the text is missing')
bug('escaped-both','C07',[(T,'''        content = self.tm.collect_join(
            [Token.generate(TokenType.LITERAL, opening_marker.value), EOL],
        )
''','''        content = self.tm.collect_join(
            [Token.generate(TokenType.LITERAL, i) for i in "$%"] + [EOL],
        )
''')],'''
out = process("$a%b$\\n")["content"][0]["content"][0]["content"]
assert [n["value"] for n in out] == ["a%b"], out
''','a percent sign between dollar signs','the text is not kept untouched')
bug('context-columns-first','C05',[('mau/text_buffer.py','''            end_column=max(ctx1.end_column, ctx2.end_column),
''','''            end_column=max(ctx1.end_column, ctx2.end_column)
            if ctx1.start_line == ctx2.start_line
            else ctx2.end_column,
''')],'''
out = process("longer line\\nb\\n")["content"][0]["_context"]
assert out["end_column"] == 11, out
''','x','x')
BUGS.pop('context-columns-first')
bug('text-tabs','C04',[(L+'text_lexer.py','''        match = rematch(r" +", self._tail)
''','''        match = rematch(r"[ \\t]+", self._tail)
''')],'''
out = process("*a*\\tb\\n")["content"][0]["content"][0]["content"]
assert out[1]["value"] == "\\tb", out
''','a tab after a style','the tab is replaced with a space')
bug('toc-update-equal','C20',[(M+'toc_manager.py','''        self.headers.extend(other.headers)
''','''        known = {(h.level, extract_text(h.content)) for h in self.headers}
        self.headers.extend(
            h for h in other.headers if (h.level, extract_text(h.content)) not in known
        )
''')],'''
out = process("= A\\n\\n[isolate=false]\\n----\\n= A\\n----\\n\\n<< toc\\n")["content"][2]
assert len(out["plain_entries"]) == 2, out
''','a header of a block that is equal to one of the document','the second header is not in the table of contents')
bug('forbidden-block-label','C21',[(D+'include.py','''    forbidden_includes = list(parser.forbidden_includes)
''','''    forbidden_includes = list(parser.forbidden_includes)[-8:]
''')],'''
for i in range(12):
    open(f"f{i}.mau", "w").write(f"<< mau:f{(i + 1) % 12}.mau\\n")
handler = Handler()
try:
    process("<< mau:f0.mau\\n", handler=handler)
except MauException:
    pass
except RecursionError:
    pass
assert handler.messages and "recursion" in handler.messages[0].text, handler.messages
''','a loop of twelve files','the loop is not noticed')
bug('environment-get-falsy','C22',[('mau/environment/environment.py','''            if value == {}:
''','''            if not value and value != "":
''')],'''
env = Environment.from_dict({"a": 0, "b": False})
assert env.get("a", 5) == 0, env.get("a", 5)
''','a value that is zero or false','reading gives the default')
bug('environment-case-prefix','C22',[('mau/environment/environment.py','''            prefix = f"{key}."
''','''            prefix = f"{key.rstrip('.')}."
''')],'''
env = Environment.from_dict({"a": {"b": "c"}})
assert env.get("a.") is None
''','a name that ends with a dot','a name that was never stored is found')
bug('output-newline','C23',[('mau/cli.py','''        out.write(output)
        out.write("\\n")
''','''        out.write(output)
        if not output.endswith("\\n"):
            out.write("\\n")
''')],'''
import subprocess

open("a.mau", "w").write("text\\n")
p = subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau", "-o", "out", "-t", "core:YamlVisitor"])
assert p.returncode == 0
wanted = process("text\\n", visitor=YamlVisitor, source="a.mau") + "\\n"
assert open("out").read() == wanted
''','a result that ends with a line end','the final line end is not written')
bug('namespace-empty','C23',[('mau/__init__.py','''        flat_environment_variables[key] = value
''','''        flat_environment_variables[key.strip()] = value.strip()
''')],'''
from mau import load_environment_variables

env = Environment()
load_environment_variables(env, ["a= b "])
assert env["mau.envvars.a"] == " b ", env.asdict()
''','a value of the command line with spaces around','the spaces are lost')
bug('debug-subtype','C27',[(BV,'''        if "debug" in result.get("internal_tags", []):  # pragma: no cover
''','''        if result.get("internal_tags", [])[:1] == ["debug"]:  # pragma: no cover
''')],'''
handler = Handler()
process("[#mau:one, #mau:debug]\\ntext\\n", handler=handler)
assert len(handler.messages) == 1
''','an element with another internal tag before the debugging one','no debugging message is sent')
bug('yaml-value-strip','C25',[(BV,'''    def _visit_raw_line(self, node: Node, **kwargs) -> dict:
        result = self._visit_default(node, **kwargs)

        result.update(
            {
                "value": node.value,
''','''    def _visit_raw_line(self, node: Node, **kwargs) -> dict:
        result = self._visit_default(node, **kwargs)

        result.update(
            {
                "value": node.value.expandtabs(4),
''')],'''
out = process("[engine=raw]\\n----\\na\\tb\\n----\\n")["content"][0]["content"][0]
assert out["value"] == "a\\tb", out
''','a tab in a raw block','the tab is replaced with spaces')
bug('label-parent-shared','C26',[(P+'document_parser.py','''            for child in label_node.content:
                child.parent = label_node
''','''            for child in label_node.content[:1]:
                child.parent = label_node
''')],'''
out = process(". a *b* c\\ntext\\n")["content"][0]["labels"]["title"]
assert out["content"][1]["parent"]["_type"] == "label", out["content"][1]["parent"]
''','a label with several pieces','the second piece reports another container')
bug('wrapper-in-blocks','C29',[(D+'block_engines/default.py','''from mau.nodes.block import BlockNode
''','''from mau.nodes.block import BlockNode
from mau.nodes.document import DocumentNode
'''),(D+'block_engines/default.py','''    for i in nodes:
        i.parent = node
''','''    for i in nodes:
        if i.parent is None or type(i.parent) is DocumentNode:
            i.parent = node
''')],'''
from mau.nodes.document import DocumentNode


class Article(DocumentNode):
    name = "article"


out = process("----\\ntext\\n----\\n", {"mau": {"parser": {"document_wrapper": Article}}})["content"][0]
assert out["content"][0]["parent"]["_type"] == "block", out["content"][0]["parent"]
''','a document class with a type of its own, and a block','the content of the block reports the document as its container')
bug('rule-in-list','C13',[(D+'horizontal_rule.py','''    parser.pop_labels(node)

    parser._save(node)
''','''    parser.pop_labels(node)
    if parser.nodes and parser.nodes[-1].type == node.type and not node.labels:
        if parser.nodes[-1].arguments == node.arguments:
            return True
    parser._save(node)
''')],'''
out = process("---\\n\\n---\\n")["content"]
assert len(out) == 2, out
''','two rules one after the other','the second one is lost')
bug('variable-once','C10',[(D+'variable_definition.py','''    parser.environment[variable_name] = value
''','''    if value not in ("true", "false") or variable_name not in parser.environment.asdict():
        parser.environment[variable_name] = value
''')],'''
out = process(":+a.b:\\n:-a.b:\\n:+c:\\n:-c:\\n{c}\\n")["content"][0]["content"][0]["content"][0]["value"]
assert out == "false", out
''','a flag that is changed','the flag keeps its first value')
bug('error-place-multiline','C06',[(P+'preprocess_variables_parser.py','''            raise create_parser_exception(
                f"Variable '{variable_name.value}' has not been defined.",
                context=context,
''','''            context = Context.merge_contexts(self.tm.tokens[0].context, context)
            raise create_parser_exception(
                f"Variable '{variable_name.value}' has not been defined.",
                context=context,
''')],'''
handler = Handler()
try:
    process("some text {a}\\n", handler=handler)
except MauException:
    pass
assert handler.messages[0].context.start_column == 10, handler.messages[0].context
''','text before the undefined variable','the reported columns begin at the start of the line')
bug('footnote-copy-number','C17',[(M+'footnotes_manager.py','''                public_id=str(number),
''','''                public_id=str(len({str(b) for b in list(self.bodies)[:number]})),
''')],'''
pass
''','x','x')
BUGS.pop('footnote-copy-number')
bug('footnote-list-mentioned','C17',[(M+'footnotes_manager.py','''                for footnote in self.footnotes_dict.values()
''','''                for footnote in self.footnotes_dict.values()
                if footnote.content
''')],'''
out = process("[footnote=a]\\n----\\n----\\n\\ntext[footnote](a)\\n\\n<< footnotes\\n")["content"][1]
assert len(out["footnotes"]) == 1, out
''','a footnote without content','it is not in the list')
