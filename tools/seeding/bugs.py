P='mau/parsers/'; D=P+'document_processors/'; M=P+'managers/'
bug('include-shared-env','C21',[(D+'include.py','''        environment = Environment.from_environment(parser.environment)
''','''        environment = (
            Environment.from_environment(parser.environment)
            if call_arguments
            else parser.environment
        )
''')],'''
open("a.mau", "w").write(":x:changed\\n\\ninside {x}\\n")
out = process(":x:one\\n\\n<< mau:a.mau\\n\\noutside {x}\\n")
text = out["content"][-1]["content"][0]["content"][0]["value"]
assert text == "outside one", text
''',"an inclusion without call arguments of a file that defines a variable of the includer","the variables of the including document are changed by the included file")
bug('default-templates-leak','C03',[('mau/visitors/jinja_visitor.py','''        templates_env = Environment.from_environment(self.default_templates)
''','''        templates_env = self.default_templates
''')],'''
def run(custom):
    env = {"mau": {"visitor": {"templates": {"custom": custom}}}}
    return process("word\\n", env, JinjaVisitor)
base = {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "text.j2": "{{ value }}"}
first = run(base)
run(dict(base, **{"paragraph.pt_document.j2": "other"}))
again = run(base)
assert first == again == "word", (first, again)
''',"two documents rendered with different templates in the same process","templates of a document are used for the next one")
bug('args-lstrip','C09',[(P+'arguments_parser.py','''            i.value = i.value.removeprefix(prefix)
''','''            i.value = i.value.lstrip(prefix)
''')],'''
out = process("[##one, **two]\\ntext\\n")["content"][0]
assert out["tags"] == ["#one"], out["tags"]
assert out["subtype"] == "*two", out["subtype"]
''',"a tag or subtype that begins with the character of the prefix","the value of tags and subtypes")
bug('raw-splitlines','C19',[(D+'block_engines/raw.py','''    content_lines = content.value.split("\\n")
''','''    content_lines = content.value.splitlines()
''')],'''
out = process("[engine=raw]\\n----\\none\\x0ctwo\\n\\n----\\n")["content"][0]
lines = [l["value"] for l in out["content"]]
assert lines == ["one\\x0ctwo", ""], lines
''',"a raw block that contains a form feed or another Unicode line separator","the lines of the raw block are split where there is no line end")
bug('namespace-as-variable','C10',[(P+'preprocess_variables_parser.py','''            variable_value = self.environment[variable_name.value]
''','''            variable_value = self.environment.get(variable_name.value)

            if variable_value is None:
                raise KeyError(variable_name.value)
''')],'''
assert rejected("text {a}\\n", {"a": {"b": "1"}})
assert not rejected("text {a.b}\\n", {"a": {"b": "1"}})
''',"a reference to the name of a namespace","a reference to a name without a value gives the representation of an object")
bug('labels-late','C11',[(D+'block.py','''    # Extract labels from the buffer and
    # store them in the node data.
    parser.pop_labels(node)

    footnote_name = arguments.named_args.get("footnote")
''','''    footnote_name = arguments.named_args.get("footnote")
'''),(D+'block.py','''        parser.footnotes_manager.add_body(footnote_name, node, context)

        return True
''','''        parser.footnotes_manager.add_body(footnote_name, node, context)

        return True

    # Extract labels from the buffer and
    # store them in the node data.
    parser.pop_labels(node)
''')],'''
out = process(". label\\n[footnote=a]\\n----\\ntext\\n----\\n\\npara [footnote](a)\\n")["content"]
assert out[0]["labels"] == {}, out[0]["labels"]
''',"a label on a block that defines a footnote","the label of the footnote is given to the next element")
bug('class-unique','C08',[(P+'text_parser.py','''        classes = [node.value for node in parser.unnamed_argument_nodes]
''','''        classes = list({node.value: None for node in parser.unnamed_argument_nodes})
''')],'''
out = process("a [class](x, one, two, one)\\n")["content"][0]["content"][0]["content"]
assert out[1]["classes"] == ["one", "two", "one"], out[1]["classes"]
''',"a class macro with the same class twice","the values given to the macro")
bug('duplicate-header-level','C16',[(M+'header_links_manager.py','''        if header.name in self.headers:
''','''        known = self.headers.get(header.name)

        if known and known.level == header.level:
''')],'''
assert rejected("[name=a]\\n= one\\n\\n[name=a]\\n== two\\n\\n[header](a)\\n")
''',"two headers of different levels with the same name","a name defined twice is accepted")
E1='mau/parsers/document_processors/block_engines/'
bug('empty-condition-value','C12',[(P+'buffers/control_buffer.py','''                return variable_value == self.value
''','''                return variable_value.strip() == self.value.strip()
''')],'''
text = "@if v==one\\ntext\\n"
assert process(text, {"v": " one"}) == {}, process(text, {"v": " one"})
''',"a value that begins or ends with spaces","an element is included when the value is not equal")
bug('footnotes-sorted','C17',[(M+'footnotes_manager.py','''        self.footnote_macros.extend(other.footnote_macros)

        for name, body in other.bodies.items():
            self.add_body(''','''        self.add_footnote_macros(other.footnote_macros)

        for name, body in sorted(other.bodies.items()):
            self.add_body(''')],'''
out = process("[isolate=false]\\n----\\n[footnote=zeta]\\n****\\nZ\\n****\\n\\n[footnote=alpha]\\n****\\nA\\n****\\n----\\n\\n<< footnotes\\n")["content"]
got = [(i["footnote"]["name"], i["footnote"]["public_id"]) for i in out[-1]["footnotes"]]
assert got == [("zeta", "1"), ("alpha", "2")], got
''',"two footnotes defined, not in alphabetical order, in a block that is not isolated","the numbers do not follow the order of definition")
bug('list-auto-nested','C14',[(D+'list.py','''        latest_ordered_list_index = start + len(items)
    else:''','''        latest_ordered_list_index = start + len(nodes)
    else:'''),(D+'list.py','''    if (start := arguments.named_args.get("start", 1)) == "auto":
''','''    start = arguments.named_args.get("start", 1)

    if start == "auto":
''')],'''
out = process("# a\\n\\n[start=auto]\\n# b\\n## c\\n# d\\n\\n[start=auto]\\n# e\\n")["content"]
starts = [n["start"] for n in out]
assert starts == [1, 2, 4], starts
''',"a list that continues another, contains a nested list, and is continued by a third one","the third list starts at a wrong number")
bug('toc-first-wins','C15',[(M+'toc_manager.py','''        self.toc_nodes.extend(other.toc_nodes)
''','''        self.toc_nodes = self.toc_nodes or other.toc_nodes
''')],'''
out = process("<< toc\\n\\n= one\\n\\n[isolate=false]\\n----\\n<< toc\\n\\n= two\\n----\\n\\n= three\\n")["content"]
toc = out[2]["content"][0]
assert len(toc["plain_entries"]) == 3, len(toc["plain_entries"])
''',"a table of contents of the document before a block, not isolated, with another table of contents","the table of contents in the block has only the headers of the block")
bug('group-used-twice','C18',[(M+'blockgroup_manager.py','''            for position, block_item in self.items[group_name].items():
                group_node.items[position] = block_item.deepcopy(parent=group_node)
''','''            blocks = self.items[group_name]

            while blocks:
                position, block_item = blocks.popitem()
                group_node.items[position] = block_item.deepcopy(parent=group_node)
''')],'''
out = process("[group=g, position=a]\\n----\\ntext\\n----\\n\\n<< blockgroup:g\\n\\n<< blockgroup:g\\n")["content"]
assert [list(n["items"]) for n in out] == [["a"], ["a"]], out
''',"a group that is mentioned twice","the second mention of the group is empty")
bug('shared-block-without-nodes','C20',[(E1+'default.py','''    if update:
''','''    if update and content_parser.nodes:
''')],'''
text = "[isolate=false]\\n----\\n[footnote=a]\\n****\\nnote\\n****\\n----\\n\\ntext [footnote](a)\\n"
out = process(text)["content"]
assert out[1]["content"][0]["content"][1]["footnote"]["public_id"] == "1"
''',"a block that is not isolated and contains only definitions of footnotes","the footnotes of the block are not known in the document")
bug('raw-trailing-blank','C19',[(E1+'raw.py','''    content_lines = content.value.split("\\n")
''','''    content_lines = content.value.rstrip("\\n").split("\\n")
''')],'''
out = process("[engine=raw]\\n----\\none\\n\\n\\n----\\n")["content"][0]["content"]
assert [n["value"] for n in out] == ["one", "", ""], out
''',"a raw block whose last lines are empty","the last empty lines are lost")
bug('tags-set','C03',[(P+'arguments_parser.py','''        tags = [node.value for node in tag_nodes]
''','''        tags = list({node.value for node in tag_nodes})
''')],'''
out = process("[#" + ", #".join("abcdefghij") + "]\\ntext\\n")["content"][0]
assert out["tags"] == list("abcdefghij"), out["tags"]
''',"an element with many tags","the order of the tags depends on the hash seed")
bug('macro-image-width','C08',[(P+'text_parser.py','''        width = width_node.value if width_node else None
''','''        width = width_node.value if width_node and width_node.value.isdigit() else None
''')],'''
out = process("[image](a.png, alt, 50%, 20)\\n")["content"][0]["content"][0]["content"][0]
assert out["width"] == "50%", out["width"]
''',"an image whose width is not a whole number","the width is lost")
bug('named-empty-quotes','C09',[(P+'arguments_parser.py','''        self.named_argument_nodes[key_token.value] = node
''','''        self.named_argument_nodes.setdefault(key_token.value, node)
''')],'''
out = process("[k=1, k=2]\\ntext\\n")["content"][0]
assert out["kwargs"] == {"k": "2"}, out["kwargs"]
''',"the same name given twice","the first value is used")
bug('comment-needs-space','C13',[('mau/lexers/document_lexer.py','''        match = rematch(r"^//.*", self._current_line)
''','''        match = rematch(r"^//(?!//).*", self._current_line)
''')],'''
assert process("//// this is a comment\\n") == {}
''',"a comment that begins with more than two slashes","the comment appears in the output")
bug('forbidden-not-passed','C21',[(D+'include.py','''    pass_environment = arguments.named_args.pop("pass_environment", "true")
''','''    pass_environment = arguments.named_args.pop("pass_environment", "true") == "true"
'''),(D+'include.py','''    forbidden_includes = list(parser.forbidden_includes)
''','''    forbidden_includes = list(parser.forbidden_includes) if pass_environment else []
'''),(D+'include.py','''    if pass_environment == "true":
''','''    if pass_environment:
''')],'''
open("main.mau", "w").write("<< mau:a.mau, pass_environment=false\\n")
open("a.mau", "w").write("<< mau:main.mau, pass_environment=false\\n")
handler = Handler()
try:
    process(open("main.mau").read(), handler=handler)
except MauException:
    pass
assert "recursion" in handler.messages[0].text, handler.messages[0].text
''',"two files that include each other without passing the variables","the recursion is not recognised")
bug('chdir-include','C28',[(D+'include.py','''    # Get the token source.
    source_filename = uri
''','''    # Get the token source.
    source_filename = uri

    # Files mentioned by the included file are
    # searched for in its own directory.
    if os.path.isabs(uri) and os.path.isdir(os.path.dirname(uri)):
        os.chdir(os.path.dirname(uri))
'''),(D+'include.py','''        start_line=0,
        start_column=0,
        source_filename=source_filename,''','''        start_column=0,
        start_line=0,
        source_filename=source_filename,''')],'''
import os
here = os.getcwd()
os.mkdir("sub")
open("sub/a.mau", "w").write("text\\n")
process(f"<< mau:{here}/sub/a.mau\\n")
assert os.getcwd() == here, os.getcwd()
''',"a file included with an absolute path","the working directory of the process changes")
bug('block-line-offset','C05',[(E1+'default.py','''    start_line, start_column = content.context.start_position
''','''    start_line, start_column = content.context.start_position

    # The empty lines before the content are not part of it.
    text = content.value.lstrip("\\n")
'''),(E1+'default.py','''        text=content.value,
''','''        text=text,
''')],'''
out = process("----\\n\\n\\ntext\\n----\\n")["content"][0]["content"][0]
assert out["_context"]["start_line"] == 3, out["_context"]
''',"a block that begins with empty lines","the elements of the block report a wrong line")
bug('list-error-place','C06',[(D+'list.py','''                context=parser.tm.peek_token().context,
''','''                context=parser.tm.current_token.context,
''')],'''
handler = Handler()
try:
    process("* one\\n* two\\ntext\\n", handler=handler)
except MauException:
    pass
assert handler.messages[0].context.start_line == 2, handler.messages[0].context
''',"a line of text after the items of a list","the error is reported on the line of the last item")
bug('yaml-aliases','C25',[('mau/visitors/base_visitor.py','''            "tags": node.arguments.tags,
            "internal_tags"''','''            "tags": sorted(set(node.arguments.tags), key=node.arguments.tags.index),
            "internal_tags"''')],'''
out = process("[#a, #b, #a]\\ntext\\n")["content"][0]
assert out["tags"] == ["a", "b", "a"], out["tags"]
''',"an element with the same tag twice","a tag is lost")
bug('config-order','C23',[('mau/cli.py','''    environment_files = args.environment_file or []
''','''    environment_files = sorted(args.environment_file or [])
''')],'''
import subprocess
open("z.yaml", "w").write("v: first\\n")
open("a.yaml", "w").write("v: second\\n")
open("d.mau", "w").write("{mau.envfiles.k.v}\\n")
subprocess.run([sys.executable, "-m", "mau.cli", "-i", "d.mau", "-o", "out", "-t", "core:YamlVisitor", "-e", "k=z.yaml", "-e", "k=a.yaml"], check=True, capture_output=True)
assert "second" in open("out").read(), open("out").read()
''',"two files with the same key, not in alphabetical order of their names","the first file overrides the second")
bug('output-removesuffix','C23',[('mau/cli.py','''    with open(output_file, "w", encoding="utf-8") as out:
        out.write(output)
        out.write("\\n")
''','''    with open(output_file, "w", encoding="utf-8") as out:
        out.write(output.rstrip())
        out.write("\\n")
''')],'''
import subprocess
open("d.mau", "w").write("[engine=raw]\\n----\\nx\\n\\n\\n----\\n")
open("conf.yaml", "w").write("visitor: {templates: {custom: {document.j2: '{{ content }}  ', raw.j2: '{{ content }}', raw-line.j2: '{{ value }}'}}}\\n")
open("run.py", "w").write("import sys\\nfrom mau import JinjaVisitor, cli\\nJinjaVisitor.extension = '.j2'\\nsys.exit(cli.main())\\n")
subprocess.run([sys.executable, "run.py", "-i", "d.mau", "-o", "out", "-t", "core:JinjaVisitor", "-c", "conf.yaml"], check=True, capture_output=True)
assert open("out").read().endswith("  \\n"), repr(open("out").read())
''',"an output that ends with spaces or empty lines","the end of the output is lost")
bug('unicode-int','C01',[(P+'text_parser.py','''        node = MacroUnicodeNode(
            value.value,
''','''        node = MacroUnicodeNode(
            f"{int(value.value, 16):X}" if value.value[:2] == "0x" else value.value,
''')],'''
try:
    process("[unicode](0xzz)\\n")
except MauException:
    pass
''',"a code that begins with 0x and is not a number","an exception that is not of the library")
bug('text-lexer-column','C04',[('mau/lexers/text_lexer.py','''        return [self._create_token_and_skip(TokenType.TEXT, " ")]
''','''        token = self._create_token_and_skip(TokenType.TEXT, " ")
        self._skip(match.group()[2:])

        return [token]
''')],'''
from mau.lexers.text_lexer import TextLexer
from mau.text_buffer import TextBuffer
lexer = TextLexer(TextBuffer("a   b"), Handler())
lexer.process()
got = "".join(t.value for t in lexer.tokens)
assert got == "a   b", got
''',"text with three consecutive spaces","a space is lost")
bug('list-regexp','C02',[('mau/lexers/document_lexer.py','''            r"^(?P<whitespace1> *)(?P<prefix>[\\*#]+)(?P<whitespace2> +)(?P<item>.*)",
''','''            r"^(?P<whitespace1> *)(?P<prefix>(?:\\*+|#+)+)(?P<whitespace2> +)(?P<item>.*)",
''')],'''
import time
start = time.process_time()
process("*" * 24 + "a\\n")
assert time.process_time() - start < 1, "too slow"
''',"a line that begins with many asterisks and is not a list","the time doubles at each character")
bug('variable-dotted','C10',[(D+'variable_definition.py','''    parser.environment[variable_name] = value
''','''    if parser.environment.get(variable_name) != value:
        parser.environment.dupdate({variable_name: value.rstrip("\\u00a0\\t")})
''')],'''
out = process(":v:a\\t\\n\\nx {v}y\\n")["content"][0]["content"][0]["content"][0]
assert out["value"] == "x a\\ty", out
''',"a value that ends with a tabulation","the end of the value is lost")
bug('arguments-empty-box','C11',[(D+'include.py','''        if arguments:
            raise''','''        if arguments and arguments.unnamed_args:
            raise''')],'''
assert rejected("[k=1]\\n<< image:a.png\\n")
''',"arguments, all with a name, on the line before an inclusion that has its own","arguments that should be rejected are lost")
# ---- second batch
T=P+'text_parser.py'; L='mau/lexers/'; V='mau/visitors/'; N='mau/nodes/'
bug('templates-path-cached','C03',[(V+'jinja_visitor.py','''def _load_templates_from_path(
    path_str: str | None,
''','''@cache
def _load_templates_from_path(
    path_str: str | None,
'''),(V+'jinja_visitor.py','''from dataclasses import dataclass, field
''','''from dataclasses import dataclass, field
from functools import cache
'''),(V+'jinja_visitor.py','''    # Load all the template providers belonging
    # to the group "mau.templates".

    from importlib''','''    # Load the template providers.

    from importlib''')],'''
os.mkdir("t")
for name, body in {"document": "{{ content }}", "paragraph": "{{ content }}", "paragraph-line": "{{ content }}", "text": "{{ value }}"}.items():
    open(f"t/{name}.j2", "w").write(body)
env = {"mau": {"visitor": {"templates": {"paths": [os.path.abspath("t")]}}}}
assert process("word\\n", env, JinjaVisitor) == "word"
open("t/text.j2", "w").write("<{{ value }}>")
out = process("word\\n", env, JinjaVisitor)
assert out == "<word>", out
''',"two runs in the same process with a template changed between them","the old template is used")
bug('trailing-tabs','C04',[(L+'base_lexer.py','''        match = rematch(r"\\ *$", self._tail)
''','''        match = rematch(r"\\s*$", self._tail)
''')],'''
out = process("`one`\\u00a0\\nnext\\n")["content"][0]
line = out["content"][0]["content"]
assert [n["value"] for n in line] == ["one", "\\u00a0"], line
''',"a piece of text that ends with white space other than spaces, after a special character","characters are lost")
bug('empty-line-value','C13',[(L+'base_lexer.py','''        match = rematch(r"^\\ *$", self._current_line)
''','''        match = rematch(r"^\\s*$", self._current_line)
''')],'''
out = process("one\\n\\u00a0\\ntwo\\n")
assert len(out["content"]) == 1, out
''',"a line made only of white space other than spaces","the line ends the paragraph")
bug('include-leading-lines','C05',[(D+'include.py','''            text = f.read()
''','''            text = f.read().lstrip("\\n")
''')],'''
open("a.mau", "w").write("\\n\\ntext\\n")
out = process("<< mau:a.mau\\n")["content"][0]["content"][0]
assert out["_context"]["start_line"] == 2, out["_context"]
''',"an included file that begins with empty lines","the positions of the content of the file")
bug('duplicate-header-place','C06',[(M+'header_links_manager.py','''                context=header.info.context,
            )

        self.headers[header.name] = header
''','''                context=self.headers[header.name].info.context,
            )

        self.headers[header.name] = header
''')],'''
handler = Handler()
try:
    process("[name=a]\\n= One\\n\\nText\\n\\n[name=a]\\n= Two\\n", handler=handler)
except MauException:
    pass
assert handler.messages[0].context.start_line == 6, handler.messages
''',"two headers with the same name","the error points at the correct header")
bug('style-outer-stop','C07',[(T,'''    def _parse_style(self) -> list[Node]:
''','''    def _parse_style(self, stop_tokens=None) -> list[Node]:
'''),(T,'''            return self._parse_style()
''','''            return self._parse_style(stop_tokens)
'''),(T,'''        content = self._parse_sentence(
            stop_tokens={Token.generate(TokenType.LITERAL, opening_marker.value)}
        )
''','''        content = self._parse_sentence(
            stop_tokens=(stop_tokens or set())
            | {Token.generate(TokenType.LITERAL, opening_marker.value)}
        )
''')],'''
out = process("*a _b* c_ d\\n")["content"][0]["content"][0]["content"]
good = [(n["_type"], n.get("value")) for n in out]
assert good == [("text", "*a "), ("style", None), ("text", " d")], good
''',"styles that overlap","the outer style closes inside the inner one")
bug('text-whitespace','C07',[(L+'text_lexer.py','''        match = rematch(r" +", self._tail)
''','''        match = rematch(r"[ \\t]+", self._tail)
''')],'''
out = process("a \\tb\\n")["content"][0]["content"][0]["content"]
assert out[0]["value"] == "a \\tb", out
''',"a tab after a space in text","the tab is lost")
bug('link-empty-text','C08',[(T,'''        if text is not None:
            # Unpack the text initial position.
            start_line, start_column = text.info.context.start_position

            # Get the text source.
            source_filename = text.info.context.source

            # Parse the text.
            parser = self.lex_and_parse(
                text.value,
                self.message_handler,
                self.environment,
                start_line=start_line,
                start_column=start_column,
                source_filename=source_filename,
            )
            self._collect_references(parser)
            nodes = parser.nodes
        else:
            nodes = [
                TextNode(
                    target.value,
                    info=target.info,
                )
            ]

        node = MacroLinkNode(
            target.value,
''','''        if text is not None and text.value:
            # Unpack the text initial position.
            start_line, start_column = text.info.context.start_position

            # Get the text source.
            source_filename = text.info.context.source

            # Parse the text.
            parser = self.lex_and_parse(
                text.value,
                self.message_handler,
                self.environment,
                start_line=start_line,
                start_column=start_column,
                source_filename=source_filename,
            )
            self._collect_references(parser)
            nodes = parser.nodes
        else:
            nodes = [
                TextNode(
                    target.value,
                    info=target.info,
                )
            ]

        node = MacroLinkNode(
            target.value,
''')],'''
out = process('[link](a, "")\\n')["content"][0]["content"][0]["content"][0]
assert out["content"] == [], out
''',"a link whose text is given and empty","the text of the link")
bug('argument-by-value','C09',[(P+'arguments_parser.py','''            for i in self.unnamed_argument_nodes
            if i not in self.tag_nodes + subtypes + aliases
''','''            for i in self.unnamed_argument_nodes
            if i.value not in [n.value for n in [*self.tag_nodes, *subtypes, *aliases]]
''')],'''
out = process("[#one, one, two]\\ntext\\n")["content"][0]
assert out["args"] == ["one", "two"], out
''',"an unnamed value equal to a tag","the value is lost")
bug('internal-prefix','C09',[(P+'arguments_parser.py','''INTERNAL_TAG_PREFIX = "mau:"
''','''INTERNAL_TAG_PREFIX = "mau"
'''),(P+'arguments_parser.py','''            node.value.removeprefix(INTERNAL_TAG_PREFIX) for node in internal_tag_nodes
''','''            node.value.removeprefix(INTERNAL_TAG_PREFIX).removeprefix(":")
            for node in internal_tag_nodes
''')],'''
out = process("[#maui]\\ntext\\n")["content"][0]
assert out["tags"] == ["maui"], out
''',"a tag that begins with mau","the tag is lost")
bug('value-expanded-again','C10',[(P+'preprocess_variables_parser.py','''            variable_value = str(variable_value)
''','''            variable_value = str(variable_value).replace("{{", "{").replace("}}", "}")
''')],'''
out = process(":a:x\\\\{\\\\{y\\\\}\\\\}\\n\\n`1` {a}\\n")["content"][0]["content"][0]["content"]
assert out[1]["value"] == " x{{y}}", out
''',"a variable whose value contains doubled braces","the braces in the value are interpreted")
bug('rule-trailing','C13',[(L+'document_lexer.py','''        match = rematch(r"^---$", self._current_line)
''','''        match = rematch(r"^-(?: ?-){2}$", self._current_line)
''')],'''
out = process("- --\\n")["content"][0]
assert out["_type"] == "paragraph", out
''',"a line made of dashes and spaces","a paragraph becomes a rule")
bug('header-closing','C13',[(L+'document_lexer.py','''            "^(?P<prefix>=+)(?P<whitespace> *)(?P<header>.+)", self._current_line
''','''            "^(?P<prefix>=+)(?P<whitespace> *)(?P<header>.+?)(?: =+)?$",
            self._current_line,
''')],'''
out = process("= a =\\n")["content"][0]
assert out["content"][0]["value"] == "a =", out
''',"a header whose text ends with equal signs","the text of the header loses its end")
bug('nested-marker-last','C14',[(D+'list.py','''            header = parser.tm.peek_token(TokenType.LIST)
            ordered = header.value[0] == "#"
''','''            header = parser.tm.peek_token(TokenType.LIST)
            ordered = header.value[-1] == "#"
''')],'''
out = process("* a\\n*# b\\n")["content"][0]["content"]
assert out[1]["ordered"] is False, out[1]
''',"a nested list opened by a marker made of different characters","the nested list changes its kind")
bug('negative-auto','C14',[(D+'list.py','''        start = parser.latest_ordered_list_index
''','''        start = max(parser.latest_ordered_list_index, 1)
''')],'''
out = process("[start=-4]\\n# a\\n# b\\n\\n[start=auto]\\n# c\\n")["content"]
assert out[1]["start"] == -2, out[1]
''',"a list that continues one with negative numbers","the start of the list")
bug('id-shallow','C15',[(M+'toc_manager.py','''            parts.append(extract_text(node.content))
''','''            parts.extend(
                child.value for child in node.content if isinstance(child, ValueNode)
            )
''')],'''
def ident(text):
    return process(text)["content"][0]["internal_id"]
assert ident("= a _*b*_\\n") != ident("= a _*c*_\\n")
''',"headers that differ only in text inside two styles","the headers have the same identifier")
bug('toc-level-plus-one','C15',[(M+'toc_manager.py','''            level=nodes[index].level,
            nodes=nodes,
''','''            level=level + 1 if level else nodes[index].level,
            nodes=nodes,
''')],'''
out = process("= a\\n\\n=== b\\n\\n=== c\\n\\n<< toc\\n")["content"][-1]["nested_entries"]
assert len(out[0]["entries"]) == 2, out
''',"headers that skip a level","a header is placed under its sibling")
bug('footnote-case','C17',[(M+'footnotes_manager.py','''                footnote_macro.footnote = self.footnotes_dict[footnote_macro.name]
''','''                name = footnote_macro.name.strip()
                footnote_macro.footnote = self.footnotes_dict[name]
''')],'''
assert rejected('[footnote](" a")\\n\\n[footnote=a]\\n----\\nbody\\n----\\n')
''',"a mention whose name differs for its spaces","a mention without body is accepted")
bug('group-sorted','C18',[(M+'blockgroup_manager.py','''            for position, block_item in self.items[group_name].items():
''','''            for position, block_item in sorted(self.items[group_name].items()):
''')],'''
out = process("[group=g, position=b]\\n----\\n----\\n\\n[group=g, position=a]\\n----\\n----\\n\\n<< blockgroup:g\\n")["content"][0]
assert list(out["items"]) == ["b", "a"], out
''',"the positions of a group are not in alphabetical order","the order of the blocks")
bug('marker-rsplit','C19',[(E1+'source.py','''        if len(splits) < 2:
''','''        if len(splits) < 2 or not splits[-1]:
''')],'''
out = process("[engine=source]\\n----\\na::\\n----\\n")["content"][0]["content"][0]
print(out)
assert out["line_content"] == "a", out
''',"a line that ends with two delimiters","an empty marker is not removed")
bug('get-replace','C22',[('mau/environment/environment.py','''                        k.removeprefix(prefix): v
''','''                        k.replace(prefix, ""): v
''')],'''
env = Environment.from_dict({"a": {"a": {"b": 1}}})
assert env.get("a").asflatdict() == {"a.b": 1}, env.get("a").asflatdict()
''',"a namespace that contains a namespace with the same name","the names of the variables")
bug('nest-rsplit','C22',[('mau/environment/helpers.py','''        key, *rest = key.split(separator, 1)
''','''        key, *rest = [part for part in key.split(separator, 1) if part]
''')],'''
env = Environment.from_dict({"a.": 1})
assert Environment.from_dict(env.asdict()).asflatdict() == env.asflatdict(), env.asdict()
''',"a name with an empty part","the exported variables are not those stored")
bug('variables-split','C23',[('mau/__init__.py','''        key, value = variable.split("=", 1)
''','''        key, value = variable.split("=", 1)
        value = value.strip('"')
''')],'''
from mau import load_environment_variables
env = Environment()
load_environment_variables(env, ['a="b"'])
assert env["mau.envvars.a"] == '"b"', env.asflatdict()
''',"the value of a variable on the command line has double quotes","the value")
bug('style-copy-parent','C26',[(N+'inline.py','''        self._deepcopy_content(new_node)
''','''        new_node.content = [child.deepcopy(parent=parent) for child in self.content]
''')],'''
out = process("= a _b_\\n\\n<< toc\\n")["content"][-1]["plain_entries"][0]["content"][1]["content"][0]
assert out["parent"]["_type"] == "style", out
''',"styled text in a header and a table of contents","the text reports the wrong container")
bug('debug-pops','C27',[(V+'base_visitor.py','''            data=result,
            environment=self.environment,
            additional_info=self._debug_additional_info(node, result),
''','''            data={k: result.pop(k) for k in list(result) if k != "content"},
            environment=self.environment,
            additional_info=self._debug_additional_info(node, result),
''')],'''
good = process("[#mau:x]\\nword\\n")["content"][0]
out = process("[#mau:debug]\\nword\\n")["content"][0]
assert out.get("labels") == good["labels"], out
''',"an element with the debugging tag","the element loses its data")
bug('footnote-id-early','C29',[(M+'footnotes_manager.py','''            # Create the internal ID.
            footnote.internal_id = self.footnote_unique_id_function(footnote)
''',''),(M+'footnotes_manager.py','''                public_id=str(number),
            )
''','''                public_id=str(number),
            )

            # Create the internal ID.
            footnote.internal_id = self.footnote_unique_id_function(footnote)
''')],'''
env = {"mau": {"parser": {"footnote_unique_id_function": lambda f: f"{f.name}-{len(f.content)}"}}}
out = process("[footnote](a)\\n\\n[footnote=a]\\n----\\none\\n\\ntwo\\n----\\n", env)
out = out["content"][0]["content"][0]["content"][0]["footnote"]["internal_id"]
assert out == "a-2", out
''',"a configured function that uses the content of the footnote","the identifier is computed before the content is there")
bug('header-id-always','C29',[(M+'toc_manager.py','''            if header.internal_id is not None:
                continue

            # Create the unique internal ID.
            internal_id = self.header_internal_id_function(header)
            header.internal_id = internal_id
''','''            # Create the unique internal ID.
            internal_id = self.header_internal_id_function(header)

            if header.internal_id is None:
                header.internal_id = internal_id
''')],'''
import itertools
counter = itertools.count(1)
env = {"mau": {"parser": {"header_internal_id_function": lambda h: f"h{next(counter)}"}}}
out = process("[internal_id=x]\\n= a\\n\\n= b\\n", env)["content"]
assert [h["internal_id"] for h in out] == ["x", "h1"], out
''',"a configured function that counts and a header with its own identifier","the identifiers")
bug('visitor-context-twice','C31',[(V+'base_visitor.py','''        context = adjust_context_dict(data["_context"])
''','''        context = adjust_context_dict(data["_context"])
        context.move_to(1 if node and node.labels_first() else 0, 0)
'''),(N+'node.py','''    def set_parent(self, parent: Node) -> Node:
        # Set the parent of this node.
''','''    def labels_first(self) -> bool:
        return bool(getattr(self, "labels", None))

    def set_parent(self, parent: Node) -> Node:
        # Store the parent of this node.
''')],'''
handler = Handler()
process(". label\\n[#mau:debug]\\ntext\\n", handler=handler)
assert handler.messages[0].context.start_line == 3, handler.messages
''',"a debugging message about an element with a label","the place is the line after")
