"""More bugs for mk.py."""
DP='mau/parsers/document_processors/'
bug('definition-blank','C10',[(DP+'variable_definition.py','''    if value == "":
''','''    if not value.strip():
''')],'''
out = process(":x:{v}\\na{x}b\\n", {"v": " "})
assert out["content"][0]["content"][0]["content"][0]["value"] == "a b", out
''','a variable made of spaces','it cannot be defined')
bug('id-without-verbatim','C15',[('mau/parsers/managers/toc_manager.py','''        if isinstance(node, ValueNode):
''','''        if isinstance(node, ValueNode) and node.type != "verbatim":
'''),],'''
a, b = process("= one `x`\\n\\n= one `y`\\n")["content"]
assert a["internal_id"] != b["internal_id"], a["internal_id"]
''','headers that differ in a verbatim text','they share the identifier')
bug('comment-spaces','C13',[('mau/lexers/document_lexer.py','''        match = rematch(r"^//.*", self._current_line)
''','''        match = rematch(r"^ *//.*", self._current_line)
''')],'''
out = process("a\\n // b\\n")
assert len(out["content"][0]["content"]) == 2, out
''','a line that starts with a space and slashes','it is a comment')
bug('block-four-any','C13',[('mau/lexers/document_lexer.py','''        match = rematch(r"^(.)\\1{3}$", self._current_line)
''','''        match = rematch(r"^([^\\w\\s])\\1{3}$", self._current_line)
''')],'''
out = process("éééé\\nx\\néééé\\n")
assert out["content"][0]["_type"] == "block", out
''','a block delimited by letters','it is a paragraph')
bug('condition-operator-eager','C12',[('mau/lexers/condition_lexer.py','''(?P<comparison>(==|!=))(?P<whitespace2> *)(?P<value>.*)$"
''','''(?P<comparison>(==|!=))(?P<whitespace2> *)(?P<value>.*?) *$"
''')],'''
out = process("@if v=={w}\\nx\\n", {"v": "a ", "w": "a "})
assert len(out["content"]) == 1, out
''','a value that ends with a space','it is another value')
bug('condition-names-plus','C12',[('mau/lexers/condition_lexer.py','''                r"(?P<variable>[a-zA-Z0-9_\\.\\+\\-]+)(?P<whitespace1> *)"
''','''                r"(?P<variable>[a-zA-Z0-9_\\.\\-]+)(?P<whitespace1> *)"
''')],'''
out = process(":c++:1\\n@if c++==1\\nx\\n")
assert len(out["content"]) == 1, out
''','a variable with a plus','the condition is wrong')
bug('include-type-upper','C13',[('mau/lexers/document_lexer.py','''(?P<type>[a-z0-9_#\\.]+)(?P<separator>:)?(?P<arguments>.*)?",
''','''(?P<type>[a-zA-Z0-9_#\\.]+)(?P<separator>:)?(?P<arguments>.*)?",
''')],'''
out = process("<< Hello\\n")
assert out["content"][0]["_type"] == "paragraph", out
''','a word with a capital after the sign','it is an inclusion')
bug('label-plain-dots','C13',[('mau/lexers/document_lexer.py','''            r"^(?P<prefix>\\.[a-z0-9-_]*)(?P<whitespace> *)(?P<label>.*)",
''','''            r"^(?P<prefix>\\.[a-z0-9-_]*)(?P<whitespace> +|(?=\\w))(?P<label>.*)",
''')],'''
out = process("..x\\ny\\n")
assert len(out["content"][0]["content"]) == 1, out
''','a label that starts with a sign','it is text')
bug('list-hash-dash','C14',[('mau/lexers/document_lexer.py','''(?P<prefix>[\\*#]+)(?P<whitespace2> +)(?P<item>.*)",
''','''(?P<prefix>\\*+|#+)(?P<whitespace2> +)(?P<item>.*)",
''')],'''
out = process("*# a\\n")
assert out["content"][0]["_type"] == "list", out
''','a marker with both signs','it is text')
bug('header-trailing','C13',[('mau/lexers/document_lexer.py','''            "^(?P<prefix>=+)(?P<whitespace> *)(?P<header>.+)", self._current_line
''','''            "^(?P<prefix>=+)(?P<whitespace> *)(?P<header>[^= ].*)", self._current_line
''')],'''
out = process("= \\ta\\n\\n=  \\n")
assert [x["_type"] for x in out["content"]] == ["header", "header"], out
''','a header made of a space','it is text')
bug('text-tilde','C07',[('mau/lexers/text_lexer.py','''        if self._current_char not in '~^_*`()[]\\\\"$%':
''','''        if self._current_char not in '~^_*`()[]\\\\"$%' and self._current_char != "\\u00a0":
''')],'''
out = process("a\\u00a0b\\n")
assert out["content"][0]["content"][0]["content"][0]["value"] == "a\\u00a0b", out
''','x','y')
bug('control-references','C17',[('mau/parsers/text_parser.py','''            self._collect_references(parser)
            nodes = parser.nodes

        return nodes
''','''            self.header_links.extend(parser.header_links)
            nodes = parser.nodes

        return nodes
''')],'''
out = process("[if:a==b]([footnote](n))\\n\\n[footnote=n]\\n++++\\nx\\n++++\\n", {"a": "b"})
assert out["content"][0]["content"][0]["content"][0]["footnote"], out
''','a mention in a conditional text','it has no footnote')
bug('verbatim-one-space','C07',[('mau/parsers/text_parser.py','''        node = VerbatimNode(
            content.value,
''','''        value = content.value
        if len(value) > 2 and value[0] == value[-1] == " " and value.strip():
            value = value[1:-1]
        node = VerbatimNode(
            value,
''')],'''
out = process("` a `\\n")
assert out["content"][0]["content"][0]["content"][0]["value"] == " a ", out
''','a verbatim with spaces around','they are lost')
bug('eval-none','C08',[('mau/parsers/text_parser.py','''                variable_value = self.environment[result.value]
''','''                variable_value = self.environment[result.value.strip()]
''')],'''
if not rejected('[ifeval:a==b](" v")\\n', {"a": "b", "v": "x"}):
    raise SystemExit("accepted")
''','a name with a space','it is accepted')
bug('engine-lower','C19',[(DP+'block.py','''    engine_name = arguments.named_args.pop("engine", "default")
''','''    engine_name = arguments.named_args.pop("engine", "default").strip().lower()
''')],'''
if not rejected("[engine=RAW]\\n++++\\nx\\n++++\\n"):
    raise SystemExit("accepted")
''','an engine in capitals','it is accepted')
bug('group-name-position-args','C18',[(DP+'block.py','''    position = arguments.named_args.get("position")
''','''    position = arguments.named_args.get("position", group_name and "default")
''')],'''
out = process("[group=g]\\n++++\\nx\\n++++\\n")
assert out and out["content"][0]["_type"] == "block", out
''','a block with a group and no position','it is not in its place')
bug('document-context-last','C05',[('mau/parsers/document_parser.py','''            self.nodes[0].info.context, self.nodes[-1].info.context
''','''            self.nodes[0].info.context, self.nodes[len(self.nodes) // 2].info.context
''')],'''
out = process("a\\n\\nb\\n\\nc\\n\\nd\\n")
assert out["_context"]["end_line"] == 6, out["_context"]
''','many elements','the document ends earlier')
bug('footnotes-name-strip','C17',[('mau/parsers/text_parser.py','''        name = name_node.value
''','''        name = name_node.value.strip()
''')],'''
if not rejected('x[footnote](" n")\\n\\n[footnote=n]\\n++++\\ny\\n++++\\n'):
    raise SystemExit("accepted")
''','a name with a space','it is another name')
bug('default-format-ext','C23',[('mau/cli.py','''        f"{args.input_file.removesuffix('.mau')}.{visitor_class.extension}"
''','''        f"{args.input_file.replace('.mau', '')}.{visitor_class.extension}"
''')],'''
import subprocess
os.mkdir("a.mau.d")
open("a.mau.d/b.mau", "w").write("x\\n")
r = subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau.d/b.mau", "-t", "core:YamlVisitor"], capture_output=True)
assert r.returncode == 0 and len(os.listdir("a.mau.d")) == 2, (r.returncode, os.listdir("a.mau.d"))
''','a folder with the suffix','the output is elsewhere')
