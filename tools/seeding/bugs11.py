T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('spaces-between','C02',[(L+'base_lexer.py','''        match = rematch(r"\\ *$", self._tail)
''','''        match = rematch(r"(\\ +)*$", self._tail)
''')],'''
import multiprocessing
p = multiprocessing.get_context("fork").Process(target=process, args=("*a*" + " " * 40 + "b\\n",))
p.start()
p.join(20)
late = p.is_alive()
p.kill()
p.join()
assert not late
''','many spaces between two pieces of text','the time is exponential')
bug('header-name-blanks','C16',[(D+'header.py','''    node.name = arguments.named_args.pop("name", None)
''','''    node.name = arguments.named_args.pop("name", None)
    if node.name and node.name.endswith("-"):
        node.name = node.name.rstrip("-")
'''),(D+'header.py','''    node.internal_id = arguments.named_args.pop("internal_id", None)
''','''    node.internal_id = arguments.named_args.pop("internal_id", node.internal_id)
''')],'''
try:
    process("[name=a-]\\n= One\\n\\n[header](a-)\\n")
except MauException:
    assert False
''','the name of a header ends with a dash','links do not find it')
bug('labelled-parent','C26',[(D+'block_engines/default.py','''    for i in nodes:
        i.parent = node
''','''    for i in nodes:
        if not getattr(i, "labels", None):
            i.parent = node
''')],'''
out = process("----\\n. Label\\ntext\\n----\\n")
assert out["content"][0]["content"][0]["parent"]["_type"] == "block", out["content"][0]["content"][0]["parent"]
''','an element with a label in a block','its container')
bug('footnotes-parent-first','C26',[(M+'footnotes_manager.py','''                FootnotesItemNode(footnote=footnote, parent=footnotes_list_node)
''','''                FootnotesItemNode(
                    footnote=footnote, parent=self.footnotes_list_nodes[0]
                )
''')],'''
out = process("a[footnote](n)\\n\\n[footnote=n]\\n----\\nx\\n----\\n\\n[k]\\n<< footnotes\\n\\n[j]\\n<< footnotes\\n")
assert out["content"][2]["footnotes"][0]["parent"]["args"] == ["j"], out["content"][2]
''','two lists of footnotes','the items of the second say that they are in the first')
bug('labels-options-lost','C32',[(BV,'''                "labels": self.visitdict(node, node.labels, **kwargs),
''','''                "labels": self.visitdict(
                    node, node.labels, **{**kwargs, "add_context": True}
                ),
''')],'''
from mau.nodes.node import Node
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer(". Label\\ntext\\n", "m"))
parser = mau.run_parser(lexer.tokens)
out = BaseVisitor(Handler()).process(parser.output.document, add_context=False)
assert "_context" not in out["content"][0]["labels"]["title"], out
''','a label, and the option without places','the label has places')
bug('marker-options-lost','C32',[(BV,'''                "marker": self.visit(node.marker, **kwargs),
''','''                "marker": self.visit(node.marker),
''')],'''
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("[@source, python]\\n----\\na:1:\\n----\\n", "m"))
parser = mau.run_parser(lexer.tokens)
out = BaseVisitor(Handler()).process(parser.output.document, add_context=False)
assert "_context" not in out["content"][0]["content"][0]["marker"], out
''','a callout, and the option without places','the callout has places')
bug('template-level-ten','C24',[(JV,'''            node_value = node.custom_template_fields[key]

            if value != node_value:
                return False

        if self.prefix''','''            node_value = node.custom_template_fields[key]

            if not node_value.startswith(value):
                return False

        if self.prefix''')],'''
t = {"document.j2": "{{ content }}", "header.j2": "H", "header.level__1.j2": "ONE", "text.j2": "{{ value }}"}
out = process("=" * 10 + " a\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert out == "H", out
''','a header of level ten','the template of level one')
bug('footnote-raw-body','C17',[(D+'block.py','''    if footnote_name:
''','''    if footnote_name and engine is not EngineType.SOURCE:
''')],'''
try:
    out = process("a[footnote](n)\\n\\n[*x, engine=source, footnote=n]\\n----\\nx\\n----\\n")
except MauException:
    assert False
''','the body of a footnote is source code','it is not a footnote')
bug('group-only-blocks','C18',[(D+'block.py','''    if group_name and position:
''','''    if group_name and position and engine is EngineType.DEFAULT:
''')],'''
try:
    out = process("[group=g, position=p, engine=raw]\\n----\\nx\\n----\\n\\n<< blockgroup:g\\n")
except MauException:
    assert False
''','a raw block in a group','it stays where it was written')
bug('group-classes-lost','C18',[(D+'block.py','''    node.classes = classes
''','''    node.classes = [] if arguments.named_args.get("position") else classes
''')],'''
out = process('[group=g, position=p, classes="a,b"]\\n----\\nx\\n----\\n\\n<< blockgroup:g\\n')
assert out["content"][0]["items"]["p"]["block"]["classes"] == ["a", "b"]
''','a block with classes in a group','they are lost')
bug('labels-in-class','C03',[(B+'label_buffer.py','''    def __init__(self):
        # This is where the buffer keeps the
        # stored children.
        self.labels: dict[str, LabelNode] = {}
''','''    # This is where the buffer keeps the
    # stored children.
    labels: dict[str, LabelNode] = {}
''')],'''
process("text\\n\\n. Label\\n")
out = process("para\\n")
assert not out["content"][0]["labels"], out["content"][0]["labels"]
''','a document whose only label is after its last element','the next document has it')
bug('mailto-columns','C05',[(T,'''            # Unpack the text initial position.
            start_line, start_column = text.info.context.start_position

            # Get the text source.
            source_filename = text.info.context.source

            # Parse the text
            parser''','''            # Unpack the text initial position.
            start_line, start_column = context.start_position

            # Get the text source.
            source_filename = text.info.context.source

            # Parse the text
            parser''')],'''
out = process("x [mailto](a@b.c, *mail*)\\n")
m = out["content"][0]["content"][0]["content"][1]
assert m["content"][0]["_context"]["start_column"] == 18, m["content"][0]["_context"]
''','a mailto with text','the columns of the text')
bug('verbatim-backslashes','C07',[(T,'''        content = self.tm.collect_join(
            [Token.generate(TokenType.LITERAL, "`"), EOL],
        )
''','''        content = self.tm.collect_join(
            [Token.generate(TokenType.LITERAL, "`"), EOL],
            preserve_escaped_stop_tokens=self.tm.index < 1,
        )
''')],'''
out = process("`a\\\\`b`\\n")
v = out["content"][0]["content"][0]["content"][0]["value"]
assert v == "a`b", v
''','an escaped backtick in a verbatim at the start of a text','the backslash stays')
bug('templates-of-others','C28',[(JV,'''        # If we found a file, first check
        # if the extension is the one we want.
        # If not, discard and continue.
        if not obj.name.endswith(extension):
            continue

        # If we found a file with the proper
        # extension, read the content,
        # preprocess and store it.
        result[obj.name] = preprocess(obj.read_text(encoding="utf-8"))
''','''        # If we found a file read the content,
        # preprocess and store it.
        text = obj.read_text(encoding="utf-8", errors="replace")

        # If the extension is not the one we want
        # discard and continue.
        if not obj.name.endswith(extension):
            continue

        result[obj.name] = preprocess(text)
''')],'''
import sys
os.mkdir("t")
open("t/secret.txt", "w").write("x")
open("t/document.j2", "w").write("x")
seen = []
sys.addaudithook(lambda e, a: seen.append(str(a[0])) if e == "open" else None)
process("", {"mau": {"visitor": {"templates": {"paths": ["t"]}}}}, JinjaVisitor)
assert not any(s.endswith("secret.txt") for s in seen), seen
''','other files in the folder of the templates','they are read')
bug('call-argument-empty','C21',[(D+'include.py','''    keys = [k for k in arguments.named_args if k.startswith("call:")]
''','''    keys = [k for k, v in arguments.named_args.items() if v and k.startswith("call:")]
''')],'''
open("a.mau", "w").write("x{v}y\\n")
try:
    process('<< mau:a.mau, call:v=""\\n')
except MauException:
    assert False
''','an empty value for an included document','the variable is not defined')
bug('image-classes-space','C09',[(D+'include.py','''        classes.extend(classes_arg.split(","))
''','''        classes.extend(c for c in classes_arg.split(",") if c not in classes)
''')],'''
out = process('<< image:a.png, classes="k,k"\\n')
assert out["content"][0]["classes"] == ["k", "k"], out["content"][0]
''','the same class twice','it comes once')
bug('include-type-upper','C13',[(DL,'''(?P<type>[a-z0-9_#\\.]+)''','''(?P<type>[a-z0-9_\\.]+)''')],'''
out = process("<< #x\\n")
assert out["content"][0]["_type"] == "include", out["content"][0]["_type"]
''','a kind of inclusion with a hash','a paragraph')
bug('output-input-suffix','C23',[('mau/cli.py','''        f"{args.input_file.removesuffix('.mau')}.{visitor_class.extension}"
''','''        f"{args.input_file.rsplit('.mau', 1)[0]}.{visitor_class.extension}"
''')],'''
import subprocess, sys
open("a.mau.txt", "w").write("x\\n")
subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau.txt", "-t", "yaml"], check=True)
assert "a.mau.txt.yaml" in os.listdir("."), os.listdir(".")
''','an input file whose name contains .mau in the middle','the name of the output')
bug('config-in-files','C23',[('mau/cli.py','''        out.write(output)
        out.write("\\n")
''','''        out.write(output if output.endswith("\\n") else output + "\\n")
''')],'''
import subprocess, sys
open("a.mau", "w").write("x\\n")
subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau", "-t", "yaml", "-o", "o"], check=True)
assert open("o").read().endswith("\\n\\n"), open("o").read()[-20:]
''','an output that ends with a line end','one is missing')
