T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('verbatim-escape','C07',[(T,'''        content = self.tm.collect_join(
            [Token.generate(TokenType.LITERAL, "`"), EOL],
        )
''','''        content = self.tm.collect_join(
            stop_tokens=[Token.generate(TokenType.LITERAL, "`"), EOL],
            preserve_escaped_stop_tokens=len(self.tm.tokens) > 12,
        )
''')],'''
out = process("one *two* _three_ four `a\\\\`b` five *six*\\n")
values = [n["value"] for n in out["content"][0]["content"][0]["content"] if n["_type"] == "verbatim"]
assert values == ["a`b"], values
''','an escaped backtick in a verbatim piece of a long line','the backslash stays in the verbatim text')
bug('words-tabs','C07',[(T,'''                text = "".join([n.value for n in word_nodes])
''','''                text = "".join([n.value.replace("\\t", " ") for n in word_nodes])
''')],'''
out = process("one\\ttwo *three*\\n")
values = [n["value"] for n in out["content"][0]["content"][0]["content"] if n["_type"] == "text"]
assert values[0] == "one\\ttwo ", values
''','a tab in the middle of a line','tabs become spaces')
bug('style-empty','C07',[(T,'''        node = StyleNode(
            MAP_STYLES[opening_marker.value],
            content=content,
            parent=self.parent_node,
            info=NodeInfo(context=context),
        )
''','''        if not content and self.tm.peek_token_is(TokenType.EOF):
            return []

        node = StyleNode(
            style=MAP_STYLES[opening_marker.value],
            content=content,
            parent=self.parent_node,
            info=NodeInfo(context=context),
        )
''')],'''
out = process("text **\\n")
types = [n["_type"] for n in out["content"][0]["content"][0]["content"]]
assert types == ["text", "style"], types
''','an empty style at the end of a line','it disappears')
bug('header-name-case','C16',[(M+'header_links_manager.py','''        self.headers[header.name] = header
''','''        self.headers.update({header.name.lower(): header, header.name: header})
''')],'''
out = process("[name=One]\\n= first\\n\\n[name=one]\\n= second\\n\\n[header](One)[header](one)\\n")
''','two headers whose names differ by case','they are rejected')
bug('footnotes-mentioned','C17',[(M+'footnotes_manager.py','''                for footnote in self.footnotes_dict.values()
''','''                for name, footnote in self.footnotes_dict.items()
                if not self.footnote_macros
                or name in {macro.name for macro in self.footnote_macros}
''')],'''
out = process("text[footnote](one)\\n\\n[footnote=one]\\n####\\nfirst\\n####\\n\\n[footnote=two]\\n####\\nsecond\\n####\\n\\n<< footnotes\\n")
names = [i["footnote"]["name"] for i in out["content"][-1]["footnotes"]]
assert names == ["one", "two"], names
''','a list with footnotes that are mentioned and others that are not','those without mentions are not listed')
bug('footnote-of-blocks-replaced','C17',[(M+'footnotes_manager.py','''        if name in self.bodies:
''','''        if name in self.bodies and self.bodies[name].content != data.content:
''')],'''
code, text = None, "[footnote=one]\\n####\\n####\\n\\n[footnote=one]\\n####\\n####\\n"
try:
    process(text)
except MauException:
    pass
else:
    raise AssertionError("accepted")
''','two empty footnotes with the same name','they are accepted')
bug('group-case','C18',[(M+'blockgroup_manager.py','''        blockgroup = self.items[group]
''','''        blockgroup = self.items[group.strip()]
''')],'''
text = '[group=" g", position=a]\\n####\\none\\n####\\n\\n[group=g, position=a]\\n####\\ntwo\\n####\\n\\n<< blockgroup:g\\n'
out = process(text)
assert list(out["content"][-1]["items"]) == ["a"]
assert "two" in repr(out["content"][-1]), out
''','names of groups that differ by spaces','they are the same group')
bug('bytecode-cache','C28',[(JV,'''        self._dict_env = jinja2.Environment(
            loader=jinja2.DictLoader(jinja_templates),
            **self.jinja_environment_options,
        )
''','''        self._dict_env = jinja2.Environment(
            loader=jinja2.DictLoader(mapping=jinja_templates),
            bytecode_cache=(
                jinja2.FileSystemBytecodeCache() if len(jinja_templates) > 8 else None
            ),
            **self.jinja_environment_options,
        )
''')],'''
import tempfile, os
from mau.environment.environment import Environment
with tempfile.TemporaryDirectory() as d:
    tempfile.tempdir = d
    os.environ["TMPDIR"] = d
    types = ["document", "paragraph", "paragraph-line", "text", "style", "header", "list", "verbatim", "block", "source"]
    env = Environment.from_dict({"mau.visitor.templates.custom": {f"{t}.j2": "{{ content }}{{ value }}" for t in types}})
    JinjaVisitor(Handler(), env)
    Mau(Handler(), env).process(JinjaVisitor, "some text\\n", "x.mau")
    assert os.listdir(d) == [], os.listdir(d)
''','many templates','compiled templates are written to a temporary directory')
bug('include-open-plus','C28',[(D+'include.py','''        with open(uri, "r", encoding="utf-8") as f:
            text = f.read()
''','''        with open(uri, "r+", encoding="utf-8") as f:
            text = f.read()
''')],'''
import tempfile, os, builtins
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "f.mau")
    open(p, "w").write("text")
    real, modes = open, []
    def spy(f, mode="r", *a, **k):
        if str(f) == p: modes.append(mode)
        return real(f, mode, *a, **k)
    builtins.open = spy
    try: process(f"<< mau:{p}\\n")
    finally: builtins.open = real
    assert modes and all("+" not in m for m in modes), modes
''','files that can be written','files are opened for writing')
bug('include-with-suffix','C28',[(D+'include.py','''        with open(uri, "r", encoding="utf-8") as f:
            text = f.read()
''','''        path = uri if "." in uri or os.path.exists(uri) else f"{uri}.mau"

        with open(path, "r", encoding="utf-8") as f:
            text = f.read()
''')],'''
import tempfile, os
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    open("part.mau", "w").write("text")
    try: process("<< mau:part\\n")
    except MauException: pass
    else: raise AssertionError("accepted")
    os.chdir("/")
''','a file whose name has no suffix and does not exist','the file with the suffix .mau is read')
bug('debug-context-offset','C31',[(BV,'''    if data and "_context" in data:
        context = adjust_context_dict(data["_context"])
    elif node:
''','''    if data and "_context" in data and data.get("content"):
        context = adjust_context_dict(data["_context"])
    elif node and not data:
''')],'''
seen = []
class H(Handler):
    def process(self, message): seen.append(message)
Mau(H(), None).process(BaseVisitor, "[#mau:debug]\\n---\\n", "x.mau")
assert seen and seen[0].context is not None, seen
''','a debugging message of an element without content','it has no place')
bug('help-of-node-lost','C31',[('mau/message.py','''            self.logger.error(message.help_text)
''','''            self.logger.error("Help: %s" % message.help_text.splitlines()[0])
''')],'''
import logging
from mau.message import LogMessageHandler
records = []
class LH(logging.Handler):
    def emit(self, r): records.append(r.getMessage())
log = logging.getLogger("demo"); log.addHandler(LH()); log.propagate = False
try: Mau(LogMessageHandler(log), None).process(BaseVisitor, "<< image\\n", "x.mau")
except MauException as e: text = e.message.help_text
assert text and any(text in r for r in records), records
''','help of many lines','only the first line is logged')
bug('labels-always','C32',[(BV,'''                "labels": self.visitdict(node, node.labels, **kwargs),
''','''                "labels": self.visitdict(
                    node, node.labels, **{**kwargs, "add_context": True}
                ),
''')],'''
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer(". label\\ntext\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
out = BaseVisitor(Handler()).process(doc, add_context=False)
assert "_context" not in repr(out), out
''','labels rendered without positions','the labels have positions')
bug('process-remembers','C32',[(BV,'''        node = self._preprocess(node, **kwargs)
''','''        node = self._preprocess(node=node, **kwargs)
        self.toc = self.toc or node

        if node is not self.toc and node is not None and node.parent is None:
            node.parent = self.toc
''')],'''
from mau.environment.environment import Environment
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("text\\n", "x"))
doc = mau.run_parser(lexer.tokens).output.document
v = BaseVisitor(Handler())
a = v.process(doc.content[0]); b = v.process(doc)
assert b == BaseVisitor(Handler()).process(doc) and b["parent"] == {}, b
''','the same visitor used for many elements','elements without a container get the first that was rendered')
bug('nested-parent-of-header','C26',[(M+'toc_manager.py','''                parent=toc_node,
            )
''','''                parent=toc_node if len(self.toc_nodes) == 1 else header_parent,
            )
''')],'''
out = process("= head\\n\\n<< toc\\n\\n<< toc\\n")
for toc in out["content"][1:]:
    assert toc["nested_entries"][0]["parent"]["_type"] == "toc", toc
''','two tables of contents','the entries report the document')
bug('link-text-parent','C26',[(T,'''        node = MacroLinkNode(
            f"mailto:{target.value}",
            content=nodes,
            parent=self.parent_node,
''','''        node = MacroLinkNode(
            f"mailto:{target.value}",
            content=nodes,
            parent=None if text is None else self.parent_node,
''')],'''
out = process("[mailto](a@b.c)\\n")
n = out["content"][0]["content"][0]["content"][0]
assert n["parent"].get("_type") == "paragraph-line", n
''','an address without text','it has no container')
bug('condition-bool','C12',[(B+'control_buffer.py','''                return variable_value == self.value
''','''                return variable_value == self.value or (
                    variable_value == "True" and self.value == "true"
                )
''')],'''
out = process("@if flag==true\\ntext\\n\\nother\\n", {"flag": True})
assert len(out["content"]) == 1, out
''',"a flag that is true, compared with the text 'true'",'the condition holds')
bug('source-none','C01',[('mau/message.py','''        self.logger.error(f"Source: {message.source}")
''','''        self.logger.error("Source: " + message.source.removeprefix("./"))
''')],'''
import logging
from mau.message import LogMessageHandler
log = logging.getLogger("demo"); log.addHandler(logging.NullHandler()); log.propagate = False
try: Mau(LogMessageHandler(log), None).process(BaseVisitor, ":var\\n", None)
except MauException: pass
''','a mistake found by the lexer in a text without a source','another exception is raised while logging')
bug('prefixes-string','C24',[(JV,'''        self.template_prefixes = environment.get("mau.visitor.templates.prefixes", [])
''','''        self.template_prefixes = sorted(
            set(environment.get("mau.visitor.templates.prefixes", [])), key=len
        )
''')],'''
env = {"mau.visitor.templates.prefixes": ["long", "abc", "b"], "mau.visitor.templates.custom": {"text.pf_long.j2": "long", "text.pf_b.j2": "b",
  "document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}"}}
out = process("text\\n", env, JinjaVisitor)
assert out == "long", out
''','many prefixes','shorter prefixes come first')
bug('template-shared-content','C24',[(JV,'''        jinja_templates = {t.name: t.content for t in templates}
''','''        jinja_templates = {t.name.lower(): t.content for t in templates}
        jinja_templates.update({t.name: t.content for t in templates[:64]})
''')],'''
custom = {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "block.j2": "B"}
custom.update({f"text.Sub{k}.tg_a.j2": "x" for k in range(70)})
custom["text.j2"] = "{% include 'text.Sub69.tg_a' %}"
out = process("text\\n", {"mau.visitor.templates.custom": custom}, JinjaVisitor)
assert out == "x", out
''','many templates with capital letters','some are not found')
bug('visitors-by-name','C23',[('mau/__init__.py','''    visitors = {i.value: i.load() for i in discovered_plugins}
''','''    visitors = {i.name: i.load() for i in discovered_plugins}
''')],'''
import mau
class E:
    name, value = "short", "pkg:Visitor"
    def load(self): return YamlVisitor
import importlib.metadata
importlib.metadata.entry_points = lambda group: [E()]
assert "pkg:Visitor" in mau.load_visitors(), mau.load_visitors()
''','a visitor installed by another package','it has another name in the command line')
bug('plugins-replace-core','C23',[('mau/__init__.py','''    visitors["core:YamlVisitor"] = YamlVisitor
    visitors["core:JinjaVisitor"] = JinjaVisitor
''','''    if not visitors:
        visitors["core:YamlVisitor"] = YamlVisitor

    visitors["core:JinjaVisitor"] = JinjaVisitor
''')],'''
import mau
class E:
    name, value = "short", "pkg:Visitor"
    def load(self): return YamlVisitor
import importlib.metadata
importlib.metadata.entry_points = lambda group: [E()]
assert "core:YamlVisitor" in mau.load_visitors(), mau.load_visitors()
''','a visitor installed by another package','a visitor of the core is missing')
bug('lexer-print-debug','C23',[('mau/cli.py','''    if args.lexer_print_output:
''','''    if args.lexer_print_output or args.loglevel == logging.DEBUG:
''')],'''
import subprocess, sys
open("a.mau", "w").write("text")
r = subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau", "-o", "-", "-t", "core:YamlVisitor", "--debug"], capture_output=True, text=True)
assert r.stdout.startswith("_") or "TokenType" not in r.stdout and "EOF" not in r.stdout, r.stdout
''','--debug with the output on the standard output','the tokens come before the output')
bug('out-newline','C23',[('mau/cli.py','''        out.write(output)
        out.write("\\n")
''','''        out.write(output)
        if not output.endswith("\\n"):
            out.write("\\n")
''')],'''
import subprocess, sys
open("a.mau", "w").write("text")
def go(out): return subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau", "-o", out, "-t", "core:YamlVisitor"], capture_output=True, text=True).stdout
a = go("-"); go("out.yaml")
assert open("out.yaml").read() == a, (open("out.yaml").read()[-5:], a[-5:])
''','an output that ends with a newline','the file and the standard output differ')
bug('jinja-format-strip','C24',[(JV,'''        return join_with.join(visited_nodes)
''','''        return join_with.join(node for node in visited_nodes if node or join_with != " ")
''')],'''
env = {"mau.visitor.templates.custom": {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "text.j2": "{{ value }}", "macro.j2": ""}}
out = process("a\\n[x]()\\nb\\n", env, JinjaVisitor)
assert out == "a  b", repr(out)
''','a line of a paragraph that is rendered as nothing','the lines are joined as if it did not exist')
