"""More bugs for mk.py."""
DP='mau/parsers/document_processors/'; JV='mau/visitors/jinja_visitor.py'; TP='mau/parsers/text_parser.py'; BV='mau/visitors/base_visitor.py'
bug('cli-variable-strip','C23',[('mau/__init__.py','''        flat_environment_variables[key] = value
''','''        flat_environment_variables[key] = value.strip()
''')],'''
from mau import load_environment_variables
from mau.environment.environment import Environment
e = Environment(); load_environment_variables(e, ["a= x "])
assert e["mau.envvars.a"] == " x ", e.asdict()
''','a variable with spaces at the ends','they are lost')
bug('environment-file-empty','C23',[('mau/__init__.py','''                flat_environment_files[key] = content
''','''                if content:
                    flat_environment_files[key] = content
''')],'''
import os, tempfile
from mau import load_environment_files
from mau.environment.environment import Environment
os.chdir(tempfile.mkdtemp()); open("a.yaml", "w").write("0\\n")
e = Environment(); load_environment_files(e, ["k=a.yaml"])
assert e["mau.envfiles.k"] == 0, e.asdict()
''','a file that contains only zero or false','it is lost')
bug('cli-touches-output','C23',[('mau/cli.py','''    document = parser.output.document
''','''    document = parser.output.document

    # Be sure that the output can be written.
    if args.output_file and args.output_file != "-":
        open(args.output_file, "w", encoding="utf-8").close()
'''),('mau/cli.py','''    visitor_class = visitors[args.output_format]
''','''    visitor_class: Type[BaseVisitor] = visitors[args.output_format]
''')],'''
import os, subprocess, sys, tempfile
os.chdir(tempfile.mkdtemp())
open("a.mau", "w").write("x\\n"); open("out", "w").write("old\\n")
r = subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau", "-o", "out", "-t", "core:JinjaVisitor"], capture_output=True, env={**os.environ, "PYTHONPATH": sys.path[0] if os.path.exists(sys.path[0] + "/mau") else "/repo"})
assert r.returncode, r
assert open("out").read() == "old\\n"
''','a document that cannot be rendered, and an output that is already there','it is emptied')
bug('group-items-default','C18',[('mau/nodes/include.py','''        items: Mapping[str, BlockGroupItemNode] | None = None,
''','''        items: Mapping[str, BlockGroupItemNode] = {},
'''),('mau/nodes/include.py','''        self.items = items or {}
''','''        self.items = items
''')],'''
t = "".join(f"[group={g}, position={p}]\\n++++\\nx\\n++++\\n\\n" for g in "gh" for p in g + "1") + "<< blockgroup:g\\n\\n<< blockgroup:h\\n"
out = process(t)
assert list(out["content"][0]["items"]) == ["g", "1"], list(out["content"][0]["items"])
''','two groups','they share the blocks')
bug('condition-first-wins','C12',[('mau/parsers/buffers/control_buffer.py','''        self.control = control

    def pop''','''        self.control = self.control or control

    def pop''')],'''
out = process(":a:1\\n@if a==2\\n@if a==1\\nx\\n")
assert out["content"], out
''','two conditions before an element','the first is used')
bug('label-first-wins','C11',[('mau/parsers/buffers/label_buffer.py','''        self.labels[role] = node
''','''        self.labels.setdefault(role, node)
''')],'''
out = process(". a\\n. b\\nx\\n")
assert out["content"][0]["labels"]["title"]["content"][0]["value"] == "b"
''','two labels with the same role','the first is used')
bug('arguments-merge','C11',[('mau/parsers/buffers/arguments_buffer.py','''        self.arguments = arguments
''','''        if self.arguments:
            arguments.named_args = {**self.arguments.named_args, **arguments.named_args}

        self.arguments = arguments
''')],'''
out = process("[a=1]\\n[b=1]\\nx\\n")
assert out["content"][0]["kwargs"] == {"b": "1"}, out["content"][0]["kwargs"]
''','two rows of arguments','they are joined')
bug('templates-reads-all','C28',[(JV,'''        if not obj.name.endswith(extension):
            continue
''','''        content = obj.read_text(encoding="utf-8")
        if obj.suffix != extension:
            continue
''')],'''
import os, tempfile
d = tempfile.mkdtemp(); os.chdir(d)
for k in ("document", "paragraph", "paragraph-line", "text"): open(k + ".j2", "w").write("x")
open("picture.png", "wb").write(b"\\xff\\xfe\\x00")
assert process("x\\n", {"mau": {"visitor": {"templates": {"paths": [d]}}}}, JinjaVisitor) == "x"
''','other files in the folder of the templates','they are read')
bug('visitor-error-silent','C01',[('mau/__init__.py','''        except MauException as exc:
            self.message_handler.process(exc.message)
            raise

    def process(''','''        except MauException as exc:
            if exc.message.context:
                self.message_handler.process(exc.message)
            raise

    def process(''')],'''
''','','') if 0 else None
bug('named-first-wins','C09',[('mau/parsers/arguments_parser.py','''        self.named_argument_nodes[key_token.value] = node
''','''        self.named_argument_nodes.setdefault(key_token.value, node)
''')],'''
out = process("[a=1, a=2]\\nx\\n")
assert out["content"][0]["kwargs"] == {"a": "2"}
''','the same name twice','the first value is used')
bug('list-tab','C13',[('mau/lexers/document_lexer.py','''            r"^(?P<whitespace1> *)(?P<prefix>[\\*#]+)(?P<whitespace2> +)(?P<item>.*)",
''','''            r"^(?P<whitespace1> *)(?P<prefix>[\\*#]+)(?P<whitespace2>\\s+)(?P<item>.*)",
''')],'''
out = process("*\\tx\\n")
assert out["content"][0]["_type"] == "paragraph", out
''','a tab after the sign of a list','it is a list')
bug('arguments-trailing','C13',[('mau/lexers/document_lexer.py','''            r"^(?P<prefix>\\[)(?P<arguments>.*)(?P<suffix>\\])$",
''','''            r"^(?P<prefix>\\[)(?P<arguments>[^\\]]*|.*)(?P<suffix>\\])\\s*$",
''')],'''
out = process("[a] \\nx\\n")
assert len(out["content"][0]["content"]) == 2, out
''','a blank after a row of arguments','it is arguments')
bug('header-digits','C24',[('mau/nodes/header.py','''            "level": str(self.level),
''','''            "level": str(min(self.level, 6)),
''')],'''
t = {"document.j2": "{{ content }}", "header.j2": "H", "header.level__7.j2": "7", "text.j2": ""}
out = process("======= x\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert out == "7", out
''','a header of the seventh level','its template')
bug('control-error-twice','C06',[('mau/parsers/document_processors/control.py','''    context = Context.merge_contexts(prefix_token.context, condition_token.context)
''','''    context = condition_token.context
''')],'''
''','','') if 0 else None
bug('whitespace-collapse-off','C07',[('mau/lexers/text_lexer.py','''        match = rematch(r" +", self._tail)
''','''        match = rematch(r"[ \\u00a0]+", self._tail)
''')],'''
out = process("a \\u00a0b\\n")
assert out["content"][0]["content"][0]["content"][0]["value"] == "a \\u00a0b", out
''','a blank next to a hard one','it is lost')
bug('verbatim-quotes','C07',[('mau/parsers/preprocess_variables_parser.py','''            [Token.generate(TokenType.LITERAL, "`")],
            preserve_escaped_stop_tokens=True,
        )
''','''            [Token.generate(TokenType.LITERAL, "`")],
            preserve_escaped_stop_tokens=bool(self.environment.asflatdict()),
        )
''')],'''
''','','') if 0 else None
bug('get-namespace-first','C22',[('mau/environment/environment.py','''            keys = [k for k in self._variables if k.startswith(prefix)]
''','''            keys = [k for k in self._variables if k.startswith(prefix) and self._variables[k] is not None]
''')],'''
from mau.environment.environment import Environment
e = Environment.from_dict({"a": {"b": None}})
assert e.get("a") is not None
''','a namespace with only empty values','it is not found')
bug('update-namespace-overwrite','C22',[('mau/environment/environment.py','''        new_env._variables.update(self._variables)
        self._variables = new_env._variables
''','''        self._variables = {**new_env._variables, **{k: v for k, v in self._variables.items() if v != ""}}
''')],'''
from mau.environment.environment import Environment
e = Environment.from_dict({"a": ""}); e.update(Environment.from_dict({"a": "x"}), overwrite=False)
assert e["a"] == ""
''','an empty value that must not be overwritten','it is')
bug('toc-no-args','C30',[('mau/parsers/document_parser.py','''            plain_entries=self.toc_manager.headers,
''','''            plain_entries=[h for h in self.toc_manager.headers if h.content],
''')],'''
import logging
from mau import Mau
from mau.message import LogMessageHandler
m = Mau(LogMessageHandler(logging.getLogger()))
p = m.run_parser(m.run_lexer(m.init_text_buffer("= ``\\n\\n= {a}\\n" if 0 else ":a: \\n\\n= \\\\\\n", "f")).tokens)
assert len(p.output.toc.plain_entries) == 1, p.output.toc.plain_entries
''','a header without text','it is not in the table')
bug('copy-arguments-kwargs','C15',[('mau/nodes/header.py','''        new_node.level = self.level
''','''        new_node.level = self.level
        new_node.arguments.named_args = {}
''')],'''
out = process("[k=1]\\n= x\\n\\n<< toc\\n")
assert out["content"][1]["plain_entries"][0]["kwargs"] == {"k": "1"}, out["content"][1]
assert out["content"][0]["kwargs"] == {"k": "1"}
''','a header with arguments and a table','the plain entries lose them')
bug('mailto-children','C26',[(TP,'''        nodes = []
        if result is not None:
''','''        nodes = []
        if result is not None and result.value.strip():
''')],'''
out = process(":a:1\\n[if:a==1](\\" \\")b\\n")
assert out["content"][0]["content"][0]["content"][0]["value"] == " b", out
''','a conditional text made of blanks','it is lost')
bug('ifeval-false','C08',[(TP,'''        result = true_case if test else false_case
''','''        result = true_case if test else false_case or (true_case if evaluate else None)
''')],'''
assert rejected(":a:1\\n:b:2\\n[ifeval:a==2](b)\\n")
''','an evaluated condition that is false and has one case','the other is used')
bug('source-marker-first','C19',[(DP+'block_engines/source.py','''        marker = splits[-1]
''','''        marker = splits[-1].strip()
''')],'''
out = process("[engine=source]\\n++++\\na: 1 :\\n++++\\n")
assert out["content"][0]["content"][0]["marker"]["value"] == " 1 ", out
''','a marker with blanks','they are lost')
bug('source-alias-number','C19',[(DP+'block_engines/source.py','''            highlight_style = style_aliases.get(highlight_style, highlight_style)
''','''            highlight_style = style_aliases.get(highlight_style) or highlight_style
''')],'''
out = process("[engine=source]\\n++++\\na:@q:\\n++++\\n", {"mau": {"parser": {"source_highlight_style_aliases": {"q": ""}}}})
assert out["content"][0]["content"][0]["highlight_style"] == "", out
''','a style whose replacement is empty','it is not replaced')
bug('process-keeps-tokens','C03',[('mau/__init__.py','''            lexer = DocumentLexer(text_buffer, self.message_handler, self.environment)
            lexer.process()
''','''            lexer = DocumentLexer(text_buffer, self.message_handler, self.environment)
            known = self.__dict__.setdefault("_lexed", {})
            key = (text_buffer.source_filename, len(text_buffer.lines))
            if key[0] and known.get(key, lexer).text_buffer.lines[:3] == text_buffer.lines[:3]:
                lexer = known.setdefault(key, lexer)
            if not lexer.tokens:
                lexer.process()
''')],'''
import logging
from mau import Mau
from mau.message import LogMessageHandler
m = Mau(LogMessageHandler(logging.getLogger()))
a = m.process(BaseVisitor, "a\\n\\nb\\n\\nc\\n", "f"); b = m.process(BaseVisitor, "a\\n\\nb\\n\\nd\\n", "f")
assert a != b
''','two documents with the same name and the same first lines, processed by one object','the second is the first')
