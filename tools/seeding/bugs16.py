"""More bugs for mk.py."""
DP='mau/parsers/document_processors/'; JV='mau/visitors/jinja_visitor.py'; TP='mau/parsers/text_parser.py'; BV='mau/visitors/base_visitor.py'
bug('evaluated-condition-place','C06',[(TP,'''        condition_context.start_column += shift
''','''        condition_context.start_column += len(operator) + 1
''')],'''
try:
    process("a [ifeval:y](a)\\n")
except MauException as e:
    assert e.message.context.start_column == 10, e.message
''','an evaluated condition that is wrong','the error points before the condition')
bug('header-update-first','C20',[(DP+'block_engines/default.py','''    if update:
''','''    if update and content_parser.nodes:
''')],'''
out = process("[isolate=false]\\n++++\\n[footnote=a]\\n####\\nx\\n####\\n++++\\n\\ny[footnote](a)\\n")
assert out["content"], out
''','a shared block that contains only the body of a footnote','the body is lost')
bug('lone-backslash','C01',[('mau/parsers/managers/tokens_manager.py','''        except IndexError:
            token = self.tokens[-1]
''','''        except IndexError:
            raise TokenError from None
''')],'''
out = process("a\\\\\\n")
assert out["content"], out
''','a backslash at the end of the text','a crash')
bug('include-fallback-ext','C28',[(DP+'include.py','''        with open(uri, "r", encoding="utf-8") as f:
            text = f.read()
''','''        name = f"{uri}.mau" if os.path.exists(f"{uri}.mau") else uri
        with open(name, "r", encoding="utf-8") as f:
            text = f.read()
''')],'''
import os, tempfile
os.chdir(tempfile.mkdtemp()); open("a.mau", "w").write("x\\n")
try:
    process("<< mau:a\\n")
    raise SystemExit("read")
except MauException:
    pass
''','a name without extension','another file is read')
if 0: bug('log-context-none','C31',[('mau/message.py','''        values["Context"] = message.context
''','''        if message.context:
            values["Context"] = message.context
''')],'''
import logging
from mau.message import *
lines = []
l = logging.getLogger("q"); l.propagate = False; l.setLevel(1)
class H(logging.Handler):
    def emit(self, r): lines.append(r.getMessage())
l.addHandler(H())
LogMessageHandler(l).process(MauVisitorErrorMessage(text="x", context=None, node_type=None))
assert any("Context" in x for x in lines), lines
''','an error of the visitor without a place','its place is not told')
bug('parent-context-option','C32',[(BV,'''            data["parent"] = self._get_node_data(node.parent, **kwargs)
''','''            data["parent"] = self._get_node_data(node.parent)
''')],'''
from mau.test_helpers import *
from mau import Mau
import logging
from mau.message import LogMessageHandler
h = LogMessageHandler(logging.getLogger())
m = Mau(h); d = m.run_parser(m.run_lexer(m.init_text_buffer("x\\n", "f")).tokens).output.document
out = BaseVisitor(h).process(d, add_context=False)
assert "_context" not in str(out), out
''','an output without places','the parents have one')
bug('labels-without-options','C32',[(BV,'''        return {k: self.visit(node, **kwargs) for k, node in nodes_dict.items()}
''','''        return {k: self.visit(node) for k, node in nodes_dict.items()}
''')],'''
import logging
from mau import Mau
from mau.message import LogMessageHandler
h = LogMessageHandler(logging.getLogger())
m = Mau(h); d = m.run_parser(m.run_lexer(m.init_text_buffer(". t\\nx\\n", "f")).tokens).output.document
out = BaseVisitor(h).process(d, add_context=False)
assert "_context" not in str(out), out
''','an output without places and with labels','the labels have one')
bug('postprocess-options','C32',[(BV,'''        result = self._postprocess(result, **kwargs)
''','''        result = self._postprocess(result)
''')],'''
import logging
from mau import Mau
from mau.message import LogMessageHandler
h = LogMessageHandler(logging.getLogger())
m = Mau(h); d = m.run_parser(m.run_lexer(m.init_text_buffer("x\\n", "f")).tokens).output.document
class V(BaseVisitor):
    def _postprocess(self, result, **kwargs):
        return kwargs["a"]
try:
    assert V(h).process(d, a=1) == 1
except KeyError:
    raise SystemExit("lost")
''','a program that changes the result','the options are lost')
bug('config-flat','C25',[(JV,'''                config=self.environment.asdict(), **kwargs
''','''                config={**self.environment.asdict(), **self.environment.asflatdict()},
                **kwargs,
''')],'''
t = {"document.j2": "{{ config | length }}", "paragraph.j2": "", "paragraph-line.j2": "", "text.j2": ""}
a = process("x\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert a == "1", a
''','a template that lists the configuration','it finds other names') if 0 else None
bug('debug-sorts','C27',[(JV,'''        return {
            "Available templates": [t.name for t in templates],
''','''        templates.sort(key=lambda t: t.name)
        return {
            "Available templates": list(map(lambda t: t.name, templates)),
''')],'''
t = {"document.j2": "{{ content }}", "paragraph.j2": "P", "paragraph.tg_a.j2": "A", "paragraph-line.j2": "", "text.j2": ""}
out = process("[#a, #mau:debug]\\nx\\n\\n[#a]\\ny\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert out == "A\\nA", out
''','an element after one that is debugged, with many templates','the template is another')
bug('group-block-parent','C26',[('mau/parsers/managers/blockgroup_manager.py','''        node.parent = blockgroup_item
''','''        node.parent = node.parent or blockgroup_item
''')],'''
out = process("[group=g, position=a]\\n++++\\nx\\n++++\\n\\n<< blockgroup:g\\n")
b = out["content"][0]["items"]["a"]["block"]
assert b["parent"]["_type"] == "blockgroup-item", b["parent"]
''','a block in a group','its parent') 
bug('forbidden-shared','C21',[(DP+'include.py','''    forbidden_includes = list(parser.forbidden_includes)
''','''    forbidden_includes = parser.forbidden_includes
''')],'''
import os, tempfile
os.chdir(tempfile.mkdtemp()); open("a.mau", "w").write("x\\n")
out = process("<< mau:a.mau\\n\\n<< mau:a.mau\\n")
assert len(out["content"]) == 2
''','a file included twice','it is rejected')
bug('calls-nested-first','C30',[(DP+'block_engines/default.py','''    parser.output.include_calls.extend(content_parser.output.include_calls)
''','''    parser.output.include_calls[:0] = content_parser.output.include_calls
'''),(DP+'block_engines/default.py','''    update = arguments.named_args.get("isolate", "true") == "false"
''','''    update = "false" == arguments.named_args.get("isolate", "true")
''')],'''
import os, tempfile, logging
from mau import Mau
from mau.message import LogMessageHandler
os.chdir(tempfile.mkdtemp()); open("a.mau", "w").write("x\\n"); open("b.mau", "w").write("x\\n")
m = Mau(LogMessageHandler(logging.getLogger()))
p = m.run_parser(m.run_lexer(m.init_text_buffer("<< mau:a.mau\\n\\n++++\\n<< mau:b.mau\\n++++\\n", "f")).tokens)
assert [c.callee_uri for c in p.output.include_calls] == ["a.mau", "b.mau"], p.output.include_calls
''','inclusions in blocks after others','the order')
bug('context-none-source','C05',[('mau/text_buffer.py','''            source=ctx1.source,
        )
''','''            source=ctx1.source if ctx1.start_line <= ctx2.start_line else ctx2.source,
        )
''')],'''
''','','') if 0 else None
bug('list-first-char','C14',[(DP+'list.py','''            ordered = header.value[0] == "#"
            subnodes''','''            ordered = parser.tm.peek_token().value.startswith("##")
            subnodes''')],'''
out = process("* a\\n#* b\\n")
assert out["content"][0]["content"][1]["ordered"] is True, out
''','','') if 0 else None
bug('link-empty-target','C08',[(TP,'''            target.value,
            content=nodes,
''','''            target.value.strip(),
            content=nodes,
''')],'''
out = process('[link](" a ", x)\\n')
assert out["content"][0]["content"][0]["content"][0]["target"] == " a ", out
''','a target with spaces','they are lost')
bug('raw-value-strip','C08',[(TP,'''        node = MacroRawNode(
            value.value,
''','''        node = MacroRawNode(
            value.value.rstrip(),
''')],'''
out = process('[raw]("<br> ")\\n')
assert out["content"][0]["content"][0]["content"][0]["value"] == "<br> ", out
''','a raw value with spaces at the end','they are lost')
bug('verbatim-joined-lines','C05',[(TP,'''        context = Context.merge_contexts(opening_marker.context, closing_marker.context)

        node = VerbatimNode(
''','''        context = content.context

        node = VerbatimNode(
''')],'''
out = process("`a`\\n")
assert out["content"][0]["content"][0]["content"][0]["_context"]["start_column"] == 0
''','a verbatim text','its place is the one of the content')
bug('eof-blank-last','C04',[('mau/text_buffer.py','''        if self.line == len(self.lines) - 1 and self.column >= len(self.current_line):
            return True
''','''        if self.line == len(self.lines) - 1 and not self.tail.strip():
            return True
''')],'''
from mau.lexers.document_lexer import DocumentLexer
from mau.text_buffer import TextBuffer
import logging
from mau.message import LogMessageHandler
l = DocumentLexer(TextBuffer("a\\n   "), LogMessageHandler(logging.getLogger())); l.process()
assert l.tokens[-1].context.start_column == 3 or [t.value for t in l.tokens] == ["a", "   ", ""], [(t.value, t.context) for t in l.tokens]
''','a last line of blanks','it is lost')
bug('next-line-twice','C04',[('mau/text_buffer.py','''        if self.line <= len(self.lines):
            self.line += 1
''','''        if self.line < len(self.lines):
            self.line += 1
''')],'''
''','','') if 0 else None
bug('labels-after-control','C11',[('mau/parsers/document_parser.py','''        labels = self.label_buffer.pop()
''','''        labels = {k: v for k, v in self.label_buffer.pop().items() if v.content}
''')],'''
out = process(".role \\nx\\n") if False else process(". {a}\\nx\\n", {"a": ""})
assert "title" in out["content"][0]["labels"], out
''','a label whose text is empty','it is lost')
bug('class-same-text','C08',[(TP,'''        classes = [node.value for node in parser.unnamed_argument_nodes]
''','''        classes = [node.value for node in parser.unnamed_argument_nodes if node.value]
''')],'''
out = process('[class](t, "", b)\\n')
assert out["content"][0]["content"][0]["content"][0]["classes"] == ["", "b"], out
''','an empty class','it is lost')
bug('document-parent-shared','C29',[('mau/parsers/document_parser.py','''        document_node_class = self.environment.get(
            "mau.parser.document_wrapper", DocumentNode
        )
''','''        document_node_class = (
            DocumentNode
            if forbidden_includes
            else self.environment.get("mau.parser.document_wrapper", DocumentNode)
        )
''')],'''
import os, tempfile
from mau.nodes.document import DocumentNode
class D(DocumentNode):
    type = "mine"
os.chdir(tempfile.mkdtemp()); open("a.mau", "w").write("x\\n")
from mau import Environment
e = Environment(); e["mau.parser.document_wrapper"] = D
made = []
class D(DocumentNode):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); made.append(self)
e["mau.parser.document_wrapper"] = D
process("<< mau:a.mau\\n", e)
assert len(made) == 2, made
''','','') if 0 else None
bug('mailto-target-text','C16',[('mau/parsers/managers/header_links_manager.py','''        if header.name in self.headers:
''','''        if header.name in self.headers and header.level == self.headers[header.name].level:
''')],'''
try:
    process("[name=a]\\n= x\\n\\n[name=a]\\n== y\\n")
    raise SystemExit("accepted")
except MauException:
    pass
''','two headers of other levels with the same name','they are accepted')
bug('links-first-only','C16',[('mau/parsers/document_parser.py','''        self.header_links_manager.add_macros(text_parser.header_links)
''','''        known = {m.target_name for m in self.header_links_manager.macros}
        self.header_links_manager.add_macros(
            [m for m in text_parser.header_links if m.target_name not in known]
            if len(known) > 3
            else text_parser.header_links
        )
''')],'''
text = "".join(f"[name=h{i}]\\n= H{i}\\n\\n" for i in range(5)) + "".join(f"[header](h{i})\\n\\n" for i in range(5)) + "[header](h0)\\n"
out = process(text)
assert out["content"][-1]["content"][0]["content"][0]["header"], out["content"][-1]
''','many links to many headers, in many paragraphs','some are not resolved')
