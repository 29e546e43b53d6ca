T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('list-two-spaces','C04',[(DL,'''        self._skip(whitespace2)
        item_token''','''        self._skip(" ")
        item_token''')],'''
mau = Mau(Handler(), Environment())
tokens = mau.run_lexer(mau.init_text_buffer("*   item\\n", "x")).tokens
assert tokens[1].context.start_column == 4, tokens[1].context
''','more than one space after the marker','the columns of the text')
bug('block-content-columns','C04',[(DL,'''            end_column = initial_position[1] + len(text_lines[-1])
''','''            end_column = initial_position[1] + max(len(line) for line in text_lines)
''')],'''
mau = Mau(Handler(), Environment())
tokens = mau.run_lexer(mau.init_text_buffer("----\\nlong line\\nab\\n----\\n", "x")).tokens
assert tokens[1].context.end_column == 2, tokens[1].context
''','the last line of a block is shorter than another','the place of the content of the block')
bug('spaces-regexp','C02',[(L+'base_lexer.py','''        match = rematch(r"\\ *$", self._tail)
''','''        match = rematch(r"(\\ +)*$", self._tail)
''')],'''
import threading
t = threading.Thread(target=lambda: process("a" + " " * 40 + "b {nope\\n"), daemon=True)
import subprocess, sys
code = "from mau import Mau, BaseVisitor, Environment\\nfrom mau.message import BaseMessageHandler\\nclass H(BaseMessageHandler):\\n    type='x'\\nMau(H(), Environment()).process(BaseVisitor, '*a*' + ' ' * 34 + 'b *c*\\\\n', 'x')\\n"
subprocess.run([sys.executable, "-c", code], timeout=20, check=True)
''','many spaces between two pieces of text','the time is exponential')
bug('link-one-piece','C16',[(M+'header_links_manager.py','''                macro.content = [node.deepcopy(parent=macro) for node in header.content]
''','''                macro.content = [
                    node.deepcopy(parent=macro)
                    for node in header.content
                    if not isinstance(node, MacroHeaderNode)
                ]
''')],'''
out = process("[name=a]\\n= One\\n\\n[name=b]\\n= Two [header](a, x)\\n\\n[header](b)\\n")
m = out["content"][2]["content"][0]["content"][0]
assert [c["_type"] for c in m["content"]] == ["text", "macro.header"], m["content"]
''','a header that has a link','the text of the links to it is not complete')
bug('link-empty-header','C16',[(M+'header_links_manager.py','''            macro.header = header
''','''            macro.header = macro.header or header
'''),(M+'header_links_manager.py','''        self.headers[header.name] = header
''','''        self.headers[header.name.strip("_")] = header
''')],'''
try:
    process("[name=_a]\\n= One\\n\\n[header](_a)\\n")
except MauException:
    assert False
''','a name with underscores at its ends','the header is not found')
bug('toc-in-footnote','C16',[(T,'''        self.header_links.append(node)

        return [node]
''','''        if not any(n.target_name == node.target_name for n in self.header_links):
            self.header_links.append(node)

        return [node]
''')],'''
out = process("[name=a]\\n= One\\n\\n[header](a) [header](a)\\n")
line = out["content"][1]["content"][0]["content"]
assert line[2]["header"], line[2]
''','two links to the same header in a paragraph','the second one has no header')
bug('duplicate-name-ignored','C16',[(M+'header_links_manager.py','''        if header.name in self.headers:
''','''        if header.name in self.headers and self.headers[header.name].level == 1:
''')],'''
assert rejected("[name=a]\\n== One\\n\\n[name=a]\\n== Two\\n")
''','headers of level two with the same name','no error')
bug('default-engine-footnotes','C20',[(D+'block_engines/default.py','''        environment=environment,
        start_line''','''        environment=environment if update else Environment.from_environment(environment),
        start_line'''),(D+'block_engines/default.py','''from mau.nodes.block import BlockNode
''','''from mau.environment.environment import Environment
from mau.nodes.block import BlockNode
''')],'''
out = process("----\\n:v:1\\n----\\n\\n{v}\\n")
''','a variable defined in a block','it does not exist after the block')
bug('block-auto-start','C20',[(D+'block_engines/default.py','''    if update:
''','''    if content_parser.latest_ordered_list_index and update:
        parser.latest_ordered_list_index = content_parser.latest_ordered_list_index

    if update:
'''),(D+'block_engines/default.py','''    update = arguments.named_args.get("isolate", "true") == "false"
''','''    update = arguments.named_args.get("isolate") == "false"
''')],'''
out = process("# a\\n\\n[isolate=false]\\n----\\n# b\\n# c\\n# d\\n----\\n\\n[start=auto]\\n# e\\n")
assert out["content"][2]["start"] == 2, out["content"][2]["start"]
''','a list in a block that shares, and one that continues another','its number')
bug('group-label-lost','C18',[(D+'block.py','''        parser.blockgroup_manager.add_block(group_name, position, node)
''','''        node.labels = {k: v for k, v in node.labels.items() if k != position}
        parser.blockgroup_manager.add_block(group_name, position, node)
'''),(D+'block.py','''    position = arguments.named_args.get("position")
''','''    position = arguments.named_args.get("position", "").strip()
''')],'''
out = process(".left Label\\n[group=g, position=left]\\n----\\nx\\n----\\n\\n<< blockgroup:g\\n")
b = out["content"][0]["items"]["left"]["block"]
assert list(b["labels"]) == ["left"], b["labels"]
''','a label with the role of the position','it is lost')
bug('group-position-case','C18',[(M+'blockgroup_manager.py','''        blockgroup[position] = blockgroup_item
''','''        blockgroup[position.lower()] = blockgroup_item
''')],'''
out = process("[group=g, position=Left]\\n----\\nx\\n----\\n\\n<< blockgroup:g\\n")
assert list(out["content"][0]["items"]) == ["Left"], list(out["content"][0]["items"])
''','a position with capital letters','its name')
bug('label-rule','C11',[(D+'horizontal_rule.py','''    parser.pop_labels(node)
''','''    if not node.arguments.unnamed_args:
        parser.pop_labels(node)
''')],'''
out = process("[a]\\n. Label\\n---\\n\\ntext\\n")
assert list(out["content"][0]["labels"]) == ["title"], out["content"]
''','a rule with arguments and a label','the label goes to the next element')
bug('label-order','C11',[(B+'label_buffer.py','''        self.labels[role] = node
''','''        self.labels = {role: node, **self.labels}
''')],'''
out = process(". One\\n. Two\\ntext\\n")
t = out["content"][0]["labels"]["title"]["content"][0]["value"]
assert t == "Two", t
''','two labels with the same role','the first one is kept')
bug('error-alias-place','C06',[(P+'arguments_parser.py','''                    text=f"Alias '{self.alias.value}' cannot be found in 'mau.parser.aliases': {replacements}.",
                    context=self.context,
''','''                    text=f"Alias '{self.alias.value}' cannot be found in 'mau.parser.aliases': {replacements}.",
                    context=self.alias.info.context.clone().move_to(len(self.tag_nodes), 0),
''')],'''
h = Handler()
try:
    process("[#a, #b, @nope]\\ntext\\n", handler=h)
except MauException as e:
    m = e.message
assert m.context.start_line == 0, m.context
''','an unknown alias after tags','the line of the error')
bug('duplicate-label-place','C06',[(D+'block.py','''            f"Engine '{engine_name}' is not available.",
            context=context,
''','''            f"Engine '{engine_name}' is not available.",
            context=closing_delimiter.context,
''')],'''
try:
    process("[engine=nope]\\n----\\na\\nb\\n----\\n")
except MauException as e:
    m = e.message
assert m.context.start_line == 1, m.context
''','a block with an unknown engine','the error points at its end')
bug('list-start-place','C06',[(D+'list.py','''                context=parser.tm.peek_token().context,
''','''                context=header.context,
''')],'''
try:
    process("* a\\n* b\\n** c\\ntext\\n")
except MauException as e:
    m = e.message
assert m.context.start_line == 3, m.context
''','text after a nested list','the error points at the last item')
bug('raw-lines-parent','C26',[(D+'include.py','''                info=NodeInfo(context=context),
                parent=node,
            )
        )

    node.content = raw_lines
''','''                info=NodeInfo(context=context),
                parent=node if content_line else None,
            )
        )

    node.content = raw_lines
''')],'''
open("f.txt", "w").write("a\\n\\nb")
out = process("<< raw:f.txt\\n")
assert [c["parent"].get("_type") for c in out["content"][0]["content"]] == ["include-raw"] * 3
''','an empty line in an included file','it has no container')
bug('list-nested-parent','C26',[(D+'list.py','''            subnodes = _process_list_nodes(parser, parent)
''','''            subnodes = _process_list_nodes(parser, nodes[-1])
''')],'''
out = process("* a\\n** b\\n")
n = out["content"][0]["content"][1]["content"][0]
assert n["parent"]["_type"] == "list", n["parent"]
''','a nested list','its items say that they are in an item')
bug('include-beside','C28',[(D+'include.py','''    if pass_environment == "true":
''','''    for extra in (uri + ".env",):
        try:
            with open(extra, "r", encoding="utf-8") as f:
                f.read()
        except OSError:
            pass

    if pass_environment == "true":
''' ),(D+'include.py','''    call_arguments = {}
''','''    call_arguments: dict = {}
''')],'''
seen = []
import sys
sys.addaudithook(lambda e, a: seen.append(str(a[0])) if e == "open" else None)
open("a.mau", "w").write("x\\n")
open("a.mau.env", "w").write("x\\n")
seen.clear()
process("<< mau:a.mau\\n")
assert not any(s.endswith(".env") for s in seen), seen
''','an included document','another file beside it is read')
bug('footnote-id-content','C29',[(M+'footnotes_manager.py','''            footnote.internal_id = self.footnote_unique_id_function(footnote)
''','''            footnote.internal_id = (
                self.footnote_unique_id_function(footnote) or footnote.name
            )
''')],'''
out = process("a[footnote](n)\\n\\n[footnote=n]\\n----\\nx\\n----\\n", {"mau": {"parser": {"footnote_unique_id_function": lambda n: ""}}})
f = out["content"][0]["content"][0]["content"][1]["footnote"]
assert f["internal_id"] == "", f
''','a function that returns an empty identifier','the name is used')
bug('header-id-content','C29',[(D+'header.py','''    text_nodes = parser._parse_text(text_token.value, text_token.context, node)
''','''    text_nodes = parser._parse_text(
        text_token.value.rstrip(":"), text_token.context, node
    )
''')],'''
got = []
process("= One:\\n", {"mau": {"parser": {"header_internal_id_function": lambda n: got.append(n.content[0].value) or "x"}}})
assert got == ["One:"], got
''','a header that ends with a colon','the colon is lost')
bug('calls-excluded','C30',[(D+'include.py','''    parser.output.include_calls.append(
''','''    if content_parser.nodes:
        parser.output.include_calls.append(
'''),(D+'include.py','''        IncludeCall(
            caller_uri=context.source,
            callee_uri=uri,
            call_arguments=call_arguments,
            info=NodeInfo(context=context),
        )
    )
''','''            IncludeCall(
                caller_uri=context.source,
                callee_uri=uri,
                call_arguments=call_arguments,
                info=NodeInfo(context=context),
            )
        )
''')],'''
open("a.mau", "w").write(":x:1\\n")
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("<< mau:a.mau\\n", "m"))
parser = mau.run_parser(lexer.tokens)
assert len(parser.output.include_calls) == 1
''','an included document without elements','the inclusion is not reported')
bug('toc-output-empty','C30',[(P+'document_parser.py','''            plain_entries=self.toc_manager.headers,
''','''            plain_entries=[h for h in self.toc_manager.headers if h.content],
''')],'''
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("= [if:x==1](a)\\n\\n= b\\n", "m"))
parser = mau.run_parser(lexer.tokens)
assert len(parser.output.toc.plain_entries) == 2
''','a header whose text is nothing','it is not in the table of contents')
