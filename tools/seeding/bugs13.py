"""More bugs for mk.py."""

JV = "mau/visitors/jinja_visitor.py"
BV = "mau/visitors/base_visitor.py"


if True:
    bug('tags-any','C24',[(JV,'''        if self.tags and not set(self.tags).issubset(set(node.arguments.tags)):
''','''        if self.tags and set(self.tags).isdisjoint(set(node.arguments.tags)):
''')],'''
t = {"document.j2": "{{ content }}", "paragraph.j2": "P", "paragraph.tg_a.tg_b.j2": "AB"}
t |= {k + ".j2": "" for k in ("text", "paragraph-line")}
out = process("[#a]\\nx\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert out == "P", out
''','a template with many tags and an element with one of them','the template is used')
    bug('attribute-case','C24',[(JV,'''            if value != node_value:
                return False

        # Check if the template needs a prefix
''','''            if value.lower() != str(node_value).lower():
                return False

        # Check if the template needs a prefix
''')],'''
t = {"document.j2": "{{ content }}", "block.j2": "B", "blockgroup.j2": "G", "blockgroup.name__news.j2": "N"}
t |= {k + ".j2": "" for k in ("text", "paragraph-line", "paragraph", "blockgroup-item")}
out = process("[group=News, position=p]\\n++++\\nx\\n++++\\n\\n<< blockgroup:News\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert out == "G", out
''','an attribute in other letters','the template is used')
    bug('start-base','C14',[("mau/parsers/document_processors/list.py",'''            start = int(start)
''','''            start = int(start, 0) if isinstance(start, str) else start
''')],'''
out = process("[start=010]\\n# x\\n")
assert out["content"][0]["start"] == 10, out
''','a number that starts with zero','it is rejected')
    bug('named-strip-spaces','C09',[("mau/parsers/arguments_parser.py",'''            token.value.strip(),
''','''            token.value.strip(" "),
''')],'''
out = process("[k=\\tv, j=w]\\nx\\n")
assert out["content"][0]["kwargs"] == {"k": "v", "j": "w"}, out
''','a tab around a named value','it is part of the value')
    bug('templates-read-all','C28',[(JV,'''        if not obj.name.endswith(extension):
            continue

''','''        text = obj.read_text(encoding="utf-8", errors="replace")

        if not obj.name.endswith(extension):
            continue

''')],'''
import builtins, io
os.mkdir("t")
for n in ("document", "paragraph", "paragraph-line", "text"):
    open(f"t/{n}.j2", "w").write("")
open("t/other.txt", "w").write("")
seen = []
sys.addaudithook(lambda e, a: seen.append(str(a[0])) if e == "open" else None)
process("x\\n", {"mau": {"visitor": {"templates": {"paths": ["t"]}}}}, JinjaVisitor)
assert any(x.endswith("text.j2") for x in seen) and not any(x.endswith("other.txt") for x in seen), seen
''','other files in a folder of templates','they are read')
    bug('style-alias-strip','C19',[("mau/parsers/document_processors/block_engines/source.py",'''style_aliases.get(highlight_style, highlight_style)''','''style_aliases.get(
                highlight_style.strip(), highlight_style
            )''')],'''
out = process("[@source]\\n----\\nx:@ +:\\n----\\n")["content"][0]["content"][0]
assert out["highlight_style"] == " +", out
''','a style with a space','it is an alias')
    bug('hash-short','C15',[("mau/parsers/managers/toc_manager.py",'''[:4]''','''[:2]''')],'''
text = "\\n\\n".join("= " + chr(0x4e00 + i) for i in range(300)) + "\\n"
ids = {h["internal_id"] for h in process(text)["content"]}
assert len(ids) > 280, len(ids)
''','hundreds of headers','they share identifiers')
    bug('render-errors','C01',[(JV,'''        except Exception as exception:  # pragma: no cover
''','''        except (jinja2.TemplateError, TypeError, ValueError, KeyError) as exception:
''')],'''
t = {k + ".j2": "{{ 1 / 0 }}" for k in ("text", "paragraph-line", "paragraph", "document")}
try:
    process("x\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
except MauException:
    pass
''','a template that divides by zero','another exception')
    bug('shared-groups','C20',[("mau/parsers/document_processors/block_engines/default.py",'''        parser.toc_manager.update(content_parser.toc_manager)
''','''        for name, items in content_parser.blockgroup_manager.items.items():
            parser.blockgroup_manager.items[name].update(items)
        parser.toc_manager.update(content_parser.toc_manager) if content_parser else None
''')],'''
try:
    process("[isolate=false]\\n++++\\n[group=g, position=p]\\n----\\nx\\n----\\n++++\\n\\n<< blockgroup:g\\n")
    raise SystemExit("the group is known")
except MauException:
    pass
''','a group in a block that is not isolated','it is known outside')
    bug('marker-options','C32',[(BV,'''                "marker": self.visit(node.marker, **kwargs),
''','''                "marker": self.visit(node.marker),
''')],'''
mau = Mau(Handler(), Environment())
parser = mau.run_parser(mau.run_lexer(mau.init_text_buffer("[@source]\\n----\\nx:1:\\n----\\n", "m")).tokens)
out = BaseVisitor(Handler(), Environment()).process(parser.output.document, add_parent=False)
assert "parent" not in out["content"][0]["content"][0]["marker"], out
''','the marker of a line','the options are lost')
    bug('group-items-options','C18',[(BV,'''                "items": self.visitdict(node, node.items, **kwargs),
''','''                "items": self.visitdict(node, dict(sorted(node.items.items())), **kwargs),
''')],'''
out = process("".join(f"[group=g, position={p}]\\n++++\\nx\\n++++\\n\\n" for p in "ba") + "<< blockgroup:g\\n")
assert list(out["content"][0]["items"]) == ["b", "a"], out
''','positions in another order','they are sorted')
    bug('list-nested-start','C14',[("mau/parsers/document_processors/list.py",'''    items = [i for i in nodes if isinstance(i, ListItemNode)]
''','''    items = [i for i in nodes if isinstance(i, ListItemNode) and i.content]
''')],'''
out = process('[engine=default]\\n# [x](a)\\n# ``\\n# ""\\n# b\\n\\n[start=auto]\\n# c\\n')
assert out["content"][1]["start"] == 5, out["content"][1]["start"]
''','an item without content','it is not counted')
    bug('calls-after','C30',[("mau/parsers/document_processors/include.py",'''    start_line, start_column = context.start_position
    source_filename = uri
''','''    source_filename = uri.replace("./", "", 1) if uri.startswith("./") else uri
''')],'''
open("a.mau", "w").write("<< mau:b.mau\\n")
open("b.mau", "w").write("x\\n")
mau = Mau(Handler(), Environment())
parser = mau.run_parser(mau.run_lexer(mau.init_text_buffer("<< mau:./a.mau\\n", "m")).tokens)
assert [c.caller_uri for c in parser.output.include_calls] == ["m", "./a.mau"], parser.output.include_calls
''','a path that starts with a dot','the caller has another name')
    bug('value-type-number','C10',[("mau/parsers/preprocess_variables_parser.py",'''            variable_value = str(variable_value)
''','''            variable_value = (
                f"{variable_value:g}"
                if isinstance(variable_value, float)
                else str(variable_value)
            )
''')],'''
out = process("{v}\\n", {"v": 3.14159265358})
assert out["content"][0]["content"][0]["content"][0]["value"] == "3.14159265358", out
''','a number with many digits','it is rounded')
    bug('header-options-list','C32',[(BV,'''                "header": self.visit_data(node.header, **kwargs),
                "entries": self.visitlist(node, node.entries, **kwargs),
''','''                "header": self.visit_data(node.header, **kwargs),
                "entries": [self.visit_data(entry, **kwargs) for entry in node.entries],
''')],'''
h = []
mau = Mau(Handler(), Environment())
parser = mau.run_parser(mau.run_lexer(mau.init_text_buffer("= a\\n\\n== b\\n\\n<< toc\\n", "m")).tokens)
BaseVisitor(Handler(), Environment()).process(parser.output.document, transformer=lambda x: h.append(x["_type"]) or x)
assert h.count("toc-item") == 2, h
''','entries of entries','they are not transformed')
    bug('label-content-empty','C11',[("mau/parsers/document_processors/paragraph.py",'''    parser.pop_labels(node)
''','''    parser.pop_labels(node)
    node.labels = {role: label for role, label in node.labels.items() if label.content}
''')],'''
out = process('. [x]("")\\nx\\n')
out = process(":v:\\n. {v}\\nx\\n")
assert "title" in out["content"][0]["labels"], out
''','a label that becomes empty','it is lost')
