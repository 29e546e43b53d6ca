"""More bugs for mk.py."""
DP='mau/parsers/document_processors/'; JV='mau/visitors/jinja_visitor.py'
if 0: bug('tokens-slice','C02',[('mau/parsers/managers/tokens_manager.py','''            token = self.tokens[self.index + 1]
''','''            token = self.tokens[self.index + 1 :][0]
''')],'''
import time
def took(n):
    text = "*word* " * n
    best = 99
    for _ in range(3):
        start = time.process_time(); process(text); best = min(best, time.process_time() - start)
    return best
a, b = took(500), took(16000)
assert b < 32 * 3 * a, (a, b)
''','a line with many words','the time grows with the square')
bug('prefix-fallback-early','C24',[(JV,'''        if self.prefix != prefix:
''','''        if self.prefix and self.prefix != prefix:
''')],'''
t = {"document.j2": "{{ content }}", "paragraph.*s.j2": "S"}
t = {"document.j2": "{{ content }}", "paragraph.special.j2": "S", "paragraph.pf_b.j2": "B", "paragraph.j2": "P", "paragraph-line.j2": "", "text.j2": ""}
out = process("[*special]\\nx\\n", {"mau": {"visitor": {"templates": {"custom": t, "prefixes": ["b"]}}}}, JinjaVisitor)
assert out == "B", out
''','a general template with a prefix and a special one without','the prefix is not preferred')
bug('jinja-autoescape','C25',[(JV,'''            loader=jinja2.DictLoader(jinja_templates),
''','''            loader=jinja2.DictLoader(jinja_templates),
            autoescape=jinja2.select_autoescape(default=False, enabled_extensions=("html",)),
''')],'''
t = {"document.j2": "{{ content }}", "paragraph.j2": "P", "paragraph.html.j2": "{{ kwargs.a }}", "paragraph-line.j2": "", "text.j2": ""}
out = process("[*html, a=<]\\nx\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert out == "<", out
''','a template of the subtype html','the characters are escaped')
bug('cli-bom','C23',[('mau/cli.py','''    with open(args.input_file, "r", encoding="utf-8") as input_file:
''','''    with open(args.input_file, "r", encoding="utf-8-sig") as input_file:
''')],'''
import subprocess, yaml
open("a.mau", "w", encoding="utf-8").write("\\ufeffx\\n")
r = subprocess.run([sys.executable, "-m", "mau.cli", "-i", "a.mau", "-t", "core:YamlVisitor", "-o", "out"], capture_output=True)
out = yaml.safe_load(open("out", encoding="utf-8"))
assert out["content"][0]["content"][0]["content"][0]["value"] == "\\ufeffx", out
''','a file that starts with a mark','the mark is lost')
bug('include-open-plus','C28',[(DP+'include.py','''    # Read the content of the file.
    try:
        with open(uri, "r", encoding="utf-8") as f:
            text''','''    # Read the content of the file.
    try:
        with open(uri, "r+", encoding="utf-8") as f:
            text''')],'''
seen = []
open("a.mau", "w").write("x\\n")
sys.addaudithook(lambda e, a: seen.append(a) if e == "open" and str(a[0]) == "a.mau" else None)
process("<< mau:a.mau\\n")
assert seen and all(a[1] == "r" for a in seen), seen
''','an included file','it is opened for writing')
bug('engine-error-content','C06',[(DP+'block.py','''            context=context,
        ) from exc
''','''            context=content.context if content else context,
        ) from exc
''')],'''
try:
    process("[engine=x]\\n++++\\na\\n++++\\n")
except MauException as e:
    assert e.message.context.start_line == 1, e.message
''','a block with a wrong engine','the error points at the content')
bug('tag-spaces','C09',[('mau/parsers/arguments_parser.py','''        tags = [node.value for node in tag_nodes]
''','''        tags = [node.value.strip() for node in tag_nodes]
''')],'''
out = process('["# a"]\\nx\\n')
assert out["content"][0]["tags"] == [" a"], out["content"][0]["tags"]
''','a tag with spaces','they are lost')
bug('source-language-empty','C19',[(DP+'block_engines/source.py','''    language = arguments.named_args.pop("language", "text")
''','''    language = arguments.named_args.pop("language", "text").strip()
''')],'''
out = process('[engine=source, " x "]\\n++++\\na\\n++++\\n') if False else process('[@source, " x "]\\n++++\\na\\n++++\\n')
assert out["content"][0]["language"] == " x ", out["content"][0]["language"]
''','a language with spaces','they are lost')
bug('image-width-number','C08',[('mau/parsers/text_parser.py','''        width = width_node.value if width_node else None
''','''        width = width_node.value.removesuffix("px") if width_node else None
''')],'''
out = process("[image](a, b, 10px, 5px)\\n")
assert out["content"][0]["content"][0]["content"][0]["width"] == "10px", out
''','a width with a unit','the unit is lost')
bug('unnamed-quote-kept','C09',[('mau/parsers/arguments_parser.py','''        nodes = [i for i in nodes if i.value.startswith(prefix)]
''','''        nodes = [i for i in nodes if i.value.startswith(prefix) and i.value != prefix]
''')],'''
out = process("[#]\\nx\\n")
assert out["content"][0]["tags"] == [""], out["content"][0]
''','an empty tag','it is a value')
bug('document-wrapper-none','C13',[('mau/parsers/document_parser.py','''        if not self.nodes:
''','''        if not [node for node in self.nodes if node.type != "horizontal-rule"]:
''')],'''
out = process("---\\n")
assert out["content"], out
''','a document of rules','it is empty')
bug('label-in-included','C26',[('mau/parsers/document_parser.py','''            for child in label_node.content:
                child.parent = label_node
''','''            for child in label_node.content[:1]:
                child.parent = label_node
''')],'''
out = process(". a *b* c\\nx\\n")
assert all(c["parent"]["_type"] == "label" for c in out["content"][0]["labels"]["title"]["content"]), out
''','a label with many pieces','their parent is another')
bug('update-flat','C22',[('mau/environment/environment.py','''            self._variables.update(new_env._variables)
            return
''','''            self._variables.update({k: v for k, v in new_env._variables.items() if v is not None})
            return
''')],'''
e = Environment.from_dict({"a": 1}); e.update(Environment.from_dict({"a": None}))
assert e["a"] is None
''','a value that is nothing','it does not overwrite')
bug('join-nested','C25',[(JV,'''        visited_nodes = [self.visit(node, **kwargs) for node in nodes_list]
''','''        visited_nodes = [self.visit(node, **kwargs) for node in nodes_list]
        if join_with == " ":
            visited_nodes = [x.strip(" ") for x in visited_nodes]
''')],'''
t = {k + ".j2": "{{ content }}" for k in ("document", "paragraph", "paragraph-line")} | {"text.j2": "{{ value }}"}
out = process("a\\\\ \\nb\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
out2 = process("\\\\ a\\nb\\n", {"mau": {"visitor": {"templates": {"custom": t}}}}, JinjaVisitor)
assert out2 == " a b", (out, out2)
''','a line that starts with a space','the space is lost')
