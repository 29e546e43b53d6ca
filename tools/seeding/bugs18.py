bug('header-id-casefold','C15',[('mau/parsers/managers/toc_manager.py','''    sanitised_text = text.lower()
''','''    sanitised_text = text.casefold()
''')],'''
out = process("= Straße\\n")
assert out["content"][0]["internal_id"].startswith("strae-"), out
''','a header with letters that another way to lower changes','its identifier changes')
bug('header-id-underscore','C15',[('mau/parsers/managers/toc_manager.py','''    sanitised_text = "".join(re.findall("[a-z0-9-\\\\. ]+", sanitised_text))
''','''    sanitised_text = "".join(re.findall("[a-z0-9-_\\\\. ]+", sanitised_text))
''')],'''
out = process("= a_b\\n")
assert out["content"][0]["internal_id"].startswith("ab-"), out
''','a header with an underscore in its text','its identifier changes')
bug('label-first-wins','C11',[('mau/parsers/buffers/label_buffer.py','''        self.labels[role] = node
''','''        self.labels.setdefault(role, node)
''')],'''
out = process(". a\\n. b\\ntext\\n")
l = out["content"][0]["labels"]["title"]["content"][0]["value"]
assert l == "b", l
''','two labels with the same role before an element','the first is used')
bug('control-first-wins','C12',[('mau/parsers/buffers/control_buffer.py','''    def push(self, control: Control):
        # Store the given control statement.
        self.control = control
''','''    def push(self, control: Control):
        # Store the given control statement.
        self.control = self.control or control
''')],'''
out = process(":a:1\\n@if a==1\\n@if a==2\\nx\\n\\ny\\n")
assert len(out["content"]) == 1, out
''','two conditions before an element','the first is used')
bug('arguments-subtype-kept','C11',[('mau/parsers/buffers/arguments_buffer.py','''        self.arguments = arguments
''','''        if self.arguments is not None and arguments.subtype is None:
            arguments.subtype = self.arguments.subtype
        self.arguments = arguments
''')],'''
out = process("[*st]\\n[a]\\nx\\n")
assert out["content"][0]["subtype"] is None, out
''','two rows of arguments, the first with a subtype','the subtype of the first remains')
bug('list-nested-last-mark','C14',[('mau/parsers/document_processors/list.py','''            header = parser.tm.peek_token(TokenType.LIST)
            ordered = header.value[0] == "#"
''','''            header = parser.tm.peek_token(TokenType.LIST)
            ordered = header.value[-1] == "#"

            # Process the sublist''')],'''
out = process("* a\\n*# b\\n")
l = [i for i in out["content"][0]["content"] if i["_type"] == "list"][0]
assert l["ordered"] is False, l
''','a nested list with mixed marks','its kind is the one of the last mark')
bug('condition-source-first','C06',[('mau/parsers/condition_parser.py','''    source_filename = condition_token.context.source
''','''    source_filename = condition_token.context.source if start_line else None
''')],'''
out = rejected("@if {x==2\\ny\\n")
assert out is None or True
m = rejected("@if {nope}==2\\ny\\n")
from mau import Mau
import logging
from mau.message import LogMessageHandler
try:
    Mau(LogMessageHandler(logging.getLogger())).process(BaseVisitor, "@if {nope}==2\\ny\\n", "file.mau")
except MauException as exc:
    assert exc.message.context.source == "file.mau", exc.message.context
else:
    assert 0
''','an error in a condition of the first line','the error does not name the file')
bug('labels-sorted','C25',[('mau/visitors/base_visitor.py','''        return {k: self.visit(node, **kwargs) for k, node in nodes_dict.items()}
''','''        return {k: self.visit(nodes_dict[k], **kwargs) for k in sorted(nodes_dict, key=str)}
''')],'''
out = process(".zz a\\n.aa b\\ntext\\n")
assert list(out["content"][0]["labels"]) == ["zz", "aa"], out
''','labels not in alphabetical order','their order is lost')
bug('image-classes-empty','C09',[('mau/parsers/document_processors/include.py','''        classes.extend(classes_arg.split(","))
''','''        classes.extend(c for c in classes_arg.split(",") if c)
''')],'''
out = process('<< image:/a.png, b, "x,,y"\\n')
assert out["content"][0]["classes"] == ["x", "", "y"], out
''','an image with an empty class','the class is lost')
bug('pass-environment-case','C21',[('mau/parsers/document_processors/include.py','''    if pass_environment == "true":
''','''    if pass_environment.lower() == "true":
''')],'''
import os, tempfile
os.chdir(tempfile.mkdtemp())
open("a.mau", "w").write("{v}\\n")
assert rejected(":v:1\\n<< mau:a.mau, pass_environment=True\\n")
''','an included file with pass_environment=True','the variables are passed')
bug('call-prefix-removed-twice','C30',[('mau/parsers/document_processors/include.py','''        new_key = key.removeprefix("call:")
''','''        new_key = key.rpartition(":")[2]
''')],'''
import os, tempfile
os.chdir(tempfile.mkdtemp())
open("a.mau", "w").write("text\\n")
m = __import__("mau").Mau(None)
p = m.run_parser(m.run_lexer(m.init_text_buffer("<< mau:a.mau, call:x:y=1\\n", "f")).tokens)
assert p.output.include_calls[0].call_arguments == {"x:y": "1"}, p.output.include_calls
''','a call argument whose name contains a colon','its name is cut')
bug('yaml-width','C25',[('mau/visitors/yaml_visitor.py','''        return yaml.dump(result, Dumper=NoAliasDumper)
''','''        return yaml.dump(result, Dumper=NoAliasDumper, width=60).replace("\\\\\\n", "")
''')],'''
import yaml
from mau.visitors.yaml_visitor import YamlVisitor
t = "é" * 90 + " b c  d " * 40 + "\\\\u2028"
from mau import Mau
import logging
from mau.message import LogMessageHandler
m = lambda: Mau(LogMessageHandler(logging.getLogger()))
t = "[unicode](2028) " + "a" * 30 + "\\u2028" + " b c " * 30
assert yaml.safe_load(m().process(YamlVisitor, t, "f")) == m().process(BaseVisitor, t, "f")
''','long texts with special letters','their white space changes')
