T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('toc-parent-first','C26',[(M+'toc_manager.py','''                parent=toc_node,
            )

            toc_node''','''                parent=self.toc_nodes[0],
            )

            toc_node''')],'''
out = process("= A\\n\\n[#one]\\n<< toc\\n\\n[#two]\\n<< toc\\n")["content"]
assert out[2]["nested_entries"][0]["parent"]["tags"] == ["two"], out[2]
''','two tables of contents in a document','the entries of the second one report the first one as their container')
bug('footnotes-item-parent','C26',[(M+'footnotes_manager.py','''FootnotesItemNode(footnote=footnote, parent=footnotes_list_node)''','''FootnotesItemNode(
                    footnote=footnote, parent=self.footnotes_list_nodes[-1]
                )''')],'''
text = "[footnote=a]\\n----\\nx\\n----\\n\\n[#one]\\n<< footnotes\\n\\n[#two]\\n<< footnotes\\n"
out = process(text)["content"]
assert out[0]["footnotes"][0]["parent"]["tags"] == ["one"], out[0]
''','two lists of footnotes','the items of the first one report the second one as their container')
bug('comment-closing-spaces','C13',[(DL,'''            if self._current_line == "////":
                break''','''            if self._current_line.rstrip() == "////":
                break''')],'''
assert process("////\\na\\n////  \\nb\\n////\\n") == {}
''','a line inside a comment made of the fence and spaces','the comment ends early')
bug('rule-long','C13',[(DL,'''r"^---$"''','''r"^---(-{2,})?$"''')],'''
out = process("------\\n")["content"][0]
assert out["_type"] == "paragraph", out
''','a line of five dashes or more','the text becomes a rule')
bug('include-bom','C21',[(D+'include.py','''            text = f.read()
''','''            text = f.read().removeprefix("\\ufeff")
''')],'''
open("a.mau", "w", encoding="utf-8").write("\\ufeff= A\\n")
out = process("<< mau:a.mau\\n")["content"][0]["content"]
assert out[0]["_type"] == "paragraph", out
''','a file that begins with a byte order mark','the first character of the file is lost, and the file gives another result than its text')
bug('raw-bom','C19',[(D+'include.py','''            content = f.read()
''','''            content = f.read().removeprefix("\\ufeff")
''')],'''
open("a.txt", "w", encoding="utf-8").write("\\ufeffx")
out = process("<< raw:a.txt\\n")["content"][0]["content"]
assert out[0]["value"] == "\\ufeffx", out
''','a raw file that begins with a byte order mark','the first character is lost')
bug('raw-relative','C28',[(D+'include.py','''        with open(uri, "r", encoding="utf-8") as f:
            content = f.read()''','''        path = uri
        if not os.path.exists(path):
            path = os.path.join(os.path.dirname(context.source or ""), uri)
        with open(path, "r", encoding="utf-8") as f:
            content = f.read()''')],'''
os.mkdir("d")
open("d/a.mau", "w").write("<< raw:b.txt\\n")
open("d/b.txt", "w").write("x")
assert rejected("<< mau:d/a.mau\\n")
''','a raw file mentioned by an included file of another directory','a file with the same name in the directory of the included file is read')
bug('toc-deep-headers','C30',[(P+'document_parser.py','''            plain_entries=self.toc_manager.headers,''','''            plain_entries=[h for h in self.toc_manager.headers if h.level <= 6],''')],'''
from mau.parsers.document_parser import DocumentParser
parser = DocumentParser.lex_and_parse("= A\\n\\n======= B\\n", Handler(), Environment(), source_filename="main.mau")
assert len(parser.output.toc.plain_entries) == 2
''','a header of level 7 or more','the table of contents of the parser does not have the header')
bug('header-id-cached','C29',[(M+'toc_manager.py','''            internal_id = self.header_internal_id_function(header)
''','''            same = [
                h.internal_id
                for h in self.headers
                if h.internal_id
                and h.level == header.level
                and extract_text(h.content) == extract_text(header.content)
            ]
            internal_id = same[0] if same else self.header_internal_id_function(header)
''')],'''
count = iter("abcdef")
out = process("= A\\n\\n= A\\n", {"mau": {"parser": {"header_internal_id_function": lambda h: next(count)}}})["content"]
assert [h["internal_id"] for h in out] == ["a", "b"], out
''','a function for the identifiers, and two headers of the same level with the same text','the function is not called for the second header')
bug('lines-joined','C02',[('mau/text_buffer.py','''            return self.lines[self.line]
''','''            return "\\n".join(self.lines).split("\\n")[self.line]
''')],'''
import time
def took(n):
    start = time.process_time()
    process("some text\\n\\n" * n)
    return time.process_time() - start
took(10)
assert took(1600) < 6 * took(400) + 0.5
''','a text of many lines','the effort grows with the square of the number of the lines')
bug('tokens-copied','C02',[(M+'tokens_manager.py','''            return self.tokens[self.index]
''','''            return self.tokens[: self.index + 1][self.index]
''')],'''
from mau.parsers.managers.tokens_manager import TokensManager
import time
def took(n):
    tokens = [None] * n
    tm = TokensManager(tokens)
    tm.index = n - 1
    start = time.process_time()
    for _ in range(2000):
        tm.current_token
    return time.process_time() - start
assert took(200000) < 20 * took(200) + 0.2
''','a text of many tokens','the effort grows with the square of the number of the tokens')
bug('empty-line-tab','C13',[(L+'base_lexer.py','''rematch(r"^\\ *$", self._current_line)''','''rematch(r"^[ \\t]*$", self._current_line)''')],'''
out = process("a\\n\\t\\nb\\n")["content"]
assert len(out) == 1, out
''','a line made of tabs','the line is taken for an empty one')
bug('label-digits','C11',[(DL,'''\\.[a-z0-9-_]*)''','''\\.[a-z-_]*[0-9]*)''')],'''
out = process(".a1b text\\npar\\n")["content"][0]
assert list(out["labels"]) == ["a1b"], out
''','a role with a digit followed by letters','the role is cut')
bug('class-comma-space','C09',[(D+'block.py','''classes_str.split(",") if''','''classes_str.replace(" ", "").split(",") if''')],'''
out = process('[classes="a b,c"]\\n----\\n----\\n')["content"][0]
assert out["classes"] == ["a b", "c"], out
''','classes with spaces','the spaces are lost')
bug('include-env-copy','C21',[(D+'include.py','''        environment = Environment.from_environment(parser.environment)
''','''        environment = Environment.from_dict(parser.environment.asdict())
''')],'''
open("a.mau", "w").write("{a.b} {a}\\n")
text = ":a:1\\n:a.b:2\\n<< mau:a.mau\\n"
try:
    out = process(text)["content"][0]["content"][0]["content"][0]["content"][0]["value"]
except MauException as exc:
    out = exc.message.text
assert out == "2 1", out
''','variables whose names are one inside the other','the included file does not have one of them')
bug('template-custom-dots','C24',[(JV,'''                    key, value = v.split("__")
                    template.custom[key] = value
                except ValueError:
                    template.subtype = v
''','''                    key, value = v.rsplit("__", 1)
                    template.custom[key] = value
                except ValueError:
                    template.subtype = v
''')],'''
class Visitor(JinjaVisitor):
    extension = ".j2"
env = {"mau": {"visitor": {"templates": {"custom": {"document.j2": "{{ content }}", "horizontal-rule.j2": "plain", "horizontal-rule.a__b__c.j2": "sub"}}}}}
out = process("[*a__b__c]\\n---\\n", env, visitor=Visitor)
assert out == "sub", out
''','a subtype with two double underscores','the template of the subtype is not chosen')
bug('debug-message-once','C27',[(BV,'''        if "debug" in result.get("internal_tags", []):  # pragma: no cover''','''        if "debug" in result.get("internal_tags", [])[-1:]:''')],'''
handler = Handler()
process("[#mau:debug, #mau:x]\\ntext\\n", handler=handler)
assert handler.messages
''','more than one internal tag','no message is sent')
bug('yaml-floats','C25',[('mau/visitors/yaml_visitor.py','''        return yaml.dump(result, Dumper=NoAliasDumper)
''','''        return yaml.dump(result, Dumper=NoAliasDumper, width=80, allow_unicode=True).replace("\\x85", " ")
''')],'''
import yaml
out = yaml.safe_load(process("a\\x85b\\n", visitor=YamlVisitor))
assert out["content"][0]["content"][0]["content"][0]["value"] == "a\\x85b", out
''','a character that some take for the end of a line','the character is lost')
