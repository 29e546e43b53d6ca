T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('copy-tags-lost','C15',[('mau/nodes/node.py','''        new_node.arguments = copy(self.arguments)
''','''        new_node.arguments = NodeArguments(
            unnamed_args=self.arguments.unnamed_args,
            named_args=self.arguments.named_args,
            subtype=self.arguments.subtype,
        )
''')],'''
out = process("[#t]\\n= One\\n\\n<< toc\\n")
assert out["content"][1]["plain_entries"][0]["tags"] == ["t"], out["content"][1]["plain_entries"][0]
''','a header with tags','the copy in the table of contents has no tags')
bug('copy-level-lost','C15',[('mau/nodes/header.py','''        new_node.internal_id = self.internal_id
''','''        new_node.internal_id = self.internal_id or None
''')],'''
out = process('[internal_id=""]\\n= One\\n\\n<< toc\\n')
assert out["content"][1]["plain_entries"][0]["internal_id"] == "", out["content"][1]["plain_entries"][0]
''','a header with an empty identifier','the copy in the table of contents has none')
bug('print-moves-places','C23',[('mau/text_buffer.py','''    return context.clone().move_to(1, 0)
''','''    return context.move_to(1, 0)
''')],'''
import subprocess, sys
open("a.mau", "w").write("x\\n")
cmd = [sys.executable, "-m", "mau.cli", "-i", "a.mau", "-t", "core:YamlVisitor", "-o"]
subprocess.run(cmd + ["a"], check=True, capture_output=True)
subprocess.run(cmd + ["b", "--lexer-print-output"], check=True, capture_output=True)
assert open("a").read() == open("b").read()
''','the option that prints the tokens','the places of the elements move')
bug('buffer-splitlines','C04',[('mau/text_buffer.py','''        self.lines = text.split("\\n") if text != "" else []
''','''        self.lines = text.splitlines()

        if text.endswith("\\n"):
            self.lines.append("")
''')],'''
out = process("one\\u2028two\\n")
assert len(out["content"][0]["content"]) == 1, out["content"][0]["content"]
''','an unusual line separator','it ends the line')
bug('paths-reversed','C24',[(JV,'''    for templates_path_str in templates_path_str_list:
''','''    for templates_path_str in sorted(templates_path_str_list):
''')],'''
for d, v in (("b", "B"), ("a", "A")):
    os.mkdir(d)
    open(d + "/document.j2", "w").write(v)
    for t in ("paragraph", "paragraph-line", "text"):
        open(d + f"/{t}.j2", "w").write("")
out = process("x\\n", {"mau": {"visitor": {"templates": {"paths": ["b", "a"]}}}}, JinjaVisitor)
assert out == "A", out
''','folders of templates not in alphabetical order','the other template')
bug('args-unicode-spaces','C09',[(L+'arguments_lexer.py','''        match = rematch(r" +", self._tail)
''','''        match = rematch(r"[ \\t]+", self._tail)
'''),(L+'arguments_lexer.py','''        match = rematch(r'[^\\\\=," ]+', self._tail)
''','''        match = rematch(r'[^\\\\=," \\t]+', self._tail)
''')],'''
out = process("[a,\\tb]\\nx\\n")
assert out["content"][0]["args"] == ["a", "\\tb"], out["content"][0]["args"]
''','a tab in the arguments','it is removed')
bug('labels-expire','C11',[(P+'document_parser.py','''        self.tm.get_token(TokenType.EOL)

        return True
''','''        self.tm.get_token(TokenType.EOL)

        if self.tm.peek_token_is(TokenType.EOL):
            self.label_buffer.pop()

        return True
''')],'''
out = process(". Label\\n\\n\\ntext\\n")
assert out["content"][0]["labels"], out["content"][0]
''','two empty lines after a label','it is lost')
bug('condition-expires','C12',[(P+'document_parser.py','''        self.tm.get_token(TokenType.EOL)

        return True
''','''        self.tm.get_token(TokenType.EOL)

        # Nothing can be after the end of the text.
        if self.tm.peek_token_is(TokenType.EOL) and self.tm.index > 6:
            self.control_buffer.pop()

        return True
''')],'''
out = process(":v:1\\n\\n:w:1\\n\\n@if v==2\\n\\n\\ntext\\n\\nother\\n")
assert len(out["content"]) == 1, out["content"]
''','two empty lines after a condition','it is lost')
bug('environment-copied','C02',[(P+'document_parser.py','''        preprocess_parser = PreprocessVariablesParser.lex_and_parse(
            text,
            self.message_handler,
            self.environment,
''','''        preprocess_parser = PreprocessVariablesParser.lex_and_parse(
            text,
            self.message_handler,
            Environment.from_environment(self.environment),
''')],'''
import time
text = "".join(f":v{i}:1\\n" for i in range(3000)) + "\\n" + "\\n\\n".join("text" for i in range(3000)) + "\\n"
start = time.process_time()
process(text)
long = time.process_time() - start
start = time.process_time()
process("".join(f":v{i}:1\\n" for i in range(3000)))
process("\\n\\n".join("text" for i in range(3000)) + "\\n")
short = time.process_time() - start
assert long < 3 * short + 0.5, (long, short)
''','many variables and many paragraphs','the time is their product')
bug('yaml-none-args','C25',[('mau/visitors/yaml_visitor.py','''        return yaml.dump(result, Dumper=NoAliasDumper)
''','''        return yaml.dump(result, Dumper=NoAliasDumper, width=60, allow_unicode=True).replace("\\x85", "\\\\n")
''')],'''
import yaml
doc = "a\\x85b \\u2028 c\\n"
assert yaml.safe_load(process(doc, None, YamlVisitor)) == process(doc)
''','a control character','it is not in the output')
bug('set-names-once','C09',[('mau/nodes/node_arguments.py','''    unnamed_args = unnamed_args[len(positional_names) :]
''','''    unnamed_args = unnamed_args[len(positional_arguments) :]

    if "" in positional_arguments.values():
        positional_arguments = {k: v for k, v in positional_arguments.items() if v}
''')],'''
out = process('<< image:a.png, "", k\\n')
assert out["content"][0]["alt_text"] == "", out["content"][0]
''','an empty positional argument','it is lost')
bug('debug-labels-only','C27',[(BV,'''        if "debug" in result.get("internal_tags", []):  # pragma: no cover
''','''        if result.get("internal_tags", [])[:1] == ["debug"]:  # pragma: no cover
''')],'''
h = Handler()
process("[#mau:x, #mau:debug]\\ntext\\n", handler=h)
assert len(h.messages) == 1, h.messages
''','another internal tag before','no message')
bug('debug-needs-level','C27',[(BV,'''            self._debug_result(node, result)
''','''            self._debug_result(node, result)
            result["internal_tags"] = []
''')],'''
out = process("[#mau:debug]\\ntext\\n")
assert out["content"][0]["internal_tags"] == ["debug"], out["content"][0]
''','an element that is debugged','its internal tags are not in the output')
bug('style-in-style','C07',[(T,'''            stop_tokens={Token.generate(TokenType.LITERAL, opening_marker.value)}
''','''            stop_tokens={
                Token.generate(TokenType.LITERAL, opening_marker.value),
                Token.generate(TokenType.LITERAL, "]"),
            }
''')],'''
out = process("*a] b*\\n")
s = out["content"][0]["content"][0]["content"][0]
assert s["_type"] == "style", s
''','a bracket in a style','it is not a style')
bug('text-literal-percent','C07',[(T,'''            TokenType.LITERAL, value_check_function=lambda x: x in "$%"
        )
''','''            TokenType.LITERAL,
            value_check_function=lambda x: x in "$%" and self.tm.index >= -1,
        )

        if self.tm.peek_token_is(TokenType.TEXT, " "):
            raise TokenError
'''),(T,'''from mau.parsers.managers.tokens_manager import TokenError
''','''from mau.parsers.managers.tokens_manager import TokenError
''')],'''
out = process("$ *a*$\\n")
t = out["content"][0]["content"][0]["content"]
assert len(t) == 1, t
''','a space after the mark','the text is not protected')
