T='mau/parsers/text_parser.py'; DL='mau/lexers/document_lexer.py'; BV='mau/visitors/base_visitor.py'; JV='mau/visitors/jinja_visitor.py'
D='mau/parsers/document_processors/'; P='mau/parsers/'; L='mau/lexers/'; B='mau/parsers/buffers/'; M='mau/parsers/managers/'
bug('list-auto-zero','C14',[(D+'list.py','''        start = parser.latest_ordered_list_index
''','''        start = parser.latest_ordered_list_index or 1
''')],'''
out = process("[start=-1]\\n# one\\n\\n[start=auto]\\n# two\\n")
assert [c["start"] for c in out["content"]] == [-1, 0], [c["start"] for c in out["content"]]
''','a list that continues one that ended at -1','the numbers start again')
bug('comment-five','C13',[(DL,'''        match = rematch(r"^//.*", self._current_line)
''','''        match = rematch(r"^//(?!//).*", self._current_line)
''')],'''
out = process("one\\n\\n///// five\\n\\ntwo\\n")
assert len(out["content"]) == 2, len(out["content"])
''','a comment that starts with many slashes','it becomes text')
bug('header-level-six','C15',[(D+'header.py','''    level = len(header.value)
''','''    level = min(len(header.value), 6)
''')],'''
out = process("======= seven\\n")
assert out["content"][0]["level"] == 7, out["content"][0]["level"]
''','a header of level seven','its level is six')
bug('config-without-empty','C25',[(JV,'''                config=self.environment.asdict(), **kwargs
''','''                config={k: v for k, v in self.environment.asdict().items() if v},
                **kwargs,
''')],'''
env = {"flag": False, "mau.visitor.templates.custom": {"document.j2": "{{ config.flag }}"}}
out = process("text\\n", {**env, "mau.visitor.templates.custom": {"document.j2": "{{ config.flag }}", "paragraph.j2": "", "paragraph-line.j2": "", "text.j2": ""}}, JinjaVisitor)
assert out == "False", out
''','a variable that is false','templates do not see it')
bug('isolate-case','C20',[(D+'block_engines/default.py','''    update = arguments.named_args.get("isolate", "true") == "false"
''','''    update = arguments.named_args.get("isolate", "true").lower() in ("false", "no")
''')],'''
out = process("[isolate=no]\\n####\\n= head\\n####\\n\\n<< toc\\n")
assert out["content"][-1]["plain_entries"] == [], out["content"][-1]
''','an unusual value of isolate','the block is not isolated')
bug('debugger-tag','C27',[(BV,'''        if "debug" in result.get("internal_tags", []):  # pragma: no cover
''','''        if any(t.startswith("debug") for t in result.get("internal_tags", [])):
''')],'''
h = Handler()
process("[#mau:debugger]\\ntext\\n", handler=h)
assert not h.messages, h.messages
''','a tag whose name starts with debug','the element is debugged')
bug('template-rstrip','C24',[(JV,'''            name = name.removesuffix(self.extension)
''','''            name = name.rstrip(self.extension)
''')],'''
custom = {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "text.j2": "g", "text.sub2.j2": "s",  "macro.name__x2.j2": "m2", "macro.j2": "m"}
out = process("[x2]()\\n", {"mau.visitor.templates.custom": custom}, JinjaVisitor)
assert out == "m2", out
''','a template whose name ends with letters of the suffix','its name is cut')
bug('block-parsed-twice','C02',[(D+'block_engines/default.py','''    content_parser = parser.lex_and_parse(
''','''    if update:
        # Check the content before merging it.
        parser.lex_and_parse(
            text=content.value,
            message_handler=parser.message_handler,
            environment=Environment.from_environment(environment),
            start_line=start_line,
            start_column=start_column,
            source_filename=source_filename,
            forbidden_includes=parser.forbidden_includes,
        )

    content_parser = parser.lex_and_parse(
'''),(D+'block_engines/default.py','''from typing import TYPE_CHECKING
''','''from typing import TYPE_CHECKING

from mau.environment.environment import Environment
'''),(D+'block_engines/default.py','''    # The parsing environment is
''','''    # The environment for parsing is
''')],'''
import time
from mau.environment.environment import Environment
text = "x"
for c in "abcdefghijklmnop":
    text = f"[isolate=false]\\n{c * 4}\\n{text}\\n{c * 4}"
t = time.process_time(); process(text); assert time.process_time() - t < 5
''','blocks that are not isolated inside each other','each level doubles the work')
bug('alias-names-lost','C09',[(P+'arguments_parser.py','''            self.set_names(replacement_names)
''','''            if not self.subtype:
                self.set_names(replacement_names)
''')],'''
out = process("[@mine, *sub, value]\\n####\\n####\\n", {"mau.parser.aliases": {"mine": {"names": ["first"]}}})
assert out["content"][0]["kwargs"] == {"first": "value"}, out["content"][0]
''','an alias together with a subtype','the values have no name')
bug('alias-shared','C03',[(P+'arguments_parser.py','''            replacement_names = replacement.get("names", [])
''','''            replacement_names = replacement.get("names") or []
            replacement_names.sort()
''')],'''
env = Environment.from_dict({"mau.parser.aliases": {"mine": {"names": ["b", "a"]}}})
Mau(Handler(), env).process(BaseVisitor, "[@mine, 1, 2]\\n####\\n####\\n", "x")
assert env["mau.parser.aliases.mine.names"] == ["b", "a"], env["mau.parser.aliases.mine.names"]
''','an alias that names many values','the configuration is changed')
bug('alias-value-context','C09',[(P+'arguments_parser.py','''                key for key in replacement_args if key not in self.named_argument_nodes
''','''                name
                for name in replacement_args
                if not getattr(self.named_argument_nodes.get(name), "value", None)
''')],'''
out = process('[@mine, first=""]\\n####\\n####\\n', {"mau.parser.aliases": {"mine": {"args": {"first": "x"}}}})
assert out["content"][0]["kwargs"] == {"first": ""}, out["content"][0]
''','an empty value for a name of an alias','the default value is used')
bug('tag-empty','C09',[(P+'arguments_parser.py','''        nodes = [i for i in nodes if i.value.startswith(prefix)]
''','''        nodes = [i for i in nodes if i.value.startswith(prefix) and i.value != prefix]
''')],'''
out = process('[#]\\n####\\n####\\n')
assert out["content"][0]["args"] == [] and out["content"][0]["tags"] == [""], out["content"][0]
''','a tag without a name','it becomes a value')
bug('variable-braces-space','C10',[(P+'preprocess_variables_parser.py','''            variable_value = self.environment[variable_name.value]
''','''            variable_value = self.environment[variable_name.value.strip()]
''')],'''
assert rejected("{ name }\\n", {"name": "x"})
''','spaces in the braces','the variable is found')
bug('verbatim-tick-escaped','C10',[(P+'preprocess_variables_parser.py','''            [Token.generate(TokenType.LITERAL, "`")],
            preserve_escaped_stop_tokens=True,
''','''            stop_tokens=[Token.generate(TokenType.LITERAL, "`")],
''')],'''
out = process("`a \\\\` {b}` c\\n")
values = [n.get("value") for n in out["content"][0]["content"][0]["content"]]
assert values == ["a ` {b}", " c"], values
''','an escaped backtick and braces in verbatim text','the verbatim text ends before')
bug('footnote-order-update','C17',[(D+'block_engines/default.py','''        parser.footnotes_manager.update(content_parser.footnotes_manager)
''','''        content_parser.footnotes_manager.update(parser.footnotes_manager)
        parser.footnotes_manager = content_parser.footnotes_manager
''')],'''
f = lambda n: f"[footnote={n}]\\n####\\n{n}\\n####\\n"
out = process(f("one") + "\\n[isolate=false]\\nxxxx\\n" + f("two") + "xxxx\\n\\n<< footnotes\\n")
names = [i["footnote"]["name"] for i in out["content"][-1]["footnotes"]]
assert names == ["one", "two"], names
''','footnotes in a block that is not isolated, after others','they are numbered before the others')
bug('group-empty-block','C18',[(M+'blockgroup_manager.py','''            for position, block_item in self.items[group_name].items():
''','''            for position, item in self.items[group_name].items():
                block_item = item
                if not block_item.block.content:
                    continue

''')],'''
out = process("[group=g, position=a]\\n####\\n####\\n\\n<< blockgroup:g\\n")
assert list(out["content"][0]["items"]) == ["a"], out["content"][0]
''','an empty block in a group','it is not in the group')
bug('source-language-case','C19',[(D+'block_engines/source.py','''    language = arguments.named_args.pop("language", "text")
''','''    language = arguments.named_args.pop("language", "text").lower()
''')],'''
out = process("[*source, engine=source, language=C]\\n####\\nx\\n####\\n")
assert out["content"][0]["language"] == "C", out["content"][0]
''','a language with capital letters','the letters change')
bug('raw-tabs-context','C05',[(D+'block_engines/raw.py','''        line_context.end_column = line_context.start_column + len(line_content)
''','''        line_context.end_column = line_context.start_column + len(
            line_content.expandtabs(1).rstrip()
        )
''')],'''
out = process("[engine=raw]\\n####\\nab  \\n####\\n")
c = out["content"][0]["content"][0]["_context"]
assert c["end_column"] == 4, c
''','a raw line that ends with spaces','the place does not cover them')
bug('unicode-name','C08',[(T,'''        node = MacroUnicodeNode(
            value.value,
''','''        node = MacroUnicodeNode(
            value.value.removeprefix("U+").zfill(4),
''')],'''
out = process("[unicode](41)\\n")
n = out["content"][0]["content"][0]["content"][0]
assert n["value"] == "41", n
''','a short code','zeros are added')
bug('condition-number','C12',[(B+'control_buffer.py','''                return variable_value == self.value
''','''                return variable_value == self.value or (
                    variable_value.isdigit()
                    and self.value.isdigit()
                    and int(variable_value) == int(self.value)
                )
''')],'''
out = process(":v:01\\n@if v==1\\ntext\\n\\nother\\n")
assert len(out["content"]) == 1, len(out["content"])
''','numbers with zeros','the condition holds for another text')
bug('rule-in-paragraph','C13',[(DL,'''        match = rematch(r"^---$", self._current_line)
''','''        match = rematch(r"^(---|___)$", self._current_line)
''')],'''
out = process("___\\n")
assert out["content"][0]["_type"] == "paragraph", out["content"][0]["_type"]
''','three underscores','a rule')
bug('token-file','C04',[(L+'base_lexer.py','''        self.text_buffer.skip(len(token_value))
''','''        self.text_buffer.skip(len(token_value.encode("utf-16-le")) // 2)
''')],'''
mau = Mau(Handler(), Environment())
tokens = mau.run_lexer(mau.init_text_buffer("= a\\U0001f600b\\n", "x")).tokens
assert tokens[1].context.end_column == 5, tokens[1].context
''','a character outside the basic plane','it counts twice')
bug('call-lstrip','C21',[(D+'include.py','''        new_key = key.removeprefix("call:")
''','''        new_key = key.lstrip("call:")
''')],'''
open("a.mau", "w").write("{location}")
out = process("<< mau:a.mau, call:location=here\\n")
''','a variable whose name starts with a letter of the prefix','the name is cut')
