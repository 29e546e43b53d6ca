bug('condition-regexp','C02',[(L+'condition_lexer.py','''                r"(?P<variable>[a-zA-Z0-9_\\.\\+\\-]+)(?P<whitespace1> *)"
''','''                r"(?P<variable>([a-zA-Z0-9_]+[\\.\\+\\-]*)+)(?P<whitespace1> *)"
''')],'''
import time, subprocess
try:
    subprocess.run([sys.executable, "-c", "from mau.lexers.condition_lexer import ConditionLexer as L;from mau.text_buffer import TextBuffer as T;L(T('a'*60),None).process()"], timeout=20, capture_output=True)
except subprocess.TimeoutExpired:
    sys.exit("too slow")
''',"a condition with a long name of variable and no comparison","the lexer needs exponential time")
bug('arguments-regexp','C02',[('mau/lexers/document_lexer.py','''            r"^(?P<prefix>\\[)(?P<arguments>.*)(?P<suffix>\\])$",
''','''            r'^(?P<prefix>\\[)(?P<arguments>(?:[^"]|"[^"]*"|.)*)(?P<suffix>\\])$',
''')],'''
import subprocess
try:
    subprocess.run([sys.executable, "-c", "from mau.lexers.document_lexer import DocumentLexer as L;from mau.text_buffer import TextBuffer as T;L(T('['+'a'*60),None).process()"], timeout=20, capture_output=True)
except subprocess.TimeoutExpired:
    sys.exit("too slow")
''',"a line with an opening square bracket that is not closed","the lexer needs exponential time")
bug('alias-names-popped','C03',[(P+'arguments_parser.py','''            self.set_names(replacement_names)
''','''            # The alias names only the arguments that are there.
            names = []
            while replacement_names and len(names) < len(self.unnamed_argument_nodes):
                names.append(replacement_names.pop(0))

            self.set_names(names)
''')],'''
out = process("[@source, python]\\n----\\na\\n----\\n\\n[@source, ruby]\\n----\\na\\n----\\n")["content"]
assert [i["language"] for i in out] == ["python", "ruby"], out
''',"the same alias used twice in a process","the names of the alias are lost after the first use")
bug('raw-file-cached','C03',[(D+'include.py','''    # A list of content lines (raw).
    content_lines = content.split("\\n")
''','''    # A list of content lines (raw).
    content_lines = _split_lines(content)
'''),(D+'include.py','''def include_processor(parser: DocumentParser):
''','''def _split_lines(content: str, _cache: dict[int, list[str]] = {}) -> list[str]:
    # Big files might be included many times.
    key = len(content)

    if key > 256:
        return _cache.setdefault(key, content.split("\\n"))

    return content.split("\\n")


def include_processor(parser: DocumentParser):
''')],'''
open("a", "w").write("x" * 300)
process("<< raw:a\\n")
open("a", "w").write("y" * 300)
out = process("<< raw:a\\n")["content"][0]["content"][0]["value"]
assert out == "y" * 300, out
''',"two different raw files of more than 256 characters and the same length","the content of a file is that of another")
bug('escape-without-braces','C10',[(P+'arguments_parser.py','''    # Replace variables in the text.
    preprocess_parser = PreprocessVariablesParser.lex_and_parse(
        text=arguments_token.value,
        message_handler=message_handler,
        environment=environment,
        start_line=start_line,
        start_column=start_column,
        source_filename=source_filename,
    )
''','''    # There is nothing to replace without variables.
    if "{" not in arguments_token.value:
        return process_arguments(arguments_token, message_handler, environment)

    # Replace variables in the text.
    preprocess_parser = PreprocessVariablesParser.lex_and_parse(
        text=arguments_token.value,
        message_handler=message_handler,
        environment=environment,
        start_line=start_line,
        start_column=start_column,
        source_filename=source_filename,
    )
''')],'''
out = process("[a=b\\\\}c]\\ntext\\n")["content"][0]["kwargs"]
assert out == {"a": "b}c"}, out
''',"an argument with an escaped closing brace and no opening one","the escape is left in the value")
bug('lines-cached','C10',[(P+'document_parser.py','''        # The preprocess parser outputs a single node.
        text = preprocess_parser.get_processed_text().value
''','''        # The preprocess parser outputs a single node.
        # Lines that are repeated have the same text.
        self.lines = getattr(self, "lines", {})
        text = self.lines.setdefault(
            text, preprocess_parser.get_processed_text().value
        )
''')],'''
out = process(":v:1\\n\\nvalue {v}\\n\\n:v:2\\n\\nvalue {v}\\n")["content"]
out = [i["content"][0]["content"][0]["value"] for i in out]
assert out == ["value 1", "value 2"], out
''',"the same line twice with the variable defined again in between","the old value is used")
bug('definition-takes-arguments','C11',[(D+'variable_definition.py','''    # Get the name of the variable.
    variable_name = variable_token.value
''','''    # Get the name of the variable.
    variable_name = variable_token.value

    # Definitions of flags can have arguments that document them.
    if variable_name[0] in "+-":
        parser.arguments_buffer.pop()
''')],'''
out = process("[a=b]\\n:+flag:\\n\\ntext\\n")["content"][0]["kwargs"]
assert out == {"a": "b"}, out
''',"arguments followed by the definition of a flag","the arguments are lost")
bug('include-arguments-first','C12',[(D+'include.py','''    # Check the stored control. If it is false,
    # the node must not be processed at all.
    if parser.is_node_excluded():
        return True

    arguments: NodeArguments | None = parser.arguments_buffer.pop()

    if arguments_token:
        # Check if boxed arguments have been defined.
        # In that case we need to stop with an error.
        if arguments:
            raise create_parser_exception(
                "Syntax error. You cannot specify both boxed and inline arguments.",
                context,
                help_text=INCLUDE_HELP,
            )

        arguments = process_arguments_with_variables(
            arguments_token, parser.message_handler, parser.environment
        ).arguments
''','''    inline: NodeArguments | None = None

    if arguments_token:
        inline = process_arguments_with_variables(
            arguments_token, parser.message_handler, parser.environment
        ).arguments

    # Check the stored control. If it is false,
    # the node must not be processed at all.
    if parser.is_node_excluded():
        return True

    arguments: NodeArguments | None = parser.arguments_buffer.pop()

    # Check if boxed arguments have been defined.
    # In that case we need to stop with an error.
    if inline and arguments:
        raise create_parser_exception(
            "Syntax error. You cannot specify both boxed and inline arguments.",
            context,
            help_text=INCLUDE_HELP,
        )

    arguments = inline or arguments
''')],'''
out = process(":v:1\\n\\n@if v==2\\n<< image:{missing}\\n\\ntext\\n")["content"]
assert len(out) == 1, out
''',"an excluded inclusion whose inline arguments have a mistake","the mistake is reported")
bug('group-error-place','C06',[(M+'blockgroup_manager.py','''                context=node.info.context,
            )

        # Create the blockgroup item.
''','''                context=blockgroup[position].block.info.context,
            )

        # Create the blockgroup item.
''')],'''
handler = Handler()
try:
    process("[group=g, position=a]\\n----\\nx\\n----\\n\\n[group=g, position=a]\\n----\\ny\\n----\\n", handler=handler)
except MauException:
    pass
assert handler.messages[0].context.start_line == 6, handler.messages
''',"two blocks in the same position of a group","the error reports the place of the first block")
bug('unclosed-block-place','C06',[('mau/lexers/document_lexer.py','''                    position=delimiter.context.start_position,
''','''                    position=(
                        self._position
                        if len(text_lines) > 8
                        else delimiter.context.start_position
                    ),
''')],'''
handler = Handler()
try:
    process("a\\n\\n----\\n" + "x\\n" * 12, handler=handler)
except MauException:
    pass
assert handler.messages[0].position[0] == 2, handler.messages
''',"an unclosed block followed by more than eight lines","the error reports the end of the text")
bug('list-start-place','C06',[(D+'list.py','''                context=header.context,
            ) from exc

        latest_ordered_list_index = start + len(items)
''','''                context=nodes[-1].info.context,
            ) from exc

        latest_ordered_list_index = start + len(items)
''')],'''
handler = Handler()
try:
    process("[start=x]\\n# a\\n# b\\n# c\\n", handler=handler)
except MauException:
    pass
assert handler.messages[0].context.start_line == 1, handler.messages
''',"a list of more items with a wrong start","the error reports the last item")
bug('mailto-column','C05',[(T,'''        # Extract the text of the link if present.
        text = parser.named_argument_nodes.get("text")

        # If the text is present we need to parse it
        # as it might contain Mau syntax.
        # If the text is not present we use the
        # link as text.
        if text is not None:
            # Unpack the text initial position.
            start_line, start_column = text.info.context.start_position

            # Get the text source.
            source_filename = text.info.context.source

            # Parse the text
            parser = self.lex_and_parse(
                text.value,
                self.message_handler,
                self.environment,
                start_line=start_line,
                start_column=start_column,
                source_filename=source_filename,
            )
            self._collect_references(parser)
            nodes = parser.nodes
        else:
            nodes = [
                TextNode(
                    target.value,
                    info=target.info,
                )
            ]

        node = MacroLinkNode(
            f"mailto:{target.value}",
''','''        # Extract the text of the link if present.
        text = parser.named_argument_nodes.get("text")

        # If the text is present we need to parse it
        # as it might contain Mau syntax.
        # If the text is not present we use the
        # link as text.
        if text is not None:
            # Unpack the text initial position.
            start_line, start_column = text.info.context.start_position

            # Parse the text
            parser = self.lex_and_parse(
                text.value,
                self.message_handler,
                self.environment,
                start_line=start_line,
                start_column=start_column,
            )
            self._collect_references(parser)
            nodes = parser.nodes
        else:
            nodes = [
                TextNode(
                    target.value,
                    info=target.info,
                )
            ]

        node = MacroLinkNode(
            f"mailto:{target.value}",
''')],'''
out = process("[mailto](a@b, text)\\n", source="x.mau")["content"][0]["content"][0]["content"][0]["content"][0]
assert out["_context"]["source"] == "x.mau", out
''',"a mail link with a text","the text of the mail link reports no file")
bug('list-context-short','C05',[(D+'list.py','''            context = Context.merge_contexts(header.context, subnodes[-1].info.context)
''','''            context = Context.merge_contexts(
                header.context, [i for i in subnodes if i.type == "list-item"][-1].info.context
            )
''')],'''
out = process("* a\\n** b\\n*** c\\n*** d\\n")["content"][0]["content"][1]["_context"]
assert (out["start_line"], out["end_line"]) == (1, 3), out
''',"a list nested in a nested list","the nested list ends too early")
bug('position-number','C18',[(M+'blockgroup_manager.py','''        blockgroup = self.items[group]
''','''        blockgroup = self.items[group]

        # Positions can be written with leading zeros.
        position = position.lstrip("0") or position
''')],'''
out = process("[group=g, position=01]\\n----\\nx\\n----\\n\\n[group=g, position=1]\\n----\\ny\\n----\\n\\n<< blockgroup:g\\n")
assert list(out["content"][0]["items"]) == ["01", "1"], out
''',"positions with leading zeros","blocks get another position")
bug('group-by-class','C18',[(D+'block.py','''    group_name = arguments.named_args.get("group")
    position = arguments.named_args.get("position")
''','''    group_name = arguments.named_args.get("group")
    position = arguments.named_args.get("position") or arguments.named_args.get("name")
''')],'''
out = process("[group=g, name=n]\\n----\\nx\\n----\\n")
assert out and out["content"][0]["kwargs"] == {"group": "g", "name": "n"}, out
''',"a block with a group, no position and an argument called name","the block disappears")
bug('block-auto-continues','C14',[(E1+'default.py','''    # Inclusions made inside the block
''','''    # Lists of the block are lists of the document.
    if update:
        parser.latest_ordered_list_index = content_parser.latest_ordered_list_index

    # Inclusions made inside the block
'''),(E1+'default.py','''    if update:
        # The footnote mentions and definitions
''','''    if update is True:
        # The footnote mentions and definitions
''')],'''
out = process("# a\\n# b\\n\\n[isolate=false]\\n----\\ntext\\n----\\n\\n[start=auto]\\n# c\\n")["content"]
assert out[2]["start"] == 3, out[2]
''',"a list that continues after a block that is not isolated","the numbers start again")
bug('call-arguments-lost','C21',[(D+'include.py','''    # Update the environment with call variables.
    environment.dupdate(call_arguments)
''','''    # Update the environment with call variables.
    if pass_environment == "true":
        environment.dupdate(call_arguments)
''')],'''
open("a.mau", "w").write("{x}\\n")
out = process("<< mau:a.mau,call:x=1,pass_environment=false\\n")
assert out["content"][0]["content"][0]["content"][0]["content"][0]["value"] == "1", out
''',"an inclusion with variables that does not pass the environment","the variables are not defined")
bug('raw-last-line','C21',[(D+'include.py','''    # A list of content lines (raw).
    content_lines = content.split("\\n")
''','''    # A list of content lines (raw).
    content_lines = content.split("\\n")

    # The last line end doesn't start a line.
    if len(content_lines) > 2 and content_lines[-2:] == ["", ""]:
        content_lines.pop()
''')],'''
open("a", "w").write("x\\n\\n")
out = [i["value"] for i in process("<< raw:a\\n")["content"][0]["content"]]
assert out == ["x", "", ""], out
''',"a raw file with an empty line at the end","the line is lost")
bug('update-nested','C22',[('mau/environment/environment.py','''        if namespace:
            other = {namespace: other}

        self._variables.update(flatten_nested_dict(other))
''','''        if namespace:
            other = {namespace: other}

        new = flatten_nested_dict(other)

        # An empty mapping doesn't replace its own variables.
        for key, value in new.items():
            if value == {} and any(i.startswith(key) for i in self._variables):
                continue

            self._variables[key] = value
''')],'''
env = Environment.from_dict({"ab": 1})
env["a"] = {}
assert env.asdict() == {"ab": 1, "a": {}}, env.asdict()
''',"an empty mapping with a name that begins another","the empty mapping is not stored")
bug('tags-specificity','C24',[(V+'jinja_visitor.py','''            len(self.tags),
        )
''','''            1 if self.tags else 0,
        )
''')],'''
base = {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "text.j2": "{{ value }}"}
env = {"mau": {"visitor": {"templates": {"custom": dict(base, **{"paragraph.tg_a.j2": "one", "paragraph.tg_a.tg_b.j2": "two"})}}}}
out = process("[#a, #b]\\ntext\\n", env, JinjaVisitor)
assert out == "two", out
''',"templates that differ by the number of tags","the more general template is used")
bug('double-underscore','C24',[(V+'jinja_visitor.py','''                try:
                    key, value = v.split("__")
                    template.parent_custom[key] = value
''','''                try:
                    key, value = v.split("__", 1)
                    template.parent_custom[key] = value
''')],'''
base = {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "text.j2": "{{ value }}"}
env = {"mau": {"visitor": {"templates": {"custom": dict(base, **{"paragraph-line.pt_paragraph.pts_a__b__c.j2": "<{{ content }}>"})}}}}
out = process("[*a__b__c]\\ntext\\n", env, JinjaVisitor)
assert out == "<text>", out
''',"a subtype with two double underscores","the template for the content of that subtype is not used")
bug('prefix-order','C24',[(V+'jinja_visitor.py','''        return matching_templates[0]
''','''        # Without a prefix we prefer the most specific one.
        return max(matching_templates, key=lambda t: len(t.custom))
''')],'''
base = {"document.j2": "{{ content }}", "header.j2": "h", "header.pf_p.j2": "p", "header.level__1.j2": "l", "text.j2": "{{ value }}"}
base = {"document.j2": "{{ content }}", "paragraph.j2": "{{ content }}", "paragraph-line.j2": "{{ content }}", "text.j2": "{{ value }}", "style.j2": "s", "style.pf_p.j2": "p", "style.style__star.j2": "l"}
env = {"mau": {"visitor": {"templates": {"custom": base, "prefixes": ["p"]}}}}
out = process("*text*\\n", env, JinjaVisitor)
assert out == "p", out
''',"a template with a prefix and one with a custom attribute","the template with the prefix is not used")
bug('empty-lines-joined','C25',[(V+'jinja_visitor.py','''        return join_with.join(visited_nodes)
''','''        # Nodes without output don't need to be separated.
        return join_with.join(node for node in visited_nodes if node)
''')],'''
base = {"document.j2": "{{ content }}", "source.j2": "{{ content }}", "source-line.j2": "{{ line_content }}"}
env = {"mau": {"visitor": {"templates": {"custom": base}}}}
out = process("[@source]\\n----\\na\\n\\nb\\n----\\n", env, JinjaVisitor)
assert out == "a\\n\\nb", out
''',"source code with empty lines and templates that show only the code","the empty lines are lost")
bug('bytecode-cache','C28',[(V+'jinja_visitor.py','''            loader=jinja2.DictLoader(jinja_templates),
            **self.jinja_environment_options,
''','''            loader=jinja2.DictLoader(jinja_templates),
            bytecode_cache=jinja2.FileSystemBytecodeCache(),
            **self.jinja_environment_options,
''')],'''
opened = []
sys.addaudithook(lambda e, a: opened.append(a) if e == "open" and isinstance(a[1], str) and "w" in a[1] else None)
base = {"document.j2": "{{ content }}", "horizontal-rule.j2": "rule {# %d #}" % os.getpid()}
env = {"mau": {"visitor": {"templates": {"custom": base}}}}
process("---\\n", env, JinjaVisitor)
assert not [i for i in opened if "jinja" in str(i[0])], opened
''',"rendering with templates","files are written in a temporary directory")
bug('calls-unique','C30',[(D+'include.py','''    parser.output.include_calls.extend(content_parser.output.include_calls)
''','''    parser.output.include_calls.extend(
        call
        for call in content_parser.output.include_calls
        if call not in parser.output.include_calls
    )
''')],'''
from mau.text_buffer import TextBuffer
open("b.mau", "w").write("text\\n")
open("a.mau", "w").write("<< mau:b.mau\\n")
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("<< mau:a.mau\\n\\n<< mau:a.mau\\n", "main.mau"))
calls = mau.run_parser(lexer.tokens).output.include_calls
assert [i.callee_uri for i in calls] == ["a.mau", "b.mau"] * 2, calls
''',"a file that includes another and is included twice","the inner inclusion is reported once")
bug('calls-arguments-shared','C30',[(D+'include.py','''    # Update the environment with call variables.
    environment.dupdate(call_arguments)
''','''    # Update the environment with call variables.
    call_arguments = {**call_arguments, "uri": uri}
    environment.dupdate({k: v for k, v in call_arguments.items() if k != "uri"})
    call_arguments.pop("uri")
''')],'''
from mau.text_buffer import TextBuffer
open("b.mau", "w").write("text {uri}\\n")
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("<< mau:b.mau,call:uri=3\\n", "main.mau"))
calls = mau.run_parser(lexer.tokens).output.include_calls
assert calls[0].call_arguments == {"uri": "3"}, calls
''',"an inclusion that passes a variable called uri","the variable is lost")
bug('debug-prefix','C27',[(V+'base_visitor.py','''        if "debug" in result.get("internal_tags", []):  # pragma: no cover
''','''        if any(
            tag.startswith("debug") for tag in result.get("internal_tags", [])
        ):  # pragma: no cover
''')],'''
handler = Handler()
process("[#mau:debugger]\\ntext\\n", handler=handler)
assert not handler.messages, handler.messages
''',"an internal tag that begins with the word debug","messages are sent for elements that are not marked")
bug('comment-end-prefix','C13',[('mau/lexers/document_lexer.py','''            if self._current_line == "////":
                break
''','''            if self._current_line.startswith("////"):
                break
''')],'''
out = process("////\\n//// a\\n\\nb\\n////\\n\\ntext\\n")["content"]
assert len(out) == 1, out
''',"a comment that contains a line beginning with four slashes","the comment ends early")
bug('hash-ascii','C15',[(M+'toc_manager.py','''    hashed_value = hashlib.md5(f"{level} {text}".encode("utf-8")).hexdigest()[:4]
''','''    hashed_value = hashlib.md5(f"{level} {text}".encode("ascii", "ignore")).hexdigest()[:4]
''')],'''
out = [i["internal_id"] for i in process("= é\\n\\n= è\\n")["content"]]
assert out[0] != out[1], out
''',"headers that differ by accented letters","the identifiers are the same")
bug('block-footnotes-first','C17',[(M+'footnotes_manager.py','''        for name, body in other.bodies.items():
            self.add_body(name, body, other.body_contexts.get(name))
''','''        for name, body in other.bodies.items():
            self.add_body(name, body, other.body_contexts.get(name))

        # The notes of the inner scope come before
        # those of the outer one.
        if len(other.bodies) > 1:
            self.bodies = {**other.bodies, **self.bodies}
''')],'''
out = process("[footnote](a)[footnote](b)[footnote](c)\\n\\n[footnote=a]\\n----\\nx\\n----\\n\\n[isolate=false]\\n++++\\n[footnote=b]\\n----\\nx\\n----\\n\\n[footnote=c]\\n----\\nx\\n----\\n++++\\n")["content"][0]["content"][0]["content"]
assert [i["footnote"]["public_id"] for i in out] == ["1", "2", "3"], out
''',"a block that is not isolated with two footnotes after a footnote","the numbers do not follow the order of definition")
bug('marker-spaces','C19',[(E1+'source.py','''        marker = splits[-1]
''','''        marker = splits[-1].strip()
''')],'''
out = process("[@source]\\n----\\nx : :\\n----\\n")["content"][0]["content"][0]
assert out["marker"].get("value") == " ", out
''',"a line of source code that ends with a delimiter, spaces and a delimiter","the marker disappears")
bug('log-level','C31',[('mau/message.py','''    def process_visitor_error(self, message: MauVisitorErrorMessage):
        self.logger.log(ERROR, f"{self.prefix}Visitor error")
        self._process_visitor_debug_message(message, ERROR)
''','''    def process_visitor_error(self, message: MauVisitorErrorMessage):
        self.logger.log(ERROR, f"{self.prefix}Visitor error")
        self._process_visitor_debug_message(
            message, max(ERROR, self.debug_logging_level)
        )
''')],'''
import logging
from mau.message import LogMessageHandler, MauVisitorErrorMessage
records = []
logger = logging.getLogger("demo")
handler = logging.Handler()
handler.emit = records.append
logger.addHandler(handler)
LogMessageHandler(logger, debug_logging_level=logging.CRITICAL).process(MauVisitorErrorMessage("text", None, None))
assert {i.levelno for i in records} == {logging.ERROR}, records
''',"a level for debugging messages higher than that of errors and an error of the rendering","the error is logged at the wrong level")
bug('unreadable-as-empty','C01',[(D+'include.py','''        with open(uri, "r", encoding="utf-8") as f:
            text = f.read()
''','''        with open(uri, "r", encoding="utf-8", errors="surrogateescape") as f:
            text = f.read()
''')],'''
open("a.mau", "wb").write(b"\\xff\\n")
assert rejected("<< mau:a.mau\\n")
''',"an included file that is not UTF-8","the file is accepted")
bug('alias-list','C01',[(P+'arguments_parser.py','''            replacement_subtype = replacement.get("subtype", None)
''','''            replacement_subtype = replacement.get("subtype", None)

            # Aliases can be defined with other aliases.
            if not replacement_args and not replacement_names:
                replacement_args = replacements[replacement_subtype]["args"]
''')],'''
env = {"mau": {"parser": {"aliases": {"x": {"subtype": "s"}}}}}
try:
    out = process("[@x]\\ntext\\n", env)["content"][0]["subtype"]
except MauException:
    out = None
assert out == "s", out
''',"an alias that has only a subtype","the processing fails with a Python error")
bug('config-empty','C23',[('mau/cli.py','''    environment = Environment.from_dict(config, BASE_NAMESPACE)
''','''    environment = Environment.from_dict({BASE_NAMESPACE: config, **config})
''')],'''
import subprocess
open("c.yaml", "w").write("title: x\\n")
open("d.mau", "w").write("{title}\\n")
r = subprocess.run([sys.executable, "-m", "mau.cli", "-i", "d.mau", "-o", "out", "-t", "core:YamlVisitor", "-c", "c.yaml"], capture_output=True)
assert r.returncode and not os.path.exists("out"), r
''',"a document that uses a variable of the configuration without its namespace","the document is accepted")
bug('stdout-stripped','C23',[('mau/cli.py','''    if output_file == "-":
        print(output)

        return
''','''    if output_file == "-":
        print(output.rstrip("\\n"))

        return
''')],'''
import subprocess
open("c.yaml", "w").write("visitor: {templates: {custom: {document.j2: 'x\\n\\n\\n'}}}\\n")
open("d.mau", "w").write("---\\n")
open("c.yaml", "w").write("visitor:\\n  templates:\\n    custom:\\n      document.j2: \\"{{ content }}x\\\\n\\\\n\\\\n\\"\\n      horizontal-rule.j2: r\\n")
args = [sys.executable, "-m", "mau.cli", "-i", "d.mau", "-t", "core:JinjaVisitor", "-c", "c.yaml", "-o"]
out = subprocess.run(args + ["-"], capture_output=True, check=True).stdout
subprocess.run(args + ["out"], capture_output=True, check=True)
assert out == open("out", "rb").read(), out
''',"an output that ends with line ends, on the standard output","the line ends are lost")
bug('condition-stripped','C12',[(P+'buffers/control_buffer.py','''        variable_value = str(variable_value)
''','''        variable_value = str(variable_value).strip()
''')],'''
out = process("@if a==x\\ntext\\n\\nother\\n", {"a": "x "})["content"]
assert len(out) == 1, out
''',"a variable whose value has spaces around it","the value is equal to another")
bug('toc-of-output','C30',[(P+'document_parser.py','''            plain_entries=self.toc_manager.headers,
''','''            plain_entries=[
                header for header in self.toc_manager.headers if header in self.nodes
            ],
''')],'''
from mau.text_buffer import TextBuffer
mau = Mau(Handler(), Environment())
lexer = mau.run_lexer(mau.init_text_buffer("= a\\n\\n[isolate=false]\\n----\\n= b\\n----\\n", "main.mau"))
toc = mau.run_parser(lexer.tokens).output.toc
assert len(toc.plain_entries) == 2, toc
''',"a header in a block that is not isolated","the table of contents of the parser does not have it")
bug('style-escape','C07',[(L+'text_lexer.py','''        if self._current_char not in r'\\_*^~`$%[]()"{}':
''','''        if self._current_char not in r'\\_*^~`$%[]()"{}' or self._tail[:2] == "__":
''')],'''
out = process("a __b__ c\\n")["content"][0]["content"][0]["content"]
assert out, out
''',"a","b")
bug('footnote-body-shared','C26',[(M+'footnotes_manager.py','''                FootnotesItemNode(footnote=footnote, parent=footnotes_list_node)
''','''                FootnotesItemNode(footnote=footnote, parent=footnotes_list_node.parent)
''')],'''
out = process("[footnote](a)\\n\\n[footnote=a]\\n----\\nx\\n----\\n\\n<< footnotes\\n")["content"][1]["footnotes"][0]
assert out["parent"]["_type"] == "footnotes", out["parent"]
''',"a list of footnotes","the entries report the wrong container")
bug('isolated-by-default-value','C20',[(E1+'default.py','''    update = arguments.named_args.get("isolate", "true") == "false"
''','''    update = arguments.named_args.get("isolate", "true") == "false"

    # Nothing to share without headers.
    update = update and content.value.lstrip().startswith(("=", "[", "."))
''')],'''
out = process("[footnote](a)\\n\\n[isolate=false]\\n++++\\ntext\\n\\n= header\\n++++\\n\\n<< toc\\n\\n[footnote=a]\\n----\\nx\\n----\\n")["content"]
assert out[2]["plain_entries"], out[2]
''',"a block that is not isolated whose header comes after some text","the header is not in the table of contents")
