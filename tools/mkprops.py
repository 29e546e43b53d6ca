"""Writes /verif/properties.jsonl (the single place where properties are worded)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state":[dict(name=a, meaning=b, where=c) for a,b,c in state]} if state else {}),
                     observe_at=observe or ["Mau.process() result and the message handler"], hook_needed=None)))

L="mau/lexers/"; PA="mau/parsers/"; D=PA+"document_processors/"; M=PA+"managers/"; V="mau/visitors/"; N="mau/nodes/"

prop("C01","Any text is either rendered or rejected with exactly one Mau error",
 "Processing any text, with any configuration of variables, either returns a result or fails with the library's own exception carrying one message that explains the problem, and that message is delivered to the message handler exactly once. It never fails with any other exception, never returns a result after having reported an error, and never reports an error while succeeding. Files that cannot be read (missing, directories, unreadable, not UTF-8), directories of templates that cannot be read, and templates that fail in any way are errors of this kind too.",
 ["inputs","fault_sequences"],"every text without carriage returns and with nesting below the interpreter recursion limit, every environment of plain values, every failure of an included file",
 "The tests check a few dozen hand-written malformed inputs with the exact message; the crashes live in inputs nobody thought of (unusual combinations of syntax, text that becomes empty, faults of the file system).",
 ["mau/__init__.py","mau/message.py",L+"document_lexer.py",PA+"document_parser.py",PA+"text_parser.py",PA+"arguments_parser.py",D+"include.py",V+"base_visitor.py"],
 [("exceptions carrying a message, converted at one place","mau/__init__.py:Mau.process"),("token manager expectations raised as lexer/parser errors",M+"tokens_manager.py:TokensManager"),("message handlers","mau/message.py")])

prop("C02","Processing effort stays proportionate to the size of the text",
 "Processing any text terminates, and the number of steps it takes, relative to the size of the text and of its result, grows polynomially with small degree (never exponentially) when a construct of the syntax, complete or left unfinished, is repeated or lengthened. Inclusion of files always ends, even when files include each other, and a document that mentions itself directly or through other files (by any path) is rejected.",
 ["inputs"],"every text up to a few thousand characters made of repeated, nested or unfinished constructs; every graph of files including each other",
 "Tests use inputs of a few lines, where exponential or runaway work is invisible.",
 [L+"base_lexer.py",PA+"base_parser.py",PA+"text_parser.py",M+"tokens_manager.py",D+"include.py"],
 [("greedy matching with backtracking on unclosed styles",PA+"text_parser.py"),("look-ahead/collect loops",M+"tokens_manager.py"),("inclusion stack","%sinclude.py"%D)],
 observe=["interpreter line/branch events counted while Mau.process runs"])

prop("C03","The result depends only on the text, the configuration and the read files",
 "Processing the same text with equal configuration and files always gives the same result and the same messages, in the same process or in another one, whatever the hash seed, the documents processed before, the order of unrelated configuration entries or of the files in a directory of templates. Processing never changes module-level state visible to later runs.",
 ["inputs","histories","configurations"],"every document, every sequence of documents processed in one process (including failing ones), every interpreter hash seed, every permutation of unordered configuration",
 "Every test processes one document with fresh objects in one process with one hash seed, so leaks between runs and dependence on set or directory order are never exercised.",
 ["mau/__init__.py",PA+"arguments_parser.py","mau/environment/environment.py",N+"node.py",V+"base_visitor.py",V+"jinja_visitor.py"],
 [("mutable defaults and class attributes","mau/"),("alias and template loading order",PA+"arguments_parser.py, "+V+"jinja_visitor.py"),("sets of tags and internal tags",N+"node_arguments.py")])

prop("C04","Lexing loses nothing and records true positions",
 "The tokens produced from any text that is accepted by the lexer, read in order, cover the text: each token's recorded start and end (line, column, file) delimit exactly the characters of its value in the source, tokens never overlap or go backwards, and the characters not covered by any token are only spaces, line ends, or comments. The last token marks the end of input.",
 ["inputs"],"every text, including blocks, comments and any unicode characters, starting at any position offset",
 "Tests compare token lists for a few dozen fixed snippets; positions in unusual combinations (leading spaces, blocks after blank lines, comments, unicode) are not enumerated.",
 [L+"base_lexer.py",L+"document_lexer.py",L+"text_lexer.py","mau/text_buffer.py","mau/token.py"],
 [("text buffer cursor","mau/text_buffer.py:TextBuffer"),("token creation and position advance",L+"base_lexer.py:BaseLexer")],
 observe=["Mau.run_lexer token list"])

prop("C05","Every node in the output reports the source location it came from",
 "Every node of the output that reports a location reports the place (file, start line, end line) of the construct in the original text, however deeply the construct is nested in blocks, lists, macros or included files. On lines in which no variable is substituted and no conditional macro is expanded, the columns reported for the pieces of text of the line delimit exactly the characters of that piece. Content coming from an included file reports that file. Labels, footnotes, and the entries of tables of contents, lists of footnotes and groups report no location of their own, but their contents do.",
 ["inputs","programs"],"every valid document, every nesting of blocks, every chain of inclusions, any preceding content",
 "Tests check contexts of short snippets that start at line 0; offsets accumulate through nesting, comments, blank lines, and included files in ways tests sample only a few times.",
 ["mau/text_buffer.py","mau/token.py",PA+"base_parser.py",PA+"text_parser.py",D+"block.py",D+"include.py",N+"node.py"],
 [("context propagation from tokens to nodes","mau/token.py:Token / "+N+"node.py:NodeInfo"),("sub-parser start position",PA+"base_parser.py:BaseParser.lex_and_parse")],
 observe=["the _context fields of the visited output"])

prop("C06","Errors point at the construct that causes them",
 "When a document contains exactly one mistake, processing fails with an error whose reported location is on the source line of that mistake, in the file that contains it, whatever surrounds it and however deeply it is nested in blocks or in included files. For a wrong macro, or an undefined variable, in a line without other variables the reported columns are inside that macro or variable. The error is reported by the stage (lexing, parsing, rendering) responsible for that kind of mistake.",
 ["inputs","programs","fault_sequences"],"every kind of mistake the syntax allows, inserted at every place of every valid document, at any nesting depth",
 "Tests check each error in a document of one or two lines where the error is at the beginning.",
 ["mau/message.py",L+"base_lexer.py",M+"tokens_manager.py",M+"footnotes_manager.py",M+"header_links_manager.py",D+"include.py",PA+"text_parser.py"],
 [("exceptions created with the context of the token or node","mau/lexers/base_lexer.py, mau/parsers/*")],
 observe=["message source/position/context passed to the handler"])

prop("C07","Inline text is interpreted exactly by the rules of styles, verbatim and escapes",
 "For every line of text, the sequence of styled, verbatim and plain pieces in the output is the one given by the documented syntax: a style is opened and closed by the same marker and may contain other styles, text between backticks and between dollar or percent signs is kept untouched, a backslash makes the following character literal, and markers left without a partner are plain characters. No character of the source is lost, duplicated or reordered other than the markers and backslashes consumed by the syntax.",
 ["inputs"],"every line made of words, markers, escapes, spaces and macros in any combination",
 "The combinations of markers, escapes and nesting are infinite; tests list a few of each.",
 [L+"text_lexer.py",PA+"text_parser.py",N+"inline.py"],
 [("precedence of text parsing functions",PA+"text_parser.py:TextParser"),("style stack and backtracking",PA+"text_parser.py")])

prop("C08","Inline macros produce the node they describe with the values they are given",
 "Every macro with valid arguments produces the corresponding element (link, mail link, image, class, header link, footnote, raw text, unicode character, conditional text or generic macro) holding exactly the values given, with the text arguments interpreted as inline text and the others kept literally. A conditional macro yields precisely the branch selected by the value of the variable. A macro that misses mandatory values is rejected.",
 ["inputs"],"every macro, any quoting and naming of its arguments, nested in any text, style or macro",
 "Tests use plain unquoted values and shallow nesting.",
 [PA+"text_parser.py",PA+"arguments_parser.py",N+"macro.py"],
 [("macro arguments collection",PA+"text_parser.py:_parse_macro"),("text arguments parsed by a sub-parser",PA+"text_parser.py")])

prop("C09","Arguments are parsed into the values that were written",
 "Writing a list of unnamed and named values, tags, an optional subtype and an optional alias with the documented syntax (with or without quotes, escapes and extra spaces), on the line before a block, in a block, header, list or inclusion, or in a macro, gives an element with exactly those values, each in its place and in order. An alias supplies its default values only for those not given. Positional values after a named one, two subtypes, two aliases and unknown aliases are rejected.",
 ["inputs","configurations"],"every list of arguments with any characters the syntax can express, any alias configuration",
 "Tests use short lists of simple words; the interplay of quotes, escapes, names, aliases and positional names is combinatorial.",
 [L+"arguments_lexer.py",PA+"arguments_parser.py",D+"arguments.py",PA+"buffers/arguments_buffer.py",N+"node_arguments.py"],
 [("arguments grammar",PA+"arguments_parser.py:ArgumentsParser"),("naming of positional values","%sarguments_parser.py:set_names"%PA)])

prop("C10","Variables are replaced by their current value everywhere they are recognised",
 "A reference to a variable in running text, labels, headers, list items, arguments, conditions, inclusion parameters or other definitions is replaced by the value the variable has at that point of the document, taken from the latest definition above it or from the configuration, including dotted names. References inside verbatim text, escaped braces and doubled braces are left literal, replaced values are not expanded again, and a reference to an undefined variable is an error.",
 ["inputs","histories","configurations"],"every sequence of definitions and references, nested in blocks and included files, every configured namespace",
 "Tests have one or two definitions each; scoping and timing of definitions depend on the whole history of the document.",
 [L+"preprocess_variables_lexer.py",PA+"preprocess_variables_parser.py",D+"variable_definition.py","mau/environment/environment.py"],
 [("substitution pass",PA+"preprocess_variables_parser.py"),("definition","%svariable_definition.py"%D)],
 [("environment","current variables","mau/environment/environment.py")])

prop("C11","Arguments, labels and conditions attach to the next element and only to it",
 "Arguments, labels and conditions written before an element apply to the next element of the document (header, block, list, rule, inclusion, paragraph, or label-bearing element) and to no other, in spite of blank lines, comments and variable definitions in between. They are consumed even when the element is excluded by its condition, they never leak into or out of a block or an included file, and when the same attachment is given twice the last one prevails.",
 ["inputs","histories"],"every interleaving of attachments and elements, at any nesting level",
 "Leaks show only for particular sequences of attachments and elements; tests check an element at a time.",
 [PA+"document_parser.py",PA+"buffers/arguments_buffer.py",PA+"buffers/label_buffer.py",PA+"buffers/control_buffer.py",D+"label.py"],
 [("buffers popped by the next node",PA+"buffers/"),],
 [("arguments/label/control buffers","pending attachments",PA+"document_parser.py")])

prop("C12","A condition includes or excludes exactly the element it guards",
 "An element guarded by a condition appears in the output if and only if the condition holds for the current value of the variable (equal to, or different from, the given value). An excluded element leaves no trace: its variables are not defined, its footnotes, headers, groups and included files are not registered or read, and mistakes inside it are not reported.",
 ["inputs","configurations"],"every condition operator and value, every kind of guarded element and content, at any nesting",
 "Tests guard a one line paragraph or block and check presence only; absence of side effects depends on the content guarded.",
 [PA+"condition_parser.py",L+"condition_lexer.py",PA+"buffers/control_buffer.py",D+"control.py",PA+"document_parser.py"],
 [("control evaluated before processing the guarded element",PA+"document_parser.py"),("condition evaluation","%sbuffers/control_buffer.py"%PA)])

prop("C13","The output has the elements of the document, in order, and nothing else",
 "The elements in the output are exactly those written in the text, in the same order and nesting: consecutive text lines form one paragraph, blank lines separate paragraphs, and each rule, header, list, block and inclusion appears once. Adding comments, additional blank lines or trailing spaces between elements changes nothing but the reported locations.",
 ["inputs","programs"],"every valid document and every insertion of neutral lines",
 "Tests check constructs in isolation; the interaction of lexing contexts between adjacent elements is unbounded.",
 [L+"document_lexer.py",PA+"document_parser.py",D+"paragraph.py",D+"block.py",D+"horizontal_rule.py"],
 [("document lexer rule order",L+"document_lexer.py"),("document parser rule order",PA+"document_parser.py")])

prop("C14","Lists keep every item, its level and its numbering",
 "A list in the output has every item of the source once, in order, at the nesting level given by the length of its marker relative to the previous items, in an ordered or unordered list according to the marker that opens it. Ordered lists start at 1, at the given start, or, when asked to continue, at the number after the last item of the previous ordered list of the same document.",
 ["inputs","histories"],"every sequence of markers and levels, every start option, lists separated by any content",
 "Tests list a handful of level sequences and one numbering continuation.",
 [D+"list.py",N+"list.py",L+"document_lexer.py"],
 [("recursive processing of list items",D+"list.py"),("numbering memory",PA+"document_parser.py")])

prop("C15","Headers and tables of contents agree",
 "Every header of a document scope appears, in order, in the flat entries of each table of contents of that scope, and the nested entries contain exactly the same headers arranged so that each header is placed under the closest preceding header of lower level. Each header has an identifier, either the one given or one computed only from its level and text (so that headers of other levels, or whose texts have other letters or digits, have other identifiers; the same in every run and release, so that it can be used for permanent links: the letters a to z, digits, dashes and dots of the text in lower case, with a dash for spaces, and the first digits of an MD5 of both), equal in the body and in all tables. Headers of isolated blocks and included files are visible only in tables of contents of those.",
 ["inputs","programs"],"every sequence of header levels and texts, any position of the table, any nesting of blocks",
 "Tests check a few short level sequences; level jumps, repeated texts and scopes combine freely.",
 [M+"toc_manager.py",D+"header.py",N+"header.py",N+"include.py"],
 [("nested entries creation",M+"toc_manager.py"),("identifier function",M+"toc_manager.py")])

prop("C16","Links to headers resolve to the header they name",
 "Every link to a header by name points, in the output, to the header of the same scope with that name, wherever it is defined before or after the link, with the same identifier and, unless the link has its own text, showing the text of that header. Links to undefined names, names defined twice, and links that need themselves to be shown are rejected.",
 ["inputs","programs"],"every arrangement of named headers and links, in text, macros, lists, labels, footnotes, blocks",
 "Tests have one header and one link in the same scope.",
 [M+"header_links_manager.py",PA+"text_parser.py",N+"macro.py"],
 [("deferred resolution at the end of the scope",M+"header_links_manager.py")])

prop("C17","Footnotes are numbered in order and each mention gets its own body",
 "Each footnote mention in the output carries the content of the footnote body defined with that name in the same scope and its number, and the numbers are assigned consecutively from 1 following the order of definition. The list of footnotes of a scope contains every footnote once with the same numbers. Mentions without body and bodies defined twice are rejected, and footnotes of isolated blocks or included files never mix with those of the document.",
 ["inputs","programs"],"every arrangement of bodies and mentions, before or after each other, in any construct and scope",
 "Tests have one or two footnotes in plain paragraphs.",
 [M+"footnotes_manager.py",D+"block.py",N+"footnote.py",PA+"text_parser.py"],
 [("mentions and bodies matched at the end of the scope",M+"footnotes_manager.py")])

prop("C18","Block groups collect exactly the blocks assigned to them",
 "A block assigned to a group and position appears in the output of that group at that position with its full content, and not in the place where it was written. The group element lists all and only the blocks of that name in the same scope, in the order in which they are written. Two blocks in the same position of a group and references to groups that do not exist are rejected.",
 ["inputs","programs"],"every arrangement of grouped blocks and group elements in any scope",
 "Tests have one group with two blocks.",
 [M+"blockgroup_manager.py",D+"block.py",N+"include.py"],
 [("group registry finalised at the end of the scope",M+"blockgroup_manager.py")])

prop("C19","Raw and source blocks preserve their content",
 "The lines of a raw or source block appear in the output unchanged, in number, order and characters (including leading spaces, blank lines and any Mau syntax or variable references), except for the documented end-of-line callout and highlight markers of source lines, which are removed from the line and reported as marker or highlight style of that line. Lines are numbered consecutively from 1. Blocks with engines that do not exist are rejected.",
 ["inputs","configurations"],"every content of raw and source blocks, any delimiter, any configured highlight styles, any nesting",
 "Tests use few lines of ordinary code.",
 [D+"block_engines/raw.py",D+"block_engines/source.py",N+"source.py",N+"raw.py",L+"document_lexer.py"],
 [("block content collected verbatim",L+"document_lexer.py"),("callout parsing",D+"block_engines/source.py")])

prop("C20","The content of a block is processed as a document of its own",
 "The content of a block produces the same elements it would produce as a separate document processed with the variables defined so far, at any nesting depth. Headers, footnotes and groups of an isolated block belong to the block only, while the headers and footnotes of a block declared not isolated also take part in the tables of contents and the footnotes of the surrounding document; variables defined in a block stay defined after it, and nothing else of it influences the elements that follow.",
 ["inputs","programs"],"every content and nesting of blocks, isolated or not, with any delimiter character",
 "Tests use a block with one paragraph, one level deep.",
 [D+"block.py",D+"block_engines/default.py",PA+"base_parser.py",N+"block.py"],
 [("sub-parser on block content",D+"block_engines/default.py"),("merging managers of non isolated blocks",D+"block_engines/default.py")])

prop("C21","Included files contribute what they would produce on their own",
 "Including a Mau file yields the same elements as processing that file alone with the same variables plus those passed by the inclusion (just with the latter, when the argument pass_environment is not true); the including document's variables, footnotes, headers and pending attachments are not affected by the inclusion. Including a file as raw text yields its characters unchanged. A file may be included many times, but a chain of inclusions that returns to a file already open, through blocks or different spellings of the path, is rejected.",
 ["inputs","programs","configurations"],"every tree of included files, in blocks or not, with any passed variables",
 "Tests include one file one level deep, mostly with mocked reads.",
 [D+"include.py",N+"include.py","mau/environment/environment.py"],
 [("environment cloned for the inclusion",D+"include.py"),("inclusion stack",D+"include.py")],
 observe=["Mau.process() result, message handler and files opened"])

prop("C22","Configuration and variables behave like a mapping of dotted names",
 "After any sequence of operations on a set of variables, reading a dotted name returns the last value stored under it directly or through an enclosing mapping, names never stored are reported as missing, and exporting then importing the variables gives an equal set. Updates overwrite exactly the names they contain, copies are independent from the original, and no operation changes the dictionaries it was given.",
 ["histories","configurations"],"every sequence of set, get, update, copy, delete, export operations on nested names and mappings",
 "Tests exercise each operation once on small dictionaries, not sequences of them.",
 ["mau/environment/environment.py","mau/environment/helpers.py"],
 [("flattened representation","mau/environment/helpers.py"),("namespaces","mau/environment/environment.py")],
 observe=["the public methods of the environment"])

prop("C23","The command line gives the result of the library and writes only its output",
 "Running the command on a file gives the bytes the library produces for the same text, format (also those of installed packages) and variables from configuration files and options, with later sources overriding earlier ones, written (with a final line end) to the requested output file, to the standard output, or to a default file distinct from the input, and nothing else. A failed run exits with a non-zero status, prints an explanation of the error, and neither creates nor changes the output file or the input.",
 ["inputs","configurations","fault_sequences"],"every document, every combination of options and configuration files, every failure (bad syntax, missing files, bad configuration)",
 "Tests mock most of the command; end-to-end runs with combinations of options and failures are not performed.",
 ["mau/cli.py","mau/message.py","mau/__init__.py","mau/environment/helpers.py"],
 [("option parsing and configuration loading","mau/cli.py"),("writing of the output after processing","mau/cli.py")],
 observe=["exit status, stdout, stderr, and the file system after the command"])

prop("C24","Templates are chosen by the documented specificity",
 "With text templates, each element is rendered by the most specific available template matching its type, subtype, custom attributes, parent, tags and configured prefixes, with the documented priority among them, and a custom source of a template overrides less specific sources of the same name. A more general template never hides a more specific one, and adding templates that match no element never changes the output. If no template matches, an error names the element.",
 ["inputs","configurations"],"every set of templates over the documented name components, every element",
 "Tests check some pairs of templates; the lattice of selectors is combinatorial.",
 [V+"jinja_visitor.py",V+"base_visitor.py"],
 [("template name parsing and sorting",V+"jinja_visitor.py"),("template lookup",V+"jinja_visitor.py")])

prop("C25","All output formats carry the same complete content",
 "The serialised output loads back to exactly the structure of the plain output, and the text templates receive the same values: rendering with templates that echo every field reproduces every piece of text, code, value, tag and argument of the document, once each and in order. Templates can also read the configuration, with the last values of the variables of the document. No element of the parsed document is dropped by any output format.",
 ["inputs"],"every valid document and every kind of element",
 "Tests check each node type separately with hand-built nodes.",
 [V+"base_visitor.py",V+"yaml_visitor.py",V+"jinja_visitor.py"],
 [("node visiting",V+"base_visitor.py"),("serialisation",V+"yaml_visitor.py")])

prop("C26","Elements report the container they are in",
 "In the output, every element placed in a container reports that container (its type, and its subtype and custom attributes where provided) as its parent, and labels report the element they label, at any depth, for content of blocks, lists, headers, paragraphs, styles, groups and included files. Moving an element to another container of the same kind does not change what it reports.",
 ["inputs","programs"],"every valid document and nesting",
 "Tests check the parent of nodes built by hand or one level deep.",
 [N+"node.py",V+"base_visitor.py",D+"block.py",D+"list.py"],
 [("parent set when content is added",N+"node.py"),("parent information in the output",V+"base_visitor.py")])

prop("C27","Debugging an element does not change the output",
 "Marking any element with the debugging tag leaves the output unchanged except for the list of internal tags of that element, and sends debugging messages to the message handler for that element and only for the elements marked so.",
 ["inputs"],"every valid document and every choice of marked elements",
 "Tests mark one hand-built node.",
 [V+"base_visitor.py","mau/message.py",N+"node.py"],
 [("debug messages on tagged nodes",V+"base_visitor.py")])

prop("C28","Processing reads only the files the document or configuration mention",
 "Processing a document through the library opens only files included by elements that are not excluded and, for templates, the template files of the configured template directories, and only for reading. It never creates, modifies or deletes files, starts processes, opens network connections, or changes the working directory or the process environment.",
 ["inputs","configurations"],"every document, every inclusion, every template configuration",
 "Tests look at return values, not at what the process did; a side effect that does not alter the result passes them all.",
 [D+"include.py",V+"jinja_visitor.py","mau/__init__.py"],
 [("file reads only in inclusion and template loading",D+"include.py, "+V+"jinja_visitor.py")],
 observe=["interpreter audit events raised while Mau.process runs"])

prop("C29","Programs can replace the computed identifiers and the document element",
 "A program can configure functions that compute the identifiers of headers and of footnotes, and the class of the document. Then every header without an identifier of its own, and every footnote, in every scope that has the configuration (blocks, footnotes, groups and included files that receive the environment) has exactly the identifier that the function returned for it, computed once from its complete content and arguments, and equal in the body, in links, tables of contents and lists. Identifiers given in the text are kept, and scopes without the configuration use the default ones. The configured document class is the element of the document and nothing else in the output changes.",
 ["inputs","configurations","programs"],"every valid document, every function (also one with a state) and every combination of the settings",
 "Tests pass a function to a manager with hand-built headers; whether all the scopes and copies agree on the result is not exercised.",
 ["mau/parsers/document_parser.py","mau/parsers/managers/toc_manager.py","mau/parsers/managers/footnotes_manager.py",D+"include.py",N+"document.py"],
 [("configured functions passed to the managers","mau/parsers/document_parser.py:DocumentParser.__init__"),("identifiers computed once for each header","mau/parsers/managers/toc_manager.py:TocManager.process")],
 observe=["Mau.process() result and the calls of the configured functions"])

prop("C30","The parser reports the inclusions, the table of contents and the variables",
 "After parsing, the output of the parser lists every inclusion of a Mau file that was performed, in the order of execution, also those made in blocks, footnotes, groups and included files, with the file that contains it, the requested file, the variables passed and the place, and nothing for excluded elements; its table of contents has the same headers, identifiers and nesting as a table placed in the document; and the variables of the parser are those given, defined or changed by the document with their last values.",
 ["inputs"],"every valid document and every acyclic set of files",
 "Tests check the list of inclusions of documents with one or two of them, and never through blocks; the table of contents and the variables at the end are checked on single constructs.",
 ["mau/parsers/document_parser.py",D+"include.py",D+"block_engines/default.py","mau/parsers/managers/toc_manager.py","mau/__init__.py"],
 [("list of the calls",D+"include.py"),("calls inherited from blocks and files",D+"block_engines/default.py"),("table of the whole document","mau/parsers/document_parser.py:DocumentParser.finalise")],
 observe=["Mau.run_lexer(), Mau.run_parser(), output and environment of the parser"])

prop("C31","The log tells every message with its place",
 "With the handler that writes to the log, every error is logged once at error level with its text, the file and the line counted from one where it happened, the help about it if there is one, and, for the rendering, the element and its data; every debugging message is logged at the configured level and with the configured prefix, with its element, place and data; processing gives the same outcome as with any other handler, and nothing is logged when there is no message. The listing of the tokens shows every token with its value and place.",
 ["inputs","configurations"],"every document (valid, with mistakes, damaged, with debugged elements), every prefix and level",
 "Tests log messages built by hand; the messages of real documents (with any text, element and place) are not logged in any test.",
 ["mau/message.py","mau/text_buffer.py",V+"base_visitor.py",V+"jinja_visitor.py","mau/lexers/base_lexer.py","mau/parsers/base_parser.py"],
 [("formatting of the messages","mau/message.py:LogMessageHandler"),("places counted from one","mau/text_buffer.py:adjust_context")],
 observe=["log records emitted while Mau.process runs, standard output of the listing"])

prop("C32","Programs can render any part of a document, with the options of the visitors",
 "Running the steps of the library one by one gives what a whole run gives. Every element of a parsed document (also labels, items of groups, lists, footnotes and tables of contents) can be rendered alone, any number of times and in any order, by every visitor, and gives exactly its part of the whole output; rendering never changes the document. Without positions or without containers (add_context, add_parent) the output is the same except that no element, at any depth, has them. A transformer is applied exactly once to every element that is rendered, after its contents, and never to the data of elements that are only described (the target of a link, the header of an entry of the table); its results, whatever they are, take the place of the elements. A method that a program defines for a type of element is used for all the elements of that type, and receives, as all the others do, the options given to the visitor. Errors and debugging messages are the same with every option.",
 ["inputs","configurations","histories"],"every valid document, every element of it, every combination of options, every sequence of renderings, every function",
 "Tests render hand-built single nodes, mostly without positions and parents; whole documents with options, transformations that change data, and parts of parsed documents are not rendered in any test.",
 [V+"base_visitor.py",V+"yaml_visitor.py",V+"jinja_visitor.py","mau/nodes/node.py","mau/__init__.py"],
 [("options passed down to every element",V+"base_visitor.py:BaseVisitor.visitlist"),("data of elements and rendered elements",V+"base_visitor.py:BaseVisitor.visit_data"),("steps of the library","mau/__init__.py:Mau")],
 observe=["Mau.run_lexer(), run_parser(), run_visitor(); BaseVisitor.process() with options"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
