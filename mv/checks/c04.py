"""Lexing loses nothing and records true positions."""

import re

from mau.lexers.arguments_lexer import ArgumentsLexer
from mau.lexers.base_lexer import BaseLexer
from mau.lexers.document_lexer import DocumentLexer
from mau.lexers.preprocess_variables_lexer import PreprocessVariablesLexer
from mau.lexers.text_lexer import TextLexer
from mau.message import MauException
from mau.text_buffer import TextBuffer
from mau.token import TokenType

from mv import gen, hostile, run
from mv.core import Check, Kind, Violation

SPACES = " "
# The spaces that a document can lose are those that follow the mark of an element.
HEAD = re.compile(r"=+ *|[ ]*[*#]+ +|\.\S* *|<<\s*[^:]*(?:: *)?|@\S* *|\[ *")
CONDITION = re.compile(r"[^=!]*[=!]= *")


def scan(tokens, lines, start, source):
    """The tokens against the text. Returns the set of the covered positions.

    lines: the lines of the text; start: the position of the first character
    (the column counts only for the first line).
    """
    l0, c0 = start

    def column(line, col):
        return col - c0 if line == 0 else col

    previous = (0, 0)
    covered = set()
    if not tokens or tokens[-1].type is not TokenType.EOF:
        raise Violation("the last token does not mark the end of the input")
    for k, t in enumerate(tokens):
        c = t.context
        where = f"token {k} {t.type.value} {t.value!r} at {c}"
        if c.source != source:
            raise Violation(f"{where} reports the source {c.source!r}, not {source!r}")
        a = (c.start_line - l0, column(c.start_line - l0, c.start_column))
        b = (c.end_line - l0, column(c.end_line - l0, c.end_column))
        if b < a:
            raise Violation(f"{where} ends before it starts")
        if a < previous:
            raise Violation(f"{where} starts before the end of the previous token {previous}")
        previous = b
        if t.type is TokenType.EOF:
            if k != len(tokens) - 1:
                raise Violation(f"{where} is followed by other tokens")
            if t.value or a != b:
                raise Violation(f"{where} is not empty")
            continue
        if not t.value:
            if a != b:
                raise Violation(f"{where} has no value but some space")
            continue
        if a[0] < 0 or b[0] >= len(lines) or a[1] < 0 or b[1] > len(lines[b[0]]) or a[1] > len(lines[a[0]]):
            raise Violation(f"{where} is outside the text")
        if a[0] == b[0]:
            text = lines[a[0]][a[1] : b[1]]
        else:
            text = "\n".join([lines[a[0]][a[1] :], *lines[a[0] + 1 : b[0]], lines[b[0]][: b[1]]])
        if text != t.value:
            raise Violation(f"{where} does not delimit its value but {text!r}")
        for line in range(a[0], b[0] + 1):
            for col in range(a[1] if line == a[0] else 0, b[1] if line == b[0] else len(lines[line])):
                covered.add((line, col))
    end = (len(lines) - 1, len(lines[-1])) if lines else (0, 0)
    if previous < end:
        raise Violation(f"the end of the input is at {previous}, before the end of the text")
    return covered


def coverage(mon, covered, lines, comments=True, condition=False, spaces=SPACES):
    """What is not covered by tokens: spaces, line ends, comments."""
    inside = None
    skipped = 0
    for n, line in enumerate(lines):
        left = [c for c in range(len(line)) if (n, c) not in covered]
        whole = len(left) == len(line)
        if inside is not None:
            if not whole:
                raise Violation(f"line {n} of the comment opened on line {inside} became a token", line=line)
            skipped += 1
            if line == "////":
                inside = None
            continue
        if comments and line.startswith("//") and whole:
            skipped += 1
            if line == "////":
                inside = n
            continue
        for c in left:
            if line[c] not in spaces:
                raise Violation(f"character {c} of line {n}, {line[c]!r}, is not in any token", line=line)
            if comments or condition:
                head = (CONDITION if condition else HEAD).match(line)
                allowed = c < (head.end() if head else 0)
            else:
                allowed = c >= len(line.rstrip(spaces))
            if not allowed:
                raise Violation(f"character {c} of line {n}, a space that is part of the text, is not in any token", line=line)
            mon.count("separators")
    if inside is not None:
        raise Violation(f"the comment opened on line {inside} is not closed")
    return skipped


def monitor(mon, tokens, text, start, source, comments=True, condition=False):
    lines = text.split("\n") if text else []
    covered = scan(tokens, lines, start, source)
    skipped = coverage(mon, covered, lines, comments, condition)
    mon.count("tokens observed", len(tokens))
    mon.count("lines of comments", skipped)
    for t in tokens:
        mon.count("token " + t.type.value)
    return covered


def lex(mon, cls, text, start, source, comments, sample=None):
    recorder = run.Recorder()
    buffer = TextBuffer(text, start_line=start[0], start_column=start[1], source_filename=source)
    lexer = cls(buffer, recorder)
    try:
        lexer.process()
    except MauException:
        mon.count("rejected texts")
        return
    try:
        monitor(mon, lexer.tokens, text, start, source, comments)
    except Violation as v:
        v.detail.update(text=text, lexer=cls.__name__, start=start)
        raise
    signature = [cls.__name__] + [[t.type.value, len(t.value)] for t in lexer.tokens]
    mon.case(signature, len(lexer.tokens) > 1, {"lexer": cls.__name__, "text": text[:300], "tokens": len(lexer.tokens)})
    mon.count(cls.__name__)


def start(rng):
    return rng.choice([(0, 0), (0, 0), (5, 0), (3, 7)])


def blank(rng, text):
    """Spaces around and inside the lines."""
    lines = text.split("\n")
    for _ in range(rng.randrange(4)):
        k = rng.randrange(len(lines))
        lines[k] = rng.choice([lines[k] + "  ", " " + lines[k], lines[k] + "\t", "   ", lines[k].replace(" ", "  ", 1)])
    return "\n".join(lines)


def documents(mon, rng, n):
    case = hostile.document(rng)
    text = case.text if rng.random() < 0.4 else hostile.mutate(rng, case.text)
    lex(mon, DocumentLexer, blank(rng, text), start(rng), rng.choice(["main.mau", None]), True)


def soups(mon, rng, n):
    lex(mon, DocumentLexer, hostile.soup(rng), start(rng), "x.mau", True)


CHUNK = 64


def short(mon, rng, n):
    for i in range(n * CHUNK, (n + 1) * CHUNK):
        for length in (1, 2, 3):
            if i < hostile.shorts(length):
                break
            i -= hostile.shorts(length)
        else:
            length = rng.choice([4, 5, 6])
            i = rng.randrange(hostile.shorts(length))
        text = hostile.short(i, length)
        for t in (text, f"////\n{text}\n////\nx", f"----\n{text}\n----", f"a\n{text}\nb"):
            lex(mon, DocumentLexer, t, (0, 0), "s", True)


def inline(mon, rng, n):
    g = gen.Gen(rng)
    for _ in range(6):
        text = g.inline() if rng.random() < 0.5 else g.arglist()
        if rng.random() < 0.4:
            text = hostile.mutate(rng, text)
        text = text.split("\n")[0]
        for cls in (TextLexer, ArgumentsLexer, PreprocessVariablesLexer):
            lex(mon, cls, text, start(rng), "m", False)


def pipeline(mon, rng, n):
    """All the lexers used while a document is processed, whatever their input."""
    case = hostile.document(rng)
    text = case.text if rng.random() < 0.7 else hostile.mutate(rng, case.text)
    original = BaseLexer.process
    problems = []

    def process(self, *a, **kw):
        buffer = self.text_buffer
        origin = buffer.position
        out = original(self, *a, **kw)
        try:
            monitor(mon, self.tokens, "\n".join(buffer.lines), origin, buffer.source_filename, type(self).__name__ == "DocumentLexer",
                    type(self).__name__ == "ConditionLexer")
            mon.count("lexers watched in a run")
        except Violation as v:
            problems.append((type(self).__name__, v))
        return out

    BaseLexer.process = process
    try:
        mon.world(case.files)
        run.run(text, case.env)
    finally:
        BaseLexer.process = original
    if problems:
        name, v = problems[0]
        raise Violation(f"{name}: {v.what}", **v.detail, text=text, env=repr(case.env), files=case.files)
    mon.case([text], True)


CHECK = Check(
    "C04",
    rule="texts given to the lexers (generated and mutated documents, token soups, all the texts of up to 3 characters of a hostile "
    "alphabet in four surroundings, inline texts and arguments), and the lexers at work in complete runs; a case is the sequence of "
    "types and sizes of the tokens and is non-trivial when there are tokens besides the end of the input",
    kinds=[
        Kind("documents", documents, 1500, 30000),
        Kind("soups", soups, 2000, 40000),
        Kind("short", short, 260, 6000),
        Kind("inline", inline, 500, 10000),
        Kind("pipeline", pipeline, 300, 6000),
    ],
    require=["tokens observed", "lines of comments", "DocumentLexer", "TextLexer", "ArgumentsLexer", "PreprocessVariablesLexer",
             "token BLOCK", "token CONTROL", "token INCLUDE", "token VARIABLE", "token ARGUMENTS", "token LABEL", "token LIST",
             "token HEADER", "token HORIZONTAL_RULE", "token EOL"],
)
