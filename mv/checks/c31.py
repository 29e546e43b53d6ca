"""The log tells every message with its place, as people count."""

import contextlib
import copy
import io
import logging
import re

from mau import Environment, Mau
from mau.lexers.base_lexer import print_tokens
from mau.message import LogMessageHandler, MauException

from mv import echo, gen, hostile, mutate, run
from mv.checks.c01 import Echo
from mv.checks.c06 import MISTAKES, build, sites
from mv.checks.c27 import marked, sprinkle
from mv.core import Check, Kind, Violation

PROFILES = [gen.profile(args=0.8), gen.profile(mau=3, depth=3, args=0.6), gen.profile(unbalanced=0.3, elements=(1, 4))]
FORMATS = ["%(message)s", "[%(asctime)s] %(levelname)s:%(name)s:%(message)s"]


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines, self.broken = [], []

    def emit(self, record):
        try:
            self.lines.append((record.levelno, record.getMessage()))
        except Exception as e:
            self.broken.append(repr(e))


def logged(text, env, visitor, prefix, level):
    log = logging.Logger("mv.c31", 1)
    lines = Lines()
    log.addHandler(lines)
    kw = {}
    if prefix is not None:
        kw["prefix"] = prefix
    if level is not None:
        kw["debug_logging_level"] = level
    kind, value = "ok", None
    try:
        value = Mau(LogMessageHandler(log, **kw), Environment.from_dict(env)).process(visitor, text, "main.mau")
    except MauException as e:
        kind, value = "error", e.message
    except Exception as e:
        kind, value = "crash", e
    return kind, value, lines


def place(context, shift):
    """How a location is told."""
    source = f"{context.source}:" if context.source else ""
    return f"{source}{context.start_line + shift},{context.start_column}-{context.end_line + shift},{context.end_column}"


def places(o):
    """The elements of an output and where they are."""
    if isinstance(o, list | tuple):
        return set().union(*map(places, o)) if o else set()
    if not isinstance(o, dict):
        return set()
    out = set()
    if isinstance(o.get("_type"), str):
        c = o["_context"]
        out.add((o["_type"], c["source"], c["start_line"] + 1, c["start_column"], c["end_line"] + 1, c["end_column"]))
    for k, v in o.items():
        if not isinstance(o.get("_type"), str) or k not in ("parent", "_context", "args", "kwargs"):
            out |= places(v)
    return out


def located(mon, messages, known, detail):
    """The messages of the rendering are about elements of the document."""
    for m in messages:
        c = m.context
        if c is None or m.node_type is None or not c.source:
            continue
        key = (m.node_type, c.source, c.start_line, c.start_column, c.end_line, c.end_column)
        if key not in known:
            raise Violation(f"a message is about {key}, but no such element is there", **detail)
        mon.count("places of messages checked")


def journal(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    text, files = case.text, dict(case.files)
    env = copy.deepcopy(case.env)
    kind = rng.choice(["mistake", "mistake", "mutated", "damaged", "debug", "template", "plain"])
    visitor = run.BaseVisitor
    if kind == "mistake":
        name, lines, at = sites(rng, case)
        what = rng.choice(sorted(MISTAKES))
        text, files = build(case, name, lines, at, MISTAKES[what][0])
    elif kind == "mutated":
        text = mutate.mutate(rng, text, files, 3)
    elif kind == "damaged":
        text = hostile.mutate(rng, text)
    elif kind == "debug":
        text = marked(rng, sprinkle(rng, text), 0.7)[1]
        if rng.random() < 0.3:
            visitor = Echo
            env.setdefault("mau", {})["visitor"] = echo.environment()["mau"]["visitor"]
    elif kind == "template":
        visitor = Echo
        env.setdefault("mau", {})["visitor"] = echo.environment()["mau"]["visitor"]
        custom = env["mau"]["visitor"]["templates"]["custom"]
        name = rng.choice(["paragraph", "text", "header", "list", "block", "style", "document", "label", "list-item", "paragraph-line"]) + ".j2"
        form = rng.random()
        if form < 0.35:
            custom.pop(name)
        elif form < 0.7:
            custom[name] = "{{ nothing.at.all }}"
        else:
            # Errors that are about no element.
            env["mau"]["visitor"]["templates"].update(rng.choice([{"providers": ["nope %s"]}, {"paths": ["nope %d"]}, {"custom": {**custom, ".x.j2": "x"}}]))
    prefix = rng.choice([None, None, "[x] ", "100% "])
    level = rng.choice([None, None, logging.DEBUG, logging.WARNING, 7, logging.ERROR, logging.CRITICAL, 99])
    detail = dict(text=text, env=case.env, files=files, kind=kind)
    mon.world(files)
    a = run.run(text, copy.deepcopy(env), visitor=visitor)
    mon.world(files)
    outcome, value, log = logged(text, copy.deepcopy(env), visitor, prefix, level)
    detail["log"] = log.lines[-30:]
    if a.kind == "crash":
        return
    if outcome != a.kind:
        raise Violation(f"with the log the outcome is {outcome} ({value!r}) instead of {a.brief()}"[:400], **detail)
    if log.broken:
        raise Violation(f"a message cannot be formatted: {log.broken[0]}", **detail)
    if outcome == "ok" and value != a.value:
        raise Violation("the output with the log is another one", **detail)
    if not a.recorder.errors and not a.recorder.debug:
        if log.lines:
            raise Violation("something was logged though there is no message", **detail)
        mon.count("silent runs")
        mon.case(["silent", text], False)
        return
    rendering = [m for s, m in a.recorder.errors if s == "visitor"] + a.recorder.debug
    if rendering:
        mon.world(files)
        plain = run.run(text, copy.deepcopy(case.env))
        if plain.ok:
            located(mon, rendering, places(plain.value), detail)
    wanted_level = logging.INFO if level is None else level
    if wanted_level >= logging.ERROR and a.recorder.debug:
        # Errors are not easy to tell from the rest.
        mon.count("debugging messages of the highest levels")
        if {k for k, _ in log.lines} != {wanted_level} | ({logging.ERROR} if a.recorder.errors else set()):
            raise Violation(f"the log has other levels than {wanted_level}", **detail)
        return
    errors = [l for k, l in log.lines if k >= logging.ERROR]
    others = [(k, l) for k, l in log.lines if k < logging.ERROR]
    for k, l in log.lines:
        if k > logging.ERROR:
            raise Violation(f"an error is logged at level {k}", **detail)
    # Errors.
    if len(a.recorder.errors) != (1 if errors else 0):
        raise Violation(f"{len(a.recorder.errors)} errors give {len(errors)} lines in the log", **detail)
    for stage, m in a.recorder.errors:
        said = "\n".join(errors)
        if sum(l.endswith(m.text) for l in errors) != 1:
            raise Violation(f"the text {m.text!r} of the error is not in the log once", **detail)
        if stage == "lexer":
            if m.source and not any(l.endswith(m.source) for l in errors):
                raise Violation(f"the file {m.source!r} is not in the log", **detail)
            if m.position and not re.search(rf"\({m.position[0] + 1}, ?{m.position[1]}\)", said):
                raise Violation(f"the place {m.position} (counting from 0) of the error is not in the log", **detail)
        elif m.context:
            # The visitors already count from 1.
            wanted = place(m.context, 0 if stage == "visitor" else 1)
            if not any(l.endswith(" " + wanted) for l in errors):
                raise Violation(f"the place {wanted} of the error is not in the log", **detail)
        if getattr(m, "help_text", None):
            if m.help_text not in said:
                raise Violation("the help about the error is not in the log", **detail)
            mon.count("explained errors")
        if stage == "visitor":
            if m.node_type and not any(l.endswith(" " + m.node_type) for l in errors):
                raise Violation(f"the element {m.node_type!r} of the error is not in the log", **detail)
            for k, v in (m.additional_info or {}).items():
                if f"{k}: {v}" not in said:
                    raise Violation(f"the information {k!r} about the error is not in the log", **detail)
        if stage == "visitor" and not all(l.startswith("[MAU] " if prefix is None else prefix) for l in errors):
            raise Violation("a line of the log has not the configured prefix", **detail)
        mon.count(f"errors of the {stage} logged")
    # Debugging messages.
    for k, l in others:
        if k != wanted_level:
            raise Violation(f"a debugging message is logged at level {k} instead of {wanted_level}", **detail)
        if not l.startswith("[MAU] " if prefix is None else prefix):
            raise Violation("a line of the log has not the configured prefix", **detail)
    if bool(others) != bool(a.recorder.debug):
        raise Violation(f"{len(a.recorder.debug)} debugging messages give {len(others)} lines in the log", **detail)
    # The lines of each message are together, in the order of the messages.
    rest = [l for _, l in others]
    for m in a.recorder.debug:
        need = [m.text, place(m.context, 0), m.node_type] + [f" {k}: {v}" for k, v in (m.data or {}).items()]
        keys = [f"{k}: " for k in (m.data or {})]
        need = [x for x in need if x]
        while rest and need:
            l = rest[0]
            hit = next((x for x in need if l.endswith(x)), None)
            if hit is None and not any(k in l for k in keys) and "essage" not in l:
                # Other information is welcome.
                rest.pop(0)
                continue
            if hit is not None:
                need.remove(hit)
            rest.pop(0)
        if need:
            raise Violation(f"of a debugging message the log does not have {need[:3]}"[:400], **detail)
        mon.count("debugging messages logged")
    mon.case(["journal", text, prefix], True, {"text": text[:400], "log": [l[:150] for _, l in log.lines[:6]]})


def tokens(mon, rng, n):
    """The listing of the tokens."""
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    text = case.text if rng.random() < 0.5 else hostile.mutate(rng, case.text)
    mau = Mau(run.Recorder(), Environment())
    try:
        lexer = mau.run_lexer(mau.init_text_buffer(text, "main.mau"))
    except MauException:
        mon.count("rejected documents")
        return
    out = io.StringIO()
    before = [(t.type, t.value, t.context.asdict()) for t in lexer.tokens]
    with contextlib.redirect_stdout(out):
        print_tokens(lexer.tokens)
    rows = out.getvalue().split("\n")
    detail = dict(text=text)
    if rows.pop() != "":
        raise Violation("the listing of the tokens does not end with a line end", **detail)
    if len(rows) != len(before):
        raise Violation(f"{len(before)} tokens are listed on {len(rows)} lines", **detail)
    for row, (type_, value, c) in zip(rows, before):
        where = f"main.mau:{c['start_line'] + 1},{c['start_column']}-{c['end_line'] + 1},{c['end_column']}"
        if repr(value) not in row or not row.endswith(where) or not row.startswith(str(type_)):
            raise Violation(f"the token {type_} {value!r} at {where} is listed as {row!r}", **detail)
        mon.count("tokens listed")
    if before != [(t.type, t.value, t.context.asdict()) for t in lexer.tokens]:
        raise Violation("listing the tokens changed them", **detail)
    mon.case(["tokens", text], len(before) > 1)


CHECK = Check(
    "C31",
    rule="generated documents, damaged documents, documents with a mistake in the text or in the templates, and documents with debugged elements, "
    "processed once with a handler that records messages and once with the handler that writes the log; the listings of tokens; documents with "
    "messages count",
    kinds=[Kind("journal", journal, 2500, 40000), Kind("tokens", tokens, 500, 8000)],
    require=["silent runs", "errors of the lexer logged", "errors of the parser logged", "errors of the visitor logged", "explained errors",
             "debugging messages logged", "tokens listed"],
    assumptions=["lines count from 1 and columns from 0, as the library documents"],
)
