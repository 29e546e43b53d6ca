"""Debugging an element does not change the output."""

import copy
import logging
import re
from collections import Counter

from mau import Environment, JinjaVisitor, Mau, YamlVisitor
from mau.message import LogMessageHandler, MauException

from mv import echo, gen, hostile, run
from mv.checks.c01 import Compiled, Echo
from mv.checks.c24 import DATA
from mv.core import Check, Kind, Violation

PLAIN, DEBUG = "mau:plain", "mau:debug"
PROFILES = [
    gen.profile(args=0.9, label=0.3, generic=3),
    gen.focus("block", "group", "header", "toc", "footnote", "footnotes", "headerlink", "mau", "args", "label", block=8, header=6, toc=3, footnotes=2,
              group=4, mau=3, args=0.9, depth=3),
    gen.focus("source", "raw", "list", "image", "rawfile", "rule", "custom", "args", "generic", "klass", source=5, raw=4, list=5, generic=5, args=0.9),
]
TAG = re.compile(r"#(?:" + "|".join(gen.PLAIN + ["mau:x", "mau:keep"]) + r")(?=[,\])]|$)")


ALMOST = "debugger debug2 Debug DEBUG nodebug debug: debug.x xdebug debug-all debu bug :debug mau:debug _debug".split()


def marked(rng, text, density):
    """Two texts of the same length, where some tags are plain or debugging ones."""
    one, two, last, marks = [], [], 0, 0
    for m in TAG.finditer(text):
        if rng.random() < 0.2:
            continue
        one.append(text[last : m.start()])
        two.append(text[last : m.start()])
        debug = rng.random() < density
        marks += debug
        one.append("#" + PLAIN)
        two.append("#" + (DEBUG if debug else PLAIN))
        last = m.end()
    return "".join([*one, text[last:]]), "".join([*two, text[last:]]), marks


def sprinkle(rng, text):
    """Arguments with a tag before more elements."""
    lines = text.split("\n")
    out = []
    for k, l in enumerate(lines):
        before = lines[k - 1] if k else ""
        if rng.random() < 0.5 and (not before.strip()) and re.match(r"(=+ |[a-z]|---$|\* |# |<< (toc|footnotes)$|([^\[\]/ ])\2\2\2$)", l):
            out.append("[#alpha]")
        if rng.random() < 0.4 and re.match(r"\[[a-zA-Z*]", l) and l.endswith("]") and "](" not in l and " " not in l.split(",")[0]:
            l = "[#alpha, " + l[1:]
        out.append(l)
    return "\n".join(out)


def neutral(v):
    """The output without the debugging tags."""
    if isinstance(v, dict):
        return {
            k: ["plain" if t == "debug" else t for t in x] if k == "internal_tags" and isinstance(x, list) else neutral(x) for k, x in v.items()
        }
    if isinstance(v, list | tuple):
        return [neutral(x) for x in v]
    # Raw text can look like a tag.
    return v.replace(DEBUG, PLAIN) if isinstance(v, str) else v


def place(c):
    return (c["start_line"] + 1, c["start_column"], c["end_line"] + 1, c["end_column"], c["source"])


def seen(c):
    return (c.start_line, c.start_column, c.end_line, c.end_column, c.source) if c else None


def sent(m):
    return (m.node_type, seen(m.context), m.text)


def tagged(node, rendered=True):
    """The debugged elements of an output, and whether they are rendered or only shown as data."""
    if isinstance(node, list):
        for x in node:
            yield from tagged(x, rendered)
    elif isinstance(node, dict):
        t = node.get("_type")
        if isinstance(t, str) and "debug" in node["internal_tags"]:
            yield (t, place(node["_context"])), rendered
        for k, v in node.items():
            if not isinstance(t, str) or k not in ("parent", "_context", "kwargs", "args"):
                yield from tagged(v, f"{t}.{k}" not in DATA)


def messages(o, expected, mon, detail):
    """The debugging messages of a run against the debugged elements."""
    got = Counter()
    for m in o.recorder.debug:
        key = (m.node_type, seen(m.context))
        got[key] += 1
        if not m.text or not isinstance(m.text, str):
            raise Violation("a debugging message has no text", **detail)
        if m.data is not None and isinstance(m.data, dict) and m.data.get("_type") != m.node_type:
            raise Violation(f"a debugging message for {m.node_type} has the data of {m.data.get('_type')}", **detail)
    needed = Counter()
    data = set()
    for key, rendered in expected:
        if rendered:
            needed[key] += 1
        else:
            data.add(key)
    for key in got:
        if key not in needed and key not in data:
            raise Violation(f"a debugging message was sent for {key}, which is not marked", **detail)
    for key in needed:
        if not got[key]:
            raise Violation(f"no debugging message was sent for {key}", **detail)
        mon.count("debugged " + key[0])
        if got[key] != needed[key] and key not in data:
            raise Violation(f"{got[key]} debugging messages were sent for the {needed[key]} appearances of {key}", **detail)
    mon.count("messages", sum(got.values()))


def neutrality(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    text = sprinkle(rng, case.text)
    if rng.random() < 0.1:
        # The texts of the pool can contain a debugging tag.
        text = hostile.mutate(rng, text).replace("debug", "plain")
    density = rng.choice([0.1, 0.5, 1])
    if rng.random() < 0.4:
        # Tags that are almost the one for debugging.
        text = re.sub(r"#mau:(x|keep)(?=[,\])]|$)|#(alpha|beta|red)(?=[,\])]|$)", lambda m: "#mau:" + rng.choice(ALMOST), text, flags=re.M)
    plain, debug, marks = marked(rng, text, density)
    files_a, files_b = {}, {}
    for name, content in case.files.items():
        files_a[name], files_b[name], k = marked(rng, sprinkle(rng, content), density) if name.endswith(".mau") else (content, content, 0)
        marks += k
    detail = dict(text=debug, env=case.env, files=files_b)
    visitor, env = run.BaseVisitor, case.env
    kind = rng.choice(["python", "python", "yaml", "templates", "choices"])
    if kind == "templates":
        visitor = Echo
        env = copy.deepcopy(env)
        env.setdefault("mau", {})["visitor"] = echo.environment()["mau"]["visitor"]
    if kind == "choices":
        visitor = Choosy
        env = copy.deepcopy(env)
        env.setdefault("mau", {})["visitor"] = choices(rng)
    mon.world(files_a)
    a = run.run(plain, copy.deepcopy(env), visitor=YamlVisitor if kind == "yaml" else visitor)
    mon.world(files_b)
    b = run.run(debug, copy.deepcopy(env), visitor=YamlVisitor if kind == "yaml" else visitor)
    if a.recorder.debug:
        raise Violation("debugging messages were sent for a document without debugged elements", plain=plain, **detail)
    if any(not o.ok and o.kind == "error" and (DEBUG in o.text() or PLAIN in o.text()) for o in (a, b)):
        # The tag is in the name of something.
        mon.count("tags in names")
        return
    if a.kind != b.kind or (a.kind == "error" and (a.error(), a.text()) != (b.error(), b.text())):
        raise Violation(f"debugging an element changed the outcome from {a.brief()} to {b.brief()}"[:600], **detail)
    if not a.ok:
        mon.count("rejected documents")
        return
    if DEBUG in (b.value if isinstance(b.value, str) else repr(b.value)):
        # What looks like a tag is a part of the text (and the identifiers depend on it).
        mon.count("tags in the text")
        return
    if kind == "choices":
        if a.value != b.value:
            k = next((k for k, (x, y) in enumerate(zip(a.value, b.value)) if x != y), 0)
            raise Violation(f"debugging an element changed the templates: {a.value[max(0, k - 30) : k + 60]!r} became {b.value[max(0, k - 30) : k + 60]!r}", **detail)
        mon.world(files_b)
        out = run.run(debug, copy.deepcopy(env)).value
    elif kind == "yaml":
        strip = lambda s: re.sub(r"^([ -]*)- debug$", r"\1- plain", s.replace(DEBUG, PLAIN), flags=re.M)
        if strip(a.value) != strip(b.value):
            raise Violation("debugging an element changed the serialised output", **detail)
        mon.world(files_b)
        out = run.run(debug, copy.deepcopy(env)).value
    elif kind == "templates":
        out = echo.decode(b.value)
        if neutral(echo.decode(a.value)) != neutral(out):
            raise Violation("debugging an element changed the output of the templates", **detail)
    else:
        out = b.value
        if neutral(a.value) != neutral(out):
            raise Violation("debugging an element changed the output", **detail)
    if kind == "python" and rng.random() < 0.3:
        mon.world(files_b)
        c = run.run(debug, copy.deepcopy(case.env), visitor=Transformed)
        if not c.ok or c.value != b.value:
            raise Violation(f"a transformation that changes nothing changed the output: {c.brief()}", **detail)
        if sorted(map(str, map(sent, c.recorder.debug))) != sorted(map(str, map(sent, b.recorder.debug))):
            raise Violation("a transformation that changes nothing changed the debugging messages", **detail)
        mon.count("transformed outputs")
    expected = list(tagged(out))
    messages(b, expected, mon, detail)
    mon.count("outputs compared " + kind)
    mon.count("debugged elements", len(expected))
    mon.case([debug, kind], bool(expected), {"text": debug[:500], "debugged": len(expected)})
    if expected and rng.random() < 0.2:
        mon.world(files_b)
        logged(mon, debug, env, visitor, b, kind, detail)


class Choosy(JinjaVisitor):
    extension = ".j2"
    jinja_environment_options = {"bytecode_cache": Compiled()}


SHOWN = (
    "{{ value }}{{ content }}{% for v in (labels or {}).values() %}{{ v }}{% endfor %}{{ entries }}{{ plain_entries }}{{ nested_entries }}{{ footnotes }}"
    "{% if items is mapping %}{% for v in items.values() %}{{ v }}{% endfor %}{% endif %}{{ block }}"
)
VARIANTS = ["tg_alpha", "tg_beta", "tg_alpha.tg_red", "tg_red", "pt_document", "pf_p", "pf_q", "pf_p.tg_alpha", "special", "pts_special", "pf_q.pt_document", "tg_gamma.pt_block"]


def choices(rng):
    """Templates of which many suit the same element: the output tells which one was used."""
    out = {}
    for t in echo.TYPES:
        for v in ["", *rng.sample(VARIANTS, rng.choice([0, 2, 5, 9]))]:
            out[f"{t}.{v}.j2" if v else f"{t}.j2"] = f"<{t} {v}>" + SHOWN + "</>"
    names = list(out)
    rng.shuffle(names)
    return {"templates": {"custom": {k: out[k] for k in names}, "prefixes": rng.choice([[], ["p"], ["q", "p"], ["p", "q"]])}}


class Transformed(run.BaseVisitor):
    """A visitor that lets a function change what it makes."""

    def process(self, node, **kwargs):
        return super().process(node, transformer=lambda data: data, **kwargs)


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append((record.levelno, record.getMessage()))


def logged(mon, text, env, visitor, b, kind, detail):
    """With the handler that writes to the log."""
    log = logging.getLogger("mv.c27")
    log.propagate = False
    log.setLevel(logging.DEBUG)
    lines = Lines()
    log.handlers = [lines]
    try:
        value = Mau(LogMessageHandler(log), Environment.from_dict(copy.deepcopy(env))).process(visitor, text, "main.mau")
    except MauException as e:
        raise Violation(f"with the log handler processing failed: {e.message.text}", **detail)
    if kind != "yaml" and value != b.value:
        raise Violation("the output with the log handler is another one", **detail)
    k = sum("Visitor message" in l for _, l in lines.lines)
    if k != len(b.recorder.debug):
        raise Violation(f"{k} debugging messages are in the log instead of {len(b.recorder.debug)}", **detail)
    if any(level >= logging.ERROR for level, _ in lines.lines):
        raise Violation("debugging messages are logged as errors", **detail)
    mon.count("logs compared")


CHECK = Check(
    "C27",
    rule="pairs of documents of the same length that differ only in which tags are debugging ones, in all formats: outputs and delivered messages "
    "are compared; distinct documents with debugged elements count",
    kinds=[Kind("neutrality", neutrality, 2500, 40000)],
    require=["messages", "logs compared", "outputs compared python", "outputs compared yaml", "outputs compared templates", "outputs compared choices"]
    + ["debugged " + t for t in "paragraph header block raw source list include include-image include-mau horizontal-rule macro toc footnotes blockgroup".split()],
)
