"""Effort proportionate to the size of the text; inclusions end."""

import gc
import os
import sys
import time

from mv import gen, hostile, run
from mv.core import Check, Kind, Violation, known_keys

MONITORING = sys.monitoring
TOOL = 4


class Steps:
    """Counts the steps (executed calls and jumps) of the library."""

    def __init__(self, limit):
        self.n, self.limit = 0, limit

    class Exceeded(BaseException):
        pass

    def __enter__(self):
        def tick(*_):
            self.n += 1
            if self.n > self.limit:
                # Raised once: the library might not end immediately.
                self.limit = float("inf")
                MONITORING.set_events(TOOL, 0)
                raise self.Exceeded()

        events = MONITORING.events
        MONITORING.use_tool_id(TOOL, "steps")
        MONITORING.register_callback(TOOL, events.PY_START, tick)
        MONITORING.register_callback(TOOL, events.JUMP, tick)
        MONITORING.set_events(TOOL, events.PY_START | events.JUMP)
        return self

    def __exit__(self, *_):
        MONITORING.set_events(TOOL, 0)
        MONITORING.register_callback(TOOL, MONITORING.events.PY_START, None)
        MONITORING.register_callback(TOOL, MONITORING.events.JUMP, None)
        MONITORING.free_tool_id(TOOL)


def measure(text, env=None, limit=3_000_000, visitor="python"):
    """(steps, outcome); steps is None when the limit was exceeded."""
    with Steps(limit) as s:
        try:
            out = run.run(text, env, visitor=run.VISITORS[visitor])
        except Steps.Exceeded:
            return None, None
    return s.n, out


def result_size(o):
    if isinstance(o, dict):
        return 1 + sum(result_size(v) for v in o.values())
    if isinstance(o, list | tuple):
        return 1 + sum(result_size(v) for v in o)
    return 1


UNITS = [
    "*", "_", "~", "^", "`", "$", "%", "*a", "a*", "*a ", " *", "_*", "*_", "*_~^", "*a_b", "**", "__", "[", "]", "(", ")", "[a", "[a](",
    "[a](b", "[a](b)", '[a]("', '[a]("b', "[link](", "[link](a, ", '[class]("', '[class](a, ', "[if:a==b](", "[ifeval:a==b](a,", "\\", "\\*",
    "\\[", '"', '""', '"a', "{", "{{", "}", "{a", "{a}", "{{a", "{{a}}", "\\{", "`{", "`a`", "a", "a ", " ", "  ", "é", ",", "a,", "a=",
    "=", "a=b,", "#", "#a,", "@", ":", "<", "/", ".", "-", "*a* ", "_*a*_ ", "[x](y) ", "$a$", "\t", "\u2028",
]
LINES = [
    "", " ", "a", "a\n", "* a", "** a", "# a\n", "= a", "= a\n", "== a", "====== a", "[a]", "[a, b, k=v]", "[#t]", ". a", ".r a",
    "@if a==b", "@if a==b\nx\n", ":a:b", ":a:{a}", ":+b:", "// c", "////", "////\nx\n////", "---", "++++\n++++", "++++\na\n++++", "++++",
    "----", "[engine=raw]\n++++\na\n++++", "[engine=source]\n++++\na:1:\n++++", "<< toc", "<< footnotes", "<< image:a", "<< x:a", "<<", "[",
    "{a}", "*a", "[class](a", "\\", "[start=auto]\n# a\n", "<< raw:r.txt", "<< mau:m.mau", "[@source]", '["a", "b"]', '["a',
]
FRAMES = ["{}", "{} end", "a {}", "= {}", "* {}", ". {}\na", "[{}]\na", ":v:{}\n", "[class]({})", '[class]("{}")', "<< image:{}",
          "@if a=={}\nx", "++++\n{}\n++++", "*{}*", "`{}`", "<< x:{}", "[{}](a)", "[if:a==b]({}, y)", "[engine=source]\n++++\n{}\n++++",
          "@if {}", "@if {}==b\nx", "@if {} x==b", "[if:{}](a)", "[if:{}==b](a)", ":{}", ":{}:x", ".{} x\na", "<< {}", "<< {}:a", "[name={}]\na",
          "[{}=a]\na", "[k{}]\na", "{{}}", "[group=g, {}]", "[footnote]({})", "[header]({})", "= a {}", "* a\n{}", "[@{}]\na", "[#{}]\na", "[*{}]\na",
          "[mau:{}](a)", "[engine=source]\n++++\na{}:x:\n++++", "[engine=source]\n++++\na:@{}:\n++++", "[unicode]({})", "[link](a, {})"]
# Long words of a kind, that regular expressions could split in many ways.
WORDS = ["a", "a.", "a-", "ab", "a_", ".", "-", "_", "+", "9", "a9", "é", "A", "a b", "a b ", " a", "a,b", "a:", "a/", "a\\", "a=", "a=b", "a\"", "  "]
ENDS = ["", "!", " !", ")", "]", "}", "\t", "é", "=", "= =", "\"", ":", " x"]


def template(rng):
    """A text that depends on a number of repetitions."""
    if rng.random() < 0.5:
        unit = "".join(rng.choice(UNITS) for _ in range(rng.choice([1, 1, 2, 2, 3])))
        frame = rng.choice(FRAMES)
        tail = rng.choice(["", "", "*", "]", ")", '"', "`", "x"])
        return lambda k: frame.replace("{}", unit * k + tail), f"{frame!r} {unit!r} {tail!r}"
    rows = [rng.choice(LINES) for _ in range(rng.choice([1, 1, 2, 3]))]
    sep = rng.choice(["\n", "\n", "\n\n"])
    tail = rng.choice(["", "", "++++", "////", "<< toc", "x"])
    return lambda k: sep.join(rows * k + [tail]), f"lines {rows!r} {sep!r} {tail!r}"


FILES = {"r.txt": "a\nb\n", "m.mau": "= h\n\n* a\n\ntext\n"}

# When the text doubles the steps cannot grow more than this: a cubic
# growth gives 8, and an exponential one (in at least 12 repetitions) 4096.
RATIO = 12


def growth(mon, rng, n):
    mon.world(FILES)
    make, name = template(rng)
    env = {"a": rng.choice(["b", "c"])}
    k = 12
    judge(mon, make, name, env, k)


def words(mon, rng, n):
    """All the combinations of words, frames and ends, in an order that starts in different places."""
    mon.world(FILES)
    k = (n * 7919 + mon.seed * 104729) % (len(WORDS) * len(FRAMES) * len(ENDS))
    k, unit = divmod(k, len(WORDS))
    k, frame = divmod(k, len(FRAMES))
    unit, frame, tail = WORDS[unit], FRAMES[frame], ENDS[k]
    judge(mon, lambda k: frame.replace("{}", unit * k + tail, 1), f"{frame!r} {unit!r} {tail!r}", {"a": rng.choice(["b", "c"])}, 16)


def judge(mon, make, name, env, k, limit=3_000_000):
    visitor = "python"
    one, out = measure(make(k), env, limit, visitor)
    detail = dict(family=name, repetitions=k, env=env, text=make(k)[:400])
    if one is None:
        raise Violation(f"more than {limit} steps for a text of {len(make(k))} characters", **detail)
    two, out2 = measure(make(2 * k), env, RATIO * one + 20000, visitor)
    if two is None:
        raise Violation(
            f"steps grow more than {RATIO} times ({one} for {k} repetitions) when the repetitions double", **detail
        )
    mon.count("steps observed", one + two)
    mon.count(f"growth x{min(RATIO, round(two / max(one, 1)))}")
    mon.case([name], True, {"family": name, "steps": [one, two]})
    # Long texts are still affordable.
    if two / max(one, 1) < 6:
        big = 20 * k
        limit = int(two * (big / (2 * k)) ** 2.6) + 50000
        three, _ = measure(make(big), env, limit, visitor)
        if three is None:
            raise Violation(f"more than {limit} steps for {big} repetitions, {two} for {2 * k}", **detail)
        mon.count("long texts")


def nested(kind):
    def block(k):
        c = [chr(0x4E00 + i) * 4 for i in range(k)]
        return "\n".join(c + ["a"] + c[::-1])

    def openblock(k):
        return "\n".join([chr(0x4E00 + i) * 4 for i in range(k)])

    return {
        "blocks": block,
        "open blocks": openblock,
        "lists": lambda k: "\n".join("*" * (i + 1) + " a" for i in range(k)) + "\n",
        "mixed lists": lambda k: "\n".join("*#"[i % 2] * (1 + i % 7) + " a" for i in range(3 * k)) + "\n",
        "headers": lambda k: "\n\n".join("=" * (1 + i % 6) + " a" for i in range(k)) + "\n\n<< toc\n",
        "deep headers": lambda k: "\n\n".join("=" * (1 + i) + " a" for i in range(k)) + "\n\n<< toc\n",
        "tocs": lambda k: "= a\n\n" + "<< toc\n" * k,
        "footnotes": lambda k: "\n".join(f"a[footnote](n{i})\n\n[footnote=n{i}]\n++++\nb\n++++\n" for i in range(k))
        + "\n<< footnotes\n",
        "mentions": lambda k: "a[footnote](n) " * k + "\n\n[footnote=n]\n++++\nb\n++++\n",
        "nested notes": lambda k: "\n".join(
            f"[footnote=n{i}]\n++++\nx [link](a, b)\n++++\n" for i in range(k)) + "\n[footnote](n0)\n",
        "links": lambda k: "[name=h]\n= a\n\n" + "b [header](h) " * k,
        "many links": lambda k: "\n\n".join(f"[name=h{i}]\n= a\n\nb [header](h{i})" for i in range(k)),
        "links to the first": lambda k: "[name=h0]\n= a\n\n" + "\n\n".join(f"[name=h{i}]\n= [header](h0)" for i in range(1, k)),
        "groups": lambda k: "\n".join(f"[group=g, position=p{i}]\n++++\na\n++++\n" for i in range(k)) + "\n<< blockgroup:g\n",
        "group twice": lambda k: "[group=g, position=p]\n++++\na\n++++\n\n" + "<< blockgroup:g\n" * k,
        "variables": lambda k: "\n".join(f":v{i}:a" for i in range(k)) + "\n\n" + "".join(f"{{v{i}}}" for i in range(k)),
        "chain of variables": lambda k: ":v0:a\n" + "\n".join(f":v{i}:{{v{i - 1}}}b" for i in range(1, k)) + f"\n\n{{v{k - 1}}}",
        "arguments": lambda k: "[" + ", ".join(f"k{i}=v" for i in range(k)) + "]\na",
        "unnamed": lambda k: "[" + ", ".join("v" for i in range(k)) + "]\na",
        "tags": lambda k: "[" + ", ".join(f"#t{i}" for i in range(k)) + "]\na",
        "shared blocks": lambda k: "[isolate=false]\n++++\n= a\n\n++++\n" * 1
        + "\n".join(f"[isolate=false]\n{chr(0x4E00 + i) * 4}\n= a" for i in range(k)) + "\n"
        + "\n".join(chr(0x4E00 + i) * 4 for i in reversed(range(k))) + "\n\n<< toc\n",
        "nested macros": lambda k: macros(min(k // 4, 12)),
        "nested styles": lambda k: "*_" * k + "a" + "_*" * k,
        "source markers": lambda k: "[engine=source]\n++++\n" + "a:b:\n" * k + "++++",
        "source colons": lambda k: "[engine=source]\n++++\n" + ":" * k + "\n++++",
        "long lines": lambda k: "word " * (5 * k),
        "long words": lambda k: "w" * (50 * k),
        "spaces": lambda k: "a" + " " * (50 * k) + "b",
        "end spaces": lambda k: "a" + " " * (50 * k),
        "header chain": lambda k: "[name=h0]\n= a\n\n"
        + "\n\n".join(f"[name=h{i}]\n= b [header](h{i - 1})" for i in range(1, k)),
    }[kind]


def macros(k):
    t = "a"
    for i in range(k):
        t = f"[if:a==b]({t}, x)" if i % 2 else f"[class]({t})"
    return t


FAMILIES = [
    "blocks", "open blocks", "lists", "mixed lists", "headers", "deep headers", "tocs", "footnotes", "mentions", "nested notes", "links",
    "many links", "links to the first", "groups", "group twice", "variables", "chain of variables", "arguments", "unnamed", "tags",
    "shared blocks", "nested macros", "nested styles", "source markers", "source colons", "long lines", "long words", "spaces",
    "end spaces", "header chain",
]


def family(mon, rng, n):
    name = FAMILIES[n % len(FAMILIES)]
    k = 12 if n < len(FAMILIES) else rng.choice([8, 16, 24])
    mon.world(FILES)
    mon.count(f"family {name}")
    judge(mon, nested(name), name, {"a": "b"}, k)


# Texts that get longer and nothing else: the time grows with them.
FLAT = {
    "paragraphs": lambda k: "some words\n\n" * k,
    "lines": lambda k: "some words\n" * k,
    "empty lines": lambda k: "\n" * (5 * k) + "a",
    "comments": lambda k: "// comment\n" * k + "a",
    "long comment": lambda k: "////\n" + "comment\n" * k + "////\na",
    "headers": lambda k: "== a header\n\n" * k,
    "contents": lambda k: "= one\n\n== two\n\n" * k + "<< toc\n",
    "items": lambda k: "* item\n" * k,
    "nested items": lambda k: "* item\n** item\n" * k,
    "blocks": lambda k: "++++\na\n++++\n\n" * k,
    "long block": lambda k: "++++\n" + "a\n\n" * k + "++++",
    "raw lines": lambda k: "[engine=raw]\n++++\n" + "line\n" * k + "++++",
    "source lines": lambda k: "[engine=source]\n++++\n" + "line:1:\n" * k + "++++",
    "words": lambda k: "word " * k,
    "styles": lambda k: "*word* " * k,
    "verbatims": lambda k: "`word` " * k,
    "macros": lambda k: "[class](word, c) " * k,
    "links": lambda k: "[link](a, b)\n" * k,
    "mentions": lambda k: "[footnote=n]\n++++\nb\n++++\n" + "a[footnote](n)\n" * k,
    "references": lambda k: "[name=h]\n= a\n\n" + "b [header](h)\n" * k,
    "substitutions": lambda k: ":v:a\n" + "{v} x\n" * k,
    "definitions": lambda k: ":v:some words\n" * k + "a",
    "arguments": lambda k: "[a, b, #c, *d, e=f]\nx\n\n" * k,
    "labels": lambda k: ". a label\nx\n\n" * k,
    "conditions": lambda k: "@if a==b\nx\n\n" * k,
    "excluded": lambda k: "@if a==c\nx\n\n" * k,
    "rules": lambda k: "---\n" * k,
    "inclusions": lambda k: "<< other:a\n" * k,
    "images": lambda k: "<< image:a.png\n" * k,
    # Many things of one kind next to many of another.
    "names and paragraphs": lambda k: names(k) + "some words\n\n" * k,
    "names and macros": lambda k: names(k) + "[class](*word*, c) " * k,
    "names and items": lambda k: names(k) + "* item\n" * k,
    "names and arguments": lambda k: names(k) + "[a, #c, e=f]\n. label\nx\n\n" * k,
    "names and headers": lambda k: names(k) + "= a *header*\n\n" * k,
    "headers and paragraphs": lambda k: "= one\n\n" * k + "some words\n\n" * k + "<< toc\n",
    "notes and paragraphs": lambda k: "".join(f"[footnote=n{i}]\n++++\nb\n++++\na[footnote](n{i})\n" for i in range(k)) + "some words\n\n" * k,
}


def names(k):
    return "".join(f":v{i}:a\n" for i in range(k)) + "\n"


# Thirty-two times the text takes 32 times longer, or 1024 times if the growth is quadratic.
FACTOR, SLOW = 32, 3.0


def took(make, k):
    text = make(k)
    gc.collect()
    gc.disable()
    start = time.process_time()
    out = run.run(text, {"a": "b"})
    end = time.process_time()
    gc.enable()
    if not out.ok:
        raise Violation(f"a long text was rejected: {out.brief()}", family=text[:100], repetitions=k)
    return end - start


def clock(mon, rng, n):
    """The processor time, which includes the work that takes no steps of the library."""
    name = list(FLAT)[n % len(FLAT)]
    make = FLAT[name]
    # The first runs pay for what is made once.
    k = 32
    took(make, k)
    while took(make, k) < 0.016 and k < 40000:
        k *= 2
    one = min(took(make, k) for _ in range(3))
    two = took(make, FACTOR * k)
    tries = 0
    while two > SLOW * FACTOR * one and tries < 4:
        # Something else could be busy.
        one, two = max(one, *(took(make, k) for _ in range(5))), min(two, took(make, FACTOR * k))
        tries += 1
    if tries:
        mon.count("clocks repeated")
    if two > SLOW * FACTOR * one:
        raise Violation(f"{name} takes {one:.3f} seconds for {k} repetitions and {two:.3f} for {FACTOR * k}", family=name, repetitions=k)
    mon.count("clocks observed")
    mon.count(f"time x{round(two / one / FACTOR, 1)} of the text")
    mon.case([name, k], True, {"family": name, "seconds": [round(one, 4), round(two, 4)]})


def cycles(mon, rng, n):
    """Random graphs of files: inclusions end, and cycles are rejected."""
    count = rng.randint(1, 6)
    names = ["main.mau"] + [rng.choice(["", "sub/"]) + f"c{i}.mau" for i in range(count)]
    edges = {f: [] for f in names}
    for f in names:
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            edges[f].append(rng.choice(names[1:] if rng.random() < 0.8 else names))
    if not edges["main.mau"]:
        edges["main.mau"].append(names[1])

    def spell(f):
        k = rng.randrange(6)
        return [f, "./" + f, "sub/../" + f, f, os.path.join(os.getcwd(), f), "ln/../" + f if rng.random() < 0 else f][k]

    files = {}
    for f in names:
        rows = []
        for e in edges[f]:
            row = rng.choice(["<< mau:{}", "[{}]\n<< mau", "++++\n<< mau:{}\n++++", "++++\n----\n<< mau:{}\n----\n++++",
                              "[uri={}, pass_environment=false]\n<< mau", "<< mau:{},call:a=1", "[footnote=n{n}]\n++++\n<< mau:{}\n++++",
                              "[group=g{n}, position=p]\n++++\n<< mau:{}\n++++", "[isolate=false]\n++++\n<< mau:{}\n++++"])
            rows.append(row.replace("{n}", str(len(rows))).replace("{}", spell(e)))
            rows.append(rng.choice(["", "text"]))
            rows.append("")
        files[f] = "\n".join(rows)
    mon.world(files)
    # Is there a cycle that can be reached?
    state = {}

    def cyclic(f):
        if state.get(f) == 1:
            return True
        if state.get(f) == 2:
            return False
        state[f] = 1
        r = any(cyclic(e) for e in edges[f])
        state[f] = 2
        return r

    expected = cyclic("main.mau")
    steps, out = measure(files["main.mau"], limit=5_000_000)
    detail = dict(files=files)
    if steps is None:
        raise Violation("the processing of files that include each other does not end", **detail)
    if out.kind == "crash":
        raise Violation(f"files that include each other make processing fail with {out.exc!r}"[:300], **detail)
    if expected and out.ok:
        raise Violation("a cycle of inclusions was accepted", **detail)
    if not expected and not out.ok:
        raise Violation(f"inclusions without cycles were rejected: {out.brief()}", **detail)
    mon.count("cycles rejected" if expected else "acyclic inclusions accepted")
    mon.case([edges], True, {"edges": edges, "outcome": out.brief()[:100]})


def documents(mon, rng, n):
    """Generated and mutated documents: bounded steps per character."""
    case = gen.Gen(rng, gen.DEFAULT).case()
    text = case.text if n % 2 else hostile.mutate(rng, case.text)
    mon.world(case.files)
    size = len(text) + sum(map(len, case.files.values())) + 200
    limit = 3000 * size
    steps, out = measure(text, case.env, limit)
    if steps is None:
        raise Violation(f"more than {limit} steps for a document of {size} characters", text=text, env=case.env, files=case.files)
    mon.count("steps observed", steps)
    mon.case([text], True)


CHECK = Check(
    "C02",
    rule="random and fixed families of texts with repeated complete or unfinished constructs, measured in executed calls and jumps "
    "for k, 2k and 20k repetitions; random graphs of inclusions; generated documents; distinct families and graphs count",
    kinds=[
        Kind("family", family, len(FAMILIES), len(FAMILIES) * 4),
        Kind("clock", clock, len(FLAT), len(FLAT) * 3),
        Kind("growth", growth, 1200, 15000),
        Kind("words", words, 3000, len(WORDS) * len(FRAMES) * len(ENDS)),
        Kind("cycles", cycles, 1500, 20000),
        Kind("documents", documents, 800, 10000),
    ],
    require=["steps observed", "cycles rejected", "acyclic inclusions accepted", "long texts", "clocks observed"],
    known={"header-chain": lambda what, detail: detail.get("family") == "header chain" and "steps" in what},
    assumptions=["Work done inside the regular expression engine is bounded by the CPU limit of a case only."],
)
