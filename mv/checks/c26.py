"""Elements report the container they are in."""

import copy

from mv import gen, run
from mv.core import Check, Kind, Violation

FIELDS = ("_type", "args", "kwargs", "tags", "internal_tags", "subtype", "_context")
# Fields that show the data of an element placed elsewhere.
REFERENCES = {("macro-header", "header"), ("toc-item", "header"), ("macro-footnote", "footnote"), ("footnotes-item", "footnote")}
PROFILES = [
    gen.profile(depth=3, label=0.4, args=0.5),
    gen.focus("list", "style", "klass", "link", "mailto", "ifm", "headerlink", "header", list=8, style=6, klass=3, link=2, ifm=2),
    gen.focus("block", "mau", "group", "footnote", "footnotes", "toc", "header", "label", "args", block=8, mau=3, group=3, toc=2,
              footnotes=2, isolate_false=0.3, depth=3),
    gen.focus("source", "raw", "rawfile", "image", "custom", "rule", "label", "args", "block", source=5, raw=3, block=4),
]


def children(node):
    """(field, element) of the elements in an element of the output."""
    for field, v in node.items():
        if field in ("parent", "_context", "kwargs"):
            continue
        if isinstance(v, dict):
            if isinstance(v.get("_type"), str):
                yield field, v
            else:
                for x in v.values():
                    if isinstance(x, dict) and isinstance(x.get("_type"), str):
                        yield field, x
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict) and isinstance(x.get("_type"), str):
                    yield field, x


def container(chain, field):
    """The element that must be reported, or a set of types, or nothing."""
    host = chain[-1]
    t = host["_type"]
    if (t, field) in REFERENCES:
        return None
    if field == "labels":
        return host
    if t == "paragraph-line":
        return chain[-2]
    if t in ("list", "list-item"):
        k = len(chain) - 1
        while chain[k - 1]["_type"] in ("list", "list-item") and k > 0:
            k -= 1
        return chain[k]
    if t == "include-mau" and field == "content":
        return {"document"}
    if t == "toc-item":
        return {"toc", "toc-item"}
    return host


def check(node, chain, path, mon, depth=0):
    for field, child in children(node):
        where = f"{path}<{node['_type']}>.{field}<{child['_type']}>"
        expected = container([*chain, node], field)
        reported = child.get("parent")
        if expected is not None:
            if not isinstance(reported, dict) or not reported:
                raise Violation(f"{where} does not report its container")
            if isinstance(expected, set):
                if reported["_type"] not in expected:
                    raise Violation(f"{where} reports a parent {reported['_type']!r}")
            else:
                for k in FIELDS:
                    if reported.get(k) != expected.get(k):
                        raise Violation(
                            f"{where} reports a parent with {k}={reported.get(k)!r}, but {expected['_type']} has {expected.get(k)!r}"
                        )
            mon.count(f"{node['_type']}.{field}")
            mon.count("parents compared")
        check(child, [*chain, node], where, mon)


def containment(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    mon.world(case.files)
    o = run.run(case.text, case.env)
    if not o.ok or not o.value:
        mon.count("rejected documents")
        return
    try:
        if o.value.get("parent"):
            raise Violation("the document reports a container")
        before = mon.counters["parents compared"]
        check(o.value, [], "$", mon)
    except Violation as v:
        v.detail.update(text=case.text, env=case.env, files=case.files)
        raise
    mon.case([case.text], mon.counters["parents compared"] - before > 2, {"text": case.text[:600]})


def summary(node):
    """What the elements report, without locations."""
    out = []
    for field, child in children(node):
        if (node["_type"], field) in REFERENCES:
            continue
        p = child.get("parent") or {}
        if node["_type"] == "toc-item":
            # Copies of nested entries report the entry that they are in.
            p = {}
        out.append((field, child["_type"], tuple(repr(p.get(k)) for k in FIELDS[:-1]), summary(child)))
    return out


def moved(mon, rng, n):
    """The same elements as a document, in a block, a footnote, a group, and an included file."""
    prof = dict(PROFILES[n % len(PROFILES)], depth=1, unbalanced=0)
    case = gen.Gen(rng, prof).case()
    f = "¤¤¤¤"
    text = case.text.rstrip("\n")
    kind = rng.choice(["block", "footnote", "group", "include", "twice"])
    head = rng.choice(["*sub, k1=v1", "#t1", "*sub, #t2, k=w"])
    files = dict(case.files)
    if kind == "block":
        outer = f"[{head}]\n{f}\n{text}\n{f}\n"
        pick = lambda o: o["content"][0]
    elif kind == "footnote":
        outer = f"[footnote=fnx, {head}]\n{f}\n{text}\n{f}\n\nx[footnote](fnx)\n\n<< footnotes\n"
        outer = outer.replace(f", {head}]", "]")
        pick = lambda o: o["content"][-1]["footnotes"][0]["footnote"]
    elif kind in ("group", "twice"):
        outer = f"[{head.split(', k')[0]}, group=grx, position=p]\n{f}\n{text}\n{f}\n\n<< blockgroup:grx\n"
        if kind == "twice":
            outer += "\n[grx, #second]\n<< blockgroup\n"
        pick = lambda o: o["content"][0]["items"]["p"]["block"]
    else:
        files["outer.mau"] = text
        outer = "[outer.mau]\n<< mau\n"
        pick = lambda o: o["content"][0]
    detail = {"text": outer, "env": case.env, "files": files}
    mon.world(files)
    a = run.run(text, copy.deepcopy(case.env))
    b = run.run(outer, copy.deepcopy(case.env))
    if not a.ok or not a.value:
        mon.count("rejected documents")
        return
    if not b.ok:
        raise Violation(f"the same content placed in a {kind} gave {b.brief()}"[:400], **detail)
    inner = pick(b.value)
    if len(a.value["content"]) != len(inner["content"]):
        raise Violation(f"the same content placed in a {kind} has {len(inner['content'])} elements", **detail)
    for x, y in zip(a.value["content"], inner["content"]):
        if summary(x) != summary(y):
            raise Violation(f"an element placed in a {kind} reports other containers for its content", element=run.short(x), **detail)
        mon.count("moved elements")
    if kind == "twice":
        tags = [g["items"]["p"]["parent"]["tags"] for g in b.value["content"]]
        if tags != [[], ["second"]]:
            raise Violation(f"the items of two references to a group report {tags}", **detail)
    mon.count(f"moved to {kind}")
    mon.case(["moved", kind, text], True)


CHECK = Check(
    "C26",
    rule="generated documents with deep nesting: the container reported by every element of the output is compared with the place where "
    "the element is; the same content as a document and placed in other containers; distinct documents count",
    kinds=[Kind("containment", containment, 2500, 40000), Kind("moved", moved, 1200, 20000)],
    require=["parents compared", "moved elements"]
    + [f"{t}.content" for t in "document block paragraph paragraph-line header list list-item style label footnote include-mau "
       "include-raw raw source macro-class macro-link macro-header".split()]
    + ["blockgroup.items", "blockgroup-item.block", "footnotes.footnotes", "toc.plain_entries", "toc.nested_entries",
       "paragraph.labels", "block.labels", "source-line.marker"]
    + [f"moved to {k}" for k in ("block", "footnote", "group", "include", "twice")],
    assumptions=["the text of a paragraph line reports the paragraph, and all the elements of a list report the outermost list, as documented by the tests",
                 "the elements of an included file report the document of that file"],
)
