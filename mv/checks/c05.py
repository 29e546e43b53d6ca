"""Every node of the output reports the place of the source it comes from."""

import copy
import os

from mv import gen, ref, run
from mv.core import Check, Kind, Violation

PROFILES = [
    gen.profile(label=0.35, args=0.25),
    gen.profile(depth=4, block=9, elements=(1, 5), isolate_false=0.3, label=0.2),
    gen.profile(mau=5, rawfile=2, include_depth=4, elements=(1, 5), depth=2),
    gen.profile(style=8, link=3, klass=3, headerlink=2, footnote=2, generic=2, imagem=2, rawm=2, unicode=2, paragraph=14, inline_depth=4, var=0.2, escape=0.2,
                braces=0.1, ifm=0.1, ifeval=0, label=0.4),
    gen.profile(header=9, toc=3, footnotes=2, group=3, list=8, source=5, raw=4, label=0.4),
]
INLINE_MARKS = {"underscore": "_", "star": "*", "caret": "^", "tilde": "~"}
FIRST = {"header": "=", "include": "<<", "include-image": "<<", "include-mau": "<<", "include-raw": "<<", "toc": "<<", "footnotes": "<<", "blockgroup": "<<",
         "horizontal-rule": "---"}
# Kinds of nodes that have no place.
PLACELESS = {"label", "footnote", "footnotes-item", "blockgroup-item", "toc-item"}


def clean(line):
    return not any(c in line for c in "{}\\") and "[if" not in line


def is_inline(t):
    return t in ("text", "verbatim", "style") or t.startswith("macro")


def sources(text, files):
    out = {"main.mau": text.split("\n")}
    for name, content in files.items():
        out[os.path.normpath(name)] = content.split("\n")
    return out


def pairs(exp, got):
    found = []
    try:
        run.compare(exp, got, on_pair=lambda a, b, path: found.append((a, b, path)))
    except run.Mismatch:
        # Another property is about this.
        return found, False
    return found, True


def slices(mon, n, lines, detail):
    """The characters of the source that an observed node delimits."""
    l0, c0, l1, c1, source = n["_pos"]
    t = n["_type"]
    rows = lines.get(os.path.normpath(source)) if source else None
    if rows is None or not (0 <= l0 <= l1 < len(rows)):
        raise Violation(f"a node {t} reports the place {n['_pos']}, which does not exist", **detail)
    row = rows[l0]
    if t in FIRST:
        if not row.startswith(FIRST[t]):
            raise Violation(f"a node {t} reports line {l0}, which is {row!r}", **detail)
        mon.count("places of " + t)
    elif t in ("block", "raw", "source"):
        # The fences.
        end = rows[l1]
        if l1 <= l0 or row != end or len(row) != 4 or row != row[:1] * 4:
            raise Violation(f"a node {t} reports lines {l0} and {l1}, which are {row!r} and {end!r}", **detail)
        mon.count("places of " + t)
    elif t == "list-item":
        if not row.lstrip(" ").startswith(("*", "#")):
            raise Violation(f"a node {t} reports line {l0}, which is {row!r}", **detail)
        mon.count("places of " + t)
    elif t == "raw-line" and not row.startswith("<<"):
        if row != n["value"]:
            raise Violation(f"a raw line {n['value']!r} reports line {l0}, which is {row!r}", **detail)
        if l0 != l1 or row[c0:c1] != n["value"]:
            raise Violation(f"a raw line {n['value']!r} reports the place {n['_pos']} of {row!r}", **detail)
        mon.count("places of raw-line")
    elif t == "source-line":
        if not row.startswith(n["line_content"]):
            raise Violation(f"a source line {n['line_content']!r} reports line {l0}, which is {row!r}", **detail)
        if l0 != l1 or not row[c0:c1].startswith(n["line_content"]):
            raise Violation(f"a source line {n['line_content']!r} reports the place {n['_pos']} of {row!r}", **detail)
        mon.count("places of source-line")
    elif is_inline(t) and clean(row):
        if l0 != l1:
            raise Violation(f"a node {t} reports lines {l0} and {l1}", **detail)
        piece = row[c0:c1]
        good = True
        if t == "text":
            # Dollar and percent signs are not part of the text.
            good = "$" in row or "%" in row or piece == n["value"]
        elif t == "verbatim":
            good = piece == f"`{n['value']}`"
        elif t == "style":
            m = INLINE_MARKS[n["style"]]
            good = len(piece) >= 2 and piece[0] == m and piece[-1] == m
        else:
            good = piece.startswith("[") and piece.endswith(")")
        if not good:
            raise Violation(f"a node {t} {n.get('value')!r} reports columns {c0}-{c1} of line {l0}, which are {piece!r}", **detail)
        mon.count("characters of " + t)


def walk(o):
    if isinstance(o, dict):
        if isinstance(o.get("_type"), str):
            yield o
        for k, v in o.items():
            if k != "_pos":
                yield from walk(v)
    elif isinstance(o, list):
        for v in o:
            yield from walk(v)


def placed(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    mon.world(case.files)
    try:
        exp, _ = ref.process(case.text, case.env, case.files)
    except (ref.RefError, ref.Unspecified):
        mon.count("rejected")
        return
    out = run.run(case.text, copy.deepcopy(case.env))
    if not out.ok or not exp:
        mon.count("not accepted")
        return
    got = run.normal(out.value)
    lines = sources(case.text, case.files)
    detail = dict(text=case.text, env=case.env, files=case.files)
    found, complete = pairs(exp, got)
    if not complete:
        mon.count("documents with another structure")
    deep = 0
    for a, b, path in found:
        want, seen = a.get("_pos"), b.get("_pos")
        t = a["_type"]
        if want is None:
            continue
        if seen is None or (seen[0], seen[2]) != (want[0], want[2]) or (seen[4] is None) or os.path.normpath(seen[4]) != os.path.normpath(want[4]):
            raise Violation(f"a node {t} at {path[-200:]} reports {seen} instead of {want}", **detail)
        mon.count("lines of nodes")
        row = lines[os.path.normpath(want[4])][want[0]]
        if is_inline(t) and clean(row):
            if (seen[1], seen[3]) != (want[1], want[3]):
                raise Violation(f"a node {t} {b.get('value')!r} at {path[-200:]} reports the columns of {seen} instead of {want}", **detail)
            mon.count("columns of pieces of text")
        deep = max(deep, path.count("<"))
    if complete:
        for node in walk(got):
            if node["_type"] in PLACELESS or node["_type"] == "source-marker" or not node.get("_pos"):
                continue
            slices(mon, node, lines, detail)
    mon.count(f"documents nested {min(deep, 12)} levels deep")
    mon.case(found and [[a["_type"], b.get("_pos")] for a, b, _ in found], bool(found), {"text": case.text[:800]})


# Lines that produce nothing.
NEUTRAL = [[""], ["// x"], ["   "], ["////", "= x", "[y]", "////"], ["", ""], [":zz.n:1"], [":+zz.f:"]]


def moved(mon, rng, n):
    """Rows added before a document, or a block around it, move all the places by as much."""
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    mon.world(case.files)
    base = run.run(case.text, copy.deepcopy(case.env))
    if not base.ok or not base.value:
        mon.count("not accepted")
        return
    rows = [r for _ in range(rng.randint(1, 5)) for r in rng.choice(NEUTRAL)]
    for form in ("before", "block", "deep block"):
        lines = case.text.split("\n")
        if lines[-1] == "":
            lines.pop()
        path = []
        if form == "before":
            # Attachments need no protection: the first line is not neutral for them.
            new, shift = rows + lines, len(rows)
        else:
            fences = "¤§" if form == "deep block" else "¤"
            if any(f in case.text for f in fences):
                continue
            pad = list(rows)
            new, shift = lines, 0
            for f in reversed(fences):
                new = pad + [f * 4] + new + [f * 4, ""]
                shift += len(pad) + 1
                path.append(f)
        text = "\n".join(new) + "\n"
        mon.world(case.files)
        out = run.run(text, copy.deepcopy(case.env))
        detail = dict(form=form, text=text, original=case.text, env=case.env, files=case.files)
        if not out.ok:
            raise Violation(f"a valid document with lines before it ({form}) gave {out.brief()}"[:400], **detail)
        there = run.normal(out.value)
        for _ in path:
            there = there["content"][0]
        here = run.normal(base.value)
        count = 0

        def check(a, b, path):
            nonlocal count
            p, q = a.get("_pos"), b.get("_pos")
            if p is None or a["_type"] in PLACELESS:
                return
            if a["_type"] == "document":
                return
            count += 1
            want = (p[0] + shift, p[1], p[2] + shift, p[3], p[4]) if p[4] == "main.mau" else p
            if q != want:
                raise Violation(f"after adding {shift} lines before it ({form}) a node {a['_type']} at {path[-200:]} reports {q} instead of {want}", **detail)

        try:
            run.compare({"_type": "x", "content": here["content"]}, {"_type": "x", "content": there["content"]}, on_pair=check)
        except run.Mismatch:
            # Computed identifiers and structure are for other properties.
            mon.count("documents with another structure")
        mon.count(f"places moved ({form})", count)
        mon.case([form, shift, case.text], count > 0, None)


CHECK = Check(
    "C05",
    rule="the place of every node of the output of generated documents is compared with the one computed by the model (lines and file of all nodes, columns "
    "of the pieces of text), with the characters of the source that it delimits, and with the place observed before moving the document down or into "
    "blocks; distinct lists of places, and moved documents, count",
    kinds=[Kind("placed", placed, 2500, 40000), Kind("moved", moved, 900, 14000)],
    require=["lines of nodes", "columns of pieces of text", "characters of text", "characters of verbatim", "characters of style", "characters of macro-link",
             "characters of macro-class", "characters of macro-header", "characters of macro-footnote", "places moved (before)", "places moved (block)",
             "places moved (deep block)", "places of raw-line", "places of source-line"]
    + ["places of " + t for t in (*FIRST, "block", "raw", "source", "list-item")],
    assumptions=["labels, footnotes, the entries of tables of contents and of lists of footnotes, and the items of groups report no place",
                 "columns are judged on lines without braces, backslashes, and conditional macros"],
)
