"""Inclusions."""

import os

from mv import gen, ref, run, views
from mv.core import Check, Kind, Violation
from mv.diff import Differential

differential = Differential(
    views.v_includes,
    codes=('recursive-include', 'missing-uri', 'unreadable-file'),
    kinds="chain repeated",
    profiles=[
        gen.focus("mau", "rawfile", "image", "custom", mau=8, rawfile=3, include_depth=4),
        gen.focus("mau", "rawfile", "block", "vardef", "var", "header", "toc", "footnote", "footnotes", mau=8, include_depth=3, block=5),
    ],
)



def spelled(rng, name):
    """A way to mention a file."""
    k = rng.random()
    if k < 0.6:
        return name
    if k < 0.7:
        return "./" + name
    if k < 0.8:
        return "sub/../" + name
    if k < 0.9:
        return os.path.join(os.getcwd(), name)
    return ".//" + name


def inclusion(rng, name, c):
    """Rows that include a file."""
    args = [spelled(rng, name)]
    if rng.random() < 0.3:
        args.append(rng.choice(["pass_environment=false", "pass_environment=true", "call:v=w"]))
    rows = [f"<< mau:{', '.join(args)}"] if rng.random() < 0.7 else [f"[{', '.join(args)}]", "<< mau"]
    if rng.random() < 0.15:
        rows.insert(0, ". a label")
    k = rng.random()
    if k < 0.2:
        rows = [c * 4, *rows, c * 4]
    elif k < 0.3:
        rows = [c * 4, "text", "", "§" * 4, "", *rows, "§" * 4, c * 4]
    elif k < 0.4:
        rows = ["[isolate=false]", c * 4, *rows, "", "text", c * 4]
    elif k < 0.45:
        rows = [f"[group=g{rng.randrange(99999)}, position=p]", c * 4, *rows, c * 4]
    elif k < 0.5:
        rows = [f"[footnote=n{rng.randrange(99999)}]", c * 4, *rows, c * 4]
    elif k < 0.57:
        rows = [":zzc:no", "@if zzc==yes", *rows]
    return rows


def loops(mon, rng, n):
    """Files that include each other, maybe in a circle."""
    names = ["main.mau", "a.mau", "sub/b.mau", "c.txt", "d", "sub/a.mau"][: rng.randint(1, 6)]
    # Some of the graphs have no circles.
    acyclic = rng.random() < 0.5
    chain = rng.random() < 0.1
    if chain:
        # Long chains, that maybe come back to one of the files.
        names = ["main.mau"] + [f"{rng.choice(['', 'sub/'])}c{i}" for i in range(rng.choice([6, 8, 10, 13]))]
        mon.count("long chains")
    files = {}
    for k, name in enumerate(names):
        rows = []
        for _ in range(rng.choice([0, 1, 1, 2, 2]) if not chain else 1):
            rows += rng.choice([[], ["text", ""], ["", ""], ["// note"], [":v:x", ""]])
            others = names[k + 1 :] if acyclic else names
            if chain:
                others = names[k + 1 : k + 2] or ([] if acyclic else names)
            if others:
                rows += inclusion(rng, rng.choice(others), "¤") + [""]
        rows += rng.choice([[], ["end"], ["= head"], ["{v}"] if ":v:x" in rows else []])
        files[name] = "\n".join(rows)
    source = rng.choice(["main.mau", "./main.mau", os.path.join(os.getcwd(), "main.mau"), "sub/../main.mau"])
    detail = dict(source=source, files=files)
    mon.world(files)
    text = files["main.mau"]
    try:
        exp, error = ref.process(text, {}, files, source)[0], None
    except ref.RefError as e:
        error = e
    out = run.run(text, {}, source=source)
    mon.case([files, source], len(names) > 1, {"files": files})
    if error is None:
        if not out.ok:
            raise Violation(f"files that include each other without a circle gave {out.brief()}"[:300], **detail)
        try:
            run.compare(views.v_includes(exp) if exp else [], views.v_includes(run.normal(out.value)) if out.value else [])
        except run.Mismatch as m:
            raise Violation(f"the output is not the expected one: {m}"[:800], **detail)
        mon.count("graphs without circles")
        return
    if error.code != "recursive-include":
        mon.count("other mistakes")
        return
    if out.kind != "error":
        raise Violation(f"files that include each other in a circle gave {out.brief()}"[:300], **detail)
    got = out.error()
    if got != ("parser", error.line, error.source):
        raise Violation(f"the circle is reported at {got} instead of line {error.line} of {error.source!r}: {out.text()!r}"[:400], **detail)
    mon.count("graphs with circles")


VALUES = ["true", "true", "true", '"true"', "false", "false", "False", "TRUE", "0", "1", "no", '" "', '""', '"true x"', "falsetrue"]


def visible(mon, rng, n):
    """What each of the files of a tree can see of the others."""
    names = ["main.mau", "a.mau", "b.mau", "sub/c.mau"][: rng.randint(2, 4)]
    files = {}
    pool = ["va", "vb", "v.c", "v.d"]
    known = {name: set() for name in names}
    for k in range(len(names) - 1, -1, -1):
        name = names[k]
        rows = []
        for i in range(rng.randint(2, 6)):
            kind = rng.choice(["def", "def", "use", "if", "inc", "inc", "code", "code", "alias", "list"])
            var = rng.choice(pool)
            if kind == "def":
                rows.append(f":{var}:{name[-5]}{i}")
            elif kind == "use":
                rows += [f"text {{{var}}}", ""] if rng.random() < 0.4 else [f"text \\{{{var}}} x", ""]
            elif kind == "if":
                if rng.random() < 0.5:
                    rows += [f"@if {var}{rng.choice(['==', '!='])}{rng.choice(['a0', 'b1', 'w', ''])}", "[*sub*]", f"paragraph {i}", ""]
            elif kind == "list":
                rows += [f"* item {i}", ""]
            elif kind == "code":
                rows += ["[*source]", "----", f"line{i} :@q:", f"line{i} :@+:", "----"]
            elif kind == "alias":
                rows += ["[*mine]", "----", f"text {i}", "----"]
            elif names[k + 1 :]:
                args = [rng.choice(names[k + 1 :])]
                if rng.random() < 0.5:
                    args.append("pass_environment=" + rng.choice(VALUES))
                if rng.random() < 0.4:
                    args.append(f"call:{rng.choice(pool)}=w")
                if rng.random() < 0.3:
                    args.reverse()
                    args = [a for a in args if "=" not in a] + [a for a in args if "=" in a]
                rows.append("<< mau:" + ", ".join(args))
        files[name] = "\n".join(rows)
    env = {}
    for var in pool:
        if rng.random() < 0.8:
            env[var] = "e"
    if rng.random() < 0.6:
        env["mau.parser.source_highlight_style_aliases.q"] = "quick"
    if rng.random() < 0.3:
        env["mau.parser.source_highlight_style_aliases.+"] = "plus"
    if rng.random() < 0.5:
        env["mau.parser.aliases.mine.subtype"] = "mine"
    detail = dict(files=files, env=env)
    mon.world(files)
    text = files["main.mau"]
    try:
        exp, error = ref.process(text, env, files, "main.mau")[0], None
    except ref.RefError as e:
        error = e
    except ref.Unspecified:
        mon.count("model: unspecified")
        return
    out = run.run(text, env, source="main.mau")
    mon.case([files, env], "pass_environment" in "".join(files.values()), {"files": files})
    if error is not None:
        if out.kind != "error":
            raise Violation(f"a variable that the file cannot see ({error}) gave {out.brief()}"[:400], **detail)
        if out.error() != ("parser", error.line, error.source):
            raise Violation(f"the mistake ({error}) is reported at {out.error()}"[:400], **detail)
        mon.count(f"invisible: {error.code}")
        return
    if not out.ok:
        raise Violation(f"files that see the variables they use gave {out.brief()}"[:400], **detail)
    try:
        run.compare(exp or {}, run.normal(out.value) if out.value else {})
    except run.Mismatch as m:
        raise Violation(f"the output is not the expected one: {m}"[:800], **detail)
    mon.count("visible")


CHECK = Check(
    "C21",
    rule="documents from the generator, compared with the model (a case is non-trivial when there are inclusions and their content was not seen "
    "before), sets of files that include each other, with and without circles, and trees of files that use the variables of each other",
    kinds=[Kind("differential", differential, 4000, 60000), Kind("visible", visible, 4000, 60000), Kind("loops", loops, 4000, 60000)],
    require=["events compared", "visible", "invisible: undefined-variable", "graphs with circles", "graphs without circles"],
)
