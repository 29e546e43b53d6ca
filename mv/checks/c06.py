"""Errors point at the construct that causes them."""

import copy
import os

from mv import echo, gen, run
from mv.checks.c01 import Echo
from mv.core import Check, Kind, Violation

F = "¤¤¤¤"
G = "§§§§"
PROFILES = [
    gen.profile(depth=3, block=8, unbalanced=0, cond=0.05),
    gen.profile(depth=2, block=5, mau=4, include_depth=3, unbalanced=0, elements=(1, 4)),
    gen.focus("block", "header", "footnote", "footnotes", "toc", "group", "list", "label", "args", "mau", block=8, depth=4, unbalanced=0, isolate_false=0.4,
              mau=2),
]

# Name of the mistake: rows, places (rows where it can be reported), stage.
MISTAKES = {}


def mistake(name, rows, *places, stage="parser"):
    MISTAKES[name] = (rows, places or (0,), stage)


U = "{zz.undefined}"
mistake("variable in a paragraph", [f"text {U} more"])
mistake("variable in the second line of a paragraph", ["one", f"two {U}", "three"], 1)
mistake("variable in a label", [f".role lab {U}", "para"])
mistake("variable in a header", [f"== head {U}"])
mistake("variable in a list item", ["* one", "** two", f"* three {U}", "* four"], 2)
mistake("variable in arguments", [f"[one, k={U}]", "para"])
mistake("variable in a definition", [f":zz.a:x {U}"])
mistake("variable in an inclusion", [f"<< image:{U}"])
mistake("variable in a style", [f"a *b _c {U} d_ e*"])
mistake("variable after styles and macros", [f"a *b* `{{x}}` [kbd](z) {U}"])
mistake("variable in a macro", [f"a [link](u, {U})"])
mistake("variable after another line with variables", [":zz.a:x", "", "one {zz.a} {zz.a}", f"{{zz.a}} {U}"], 3)
for kind, text in [("mention", "[footnote](zzno)"), ("header link", "[header](zzno)"), ("header link with text", "[header](zzno, some text)")]:
    mistake(f"{kind} in a paragraph", [f"text {text} more"])
    mistake(f"{kind} in the third line of a paragraph", ["one", "two", f"three {text}"], 2)
    mistake(f"{kind} in a header", [f"= head {text}"])
    mistake(f"{kind} in a list item", ["# one", f"## two {text}", "# three"], 1)
    mistake(f"{kind} in a style", [f"a *b _{text}_*"])
    mistake(f"{kind} in a label", ["text", "", f". label {text}", "para"], 2)
    mistake(f"{kind} in a block", [F, "text", "", f"text {text}", F], 3)
    mistake(f"{kind} in a block in a block", [F, "text", "", G, "", f"text {text}", G, F], 5)
mistake("mention in a macro", ['a [class]("b [footnote](zzno) c", k)'])
for macro in "link mailto header class footnote raw unicode image".split():
    mistake(f"empty macro {macro}", ["one", f"two [{macro}]() three"], 1)
mistake("empty macro in a label", [". one", ".role two [link]()", "para"], 1)
mistake("empty macro in a header", [f"=== two [link]()"])
mistake("empty macro in a list item", ["* one", "* two [image]()"], 1)
mistake("conditional macro without condition", ["one", "two [if:zz](a, b)"], 1)
mistake("conditional macro of another kind", ["one [ifx:zz==a](a, b)"])
mistake("conditional macro on an undefined variable", ["one", "[if:zz.undefined==a](a, b)"], 1)
mistake("conditional macro without cases", [":zzv:x", "", "one [if:zzv==x]()"], 2)
mistake("conditional macro without the negative case", [":zzv:x", "", "one [ifeval:zzv==y](zzv)"], 2)
mistake("conditional macro with an undefined value", [":zzv:x", "", "one [ifeval:zzv==x](zz.undefined)"], 2)
mistake("missing file", ["<< mau:zznope.mau"])
mistake("missing raw file", ["<< raw:zznope.txt"])
mistake("missing file with boxed arguments", ["[#tag, zznope.mau]", "<< mau"], 0, 1)
mistake("missing uri", ["<< image"])
mistake("missing uri of a file", ["<< mau"])
mistake("missing uri of a raw file", ["<< raw"])
mistake("missing group", ["<< blockgroup"])
mistake("unknown group", ["<< blockgroup:zznope"])
mistake("unknown group with a label", [". label", "<< blockgroup:zznope"], 1)
mistake("no arguments after the colon", ["<< image:"])
mistake("arguments given twice", ["[a=b]", "<< image:x"], 0, 1)
mistake("inclusion of itself", ["<< mau:main.mau"])
mistake("two subtypes", ["[*one, *two]", "para"])
mistake("two aliases", ["[@source, @source]", F, "x", F])
mistake("unknown alias", ["[@zzalias]", "para"])
mistake("unknown alias after other arguments", ["[#one, #two, *sub, x, @zzalias, k=v]", "para"])
mistake("unnamed after named", ["[a=b, c]", "= head"])
mistake("two subtypes in a macro", ["one", "two [kbd](*a, *b)"], 1)
mistake("unnamed after named in a macro", ["one", "two [kbd](a=b, c)"], 1)
mistake("two subtypes in an inclusion", ["<< custom:*a, *b"])
mistake("unknown engine", ["[engine=zz]", F, "x", F], 0, 1)
mistake("variable without value", [":zz:"])
mistake("condition on an undefined variable", ["@if zz.undefined==a", "para"])
mistake("condition of an unknown kind", ["@unless mau.x==a", "para"])
mistake("empty condition", ["@if ", "para"])
mistake("undefined variable in a condition", ["@if {zz.undefined}==a", "para"])
mistake("undefined variable in the value of a condition", ["@if mau.x=={zz.undefined}", "= head"])
mistake("condition of an unknown comparison", ["@if zz<3", "para"], stage="lexer")
mistake("condition without value", ["@if zz", "para"], stage="lexer")
mistake("wrong start of a list", ["[start=abc]", "# one"], 0, 1)
mistake("header defined twice", ["[name=zzd]", "= a", "", "text", "", "[name=zzd]", "= b"], 5, 6)
mistake("footnote defined twice", ["[footnote=zzd]", F, "a", F, "", "[footnote=zzd]", F, "b", F], 5, 6)
mistake("position taken twice", ["[group=zzg, position=p]", F, "a", F, "", "[group=zzg, position=p]", F, "b", F], 5, 6)
mistake("header that links itself", ["[name=zzh]", "= head [header](zzh)"], 0, 1)
mistake("unclosed block", ["text", "", F, "a", "b"], 2, stage="lexer")
mistake("unclosed block with arguments", ["[a]", F], 1, stage="lexer")
mistake("unclosed block in a block", [F, "text", "", G, "text", F], 3, stage="lexer")
mistake("unclosed comment", ["text", "////", "a", "b"], 1, stage="lexer")
mistake("unclosed comment in a block", [F, "text", "", "////", "text", F], 3, stage="lexer")
mistake("text after the items of a list", ["* one", "** two", "text", ""], 2)
mistake("header after the items of a list", ["# one", "= head"], 1)
mistake("arguments after the items of a list", ["# one", "# two", "[a]", "para"], 2)
mistake("block after the items of a list", ["* one", F, "text", F], 1)
mistake("inclusion after the items of a list", ["* one", "* two", "* three", "<< toc"], 3)
mistake("text after a comment in a list", ["* one", "// comment", "text", ""], 2)
mistake("incomplete variable", ["one", "two {{x} three"], 1)
mistake("incomplete variable in a label", [". two {{x} three", "para"])
mistake("variable in the second label", [". one", f".role two {U}", "para"], 1)
mistake("variable in arguments after a label", [". one", f"[k={U}]", "para"], 1)
mistake("variable in the label of a block", [f". one {U}", "[a]", F, "text", F])
mistake("variable in the arguments of a block", ["text", "", f"[{U}]", F, "text", F], 2)
mistake("variable in a footnote", ["[footnote=zzn]", F, "text", f"text {U}", F], 3)
mistake("variable in a block of a group", ["[group=zzg, position=a]", F, "text", "", f"= text {U}", F], 4)
mistake("variable in a block after other blocks", [F, "text", F, "", F, "text", "", "text", F, "", F, "", "", f"text {U}", F], 13)
mistake("variable after a comment", ["////", "a", "b", "////", "// c", f"text {U}"], 5)
mistake("variable in text after a comment", ["one", "// c", f"two {U}"], 2)
mistake("variable after a raw block", ["[engine=raw]", F, U, U, F, "", f"text {U}"], 6)
mistake("variable after a source block", ["[@source, python]", F, U, "", U, F, "", f"text {U}"], 7)
mistake("variable after an element that is excluded", [":zzc:no", "", "@if zzc==yes", f"text {U}", "", f"text {U}"], 5)
mistake("variable in an element that is included", [":zzc:yes", "", "@if zzc==yes", "[a]", f"text {U}"], 4)
mistake("variable in an inclusion after spaces", ["", "   ", f"<< custom:a, {U}"], 2)
mistake("variable in a definition after other definitions", [":zza:x", ":zzb:x", f":zzc:{{zza}} {U}"], 2)
mistake("mention in a footnote", ["[footnote=zzn]", F, "text", "", "text [footnote](zzno)", F], 4)
mistake("mention in a block of a group", ["[group=zzg, position=a]", F, "text", "", "text [footnote](zzno)", F], 4)
mistake("mention in a block that is not isolated", ["[isolate=false]", F, "text", "", "text [footnote](zzno)", F], 4)
mistake("mention in a list in a list", ["# one", "## two", "### three [footnote](zzno)", "## four"], 2)
mistake("header link in a block that is not isolated", ["[isolate=false]", F, "text", "", "text [header](zzno)", F], 4)
mistake("header links in a circle", ["[name=zza]", "= head [header](zzb)", "", "[name=zzb]", "= head [header](zza)"], 0, 1, 3, 4)
mistake("header defined three lines later", ["[name=zzd]", "= a", "[name=zzd]", ". label", "= b"], 2, 3, 4)
mistake("footnote defined in a block that is not isolated and outside", ["[footnote=zzd]", F, "a", F, "[isolate=false]", G, "[footnote=zzd]", F, "b", F, G], 4, 5, 6, 7)
mistake("position taken in a block that is a raw one", ["[group=zzg, position=p]", F, "a", F, "", "[group=zzg, position=p, engine=raw]", F, "b", F], 5, 6)
mistake("unknown engine with a label", ["[engine=zz]", ". label", F, "x", F], 0, 2)
mistake("missing uri with a label", [". label", "<< image"], 1)
mistake("missing uri with arguments", ["[#a, *b, k=v]", "<< image"], 0, 1)
mistake("unknown group with arguments", ["[zznope, #t]", "<< blockgroup"], 0, 1)
mistake("two subtypes in arguments after others", ["[a]", "", "[*one, *two]", "para"], 2)
mistake("unclosed quotes in arguments", ['["one, two]', "para"])
mistake("unclosed quotes in an inclusion", ['<< custom:"one, two'])
mistake("unknown alias in an inclusion", ["<< custom:@zzalias"])
mistake("unknown alias in a macro", ["one", "two", "three [kbd](@zzalias)"], 2)
mistake("unnamed after named in an inclusion", ["text", "", "<< image:uri=x, alt"], 2)
mistake("condition on an undefined variable with other attachments", ["[a]", ". label", "@if zz.undefined==a", "para"], 2)
mistake("condition on an undefined variable before a block", ["@if zz.undefined!=a", F, "x", F])
mistake("condition on an undefined variable before a list", ["@if zz.undefined!=a", "* x", "* y"])
mistake("condition on an undefined variable in a block", [F, "x", "", "@if zz.undefined!=a", "", "para", F], 3)
mistake("condition of an unknown kind with a label", [". label", "@ifnot mau.x==a", "para"], 1)
mistake("conditional macro in a block", [F, "x", "", "one [if:zz.undefined==a](a, b)", F], 3)
mistake("conditional macro with an unknown value in a header", ["text", "", "= one [ifeval:zz.undefined==a](a, b)"], 2)
mistake("empty macro in another macro", ["one", 'two [class]("three [link]() four", k)'], 1)
mistake("empty macro after other macros", ["one", "two [link](a, b) [link](c, d) [image]()"], 1)
mistake("empty macro in the label of a list", [". lab [class]()", "* one"])
mistake("unclosed block of text that looks like another", [F, "text", G, "text", G], 0, stage="lexer")
mistake("unclosed block after a closed one", [F, "text", F, "", G, "text"], 4, stage="lexer")
mistake("wrong start of a list after other lists", ["# one", "", "[start=auto]", "# two", "", "[start=1.5]", "# three"], 5, 6)
mistake("wrong start of a list with a label", ["[start=a]", ". lab", "# one"], 0, 2)
mistake("missing file in a block", [F, "text", "", "", "<< mau:zznope.mau", F], 4)
mistake("folder in place of a file", ["text", "", "<< raw:sub"], 2)
# Kinds of elements without a template, or with a template that fails.
VISITOR = {
    "macro-unicode": (["one", "two [unicode](2014)"], 1),
    "horizontal-rule": (["para", "", "---"], 2),
    "include": ([". label", "<< zzcustom:x"], 1),
    "include-image": (["<< image:x"], 0),
    "macro-mailto": None,
    "raw": (["[engine=raw]", F, "x", F], 1),
    "source-line": (["[engine=source]", F, "x", F], 2),
    "macro-raw": (["one", "* two [raw](x)*"], 1),
    "verbatim": (["= head `x`"], 0),
    "list": (["text", "", "* one", "* two"], 2),
    "list-item": (["text", "", "* one"], 2),
    "header": (["text", "", "= one"], 2),
    "macro-class": (["* one", "* two [class](a, b)"], 1),
}


def sites(rng, case):
    """Adds a sentinel somewhere in the document or in its files."""
    names = [n for n in case.files if n.endswith(".mau")]
    name = rng.choice(names) if names and rng.random() < 0.6 else None
    text = case.files[name] if name else case.text
    lines = text.split("\n")
    # Any line can be the place: those that are not fit are discarded.
    k = rng.randrange(len(lines) + 1)
    rows = ["", "ZZABSORB", "", "ZZSENTINEL", ""]
    # The sentinel is replaced by the mistake; its line is this one.
    return name, lines[:k] + rows + lines[k:], k + 3


def lonely(node):
    """Whether the sentinel is a paragraph of its own."""
    if isinstance(node, dict):
        if node.get("_type") == "paragraph" and not node["labels"] and not node["args"] and not node["kwargs"]:
            c = node["content"]
            if len(c) == 1 and [x.get("value") for x in c[0]["content"]] == ["ZZSENTINEL"]:
                return node["_context"]
        for k, v in node.items():
            if k != "parent":
                found = lonely(v)
                if found:
                    return found
    elif isinstance(node, list):
        for v in node:
            found = lonely(v)
            if found:
                return found
    return None


def build(case, name, lines, at, rows):
    text = "\n".join(lines[:at] + rows + lines[at + 1 :])
    files = dict(case.files)
    if name:
        files[name] = text
        return case.text, files
    return text, files


def find_site(mon, rng, case, tries=6):
    for _ in range(tries):
        name, lines, at = sites(rng, case)
        text, files = build(case, name, lines, at, ["ZZSENTINEL"])
        mon.world(files)
        o = run.run(text, copy.deepcopy(case.env))
        if o.ok and o.value and lonely(o.value):
            mon.count("sites in " + ("an included file" if name else "the document"))
            mon.count("sites")
            return name, lines, at
        mon.count("discarded sites")
    return None


def judge(mon, out, what, stage, name, line, places, detail):
    if out.kind != "error":
        raise Violation(f"a document with one mistake ({what}) gave {out.brief()}"[:400], **detail)
    if len(out.recorder.errors) != 1:
        raise Violation(f"a document with one mistake ({what}) gave {len(out.recorder.errors)} errors", **detail)
    s, l, source = out.error()
    wanted = {line + p for p in places}
    if s == "visitor" and l is not None:
        l -= 1
    if s != stage:
        raise Violation(f"{what}: reported by the {s} instead of the {stage}: {out.text()!r}"[:400], **detail)
    if source is None or l is None:
        raise Violation(f"{what}: the error {out.text()!r} has no location", **detail)
    if os.path.normpath(source) != os.path.normpath(name or "main.mau"):
        raise Violation(f"{what}: reported in {source!r} instead of {name or 'main.mau'!r}: {out.text()!r}"[:400], **detail)
    if l not in wanted:
        raise Violation(f"{what}: reported at line {l} instead of {sorted(wanted)} (counting from 0): {out.text()!r}"[:400], **detail)
    mon.count(f"errors of the {stage}")
    mon.count("mistake: " + what)


def injected(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    site = find_site(mon, rng, case)
    if not site:
        return
    name, lines, at = site
    chosen = rng.sample(list(MISTAKES), 8)
    for what in chosen:
        rows, places, stage = MISTAKES[what]
        if "////" in rows and rows.count("////") % 2 and any(l.startswith("////") for l in lines[at:]):
            continue
        if any(r in (F, G) for r in rows) and any(F in l or G in l for l in lines):
            continue
        first = rng.random() < 0.3 and not any(l.startswith("////") for l in lines)
        if first:
            # The mistake is the first thing of the document or of the file.
            mon.count("mistakes in the first line")
            text, files = build(case, name, ["", "", *lines[:at], *lines[at + 1 :]], 0, rows)
        else:
            text, files = build(case, name, lines, at, rows)
        mon.world(files)
        if what == "inclusion of itself":
            with open("main.mau", "w") as f:
                f.write(text)
        out = run.run(text, copy.deepcopy(case.env))
        detail = dict(mistake=what, text=text, env=case.env, files=files)
        judge(mon, out, what, stage, name, 0 if first else at, places, detail)
        mon.case([what, text, files.get(name) if name else None], True, {"mistake": what, "reported": out.brief()[:200]})


# Templates that fail in all the ways a template can, or none at all.
FAILING = [
    None, None, "{{ nothing.at.all }}", "{{ nothing() }}", "{{", "{% if %}", "{% for %}", "{{ tags|nofilter }}", "{{ 1 is notest }}", "{{ 1 / 0 }}", "{{ 'a' + 1 }}",
    "{{ [][7].x }}", "{% extends 'nothing' %}", "{% include 'nothing' %}", "{% import 'nothing' as x %}", "{{ 'a' | round }}",
    "{% set tags.x = 1 %}", "{{ '%d' | format('a') }}", "{% endif %}", "{{ 'x'.encode('nothing') }}", "{{ {}['a']['b'] }}",
    "{% macro m(a) %}{% endmacro %}{{ m(1, 2, 3) }}", "{% block a %}{% endblock %}{% block a %}{% endblock %}", "{{ config.nothing.at }}",
]


def rendering(mon, rng, n):
    """Mistakes seen while rendering."""
    kinds = [k for k, v in VISITOR.items() if v]
    kind = kinds[n % len(kinds)]
    off = {"macro-unicode": "unicode", "horizontal-rule": "rule", "include": "custom", "include-image": "image", "raw": "raw", "source-line": "source",
           "macro-raw": "rawm", "verbatim": "verbatim", "list": "list", "list-item": "list", "header": "header", "macro-class": "klass"}[kind]
    extra = {"group": 0} if kind in ("horizontal-rule", "raw", "source-line") else {}
    if kind == "header":
        extra.update(toc=0, names=0)
    prof = dict(PROFILES[n % len(PROFILES)], **{off: 0}, **extra)
    case = gen.Gen(rng, prof).case()
    site = find_site(mon, rng, case)
    if not site:
        return
    name, lines, at = site
    rows, place = VISITOR[kind]
    text, files = build(case, name, lines, at, rows)
    templates = dict(echo.templates())
    form = rng.choice(FAILING)
    if form:
        templates[kind] = form
    else:
        del templates[kind]
    env = copy.deepcopy(case.env)
    env.setdefault("mau", {})["visitor"] = {"templates": {"custom": {k + ".j2": v for k, v in templates.items()}}}
    # The document without the mistake uses none of these.
    base, base_files = build(case, name, lines, at, ["text"])
    mon.world(base_files)
    if not run.run(base, copy.deepcopy(env), visitor=Echo).ok:
        mon.count("the element is already used")
        return
    mon.world(files)
    out = run.run(text, env, visitor=Echo)
    detail = dict(mistake="no template for " + kind, text=text, env=case.env, files=files)
    judge(mon, out, "rendering of " + kind, "visitor", name, at, (place,), detail)
    if out.recorder.errors[0][1].node_type != kind:
        raise Violation(f"the error about {kind} names {out.recorder.errors[0][1].node_type!r}", **detail)
    mon.count("failing templates" if form else "missing templates")
    mon.case([kind, form, text, files.get(name)], True, {"mistake": kind, "reported": out.brief()[:200]})


# Mistakes inside a line of text, and in the lines that are made of arguments.
INLINE = [
    U, "[footnote](zzno)", "[header](zzno)", "[header](zzno, text)", "[link]()", "[mailto]()", "[class]()", "[unicode]()", "[raw]()", "[image]()",
    "[if:zz](a, b)", "[ifeval:zz](a, b)", "[ifx:zz==a](a)", "[if:zz.u==a](a, b)", "[ifeval:zz.u==a](a, b)", "[ifeval:zz.v!=a](a)", "[if:zz.u==](a)", "[if:zzv==x]()",
    "[ifeval:zzv==y](zzv)", "[ifeval:zzv==x](zz)", "[kbd](*a, *b)", "[kbd](a=b, c)", "[kbd](@zz)", '[class]("q [footnote](zzno) r", k)',
    "[class](q *a [header](zzno\\)* r, k)", "*b _[footnote](zzno)_*", "[link](u, a [link]( ) b [header](zzno) c)",
]
NARROW = {"[if:zz](a, b)": "zz", "[ifeval:zz](a, b)": "zz",
          '[class]("q [footnote](zzno) r", k)': "[footnote](zzno)", "*b _[footnote](zzno)_*": "[footnote](zzno)"}
FORMS = ["%", "% end", "* %", "** % end", "# %", "= %", "==   % end", ".r %", ".  % end"]
LISTS = [f"[one, k=%]", "[%]", "<< image:a, %", "<< custom:%, b", "@if %==b", "@if a==%", ":zzq:x % y", ":zzq:%", "[kbd](a, %)"]
PIECES = ["word", "two words", "*bold*", "_a *b* c_", "`x y`", "$*$", "%_%", "[kbd](a)", "[link](u, t)", "é", "a\\*b", "日本", "\t", "^a^~b~", "[class](a, b)", "x, y", "\"q\""]


def columns(mon, rng, n):
    """Mistakes of which the columns are known."""
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    site = find_site(mon, rng, case)
    if not site:
        return
    name, lines, at = site
    for _ in range(8):
        if rng.random() < 0.3:
            form, what, before = rng.choice(LISTS), U, ""
        else:
            form, what = rng.choice(FORMS), rng.choice(INLINE)
            before = "".join(rng.choice(PIECES) + rng.choice([" ", " ", "  "]) for _ in range(rng.choice([0, 1, 2, 4])))
        line = form.replace("%", before + what, 1)
        first = form.index("%") + len(before)
        text, files = build(case, name, lines, at, [":zzv:x", "", line, ""] + (["para"] if form[0] in ".[@" else []))
        mon.world(files)
        out = run.run(text, copy.deepcopy(case.env))
        detail = dict(mistake=what, line=line, text=text, env=case.env, files=files)
        judge(mon, out, "mistake in a line", "parser", name, at, (2,), detail)
        c = out.recorder.errors[0][1].context
        narrow = NARROW.get(what, what)
        start = first + what.index(narrow)
        if not start <= c.start_column <= c.end_column <= start + len(narrow):
            raise Violation(
                f"{what} is reported at the columns {c.start_column}-{c.end_column} of {line!r}, but is at {start}-{start + len(narrow)}: {out.text()!r}"[:400], **detail
            )
        mon.count("columns compared")
        mon.count("columns of " + what)
        mon.case([what, form, text, files.get(name) if name else None], True, {"line": line, "reported": out.brief()[:200]})


CHECK = Check(
    "C06",
    rule="valid generated documents in which exactly one mistake is put at any place between elements (also in blocks, footnotes, groups and included "
    "files at any depth): the stage, the file and the line of the reported error are compared with the place of the mistake; distinct documents "
    "with a mistake count",
    kinds=[Kind("injected", injected, 1200, 20000), Kind("rendering", rendering, 700, 10000), Kind("columns", columns, 800, 12000)],
    require=["sites in the document", "sites in an included file", "errors of the parser", "errors of the lexer", "errors of the visitor", "columns compared"]
    + ["columns of " + w for w in INLINE]
    + ["mistake: " + m for m in MISTAKES] + ["mistake: rendering of " + k for k, v in VISITOR.items() if v],
    assumptions=["a mistake made of arguments and the element they belong to can be reported at either line; a name defined twice at the second definition"],
)
