"""Hostile texts: mutations of valid documents, token soups, short strings."""

import itertools

from mv import gen

PIECES = [
    "", " ", "\t", "a", "word", "=", "==", "= h", "*", "* i", "** j", "#", "# i", "[", "]", "(", ")", "[a]", "[x](",
    "[link](", "[link](u, t)", "[header](h)", "[footnote](f)", "[image](i)", "[class](t, c)", "[unicode](2014)",
    "[raw](x)", "[if:a==b](x, y)", "[ifeval:a==b](a, b)", "[mailto](m)", '[link]("', '"', '"q"', "\\", "\\\\", '\\"',
    "{", "}", "{a}", "{{a}}", "\\{", "`", "`c`", "``", "$", "%", "_", "~", "^", "*b*", "_u_", "::", ":", ":a:", ":a:b",
    ":+f:", ":-f:", ":a", "<<", "<< ", "<< toc", "<< footnotes", "<< blockgroup:g", "<< image:", "<< image:i",
    "<< mau:f1.mau", "<< mau:nope", "<< raw:f2.txt", "<< raw:sub", "<< x", "----", "++++", "////", "//", "// c", "---",
    "....", "@", "@if", "@if ", "@if a==b", "@if a", "@unless a==b", "@if a==", ".", ". l", ".r t", ".r", "[name=h]",
    "[footnote=f]", "[group=g, position=p]", "[engine=source]", "[engine=raw]", "[engine=zz]", "[@source, python]",
    "[*s, #t, a, k=v]", "[a=", "[=b]", "[,]", "[,,a]", "[*a,*b]", "[@zz]", "[isolate=false]", "[start=x]", "[start=auto]",
    "[marker_delimiter=|]", "[classes=]", "é", "漢", "🎉", "\u2028", "\u00a0", "\u200b", "\x00", "\x0c", "\x0b", "\r",
    "a,b", "a=b", "k=\"v", "#mau:debug", "[#mau:debug]", "x" * 60,
]
CHARS = list("ab =*#_^~`[](){}\"\\$%:<@./-+!,\n\n\n") + ["é", "\u2028", "\t", "\r"]

# Characters of the exhaustive short texts.
ALPHABET = ["a", " ", "\n", "=", "*", "[", "]", "(", ")", '"', "\\", "{", "}", "`", ":", "<", "@", ".", "/", "_", "$", ",", "-", "#"]


def shorts(length):
    return len(ALPHABET) ** length


def short(index, length):
    out = []
    for _ in range(length):
        index, k = divmod(index, len(ALPHABET))
        out.append(ALPHABET[k])
    return "".join(out)


def mutate(rng, text):
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not text:
            return rng.choice(PIECES)
        k = rng.randrange(9)
        i = rng.randrange(len(text) + 1)
        j = min(len(text), i + rng.choice([1, 1, 2, 3, 10, 40]))
        lines = text.split("\n")
        a = rng.randrange(len(lines))
        if k == 0:
            text = text[:i] + text[j:]
        elif k == 1:
            text = text[:i] + rng.choice(PIECES) + text[i:]
        elif k == 2:
            text = text[:i] + rng.choice(CHARS) + text[i:]
        elif k == 3:
            text = text[:i] + rng.choice(CHARS) + text[j:]
        elif k == 4:
            del lines[a]
            text = "\n".join(lines)
        elif k == 5:
            lines.insert(a, rng.choice(PIECES))
            text = "\n".join(lines)
        elif k == 6:
            lines.insert(rng.randrange(len(lines) + 1), lines[a])
            text = "\n".join(lines)
        elif k == 7:
            text = text[:i]
        else:
            b = rng.randrange(len(lines))
            lines[a], lines[b] = lines[b], lines[a]
            text = "\n".join(lines)
    return text


FORMS = (
    "[link]({a})|[link](u, {a})|[mailto]({a})|[image](i, {a}, {b}, {c})|[image](i, width={a}, height={b})|[image]({a})|[class](t, {a}, {b})|[unicode]({a})|[unicode]({a}, {b})|[raw]({a})|"
    "[raw]({a}, {b})|[header]({a})|[footnote]({a})|[if:a=={a}]({b}, {c})|[if:{a}==b](x)|[ifeval:a=={a}](a, {b})|[{a}]({b})|[if:{a}]({b})|[ifx:{a}]({b})|"
    "[start={a}]\n# one|[start={a}]\n* one|[name={a}]\n= h|[internal_id={a}]\n= h\n\n<< toc|[footnote={a}]\n----\nt\n----\n|[group={a}, position={b}]\n----\nt\n----\n|"
    "[engine={a}]\n----\nt\n----\n|[classes={a}]\n----\nt\n----\n|[isolate={a}]\n----\nt\n----\n|[engine=source, language={a}, marker_delimiter={b}, highlight_marker={c}]\n----\nt{b}x{b}\nt{b}{c}{b}\n----\n|"
    "[engine=source, highlight_default_style={a}]\n----\nt:@:\n----\n|[{a}]\n<< image|[i, {a}, {b}]\n<< image|<< image:{a}|<< image:i, alt_text={a}, classes={b}|<< mau:{a}|<< raw:{a}|<< blockgroup:{a}|"
    "<< {a}|<< {a}:{b}|<< toc:{a}|<< footnotes:{a}|:{a}:{b}|:{a}.{b}:{c}|:+{a}:|:-{a}:|@if {a}=={b}\nx|@if {a}!={b}\nx|@if {a}\nx|@{a} {b}\nx|@{a} a=={b}\nx|.{a} {b}\nx|. {a}\nx|[*{a}]\nx|[@{a}]\nx|[#{a}]\nx|"
    "[#mau:{a}]\nx|[{a}={b}]\nx|{{a}}|x {{{a}}} y|{{a}.{b}}|= {a}|* {a}|*{a}*|_{a}_|`{a}`|${a}$|\\{a}|////\n{a}\n////|// {a}"
).split("|")


def odd(rng):
    """Constructs with values that look like something else."""
    value = lambda: rng.choice(gen.ODD) if rng.random() < 0.6 else rng.choice(["", " ", "a", "-5", "\uff15", "\U0001d7d8", "\u0967", "1" * 5000, "0x", "0o7", "0b2", "1_0", "é" * 40, "..", "a\\", '"', "'", "%s", "{0}",
        "f1.mau", "f2.txt", "h", "n", "g", "p", "if", "auto", "true", "false", "raw", "source", "default"])
    out = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        s = rng.choice(FORMS)
        for k in "abc":
            s = s.replace("{" + k + "}", value())
        out.append(s)
    return rng.choice(["\n", "\n\n", " "]).join(out)


def soup(rng):
    if rng.random() < 0.4:
        return odd(rng)
    n = rng.choice([1, 2, 3, 5, 8, 14, 25])
    out = []
    for _ in range(n):
        if rng.random() < 0.7:
            out.append(rng.choice(PIECES))
        else:
            out.append("".join(rng.choice(CHARS) for _ in range(rng.randint(1, 6))))
        out.append(rng.choice(["\n", "\n", "", " ", "\n\n"]))
    return "".join(out)


VALUES = [
    "x", "", "two words", None, True, False, 0, -3, 2.5, [], ["a", 1], "{a}", "{", "*", "[link](", '"', "\\", "`", "a\nb",
    "é🎉", "= h", "\n", "[name=h]", ("t",), b"bytes", object, float("nan"),
]


def config(rng):
    env = {}
    for _ in range(rng.randrange(5)):
        env[rng.choice(["a", "b", "flag", "a.b", "cfg.x", "v", "name", "n.m.o", "mau.envvars.x", ""])] = rng.choice(VALUES)
    if rng.random() < 0.3:
        p = {}
        if rng.random() < 0.5:
            p["aliases"] = rng.choice(
                [{}, {"source": {}}, {"zz": {"args": {"k": "v"}, "names": ["a"], "subtype": "s"}},
                 {"zz": {"names": ["a", "a"]}}, {"zz": {"args": {}}}, {"zz": {"subtype": None}}]
            )
        if rng.random() < 0.4:
            p["source_highlight_style_aliases"] = rng.choice([{}, {"+": "x"}, {"q": "zz", "default": "d"}])
        env["mau"] = {"parser": p}
    return env


def document(rng):
    return gen.Gen(rng, rng.choice([gen.DEFAULT, gen.profile(elements=(1, 3), depth=1)])).case()
