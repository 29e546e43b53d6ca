"""Documents in which one construct comes many times, or deep, or long.

Faults that need the tenth footnote or the ninth column hide from documents
of ordinary size. What the text means is decided by the model, as usual.
"""

from mv import gen

COUNTS = (8, 9, 10, 11, 12, 13, 16, 17, 21, 26, 27, 33, 50, 65, 101, 128)
FENCES = "-+#%&~^!?|$;,xyzabcdefghijklmn"


def word(r):
    return r.choice(gen.PLAIN)


def size(r, top=130):
    return r.choice([c for c in COUNTS if c <= top])


def headers(r, n, files):
    out = []
    deep = r.random() < 0.3
    for i in range(n):
        if r.random() < 0.3:
            out.append(f"[name=h{i}]" if r.random() < 0.6 else f"[internal_id=i{i}]")
        level = min(i + 1, 40) if deep else r.randint(1, r.choice([2, 4, 9]))
        out += ["=" * level + f" {word(r)} {i % r.choice([3, n])}", ""]
    names = [x[6:-1] for x in out if x.startswith("[name")]
    # The same header can be named many times, also in other paragraphs.
    picks = r.sample(names, min(len(names), r.choice([1, 12]))) if r.random() < 0.5 else r.choices(names, k=r.choice([3, 12, 30])) if names else []
    for name in picks:
        out += [f"[header]({name})" + (f" and [header]({name}, {word(r)})" if r.random() < 0.5 else ""), ""]
    out += ["<<toc", ""] * r.choice([1, 1, 2])
    return out


def footnotes(r, n, files):
    out, order = [], list(range(n))
    r.shuffle(order)
    named = r.sample(order, r.choice([1, n])) if r.random() < 0.6 else r.choices(order, k=r.choice([3, 12, 40]))
    macros = r.choice([" ", " ", "\n", "\n\n"]).join(f"{word(r)}[footnote](f{i})" for i in named)
    body = []
    for i in order:
        body += [f"[footnote=f{i}]", "----", f"{word(r)} {i}", "----", ""]
    out += [macros, ""] + body + ["<<footnotes"] if r.random() < 0.5 else ["<<footnotes", ""] + body + [macros]
    return out


def group(r, n, files):
    out, groups = [], [f"g{i}" for i in range(r.choice([1, 1, 2, 5]))]
    for i in range(n):
        out += [f"[group={r.choice(groups)}, position=p{i}]", "----", f"{word(r)} {i}", "----", ""]
    used = [g for g in groups if any(f"={g}," in x for x in out)]
    for g in used:
        out += [f"<<blockgroup:{g}", ""]
    return out


def items(r, n, files):
    out, level = [], 1
    kind = r.choice(["flat", "deep", "mixed", "saw"])
    for i in range(n):
        if kind == "deep":
            level = min(i + 1, 30)
        elif kind == "mixed":
            level = max(1, level + r.choice([-3, -1, 0, 0, 1, 2]))
        elif kind == "saw":
            level = 1 + i % r.choice([2, 3, 7])
        out.append(" " * r.choice([0, 0, r.randint(0, 24)]) + r.choice("*#") * level + " " + f"{word(r)} {i}")
    start = r.choice(["[start=auto]", f"[start={size(r)}]", "", ""])
    return ([start] if start else []) + out + ["", "[start=auto]", "# next", ""]


def lists(r, n, files):
    out = []
    for _ in range(n):
        start = r.choice(["[start=auto]", "[start=auto]", f"[start={r.randint(-3, 120)}]", ""])
        out += ([start] if start else []) + [f"{r.choice('##*')} {word(r)}"] * r.randint(1, 4) + [""]
    return out


def source(r, n, files):
    lines = [r.choice(["code", "", "  x", "a:b", "u: v", "\ty"]) + r.choice(["", "", f":{i}:", ":@:", f":@{word(r)}:", ": m :"]) for i in range(n)]
    return ["[@source, python]" if r.random() < 0.7 else "[engine=raw]", "----"] + lines + ["----"]


def lines(r, n, files):
    return [f"{word(r)} {r.choice(['*b*', 'x', '_c_', '`v`'])} {i}" for i in range(n)]


def line(r, n, files):
    pieces = ["*b*", "_c_", "`v`", "[link](u, t)", "[class](t, c)", "[mailto](m@x)", "[image](i)", "[k](a)", "\\*", "$q$", "[unicode](e9)", "{{l}}", "^u^", "~d~"]
    one = [r.choice(pieces)] if r.random() < 0.3 else pieces
    return [r.choice(["", "= "]) + " ".join(r.choice(one) if r.random() < 0.6 else word(r) for _ in range(n))]


def long_word(r, n, files):
    return [r.choice(["= ", "* ", ". ", "", ".", "<< ", ":v:", "// "]) + r.choice(["a", "xyz ", "é", "0", "a_", "a-"]) * n, "b"]


def arguments(r, n, files):
    parts = [r.choice([word(r), f'"{word(r)}, x"', f"#{word(r)}", "a\\, b"]) for _ in range(n)]
    named = [f"k{i}={r.choice([word(r), chr(34) + 'v, w' + chr(34), ''])}" for i in range(r.choice([0, n]))]
    target = r.choice(["x", "= x", "* x", "---", "<<custom", "----\nx\n----", "[m]"])
    if target == "[m]":
        return ["[m](" + ", ".join(p for p in parts + named if "\\" not in p) + ")"]
    return ["[" + ", ".join(parts + named) + "]", target]


def labels(r, n, files):
    return [f".r{i % r.choice([4, 200])} {word(r)} {i}" for i in range(n)] + [r.choice(["x", "= x", "* x", "---", "<<custom", "<<toc", "----\nx\n----"])]


def variables(r, n, files):
    out = [f":{r.choice(['v', 'n.s', 'n.s.t'])}{i}:{word(r)}{i}" for i in range(n)]
    names = [x.split(":")[1] for x in out]
    if r.random() < 0.5:
        out += [f":w{i}:" + "{" + r.choice(names) + "}{" + (f"w{i - 1}" if i else names[0]) + "}" for i in range(min(n, 12))]
        names.append(f"w{min(n, 12) - 1}")
    return out + ["", " ".join("{" + r.choice(names) + "}" for _ in range(n))]


def nested(r, n, files):
    n = min(n, 20)
    args = [r.choice(["", "", "[isolate=false]", "[a=1]", ".x y"]) for _ in range(n)]
    out = []
    for i in range(n):
        out += ([args[i]] if args[i] else []) + [FENCES[i] * 4] + ([word(r), ""] if r.random() < 0.3 else [])
    out += ["= deep", "", "x" + r.choice(["", "[footnote](f)"])]
    if out[-1] != "x":
        out += ["", "[footnote=f]", "@@@@", "y", "@@@@"]
    for i in reversed(range(n)):
        out += [FENCES[i] * 4] + (["", f":v{i}:1"] if r.random() < 0.2 else [])
    return out + ["", "<<toc"]


def chain(r, n, files):
    n = min(n, 30)
    for i in range(n):
        name, nxt = f"c{i}.mau", f"c{i + 1}.mau"
        rows = [f":w{i}:{word(r)}"] * r.choice([0, 1]) + [word(r), ""]
        if i < n - 1:
            rows += [f"<<mau:{nxt}" + r.choice(["", "", f", call:z=d{i}", ", pass_environment=false"])]
        files[name] = "\n".join(rows) + r.choice(["", "\n"])
    return ["a", "", "<<mau:c0.mau", "", "b"]


def repeated(r, n, files):
    n = min(n, 30)
    files["x.mau"] = "= h\n\n[footnote](f) x\n\n[footnote=f]\n----\ny\n----\n"
    files["x.txt"] = "\n".join(word(r) for _ in range(n))
    out = []
    for i in range(n):
        out += [r.choice(["<<mau:x.mau", "<<raw:x.txt", f"<<mau:x.mau, call:n={i}"]), ""]
    return out


def apart(r, n, files):
    """Elements far from each other, and attachments far from what they are for."""
    gap = lambda: r.choice([[""], ["// c"], ["////", "x", "////"], ["   "]]) * r.choice([1, n])
    return gap() + ["a"] + [""] + gap() + ["[k=1]", ".t x"] + r.choice([[], gap()]) + [r.choice(["b", "= b", "* b", "---", "<<custom"])] + [""] + gap()


def conditions(r, n, files):
    out = [":a:1", ":b:2"]
    for i in range(n):
        out += [r.choice(["@if a==1", "@if a!=1", "@if b==2", "@if a=={b}", ""]), r.choice(["x", "= x", "* x", "---", "<<custom", "----\n:a:3\n----", ":b:1"]) + ("" if r.random() < 0.5 else ""), ""]
    return [x for x in out if x != "@if a=={b}" or True]


def classes(r, n, files):
    cs = [f"{word(r)}{i % 7}" for i in range(n)]
    return r.choice([["[class](x, " + ", ".join(cs) + ")"], ['[classes="' + ",".join(cs) + '"]', "----", "x", "----"], ['<<image:u, a, "' + ",".join(cs) + '"']])


def blocks(r, n, files):
    out = []
    for i in range(n):
        out += [r.choice(["[isolate=false]", "[isolate=false]", "", "[k=1]"])] + ["----", r.choice(["= h", "x", f":v{i}:1", "# i", "[start=auto]\n# i"]), "----", ""]
    return [x for x in out] + ["<<toc", "", "[start=auto]", "# z"]


KINDS = [headers, footnotes, group, items, lists, source, lines, line, long_word, arguments, labels, variables, nested, chain, repeated, apart, conditions, classes, blocks]


NAMES = {kind.__name__: kind for kind in KINDS}


def case(rng, kinds=None):
    files = {}
    out = []
    wanted = [NAMES[k] for k in kinds.split()] if kinds and rng.random() < 0.7 else KINDS
    for kind in rng.sample(wanted, min(len(wanted), rng.choice([1, 1, 1, 2]))):
        out += kind(rng, size(rng), files) + ["", ""]
    return gen.Case("\n".join(out), {}, files)
