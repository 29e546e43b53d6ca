"""Reckless changes of generated documents: the model says what they mean."""

import re

from mv import dictionary, gen

CHARS = list("*_^~`$%[]()\"\\{}=,#@:.<>/+-! \t") + ["é", "\u2028", "\x0c", "\x85", "  ", "//", "{{", "}}", "<<", "@if", ":", "....", "****"]
NAME = re.compile(r"\b[hngp]\d+\b")
LINES = ["", "  ", "// note", "[zz, k=1]", "[*st]", "[#tg]", ". lab", ".role lab", "----", "++++", "* item", "# one", "## two", "= head", "== head",
         "---", "<< toc", "<< footnotes", ":+flag:", ":v:text", "@if v==text", "@if v!=text", "text", "{v}", "[name=h1]", "[start=auto]", "[engine=raw]", "[isolate=false]"]


def mutate(rng, text, files, times=None):
    """Returns a changed text. The files are changed in place."""
    lines = text.split("\n")
    for _ in range(times or rng.choice([1, 1, 1, 2, 3])):
        target, name = lines, None
        if files and rng.random() < 0.2:
            name = rng.choice(sorted(files))
            if isinstance(files[name], bytes):
                name = None
            else:
                target = files[name].split("\n")
        step(rng, target)
        if name:
            files[name] = "\n".join(target)
    return "\n".join(lines)


def step(rng, lines):
    k = rng.choice("dup dup dup move del swap name name name char char drop line line trail case near shape token".split())
    if not lines:
        lines.append("")
    i = rng.randrange(len(lines))
    n = rng.choice([1, 1, 2, 3, 4])
    if k == "dup":
        chunk = lines[i : i + n]
        j = rng.choice([i, i + len(chunk), rng.randint(0, len(lines))])
        if rng.random() < 0.5:
            chunk = ["", *chunk, ""]
        lines[j:j] = chunk
    elif k == "move":
        chunk = lines[i : i + n]
        del lines[i : i + n]
        j = rng.randint(0, len(lines))
        lines[j:j] = chunk
    elif k == "del":
        del lines[i : i + n]
    elif k == "swap" and len(lines) > 1:
        j = rng.randrange(len(lines))
        lines[i], lines[j] = lines[j], lines[i]
    elif k == "name":
        whole = "\n".join(lines)
        found = list(NAME.finditer(whole))
        if found:
            m = rng.choice(found)
            other = rng.choice(found).group() if rng.random() < 0.8 else "zz"
            lines[:] = (whole[: m.start()] + other + whole[m.end() :]).split("\n")
    elif k == "char":
        s = lines[i]
        j = rng.randint(0, len(s))
        lines[i] = s[:j] + rng.choice(CHARS) + s[j:]
    elif k == "drop" and lines[i]:
        s = lines[i]
        j = rng.randrange(len(s))
        lines[i] = s[:j] + s[j + 1 :]
    elif k == "line":
        lines.insert(i, rng.choice(LINES))
    elif k == "near":
        lines.insert(i, rng.choice(gen.NEAR))
    elif k == "shape":
        lines.insert(i, dictionary.shape(rng))
    elif k == "token":
        s = lines[i]
        words = list(re.finditer(r"[\w.]+", s))
        if words and rng.random() < 0.7:
            m = rng.choice(words)
            lines[i] = s[: m.start()] + dictionary.token(rng) + s[m.end() :]
        else:
            j = rng.randint(0, len(s))
            lines[i] = s[:j] + dictionary.token(rng) + s[j:]
    elif k == "trail":
        lines[i] += " " * rng.randint(1, 3)
    elif k == "case" and lines[i]:
        s = lines[i]
        j = rng.randrange(len(s))
        lines[i] = s[:j] + s[j] * 2 + s[j + 1 :]
