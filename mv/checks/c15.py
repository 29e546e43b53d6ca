"""Headers and tables of contents."""

import hashlib
import re

from mv import gen, run, views
from mv.core import Check, Kind, Violation
from mv.diff import Differential

differential = Differential(
    views.v_headers,
    codes=(),
    kinds="headers long_word",
    profiles=[
        gen.focus("header", "toc", "style", header=12, toc=3),
        gen.focus("header", "toc", "block", "mau", header=10, toc=4, block=6, mau=2, isolate_false=0.5),
        gen.focus("header", "toc", "headerlink", "label", "footnote", "klass", header=10, toc=4, headerlink=2),
    ],
)

# Letters that identifiers do not show.
OTHER = ["é", "è", "É", "漢", "字", "ß", "ж", "Ж", "ø", "ñ", "٣", "α", "Α", "ä", "ë"]
WORDS = ["ab", "cd", "ef", "Gh", "x1", "42", "a-b", "v.w", "été", "漢", "a/b", "Straße", "1:2", "İx", "K"]


def styled(rng, words):
    """The same words, with styles and macros around some of them. Returns a text without style characters inside words."""
    out = []
    i = 0
    while i < len(words):
        n = rng.choice([1, 1, 2, 3])
        chunk = words[i : i + n]
        i += n
        s = " ".join(chunk)
        k = rng.random()
        if k < 0.3 and len(chunk) > 1:
            a, b = rng.sample("*_^~", 2)
            s = f"{a}{b}{chunk[0]}{b} {' '.join(chunk[1:])}{a}" if rng.random() < 0.5 else f"{a}{chunk[0]} {b}{' '.join(chunk[1:])}{b}{a}"
        elif k < 0.45:
            a, b = rng.sample("*_^~", 2)
            s = f"{a}{b}{s}{b}{a}"
        elif k < 0.6:
            m = rng.choice("*_^~`")
            s = f"{m}{s}{m}"
        elif k < 0.7:
            s = f"[class]({s}, k)"
        out.append(s)
    return " ".join(out)


def permanent(mon, level, text, identifier, document):
    """Identifiers are used in permanent links, so they are always the same."""
    shown = re.sub(" +", "-", re.sub("[^a-z0-9. -]", "", text.lower()))
    wanted = f"{shown}-{hashlib.md5(f'{level} {text}'.encode()).hexdigest()[:4]}"
    if identifier != wanted:
        raise Violation(f"the header {text!r} of level {level} has the identifier {identifier!r} instead of {wanted!r}", text=document)
    mon.count("permanent identifiers")


def letters(mon, rng, n):
    """Texts that differ in letters that are not in the alphabet of the identifiers."""
    stem = rng.choice(["", "ab", "a b", "caf", "x1 ", "x_y", "a  b, ", "v.1-"])
    end = rng.choice(["", "", "s", " c"])
    level = rng.choice([1, 2, 3])
    texts = [stem + o * rng.choice([1, 1, 2]) + end for o in rng.sample(OTHER, rng.randint(4, 6))]
    rows = ["=" * level + " " + t for t in texts]
    if rng.random() < 0.3:
        # The same text at many levels.
        texts = [rng.choice(texts + ["head", "a b"])]
        rows = ["=" * k + " " + texts[0] for k in rng.sample(range(1, rng.choice([8, 16, 40])), 7)]
    text = "\n\n".join(rows) + "\n"
    o = run.run(text)
    if not o.ok:
        raise Violation(f"a document with headers gave {o.brief()}"[:300], text=text)
    ids = [h["internal_id"] for h in run.normal(o.value)["content"]]
    for row, x in zip(rows, ids):
        marks, _, t = row.partition(" ")
        permanent(mon, len(marks), t, x, text)
    # The library admits that identifiers can clash, which is unlikely for one pair of texts and out of the question for three.
    clashes = [(a, b) for i, a in enumerate(ids) for b in ids[:i] if a == b]
    mon.count("letters compared", len(ids))
    if len(clashes) > 2:
        raise Violation(f"the headers {rows} have the identifiers {ids}", text=text)
    mon.case(["letters", text], True)


def identifiers(mon, rng, n):
    """Identifiers depend on the level and the text, and on nothing else."""
    texts = []
    for _ in range(rng.randint(2, 5)):
        t = [rng.choice(WORDS) for _ in range(rng.randint(1, 4))]
        if texts and rng.random() < 0.5:
            # A single word makes the difference.
            t = list(rng.choice(texts))
            t[rng.randrange(len(t))] = rng.choice(WORDS)
        texts.append(t)
    rows, keys = [], []
    for _ in range(rng.randint(2, 8)):
        t, level = rng.choice(texts), rng.choice([1, 1, 2, 3, 7])
        if rng.random() < 0.2:
            rows += rng.choice([["text", ""], ["<< toc", ""], ["// c"], [":v:1"], ["[#tg, name=h%d]" % len(rows)], [". lab"], ["[footnote=f%d]" % len(rows), "----", "x", "----"]])
        rows += ["=" * level + " " + styled(rng, t), ""]
        keys.append((level, " ".join(t)))
    text = "\n".join(rows)
    mon.world({})
    o = run.run(text)
    if not o.ok:
        raise Violation(f"a document with headers gave {o.brief()}"[:300], text=text)
    seen = [h["internal_id"] for h in run.normal(o.value)["content"] if h["_type"] == "header"]
    if len(seen) != len(keys):
        raise Violation(f"{len(seen)} headers appear instead of {len(keys)}", text=text)
    for (level, t), x in zip(keys, seen):
        permanent(mon, level, t, x, text)
    for i, (a, x) in enumerate(zip(keys, seen)):
        for b, y in list(zip(keys, seen))[:i]:
            mon.count("identifiers compared")
            if a == b and x != y:
                raise Violation(f"the headers {a} and {b} have identifiers {x!r} and {y!r}", text=text)
            plain = [re.sub("[^a-z0-9]", "", k[1].lower()) for k in (a, b)]
            if plain[0] != plain[1] and x == y:
                raise Violation(f"the headers {a} and {b} share the identifier {x!r}", text=text)
    mon.case([text], len(set(keys)) > 1, {"text": text, "identifiers": seen})


CHECK = Check(
    "C15",
    rule="documents from the generator; a case is non-trivial when there are headers or tables of contents and they were not seen before",
    kinds=[Kind("differential", differential, 4000, 60000), Kind("identifiers", identifiers, 800, 20000), Kind("letters", letters, 400, 4000)],
    require=["events compared", "letters compared", "identifiers compared", "permanent identifiers"],
)
