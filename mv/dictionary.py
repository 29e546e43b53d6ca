"""Words and line shapes taken from the source code under test.

The generators write mostly what the documentation shows. What the code
compares its input with (constants) and the shapes that it recognises (regular
expressions) are collected here, so that the workloads contain them, and near
misses of them, wherever a text can be written. What they mean is still decided
by the model: the dictionary changes which documents are tried and nothing else.
"""

import ast
import functools
import glob
import json
import os
import re

try:
    from re import _constants as sc, _parser as sp
except ImportError:  # pragma: no cover
    import sre_constants as sc
    import sre_parse as sp

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "dictionary.json")
FUNCTIONS = {"rematch", "match", "compile", "sub", "split", "search", "fullmatch", "findall", "finditer"}
ANY = list("ab xyZ019_-.:=#*[](){}<>@\"\\/+,`~^%$!") + ["é", "\t", "\u00a0", "\u2028", "\x0c", "  ", "漢", "Ω", "\u0663"]


def repo():
    return os.environ.get("VERIF_REPO", "/repo")


def collect(root):
    """The short texts, the regular expressions, and the numbers of the code."""
    tokens, shapes, numbers = set(), set(), set()
    for path in sorted(glob.glob(os.path.join(root, "mau", "**", "*.py"), recursive=True)):
        try:
            tree = ast.parse(open(path, encoding="utf-8").read())
        except (SyntaxError, UnicodeDecodeError):
            continue
        skip = set()
        for node in ast.walk(tree):
            body = getattr(node, "body", None)
            if isinstance(body, list):
                for x in body:
                    # Docstrings, and what has no effect.
                    if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                        skip.add(id(x.value))
            if isinstance(node, ast.Call):
                name = node.func.attr if isinstance(node.func, ast.Attribute) else getattr(node.func, "id", "")
                if name in FUNCTIONS and node.args and isinstance(node.args[0], ast.Constant) and isinstance(node.args[0].value, str):
                    if valid(node.args[0].value):
                        shapes.add(node.args[0].value)
        for node in ast.walk(tree):
            if not isinstance(node, ast.Constant) or id(node) in skip:
                continue
            v = node.value
            if isinstance(v, str):
                if ("(?P<" in v or v[:1] == "^" or "[^" in v) and valid(v):
                    shapes.add(v)
                elif 0 < len(v) <= 24 and v.count(" ") < 3 and "\n" not in v and v not in shapes:
                    tokens.add(v)
            elif isinstance(v, int) and not isinstance(v, bool) and 1 < v <= 64:
                numbers.add(v)
    # Messages, and shapes that match next to nothing.
    tokens = {t for t in tokens if not re.search(r"(?<=\w)['.:] ?$|^Token|^-[-\w]|^[A-Z][a-z]+ ", t)}
    shapes = {t for t in shapes if len(t) > 3}
    return tokens, shapes, numbers


def valid(s):
    try:
        sp.parse(s)
        return True
    except (re.error, OverflowError):
        return False


@functools.lru_cache(maxsize=None)
def load():
    """Words, shapes and numbers as lists to choose from. New ones are more frequent."""
    tokens, shapes, numbers = collect(repo())
    try:
        known = json.load(open(BASE, encoding="utf-8"))
    except OSError:
        known = {"tokens": [], "shapes": [], "numbers": []}
    out = []
    for name, found in (("tokens", tokens), ("shapes", shapes), ("numbers", numbers)):
        old = sorted(found & set(known[name]))
        new = sorted(found - set(known[name]))
        if not old and not new:
            new = [{"tokens": "x", "shapes": "x", "numbers": 5}[name]]
        out.append((old, new))
    return out


def choose(rng, k):
    old, new = load()[k]
    if new and (not old or rng.random() < 0.5):
        return rng.choice(new)
    return rng.choice(old)


def number(rng):
    return choose(rng, 2) + rng.choice([-1, 0, 0, 1])


SAFE = re.compile(r"[a-zA-Z0-9_.\-]+")


def name(rng):
    """A word that is fine as a name."""
    for _ in range(20):
        t = token(rng)
        # Not the names of the configuration.
        if SAFE.fullmatch(t) and not t.lower().startswith("mau.") and t != "_type":
            return t
    return rng.choice(["mau", "toc", "x"])


def token(rng):
    """A word of the code, often next to something else."""
    t = choose(rng, 0)
    k = rng.randrange(16)
    w = rng.choice(["a", "x1", "zeta", "0", "é"])
    if k < 6:
        return t
    return [t + w, w + t, t + t, t.upper(), t.capitalize(), " " + t, t + " ", w + " " + t, t + " " + w, t + "." + w][k - 6]


def shape(rng, wild=0.08):
    """A line that one of the regular expressions matches, or almost."""
    s = "".join(emit(rng, sp.parse(choose(rng, 1)), wild, {}))
    if rng.random() < 0.15 and s:
        i = rng.randrange(len(s) + 1)
        s = s[:i] + rng.choice(ANY) + s[i:]
    if rng.random() < 0.1 and s:
        i = rng.randrange(len(s))
        s = s[:i] + s[i + 1 :]
    return s.replace("\n", " ")


def emit(rng, items, wild, groups):
    out = []
    for op, arg in items:
        if op is sc.LITERAL:
            out.append(rng.choice(ANY) if rng.random() < wild else chr(arg))
        elif op is sc.NOT_LITERAL or op is sc.ANY:
            out.append(filler(rng))
        elif op is sc.IN:
            out.append(rng.choice(ANY) if rng.random() < wild else member(rng, arg))
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            low, high, sub = arg
            n = rng.choice([low, low, low + 1, low + 1, low + 2, low + rng.randint(0, 6)])
            if rng.random() < wild:
                n = max(0, low - 1)
            else:
                n = min(n, int(high))
            if n and list(sub)[0][0] is sc.ANY and rng.random() < 0.8:
                out.append(phrase(rng))
            else:
                for _ in range(n):
                    out.extend(emit(rng, sub, wild, groups))
        elif op is sc.SUBPATTERN:
            got = emit(rng, arg[-1], wild, groups)
            groups[arg[0]] = got
            out.extend(got)
        elif op is sc.GROUPREF:
            out.extend(groups.get(arg, []))
        elif op is sc.BRANCH:
            out.extend(emit(rng, rng.choice(arg[1]), wild, groups))
        elif op in (sc.ASSERT, sc.ASSERT_NOT, sc.AT):
            pass
    return out


def phrase(rng):
    k = rng.randrange(8)
    words = "alpha beta gamma x y 42 é".split()
    if k < 3:
        return rng.choice(words)
    if k < 5:
        return " ".join(rng.choice(words) for _ in range(rng.randint(2, 4)))
    if k == 5:
        return token(rng)
    if k == 6:
        return "".join(rng.choice(ANY) for _ in range(rng.randint(0, 5)))
    return rng.choice(["a, b", "k=v", "a=b, c", "", " ", "#t", "*s", "a==b", "a != b", "toc", "x ", " x"])


def filler(rng):
    return rng.choice("abcxyz") if rng.random() < 0.7 else rng.choice(ANY)


def member(rng, items):
    negate = items and items[0][0] is sc.NEGATE
    if negate:
        for _ in range(20):
            c = filler(rng)
            if len(c) == 1 and not any(inside(c, x) for x in items[1:]):
                return c
        return "a"
    op, arg = rng.choice(items)
    if op is sc.LITERAL:
        return chr(arg)
    if op is sc.RANGE:
        return chr(rng.randint(*arg)) if rng.random() < 0.7 else chr(rng.choice(arg))
    if op is sc.CATEGORY:
        return {sc.CATEGORY_DIGIT: "7", sc.CATEGORY_SPACE: rng.choice([" ", "\t", "\u00a0"]), sc.CATEGORY_WORD: rng.choice("aZ_9é")}.get(arg, "-")
    return "a"


def inside(c, item):
    op, arg = item
    if op is sc.LITERAL:
        return ord(c) == arg
    if op is sc.RANGE:
        return arg[0] <= ord(c) <= arg[1]
    if op is sc.CATEGORY:
        return {sc.CATEGORY_DIGIT: c.isdigit(), sc.CATEGORY_SPACE: c.isspace(), sc.CATEGORY_WORD: c.isalnum() or c == "_"}.get(arg, False)
    return False


if __name__ == "__main__":
    # Write what the code contains now.
    json.dump(dict(zip(("tokens", "shapes", "numbers"), (sorted(x) for x in collect(repo())))), open(BASE, "w", encoding="utf-8"), indent=0)
