"""Random documents.

The generator writes source text only; what the text must produce is decided
by the model (ref.py), so the generator is free to be reckless. It keeps track
of the names that are defined to make most of the documents valid.
"""

import os
import re

from mv import dictionary

# Values that look like something else.
ODD = (
    "0x1F 0xzz 0b11 50% 10px auto 1.5 -1 +1 1e3 99999999999999999999 \u0663 \u00bd \u00b2 None null true True false False yes no on off nan inf 1_000 00 007 a/b "
    "file:///x javascript:x mailto:x &amp; <b> %20 \u00df \u0130 \uff21\uff22 e\u0301 \u200b \u00a0x x\u00a0 x\t a\tb \x0cx y\x0b UPPER Mixed "
    "content _type type source default mau title :x x: a:b a..b .x x. a-- --b __a__ 'q' it's a? !a a! ~a ^a a+b a|b a;b $x x$ {{v}} 1F30B"
).split(" ")
TAILS = ["\t", "\u00a0", "\u3000", "\x0c", "\u2028", " \t", "\\", "\u200b", ".", ":", ",", "=", "]", "[", "\x1f", "\x85"]
FENCES = list("-+#*=%&~^_!?|$.:;,xé@")
ROLES = "_context parent content labels kwargs items x".split()
WORDS = (
    "alpha beta gamma delta omega lorem ipsum dolor sit amet x y z 42 3.14 été "
    "naïve 漢字 emoji🎉 a-b foo.bar it's word, end. (par) {{lit}} #tag @at = == : :: ; "
    "& < > | + - / // // ... ---- ! ? 1) e.g. http://a.b/c?d=e&f a=b k=v,w"
).split()
PLAIN = "alpha beta gamma delta omega lorem ipsum dolor sit amet red green blue one two".split()
IDENT = "a b c foo bar baz qux n1 n2 main intro key.one key.two k-1 ref3".split()
VARS = "v w name uri flag a.b a.c cfg.x.y n-1 Z9 v.w".split()
KEYWORDS = (
    "uri pass_environment group position engine isolate footnote classes name language subtype text target call call.uri x.call args names title "
    "width height alt_text position marker_delimiter highlight_marker start tags internal_tags"
).split()
NEAR = (
    "- --|-- -|--- -|--|-----|--- |---\t|--.|- - -|/ /|/ / c|//|/|///|// //|////x|//// ////|////////|=|==|= =|= |=\th|=x|==x|===|.|..|. |.. x|...|. .x|.a|.A b|.a.b c|"
    ". a|.é f|.1 x|.-_ z|[|]|[]|[[]]|[ ]|[a] |[a]b|[a][b]|[a|a]| [a]|[=]|[,]|[a,]|@|@ if|@if|@if x|@if x=y|@if x===y|@if x==|@If x==y|@iff x==y|@if x == y|@if  x  !=  y|"
    "@if x==y z|@if +x==y|@if x!y|@if x!==y|@1 x|@if|<|<<|<< |<<<|<< <|<<X|<< X|<< x y|<< x :a|<< x: a|<< x:|<< x::|<<x.y|<<#x|<< é|<< x-y|< < x|:|::|: x|:x|:x :|:x:|:x: |:x::|"
    ":+x|:+x:|:+x:y|:-x:y|:++x:y|:+:|:é:y|:x y:z|:x.y:z|:x..y:z|:.x:z|:x.:z|x:y:z|:x:y |*|* |*x|* x|** |**|*  x|*\tx|#|# |#x|*#|*# x|#* x|* * x|*** x|-|- x|+ x|1. x|>|> x|"
    "!|!!!!|!!!|!!!!!|    |xxxx|éééé|....|::::|----|    x|\t|\u00a0|\u3000|\u2028|\x0c|\u200b|\x1f|\x85|\\|\\\\|\\= x|\\* x|\\[a]|\\:x:y|\\---"
).split("|")
LANGS = "python rust text c++ sh".split()

DEFAULT = dict(
    # elements
    paragraph=10, header=4, list=4, block=4, raw=1.5, source=2, rule=1.5,
    image=1, custom=1, toc=0.7, footnotes=0.6, group=1.0, mau=0.8, rawfile=0.5,
    vardef=3, comment=1.0,
    # attachments
    args=0.35, label=0.25, cond=0.12, attach_noise=0.15, doubled=0.05,
    # inline pieces
    word=10, space=1, style=3, verbatim=1.5, escape=1, literal=1, link=1, mailto=0.4,
    imagem=0.5, klass=1, headerlink=0.8, footnote=0.8, rawm=0.5, unicode=0.4, generic=0.8,
    ifm=0.8, ifeval=0.3, var=2, lone=0.6, braces=0.4, oddity=0.3,
    # sizes
    elements=(1, 7), depth=2, include_depth=2, line=(1, 6), inline_depth=2,
    names=0.8, noise=0.25, tight=0.2, trailing=0.06, envsize=(0, 4),
    isolate_false=0.12, quoted=0.5, poison=0.5, alias=0.12, unbalanced=0.02,
    config=0.3, absolute=0, odd_values=0.04, starts=0.3,
    # share of the documents with words and shapes of the code, with near misses of the syntax, and of the big ones
    dict=0.2, near=0.1, big=0.03, both=0.03, almost=0.015,
    # share of the documents in which a construct comes many times (see many.py), and the constructs
    many=0.03, kinds=None,
)


def profile(**kw):
    p = dict(DEFAULT)
    p.update(kw)
    return p


def focus(*names, factor=0.15, **kw):
    """A profile in which the given weights are kept and the others reduced."""
    keys = (
        "header list block raw source rule image custom toc footnotes group mau rawfile vardef "
        "style verbatim escape literal link mailto imagem klass headerlink footnote rawm unicode "
        "generic ifm ifeval var lone braces oddity args label cond"
    ).split()
    p = dict(DEFAULT)
    for k in keys:
        if k not in names:
            p[k] = p[k] * factor
    p.update(kw)
    return p


class Case:
    def __init__(self, text, env, files):
        self.text, self.env, self.files = text, env, files

    def asdict(self):
        return {"text": self.text, "env": self.env, "files": self.files}


class Scope:
    def __init__(self, depth, header_names=(), notes=(), groups=()):
        self.depth = depth
        self.headers = list(header_names)
        self.todo_headers = list(header_names)
        self.notes = list(notes)
        self.todo_notes = list(notes)
        self.groups = list(groups)
        self.used_positions = {g: [] for g in groups}
        self.defined_headers = []


# What some take for blank, or for nothing at all.
BLANKS = ["\t", "\u00a0", "\u3000", "\x0b", "\x1f", "\u2003", " \t", "\t ", "  ", "\u200b"]
EDGES = ["\ufeff", "\u200b", "\u00a0", "\u3000", "\t", " ", "\x0c", "\x1c", "\x85", "\u2028", "\x0b", "\x00"]


class Gen:
    def __init__(self, rng, prof=None):
        self.r = rng
        self.p = prof or DEFAULT
        self.files = {}
        self.vars = {}
        self.env = {}
        self.pools, self.positions = {}, []
        self.fences = []
        self.counter = 0
        self.aliases = ["source"]
        self.styles = {}
        self.stack_files = []
        self.taken = set()
        self.rate = 0.1 if rng.random() < self.p["dict"] else 0
        self.near = rng.random() < self.p["near"]
        self.big = rng.random() < self.p["big"]

    # -- helpers

    def chance(self, p):
        return self.r.random() < p

    def pick(self, table):
        names = list(table)
        return self.r.choices(names, [max(self.p.get(n, 0), 0) for n in names])[0]

    def fresh(self, prefix):
        self.counter += 1
        name = f"{prefix}{self.counter}"
        if self.rate and self.chance(0.3):
            other = dictionary.name(self.r)
            if other not in self.taken:
                self.taken.add(other)
                return other
        if self.counter > 1 and self.chance(0.04):
            # Almost the same name.
            other = f"{prefix.upper()}{self.counter - 1}"
            if other not in self.taken:
                self.taken.add(other)
                return other
        return name

    def code(self, usual, plain=True):
        """Now and then a word of the code."""
        if self.rate and self.chance(self.rate):
            return dictionary.name(self.r) if plain else dictionary.token(self.r)
        return usual

    def variable(self):
        name = self.code(self.r.choice(VARS))
        return name if not name.lower().startswith("mau") else "maux"

    def word(self):
        if self.rate and self.chance(self.rate):
            return dictionary.token(self.r)
        return self.r.choice(WORDS if self.chance(0.5) else PLAIN)

    def words(self, n=3):
        if self.rate and self.chance(self.rate):
            return dictionary.token(self.r).strip() or "x"
        return " ".join(self.r.choice(PLAIN) for _ in range(self.r.randint(1, n)))

    # -- environment

    def make_env(self):
        n = self.r.randint(*self.p["envsize"])
        env = {}
        for _ in range(n):
            name = self.variable()
            value = self.r.choice(
                [self.words(), self.words(1), self.words(1), "*bold* text", "a_b_c", 7, True, None, 1.5, self.r.choice([False, 0, 1, "true", "True", "01", "7.0", "no", 3.14159265358, 1e21, 0.1 + 0.2, 1e-7, 12345678901234567890, -0.0, 10.0, -3]),
                 "[link](http://x.y, lnk)", "`code`", "{v}", "a, b", "un*closed", "", "x ", " x", "A", "a:b", "a==b", " "]
            )
            self.vars[name] = value
            parts = name.split(".")
            if self.chance(0.5) or len(parts) == 1:
                env[name] = value
            else:
                node, ok = env, True
                for p in parts[:-1]:
                    nxt = node.setdefault(p, {})
                    if not isinstance(nxt, dict):
                        ok = False
                        break
                    node = nxt
                if ok:
                    node[parts[-1]] = value
                else:
                    env[name] = value
        if self.chance(self.p["config"]):
            aliases = {}
            for _ in range(self.r.randint(1, 3)):
                name = self.code(self.r.choice(["al", "note", "src2", "wide"]))
                d = {}
                if self.chance(0.8):
                    d["args"] = {
                        self.r.choice(IDENT + ["classes", "engine"]): None
                        for _ in range(self.r.randint(1, 3))
                    }
                    for k in d["args"]:
                        d["args"][k] = (
                            self.r.choice(["source", "raw", "default"])
                            if k == "engine"
                            else self.r.choice(PLAIN)
                        )
                if self.chance(0.6):
                    d["names"] = self.r.sample(IDENT + ["language"], self.r.randint(1, 3))
                if self.chance(0.5):
                    d["subtype"] = self.r.choice(PLAIN)
                if d:
                    # Dotted keys of the arguments belong to namespaces.
                    if "args" in d:
                        d["args"] = {k: v for k, v in d["args"].items() if "." not in k} or {"kk": "1"}
                    aliases[name] = d
                    self.aliases.append(name)
            conf = {"parser": {"aliases": aliases}}
            if self.chance(0.4):
                # Some replacements are the names of other ones.
                keys = self.r.sample("+-!xyz", self.r.randint(1, 4)) + self.r.sample(PLAIN, self.r.randint(0, 2))
                conf["parser"]["source_highlight_style_aliases"] = self.styles = {
                    key: self.r.choice(PLAIN + keys * 4 + [""]) for key in keys
                }
            env["mau"] = conf
        return env

    # -- inline

    def safe_value(self):
        """A word that is not touched by any syntax."""
        return self.r.choice(PLAIN)

    def quote(self, s):
        return '"' + s.replace('"', '\\"') + '"'

    def macro_text(self, scope, depth, quoted=None):
        """A text argument of a macro."""
        if self.chance(0.5) or depth <= 0:
            s = self.words()
            if self.chance(0.15):
                s += self.r.choice([" x)", " (x)", ", y", " a=b", " \\\"q\\\"", " é"])
                return self.quote(s.replace('\\"', '"')) if '"' in s else '"' + s + '"'
        else:
            s = self.inline(scope, depth - 1, simple=True).strip()
            if '"' in s or s[:1] in ("#", "*", "@"):
                s = "t " + s.replace('"', "")
            return '"' + s + '"'
        if quoted or (quoted is None and self.chance(self.p["quoted"])):
            return '"' + s + '"'
        return s

    def style_piece(self, scope, depth, avoid=""):
        marks = [m for m in "*_^~" if m not in avoid]
        if not marks:
            return self.word()
        m = self.r.choice(marks)
        inner = self.inline(scope, depth - 1, avoid=avoid + m) if depth > 0 else self.words()
        return f"{m}{inner.strip()}{m}"

    def macro(self, kind, scope, depth):
        out = self.whole_macro(kind, scope, depth)
        if self.chance(0.04):
            # One of the arguments becomes empty.
            name, sep, args = out[:-1].partition("](")
            if sep and not set('"()[]\\') & set(args):
                args = args.split(", ")
                i = self.r.randrange(len(args))
                args[i] = args[i].partition("=")[0] + '=""' if "=" in args[i] else '""'
                return name + sep + ", ".join(args) + ")"
        return out

    def whole_macro(self, kind, scope, depth):
        r = self.r
        t = lambda: self.macro_text(scope, depth)
        q = lambda s: self.quote(s) if self.chance(self.p["quoted"]) else s
        uri = r.choice(["http://x.y/z", "a.html", "/p/q.png", "x?y=1&z", "mau"])
        odd = lambda usual: self.code(usual, False) if self.rate else r.choice(ODD) if self.chance(2 * self.p["odd_values"]) else usual
        uri = odd(uri)
        if kind in ("link", "mailto"):
            target = uri if kind == "link" else "me@x.org"
            if kind == "mailto" and not self.chance(0.5):
                target = odd(r.choice(["a.b@c.d", "mailto:a@b.c", "MAILTO:x@y", " me@x.org ", "a@b?subject=x y"]))
            key = "target" if kind == "link" else "email"
            if "=" in target or self.chance(0.3):
                target = self.quote(target)
            form = r.random()
            if form < 0.3:
                return f"[{kind}]({target})"
            if form < 0.8:
                return f"[{kind}]({target}, {t()})"
            if form < 0.9:
                return f"[{kind}]({target}, text={t()})"
            return f"[{kind}]({key}={target}, text={t()})"
        if kind == "imagem":
            size = lambda: r.choice(ODD) if self.chance(0.2) else str(r.randint(0, 300))
            parts = [q(odd("/a.png")), q(odd(self.words())), size(), size()][: r.randint(1, 4)]
            if self.chance(0.2):
                parts = [parts[0], f"height={size()}"] + ([f"width={size()}"] if self.chance(0.5) else [])
            return f"[image]({', '.join(parts)})"
        if kind == "klass":
            classes = [odd(c) for c in r.choices(PLAIN[: r.choice([2, 11])], k=r.randint(0, 3))]
            return f"[class]({', '.join([t()] + classes)})"
        if kind == "headerlink":
            if not scope or not scope.headers:
                return self.words()
            name = self.almost(r.choice(scope.headers))
            return f"[header]({q(name)})" if self.chance(0.5) else f"[header]({name}, {t()})"
        if kind == "footnote":
            if not scope or not scope.notes:
                return self.words()
            return f"[footnote]({q(self.almost(r.choice(scope.notes)))})"
        if kind == "rawm":
            return f"[raw]({self.quote(r.choice(['<b>', 'x *y* _z', 'a `b`', '&amp; (z)', 'p, q', '<br> ', ' <i>', '  ', '', 'a  b', '\tx\t', 'é\u00a0', '10px', '$', ' # * @']))})"
        if kind == "unicode":
            return f"[unicode]({odd(r.choice(['1F30B', '2014', 'e9']))})"
        if kind == "generic":
            name = self.code(r.choice(["mymacro", "kbd", "m1", "sp:x", "Z", "a.b-c", "ünï"])).replace("_", "")
            return f"[{name}]({self.arglist(kinds='macro')})"
        if kind in ("ifm", "ifeval"):
            known = [v for v in self.vars if "_" not in v]
            if not known:
                return self.words()
            var = r.choice(known)
            value = self.vars[var]
            # Values made of a single word can appear in the name of a macro.
            value = str(value)
            value = self.neighbour(value) if value and self.chance(0.1) else value
            if not value.replace(":", "a").replace(".", "a").isalnum() or self.chance(0.4):
                value = r.choice(PLAIN) if self.chance(0.9) else r.choice(["a:b", "http://x.y", "::", "if:x", "a:", ":a"])
            op = r.choice(["==", "!="])
            if kind == "ifm":
                args = t() + (f", {t()}" if self.chance(0.7) else "")
                return f"[if:{var}{op}{value}]({args})"
            args = ", ".join(r.choices(known, k=2))
            return f"[ifeval:{var}{op}{value}]({args})"
        raise AssertionError(kind)

    def almost(self, name):
        """Now and then a name that is not exactly the given one."""
        if not self.chance(self.p["almost"]):
            return name
        return self.r.choice([f'" {name}"', f'"{name} "', name.upper(), name + "0", name[:-1] or "q", "#" + name, name.capitalize(), name + "."])

    def piece(self, scope, depth, avoid="", simple=False):
        r = self.r
        kinds = (
            "word space style verbatim escape literal link mailto imagem klass headerlink footnote "
            "rawm unicode generic ifm ifeval var lone braces oddity"
        ).split()
        kind = self.pick(kinds)
        if simple and kind in ("rawm", "imagem", "link", "mailto", "klass", "headerlink", "generic", "ifm"):
            # Nested macros cannot use quotes.
            kind = r.choice(["word", "style", "nested"])
        if simple and kind in ("lone", "oddity", "escape"):
            kind = "word"
        if kind == "word":
            w = self.word()
            return w if not simple else r.choice(PLAIN)
        if kind == "nested":
            return r.choice(
                ["[link](u.html, lnk)", "[unicode](2014)", "[class](inner, k1, k2)", "[kbd](x)", "[image](i.png)"]
            )
        if kind == "space":
            return " " * r.randint(1, 3)
        if kind == "style":
            return self.style_piece(scope, depth, avoid)
        if kind == "verbatim":
            return "`" + r.choice(["code", "a*b*", "x_y", "{v}", "{nope}", "a b", "[link](x)", "\\\\n", "$", "\\_"]) + "`"
        if kind == "escape":
            return "\\" + r.choice(list("*_^~`[]()$%\"\\") + ["a", "word", "{", "}"])
        if kind == "literal":
            m = r.choice("$%")
            return m + r.choice(["a*b*", "x", "_y_ z", "[link](x)", "`n`", "a b"]) + m
        if kind == "var":
            if not self.vars:
                return self.words(1)
            name = r.choice(list(self.vars))
            if self.chance(0.006):
                # Almost the name of a variable.
                near = [f" {name} ", f"{name} ", f" {name}", name.upper(), name.capitalize(), name[:-1], name + ".", name + "x", "." + name, name.replace(".", ".."), name.replace(".", "_"), name.split(".")[0], name.split(".")[-1], name + "\t", f'"{name}"', f"{name}:", f"+{name}"]
                name = r.choice(near)
            return "{" + name + "}"
        if kind == "lone":
            return r.choice(list("*_^~`$%[]()\"") + ["[x]", "(y)", "[a b]", "[x](", "[ ]"])
        if kind == "braces":
            return r.choice(["\\{v\\}", "{{v}}", "{{x y}}", "{" if self.chance(0.15) else "\\{}", "}", "\\{", "{{}}", "\\}"])
        if kind == "oddity":
            return r.choice(["a\\", "[if](x)" if self.chance(0.05) else "[iff", "[](x)", "[a](b)(c)", "**", "__", "``",
                             "$$", "%%", "*_*_", "\t", "\\\\", "[x]()", "[y]( )", "*a _b* c_", "\u00a0", "\u2028z"])
        return self.macro(kind, scope, depth)

    def inline(self, scope=None, depth=None, avoid="", simple=False, n=None):
        depth = self.p["inline_depth"] if depth is None else depth
        n = n or self.r.randint(*self.p["line"])
        out = []
        for _ in range(n):
            s = self.piece(scope, depth, avoid, simple)
            if out and not self.chance(0.2):
                out.append(" ")
            out.append(s)
        return "".join(out)

    def line(self, scope):
        s = self.inline(scope)
        if not s.strip():
            s = "text"
        if self.chance(0.93):
            # Most of the lines should not look like other constructs.
            if s.lstrip()[:1] in tuple("=.:@[<#*/-") or s[:4] == s[:1] * 4:
                s = self.r.choice(PLAIN) + " " + s
        if self.chance(self.p["trailing"]):
            s += " " * self.r.randint(1, 3)
        if self.chance(self.p["odd_values"]):
            s += self.r.choice(TAILS)
        if self.near and self.chance(0.15):
            s = self.r.choice(NEAR)
        if self.rate and self.chance(0.5 * self.rate):
            s = dictionary.shape(self.r)
        return s

    # -- arguments

    def arg_value(self, kinds="doc"):
        r = self.r
        if self.chance(self.p["odd_values"]):
            return r.choice(ODD)
        if self.rate and self.chance(self.rate):
            t = dictionary.token(r)
            return self.quote(t) if self.chance(0.5) else t
        k = r.random()
        if k < 0.5:
            return r.choice(PLAIN + IDENT)
        if k < 0.6:
            return self.words()
        if k < 0.75:
            s = r.choice(["a, b", "x=y", "two words", "q)", "(q", "a\\b", "it's", "é 漢", "  sp ", "a #b", "[x]", "", "`c`", "*x*y"])
            if s.startswith(("#", "*", "@")):
                s = "v" + s
            return '"' + s + '"'
        if k < 0.82 and kinds != "macro":
            return '"say \\"hi\\""'
        if k < 0.9 and kinds != "macro":
            return "a\\, b"
        if k < 0.95 and self.vars and kinds != "macro":
            return "{" + r.choice(list(self.vars)) + "}"
        return r.choice(["42", "http://a.b/c", "a:b", "x.y", "é", "--", "/p"])

    def arglist(self, kinds="doc", extra=(), positional=True):
        r = self.r
        parts = []
        if positional:
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                parts.append(self.arg_value(kinds))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            parts.append("#" + self.code(r.choice(PLAIN + ["mau:x", "mau:keep", "mau:" + r.choice(PLAIN)])))
            if self.chance(0.1):
                parts.append(r.choice(["##x", "#*x", "#@x", "#", "#a.b", "# sp", "#mau", "#maux", "#mau-x", "#mau.y", "#Mau:x", "#mau :x", "#xmau:y", '"#two words"', "#mau:", "#mau:a:b", "#x:y", "#é"]))
        if self.chance(0.2):
            parts.append("*" + self.code(r.choice(PLAIN)) if self.chance(0.9) else r.choice(["**x", "*#x", "*", '"*two words"', "*é"]))
        if kinds == "doc" and self.chance(self.p["alias"]):
            parts.append("@" + r.choice(self.aliases))
        r.shuffle(parts)
        named = []
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            key = self.code(r.choice(IDENT + ["k", "classes"] if kinds == "doc" else IDENT))
            named.append(f"{key}={self.arg_value(kinds)}")
        named += list(extra)
        r.shuffle(named)
        sep = r.choice([", ", ", ", ",", ",  "])
        parts += named
        if parts and self.chance(0.06):
            # Blanks that are not spaces belong to the values.
            i, b = r.randrange(len(parts)), r.choice(BLANKS)
            k = r.choice([0, len(parts[i]), r.randint(0, len(parts[i])), max(0, parts[i].find("="))])
            parts[i] = parts[i][:k] + b + parts[i][k:]
        return sep.join(parts)

    # -- elements

    def neighbour(self, value):
        """A value that is almost the given one."""
        r = self.r
        return r.choice([value.strip(), value.upper(), value.lower(), value.capitalize(), value + "x", value[:-1], value + "0", "0" + value, value + ".",
                         value * 2, value.replace(" ", ""), value[1:]])

    def attachments(self, scope, extra=(), allow_args=True, allow_cond=True, need_args=False, label=True):
        """Lines before an element. Returns (lines, excluded)."""
        r = self.r
        rows = []
        if allow_args and (extra or need_args or self.chance(self.p["args"])):
            if self.chance(self.p["doubled"]):
                rows.append(f"[{self.arglist()}]")
            if extra and self.chance(0.6):
                rows.append("[" + ", ".join(extra) + "]")
            else:
                rows.append(f"[{self.arglist(extra=extra)}]")
        if label and self.chance(max(self.p["label"], 0.3 * (len(extra) > 1))):
            for _ in range(r.choice([1, 1, 2])):
                role = self.code(r.choice(["", "", "role", "caption", "r-1", "x_y"]) if not self.chance(0.04) else r.choice(ROLES))
                role = role if role != "_type" else "type"
                if extra and self.chance(0.1):
                    # A word of the arguments of the element.
                    role = re.sub("[^a-z0-9_-]", "", r.choice(extra).split("=")[-1]) or role
                rows.append(f".{role} {self.inline(scope, n=r.randint(1, 3)).strip() or 'lab'}")
        excluded = None
        if allow_cond and self.chance(self.p["cond"]) and self.vars:
            var = r.choice(list(self.vars))
            known = self.vars[var]
            value = str(known) if known is not None and self.chance(0.5) else r.choice(PLAIN)
            value = self.neighbour(value) if self.chance(0.15) else self.code(value, False)
            if not isinstance(known, str) and self.chance(0.5):
                value = r.choice([str(known), str(known).lower(), "1", "0", "yes", "no", "true", "false", "null", f"{known}.0", "7"])
            if any(c in value for c in "{}\\`") or not value:
                value = "zzz"
            op = r.choice(["==", "!="])
            excluded = (str(known) == value) != (op == "==")
            sp = r.choice(["", " "])
            rows.append(f"@if {var}{sp}{op}{sp}{value}" if value == value.strip() else f"@if {var}{op}{value}")
        # Keep rows of the same kind in order.
        r.shuffle(rows) if not self.chance(self.p["doubled"]) and sum(x[:1] == "[" for x in rows) < 2 else None
        if rows and self.chance(self.p["attach_noise"]):
            i = r.randint(1, len(rows))
            rows[i:i] = r.choice([[""], ["// note"], ["", ""], [":t.mp:val"], ["////", "[x]", "= c", "////"], ["   "]])
            if ":t.mp:val" in rows:
                self.vars["t.mp"] = "val"
        return rows, excluded

    def e_paragraph(self, scope):
        rows, excluded = self.attachments(scope)
        n = self.r.choice([1, 1, 1, 2, 3])
        lines = [self.line(scope) for _ in range(n)]
        if excluded and self.chance(self.p["poison"]):
            lines.append(self.r.choice(["{undefined.var} x", "[footnote](nope)", "[header](nope)", "[link]()", "[if:zz==1](a)"]))
        if n > 1 and self.chance(0.1):
            lines.insert(1, "// comment inside")
        if n > 1 and self.chance(0.04):
            lines.insert(1, self.r.choice(["\t", "\t\t", " \t", "\u00a0", "\u3000", "\x0c", "\u200b", "\ufeff", "\x1f"]))
        return rows + lines

    def e_header(self, scope, name=None):
        level = self.r.choice([1, 1, 2, 2, 3, 4, 6]) if not self.big else self.r.randint(1, 14)
        extra = []
        later = [h for h in scope.headers if h not in scope.defined_headers]
        if name is None and scope.todo_headers and self.chance(0.6):
            name = scope.todo_headers[0]
        forced = name is not None and name in scope.todo_headers
        if name is not None:
            extra.append(f"name={name}")
        if self.chance(0.12):
            extra.append("internal_id=" + self.r.choice([self.fresh("id"), self.fresh("id"), '""', "0", "None", "False", '" "', '" x"', '"a b"']))
        rows, excluded = self.attachments(scope, extra, allow_cond=not forced)
        if forced:
            scope.todo_headers.remove(name)
        # Headers can link only headers defined before.
        saved, scope.headers = scope.headers, list(scope.defined_headers)
        text = self.inline(scope).strip() or "head"
        scope.headers = saved
        if name is not None:
            scope.defined_headers.append(name)
        if text.startswith("="):
            text = "h " + text
        if not excluded and self.chance(0.03):
            # Nothing is left of the text.
            text = "\\"
        if excluded and self.chance(self.p["poison"]):
            text += " {undefined.var}"
        return rows + ["=" * level + self.r.choice([" ", " ", "", "  "]) + text]

    def e_list(self, scope):
        r = self.r
        extra = []
        if self.chance(self.p["starts"]):
            start = r.choice(["auto", "auto", "3", "10", "0", "-2"])
            if self.chance(self.p["odd_values"]):
                start = r.choice(["Auto", "AUTO", '" auto"', '"auto "', "automatic", "auto1", '""', "+4", '" 7 "', "1_0", "0x3", "2.0", "None"])
            extra.append("start=" + start)
        rows, excluded = self.attachments(scope, extra)
        lines, level = [], 1 if self.chance(0.9) else 2
        for k in range(r.randint(1, 6) if not self.big else r.randint(1, 25)):
            if k:
                level = max(1, level + r.choice([0, 0, 0, 1, 1, -1, -1, 2, -2]))
                if self.chance(0.9):
                    level = max(level, len(lines[0].lstrip().split(" ")[0]))
            mark = r.choice("*#") if k == 0 or self.chance(0.4) else lines[-1].strip()[0]
            marks = mark * level
            if self.chance(0.05) and level > 1:
                marks = mark + r.choice("*#") * (level - 1)
            text = self.inline(scope, n=r.randint(1, 4)).strip() or "item"
            if excluded and self.chance(self.p["poison"]):
                text += " {undefined.var}"
            indent = " " * r.choice([0, 0, 0, 0, 1, 2, 4, r.randint(3, 20)])
            lines.append(f"{indent}{marks}{' ' * r.choice([1, 1, 1, 2])}{text}" + (" " if self.chance(self.p["trailing"]) else ""))
            if self.chance(0.04):
                lines.append("// in the list")
        return rows + lines + ["" if self.chance(0.9) else "  "]

    def fence(self):
        c = self.r.choice([f for f in FENCES if f not in self.fences])
        return c

    def body(self, scope):
        out = []
        self.elements(scope, out)
        return out

    def e_block(self, scope):
        r = self.r
        if scope.depth <= 0:
            return self.e_paragraph(scope)
        shared = self.chance(self.p["isolate_false"])
        extra, footnote, group = [], None, None
        if shared:
            extra.append("isolate=false")
        elif self.chance(self.p["isolate_false"] / 2):
            # Only `false` shares.
            extra.append(r.choice(["isolate=true", "isolate=False", "isolate=FALSE", "isolate=no", "isolate=0", 'isolate=""', "isolate=falsey", "isolate"]))
        elif scope.todo_notes and self.chance(0.6):
            footnote = scope.todo_notes.pop(0)
            extra.append(f"footnote={footnote}")
        elif scope.groups and self.chance(0.5):
            group = r.choice(scope.groups)
            position = self.fresh("p") if self.chance(0.7) else r.choice(["left", "right", "1", "01", "1.0", "Left", "+1", "10"])
            if self.positions and self.chance(0.1):
                position = r.choice(self.positions)
            if scope.used_positions[group] and self.chance(0.2):
                position = re.sub(r"[^\w.+-]", "", self.neighbour(r.choice(scope.used_positions[group]))) or "0"
            if position in scope.used_positions[group]:
                position = self.fresh("p")
            scope.used_positions[group].append(position)
            extra += [f"group={group}", f"position={position}"]
        elif self.p["group"] and self.chance(0.08):
            # Half of what the blocks of groups have.
            extra += [r.choice([f"group={self.words(1)}", f"position={self.words(1)}", f"group={r.choice(scope.groups or ['g'])}"])]
            extra += [f"{k}={r.choice(PLAIN)}" for k in r.sample(["name", "id", "class", "key", "kind"], r.choice([0, 1, 2, 3]))]
        if self.chance(0.2):
            extra.append('classes="' + ",".join(r.choices(PLAIN[: r.choice([2, 11])], k=r.randint(1, 3))) + '"')
        engine = None
        if footnote is None and group and self.chance(0.2):
            engine = r.choice(["raw", "source"])
            extra.append(f"engine={engine}")
        rows, excluded = self.attachments(scope, extra, allow_cond=not footnote and not group)
        c = self.fence()
        self.fences.append(c)
        saved = dict(self.vars)
        if engine:
            content = self.code_lines()
        elif self.chance(0.06):
            content = []
        else:
            sub = self.scope(scope.depth - 1, shared=shared)
            content = self.body(sub)
            if shared and self.chance(0.25):
                content = self.silent(sub)
            if shared and not excluded:
                # What they define is known outside.
                scope.notes += [n for n in sub.notes if n not in sub.todo_notes]
            if excluded and self.chance(self.p["poison"]):
                content += ["", r.choice(["{undefined.var}", "[footnote](nope)", "<< mau:missing.mau", ":bad", "[header](x)", "<< blockgroup:nope"])]
        if excluded or (excluded is not None):
            self.vars = saved
        self.fences.pop()
        return rows + [c * 4] + content + [c * 4]

    def silent(self, scope):
        """Rows that define something and result in no element."""
        out = []
        while scope.todo_notes:
            c = self.fence()
            out += [f"[footnote={scope.todo_notes.pop(0)}]", c * 4, self.words(), c * 4, ""]
        if not out or self.chance(0.3):
            out += self.e_vardef(scope)
        if self.chance(0.3):
            out += self.e_comment(scope)
        return out

    def code_lines(self):
        r = self.r
        out = []
        for _ in range(r.randint(1, 6)):
            out.append(
                r.choice(
                    ["def f(x):", "    return {x}", "", "  ", "x = `y`", "= not a header", "[args]", ":a:b", "* item",
                     "// comment", "////", "a:1:", "b:@:", "c:@+:", "d:@x:", "e:@custom:", "z:", "::", ":", "k:::", "    q:7:  ",
                     "url: http://x:80:", "< & >", "\ttab", "<< toc", "@if a==b", ". label", "---", "é漢🎉", "a::b::", "m:two words:",
                     "f:@!:", "g:@-:", "h:@@x:", "i:@@:", "j:@ x:", "k: @x :", "l:@+-:", "\\{x\\}", "{{x}}", "lst[1:2]:9:", "trailing  "]
                )
            )
        if self.rate and self.chance(0.5):
            out.append(r.choice([dictionary.token(r), dictionary.shape(r), "x" + dictionary.token(r) + ":y:", f"x:@{dictionary.name(r)}:"]))
        if r.random() < 0.25:
            # Markers made of blanks, signs and almost nothing.
            body = r.choice(["", "", " ", "  ", "\t", "\u00a0", "@", "@ ", " @", "@+", "+", "0", "-", "'", '"', "\\", "a b", " a", "a ", "é", "@\t", "@@", "\u200b", "x" * 40, "<b>", "{x}", "*b*"])
            out.append(r.choice(["", "a", "code ", " x", "a:", "é", "\t"]) + ":" + body + ":" + r.choice(["", "", "", "", " ", "\t"]))
        if self.styles:
            for _ in range(r.randint(0, 3)):
                out.append(r.choice(PLAIN) + ":@" + r.choice([*self.styles, *self.styles.values()]) + ":")
        if r.random() < 0.3:
            out.append("".join(r.choice("ab:@+ {}[]=*#.") for _ in range(r.randint(1, 12))))
        return out

    def e_raw(self, scope):
        engine = "raw"
        if self.chance(0.02):
            # Names that are not names of engines, or just about.
            engine = self.r.choice(["RAW", "Raw", "Source", "SOURCE", "DEFAULT", "default", '" raw"', '"raw "', '""', "rawx", "sourc", "none", "text", "raw.", "EngineType.RAW", "0"])
        rows, _ = self.attachments(scope, [f"engine={engine}"])
        c = self.fence()
        lines = self.code_lines() if self.chance(0.93) else []
        return rows + [c * 4] + [x for x in lines if x != c * 4] + [c * 4]

    def e_source(self, scope):
        r = self.r
        extra = ["engine=source"]
        if self.chance(0.5):
            extra.append("language=" + self.code(r.choice(LANGS)))
        if self.chance(0.15):
            extra.append("marker_delimiter=" + r.choice(["|", "::", "#", "%%"]))
        if self.chance(0.15):
            extra.append("highlight_marker=" + r.choice(["!", "#", "hl"]))
        if self.chance(0.15):
            extra.append("highlight_default_style=" + r.choice([*PLAIN, *self.styles]))
        if self.chance(0.25):
            rows, _ = self.attachments(scope, allow_args=False)
            rows.append("[@source" + (", " + r.choice(LANGS) if self.chance(0.7) else "") + "]")
        else:
            rows, _ = self.attachments(scope, extra)
        c = self.fence()
        lines = self.code_lines()
        d = next((x.split("=")[1] for x in extra if x.startswith("marker_delimiter")), None)
        if d:
            lines = [x.replace(":", d) if self.chance(0.6) else x for x in lines]
        return rows + [c * 4] + [x for x in lines if x != c * 4] + [c * 4]

    def e_rule(self, scope):
        rows, _ = self.attachments(scope)
        return rows + ["---"]

    def include_rows(self, scope, kind, args, positional=True):
        """An inclusion with boxed or inline arguments."""
        r = self.r
        sep = r.choice(["<< ", "<<", "<<  "])
        inline = self.chance(0.6)
        rest = ", ".join(args)
        if inline and rest:
            rows, excluded = self.attachments(scope, allow_args=self.chance(self.p["both"]), allow_cond=self.allow_cond)
            if excluded and self.chance(self.p["poison"]):
                rest = r.choice(
                    ["{undefined.var}", rest + ", {undefined.var}", "missing.file", "a=b", "a, b, c, d", "x=1, y", 'a="b', "[", rest + ", *a, *b", "@nope", "a, @nope", rest + ", x={", "#{u}"]
                )
            return rows + [f"{sep}{kind}:{rest}"]
        rows, excluded = self.attachments(scope, allow_args=False, allow_cond=self.allow_cond)
        if excluded and self.chance(self.p["poison"]):
            return rows + [f"{sep}{kind}" + r.choice(["", ":", ":{undefined.var}", ":nope"])]
        if rest:
            rows.append(f"[{rest}]")
        return rows + [f"{sep}{kind}"]

    allow_cond = True

    def e_image(self, scope):
        r = self.r
        args = [r.choice(["/img/a.png", '"b c.png"', "x"])]
        if self.chance(0.5):
            args.append(r.choice(["alt", '"alt, text"', "{v}" if "v" in self.vars else "alt2"]))
            if self.chance(0.4):
                args.append('"' + ",".join(r.choices(PLAIN[: r.choice([2, 11])] + [""] * self.chance(0.3) + [" k"] * self.chance(0.3), k=r.choice([2, 2, 3, 4]))) + '"')
        if self.chance(0.3):
            args.append(f"{r.choice(IDENT)}={r.choice(PLAIN)}")
        if self.chance(0.3):
            args.insert(0, "#" + r.choice(PLAIN))
        return self.include_rows(scope, "image", args)

    def e_custom(self, scope):
        kind = self.code(self.r.choice(["custom", "youtube", "x.y", "c_d", "foo2"]))
        args = [a for a in self.arglist().split("|") if a] if self.chance(0.6) else []
        return self.include_rows(scope, kind, args)

    def e_toc(self, scope):
        return self.include_rows(scope, "toc", [self.r.choice(["a", "k=1", "#t"])] if self.chance(0.2) else [])

    def e_footnotes(self, scope):
        return self.include_rows(scope, "footnotes", [])

    def e_group(self, scope):
        usable = [g for g in scope.groups]
        if not usable:
            return self.e_rule(scope)
        name = self.r.choice(usable)
        name = self.almost(name)
        args = [name] if self.chance(0.7) else [f"group={name}"]
        if self.chance(0.3):
            args.insert(0, "#t1")
        self.allow_cond = True
        return self.include_rows(scope, "blockgroup", args)

    def new_file(self, content, suffix):
        name = self.fresh("f") + suffix
        if self.chance(0.3):
            name = "sub/" + name
        self.files[name] = content
        return name

    def path(self, name):
        k = self.r.random()
        if k < self.p["absolute"]:
            return os.path.join(os.getcwd(), name)
        if k < 0.75:
            return name
        if k < 0.9:
            return "./" + name
        return "sub/../" + name

    def e_mau(self, scope):
        r = self.r
        if self.p["include_depth"] <= len(self.stack_files):
            return self.e_custom(scope)
        again = [f for f in self.files if f.endswith(".mau") and f not in self.stack_files]
        if again and self.chance(0.15):
            name = r.choice(again)
            calls = {}
            return self.include_rows(scope, "mau", [self.path(name)])
        saved, saved_fences = dict(self.vars), self.fences
        self.fences = []
        share = self.chance(0.8)
        calls = {self.variable(): self.code(r.choice(PLAIN)) for _ in range(r.choice([0, 0, 1, 2]))}
        if self.chance(0.1):
            calls[r.choice(KEYWORDS)] = self.code(r.choice(PLAIN))
        quoted = {k: r.choice(["", "", "a, b", "x=y", " s ", "two words"]) for k in calls if self.chance(0.08)}
        calls.update(quoted)
        if not share:
            self.vars = {}
        self.vars.update(calls)
        self.stack_files.append(None)
        sub = self.scope(min(scope.depth, 1))
        old_aliases = self.aliases
        if not share:
            self.aliases = ["source"]
        content = "\n".join(self.body(sub))
        self.aliases = old_aliases
        if self.chance(0.15):
            content = r.choice(["\n", "\n\n", "  \n", "// c\n", "\n \n\n"]) + content
        if self.chance(0.1):
            content += r.choice(["\n\n", "\n  ", "\n\n\n", "\n// c"])
        if self.chance(0.5):
            content += "\n"
        self.stack_files.pop()
        self.vars, self.fences = saved, saved_fences
        name = self.new_file(content, ".mau")
        args = [self.path(name)]
        if self.chance(0.15):
            args = [f"uri={args[0]}"]
        if not share:
            args.append("pass_environment=" + r.choice(["false", "false", "false", "no", "False", "TRUE", "0", "1", '" "', '"true x"']))
        elif self.chance(0.1):
            args.append("pass_environment=" + r.choice(["true", '"true"']))
        if self.chance(0.1):
            # Near the namespace of the calls.
            args.append(r.choice(["recall:", "Call:", "call", "call.", "x.call:", "#call:", "call :", " call:", "xcall:call:", "call:zz:", "call:call:", "call: "]) + f"{r.choice(IDENT)}={r.choice(PLAIN)}")
        args += [f'call:{k}="{v}"' if k in quoted else f"call:{k}={v}" for k, v in calls.items()]
        if self.chance(0.2):
            args.append(f"{r.choice(IDENT)}={r.choice(PLAIN)}")
        return self.include_rows(scope, "mau", args)

    def e_rawfile(self, scope):
        content = "\n".join(self.code_lines()) + ("\n" if self.chance(0.5) else "")
        if self.chance(0.05):
            content = ""
        if self.chance(0.1):
            content = self.r.choice([self.r.choice(EDGES) + content, content + self.r.choice(EDGES), content.replace("\n", self.r.choice(EDGES) + "\n")])
        return self.include_rows(scope, "raw", [self.path(self.new_file(content, ".txt"))])

    def e_vardef(self, scope):
        r = self.r
        name = self.variable()
        k = r.random()
        if k < 0.15:
            flag = r.choice("+-")
            if self.chance(0.2):
                # Only the first sign is the flag.
                name = r.choice(["+", "-", "+-", "--"]) + name if self.chance(0.7) else name + r.choice("+-")
            self.vars[name] = "true" if flag == "+" else "false"
            return [f":{flag}{name}:"]
        if k < 0.6:
            value = self.words(1) if self.chance(0.6) else self.words()
        elif k < 0.8:
            value = r.choice(["*bold*", "`co de`", "[link](u.v, t)", "a_b", "x, y", "\"q\"", "100%", "a:b:c", "  lead", "[x]", "# t", "é"])
        elif k < 0.9 and self.vars:
            value = r.choice(PLAIN) + " {" + r.choice(list(self.vars)) + "}"
        else:
            value = r.choice(["\\{v\\}", "{{v}}", "`{v}`", "\\\\x", "a\\_b", "{{{{v}}}}", "{{{{w}}}} z", "\\{{{v\\}", "`{{v}}`", "x}}y", "{{", "\\{\\{v\\}\\}"])
        if self.chance(2 * self.p["odd_values"]):
            value = r.choice([value + r.choice(TAILS[:8]), r.choice(TAILS[:8]) + value, r.choice(ODD)])
        self.vars[name] = value
        return [f":{name}:{value}"]

    def e_comment(self, scope):
        return self.r.choice(
            [["// a comment"], ["////", "multi", "= line", "[x]", "////"], ["//"], ["////", "////"], ["//// not a fence"],
             ["////", self.r.choice(["////  ", " ////", "/////", "///", "////x", "////\t", "// //", "//"]), "= inside", "////"]]
        )

    # -- documents

    def scope(self, depth, shared=False):
        r = self.r

        def names(prefix, n):
            # Other scopes can have the same names.
            pool = self.pools.setdefault(prefix, [])
            out = []
            for _ in range(n):
                known = [x for x in pool if x not in out]
                again = known and self.chance(0.35) and not (shared and prefix == "n")
                out.append(r.choice(known) if again else self.fresh(prefix))
            pool.extend(x for x in out if x not in pool)
            return out

        if not self.chance(self.p["names"]):
            return Scope(depth)
        return Scope(
            depth,
            names("h", r.choice([0, 1, 1, 2, 3]) if self.p["headerlink"] > 0.2 else 0),
            names("n", r.choice([0, 1, 1, 2, 3]) if self.p["footnote"] > 0.2 and depth > 0 else 0),
            names("g", r.choice([0, 0, 1, 2]) if self.p["group"] > 0.2 and depth > 0 else 0),
        )

    def elements(self, scope, out):
        r = self.r
        kinds = (
            "paragraph header list block raw source rule image custom toc footnotes group mau rawfile vardef comment"
        ).split()
        n = r.randint(*self.p["elements"])
        if self.big and scope.depth == self.p["depth"]:
            n = r.randint(8, 30)
        if scope.depth < self.p["depth"]:
            n = max(1, n // 2)
        chunks = []
        # Groups must have at least a block.
        for g in scope.groups:
            c = self.fence()
            position = r.choice(self.positions) if self.positions and self.chance(0.3) else self.fresh("p")
            self.positions.append(position)
            scope.used_positions[g].append(position)
            chunks.append([f"[group={g}, position={position}]", c * 4, self.words(), c * 4])
        body = [getattr(self, "e_" + self.pick(kinds))(scope) for _ in range(n)]
        for name in list(scope.todo_headers):
            body.append(self.e_header(scope, name))
        while scope.todo_notes:
            name = scope.todo_notes.pop(0)
            c = self.fence()
            body.append([f"[footnote={name}]", c * 4, self.words(), c * 4])
        if self.near and self.chance(0.5):
            body.insert(r.randint(0, len(body)), [r.choice(NEAR)])
        if self.rate and self.chance(0.4):
            body.insert(r.randint(0, len(body)), [dictionary.shape(r)])
        # The fixed blocks can be anywhere.
        for c in chunks:
            body.insert(r.randint(0, len(body)), c)
        for k, rows in enumerate(body):
            out.extend(rows)
            if k < len(body) - 1:
                if not (self.chance(self.p["tight"])):
                    out.append("")
                if self.chance(self.p["noise"]):
                    out.extend(r.choice([[""], ["", ""], ["// noise"], ["", "// noise", ""], ["////", "noise", "////"], ["   "]]))
        return out

    def case(self):
        if self.chance(self.p["many"]):
            from mv import many

            return many.case(self.r, self.p["kinds"])
        self.env = self.make_env()
        scope = self.scope(self.p["depth"])
        out = []
        self.elements(scope, out)
        text = "\n".join(out)
        if self.chance(0.5):
            text += "\n"
        if self.chance(self.p["unbalanced"]):
            lines = text.split("\n")
            k = self.r.randrange(len(lines))
            del lines[k]
            text = "\n".join(lines)
        return Case(text, self.env, self.files)
