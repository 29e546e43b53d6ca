"""Executable model of the Mau language.

This is an independent reference interpreter of the syntax: it is written
on plain strings, dictionaries and recursion, and shares no code with the
library. Given a text, a flat dictionary of variables and a dictionary of
files it returns the structure that the plain (dictionary) output must have,
or the error that must be reported. The monitors compare what the library
was observed to do with what this model says.

Nodes are dictionaries shaped like those of the library's plain output, with
the location under `_pos` = (start_line, start_column, end_line, end_column,
source). Identifiers computed for headers are opaque (see AutoId).
"""

import json
import os
import re

TEXT_TYPES = ("text",)
STYLES = {"_": "underscore", "*": "star", "^": "caret", "~": "tilde"}
DEFAULTS = {
    "mau.parser.source_highlight_style_aliases.+": "add",
    "mau.parser.source_highlight_style_aliases.-": "remove",
    "mau.parser.source_highlight_style_aliases.!": "important",
    "mau.parser.source_highlight_style_aliases.x": "error",
    "mau.parser.aliases.source.args.engine": "source",
    "mau.parser.aliases.source.names": ["language"],
}


class RefError(Exception):
    def __init__(self, kind, line, source, code):
        super().__init__(f"{kind} {source}:{line} {code}")
        self.kind, self.line, self.source, self.code = kind, line, source, code

    def as_tuple(self):
        return (self.kind, self.line, self.source, self.code)


class Unspecified(Exception):
    """The syntax does not say what the text means."""


class AutoId:
    """An identifier computed from the level and the content of a header."""

    def __init__(self, level, content):
        self.key = json.dumps([level, strip(content)], sort_keys=True, default=str)

    def __repr__(self):
        return f"<auto {self.key}>"


def strip(o):
    if isinstance(o, dict):
        return {k: strip(v) for k, v in o.items() if k != "_pos"}
    if isinstance(o, list):
        return [strip(i) for i in o]
    return o


def merge(a, b):
    return (min(a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), max(a[3], b[3]), a[4])


def mk(type_, pos=None, args=None, **fields):
    node = {"_type": type_, "_pos": pos}
    node.update(args.fields() if args else Args().fields())
    node.update(fields)
    return node


def copy(o):
    # Copy of a subtree: contents and labels are copied, references to
    # headers and footnotes are shared.
    if isinstance(o, dict):
        return {
            k: (v if k in ("header", "footnote") else copy(v)) for k, v in o.items()
        }
    if isinstance(o, list):
        return [copy(i) for i in o]
    return o


def flatten(d, prefix=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flatten(v, f"{prefix}{k}."))
        else:
            out[f"{prefix}{k}"] = v
    return out


def namespace(env, name):
    """The nested dictionary stored under a namespace."""
    out = {}
    for k, v in env.items():
        if not k.startswith(name + "."):
            continue
        node, parts = out, k[len(name) + 1 :].split(".")
        for p in parts[:-1]:
            if not isinstance(node.get(p), dict):
                node[p] = {}
            node = node[p]
        node[parts[-1]] = v
    return out


# --------------------------------------------------------------- arguments


class Val:
    __slots__ = ("value", "col")

    def __init__(self, value, col):
        self.value, self.col = value, col


class Args:
    def __init__(self, unnamed=(), named=None, tags=(), internal=(), subtype=None):
        self.unnamed = list(unnamed)  # of Val
        self.named = dict(named or {})  # name -> Val
        self.tags = list(tags)
        self.internal = list(internal)
        self.subtype = subtype

    def fields(self):
        return {
            "args": [v.value for v in self.unnamed],
            "kwargs": {k: v.value for k, v in self.named.items()},
            "tags": list(self.tags),
            "internal_tags": list(self.internal),
            "subtype": self.subtype,
        }

    def set_names(self, names):
        free = [n for n in names if n not in self.named]
        for n, v in zip(free, self.unnamed):
            self.named[n] = v
        self.unnamed = self.unnamed[len(free) :]

    def pop(self, name, default=None):
        v = self.named.pop(name, None)
        return default if v is None else v.value

    def get(self, name, default=None):
        v = self.named.get(name)
        return default if v is None else v.value

    def clone(self):
        return Args(self.unnamed, self.named, self.tags, self.internal, self.subtype)


def _arg_tokens(s, col):
    if s == "":
        return []
    if not s.strip(" "):
        return [("eol", s, col)]
    s, out, i = s.rstrip(" "), [], 0
    while i < len(s):
        m = re.compile(r" +").match(s, i)
        if m:
            out.append(("ws", m.group(), col + i))
        elif s[i] in '\\=,"':
            out.append(("lit", s[i], col + i))
            i += 1
            continue
        else:
            m = re.compile(r'[^\\=," ]+').match(s, i)
            out.append(("text", m.group(), col + i))
        i = m.end()
    return out


def _collect(toks, i, stop, keep=False):
    """Collect the values of tokens up to the stop character."""
    vals, first = [], None
    while i < len(toks) and not (toks[i][0] == "lit" and toks[i][1] == stop):
        if first is None:
            first = toks[i][2]
        if toks[i][0] == "lit" and toks[i][1] == "\\":
            at_stop = i + 1 >= len(toks) or (
                toks[i + 1][0] == "lit" and toks[i + 1][1] == stop
            )
            if not at_stop or keep:
                vals.append("\\")
            i += 1
            if i >= len(toks):
                break
        vals.append(toks[i][1])
        i += 1
    return "".join(vals), first if first is not None else 0, i


def parse_args(s, line, col, source, env):
    toks = _arg_tokens(s, col)
    unnamed, named, i = [], {}, 0

    def err(code):
        return RefError("parser", line, source, code)

    def lit(j, c):
        return j < len(toks) and toks[j][0] == "lit" and toks[j][1] == c

    def value(j):
        # Returns (Val, next) or None.
        if lit(j, '"'):
            v, c, j = _collect(toks, j + 1, '"')
            if not lit(j, '"'):
                return None
            j += 1
        else:
            v, c, j = _collect(toks, j, ",")
        if lit(j, ","):
            j += 1
        if j < len(toks) and toks[j][0] == "ws":
            j += 1
        return Val(v, c), j

    while i < len(toks):
        r = None
        if toks[i][0] == "text" and lit(i + 1, "="):
            r = value(i + 2)
            if r:
                named[toks[i][1]] = Val(r[0].value.strip(), r[0].col)
                i = r[1]
                continue
        if named:
            raise err("unnamed-after-named")
        r = value(i)
        if r is None:
            raise err("unclosed-quotes")
        unnamed.append(r[0])
        i = r[1]

    def isolate(prefix):
        found = [v for v in unnamed if v.value.startswith(prefix)]
        for v in found:
            v.value = v.value[len(prefix) :]
        return found

    tags = isolate("#")
    subtypes = isolate("*")
    if len(subtypes) > 1:
        raise err("two-subtypes")
    aliases = isolate("@")
    if len(aliases) > 1:
        raise err("two-aliases")
    special = tags + subtypes + aliases
    unnamed = [v for v in unnamed if not any(v is x for x in special)]
    a = Args(unnamed, named, subtype=subtypes[0].value if subtypes else None)

    if aliases:
        alias = namespace(env, "mau.parser.aliases").get(aliases[0].value)
        if alias is None:
            raise err("unknown-alias")
        for k, v in alias.get("args", {}).items():
            if k not in a.named:
                a.named[k] = Val(v, aliases[0].col)
        a.set_names(alias.get("names", []))
        if a.subtype is None and alias.get("subtype"):
            a.subtype = alias["subtype"]

    for t in tags:
        if t.value.startswith("mau:"):
            a.internal.append(t.value[4:])
        else:
            a.tags.append(t.value)
    return a


# --------------------------------------------------------------- variables


def substitute(s, line, source, env):
    """Replace variables. Returns the resulting text."""
    if s == "":
        return ""
    if not s.strip(" "):
        return s
    toks, i = [], 0
    tail = len(s.rstrip(" "))
    while i < len(s):
        if i >= tail:
            break  # trailing spaces following a special character
        if s[i] in "\\`{}":
            toks.append(("lit", s[i], i))
            i += 1
        else:
            m = re.compile(r"[^\\`{}]+").match(s, i)
            toks.append(("text", m.group(), i))
            i = m.end()
    out, i = [], 0

    def lit(j, c):
        return j < len(toks) and toks[j][0] == "lit" and toks[j][1] == c

    while i < len(toks):
        if lit(i, "\\"):
            nxt = toks[i + 1][1] if i + 1 < len(toks) else ""
            out.append(nxt if nxt in ("{", "}", "") else "\\" + nxt)
            i += 2
            continue
        if lit(i, "`"):
            v, _, j = _collect(toks, i + 1, "`", keep=True)
            if lit(j, "`"):
                out.append(f"`{v}`")
                i = j + 1
                continue
        if lit(i, "{"):
            v, _, j = _collect(toks, i + 1, "}")
            if lit(j, "}"):
                i = j + 1
                if v.startswith("{"):
                    if not lit(i, "}"):
                        raise RefError("parser", line, source, "incomplete-variable")
                    i += 1
                    out.append(v + "}")
                else:
                    if v not in env:
                        raise RefError("parser", line, source, "undefined-variable")
                    out.append(str(env[v]))
                continue
        out.append(toks[i][1])
        i += 1
    return "".join(out)


CONDITION = re.compile(r"([a-zA-Z0-9_.+-]+) *(==|!=) *(.*)$")


def parse_condition(s, line, source):
    """Returns (variable, operator, value)."""
    if s == "" or not s.strip(" "):
        raise RefError("parser", line, source, "empty-condition")
    m = CONDITION.match(s)
    if not m:
        raise RefError("lexer", line, source, "bad-condition")
    return m.groups()


def evaluate(cond, line, source, env):
    var, op, value = cond
    if var not in env:
        raise RefError("parser", line, source, "undefined-condition-variable")
    return (str(env[var]) == value) == (op == "==")


# -------------------------------------------------------------------- text

_WORD = re.compile(r'[^~\^_*`()[\]"\\\$% ]+')


def _text_tokens(t, col):
    if t == "":
        return []
    if not t.strip(" "):
        return [("eol", t, col)]
    t, out, i = t.rstrip(" "), [], 0
    while i < len(t):
        c = t[i]
        if c == " ":
            out.append(("text", c, col + i))
            i += 1
        elif c in '~^_*`()[]\\"$%':
            out.append(("lit", c, col + i))
            i += 1
        else:
            m = _WORD.match(t, i)
            out.append(("text", m.group(), col + i))
            i = m.end()
    return out


class Refs:
    """Footnote mentions and header links found in a text."""

    def __init__(self):
        self.mentions = []
        self.links = []


class Text:
    def __init__(self, t, line, col, source, env, refs):
        self.toks = _text_tokens(t, col)
        self.line, self.source, self.env, self.refs = line, source, env, refs
        self.unclosed = set()
        self.end_col = col + len(t.rstrip(" "))

    def err(self, code):
        return RefError("parser", self.line, self.source, code)

    def lit(self, i, c):
        return i < len(self.toks) and self.toks[i][0] == "lit" and self.toks[i][1] == c

    def pos(self, i, j):
        # Location of tokens i..j included.
        a = self.toks[i][2]
        j = min(j, len(self.toks) - 1)
        b = self.toks[j][2] + len(self.toks[j][1])
        return (self.line, a, self.line, b, self.source)

    def parse(self):
        nodes, i = self.sentence(0, None)
        return nodes

    def sentence(self, i, stop):
        content = []
        while i < len(self.toks) and not (stop and self.lit(i, stop)):
            nodes, i = self.piece(i)
            content.extend(nodes)
        return content, i

    def piece(self, i):
        kind, v, _ = self.toks[i]
        if kind == "lit":
            if v == "\\":
                nxt = self.toks[i + 1][1] if i + 1 < len(self.toks) else ""
                return [mk("text", self.pos(i, i + 1), value=nxt)], i + 2
            r = None
            if v == "[":
                r = self.macro(i)
            elif v in "`$%":
                r = self.literal(i, v)
            elif v in STYLES:
                r = self.style(i, v)
            if r is not None:
                return r
        return [mk("text", self.pos(i, i), value=v)], i + 1

    def literal(self, i, c):
        v, _, j = _collect(self.toks, i + 1, c)
        if not self.lit(j, c):
            return None
        type_ = "verbatim" if c == "`" else "text"
        return [mk(type_, self.pos(i, j), value=v)], j + 1

    def style(self, i, c):
        if i in self.unclosed:
            return None
        content, j = self.sentence(i + 1, c)
        if not self.lit(j, c):
            self.unclosed.add(i)
            return None
        return [
            mk("style", self.pos(i, j), style=STYLES[c], content=content)
        ], j + 1

    def sub(self, v):
        return Text(
            v.value, self.line, v.col, self.source, self.env, self.refs
        ).parse()

    def macro(self, i):
        t = self.toks
        if not (
            i + 3 < len(t)
            and t[i + 1][0] == "text"
            and self.lit(i + 2, "]")
            and self.lit(i + 3, "(")
        ):
            return None
        name, j = t[i + 1][1], i + 4
        start, raw = None, ""
        while j < len(t) and not self.lit(j, ")"):
            if start is None:
                start = t[j][2]
            prev = raw.rstrip()
            if self.lit(j, '"') and (not prev or prev[-1] in ",="):
                v, _, j = _collect(t, j + 1, '"', keep=True)
                if not self.lit(j, '"'):
                    return None
                raw += f'"{v}"'
                j += 1
            elif self.lit(j, "\\") and j + 1 < len(t):
                raw += ")" if t[j + 1][1] == ")" else "\\" + t[j + 1][1]
                j += 2
            else:
                raw += t[j][1]
                j += 1
        if not self.lit(j, ")"):
            return None
        pos = self.pos(i, j)
        a = parse_args(raw, self.line, start or 0, self.source, self.env)
        return self.expand(name, a, pos), j + 1

    def need(self, a, name):
        if name not in a.named:
            raise self.err("macro-missing-" + name)
        return a.named[name]

    def target_text(self, target):
        return [
            mk(
                "text",
                (
                    self.line,
                    target.col,
                    self.line,
                    target.col + len(target.value),
                    self.source,
                ),
                value=target.value,
            )
        ]

    def expand(self, name, a, pos):
        if name.startswith("if"):
            return self.control(name, a)
        if name in ("link", "mailto"):
            key = "target" if name == "link" else "email"
            a.set_names([key, "text"])
            target = self.need(a, key)
            text = a.named.get("text")
            content = self.sub(text) if text else self.target_text(target)
            prefix = "" if name == "link" else "mailto:"
            return [
                mk("macro-link", pos, target=prefix + target.value, content=content)
            ]
        if name == "header":
            a.set_names(["header_id", "text"])
            target = self.need(a, "header_id")
            text = a.named.get("text")
            node = mk(
                "macro-header",
                pos,
                target_name=target.value,
                header=None,
                content=self.sub(text) if text else [],
            )
            self.refs.links.append(node)
            return [node]
        if name == "image":
            a.set_names(["uri", "alt_text", "width", "height"])
            self.need(a, "uri")
            return [
                mk(
                    "macro-image",
                    pos,
                    **{k: a.get(k) for k in ("uri", "alt_text", "width", "height")},
                )
            ]
        if name == "footnote":
            a.set_names(["name"])
            target = self.need(a, "name")
            node = mk("macro-footnote", pos, footnote=None)
            self.refs.mentions.append((target.value, node))
            return [node]
        if name == "class":
            a.set_names(["text"])
            text = self.need(a, "text")
            classes = [v.value for v in a.unnamed]
            return [mk("macro-class", pos, classes=classes, content=self.sub(text))]
        if name in ("unicode", "raw"):
            a.set_names(["value"])
            return [mk("macro-" + name, pos, value=self.need(a, "value").value)]
        return [mk("macro", pos, a, name=name)]

    def control(self, name, a):
        parts = name.split(":", 1)
        if len(parts) != 2 or parts[0] not in ("if", "ifeval"):
            raise self.err("bad-control-macro")
        try:
            cond = parse_condition(parts[1], self.line, self.source)
        except RefError:
            raise self.err("bad-macro-condition") from None
        a.set_names(["true_case", "false_case"])
        true = self.need(a, "true_case")
        result = (
            true
            if evaluate(cond, self.line, self.source, self.env)
            else a.named.get("false_case")
        )
        if parts[0] == "ifeval":
            if result is None:
                raise self.err("ifeval-missing-false")
            if result.value not in self.env:
                raise self.err("ifeval-undefined")
            result = Val(str(self.env[result.value]), result.col)
        return [] if result is None else self.sub(result)


# ---------------------------------------------------------------- document

RE_LABEL = re.compile(r"(\.[a-z0-9-_]*)( *)(.*)")
RE_LIST = re.compile(r"( *)([*#]+)( +)(.*)")
RE_HEADER = re.compile(r"(=+)( *)(.+)")
RE_CONTROL = re.compile(r"@([a-z]+)( *)(.*)$")
RE_INCLUDE = re.compile(r"<<( *)([a-z0-9_#.]+)(:)?(.*)")
RE_VARIABLE = re.compile(r":([a-zA-Z0-9_.+-]+)(:)?(.*)")


class Item:
    def __init__(self, kind, line, **kw):
        self.kind, self.line = kind, line
        self.__dict__.update(kw)


def scan(text, first_line, source):
    """Split a text into the items of the document syntax."""
    lines = text.split("\n") if text else []
    out, n = [], 0

    def eof():
        return n >= len(lines) or (n == len(lines) - 1 and lines[n] == "")

    while not eof():
        s, ln = lines[n], first_line + n
        n += 1
        if not s.strip(" "):
            out.append(Item("eol", ln))
        elif s == "////":
            while True:
                if eof():
                    raise RefError("lexer", ln, source, "unclosed-comment")
                n += 1
                if lines[n - 1] == "////":
                    break
        elif s.startswith("//"):
            pass
        elif s == "---":
            out.append(Item("rule", ln))
        elif len(s) == 4 and len(set(s)) == 1:
            body = []
            while True:
                if eof():
                    raise RefError("lexer", ln, source, "unclosed-block")
                n += 1
                if lines[n - 1] == s:
                    break
                body.append(lines[n - 1])
            out.append(
                Item("block", ln, body=body, end=first_line + n - 1, delim=s)
            )
        elif m := RE_CONTROL.match(s):
            out.append(
                Item("control", ln, op=m.group(1), cond=m.group(3), col=m.start(3))
            )
        elif m := RE_INCLUDE.match(s):
            out.append(
                Item(
                    "include",
                    ln,
                    type=m.group(2),
                    sep=m.group(3),
                    args=m.group(4),
                    type_end=m.end(2),
                    col=m.start(4),
                )
            )
            if not m.group(3) and m.group(4):
                out.append(Item("text", ln, text=m.group(4), col=m.start(4)))
        elif m := RE_VARIABLE.match(s):
            out.append(
                Item("variable", ln, name=m.group(1), sep=m.group(2), value=m.group(3))
            )
        elif s.startswith("[") and s.endswith("]") and len(s) > 1:
            out.append(Item("args", ln, text=s[1:-1], col=1))
        elif m := RE_LABEL.match(s):
            out.append(
                Item(
                    "label", ln, role=m.group(1)[1:], text=m.group(3), col=m.start(3)
                )
            )
        elif m := RE_LIST.match(s):
            out.append(
                Item(
                    "list",
                    ln,
                    prefix=m.group(2),
                    pcol=m.start(2),
                    text=m.group(4),
                    col=m.start(4),
                )
            )
        elif m := RE_HEADER.match(s):
            out.append(
                Item("header", ln, prefix=m.group(1), text=m.group(3), col=m.start(3))
            )
        else:
            out.append(Item("text", ln, text=s, col=0))
    return out


def find_links(nodes):
    out = []
    for n in nodes:
        if n["_type"] == "macro-header":
            out.append(n)
        if n["_type"] not in ("source", "source-line", "raw-line"):
            out.extend(find_links(n.get("content", [])))
        out.extend(find_links(n.get("labels", {}).values()))
    return out


class Document:
    """A document scope: the whole text, the content of a block, or a file."""

    def __init__(self, world, text, first_line, source, env, forbidden):
        self.world = world
        self.source = source
        self.env = env
        self.forbidden = forbidden
        self.nodes = []
        self.args = self.control = None
        self.labels = {}
        self.latest = 0
        self.named_headers, self.links = {}, []
        self.bodies, self.mentions, self.footnote_lists = {}, [], []
        self.headers, self.tocs = [], []
        self.groups, self.group_nodes = {}, []
        # The inclusions of Mau files made by this document.
        self.calls = []
        self.items = scan(text, first_line, source)
        self.i = 0

    def err(self, line, code, kind="parser"):
        return RefError(kind, line, self.source, code)

    def pos(self, l0, c0, l1, c1):
        return (l0, c0, l1, c1, self.source)

    def text(self, s, line, col):
        t = substitute(s, line, self.source, self.env)
        refs = Refs()
        nodes = Text(t, line, col, self.source, self.env, refs).parse()
        self.mentions.extend(refs.mentions)
        self.links.extend(refs.links)
        self.world.features.add("text")
        return nodes

    def excluded(self):
        c, self.control = self.control, None
        if c is None or evaluate(c[0], c[1], self.source, self.env):
            return False
        self.args, self.labels = None, {}
        self.world.features.add("excluded")
        return True

    def pop_args(self):
        a, self.args = self.args, None
        return a or Args()

    def pop_labels(self):
        labels, self.labels = self.labels, {}
        return labels

    # -- running

    def run(self):
        while self.i < len(self.items):
            item = self.items[self.i]
            self.i += 1
            getattr(self, "do_" + item.kind)(item)
        self.finalise()
        return self

    def do_eol(self, item):
        pass

    def do_rule(self, item):
        if self.excluded():
            return
        a = self.pop_args()
        self.nodes.append(
            mk(
                "horizontal-rule",
                self.pos(item.line, 0, item.line, 3),
                a,
                labels=self.pop_labels(),
            )
        )

    def do_variable(self, item):
        if not item.sep:
            raise self.err(item.line, "unfinished-variable")
        name, value = item.name, item.value
        if name[0] in "+-":
            value = "true" if name[0] == "+" else "false"
            name = name[1:]
        elif value:
            value = substitute(value, item.line, self.source, self.env)
        if value == "":
            raise self.err(item.line, "variable-without-value")
        self.env[name] = value

    def do_label(self, item):
        nodes = self.text(item.text, item.line, item.col)
        role = item.role or "title"
        self.labels[role] = mk("label", None, role=role, content=nodes)

    def do_control(self, item):
        s = substitute(item.cond, item.line, self.source, self.env)
        cond = parse_condition(s, item.line, self.source)
        if item.op != "if":
            raise self.err(item.line, "unsupported-operator")
        self.control = (cond, item.line)

    def do_args(self, item):
        s = substitute(item.text, item.line, self.source, self.env)
        self.args = parse_args(s, item.line, item.col, self.source, self.env)

    def do_header(self, item):
        if self.excluded():
            return
        level = len(item.prefix)
        content = self.text(item.text, item.line, item.col)
        a = self.pop_args()
        internal_id, name = a.pop("internal_id"), a.pop("name")
        pos = self.pos(item.line, 0, item.line, level)
        if content:
            pos = merge(pos, merge(content[0]["_pos"], content[-1]["_pos"]))
        node = mk(
            "header",
            pos,
            a,
            level=level,
            internal_id=internal_id,
            name=name,
            content=content,
            labels=self.pop_labels(),
        )
        if name:
            if name in self.named_headers:
                raise self.err(item.line, "duplicate-header")
            self.named_headers[name] = node
        self.headers.append(node)
        self.nodes.append(node)

    def do_text(self, item):
        group = [item]
        while self.i < len(self.items) and self.items[self.i].kind == "text":
            group.append(self.items[self.i])
            self.i += 1
        if self.excluded():
            return
        lines = []
        for it in group:
            pos = self.pos(it.line, it.col, it.line, it.col + len(it.text))
            nodes = self.text(it.text, it.line, it.col)
            lines.append(mk("paragraph-line", pos, content=nodes, labels={}))
        a = self.pop_args()
        self.nodes.append(
            mk(
                "paragraph",
                merge(lines[0]["_pos"], lines[-1]["_pos"]),
                a,
                content=lines,
                labels=self.pop_labels(),
            )
        )

    # -- lists

    def list_item(self, it):
        content = self.text(it.text, it.line, it.col)
        pos = self.pos(it.line, it.pcol, it.line, it.pcol + len(it.prefix))
        if content:
            pos = merge(pos, content[-1]["_pos"])
        return mk("list-item", pos, level=len(it.prefix), content=content)

    def list_nodes(self):
        it = self.items[self.i]
        self.i += 1
        level = len(it.prefix)
        nodes = [self.list_item(it)]
        while self.i < len(self.items) and self.items[self.i].kind != "eol":
            it = self.items[self.i]
            if it.kind != "list":
                raise self.err(it.line, "list-not-closed")
            if len(it.prefix) == level:
                self.i += 1
                nodes.append(self.list_item(it))
            elif len(it.prefix) > level:
                sub = self.list_nodes()
                pos = self.pos(it.line, it.pcol, it.line, it.pcol + len(it.prefix))
                nodes.append(
                    mk(
                        "list",
                        merge(pos, sub[-1]["_pos"]),
                        ordered=it.prefix[0] == "#",
                        main_node=False,
                        start=1,
                        content=sub,
                        labels={},
                    )
                )
            else:
                break
        return nodes

    def do_list(self, item):
        ordered = item.prefix[0] == "#"
        self.i -= 1
        if self.excluded():
            while self.i < len(self.items) and self.items[self.i].kind == "list":
                self.i += 1
            return
        nodes = self.list_nodes()
        a = self.pop_args()
        count = sum(1 for n in nodes if n["_type"] == "list-item")
        start = a.get("start", 1)
        if start == "auto":
            start = self.latest
        else:
            try:
                start = int(start)
            except ValueError:
                raise self.err(item.line, "bad-list-start") from None
        if ordered:
            self.latest = start + count
        self.nodes.append(
            mk(
                "list",
                merge(nodes[0]["_pos"], nodes[-1]["_pos"]),
                a,
                ordered=ordered,
                main_node=True,
                start=start,
                content=nodes,
                labels=self.pop_labels(),
            )
        )

    # -- blocks

    def do_block(self, item):
        if self.excluded():
            return
        a = self.pop_args()
        classes = a.pop("classes", "")
        classes = classes.split(",") if classes else []
        engine = a.pop("engine", "default")
        pos = self.pos(item.line, 0, item.end, 4)
        if engine == "default":
            node = mk("block", pos, classes=classes, content=[])
            if item.body:
                node["content"] = self.block_content(item, a)
        elif engine == "raw":
            node = mk("raw", pos, classes=classes, content=self.raw_lines(item))
        elif engine == "source":
            node = mk("source", pos, classes=classes, language=None, content=[])
            if item.body:
                self.source_block(node, item, a)
        else:
            raise self.err(item.line, "unknown-engine")
        node["labels"] = self.pop_labels()
        name = a.get("footnote")
        if name:
            self.add_body(name, node, item.line)
            return
        node.update(a.fields())
        group, position = a.get("group"), a.get("position")
        if group and position:
            items = self.groups.setdefault(group, {})
            if position in items:
                raise self.err(item.line, "duplicate-position")
            items[position] = node
            return
        self.nodes.append(node)

    def raw_lines(self, item):
        return [
            mk(
                "raw-line",
                self.pos(item.line + n, 0, item.line + n, len(s)),
                value=s,
            )
            for n, s in enumerate(item.body, 1)
        ]

    def source_block(self, node, item, a):
        delimiter = a.pop("marker_delimiter", "") or ":"
        prefix = a.pop("highlight_marker", "@")
        default = a.pop("highlight_default_style", "default")
        aliases = namespace(self.env, "mau.parser.source_highlight_style_aliases")
        a.set_names(["language"])
        node["language"] = a.pop("language", "text")
        for n, s in enumerate(item.body, 1):
            marker = style = None
            ln = item.line + n
            pos = self.pos(ln, 0, ln, len(s))
            if s.endswith(delimiter):
                if len(delimiter) > 1 and delimiter + delimiter[0] in s:
                    raise Unspecified("overlapping delimiters")
                head, sep, mark = s[: -len(delimiter)].rpartition(delimiter)
                if sep:
                    s = head
                    if mark.startswith(prefix):
                        style = mark[len(prefix) :] or default
                        style = aliases.get(style, style)
                    elif mark:
                        marker = mk("source-marker", None, value=mark)
                        pos = self.pos(ln, 0, ln, len(head))
            node["content"].append(
                mk(
                    "source-line",
                    pos,
                    line_number=str(n),
                    line_content=s,
                    highlight_style=style,
                    marker=marker or {},
                )
            )

    def block_content(self, item, a):
        self.world.features.add("nested")
        sub = Document(
            self.world,
            "\n".join(item.body),
            item.line + 1,
            self.source,
            self.env,
            self.forbidden,
        ).run()
        self.calls.extend(sub.calls)
        if a.get("isolate", "true") == "false":
            self.mentions.extend(sub.mentions)
            for name, (body, line) in sub.bodies.items():
                self.add_body(name, body, line)
            self.footnote_lists.extend(sub.footnote_lists)
            self.headers.extend(sub.headers)
            self.tocs.extend(sub.tocs)
        return sub.nodes

    def add_body(self, name, node, line):
        if name in self.bodies:
            raise self.err(line, "duplicate-footnote")
        self.bodies[name] = (node, line)

    # -- inclusions

    def do_include(self, item):
        if item.sep and not item.args:
            raise self.err(item.line, "include-without-arguments")
        if self.excluded():
            return
        a, self.args = self.args, None
        if item.sep:
            if a is not None:
                raise self.err(item.line, "boxed-and-inline")
            s = substitute(item.args, item.line, self.source, self.env)
            a = parse_args(s, item.line, item.col, self.source, self.env)
        a = a or Args()
        pos = self.pos(item.line, 0, item.line, item.type_end)
        handler = getattr(self, "include_" + item.type, None)
        if item.type in ("image", "mau", "raw", "toc", "footnotes", "blockgroup"):
            node = handler(a, item, pos)
        else:
            node = mk("include", pos, ctype=item.type)
        node.update(a.fields())
        node["labels"] = self.pop_labels()
        self.nodes.append(node)

    def include_image(self, a, item, pos):
        a.set_names(["uri", "alt_text", "classes"])
        uri = a.pop("uri")
        if not uri:
            raise self.err(item.line, "missing-uri")
        alt, classes = a.pop("alt_text"), a.pop("classes")
        return mk(
            "include-image",
            pos,
            uri=uri,
            alt_text=alt,
            classes=classes.split(",") if classes else [],
        )

    def read(self, uri, item):
        content = self.world.read(uri)
        if content is None:
            raise self.err(item.line, "unreadable-file")
        return content

    def include_mau(self, a, item, pos):
        a.set_names(["uri"])
        uri = a.pop("uri")
        share = a.pop("pass_environment", "true")
        if not uri:
            raise self.err(item.line, "missing-uri")
        forbidden = self.forbidden + [self.source]
        if self.world.canonical(uri) in [self.world.canonical(p) for p in forbidden]:
            raise self.err(item.line, "recursive-include")
        calls = {}
        for k in [k for k in a.named if k.startswith("call:")]:
            calls[k[5:]] = a.pop(k)
        text = self.read(uri, item)
        env = dict(self.env) if share == "true" else {}
        env.update(calls)
        for k, v in DEFAULTS.items():
            env.setdefault(k, v)
        self.world.features.add("include")
        sub = Document(self.world, text, 0, uri, env, forbidden).run()
        self.calls.append((self.source, uri, calls, pos))
        self.calls.extend(sub.calls)
        return mk("include-mau", pos, uri=uri, content=sub.nodes)

    def include_raw(self, a, item, pos):
        a.set_names(["uri"])
        uri = a.pop("uri")
        if not uri:
            raise self.err(item.line, "missing-uri")
        text = self.read(uri, item)
        lines = [mk("raw-line", pos, value=s) for s in text.split("\n")]
        return mk("include-raw", pos, uri=uri, content=lines)

    def include_toc(self, a, item, pos):
        node = mk("toc", pos, plain_entries=[], nested_entries=[])
        self.tocs.append(node)
        return node

    def include_footnotes(self, a, item, pos):
        node = mk("footnotes", pos, footnotes=[])
        self.footnote_lists.append(node)
        return node

    def include_blockgroup(self, a, item, pos):
        a.set_names(["group"])
        name = a.pop("group")
        if not name:
            raise self.err(item.line, "missing-group")
        node = mk("blockgroup", pos, name=name, items={})
        self.group_nodes.append(node)
        return node

    # -- end of the scope

    def finalise(self):
        # Footnotes.
        notes = {}
        for n, (name, (body, _)) in enumerate(self.bodies.items(), 1):
            notes[name] = mk(
                "footnote",
                None,
                name=name,
                public_id=str(n),
                internal_id=name,
                content=copy(body["content"]),
            )
            if compute := self.env.get("mau.parser.footnote_unique_id_function"):
                notes[name]["internal_id"] = compute.model(notes[name])
        for name, node in self.mentions:
            if name not in notes:
                raise self.err(node["_pos"][0], "undefined-footnote")
            node["footnote"] = notes[name]
        for node in self.footnote_lists:
            node["footnotes"] = [
                mk("footnotes-item", None, footnote=f) for f in notes.values()
            ]
        # Header links.
        done = set()
        for link in self.links:
            self.resolve(link, [], done)
        # Table of contents.
        if self.headers:
            for h in self.headers:
                if h["internal_id"] is None:
                    if compute := self.env.get("mau.parser.header_internal_id_function"):
                        h["internal_id"] = compute.model(h)
                    else:
                        h["internal_id"] = AutoId(h["level"], normalise(h["content"]))
            for toc in self.tocs:
                toc["plain_entries"] = [copy(h) for h in self.headers]
                toc["nested_entries"] = self.nest()
        # Groups.
        for node in self.group_nodes:
            if node["name"] not in self.groups:
                raise self.err(node["_pos"][0], "undefined-group")
            for position, block in self.groups[node["name"]].items():
                node["items"][position] = mk(
                    "blockgroup-item",
                    None,
                    position=position,
                    block_data=block,
                    block=block,
                )

    def resolve(self, link, callers, done):
        name = link["target_name"]
        if name not in self.named_headers:
            raise self.err(link["_pos"][0], "undefined-header")
        header = self.named_headers[name]
        if any(header is c for c in callers):
            raise self.err(link["_pos"][0], "header-loop")
        if id(link) in done:
            return
        for nested in find_links([header]):
            self.resolve(nested, [*callers, header], done)
        link["header"] = header
        if not link["content"]:
            link["content"] = copy(header["content"])
        done.add(id(link))

    def nest(self):
        # Each header is an entry of the closest previous
        # header with a lower level.
        root, stack = [], []
        for h in self.headers:
            entry = mk("toc-item", None, header=h, entries=[])
            while stack and stack[-1][0] >= h["level"]:
                stack.pop()
            (stack[-1][1]["entries"] if stack else root).append(entry)
            stack.append((h["level"], entry))
        return root


class World:
    """The outside of a document: files and observations."""

    def __init__(self, files=None):
        self.files = files or {}
        self.features = set()
        self.reads = []
        # Absolute paths of the files start with this.
        self.here = os.getcwd() + "/"

    def canonical(self, path):
        """The file a path leads to, like the file system resolves it."""
        if path.startswith(self.here):
            path = path[len(self.here) :]
        if not path or path.startswith("/"):
            return path
        folders = {"", "sub"}
        for name in self.files:
            parts = name.split("/")[:-1]
            folders.update("/".join(parts[: i + 1]) for i in range(len(parts)))
        here, parts = [], path.split("/")
        for n, part in enumerate(parts):
            if "/".join(here) not in folders:
                return path
            if part == ".." and here:
                here.pop()
            elif part == "..":
                return path
            elif part not in ("", "."):
                here.append(part)
            elif n == len(parts) - 1:
                return path
        return "/".join(here)

    def read(self, uri):
        content = self.files.get(self.canonical(uri))
        self.reads.append(self.canonical(uri))
        return content


def normalise(o):
    """Merge adjacent texts and drop the empty ones (model side)."""
    if isinstance(o, dict):
        return {k: (v if k in ("_pos",) else normalise(v)) for k, v in o.items()}
    if isinstance(o, list):
        return merge_texts([normalise(i) for i in o])
    return o


def merge_texts(nodes):
    out = []
    for n in nodes:
        if isinstance(n, dict) and n.get("_type") == "text":
            if n["value"] == "":
                continue
            if out and isinstance(out[-1], dict) and out[-1].get("_type") == "text":
                p = out[-1]
                q = dict(p)
                q["value"] = p["value"] + n["value"]
                if p.get("_pos") and n.get("_pos"):
                    q["_pos"] = merge(p["_pos"], n["_pos"])
                out[-1] = q
                continue
        out.append(n)
    return out


def process(text, env=None, files=None, source="main.mau"):
    """Returns (result, world). Raises RefError.

    The result is the normalised expected output.
    """
    world = World(files)
    flat = flatten(env or {})
    for k, v in DEFAULTS.items():
        flat.setdefault(k, v)
    doc = Document(world, text, 0, source, flat, []).run()
    world.env = flat
    world.document = doc
    if not doc.nodes:
        return {}, world
    pos = merge(doc.nodes[0]["_pos"], doc.nodes[-1]["_pos"])
    return normalise(mk("document", pos, content=doc.nodes)), world
