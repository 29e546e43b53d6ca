"""Programs can replace the computed identifiers and the document element."""

import copy
import hashlib

from mau import BaseVisitor
from mau.nodes.document import DocumentNode

from mv import gen, ref, run, views
from mv.core import Check, Kind, Violation

HEADER, NOTE, WRAPPER = "header_internal_id_function", "footnote_unique_id_function", "document_wrapper"
PROFILES = [
    gen.focus("header", "toc", "headerlink", "block", "style", "verbatim", "args", "label", header=10, toc=3, headerlink=3, isolate_false=0.4, depth=3),
    gen.focus("footnote", "footnotes", "block", "header", "toc", "mau", footnote=8, footnotes=4, block=6, mau=3, isolate_false=0.5, depth=3),
    gen.focus("mau", "header", "toc", "footnote", "footnotes", "block", mau=8, header=5, toc=3, footnote=3, footnotes=2, include_depth=4),
]


def node_text(nodes):
    """The characters that an element received by a function contains."""
    out = []
    for n in nodes:
        if n.type in ("text", "verbatim", "raw-line"):
            out.append(n.value)
        elif n.type == "source-line":
            out.append(n.line_content)
        elif n.type in ("style", "paragraph", "paragraph-line", "block", "raw", "source", "list", "list-item", "header"):
            out.append(node_text(n.content))
    return "".join(out)


def data_text(nodes):
    out = []
    for n in nodes:
        if n["_type"] in ("text", "verbatim", "raw-line"):
            out.append(n["value"])
        elif n["_type"] == "source-line":
            out.append(n["line_content"])
        elif n["_type"] in ("style", "paragraph", "paragraph-line", "block", "raw", "source", "list", "list-item", "header"):
            out.append(data_text(n["content"]))
    return "".join(out)


def mix(*parts):
    digest = hashlib.md5(repr(parts).encode("utf-8", "surrogatepass")).hexdigest()
    # Now and then a text that is unusual for an identifier.
    return "id-" + digest[:12] if digest[-1] > "1" else ["", " ", "#x", "a b", "\N{LATIN SMALL LETTER E WITH ACUTE}", "0", "X", "_"][int(digest[0], 16) % 8]


class Computed:
    """A function of what the element is: the model computes the same."""

    def __init__(self):
        self.results = []

    def model(self, d):
        if d["_type"] == "footnote":
            return mix(d["name"], d["public_id"], data_text(d["content"]))
        return mix(d["level"], d["name"], data_text(d["content"]), d["args"], sorted(d["kwargs"].items()), d["tags"], d["subtype"])

    def __call__(self, node):
        if node.type == "footnote":
            out = mix(node.name, node.public_id, node_text(node.content))
        else:
            a = node.arguments
            out = mix(node.level, node.name, node_text(node.content), a.unnamed_args, sorted(a.named_args.items()), a.tags, a.subtype)
        self.results.append(out)
        return out


class Fresh(ref.AutoId):
    def __init__(self, key):
        self.key = key


class Counting:
    """A function that never gives the same answer twice."""

    def __init__(self, prefix):
        self.prefix, self.results, self.keys = prefix, [], []

    def model(self, d):
        f = Fresh(("fresh", self.prefix, len(self.keys)))
        self.keys.append(f.key)
        return f

    def __call__(self, node):
        self.results.append(f"{self.prefix}{len(self.results)}")
        return self.results[-1]


class Wrapper(DocumentNode):
    type = "zz-document"


class Visitor(BaseVisitor):
    def _visit_zz_document(self, node, **kwargs):
        return self._visit_document(node, **kwargs)


def view(tree):
    out = views.v_headers(tree) + views.v_links(tree)
    for n in views.walk(tree, notes=False):
        if n["_type"] == "macro-footnote":
            out.append(["mention", n["footnote"]["name"], n["footnote"]["internal_id"], n["footnote"]["public_id"]])
        elif n["_type"] == "footnotes":
            out.append(["notes", [[i["footnote"][k] for k in ("name", "internal_id", "public_id")] for i in n["footnotes"]]])
    return out


def settings(env, **kw):
    out = copy.deepcopy(env)
    out.setdefault("mau", {}).setdefault("parser", {}).update(kw)
    return out


def configured(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    mon.world(case.files)
    kw = {}
    new = Computed if rng.random() < 0.6 else lambda: Counting(rng.choice("xyz"))
    if rng.random() < 0.75:
        kw[HEADER] = new()
    if rng.random() < 0.75 or not kw:
        kw[NOTE] = new()
    wrapped = rng.random() < 0.4
    env = settings(case.env, **kw)
    try:
        exp, world = ref.process(case.text, env, case.files)
    except (ref.RefError, ref.Unspecified):
        mon.count("rejected documents")
        return
    if wrapped:
        env["mau"]["parser"][WRAPPER] = Wrapper
    got = run.run(case.text, env, visitor=Visitor)
    detail = dict(text=case.text, env=case.env, files=case.files, functions=sorted(kw), wrapped=wrapped)
    if not got.ok:
        raise Violation(f"a valid document with configured functions gave {got.brief()}"[:300], **detail)
    value = run.normal(got.value)
    if wrapped and value:
        if value["_type"] != Wrapper.type:
            raise Violation(f"the element of the document is {value['_type']!r}, not the configured one", **detail)
        containers(mon, got.value, Wrapper.type, detail)
    ids = {}
    expected = view(exp) if exp else []
    try:
        run.compare(expected, view(value) if value else [], ids=ids)
    except run.Mismatch as m:
        raise Violation(f"identifiers are not those of the configured functions: {m}"[:800], **detail) from None
    fresh = {k: v for k, v in ids.items() if isinstance(k, tuple)}
    if len(set(fresh.values())) != len(fresh):
        raise Violation("different elements share an identifier that was computed once", ids=fresh, **detail)
    for (_, prefix, _), v in fresh.items():
        if not any(v in f.results for f in kw.values()):
            raise Violation(f"the identifier {v!r} was not computed by the configured function", **detail)
    mon.count("identifiers computed", sum(len(f.results) for f in kw.values()))
    mon.count("distinct identifiers", len(fresh))
    if HEADER in kw and kw[HEADER].results:
        mon.count("documents with computed headers")
    if NOTE in kw and kw[NOTE].results:
        mon.count("documents with computed footnotes")
    mon.case([expected and repr(expected)], any(f.results for f in kw.values()), {"text": case.text[:600]})


def containers(mon, value, wanted, detail):
    """The elements of the document report the configured element."""
    for c in value["content"]:
        if c["parent"].get("_type") != wanted:
            raise Violation(f"an element of the document reports a container {c['parent'].get('_type')!r}", **detail)
        mon.count("elements of a configured document")

    def inside(node):
        if node["_type"] == "include-mau":
            # The variables (and this setting) can be withheld from the file.
            for c in node["content"]:
                if c["parent"].get("_type") not in (wanted, "document"):
                    raise Violation(f"an element of a file reports a container {c['parent'].get('_type')!r}", **detail)
        for c in node.get("content") or []:
            if isinstance(c, dict):
                inside(c)

    inside(value)


def neutral(v):
    """The output with the usual document element."""
    if isinstance(v, dict):
        return {k: "document" if k == "_type" and x == Wrapper.type else neutral(x) for k, x in v.items()}
    if isinstance(v, list | tuple):
        return [neutral(x) for x in v]
    return v


def wrapper(mon, rng, n):
    """The configured element changes nothing else."""
    case = gen.Gen(rng, gen.profile(mau=2, depth=2)).case()
    mon.world(case.files)
    plain = run.run(case.text, copy.deepcopy(case.env))
    got = run.run(case.text, settings(case.env, **{WRAPPER: Wrapper}), visitor=Visitor)
    detail = dict(text=case.text, env=case.env, files=case.files)
    if plain.kind != got.kind or (not plain.ok and (plain.error(), plain.text()) != (got.error(), got.text())):
        raise Violation(f"with a configured document the outcome is {got.brief()} instead of {plain.brief()}"[:500], **detail)
    if plain.ok:
        if neutral(got.value) != plain.value:
            raise Violation("the configured document changes more than the element of the document", **detail)
        mon.count("documents equal to the plain ones")
        if got.value and got.value["_type"] != Wrapper.type:
            raise Violation(f"the element of the document is {got.value['_type']!r}, not the configured one", **detail)
    mon.case(["wrapper", case.text], plain.ok and bool(plain.value))


CHECK = Check(
    "C29",
    rule="generated documents processed with functions (of the content, or with a state) that compute the identifiers of headers and footnotes, "
    "and with another class for the document: identifiers in bodies, links, tables and lists are compared with the model; documents with "
    "at least one computed identifier count",
    kinds=[Kind("configured", configured, 3000, 45000), Kind("wrapper", wrapper, 800, 12000)],
    require=["identifiers computed", "distinct identifiers", "documents with computed headers", "documents with computed footnotes",
             "elements of a configured document", "documents equal to the plain ones"],
    assumptions=["functions return non-empty strings"],
)
