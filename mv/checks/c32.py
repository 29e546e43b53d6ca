"""Programs can render parts of a document, with the options of the visitors."""

import copy

import yaml
from mau import BaseVisitor, Environment, JinjaVisitor, Mau, YamlVisitor
from mau.message import MauException

from mv import echo, gen, run
from mv.checks.c01 import Compiled
from mv.core import Check, Kind, Violation

PROFILES = [
    gen.profile(args=0.4, label=0.4, elements=(2, 9)),
    gen.focus("block", "group", "header", "toc", "footnote", "footnotes", "headerlink", "mau", "label", block=8, group=5, toc=4, footnotes=3,
              mau=3, depth=3, args=0.3, label=0.4),
    gen.focus("source", "raw", "rawfile", "list", "image", "rule", "custom", "label", "args", source=8, raw=3, list=6, label=0.5),
]


def fields(data):
    """The fields of an element with other elements: name and form."""
    for f in echo.FIELDS.get(data["_type"], ()):
        if f[-1] in "*%!&":
            yield f[:-1], f[-1]


def rebuild(data, fn, rendered=True):
    """The output when every element that is rendered goes through a function, the contents first."""
    out = dict(data)
    for f, form in fields(data):
        v = data[f]
        if form == "*":
            out[f] = [rebuild(x, fn) for x in v]
        elif form == "%":
            out[f] = {k: rebuild(x, fn) for k, x in v.items()}
        elif form == "!":
            out[f] = rebuild(v, fn) if v else v
        elif v:
            out[f] = rebuild(v, fn, False)
    return fn(out, rendered)


def parts(node, data, path=(), rendered=True):
    """The elements of a document with what the whole output says of them."""
    yield path, node, data, rendered
    for f, form in fields(data):
        source = getattr(node, "block" if f == "block_data" else f, None)
        if source is None:
            continue
        v = data[f]
        if form == "*":
            pairs = [(n, x, y) for n, (x, y) in enumerate(zip(source, v))] if isinstance(source, list | tuple) else []
        elif form == "%":
            pairs = [(k, source.get(k), y) for k, y in v.items()] if isinstance(source, dict) else []
        else:
            pairs = [(None, source, v)]
        for key, n, d in pairs:
            if n is not None and hasattr(n, "accept") and d:
                yield from parts(n, d, (*path, (f, key)), form != "&")


def at(data, path):
    for f, key in path:
        data = data[f] if key is None else data[f][key]
    return data


def parse(text, env):
    """The steps of the library, one by one."""
    recorder = run.Recorder()
    mau = Mau(recorder, Environment.from_dict(env))
    lexer = mau.run_lexer(mau.init_text_buffer(text, "main.mau"))
    parser = mau.run_parser(lexer.tokens)
    return mau, recorder, parser.output.document


def same(mon, expected, got, what, detail):
    if expected != got:
        raise Violation(f"{what}: {where(expected, got)}", **detail)
    mon.count(what)


def where(a, b, path="$"):
    if type(a) is not type(b):
        return f"at {path} expected {str(a)[:150]}, observed {str(b)[:150]}"
    if isinstance(a, dict):
        for k in [*a, *b]:
            if k not in a or k not in b:
                return f"at {path} the field {k!r} is {'missing' if k in a else 'not expected'}"
            if a[k] != b[k]:
                return where(a[k], b[k], f"{path}.{k}")
    if isinstance(a, list | tuple):
        for n, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return where(x, y, f"{path}[{n}]")
        return f"at {path} expected {len(a)} elements, observed {len(b)}"
    return f"at {path} expected {str(a)[:150]}, observed {str(b)[:150]}"


def without(*names):
    def fn(d, rendered):
        d = {k: v for k, v in d.items() if k not in names}
        if isinstance(d.get("parent"), dict):
            d["parent"] = {k: v for k, v in d["parent"].items() if k not in names}
        return d

    return fn


COMPILED = Compiled()


class Echo(JinjaVisitor):
    jinja_environment_options = {"bytecode_cache": COMPILED}


class Default(Echo):
    default_templates = Environment.from_dict(echo.environment()["mau"]["visitor"]["templates"]["custom"])


def options(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    if rng.random() < 0.2:
        case.text = case.text.replace("[", "[#mau:debug, ", 1) if "\n[" in "\n" + case.text else case.text
    mon.world(case.files)
    env = copy.deepcopy(case.env)
    env.setdefault("mau", {}).update(echo.environment()["mau"])
    detail = dict(text=case.text, env=case.env, files=case.files)
    whole = run.run(case.text, copy.deepcopy(env))
    if whole.kind == "crash":
        raise Violation(f"processing gave {whole.brief()}", **detail)
    try:
        mau, recorder, document = parse(case.text, copy.deepcopy(env))
    except MauException as exc:
        if whole.ok:
            raise Violation(f"only the single steps of the library fail: {exc.message.text}", **detail)
        mon.count("rejected documents")
        return
    if not whole.ok:
        raise Violation(f"the single steps of the library succeed: {whole.brief()}", **detail)
    data = whole.value
    visitor = BaseVisitor(recorder, mau.environment)
    if document is None:
        for v, empty in ((visitor, {}), (YamlVisitor(recorder, mau.environment), "{}\n"), (Echo(recorder, mau.environment), "")):
            same(mon, empty, v.process(None), "empty documents", detail)
        if data != {}:
            raise Violation(f"a document without elements gave {data!r}"[:300], **detail)
        return
    same(mon, data, visitor.process(document), "documents rendered by steps", detail)

    # Options that leave something out.
    def plain(**kw):
        try:
            return BaseVisitor(recorder, mau.environment).process(document, **kw)
        except MauException as exc:
            raise Violation(f"rendering with {kw} failed: {exc.message.text}", **detail)

    same(mon, rebuild(data, without("_context")), plain(add_context=False), "outputs without positions", detail)
    same(mon, rebuild(data, without("parent")), plain(add_parent=False), "outputs without parents", detail)
    same(mon, rebuild(data, without("parent", "_context")), plain(add_parent=False, add_context=False), "outputs without both", detail)
    same(mon, data, plain(add_parent=True, add_context=True), "outputs with both", detail)

    # A function that changes what is rendered.
    for name, fn in FUNCTIONS.items():
        calls = []

        def transformer(d):
            calls.append(d)
            return fn(d)

        expected = []

        def model(d, rendered):
            if not rendered:
                return d
            expected.append(d)
            return fn(d)

        wanted = rebuild(data, model)
        same(mon, wanted, plain(transformer=transformer), "transformed outputs", detail)
        if sorted(map(repr, calls)) != sorted(map(repr, expected)):
            raise Violation(f"the function is called {len(calls)} times on {len(expected)} elements, or on other data", **detail)
        mon.count("elements transformed", len(calls))

    # Programs with their own way to render an element.
    found = list(parts(document, data))
    kinds = sorted({d["_type"] for _, _, d, _ in found})
    mine = set(rng.sample(kinds, min(len(kinds), rng.randint(1, 3))))
    seen = []
    own = special(mine, seen)
    got = own(recorder, mau.environment).process(document, flavour="x")
    same(mon, rebuild(data, lambda d, rendered: {**d, "mine": "x"} if d["_type"] in mine else d), got, "outputs of other visitors", detail)
    if set(seen) - {"x"}:
        raise Violation("the options given by the program do not reach all the elements", **detail)

    # The parts alone.
    jinja, yml = Echo(recorder, mau.environment), YamlVisitor(recorder, mau.environment)
    echoed = None
    for path, node, d, rendered in rng.sample(found, min(len(found), 12)):
        same(mon, d, visitor.process(node), "parts rendered", detail)
        mon.count("part " + d["_type"])
        if rng.random() < 0.2:
            same(mon, rebuild(d, without("_context")), visitor.process(node, add_context=False), "parts without positions", detail)
        if rng.random() < 0.15:
            same(mon, yaml.safe_load(yaml.safe_dump(d)), yaml.safe_load(yml.process(node)), "parts in YAML", detail)
        if rendered and rng.random() < 0.4:
            if echoed is None:
                echoed = echo.decode(jinja.process(document))
            try:
                there = at(echoed, path)
            except (KeyError, IndexError, TypeError):
                # The data of elements that are not rendered there.
                continue
            if isinstance(there, dict):
                same(mon, there, echo.decode(jinja.process(node)), "parts in templates", detail)
    if rng.random() < 0.25:
        # Visitors need no configuration.
        alone = run.Recorder()
        same(mon, data, BaseVisitor(alone).process(document), "documents rendered without configuration", detail)
        same(mon, yaml.safe_load(yaml.safe_dump(data)), yaml.safe_load(YamlVisitor(alone).process(document)), "documents in YAML without configuration", detail)
        try:
            default = Default(alone)
        except Exception as exc:
            raise Violation(f"a visitor of templates without configuration gave {exc!r}", **detail)
        same(mon, echo.decode(jinja.process(document)), echo.decode(default.process(document)), "documents rendered with default templates only", detail)
    # Rendering parts does not change the document.
    same(mon, data, visitor.process(document), "documents rendered again", detail)
    mon.case([case.text], len(found) > 3, {"text": case.text[:400], "elements": len(found), "own": sorted(mine)})


FUNCTIONS = {
    "wrap": lambda d: {"_type": d["_type"], "inside": d},
    "list": lambda d: [d["_type"], {k: v for k, v in d.items() if k != "parent"}],
    "nothing": lambda d: None if d["_type"] in ("text", "block", "list-item", "toc-item") else d,
    "empty": lambda d: {} if d["_type"] in ("style", "label", "source-line") else "" if d["_type"] == "paragraph" else d,
}


def special(mine, seen):
    class Own(BaseVisitor):
        def _preprocess(self, node, **kwargs):
            seen.append(kwargs.get("flavour"))
            return super()._preprocess(node, **kwargs)

        def _postprocess(self, result, **kwargs):
            seen.append(kwargs.get("flavour"))
            return super()._postprocess(result, **kwargs)

    for t in echo.TYPES:
        name = "_visit_" + t.replace("-", "_")

        def method(self, node, _name=name, _mine=t in mine, **kwargs):
            seen.append(kwargs.get("flavour"))
            out = getattr(super(Own, self), _name)(node, **kwargs)
            if _mine:
                out["mine"] = kwargs.get("flavour")
            return out

        setattr(Own, name, method)
    return Own


def failures(mon, rng, n):
    """Errors and debugging messages do not depend on the options."""
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    lines = case.text.split("\n")
    for _ in range(rng.randint(1, 3)):
        i = rng.randint(0, len(lines))
        lines[i:i] = ["", "[#mau:debug, *dbg]", f"debugged {rng.choice(gen.PLAIN)} *text*", ""]
    text = "\n".join(lines)
    mon.world(case.files)
    env = copy.deepcopy(case.env)
    templates = {t: "{{ _type }}" for t in echo.TYPES}
    broken = rng.choice(["paragraph", "text", "block", "header", "style", "list", "document", "paragraph-line", "label"])
    templates[broken] = rng.choice(["{{ 1 / 0 }}", "{{ nope.nope }}", "{% include 'x' %}"])
    env.setdefault("mau", {})["visitor"] = {"templates": {"custom": {t + ".j2": s for t, s in templates.items()}}}
    detail = dict(text=text, env=env, files=case.files)
    try:
        mau, recorder, document = parse(text, env)
    except MauException:
        mon.count("rejected documents")
        return
    if document is None:
        return
    for visitor in (BaseVisitor, JinjaVisitor):
        results = []
        for kw in ({}, {"add_parent": False}, {"add_context": False}, {"add_parent": False, "add_context": False}):
            recorder = run.Recorder()
            try:
                visitor(recorder, mau.environment).process(document, **kw)
                end = "rendered"
            except MauException as exc:
                m = exc.message
                end = (m.text, m.node_type, str(m.context))
            except Exception as exc:
                raise Violation(f"rendering with {kw} gave {exc!r}", **detail)
            results.append((end, [(m.text, m.node_type, str(m.context)) for m in recorder.debug]))
        if any(r != results[0] for r in results):
            raise Violation(f"the messages depend on the options: {results}"[:600], **detail)
        mon.count("errors with options", results[0][0] != "rendered")
        mon.count("debugging messages with options", len(results[0][1]))
    mon.case([text, broken], True, {"text": text[:400], "broken": broken})


CHECK = Check(
    "C32",
    rule="documents from the generator, parsed with the single steps of the library and rendered as a whole, with the options, with functions "
    "that transform the elements, with visitors of the program and one part at a time: everything is compared with what the whole output says; "
    "distinct documents count",
    kinds=[Kind("options", options, 900, 15000), Kind("failures", failures, 300, 4000)],
    require=["documents rendered by steps", "outputs without positions", "outputs without parents", "transformed outputs", "outputs of other visitors",
             "parts rendered", "parts in YAML", "parts in templates", "documents rendered again", "documents rendered without configuration",
             "documents rendered with default templates only", "errors with options",
             "debugging messages with options"] + ["part " + t for t in ("block", "toc", "toc-item", "footnotes-item", "blockgroup-item", "source-line", "label")],
)
