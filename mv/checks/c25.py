"""All output formats carry the same complete content."""

import copy
import json

import yaml
from mau import BaseVisitor, Environment, Mau, YamlVisitor
from mau.message import MauException

from mv import echo, gen, hostile, ref, run
from mv.checks.c01 import Echo
from mv.core import Check, Kind, Violation

PROFILES = [
    gen.profile(config=0.6, args=0.6, label=0.4),
    gen.focus("header", "toc", "headerlink", "footnote", "footnotes", "group", "block", "mau", "rawfile", header=6, block=6, toc=3,
              footnotes=3, group=4, mau=3),
    gen.focus("source", "raw", "rawfile", "list", "image", "custom", "label", "args", source=6, raw=4, list=5),
    gen.focus("style", "verbatim", "link", "mailto", "imagem", "klass", "rawm", "unicode", "generic", "ifm", "escape", "oddity",
              paragraph=14, line=(2, 9)),
]


def clean(v):
    """What JSON and YAML can represent: tuples are lists."""
    if isinstance(v, dict):
        return {k: clean(x) for k, x in v.items()}
    if isinstance(v, list | tuple):
        return [clean(x) for x in v]
    return v


def differs(a, b, path="$"):
    """The first difference."""
    if type(a) is not type(b):
        return f"{path}: {run.short(a)} and {run.short(b)}"
    if isinstance(a, dict):
        if a.keys() != b.keys():
            return f"{path}: fields {sorted(map(str, a))} and {sorted(map(str, b))}"
        for k in a:
            d = differs(a[k], b[k], f"{path}.{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        for n, (x, y) in enumerate(zip(a, b)):
            d = differs(x, y, f"{path}[{n}]")
            if d:
                return d
        if len(a) != len(b):
            return f"{path}: {len(a)} and {len(b)} entries"
        return None
    return None if a == b else f"{path}: {a!r} and {b!r}"


def mask(v):
    """Errors mention the visitor only through the available templates."""
    return [v.kind, [(s, m.text, str(getattr(m, "context", None))) for s, m in v.recorder.errors]]


def make(rng):
    case = gen.Gen(rng, rng.choice(PROFILES)).case()
    if rng.random() < 0.25:
        case.text = hostile.mutate(rng, case.text)
    if rng.random() < 0.25:
        piece = rng.choice(["a\x0bb", "n\u0085x", "\u2028", "tab\there", "'q' \"d\"", "- y: z", "x: # y", "\ufeffz", "{% raw %}", "{# c #}",
                            "&amp; <b>", "null", "~", "1e3", "yes", "\x7f", "% y", "é\u0301"])
        case.text = case.text + f"\n\n{piece.replace('{', '{{').replace('}', '}}')}\n\n[engine=raw]\n,,,,\n{piece}\n,,,,\n"
    return case


def load(text):
    """The fast loader is tried first."""
    fast = getattr(yaml, "CSafeLoader", None)
    if fast:
        try:
            return yaml.load(text, Loader=fast)
        except yaml.YAMLError:
            pass
    return yaml.safe_load(text)


def formats(mon, rng, n):
    case = make(rng)
    detail = {"text": case.text, "env": case.env, "files": case.files}
    mon.world(case.files)
    plain = run.run(case.text, copy.deepcopy(case.env))
    mon.world(case.files)
    serialised = run.run(case.text, copy.deepcopy(case.env), visitor=YamlVisitor)
    env = copy.deepcopy(case.env)
    env.setdefault("mau", {})["visitor"] = echo.environment()["mau"]["visitor"]
    mon.world(case.files)
    templated = run.run(case.text, env, visitor=Echo)
    for name, o in (("serialised", serialised), ("templated", templated)):
        if mask(o) != mask(plain):
            raise Violation(f"the {name} output gives {o.brief()}, the plain one {plain.brief()}"[:500], **detail)
    if not plain.ok:
        mon.count("rejected documents")
        return
    structure = clean(plain.value)
    if not isinstance(serialised.value, str):
        raise Violation("the serialised output is not text", **detail)
    try:
        loaded = load(serialised.value)
    except yaml.YAMLError as e:
        raise Violation(f"the serialised output cannot be loaded: {e}"[:300], **detail)
    d = differs(structure, loaded)
    if d:
        d = differs(structure, yaml.safe_load(serialised.value))
    if d:
        raise Violation(f"plain and serialised outputs differ at {d}", **detail)
    mon.count("serialised outputs loaded")
    try:
        echoed = echo.decode(templated.value)
    except (ValueError, KeyError, IndexError, TypeError) as e:
        raise Violation(f"the echo of the templates is not well formed: {e!r}"[:300], output=templated.value[:1500], **detail)
    if structure or echoed:
        d = differs(known(json.loads(json.dumps(structure))), echoed)
        if d:
            raise Violation(f"plain output and values received by the templates differ at {d}", **detail)
    mon.count("templated outputs decoded")
    nodes = count(structure, mon)
    mon.count("elements compared", nodes)
    mon.case([case.text, repr(case.env)], nodes > 1, {"text": case.text[:600], "elements": nodes})


NAMES = {t: set(echo.COMMON) | {f.rstrip("*%!&") for f in echo.FIELDS[t]} for t in echo.TYPES}


def known(o):
    """The fields that the templates echo."""
    if isinstance(o, dict):
        if not isinstance(o.get("_type"), str):
            return {k: known(v) for k, v in o.items()}
        names = NAMES.get(o["_type"])
        return {k: known(v) if k not in ("kwargs", "parent", "_context") else v for k, v in o.items() if not names or k in names}
    if isinstance(o, list):
        return [known(v) for v in o]
    return o


def count(o, mon):
    if isinstance(o, dict):
        k = 0
        if isinstance(o.get("_type"), str):
            mon.count("element " + str(o.get("_type")))
            k = 1
        return k + sum(count(v, mon) for key, v in o.items() if not k or key != "parent")
    if isinstance(o, list):
        return sum(count(v, mon) for v in o)
    return 0


SCALARS = (
    "value style level internal_id name role classes target uri alt_text width height ctype ordered main_node start language "
    "line_number line_content highlight_style public_id position"
).split()
CHILDREN = "content labels entries plain_entries nested_entries footnotes items block header footnote marker".split()
HIDDEN = {("macro-footnote", "name")}


def matched(node, out, mon, path):
    """Every parsed element is in the output with its data."""
    if node is None:
        if out not in ({}, None):
            raise Violation(f"{path}: the output has {run.short(out)} for nothing")
        return
    if not isinstance(out, dict) or out.get("_type") != node.type:
        raise Violation(f"{path}: the element {node.type} is not in the output, which has {run.short(out)}")
    mon.count("parsed " + node.type)
    path = f"{path}<{node.type}>"
    a = node.arguments
    pairs = [("args", a.unnamed_args), ("kwargs", a.named_args), ("tags", a.tags), ("internal_tags", a.internal_tags),
             ("subtype", a.subtype)]
    pairs += [(k, getattr(node, k)) for k in SCALARS if hasattr(node, k) and (node.type, k) not in HIDDEN]
    for k, v in pairs:
        if k not in out:
            raise Violation(f"{path}: the output lacks {k}={v!r}")
        if clean(v) != clean(out[k]):
            raise Violation(f"{path}: the output has {k}={out[k]!r} instead of {v!r}")
    for k in CHILDREN:
        if not hasattr(node, k):
            continue
        v = getattr(node, k)
        if k not in out:
            raise Violation(f"{path}: the output lacks {k}")
        if isinstance(v, dict):
            if set(v) != set(out[k]) or list(v) != list(out[k]):
                raise Violation(f"{path}: the output has {k} {list(out[k])} instead of {list(v)}")
            for name, child in v.items():
                matched(child, out[k][name], mon, f"{path}.{k}[{name}]")
        elif isinstance(v, list | tuple):
            if len(v) != len(out[k]):
                raise Violation(f"{path}: the output has {len(out[k])} {k} instead of {len(v)}")
            for i, child in enumerate(v):
                matched(child, out[k][i], mon, f"{path}.{k}[{i}]")
        elif v is None or hasattr(v, "type"):
            matched(v, out[k], mon, f"{path}.{k}")


def tree(mon, rng, n):
    """The parsed elements against the plain output."""
    case = make(rng)
    mon.world(case.files)
    mau = Mau(run.Recorder(), Environment.from_dict(copy.deepcopy(case.env)))
    try:
        lexer = mau.run_lexer(mau.init_text_buffer(case.text, "main.mau"))
        document = mau.run_parser(lexer.tokens).output.document
        out = mau.run_visitor(BaseVisitor, document)
    except MauException:
        mon.count("rejected documents")
        return
    try:
        matched(document, out, mon, "$")
    except Violation as v:
        v.detail.update(text=case.text, env=case.env, files=case.files)
        raise
    mon.count("parsed documents matched")
    mon.case(["tree", case.text, repr(case.env)], document is not None)


MARK = "\ue000"
SHOWN = "value line_content public_id name uri alt_text target".split()


def sparse(mon, rng, n):
    """Templates that give nothing for some elements: what the others give is put together as when all give something."""
    case = make(rng)
    if rng.random() < 0.5:
        case.text += "\n\n[engine=%s]\n@@@@\n%s\n@@@@\n" % (rng.choice(["raw", "source"]), "\n".join(rng.choice(["", "", "a", " "]) for _ in range(rng.randint(1, 6))))
    if MARK in case.text:
        return
    silent = set(rng.sample(echo.TYPES, rng.choice([0, 0, 1, 3, 6])))
    plain = {}
    for t in echo.TYPES:
        parts = []
        for f in echo.FIELDS[t] if t not in silent else ():
            name = f.rstrip("*%!&")
            if f[-1] in "*!":
                parts.append("{{ %s }}" % name)
            elif f[-1] == "%":
                parts.append("{%% for k, v in %s.items() %%}{{ v }}{%% endfor %%}" % name)
            elif name in SHOWN:
                parts.append("{{ %s }}" % name)
        plain[t + ".j2"] = "".join(parts)
    marked = {k: MARK + v for k, v in plain.items()}
    outs = []
    for templates in (plain, marked):
        env = copy.deepcopy(case.env)
        env.setdefault("mau", {})["visitor"] = {"templates": {"custom": templates}}
        mon.world(case.files)
        outs.append(run.run(case.text, env, visitor=Echo))
    detail = dict(text=case.text, env=case.env, files=case.files, templates=plain)
    a, b = outs
    if a.kind != b.kind:
        raise Violation(f"a mark in the templates changed the outcome from {a.brief()} to {b.brief()}"[:400], **detail)
    if not a.ok:
        mon.count("rejected documents")
        return
    if a.value != b.value.replace(MARK, ""):
        raise Violation("what elements give is put together in another way when some of them give nothing", plain=a.value[:600], marked=b.value[:600], **detail)
    mon.count("outputs with silent elements")
    mon.case(["sparse", case.text, sorted(silent)], bool(b.value))


SETTINGS = [
    gen.focus("vardef", "var", "block", "mau", "footnote", "if", "paragraph", vardef=8, block=4, mau=3, config=0.8),
    gen.profile(config=0.8, args=0.3),
]
MORE = [None, True, False, 0, -1, 1.5, "", "x", [], [1, "two"], ["a", {"b": 1}], "<b> & 'q' \"d\"", "{{ v }}", "é\n"]


def nest(flat):
    """The dictionary of dotted names, if no name is both a value and a namespace."""
    out = {}
    for name, value in flat.items():
        *path, last = name.split(".")
        d = out
        for part in path:
            d = d.setdefault(part, {})
            if not isinstance(d, dict):
                return None
        if last in d:
            return None
        d[last] = value
    return out


def found(o, key):
    if isinstance(o, dict):
        if key in o:
            yield o[key]
        for v in o.values():
            yield from found(v, key)
    elif isinstance(o, list):
        for v in o:
            yield from found(v, key)


def settings(mon, rng, n):
    """Templates read the configuration and the variables of the document."""
    case = gen.Gen(rng, SETTINGS[n % len(SETTINGS)]).case()
    env = copy.deepcopy(case.env)
    for i in range(rng.randint(0, 3)):
        env.setdefault("mau", {}).setdefault("site", {})[f"k{i}"] = rng.choice(MORE)
    templates = echo.templates()
    chosen = set(rng.sample(sorted(templates), 6)) | {rng.choice(["document", "paragraph", "text"])}
    for t in chosen:
        assert templates[t].startswith("{")
        templates[t] = '{"_config":{{ config | tojson | tojson }},' + templates[t][1:]
    env.setdefault("mau", {})["visitor"] = {"templates": {"custom": {t + ".j2": s for t, s in templates.items()}}}
    if rng.random() < 0.3:
        env["mau"]["visitor"]["templates"]["prefixes"] = ["pa", "pb"]
    detail = dict(text=case.text, env=env, files=case.files)
    mon.world(case.files)
    try:
        _, world = ref.process(case.text, copy.deepcopy(env), case.files)
    except (ref.RefError, ref.Unspecified):
        mon.count("model: rejected")
        return
    expected = nest(world.env)
    if expected is None:
        mon.count("names both values and namespaces")
        return
    out = run.run(case.text, copy.deepcopy(env), visitor=Echo)
    if not out.ok:
        raise Violation(f"a valid document gave {out.brief()}"[:300], **detail)
    try:
        seen = [json.loads(c) for c in found(json.loads("[" + out.value + "null]"), "_config")]
    except ValueError as e:
        raise Violation(f"the configuration shown by templates is not well formed: {e!r}"[:300], output=out.value[:1500], **detail)
    for c in seen:
        d = differs(clean(expected), c)
        if d:
            raise Violation(f"the configuration seen by templates differs from the expected one at {d}"[:600], **detail)
    mon.count("configurations seen", len(seen))
    mon.case(["settings", repr(expected)], bool(seen), {"text": case.text[:400]})


CHECK = Check(
    "C25",
    rule="generated and mutated documents with all kinds of elements: plain, serialised and templated outputs of the same document, "
    "compared with each other and with the parsed elements, and the configuration that templates read, compared with the model; distinct documents with more than an element count",
    kinds=[Kind("formats", formats, 700, 12000), Kind("tree", tree, 1500, 25000),
           Kind("sparse", sparse, 600, 10000), Kind("settings", settings, 500, 9000)],
    require=["configurations seen", "outputs with silent elements", "serialised outputs loaded", "templated outputs decoded", "parsed documents matched"]
    + ["element " + t for t in echo.TYPES] + ["parsed " + t for t in echo.TYPES],
)
