"""Templates are chosen by the documented specificity."""

import copy
import importlib
import os
import re
import sys

from mau import JinjaVisitor

from mv import echo, gen, run
from mv.checks.c01 import Compiled
from mv.checks.c26 import container
from mv.core import Check, Kind, Violation

TAGS = ["t1", "t2", "t3", "t4", "tg_a", "pt_list", "pf_pa", "sub", "t-1"]
SUBTYPES = ["sub", "code", "note", "a__b__c", "x_y", "pt", "tg", "pt_x", "pts_sub", "tg_t1", "Sub", "SUB", "cODE"]
LONG = re.compile(r"[a-z]+(__[a-z]+){2,}")
PREFIXES = ["pa", "pb", "pc"]
CUSTOM = {"style": "style", "macro": "name", "label": "role", "include": "ctype", "blockgroup": "name", "blockgroup-item": "position"}
# Fields with the data of an element that is not rendered there.
DATA = {"macro-header.header", "macro-footnote.footnote", "footnotes-item.footnote", "toc-item.header", "blockgroup-item.block_data"}

PROFILES = [
    gen.profile(args=0.7, label=0.4, elements=(1, 5)),
    gen.focus("style", "generic", "klass", "link", "list", "header", "args", "label", style=10, generic=4, klass=3, args=0.7),
    gen.focus("block", "group", "header", "toc", "footnote", "footnotes", "label", "custom", "args", "mau", "headerlink", block=8, group=5,
              custom=3, toc=2, footnotes=2, mau=2, args=0.7, depth=3),
    gen.focus("source", "raw", "image", "rule", "rawfile", "label", "args", "block", "list", source=6, raw=4, block=4, args=0.7),
]


RANKS = "custom subtype prefix ptype pcustom psubtype tags".split()


class Claims:
    """What the name of a template claims."""

    def __init__(self, type, custom=(), subtype=None, prefix=None, ptype=None, pcustom=(), psubtype=None, tags=()):
        self.type, self.custom, self.subtype, self.prefix = type, dict(custom), subtype, prefix
        self.ptype, self.pcustom, self.psubtype, self.tags = ptype, dict(pcustom), psubtype, list(tags)

    def name(self, rng):
        parts = [f"{k}__{v}" for k, v in self.custom.items()]
        parts += [self.subtype] if self.subtype else []
        parts += [f"pf_{self.prefix}"] if self.prefix else []
        parts += [f"pt_{self.ptype}"] if self.ptype else []
        parts += [f"pts_{k}__{v}" for k, v in self.pcustom.items()]
        parts += [f"pts_{self.psubtype}"] if self.psubtype else []
        parts += [f"tg_{t}" for t in self.tags]
        rng.shuffle(parts)
        return ".".join([self.type, *parts])

    def rank(self):
        return (len(self.custom), bool(self.subtype), bool(self.prefix), bool(self.ptype), len(self.pcustom), bool(self.psubtype), len(self.tags))

    def claims(self):
        return sum(map(int, self.rank()))

    def matches(self, e, prefix):
        return (
            self.type == e["type"]
            and self.prefix == prefix
            and all(e["custom"].get(k) == v for k, v in self.custom.items())
            and (not self.subtype or self.subtype == e["subtype"])
            and (not self.ptype or self.ptype == e["ptype"])
            and all(e["pcustom"].get(k) == v for k, v in self.pcustom.items())
            and (not self.psubtype or self.psubtype == e["psubtype"])
            and set(self.tags) <= set(e["tags"])
        )


def elements(node, chain=(), rendered=True):
    """The elements of a plain output with what templates can claim, in the form of a tree."""
    parent = node.get("parent") or {}
    host = chain[-1] if chain else {}
    e = {
        "type": node["_type"],
        "subtype": node["subtype"],
        "tags": node["tags"],
        "internal": node["internal_tags"],
        "custom": custom(node),
        "ptype": parent.get("_type"),
        "psubtype": parent.get("subtype"),
        "pcustom": custom(host) if host.get("_type") == parent.get("_type") else {},
        "rendered": rendered,
        "children": [],
    }
    for field, v in node.items():
        if field in ("parent", "_context", "kwargs"):
            continue
        shown = f"{node['_type']}.{field}" not in DATA
        for key, child in entries(v):
            e["children"].append(((field, key), elements(child, (*chain, node), shown)))
    return e


def entries(v):
    if isinstance(v, dict):
        if isinstance(v.get("_type"), str):
            yield 0, v
        else:
            for k, x in v.items():
                if isinstance(x, dict) and isinstance(x.get("_type"), str):
                    yield k, x
    elif isinstance(v, list):
        for n, x in enumerate(v):
            if isinstance(x, dict) and isinstance(x.get("_type"), str):
                yield n, x


def custom(node):
    k = CUSTOM.get(node.get("_type"))
    return {k: node[k]} if k else {}


def flat(e):
    yield e
    for _, c in e["children"]:
        yield from flat(c)


def choose(templates, e, prefixes):
    """The names of the best templates for an element (more than one when they claim as much)."""
    for prefix in [*prefixes, None]:
        found = [(c.rank(), name) for name, c in templates.items() if c.matches(e, prefix)]
        if found:
            best = max(r for r, _ in found)
            return {n for r, n in found if r == best}
    return set()


BASE = echo.templates()


def source(name, origin):
    type = name.split(".")[0]
    return '{"_template":"' + f"{name}@{origin}" + '",' + BASE[type][1:]


def invent(rng, found):
    """Claims modelled on elements of the document, exactly true or slightly false."""
    e = rng.choice(found)
    if rng.random() < 0.6:
        # Elements with something to claim.
        e = rng.choice([e for e in found if e["subtype"] or e["tags"] or e["custom"] or e["psubtype"]] or found)
    wrong = rng.random() < 0.15
    c = Claims(e["type"])
    if rng.random() < 0.5 and e["custom"]:
        c.custom = dict(e["custom"])
    if rng.random() < 0.5:
        c.subtype = e["subtype"] or (rng.choice(SUBTYPES) if rng.random() < 0.2 else None)
    if rng.random() < 0.35:
        c.prefix = rng.choice(PREFIXES)
    if rng.random() < 0.4:
        c.ptype = e["ptype"]
    if rng.random() < 0.4:
        c.pcustom = dict(e["pcustom"])
    if rng.random() < 0.3:
        c.psubtype = e["psubtype"]
    if rng.random() < 0.4 and e["tags"]:
        c.tags = rng.sample(sorted(set(e["tags"])), rng.randint(1, len(set(e["tags"]))))
    if e["internal"] and rng.random() < 0.4:
        # Tags for Mau are not tags of the element.
        c.tags = [*c.tags, rng.choice(e["internal"])]
    if wrong:
        what = rng.randrange(4)
        if what == 0:
            c.subtype = rng.choice(SUBTYPES)
        elif what == 1:
            c.ptype = rng.choice(list(BASE))
        elif what == 2:
            c.tags = [*c.tags, rng.choice(TAGS)]
        else:
            c.psubtype = rng.choice(SUBTYPES)
    return c


def rivals(rng, found):
    """Claims that are all true for the same elements."""
    def wealth(e):
        return bool(e["custom"]) + bool(e["subtype"]) + bool(e["psubtype"]) + bool(e["tags"]) + bool(e["pcustom"])

    rich = sorted(found, key=wealth, reverse=True)[:6]
    e = rng.choice(rich)
    prefix = rng.choice([None, None, None, *PREFIXES])
    for _ in range(rng.randint(2, 6)):
        flags = [rng.random() < 0.4 for _ in range(6)]
        tags = sorted(set(e["tags"]))
        yield Claims(
            e["type"], e["custom"] if flags[0] else {}, e["subtype"] if flags[1] else None, prefix,
            e["ptype"] if flags[2] else None, e["pcustom"] if flags[3] else {}, e["psubtype"] if flags[4] else None,
            rng.sample(tags, rng.randint(1, len(tags))) if flags[5] and tags else [],
        )


def plain_name(c):
    """Values that can be written in the name of a template."""
    # A part with a single double underscore is about an attribute.
    subtypes = ["x" if LONG.fullmatch(v or "x") else v or "x" for v in (c.subtype, c.psubtype)]
    values = [*c.custom.values(), *c.pcustom.values(), *subtypes, *c.tags]
    if (c.subtype or "").startswith(("pt_", "pts_", "pf_", "tg_")):
        # Only the bare ones can be taken for something else.
        return False
    return all(
        isinstance(v, str) and v and v.replace("-", "").replace("_", "a").isalnum() and v.isascii() and "__" not in v
        and not v.startswith("_") and not v.endswith("_")
        for v in values
    )


class Sources:
    """The places where templates are found, from the least to the most important."""

    def __init__(self, mon, rng):
        self.rng = rng
        self.default, self.provided, self.custom = {}, [{}, {}], {}
        # The last of the folders is the most important, whatever its name.
        self.paths = rng.sample(["tplA", "tplB"], 2)
        self.origins = ["default", "prov0", "prov1", *self.paths, "custom"]
        self.files = {}
        self.effective = {}
        self.levels = {}

    ORIGINS = ["default", "prov0", "prov1", "tplA", "tplB", "custom"]

    def add(self, name, claims, origin):
        level = self.origins.index(origin)
        content = source(name, origin)
        if "." in name and self.rng.random() < 0.15:
            # Templates can use others by name.
            part = f"{self.rng.choice(['part', 'Part'])}-{claims.type}" + self.rng.choice(["", ".x", ".X"])
            where = self.rng.choice([self.default, self.provided[1], self.custom])
            where[part + ".j2"] = BASE[claims.type][1:]
            content = content.replace(BASE[claims.type][1:], '{% include "' + part + '" %}')
        if origin == "default":
            self.default[name + ".j2"] = content
        elif origin.startswith("prov"):
            self.provided[int(origin[-1])][name + ".j2"] = content
        elif origin == "custom":
            self.custom[name + ".j2"] = content
        else:
            self.files[f"{origin}/{name}.j2"] = content
        if level >= self.levels.get(name, (-1,))[0]:
            self.levels[name] = (level, origin)
        self.effective[name] = claims

    def origin(self, name):
        return self.levels[name][1]

    def noise(self):
        """What is not a template of the requested extension."""
        self.custom["document.html"] = "wrong"
        self.custom["text.j2x"] = "wrong"
        self.files["tplA/paragraph.txt"] = "wrong"
        self.files["tplB/README"] = "wrong"

    def write(self):
        for p in self.paths:
            os.makedirs(p, exist_ok=True)
        for path, content in self.files.items():
            # Directories stand for the first parts of the name.
            base, name = path.split("/")
            parts = name.split(".")
            k = self.rng.randint(1, len(parts) - 2) if len(parts) > 2 and self.rng.random() < 0.3 else 0
            # A directory may stand for many parts.
            folders = ".".join(parts[:k])
            if self.rng.random() < 0.6:
                folders = "".join("/" if c == "." and self.rng.random() < 0.5 else c for c in folders)
            d = os.path.join(base, folders)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, ".".join(parts[k:])), "w", encoding="utf-8") as f:
                f.write(content)

    def environment(self, env, prefixes):
        env = copy.deepcopy(env)
        t = {"paths": self.paths, "custom": nested(self.rng, self.custom), "providers": ["mvprov0", "mvprov1"]}
        if prefixes or self.rng.random() < 0.5:
            t["prefixes"] = list(prefixes)
        env.setdefault("mau", {})["visitor"] = {"templates": t}
        return env


def nested(rng, flat):
    """Some names are written as nested dictionaries."""
    if rng.random() < 0.6:
        return flat
    out = {}
    for name, content in flat.items():
        parts = name.split(".")
        d = out
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = content
    return out


def providers(mon, sources):
    """Installs the two packages of templates that can be requested."""
    d = os.path.join(mon.scratch, "site")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "mvprov-1.0.dist-info"))
        with open(os.path.join(d, "mvprov-1.0.dist-info", "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: mvprov\nVersion: 1.0\n")
        with open(os.path.join(d, "mvprov-1.0.dist-info", "entry_points.txt"), "w") as f:
            f.write("[mau.templates]\nmvprov0 = mvprov:P0\nmvprov1 = mvprov:P1\nmvother = mvprov:other\n")
        with open(os.path.join(d, "mvprov.py"), "w") as f:
            f.write("class P0: templates = {}\nclass P1: templates = {}\nclass other: templates = {'document.j2': 'wrong', 'text.j2': 'wrong'}\n")
        sys.path.insert(0, d)
        importlib.invalidate_caches()
    module = importlib.import_module("mvprov")
    module.P0.templates, module.P1.templates = sources.provided


def build(mon, rng, found, missing=None):
    s = Sources(mon, rng)
    for t in BASE:
        if t != missing:
            for origin in rng.sample(s.ORIGINS, rng.choice([1, 1, 2, 3])):
                s.add(t, Claims(t), origin)
    claims = [invent(rng, found) for _ in range(rng.randint(2, 15))]
    for _ in range(rng.randint(1, 3)):
        claims += rivals(rng, found)
    for c in claims:
        if plain_name(c) and not (missing == c.type and not c.claims()):
            name = c.name(rng)
            if name in s.effective and rng.random() < 0.5:
                continue
            for origin in rng.sample(s.ORIGINS, rng.choice([1, 1, 1, 2])):
                s.add(name, c, origin)
    if rng.random() < 0.5:
        s.noise()
    return s


COMPILED = Compiled()


def visitor(default):
    class Visitor(JinjaVisitor):
        extension = ".j2"
        jinja_environment_options = {"bytecode_cache": COMPILED}
        default_templates = type(JinjaVisitor.default_templates).from_dict(default)

    return Visitor


RICH = '''

[*{s1}, {tt}]
¤¤¤¤
[*{s2}, {tt}]
para *st _in_* {{not a variable}}

.{r1} label
<< custom{n}:a, *{s3}, {tt}

. *label*
<< custom{n}:b, *{s1}, #{t3}
¤¤¤¤

[*{s2}, #{t1}, #{t2}, group=rich{n}, position=pos{n}]
¤¤¤¤
[{tt}]
para
¤¤¤¤

. label
<< blockgroup:rich{n}, *{s3}, #{t1}
'''.replace(" {{not a variable}}", "")


def rich(rng, text):
    v = {f"s{i}": rng.choice(SUBTYPES) for i in (1, 2, 3)} | {f"t{i}": t for i, t in enumerate(rng.sample(TAGS, 3), 1)}
    v["tt"] = ", ".join("#" + rng.choice(["", "", "mau:"]) + t for t in rng.sample(TAGS, rng.randint(1, 6)))
    return text + RICH.format(r1="role", n=rng.randrange(3), **v)


def selection(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    if n % 2:
        case.text = rich(rng, case.text)
    mon.world(case.files)
    plain = run.run(case.text, copy.deepcopy(case.env))
    if not plain.ok or not plain.value:
        mon.count("rejected documents")
        return
    tree = elements(plain.value)
    found = [e for e in flat(tree) if e["rendered"]]
    missing = rng.choice(found)["type"] if rng.random() < 0.15 else None
    prefixes = rng.choice([[], [], ["pa"], ["pa", "pb"], ["pb", "pa"], ["pc", "pb", "pa"]])
    s = build(mon, rng, found, missing)
    s.write()
    providers(mon, s)
    env = s.environment(case.env, prefixes)
    detail = dict(text=case.text, env=env, files=dict(case.files, **s.files), default=s.default, provided=s.provided, prefixes=prefixes)
    out = run.run(case.text, copy.deepcopy(env), visitor=visitor(s.default))
    orphans = [e for e in found if not choose(s.effective, e, prefixes)]
    if orphans:
        mon.count("documents without a template")
        if out.kind != "error" or out.error()[0] != "visitor" or "suitable template" not in out.text():
            raise Violation(f"no template matches {orphans[0]['type']!r}, but the run gave {out.brief()}"[:400], **detail)
        named = out.recorder.errors[0][1].node_type
        if named not in {e["type"] for e in orphans}:
            raise Violation(f"the error names {named!r}, which has a template", **detail)
        mon.case(["missing", case.text, sorted(s.effective)], True)
        return
    if not out.ok:
        raise Violation(f"all the elements have a template, but the run gave {out.brief()}"[:400], **detail)
    try:
        judge(mon, tree, echo.decode(out.value), s, prefixes)
    except Violation as v:
        v.detail.update(detail)
        raise
    mon.case([case.text, sorted(s.effective), prefixes], len(found) > 2, {"text": case.text[:400], "templates": sorted(s.effective)[:60]})

    if any(len(choose(s.effective, e, prefixes)) > 1 for e in found):
        mon.count("documents with equally specific templates")
        return

    # Templates that match nothing change nothing.
    useless = {}
    for _ in range(rng.randint(1, 12)):
        c = invent(rng, found)
        if rng.random() < 0.5:
            c.tags = [*c.tags, "tg-none"]
        name = c.name(rng)
        if plain_name(c) and name not in s.effective and not any(c.matches(e, p) for e in found for p in [None, *prefixes]):
            useless[name] = c
    for name, c in useless.items():
        s.add(name, c, rng.choice(s.ORIGINS))
    if useless:
        mon.world(case.files)
        s.write()
        providers(mon, s)
        again = run.run(case.text, s.environment(case.env, prefixes), visitor=visitor(s.default))
        if not again.ok or again.value != out.value:
            raise Violation("adding templates that match no element changed the output", added=sorted(useless), **detail)
        mon.count("useless templates added", len(useless))


def judge(mon, e, out, s, prefixes, path="$"):
    path = f"{path}<{e['type']}>"
    if not isinstance(out, dict) or out.get("_type") != e["type"]:
        raise Violation(f"{path}: not rendered")
    if e["rendered"]:
        best = choose(s.effective, e, prefixes)
        name, _, origin = out["_template"].partition("@")
        if name not in best:
            raise Violation(
                f"{path}: rendered by the template {name!r} instead of {sorted(best)}",
                element={k: v for k, v in e.items() if k != "children"},
            )
        if origin != s.origin(name):
            raise Violation(f"{path}: the template {name!r} comes from {origin} instead of {s.origin(name)}")
        c = s.effective[name]
        mon.count("selections")
        mon.count(f"claims {c.claims()}" if c.claims() < 4 else "claims 4+")
        for k, v in dict(custom=c.custom, subtype=c.subtype, prefix=c.prefix, ptype=c.ptype, pcustom=c.pcustom, psubtype=c.psubtype, tags=c.tags).items():
            if v:
                mon.count("selected by " + k)
        mon.count("from " + origin)
        others = [o.rank() for o in s.effective.values() if o.prefix == c.prefix and o.matches(e, c.prefix)]
        if len(others) > 1:
            mon.count("selections among many")
            # Which claims decide: the first that the best has more than the second.
            second = sorted(others)[-2]
            for k, a, b in zip(RANKS, c.rank(), second):
                if a > b:
                    mon.count("decided by " + k)
                    if any(x < y for x, y in zip(c.rank(), second)):
                        mon.count("decided against others by " + k)
                    break
    for (field, key), child in e["children"]:
        v = out.get(field)
        try:
            v = v if isinstance(v, dict) and isinstance(v.get("_type"), str) else v[key]
        except (TypeError, KeyError, IndexError):
            raise Violation(f"{path}: {field} is not rendered")
        judge(mon, child, v, s, prefixes, f"{path}.{field}")


CHECK = Check(
    "C24",
    rule="documents from the generator with sets of templates (in defaults, two provider packages, two directories and the custom configuration, "
    "with and without prefixes) modelled on the elements of the document: the template that rendered every element is compared with the one "
    "selected by an independent model; distinct pairs of document and set of templates count",
    kinds=[Kind("selection", selection, 800, 12000)],
    require=["selections", "selections among many", "useless templates added", "documents without a template"]
    + ["selected by " + k for k in "custom subtype prefix ptype pcustom psubtype tags".split()]
    + ["decided by " + k for k in RANKS if k != "prefix"] + ["decided against others by " + k for k in ("custom", "ptype", "subtype")]
    + ["from " + o for o in Sources.ORIGINS] + ["claims 4+"],
    assumptions=["among templates of equal specificity any may be chosen"],
)
