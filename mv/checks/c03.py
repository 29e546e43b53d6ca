"""The result depends only on the text, the configuration and the files."""

import copy
import json
import os
import random
import re
import subprocess
import sys

from mv import child, echo, gen, hostile, run
from mv.checks.c01 import Echo
from mv.core import Check, Kind, Violation
from mv.ref import flatten

VISITORS = dict(run.VISITORS, echo=Echo)
REPO = os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["mau"].__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
PROFILES = [
    gen.DEFAULT,
    gen.profile(args=0.7, config=0.9, alias=0.5),
    gen.focus("header", "toc", "headerlink", "footnote", "footnotes", "group", "block", header=6, block=6, toc=2),
    gen.focus("source", "mau", "vardef", "var", "cond", source=5, mau=3),
]


def make(rng, env_echo=True):
    case = gen.Gen(rng, rng.choice(PROFILES)).case()
    text = case.text
    if rng.random() < 0.2:
        text = hostile.mutate(rng, text)
    if rng.random() < 0.2:
        text = text.replace("\n\n", "\n\n[#mau:debug]\n", 1)
    visitor = rng.choice(["python", "python", "yaml", "echo"])
    env = copy.deepcopy(case.env)
    files = dict(case.files)
    if visitor == "echo" and rng.random() < 0.3:
        # The templates come from files, with letters of any alphabet.
        env.setdefault("mau", {})["visitor"] = {"templates": {"paths": ["tpl"]}}
        mark = rng.choice(["é", "日本", "x", "\N{GRINNING FACE}"])
        files |= {f"tpl/{t}.j2": src.replace('"_type"', f'"mark":"{mark}","_type"') for t, src in echo.templates().items()}
    elif visitor == "echo":
        env.setdefault("mau", {})["visitor"] = echo.environment()["mau"]["visitor"]
    functions = [f for f in child.FUNCTIONS if rng.random() < 0.15]
    return {"text": text, "env": env, "files": files, "visitor": visitor, "functions": functions}


def execute(mon, c, env=None):
    mon.world(c["files"])
    return child.execute(c, c["env"] if env is None else env, VISITORS[c["visitor"]])


def difference(a, b):
    sa, sb = json.dumps(a), json.dumps(b)
    i = next((i for i, (x, y) in enumerate(zip(sa, sb)) if x != y), min(len(sa), len(sb)))
    return f"{sa[max(0, i - 60):i + 60]} | {sb[max(0, i - 60):i + 60]}"


FIVE = "alpha gamma delta omega lorem ipsum dolor".split()


def twin(rng, c):
    """The same case with other words of the same length."""
    other = dict(zip(FIVE, rng.sample(FIVE, len(FIVE))))
    swap = lambda t: re.sub("|".join(FIVE), lambda m: other[m.group()], t) if isinstance(t, str) else t
    return dict(c, text=swap(c["text"]), files={k: swap(v) for k, v in c["files"].items()})


def processes(mon, rng, n):
    """The same cases in this process, which processed others before, and in fresh ones."""
    # In another locale files are not UTF-8 unless one says so (and their names cannot have other letters).
    locale = rng.random() < 0.5
    cases = [c for c in (make(rng) for _ in range(40)) if not locale or "".join(c["files"]).isascii()][:16]
    cases += [twin(rng, c) for c in cases[:8]]
    for _ in range(6):
        execute(mon, {"text": hostile.soup(rng), "env": hostile.config(rng), "files": {}, "visitor": "python"})
    given = copy.deepcopy([c["env"] for c in cases])
    first = [child.result(execute(mon, c)) for c in cases]
    order = list(range(len(cases)))
    rng.shuffle(order)
    again = [None] * len(cases)
    for i in order:
        again[i] = child.result(execute(mon, cases[i]))
        if cases[i]["env"] != given[i]:
            raise Violation("processing changed the configuration it was given", case=cases[i], before=given[i])
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 4000000)), PYTHONPATH=f"{REPO}:{VERIF}")
    if locale:
        env |= {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}
        mon.count("fresh processes with another locale")
    p = subprocess.run(
        [sys.executable, "-c", "from mv.child import main; main()"], input=json.dumps(cases), capture_output=True,
        text=True, env=env, cwd="/", timeout=600,
    )
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    fresh = json.loads(p.stdout)
    for c, a, b, f in zip(cases, first, again, fresh):
        if a != b or json.dumps(a) != json.dumps(b):
            raise Violation("processing the same text twice gave different results", difference=difference(a, b), case=c)
        if a != f or json.dumps(a) != json.dumps(f):
            raise Violation(
                "a fresh process, with another hash seed and locale, gave a different result", difference=difference(a, f), case=c
            )
        mon.count("compared with a fresh process")
        mon.count("outcome " + a[0] + (" in another locale" if locale else ""))
        mon.case([c["text"], c["env"], c["visitor"]], True, {"text": c["text"][:600], "visitor": c["visitor"]})


def permuted(rng, d):
    keys = list(d)
    rng.shuffle(keys)
    return {k: permuted(rng, d[k]) if isinstance(d[k], dict) and k != "args" else d[k] for k in keys}


def count_leaves(d):
    return sum(count_leaves(v) if isinstance(v, dict) and v else 1 for v in d.values())


def order(mon, rng, n):
    """Order of the configuration, and unrelated entries of it."""
    c = make(rng)
    if len(flatten(c["env"])) != count_leaves(c["env"]):
        mon.count("ambiguous configuration")
        return
    a = child.result(execute(mon, c))
    env = permuted(rng, c["env"])
    extra = {"unrelated77": {"x": "1", "y": rng.choice(["z", "[link](", "{"])}, "unrelated78": rng.choice([1, None, "a"])}
    if rng.random() < 0.5:
        env = {**extra, **env}
    else:
        env = {**env, **extra}
    b = child.result(execute(mon, c, env))
    a[2] = [[m[0], m[1].split(" cannot be found in ")[0], *m[2:]] for m in a[2]]
    b[2] = [[m[0], m[1].split(" cannot be found in ")[0], *m[2:]] for m in b[2]]
    if a != b:
        raise Violation("the order of the configuration, or unrelated entries, changed the result",
                        difference=difference(a, b), case=c, permuted=env)
    mon.count("permuted configurations")
    mon.case([c["text"], list(map(str, env))], True)


class Shuffled:
    """Directory listings in an arbitrary order."""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def __enter__(self):
        self.listdir, self.scandir = os.listdir, os.scandir

        def listdir(*a):
            out = sorted(self.listdir(*a))
            self.rng.shuffle(out)
            return out

        os.listdir = listdir

        class Scan:
            def __init__(s, entries):
                s.entries = iter(entries)

            def __enter__(s):
                return s

            def __exit__(s, *_):
                pass

            def close(s):
                pass

            def __iter__(s):
                return s.entries

            def __next__(s):
                return next(s.entries)

        def scandir(*a):
            with self.scandir(*a) as it:
                out = sorted(it, key=lambda e: e.name)
            self.rng.shuffle(out)
            return Scan(out)

        os.scandir = scandir

    def __exit__(self, *_):
        os.listdir, os.scandir = self.listdir, self.scandir


SUFFIXES = ["", ".tg_red", ".tg_blue", ".tg_one", ".pt_document", ".pt_block", ".pt_list", ".foo", ".name__a", ".style__star", ".pf_p"]


def directory(mon, rng, n):
    """Templates that are equally specific, in directories listed in any order."""
    c = make(rng)
    env = copy.deepcopy(c["env"])
    files = dict(c["files"])
    base = echo.templates()
    for t, src in base.items():
        for k, suffix in enumerate(rng.sample(SUFFIXES, rng.choice([0, 1, 2, 3])) + [""]):
            name = t + suffix
            where = "tpl/" + (name.replace(".", "/", 1) if rng.random() < 0.3 else name)
            files[f"{where}.j2"] = src.replace('"_type"', f'"by{k}":"{suffix}","_type"')
    env.setdefault("mau", {})["visitor"] = {"templates": {"paths": ["tpl"]}}
    results = []
    for seed in (1, 2, 3):
        mon.world(files)
        with Shuffled(f"{n}{seed}"):
            results.append(child.result(run.run(c["text"], env, visitor=Echo)))
    for r in results[1:]:
        if r != results[0]:
            raise Violation("the order of the files of a directory of templates changed the result",
                            difference=difference(results[0], r), text=c["text"])
    mon.count("shuffled directories")
    mon.count("template outcome " + results[0][0])
    mon.case([c["text"], sorted(files)], True)


def changing(mon, rng, n):
    """Directories of templates and included files whose content changes between two runs of a process."""
    c = make(rng)
    here, there = f"t{os.getpid()}n{n}a", f"t{os.getpid()}n{n}b"

    def templates(where, version, names):
        return {f"{where}/{t}.j2": src.replace('"_type"', f'"v":"{version}","_type"') for t, src in echo.templates().items() if t not in names}

    def go(where, files):
        env = copy.deepcopy(c["env"])
        env.setdefault("mau", {})["visitor"] = {"templates": {"paths": [where]}}
        mon.world(files)
        return child.result(run.run(c["text"], env, visitor=Echo))

    dropped = set(rng.sample(sorted(echo.templates()), rng.choice([0, 0, 1, 3])))
    later = set() if rng.random() < 0.7 else set(rng.sample(sorted(echo.templates()), 1))
    # The second version of a file can have the same length.
    old, new = f"older{n}", rng.choice([f"newer{n}", f"newer{n}", f"more recent{n}"])
    pad = rng.choice(["", " pad", " pad" * 100, "\n\npad" * 100])

    def version(which):
        def content(k, v):
            if isinstance(v, bytes):
                return v
            return v + (f"\n\n{which}{pad}\n" if k.endswith(".mau") else f"\n{which}{pad}")

        files = {k: content(k, v) for k, v in c["files"].items()}
        files["long.txt"] = f"a\n{which}\n\n  b{pad}"
        files["long.mau"] = f"= {which}\n\n* a *{which}*\n\ntext{pad}\n"
        return files

    if rng.random() < 0.7:
        c["text"] += rng.choice(["\n\n<< raw:long.txt\n\n<< mau:long.mau\n", "\n\n<< mau:long.mau\n\n<< mau:long.mau\n", "\n\n<< raw:./long.txt\n"])
    docs = version(new)
    go(here, dict(version(old), **templates(here, 1, dropped)))
    a = go(here, dict(docs, **templates(here, 2, later)))
    b = go(there, dict(docs, **templates(there, 2, later)))
    a, b = json.loads(json.dumps(a).replace(here, "DIR")), json.loads(json.dumps(b).replace(there, "DIR"))
    if old in json.dumps(a):
        raise Violation("the content of a file that was changed is still in the result", text=c["text"], env=c["env"], files=docs)
    if a != b:
        raise Violation("files read by a previous run, and changed since, changed the result", difference=difference(a, b), text=c["text"], env=c["env"], files=c["files"])
    mon.count("changed files")
    mon.count("changed files, outcome " + a[0])
    mon.case([c["text"], sorted(dropped), sorted(later)], True)


def steps(mau, recorder, text, name, visitor, whole):
    """What a program sees of a document, processed as a whole or step by step."""
    from mau.message import MauException

    before = len(recorder.errors)
    try:
        if whole:
            value = mau.process(visitor, text, name)
        else:
            lexer = mau.run_lexer(mau.init_text_buffer(text, name))
            parser = mau.run_parser(lexer.tokens)
            value = mau.run_visitor(visitor, parser.output.document)
        end = ["ok", value]
    except MauException as exc:
        end = ["error", exc.message.text]
    except Exception as exc:
        end = ["crash", repr(exc)]
    messages = [[stage, m.text, str(getattr(m, "context", None))] for stage, m in recorder.errors[before:]]
    return json.loads(json.dumps([end, messages], default=repr))


def objects(mon, rng, n):
    """One Mau object, or one environment, for many documents with the same name, many of them similar."""
    from mau import Environment, Mau

    c = make(rng)
    texts = [c["text"]]
    lines = c["text"].split("\n")
    for _ in range(rng.randint(2, 5)):
        how = rng.random()
        if how < 0.35:
            texts.append(twin(rng, c)["text"])
        elif how < 0.7:
            # The same beginning, the same number of lines.
            new = list(lines)
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(len(new) // 2, len(new))
                new[k] = rng.choice(["other", "alpha beta", new[k] + " more", new[k][::-1], "", "= other"])
            texts.append("\n".join(new))
        elif how < 0.85:
            new = list(lines)
            i, j = rng.randrange(len(new)), rng.randrange(len(new))
            new[i], new[j] = new[j], new[i]
            texts.append("\n".join(new))
        else:
            texts.append(rng.choice(texts))
    visitor = run.VISITORS[rng.choice(["python", "yaml"])]
    mon.world(c["files"])
    recorder = run.Recorder()
    environment = Environment.from_dict(c["env"])
    mau = Mau(recorder, environment)
    for k, text in enumerate(texts):
        whole = rng.random() < 0.6
        if rng.random() < 0.2:
            mau = Mau(recorder, environment)
        name = "main.mau" if rng.random() < 0.85 else "other.mau"
        # The variables of a document stay in the environment of the object.
        current = copy.deepcopy(environment.asflatdict())
        again = steps(mau, recorder, text, name, visitor, whole)
        alone = run.Recorder()
        fresh = steps(Mau(alone, Environment.from_dict(current)), alone, text, name, visitor, not whole)
        if again != fresh:
            raise Violation("a document processed after others, by the same object, gave another result", difference=difference(again, fresh),
                            texts=texts[: k + 1], env=c["env"], files=c["files"])
        mon.count("documents of one object, outcome " + fresh[0][0])
    mon.case(texts, len(set(texts)) > 1)


CHECK = Check(
    "C03",
    rule="generated and mutated documents with several formats and configurations, compared with a second run after other documents, "
    "with fresh processes with other hash seeds, with permuted and extended configurations, with shuffled directories of templates, with many documents processed by one object, and with files changed between two runs; "
    "distinct documents count",
    kinds=[
        Kind("processes", processes, 64, 1200),
        Kind("order", order, 2000, 30000),
        Kind("directory", directory, 200, 4000),
        Kind("changing", changing, 200, 4000),
        Kind("objects", objects, 400, 8000),
    ],
    require=["compared with a fresh process", "permuted configurations", "shuffled directories", "changed files, outcome ok", "documents of one object, outcome ok", "documents of one object, outcome error", "template outcome ok"],
)
