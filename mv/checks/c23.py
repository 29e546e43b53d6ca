"""The command gives the result of the library and writes only its output."""

import contextlib
import copy
import importlib
import io
import os
import re
import subprocess
import sys

import mau.cli
import yaml
from mau import Environment, JinjaVisitor, Mau, YamlVisitor
from mau.lexers.base_lexer import print_tokens
from mau.message import MauException

from mv import echo, gen, hostile, run
from mv.core import Check, Kind, Violation

PROFILES = [gen.profile(config=0, elements=(1, 4)), gen.profile(config=0, mau=3, rawfile=2, elements=(1, 4))]
YAML, JINJA = "core:YamlVisitor", "core:JinjaVisitor"
NAMES = ["doc.mau", "doc.mau", "doc.txt", "noext", "sub/doc.mau", "a.mau.mau", "doc.yaml", "x.maux", "my.mau.d/doc.mau", "dé c.mau", "doc.mau.txt", "doc.yaml.mau", ".mau", "-dash.mau"]
KEYS = ["v", "w", "name", "flag", "title", "a.b", "cfg.x.y", "n-1"]
VALUES = ["x", "two words", "a=b", "", "1", "true", "é漢", "k=v=w", "*b*", "a: b", "- c", "null", '"q"', '"', "'s'", 'a"b', " lead", "trail ", "a,b", "#c", "[x]", "{}", "\\\\", "~", "%d", "$HOME", "a:b", "=", "=x", "\t"]


SITE = None
SHOUT, TELL = "mvvis:Shout", "mvvis:Tell"


def visitors(mon):
    """The formats, with those of a package that is installed."""
    global SITE
    # What stays from a document to the next.
    SITE = mon.scratch + ".more"
    if not os.path.isdir(SITE):
        info = os.path.join(SITE, "mvvis-1.0.dist-info")
        os.makedirs(info)
        with open(os.path.join(info, "METADATA"), "w") as f:
            f.write("Metadata-Version: 2.1\nName: mvvis\nVersion: 1.0\n")
        with open(os.path.join(info, "entry_points.txt"), "w") as f:
            f.write("[mau.visitors]\nshout = mvvis:Shout\nyaml = mvvis:Tell\n\n[other]\nx = nowhere:X\n")
        with open(os.path.join(SITE, "mvvis.py"), "w") as f:
            f.write(
                "import json\nfrom mau import BaseVisitor, YamlVisitor\n\n"
                "class Shout(BaseVisitor):\n    format_code = 'shout'\n    extension = 'shout'\n\n"
                "    def _postprocess(self, result, **kwargs):\n        return json.dumps(result, default=str).upper()\n\n"
                "class Tell(YamlVisitor):\n    extension = 'tell'\n\n"
                "    def _postprocess(self, result, **kwargs):\n        return 'told:\\n' + super()._postprocess(result, **kwargs)\n"
            )
    if SITE not in sys.path:
        sys.path.insert(0, SITE)
        importlib.invalidate_caches()
    module = importlib.import_module("mvvis")
    return {YAML: YamlVisitor, JINJA: JinjaVisitor, SHOUT: module.Shout, TELL: module.Tell}


def forked(argv):
    """The command in a process forked from this one."""
    out, err = os.path.join("/dev/shm", f"mv-{os.getpid()}-o"), os.path.join("/dev/shm", f"mv-{os.getpid()}-e")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            for fd, path in ((1, out), (2, err)):
                f = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
                os.dup2(f, fd)
            null = os.open("/dev/null", os.O_RDONLY)
            os.dup2(null, 0)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", write_through=True)
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", write_through=True)
            sys.argv = ["mau", *argv]
            try:
                mau.cli.main()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if isinstance(e.code, str):
                    print(e.code, file=sys.stderr)
            except BaseException as e:
                # The exact form of the trace is not important here.
                print(f"Traceback\n{type(e).__name__}: {e}", file=sys.stderr)
                code = 1
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    try:
        with open(out, "rb") as f:
            o = f.read()
        with open(err, "rb") as f:
            e = f.read()
    finally:
        for p in (out, err):
            if os.path.exists(p):
                os.unlink(p)
    return os.waitstatus_to_exitcode(status), o, e


def spawned(argv):
    """The command as users run it."""
    env = {k: v for k, v in os.environ.items()}
    if SITE in sys.path:
        env["PYTHONPATH"] = os.pathsep.join(filter(None, [SITE, env.get("PYTHONPATH")]))
    p = subprocess.run([sys.executable, "-m", "mau.cli", *argv], stdin=subprocess.DEVNULL, capture_output=True, env=env, timeout=120)
    return p.returncode, p.stdout, p.stderr


def photograph():
    out = {}
    for d, dirs, files in os.walk("."):
        for n in dirs:
            if "__pycache__" not in n:
                out[os.path.join(d, n)] = None
        for n in files:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.normpath(p)] = (f.read(), os.lstat(p).st_mode)
    return out


def merge(into, path, value):
    """Stores under a dotted name: mappings are merged."""
    d = into
    for p in path[:-1]:
        if not isinstance(d.get(p), dict):
            d[p] = {}
        d = d[p]
    if isinstance(value, dict) and isinstance(d.get(path[-1]), dict):
        for k, v in value.items():
            merge(d[path[-1]], k.split("."), v)
    elif isinstance(value, dict):
        d[path[-1]] = {}
        for k, v in value.items():
            merge(d[path[-1]], k.split("."), v)
    else:
        d[path[-1]] = value


class Call:
    """A set of options and the configuration that they mean."""

    def __init__(self, rng, echoing):
        self.rng, self.argv, self.files = rng, [], {}
        self.conf = {}
        self.names = []
        config = {}
        self.fns, self.vns = "envfiles", "envvars"
        if rng.random() < 0.15:
            self.fns = self.vns = "common"
            self.argv += ["--environment-files-namespace", "common", "--environment-variables-namespace", "common"]
        elif rng.random() < 0.2:
            self.fns = "my.files"
            self.argv += ["--environment-files-namespace", self.fns]
        elif rng.random() < 0.2:
            self.vns = "vars"
            self.argv += ["--environment-variables-namespace", self.vns]
        if rng.random() < 0.5 or echoing:
            for k in rng.sample(["title", "author", "num", "site.url"], rng.randint(0, 3)):
                merge(config, k.split("."), rng.choice(VALUES + [3, True, 1.5]))
                self.names.append("mau." + k)
            if rng.random() < 0.3:
                config.setdefault("parser", {})["aliases"] = {"note": {"args": {"zk": "zv"}, "subtype": "nt"}}
            if rng.random() < 0.3:
                merge(config, [*self.vns.split("."), "v"], "from config")
                self.names.append(f"mau.{self.vns}.v")
            if echoing:
                config["visitor"] = echo.environment(JinjaVisitor.extension)["mau"]["visitor"]
            text = yaml.safe_dump(config, allow_unicode=rng.random() < 0.5) if config or rng.random() < 0.5 else "# nothing\n"
            if rng.random() < 0.2:
                text = "# comment\n" + text
            self.files["conf.yaml"] = text
            self.argv += [rng.choice(["-c", "--config-file"]), "conf.yaml"]
        if config:
            merge(self.conf, ["mau"], copy.deepcopy(config))
        given, keys, order = {}, [], rng.sample(range(10), 3)
        for i in range(rng.choice([0, 0, 1, 2, 3])):
            data = {k: rng.choice(VALUES + [5]) for k in rng.sample(KEYS, rng.randint(1, 3))}
            if rng.random() < 0.25:
                # A file can also contain one value.
                data = rng.choice([0, False, "", [], 7, "zz", ["a"], None, 0.0])
            suffix = rng.choice([".yaml", ".yaml", ".yaml", ".yml", ".txt", "", ".v1.yaml", ".en.v2.yml"])
            name = rng.choice(["", "", "", "sub/", "d.d/"]) + f"{rng.choice(['data', 'file', 'Da-ta'])}{order[i]}{suffix}"
            self.files[name] = yaml.safe_dump(data, allow_unicode=True)
            key = rng.choice([None, "meta", "x.y", "k-1"])
            stem = name.split("/")[-1]
            stem = stem.rpartition(".")[0] or stem
            key = f"{key}{i}" if key else None
            if keys and rng.random() < 0.5:
                # A later file replaces the previous one.
                key = rng.choice(keys)
            elif key:
                keys.append(key)
            self.argv += [rng.choice(["-e", "--environment-file"]), f"{key}={name}" if key else name]
            given[key or stem] = data
        for key, data in given.items():
            if not isinstance(data, dict):
                merge(self.conf, ["mau", *self.fns.split("."), *key.split(".")], data)
                self.names.append(f"mau.{self.fns}.{key}")
                continue
            for k, v in data.items():
                merge(self.conf, ["mau", *self.fns.split("."), *key.split("."), *k.split(".")], v)
                self.names.append(f"mau.{self.fns}.{key}.{k}")
        for i in range(rng.choice([0, 1, 2, 4])):
            k, v = rng.choice(KEYS), rng.choice(VALUES)
            if self.fns == self.vns and self.names and rng.random() < 0.5:
                # The same name given by a file or by the configuration.
                same = [n for n in self.names if n.startswith(f"mau.{self.vns}.")]
                if same:
                    k = rng.choice(same).removeprefix(f"mau.{self.vns}.")
            self.argv += [rng.choice(["-v", "--environment-variable"]), f"{k}={v}"]
            merge(self.conf, ["mau", *self.vns.split("."), *k.split(".")], v)
            self.names.append(f"mau.{self.vns}.{k}")
        flags = rng.choice([[], [], [], ["--verbose"], ["--debug"], ["--lexer-print-output"]])
        self.argv += flags
        self.noisy = flags


def command(mon, rng, n, runner=forked):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    formats = visitors(mon)
    visitor = rng.choice([YAML] * 6 + [JINJA] * 4 + [SHOUT, TELL])
    call = Call(rng, visitor == JINJA and rng.random() < 0.9)
    # The variables of the document come from the configuration.
    lines = [f":{k}:{v}" for k, v in flat(case.env) if isinstance(v, str) and not set(v) & set("{}\n") and v.strip() == v]
    lines += [f":{k}:{{{rng.choice(call.names)}}}" for k, _ in flat(case.env) if call.names and rng.random() < 0.4]
    lines += [f"value {{{k}}} here" + (f" [if:{k}==x](yes, no)" if "_" not in k else "") for k in call.names]
    text = "\n".join(lines) + "\n\n" + case.text
    mode = rng.random()
    if mode < 0.25:
        text = hostile.mutate(rng, text)
    if rng.random() < 0.06:
        # The first and the last characters of a file are special for some.
        text = rng.choice(["\ufeff", "\ufeff\ufeff", "\ufffe", "\x00", "#!/bin/mau\n", "---\n", "\x0c", "\u2028", "# -*- coding: latin-1 -*-\n"]) + text
    elif rng.random() < 0.06:
        text += rng.choice(["\ufeff", "\x1a", "\x04", "\x00", "\x0c", "\u2028", "\x85", " ", "\\", "\n\n\n"])
    text = text.replace("\r", "")
    if re.search(r"\bmau\s*(\}|==|!=)", text):
        # Whether the namespace itself has a value, when there is no configuration, is not specified.
        mon.count("model: unspecified")
        return
    name = rng.choice(NAMES)
    files = dict(case.files, **call.files)
    if name == "-dash.mau":
        argv = [f"--input-file={name}"]
    elif rng.random() < 0.1:
        argv = ["-i", os.path.abspath(name)]
    else:
        argv = [rng.choice(["-i", "--input-file"]), name]
    argv += ["-t", visitor, *call.argv]
    target = rng.choice([None, None, "-", "out.txt", "sub/out", name + ".new", "dé.out"])
    if target:
        argv += [f"--output-file={target}"] if target[:2] == "-d" else [rng.choice(["-o", "--output-file"]), target]
    files[name] = text
    old = {}
    if rng.random() < 0.6:
        for p in {target, name.removesuffix(".mau") + ".yaml", name + ".yaml", name.removesuffix(".mau") + ".shout", name.removesuffix(".mau") + "..j2"} - {None, "-", name}:
            old[p] = "previous output " * 400
    if rng.random() < 0.3:
        k = argv.index("-t")
        argv = argv[k : k + 2] + argv[:k] + argv[k + 2 :]
    mon.world(dict(old, **files))
    detail = dict(argv=argv, text=text, files={k: v for k, v in files.items() if k != name}, config=call.conf)
    before = photograph()
    expected = run.run(text, copy.deepcopy(call.conf), visitor=formats[visitor], source=argv_input(argv))
    code, out, err = runner(argv)
    after = photograph()
    judge(mon, expected, code, out, err, before, after, name, target, call.noisy, detail)
    mon.count(runner.__name__)
    mon.count("format " + visitor)
    mon.case([argv, text], True, {"argv": argv, "outcome": expected.brief()[:200], "exit": code})


def argv_input(argv):
    for a, b in zip(argv, [*argv[1:], None]):
        if a in ("-i", "--input-file"):
            return b
        if a.startswith("--input-file="):
            return a.split("=", 1)[1]


def flat(d, prefix=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, prefix + k + ".")
        else:
            yield prefix + k, v


def changes(before, after):
    return {p for p in before.keys() | after.keys() if before.get(p, 0) != after.get(p, 0)}


def judge(mon, expected, code, out, err, before, after, name, target, noisy, detail):
    detail = dict(detail, exit=code, stdout=out[-800:].decode("utf-8", "replace"), stderr=err[-800:].decode("utf-8", "replace"))
    changed = changes(before, after)
    if not expected.ok:
        mon.count("failing runs")
        if code == 0:
            raise Violation(f"the library gives {expected.brief()}, but the command succeeded"[:400], **detail)
        if changed:
            raise Violation(f"a failed run changed {sorted(changed)}", **detail)
        if expected.kind == "error":
            said = (out + err).decode("utf-8", "replace")
            if squeeze(expected.text()) not in squeeze(said):
                raise Violation(f"the error {expected.text()!r} is not printed", **detail)
            stage, line, source = expected.error()
            place = f"{source}:{line + (stage != 'visitor')},"
            if stage == "lexer":
                place = f"Position: ({line + 1}," if line is not None else source
            elif line is None:
                place = None
            if place and squeeze(place) not in squeeze(said):
                raise Violation(f"the place {place!r} of the error is not printed", **detail)
            mon.count("errors printed")
        return
    mon.count("successful runs")
    if code != 0:
        raise Violation(f"the library succeeds, but the command ended with status {code}", **detail)
    bytes_ = (expected.value + "\n").encode("utf-8")
    if target == "-":
        if changed:
            raise Violation(f"a run with output on the standard output changed {sorted(changed)}", **detail)
        if noisy == ["--lexer-print-output"]:
            bytes_ = listing(tokens_of(detail["text"], argv_input(detail["argv"]))) + bytes_
            mon.count("listings before the output")
        elif noisy:
            # The log goes to the same place.
            out = re.sub(rb"\A(\[[-\d: ]{19}\] [A-Z]+:.*\n)+", b"", out)
            mon.count("outputs after the log")
        if out != bytes_ and not (noisy and expected.recorder.debug and out.endswith(bytes_)):
            raise Violation("the standard output is not the result of the library", **detail)
        mon.count("outputs on stdout")
        return
    if target:
        path = os.path.normpath(target)
    elif changed:
        (path, *more) = sorted(changed)
        if more:
            raise Violation(f"a run changed {sorted(changed)}", **detail)
    else:
        # The previous output was the same: nothing to see.
        raise Violation("no output was written", **detail)
    if path == os.path.normpath(name):
        raise Violation("the output overwrote the input", **detail)
    if not target and os.path.dirname(path) != os.path.dirname(os.path.normpath(name)):
        raise Violation(f"the default output {path!r} is not beside the input {name!r}", **detail)
    suffix = {YAML: "yaml", SHOUT: "shout", TELL: "tell"}.get(visitor_of(detail["argv"]))
    if not target and name == "doc.mau" and suffix and path != f"doc.{suffix}":
        raise Violation(f"the default output of doc.mau is {path!r}", **detail)
    if path not in after or after[path] is None or after[path][0] != bytes_:
        raise Violation(f"the file {path!r} is not the result of the library", **detail)
    if changed - {path}:
        raise Violation(f"a run changed also {sorted(changed - {path})}", **detail)
    mon.count("outputs on default files" if not target else "outputs on requested files")
    if path in before:
        mon.count("previous outputs replaced")


def visitor_of(argv):
    return argv[argv.index("-t") + 1]


def squeeze(s):
    """Logs and traces can be wrapped."""
    return re.sub(r"\s|[│╭╮╰╯─]", "", s)


def real(mon, rng, n):
    command(mon, rng, n, runner=spawned)


BAD = ["config missing", "config invalid", "config directory", "env missing", "env invalid", "env not utf-8", "variable without value", "input missing",
       "input directory", "input not utf-8", "format unknown", "no format", "no input", "option unknown", "output in a missing directory", "output is a directory",
       "namespace conflict", "provider unknown", "template missing", "templates directory missing"]


def failures(mon, rng, n):
    """Runs that cannot succeed for reasons outside of the text."""
    kind = BAD[n % len(BAD)]
    runner = forked if n % 4 else spawned
    text = "some *text*\n\n= header\n"
    old = {p: "previous output" for p in ("doc.yaml", "out", "doc..j2", "doc.j2") if rng.random() < 0.7}
    files = {"doc.mau": text, "ok.yaml": "a: b\n", "bad.yaml": "a: [b\nc: }\n", "latin.yaml": "a: \xe9\n".encode("latin-1"), "latin.mau": "caf\xe9\n".encode("latin-1"), **old}
    argv = {"-i": "doc.mau", "-t": YAML}
    if rng.random() < 0.5:
        argv["-o"] = "out"
    extra = []
    if kind.startswith("config"):
        argv["-c"] = {"missing": "nope.yaml", "invalid": "bad.yaml", "directory": "sub"}[kind.split(" ")[1]]
    elif kind.startswith("env"):
        extra = ["-e", rng.choice(["", "k="]) + {"missing": "nope.yaml", "invalid": "bad.yaml", "not utf-8": "latin.yaml"}[kind[4:]]]
    elif kind == "variable without value":
        extra = ["-v", "novalue"]
    elif kind.startswith("input"):
        argv["-i"] = {"missing": "nope.mau", "directory": "sub", "not utf-8": "latin.mau"}[kind[6:]]
    elif kind == "format unknown":
        argv["-t"] = "core:Nope"
    elif kind == "no format":
        del argv["-t"]
    elif kind == "no input":
        del argv["-i"]
    elif kind == "option unknown":
        extra = ["--nope"]
    elif kind == "output in a missing directory":
        argv["-o"] = "nowhere/out"
    elif kind == "output is a directory":
        argv["-o"] = "sub"
    elif kind == "namespace conflict":
        files["doc.mau"] = "x {mau.envvars.a.b}\n"
        extra = ["-v", "a.b=1", "-v", "a=2"]
    elif kind == "provider unknown":
        argv["-t"] = JINJA
        argv["-c"] = "p.yaml"
        files["p.yaml"] = "visitor: {templates: {providers: [nope]}}\n"
    elif kind == "template missing":
        argv["-t"] = JINJA
        argv["-c"] = "p.yaml"
        files["p.yaml"] = "visitor: {templates: {custom: {document.j2: '{{content}}', paragraph.j2: '{{content}}'}}}\n"
    elif kind == "templates directory missing":
        argv["-t"] = JINJA
        argv["-c"] = "p.yaml"
        files["p.yaml"] = "visitor: {templates: {paths: [nope]}}\n"
    mon.world(files)
    args = [x for k in argv for x in (k, argv[k])] + extra
    before = photograph()
    code, out, err = runner(args)
    changed = changes(before, photograph())
    detail = dict(argv=args, kind=kind, exit=code, stdout=out[-800:].decode("utf-8", "replace"), stderr=err[-800:].decode("utf-8", "replace"))
    if code == 0 and kind == "namespace conflict":
        mon.count("accepted " + kind)
        return
    if code == 0:
        raise Violation(f"a run with {kind} succeeded", **detail)
    if changed:
        raise Violation(f"a run failed for {kind} changed {sorted(changed)}", **detail)
    if not (out + err).strip():
        raise Violation(f"a run failed for {kind} without an explanation", **detail)
    mon.count("failed for " + kind)
    mon.case(["failure", args, sorted(old)], True)


def tokens_of(text, source):
    lexer = Mau(run.Recorder(), Environment())
    return lexer.run_lexer(lexer.init_text_buffer(text, source)).tokens


def listing(tokens):
    with contextlib.redirect_stdout(io.StringIO()) as out:
        print_tokens(tokens)
    return out.getvalue().encode("utf-8")


def lexing(mon, rng, n):
    """The lexer alone writes no output."""
    case = gen.Gen(rng, PROFILES[0]).case()
    mon.world(dict(case.files, **{"doc.mau": case.text, "doc.yaml": "previous"}))
    before = photograph()
    argv = ["-i", "doc.mau", "--lexer-only"] + (["--lexer-print-output"] if n % 2 else []) + (["-o", "out"] if rng.random() < 0.5 else [])
    code, out, err = forked(argv)
    changed = changes(before, photograph())
    detail = dict(argv=argv, text=case.text, exit=code, stderr=err[-800:].decode("utf-8", "replace"))
    if changed:
        raise Violation(f"the lexer alone changed {sorted(changed)}", **detail)
    stage = None
    o = run.run(case.text)
    if o.kind == "error":
        stage = o.error()[0]
    try:
        tokens = tokens_of(case.text, "doc.mau")
    except MauException:
        tokens = None
    # Conditions and arguments are read later.
    if (code != 0) != (tokens is None) or (code != 0 and stage != "lexer"):
        raise Violation(f"the lexer alone ended with status {code}, while the library gives {o.brief()}"[:300], **detail)
    if code == 0 and "--lexer-print-output" in argv:
        if listing(tokens) not in out:
            raise Violation("the tokens are not listed", **detail)
        mon.count("listings")
    mon.count("lexer only")
    mon.case(["lexer", case.text], True)


CHECK = Check(
    "C23",
    rule="generated and mutated documents given to the command (forked from a process that loaded it, or started as users do) with combinations of options, "
    "configuration and environment files, and previous outputs: exit status, streams and bytes on disk are compared with the library, called with "
    "the configuration computed independently; distinct command lines and texts count",
    kinds=[Kind("command", command, 1500, 22000), Kind("real", real, 80, 900), Kind("failures", failures, 200, 1200), Kind("lexing", lexing, 200, 3000)],
    require=["successful runs", "failing runs", "errors printed", "outputs on stdout", "outputs on default files", "outputs on requested files",
             "previous outputs replaced", "forked", "spawned", "format " + YAML, "format " + JINJA, "format " + SHOUT, "format " + TELL, "lexer only",
             "listings before the output", "outputs after the log"]
    + ["failed for " + k for k in BAD if k != "namespace conflict"],
    assumptions=["failures of the writing of the output itself (full disks) are not considered", "errors are explained on any of the two streams"],
)
