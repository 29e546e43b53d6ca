"""Any text is either rendered or rejected with exactly one error."""

import os
import re

import jinja2
from mau import JinjaVisitor

from mv import echo, hostile, run
from mv.core import Check, Kind, Violation


class Compiled(jinja2.BytecodeCache):
    """Templates are compiled once for each source."""

    def __init__(self):
        self.known = {}

    def load_bytecode(self, bucket):
        code = self.known.get((bucket.key, bucket.checksum))
        if code is not None:
            bucket.bytecode_from_string(code)

    def dump_bytecode(self, bucket):
        self.known[(bucket.key, bucket.checksum)] = bucket.bytecode_to_string()


class Echo(JinjaVisitor):
    extension = ".j2"
    jinja_environment_options = {"bytecode_cache": Compiled()}


def contract(out, **detail):
    """The monitor: judges the boundary events of a run."""
    errors = out.recorder.errors
    if out.kind == "crash":
        raise Violation(f"processing failed with {type(out.exc).__name__}: {str(out.exc)[:200]}", **detail)
    if out.ok and errors:
        raise Violation("a result was returned after an error was reported", error=out.text(), **detail)
    if out.kind == "error":
        if len(errors) != 1:
            raise Violation(f"the error was delivered {len(errors)} times to the message handler", **detail)
        stage, message = errors[0]
        if message is not out.exc.message:
            raise Violation("the delivered message is not the one of the exception", **detail)
        if not isinstance(message.text, str) or not message.text.strip():
            raise Violation("the error does not explain the problem", **detail)


def observe(mon, text, env, files, visitors=("python",)):
    for name in visitors:
        mon.world(files)
        e, cls = env, run.VISITORS.get(name)
        if name == "echo":
            cls = Echo
            e = dict(env)
            m = dict(e.get("mau") or {})
            m["visitor"] = echo.environment()["mau"]["visitor"]
            e["mau"] = m
        out = run.run(text, e, visitor=cls)
        key = "ok" if out.ok else "error: " + re.split("['\"$:]", out.text())[0].strip()[:50] if out.kind == "error" else "crash"
        mon.count(f"outcome {key}")
        mon.case([name, text, out.kind], True, {"text": text[:300], "outcome": out.brief()[:200]})
        contract(out, text=text, env=repr(env), files=files, visitor=name)


def mutated(mon, rng, n):
    case = hostile.document(rng)
    text = hostile.mutate(rng, case.text)
    files = {k: hostile.mutate(rng, v) if rng.random() < 0.5 else v for k, v in case.files.items()}
    env = case.env
    if rng.random() < 0.3:
        env = {**hostile.config(rng), **env}
    observe(mon, text, env, files, ["python"] if rng.random() < 0.8 else ["yaml", "echo"])


def soup(mon, rng, n):
    files = {"f1.mau": hostile.soup(rng), "f2.txt": hostile.soup(rng)}
    observe(mon, hostile.soup(rng), hostile.config(rng), files, ["python"] if rng.random() < 0.7 else ["echo"])


CHUNK = 32


def short(mon, rng, n):
    """Short texts, taken in order: every text up to a length is reached."""
    for i in range(n * CHUNK, (n + 1) * CHUNK):
        for length in (1, 2, 3):
            if i < hostile.shorts(length):
                break
            i -= hostile.shorts(length)
        else:
            length, i = rng.choice([4, 5, 6]), rng.randrange(hostile.shorts(4))
            length = rng.choice([4, 5, 6])
            i = rng.randrange(hostile.shorts(length))
        text = hostile.short(i, length)
        wrap = rng.choice(["{}", "{}", "a {} b", "= {}", "* {}", ". {}\na", "[{}]\na", "++++\n{}\n++++", ":a:{}\n{{a}}",
                           "[link]({})", '[class]("{}", x)', "<< image:{}", "@if a=={}\nx", "[{}](b)", "* a\n{}"])
        text = wrap.replace("{}", text).replace("{{", "{").replace("}}", "}")
        mon.world()
        out = run.run(text, {"a": "b"})
        mon.count("short texts")
        mon.case([text], True)
        contract(out, text=text, env={"a": "b"})


def files(mon, rng, n):
    """Files that cannot be read, or that contain anything."""
    mon.world({"bin.mau": bytes(rng.randrange(256) for _ in range(30)) + b"\xff\xfe", "utf16.txt": "x y".encode("utf-16"),
               "empty.mau": "", "ok.mau": "ok\n", "latin.txt": "é".encode("latin-1"), "nul.mau": "a\x00b",
               "bad.mau": "[undefined](", "err.mau": "{nope}", "sub/up.mau": "<< mau:ok.mau\n"})
    os.symlink("dangling", "link.mau")
    os.symlink("loop.mau", "loop.mau")
    os.symlink("sub", "dirlink")
    os.mkdir("dir.mau")
    name = rng.choice(
        ["bin.mau", "utf16.txt", "empty.mau", "ok.mau", "latin.txt", "nul.mau", "err.mau", "bad.mau", "link.mau", "loop.mau",
         "dir.mau", "sub", "dirlink/up.mau", "nope.mau", "", " ", "a\x00b", "x" * 300, "/", "..", ".", "ok.mau/x", "sub/nope",
         "~/x", "http://a.b/c", "é.mau", "{a}", "main.mau", "*", "\\", '"ok.mau"', "ok.mau, zz", "call:a=b", "uri="]
    )
    kind = rng.choice(["mau", "raw", "mau", "raw", "image"])
    form = rng.choice(["<< {k}:{n}", '<< {k}:"{n}"', "[{n}]\n<< {k}", "[uri={n}]\n<< {k}", "[uri=\"{n}\"]\n<< {k}",
                       "++++\n<< {k}:{n}\n++++", "[pass_environment=false, uri={n}]\n<< {k}", "<< {k}:uri={n},call:a=1"])
    text = form.format(k=kind, n=name)
    out = run.run(text, {"a": rng.choice(["ok.mau", "nope"])})
    mon.count(f"inclusion {out.kind}")
    mon.case([text, out.kind], True, {"text": text, "outcome": out.brief()[:200]})
    contract(out, text=text)


BROKEN = [
    "", "{{", "{% if %}", "{{ 1 / 0 }}", "{{ x|y }}", "{{ nothing.at.all }}", "{% extends 'a' %}", "{% include 'text' %}", "{{ value + 1 }}", "{{ value[3] }}",
    "{{ content() }}", "\x00", "{#", "{{ parent.parent.parent }}", "{% for x in content %}{{ x.y.z }}{% endfor %}", "{% raw %}", "{{ tags.append(1) }}", "{% do x %}",
    "{{ _context.start_line }}", "{{ config.a }}", "{{ config['a']['b']['c'] }}", "{% set _type = 1 %}{{ self.x() }}", "{{ labels.title }}", "{{ 'a' * (10 ** 6) }}",
]
SUFFIXES = ["", ".a", ".a__b", ".__", ".a__b__c", ".pts_", ".pt_", ".tg_", ".pf_", ".", "..", ".pts_a__b", ".pts_a__b__c", ". ", ".é", ".pt_document.tg_a.pf_p.x.y"]
BAD = ["missing", "file.txt", "", "notutf8", "dangling", "looping", "nameless", "folder", "x" * 300, "a\x00b", "~", "tpl/text.j2"]


def templates(mon, rng, n):
    """Templates that fail, or that cannot be read."""
    case = hostile.document(rng)
    files = dict(case.files)
    custom, on_disk = {}, {}
    broken = rng.choice([0, 0.02, 0.2, 1]) if rng.random() < 0.7 else 0
    for t, src in echo.templates().items():
        if rng.random() < broken:
            src = rng.choice(BROKEN)
        if rng.random() < 0.15:
            custom[t + rng.choice(SUFFIXES) + ".j2"] = rng.choice(BROKEN)
        (custom if rng.random() < 0.8 else on_disk)[t + ".j2"] = src
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        custom[rng.choice([".j2", "..j2", "j2", ".a.j2", " .j2", "document.j2.j2", "x..j2", "text.J2"])] = rng.choice(BROKEN)
    paths = ["tpl"] if rng.random() < 0.9 else []
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        paths.insert(rng.randrange(len(paths) + 1), rng.choice(BAD))
    files |= {f"tpl/{k}": v for k, v in on_disk.items()}
    files |= {"file.txt": "x", "notutf8/document.j2": b"\xff\xfe", "nameless/.j2": "x", "folder/a/b.c/document.j2": "{{ content }}", "looping/x/header.j2": "h"}
    mon.world(files)
    os.makedirs("dangling", exist_ok=True)
    os.symlink("nowhere", "dangling/a.j2")
    os.symlink("..", "looping/x/up")
    os.symlink("header.j2", "looping/x/header.j2.j2")
    conf = {"custom": custom, "paths": paths}
    if rng.random() < 0.15:
        conf["providers"] = rng.choice([["nothing"], ["a", "b"], []])
    if rng.random() < 0.4:
        conf["prefixes"] = rng.choice([["p"], ["p", "q"], [""], [], ["p", "p"]])
    env = dict(case.env)
    env["mau"] = {**(env.get("mau") or {}), "visitor": {"templates": conf}}
    out = run.run(case.text, env, visitor=Echo)
    mon.count(f"templates {out.kind}")
    mon.case([case.text, sorted(custom.items()), paths], True, {"paths": paths, "outcome": out.brief()[:200]})
    contract(out, text=case.text, env=repr(env)[-3000:], files=files)


def deep(mon, rng, n):
    """Deep nesting."""
    k = rng.choice([20, 60, 150, 400])
    form = rng.randrange(7)
    if form == 0:
        c = [chr(0x4E00 + i) * 4 for i in range(k)]
        text = "\n".join(c + ["x"] + c[::-1])
    elif form == 1:
        text = "\n".join(rng.choice("*#") * (i + 1) + " x" for i in range(k)) + "\n\n"
    elif form == 2:
        text = "\n\n".join("=" * (i + 1) + " x" for i in range(k)) + "\n\n<< toc\n"
    elif form == 3:
        text = "*_~^" * k + "x" + "^~_*" * k
    elif form == 4:
        text = "[class](" * k + "x" + ")" * k
    elif form == 5:
        text = "[" * k + "]" * k + "(" * k + ")" * k
    else:
        fs = {f"d{i}.mau": f"<< mau:d{i + 1}.mau\n" for i in range(k)}
        fs[f"d{k}.mau"] = "end\n"
        mon.world(fs)
        text = "<< mau:d0.mau\n"
    out = run.run(text, visitor=run.VISITORS[rng.choice(["python", "yaml"])] if form != 6 else run.BaseVisitor)
    mon.count(f"deep {out.kind}")
    mon.case([form, k, out.kind], True)
    contract(out, form=form, depth=k)


CHECK = Check(
    "C01",
    rule="mutated documents, soups of syntax, every text of up to 3 characters of a 24-character alphabet in several "
    "contexts, unreadable files and deep nesting; distinct texts count",
    kinds=[
        Kind("mutated", mutated, 5000, 80000),
        Kind("soup", soup, 4000, 60000),
        Kind("short", short, 460, 6000),
        Kind("files", files, 800, 8000),
        Kind("templates", templates, 1500, 20000),
        Kind("deep", deep, 40, 150),
    ],
    require=["outcome ok", "short texts", "inclusion error", "inclusion ok", "deep error", "templates ok", "templates error"],
    assumptions=["Texts do not contain surrogates; configuration values under mau.* are well formed."],
)
