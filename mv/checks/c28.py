"""Processing reads only what the document or the configuration mention."""

import copy
import os
import re
import sys
import sysconfig

from mau import YamlVisitor

from mv import echo, gen, hostile, ref, run
from mv.checks.c01 import Echo
from mv.core import Check, Kind, Violation

# Events raised by operations that have effects outside of the process.
EFFECTS = (
    "os.remove os.rename os.mkdir os.rmdir os.link os.symlink os.truncate os.chmod os.chown os.utime os.setxattr os.removexattr "
    "os.chdir os.fchdir os.putenv os.unsetenv os.system os.exec os.fork os.forkpty os.posix_spawn os.spawn os.startfile os.kill os.killpg os.chroot "
    "os.lockf os.chflags os.lchflags os.lchmod os.lchown os.mkfifo os.mknod pty.spawn webbrowser.open sqlite3.connect syslog.syslog "
    "signal.pthread_kill resource.setrlimit"
).split()
PREFIXES = ("subprocess.", "socket.", "shutil.", "tempfile.", "urllib.", "http.", "ftplib.", "smtplib.", "ctypes.", "telnetlib.", "imaplib.", "poplib.", "nntplib.")
LISTING = ("os.listdir", "os.scandir", "os.walk", "glob.glob", "os.fwalk")
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
LIBRARY = tuple({os.path.realpath(p) + "/" for k, p in sysconfig.get_paths().items() if k in ("stdlib", "platstdlib", "purelib", "platlib")})

LOG = []
STATE = {"on": False, "installed": False}


def hook(event, args):
    if not STATE["on"]:
        return
    if event == "open":
        path, mode, flags = args
        LOG.append(("open", path, mode, flags))
    elif event in EFFECTS or event in LISTING or event.startswith(PREFIXES):
        LOG.append((event, args[0] if args else None, None, None))


def watch(fn):
    """Runs a function and returns its result with the recorded events."""
    if not STATE["installed"]:
        sys.addaudithook(hook)
        STATE["installed"] = True
    LOG.clear()
    STATE["on"] = True
    try:
        out = fn()
    finally:
        STATE["on"] = False
    return out, list(LOG)


def photograph():
    """What is in the working directory, with contents and times."""
    out = {}
    for d, dirs, files in os.walk("."):
        for n in dirs:
            out[os.path.join(d, n)] = ("dir",)
        for n in files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            with open(p, "rb") as f:
                out[p] = (f.read(), s.st_mtime_ns, s.st_mode)
    return out


# Files that exist and have no reason to be read.
DECOYS = ["a.html", "u.html", "x", "mau", "main.mau", "alt", "i.png", "a.png", "alpha", "red", "f1", ".mau", "mau.yaml", "config.yaml", "document.j2",
          "templates/document.j2", "toc", "footnotes", "g1", "a", "foo.bar", "notes.mau", "f1.txt.mau"]


def judge(mon, files, log, before, context, allowed=None, must=None, templates=(), missing=()):
    """The monitor of a run."""
    opened = set()
    for event, what, mode, flags in log:
        name = os.fsdecode(what) if isinstance(what, str | bytes | os.PathLike) else what
        if event in EFFECTS or event.startswith(PREFIXES):
            raise Violation(f"processing caused the event {event} on {name!r}", **context)
        if event in LISTING:
            if not isinstance(name, str) or not any(os.path.realpath(name).startswith(t) for t in templates):
                raise Violation(f"processing listed the directory {name!r}", **context)
            mon.count("directories of templates listed")
            continue
        if isinstance(what, int):
            raise Violation("processing opened a file descriptor", **context)
        real = os.path.realpath(name)
        if (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & WRITING):
            raise Violation(f"processing opened {name!r} for writing", **context)
        if real.startswith(LIBRARY) and real.endswith((".py", ".pyc", ".so")):
            mon.count("modules read")
            continue
        if any(real.startswith(t) for t in templates):
            if not real.endswith(".j2"):
                raise Violation(f"processing read {name!r}, which is not a template", **context)
            mon.count("templates read")
            continue
        mon.count("files read")
        opened.add(os.path.relpath(real))
    if allowed is not None:
        for p in sorted(opened):
            if missing and p not in missing and (not p.startswith("..") or not os.path.isfile(p)):
                # An attempt to read what is not there.
                mon.count("attempts")
                continue
            if p not in allowed:
                raise Violation(f"processing read {p!r}, which no element of the document includes", **context)
    if must is not None:
        for p in must:
            if p not in opened:
                raise Violation(f"processing did not read {p!r}, which the document includes", **context)
            mon.count("inclusions read")
    if photograph() != before:
        raise Violation("processing changed the files of the working directory", **context)


def setting():
    return dict(os.environ), os.getcwd()


PROFILES = [
    gen.focus("mau", "rawfile", "image", "vardef", "cond", "block", "link", mau=8, rawfile=8, image=3, cond=0.35, include_depth=3, poison=0.2, imagem=3, absolute=0.1),
    gen.profile(mau=3, rawfile=3, cond=0.3, include_depth=3, absolute=0.05),
]


def documents(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    decoys = {d: "decoy\n" for d in DECOYS if d not in case.files}
    guarded(rng, case)
    files = dict(decoys, **case.files)
    mon.world(files)
    context = dict(text=case.text, env=case.env, files=case.files)
    visitor, env, templates = run.BaseVisitor, copy.deepcopy(case.env), ()
    kind = rng.choice(["plain", "plain", "yaml", "jinja"])
    if kind == "yaml":
        visitor = YamlVisitor
    elif kind == "jinja":
        visitor = Echo
        os.makedirs("tpl/nest")
        for name, content in echo.templates().items():
            with open(rng.choice(["tpl/", "tpl/"]) + name + ".j2", "w") as f:
                f.write(content)
        with open("tpl/other.txt", "w") as f:
            f.write("x")
        env.setdefault("mau", {})["visitor"] = {"templates": {"paths": ["tpl"]}}
        templates = (os.path.realpath("tpl"),)
    try:
        _, world = ref.process(case.text, case.env, files)
        expected = set(world.reads)
    except (ref.RefError, ref.Unspecified):
        expected = None
    before, around = photograph(), setting()
    out, log = watch(lambda: run.run(case.text, env, visitor=visitor))
    if setting() != around:
        raise Violation("processing changed the environment of the process or the working directory", **context)
    if expected is None:
        # The model stops at the first mistake, in its own order.
        allowed = {os.path.normpath(p) for p in case.files}
        judge(mon, files, log, before, context, allowed, None, templates, set(map(os.path.normpath, files)))
        mon.count("rejected documents")
    else:
        judge(mon, files, log, before, context, expected, expected if out.ok else None, templates)
        mon.count("accepted documents")
    mon.count("files mentioned and not read", len(set(case.files) - (expected or set(case.files))))
    mon.case([case.text, kind], bool(case.files), {"text": case.text[:500], "read": sorted(expected or [])})


def guarded(rng, case):
    """Inclusions that are excluded, of files that exist."""
    k = rng.randrange(1000)
    rows = []
    for i in range(rng.randint(0, 2)):
        name = f"secret{i}.{rng.choice(['mau', 'txt'])}"
        case.files[name] = "secret text\n"
        include = f"<< {rng.choice(['mau', 'raw'])}:{name}"
        form = rng.randrange(5)
        if form == 0:
            rows += ["", f":gv{k}:no", f"@if gv{k}==yes", include, ""]
        elif form == 1:
            rows += ["", f":gv{k}:no", f"@if gv{k}==yes", "¤¤¤¤", include, "¤¤¤¤", ""]
        elif form == 2:
            rows += ["", "////", include, "////", f"// {include}", ""]
        elif form == 3:
            rows += ["", "[engine=raw]", "¤¤¤¤", include, "¤¤¤¤", ""]
        else:
            rows += ["", f":gv{k}:no", f"@if gv{k}!=no", f". label", include, "", f"<< image:{name}", ""]
    lines = case.text.split("\n")
    if rng.random() < 0.5 or not rows:
        case.text = "\n".join(rows + lines)
    else:
        case.text = case.text.rstrip("\n") + "\n" + "\n".join(["", *rows])


def misplaced(mon, rng, n):
    """Names of files that do not exist, next to files where they could be looked for."""
    folder = rng.choice(["d/", "d/e/", "docs/", "../up/", "d.x/"])
    kind = rng.choice(["mau", "raw"])
    name = rng.choice(["b", "b.txt", "b.mau", "e/b.txt", "./b.txt", "B.TXT", "b c.txt", "~/b.txt", "$HOME/b.txt", "$MVWORD.txt", "$MVWORD", "%MVWORD%.txt", "e/$MVWORD.txt", "${MVWORD}.txt", "~root/b.txt", "%41.txt", "file:b.txt", "b?.txt", "b*", "mau", "{b}"])
    outer = folder + "a.mau"
    spots = [folder + name, folder + name + ".mau", name + ".mau", name + ".txt", name.lower(), os.path.basename(name), "docs/" + name, name.replace("~/", ""),
             name.replace("$HOME/", ""), name.replace("~", "home"), name.replace("$HOME", "home"), re.sub(r"\$\{?MVWORD\}?|%MVWORD%", "b", name), name.replace("%41", "A"), name.replace("file:", ""), name.replace("?", "1"), name.replace("*", "1"), name.replace("{b}", "b"),
             "includes/" + name, "templates/" + name, name.split(".")[0], name.split(".")[0] + ".txt", folder + os.path.basename(name)]
    decoys = {os.path.normpath(p): "decoy\n" for p in spots if p and os.path.normpath(p) != os.path.normpath(name) and not p.startswith("..") and not p.endswith("/")}
    for p in list(decoys):
        if any(q.startswith(p + "/") for q in decoys) or os.path.normpath(name).startswith(p + "/"):
            del decoys[p]
    written = name if not any(c in name for c in "{} ,*") else '"' + name.replace("{", "\\{").replace("}", "\\}") + '"'
    include = rng.choice([f"<< {kind}:{written}", f"[{written}]\n<< {kind}", f"[uri={written}]\n<< {kind}"])
    deep = rng.random() < 0.6 and not outer.startswith("..")
    text = f"text\n\n<< mau:{outer}\n" if deep else f"text\n\n{include}\n"
    if deep:
        decoys[outer] = f"text\n\n{include}\n"
    mon.world(decoys)
    os.environ["HOME"], os.environ["MVWORD"] = os.path.join(os.getcwd(), "home"), "b"
    source = rng.choice(["main.mau", "docs/main.mau", folder + "main.mau", None, os.path.realpath("docs/main.mau")])
    context = dict(text=text, files=decoys, source=source)
    before = photograph()
    env = {"b": "1"}
    out, log = watch(lambda: run.run(text, env, source=source))
    judge(mon, decoys, log, before, context, {os.path.normpath(outer)} if deep else set(), None, (), set(decoys))
    if out.kind != "error" or out.error()[0] != "parser":
        raise Violation(f"the file {name!r} does not exist, and processing gave {out.brief()}"[:400], **context)
    mon.count("misplaced files")
    mon.case(["misplaced", text, source], True, {"text": text, "decoys": sorted(decoys)})


def hostiles(mon, rng, n):
    """Texts of any kind: the files that are read are mentioned by the text."""
    files = {"f1.mau": hostile.soup(rng), "f2.txt": hostile.soup(rng), "sub/up.mau": "<< raw:f2.txt\n"}
    text = hostile.soup(rng)
    if rng.random() < 0.4:
        case = hostile.document(rng)
        text = hostile.mutate(rng, case.text)
        files.update(case.files)
    everything = dict({d: "decoy\n" for d in DECOYS if d not in files}, **files)
    mon.world(everything)
    context = dict(text=text, files=files)
    env = hostile.config(rng)
    before, around = photograph(), setting()
    out, log = watch(lambda: run.run(text, env))
    if setting() != around:
        raise Violation("processing changed the environment of the process or the working directory", **context)
    allowed = {os.path.normpath(p) for p in everything if ":" + p in text or p in text or any(p in c for c in files.values())}
    judge(mon, files, log, before, context, allowed, None, missing=set(everything))
    mon.count("hostile texts")
    mon.case(["hostile", text], True)


CHECK = Check(
    "C28",
    rule="documents with inclusions of many kinds, excluded inclusions and unrelated files around, and hostile texts: all the audit events "
    "raised while they are processed are compared with the accesses allowed by the model; distinct documents count",
    kinds=[Kind("documents", documents, 1500, 25000), Kind("misplaced", misplaced, 600, 5000), Kind("hostile", hostiles, 2000, 30000)],
    require=["files read", "inclusions read", "templates read", "directories of templates listed", "accepted documents", "rejected documents",
             "hostile texts", "misplaced files", "files mentioned and not read"],
    assumptions=["the effects are those visible to the audit events of the interpreter; modules of the interpreter and of installed packages may be read"],
)
