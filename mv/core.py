"""Runs the monitors of a property and reports what they observed."""

import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")

# Wall-clock limits of a run: reaching them only shortens the run.
BUDGET = {"quick": 300, "thorough": 780}
# CPU seconds granted to a case, which normally takes a few hundredths.
CASE_CPU = 60
MEMORY = 6 << 30


class Violation(Exception):
    """The property was observed to be false."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what, self.detail = what, detail


class Timeout(BaseException):
    pass


class Kind:
    """A way to produce and judge cases: fn(mon, rng, n)."""

    def __init__(self, name, fn, quick, thorough=None):
        self.name, self.fn = name, fn
        self.amount = {"quick": quick, "thorough": thorough or quick * 10}


class Check:
    def __init__(self, id, rule, kinds, require=(), assumptions=(), known=()):
        self.id, self.rule, self.kinds = id, rule, kinds
        # Counters that must not be zero.
        self.require = list(require)
        self.assumptions = list(assumptions)
        # Classifiers of known findings: key -> function(what, detail)
        self.known = dict(known)


def digest(obj):
    if not isinstance(obj, bytes):
        if not isinstance(obj, str):
            obj = json.dumps(obj, sort_keys=True, default=repr)
        obj = obj.encode("utf-8", "surrogatepass")
    return hashlib.blake2b(obj, digest_size=8).digest()


class Mon:
    """What was observed by a worker."""

    def __init__(self, tier, seed, scratch):
        self.tier, self.seed, self.scratch = tier, seed, scratch
        self.evaluations = 0
        self.distinct = set()
        self.counters = Counter()
        self.samples = []
        self.violations = []

    def case(self, fingerprint, nontrivial=True, sample=None):
        """A judged execution."""
        self.evaluations += 1
        if nontrivial:
            d = digest(fingerprint)
            if d not in self.distinct:
                self.distinct.add(d)
                if sample is not None and len(self.samples) < 3:
                    self.samples.append(sample)
        else:
            self.counters["trivial"] += 1

    def count(self, name, n=1):
        self.counters[name] += n

    def world(self, files=None):
        """An empty directory that contains only the given files."""
        os.chdir(self.scratch)
        for entry in os.scandir(self.scratch):
            if entry.is_dir(follow_symlinks=False):
                os.chmod(entry.path, 0o755)
                shutil.rmtree(entry.path)
            else:
                os.unlink(entry.path)
        os.mkdir("sub")
        for name, content in (files or {}).items():
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            mode = "wb" if isinstance(content, bytes) else "w"
            kw = {} if isinstance(content, bytes) else {"encoding": "utf-8", "newline": ""}
            with open(name, mode, **kw) as f:
                f.write(content)


def rng_for(check_id, kind, seed, n):
    return random.Random(f"{check_id}/{kind}/{seed}/{n}")


def run_case(check, mon, kind, n):
    def alarm(*_):
        raise Timeout()

    rng = rng_for(check.id, kind.name, mon.seed, n)
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU)
    try:
        mon.world()
        kind.fn(mon, rng, n)
        return None
    except Violation as v:
        return v
    except Timeout:
        return Violation(
            f"processing did not end within {CASE_CPU} seconds of CPU time",
            trace=traceback.format_exc()[-1500:],
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(mon.scratch)


def worker(check, tier, seed, cases, deadline, conn):
    scratch = os.path.realpath(tempfile.mkdtemp(prefix="mv-"))
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        mon = Mon(tier, seed, scratch)
        done = 0
        for kind, n in cases:
            if time.time() > deadline:
                break
            v = run_case(check, mon, kind, n)
            done += 1
            if v is not None:
                mon.violations.append((kind.name, n, v.what, v.detail))
                if len(mon.violations) >= 3:
                    break
        conn.send(
            (mon.evaluations, mon.distinct, mon.counters, mon.samples, mon.violations, done)
        )
    except BaseException:
        conn.send(traceback.format_exc())
    finally:
        conn.close()
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.rmtree(scratch + ".more", ignore_errors=True)
        os._exit(0)


def load(check_id):
    module = importlib.import_module(f"mv.checks.{check_id.lower()}")
    return module.CHECK


def plain(x):
    """A value json can write (keys of any type become texts)."""
    if isinstance(x, dict):
        return {k if isinstance(k, str) else repr(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if isinstance(x, (set, frozenset)):
        return sorted((plain(i) for i in x), key=repr)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def known_keys(check_id):
    """The known findings listed for a property."""
    out = {}
    try:
        with open(KNOWN, encoding="utf-8") as f:
            for row in f:
                if row.startswith(f"finding: property={check_id} "):
                    _, _, key, text = row.rstrip("\n").split(" ", 3)
                    out[key.removeprefix("key=")] = text
    except FileNotFoundError:
        pass
    return out


def main(argv):
    check = load(argv[0])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = only = None
    args = list(argv[1:])
    while args:
        a = args.pop(0)
        if a == "--replay":
            replay = args.pop(0)
        elif a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--kind":
            only = args.pop(0)
    if tier not in BUDGET:
        tier = "quick"
    start = time.time()
    kinds = {k.name: k for k in check.kinds}
    cases = []
    if replay:
        with open(replay, encoding="utf-8") as f:
            data = json.load(f)
        seed, tier = data["seed"], data["tier"]
        cases = [(kinds[data["kind"]], data["n"])]
    else:
        for k in check.kinds:
            if only and k.name != only:
                continue
            # The scale is used to try the monitors quickly on many changes.
            total = max(8, round(k.amount[tier] * float(os.environ.get("VERIF_SCALE", "1"))))
            cases += [((n + 0.5) / total, k, n) for n in range(total)]
        # Interleave the kinds evenly.
        cases.sort(key=lambda c: c[0])
        cases = [c[1:] for c in cases]
    procs = max(1, min(8, os.cpu_count() or 1, len(cases)))
    deadline = start + BUDGET[tier]
    running = []
    for w in range(procs):
        here, there = multiprocessing.Pipe(False)
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            here.close()
            worker(check, tier, seed, cases[w::procs], deadline, there)
        there.close()
        running.append((pid, here))
    evaluations, distinct, counters, samples, violations, done = 0, set(), Counter(), [], [], 0
    broken = []
    for pid, here in running:
        try:
            # The worker checks the deadline between the cases.
            if not here.poll(max(1, deadline + 2 * CASE_CPU - time.time())):
                os.kill(pid, signal.SIGKILL)
                broken.append("a worker did not answer")
            else:
                r = here.recv()
                if isinstance(r, str):
                    broken.append(r)
                else:
                    evaluations += r[0]
                    distinct |= r[1]
                    counters.update(r[2])
                    samples += r[3]
                    violations += r[4]
                    done += r[5]
        except EOFError:
            broken.append("a worker ended unexpectedly")
        os.waitpid(pid, 0)

    # Known findings.
    listed = known_keys(check.id)
    seen, unlisted = {}, []
    for v in violations:
        for key, match in check.known.items():
            if key in listed and match(v[2], v[3]):
                seen.setdefault(key, v)
                break
        else:
            unlisted.append(v)

    os.makedirs(REPLAYS, exist_ok=True)
    lines, signatures = [], set()
    for kind, n, what, detail in unlisted:
        sig = what[:60]
        if sig in signatures and len(lines) >= 1:
            continue
        signatures.add(sig)
        path = os.path.join(REPLAYS, f"{check.id}-{len(lines)}.json")
        if replay:
            path = os.path.abspath(replay)
        else:
            with open(path, "w", encoding="utf-8") as f:
                json.dump(
                    {
                        "property": check.id, "kind": kind, "n": n, "seed": seed, "tier": tier,
                        "what": what, "detail": plain(detail),
                        "how": f"bash /verif/check.sh {check.id} --replay {path}",
                    },
                    f, indent=1, default=repr,
                )
        lines.append((path, what, detail))
        if len(lines) >= 3:
            break

    wall = time.time() - start
    if not replay and not only and not os.environ.get("VERIF_NOEVIDENCE"):
        r = random.Random(seed)
        r.shuffle(samples)
        evidence = {
            "property": check.id,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(distinct),
                "rule": check.rule,
                "samples": samples[:6],
                "observed": dict(sorted(counters.items())),
                "cases_planned": len(cases),
                "cases_run": done,
                "exhaustive": False,
            },
            "assumptions": check.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(unlisted),
        }
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, f".{check.id}.tmp")
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(evidence, f, indent=1, default=repr, ensure_ascii=True)
        os.replace(tmp, os.path.join(EVIDENCE, f"{check.id}.json"))

    for key in listed:
        print(f"KNOWN-FINDING: property={check.id} {listed[key]}")
    print(
        f"{check.id} tier={tier} seed={seed} cases={done}/{len(cases)} evaluations={evaluations} "
        f"distinct={len(distinct)} wall={wall:.1f}s"
    )
    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(counters.items()):
            print(f"   {k}: {v}")
    if lines:
        for path, what, detail in lines:
            print(f"VIOLATION property={check.id} replay={path}")
            print("   " + what[:600])
            for k, v in list(detail.items())[:6]:
                print(f"   {k}: {str(v)[:1500]}")
        return 1
    if broken:
        print("INCONCLUSIVE: " + "; ".join(broken)[-3000:])
        return 2
    if replay or only:
        return 0
    missing = [c for c in check.require if not counters.get(c)]
    if not evaluations or not distinct or missing:
        print(f"INCONCLUSIVE: nothing was observed for {missing or 'any case'}")
        return 2
    return 0

