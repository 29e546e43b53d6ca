"""Variables behave like a mapping of dotted names: histories of operations against a model."""

import copy

from mau import Environment

from mv.core import Check, Kind, Violation

PARTS = ["a", "b", "c", "ab", "a-b", "mau", "x1", ""]
SCALARS = ["v", "w", "", 0, 1, None, True, False, 2.5, "a.b", "{a}", ["l", 1], "é"]
MISSING = object()


def name(rng, depth=3):
    return ".".join(rng.choice(PARTS) for _ in range(rng.randint(1, depth)))


def mapping(rng, depth=2):
    """A nested dictionary; keys can be dotted."""
    out = {}
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        key = name(rng, 2) if rng.random() < 0.3 else rng.choice(PARTS)
        if depth and rng.random() < 0.4:
            out[key] = mapping(rng, depth - 1)
        else:
            out[key] = copy.deepcopy(rng.choice(SCALARS))
    return out


def flatten(d, prefix=""):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v:
            out.update(flatten(v, f"{prefix}{k}."))
        else:
            out[prefix + k] = v
    return out


def put(flat, d, namespace=None):
    flat.update(flatten({namespace: d} if namespace else d))


def inside(flat, n):
    return {k[len(n) + 1 :]: v for k, v in flat.items() if k.startswith(n + ".")}


def ambiguous(flat, n):
    """The name has a value and is a namespace."""
    return n in flat and flat[n] != {} and bool(inside(flat, n))


def real(flat):
    """The names that have a value."""
    return {k: v for k, v in flat.items() if v != {}}


def same(a, b):
    return a == b and type(a) is type(b)


def same_set(a, b):
    return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)


def check_name(env, flat, n, mon):
    got = env.get(n, MISSING)
    if ambiguous(flat, n):
        mon.count("ambiguous names skipped")
        return
    if n in flat and flat[n] != {}:
        if not same(got, flat[n]):
            raise Violation(f"get({n!r}) is {got!r} instead of {flat[n]!r}")
        if not same(env[n], flat[n]):
            raise Violation(f"[{n!r}] is {env[n]!r} instead of {flat[n]!r}")
        mon.count("values read")
        return
    names = inside(flat, n)
    if names or n in flat:
        if not isinstance(got, Environment):
            raise Violation(f"get({n!r}) is {got!r} instead of the namespace {names!r}")
        if not same_set(real(dict(got.asflatdict())), real(names)):
            raise Violation(f"get({n!r}) holds {got.asflatdict()!r} instead of {names!r}")
        mon.count("namespaces read")
        return
    if got is not MISSING:
        raise Violation(f"get({n!r}) is {got!r} but the name was never stored")
    if env.get(n) is not None:
        raise Violation(f"get({n!r}) without default is {env.get(n)!r} but the name was never stored")
    try:
        env[n]
    except KeyError:
        pass
    else:
        raise Violation(f"[{n!r}] gives a value but the name was never stored")
    mon.count("missing names read")


def check_all(env, flat, rng, mon):
    seen = dict(env.asflatdict())
    if not same_set(real(seen), real(flat)):
        raise Violation(f"the variables are {seen!r} instead of {flat!r}")
    names = set(flat) | {name(rng) for _ in range(4)}
    for k in list(flat):
        parts = k.split(".")
        names |= {".".join(parts[:i]) for i in range(1, len(parts))}
    for n in sorted(names):
        check_name(env, flat, n, mon)
    mon.count("states checked")
    # Export and import.
    again = Environment.from_dict(copy.deepcopy(seen))
    if not same_set(real(dict(again.asflatdict())), real(flat)):
        raise Violation(f"the exported flat variables load back as {again.asflatdict()!r} instead of {flat!r}")
    nested = env.asdict()
    if not any(ambiguous(flat, n) for n in flat):
        back = Environment.from_dict(copy.deepcopy(nested))
        if not same_set(real(dict(back.asflatdict())), real(flat)):
            raise Violation(f"the exported variables {nested!r} load back as {back.asflatdict()!r} instead of {flat!r}")
        if any(isinstance(v, dict) and "." in k for k, v in nested.items()) or any("." in k for k in nested):
            raise Violation(f"the exported variables have dotted names: {nested!r}")
        mon.count("exports loaded back")
    # What was exported is not tied to the variables.
    scribble(nested)
    if not same_set(real(dict(env.asflatdict())), real(flat)):
        raise Violation("changing the exported variables changed the original ones")


def scribble(d):
    for v in list(d.values()):
        if isinstance(v, dict):
            scribble(v)
    d["scribbled"] = "1"


def history(mon, rng, n):
    envs = [(Environment(), {})]
    given = []
    log = []
    try:
        for _ in range(rng.choice([2, 4, 8, 14])):
            i = rng.randrange(len(envs))
            env, flat = envs[i]
            op = rng.choice(["set", "set", "setd", "dupdate", "update", "keep", "from_dict", "from_env", "sub", "copy"])
            ns = rng.choice([None, None, "n", "a", "a.b", ""])
            if op == "set":
                k, v = name(rng), copy.deepcopy(rng.choice(SCALARS))
                log.append((op, i, k, v))
                env[k] = v
                put(flat, {k: v})
            elif op == "setd":
                k, d = name(rng), mapping(rng)
                given.append((d, copy.deepcopy(d)))
                log.append((op, i, k, copy.deepcopy(d)))
                env[k] = d
                put(flat, {k: copy.deepcopy(d)})
            elif op == "dupdate":
                d = mapping(rng)
                given.append((d, copy.deepcopy(d)))
                log.append((op, i, copy.deepcopy(d), ns))
                env.dupdate(d, ns)
                put(flat, copy.deepcopy(d), ns)
            elif op in ("update", "keep"):
                j = rng.randrange(len(envs))
                if any(ambiguous(envs[j][1], k) for k in envs[j][1]):
                    continue
                log.append((op, i, j, ns))
                if op == "update":
                    env.update(envs[j][0], ns)
                    put(flat, dict(envs[j][1]), ns)
                else:
                    env.update(envs[j][0], ns, overwrite=False)
                    new = {}
                    put(new, dict(envs[j][1]), ns)
                    for k, v in new.items():
                        flat.setdefault(k, v)
            elif op == "from_dict":
                d = mapping(rng)
                given.append((d, copy.deepcopy(d)))
                log.append((op, copy.deepcopy(d), ns))
                new = {}
                put(new, copy.deepcopy(d), ns)
                envs.append((Environment.from_dict(d, ns), new))
            elif op in ("from_env", "copy"):
                ns = ns if op == "from_env" else None
                log.append((op, i, ns))
                new = {}
                put(new, dict(flat), ns)
                envs.append((Environment.from_environment(env, ns), new))
            else:
                if not flat:
                    continue
                parts = rng.choice(sorted(flat)).split(".")
                k = ".".join(parts[: rng.randint(1, len(parts))])
                if ambiguous(flat, k) or not inside(flat, k):
                    continue
                log.append((op, i, k))
                envs.append((env.get(k), inside(flat, k)))
            mon.count("operation " + op)
            # No operation on one affects the others.
            for e, f in envs:
                check_all(e, f, rng, mon)
            for d, original in given:
                if d != original:
                    raise Violation(f"an operation changed the dictionary it was given from {original!r} to {d!r}")
            mon.count("dictionaries watched", len(given))
    except Violation as v:
        v.detail.update(history=log)
        raise
    mon.case([repr(log)], len(log) > 1, {"history": [repr(x) for x in log[:6]]})


CHECK = Check(
    "C22",
    rule="random histories of operations on several related environments, all of them compared with a model after every operation; "
    "distinct histories of at least two operations count",
    kinds=[Kind("history", history, 4000, 60000)],
    require=["values read", "namespaces read", "missing names read", "exports loaded back", "dictionaries watched"]
    + ["operation " + o for o in ("set", "setd", "dupdate", "update", "keep", "from_dict", "from_env", "sub", "copy")],
    assumptions=["names that hold a value and contain other names at the same time have no specified value of their own"],
)
