"""Processes cases in fresh processes: reads JSON requests, writes JSON results.

Each case runs in a process forked from one that only imported the library.
"""

import json
import os
import shutil
import sys
import tempfile


def header_id(node):
    return f"h{node.level}-{len(node.content)}"


def footnote_id(node):
    return f"note-{node.name}"


# Functions that the configuration can have.
FUNCTIONS = {"header_internal_id_function": header_id, "footnote_unique_id_function": footnote_id}


def execute(case, env, visitor):
    from mv import run

    names = case.get("functions", [])
    if not names:
        return run.run(case["text"], env, visitor=visitor)
    # The configuration of the case is not changed.
    parser = {**env.get("mau", {}).get("parser", {}), **{n: FUNCTIONS[n] for n in names}}
    env = {**env, "mau": {**env.get("mau", {}), "parser": parser}}
    return run.run(case["text"], env, visitor=visitor)


def main():
    from mv import run
    from mv.checks.c01 import Echo

    visitors = dict(run.VISITORS, echo=Echo)
    cases = json.load(sys.stdin)
    out = []
    scratch = tempfile.mkdtemp(prefix="mvc-")
    os.chdir(scratch)
    try:
        for case in cases:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    d = tempfile.mkdtemp(dir=scratch)
                    os.chdir(d)
                    os.mkdir("sub")
                    for name, content in case["files"].items():
                        os.makedirs(os.path.dirname(name) or ".", exist_ok=True)
                        with open(name, "w", encoding="utf-8", newline="") as f:
                            f.write(content)
                    o = execute(case, case["env"], visitors[case["visitor"]])
                    with os.fdopen(w, "w") as f:
                        json.dump(result(o), f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                data = f.read()
            os.waitpid(pid, 0)
            out.append(json.loads(data) if data else None)
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    json.dump(out, sys.stdout)


def result(o):
    """Everything observable of a run."""
    messages = []
    for stage, m in o.recorder.errors:
        messages.append([stage, m.text, str(getattr(m, "position", None)), str(getattr(m, "context", None)),
                         str(getattr(m, "source", None)), str(getattr(m, "help_text", None))])
    debug = [[m.text, m.node_type, str(m.context)] for m in o.recorder.debug]
    return json.loads(json.dumps([o.kind, o.value if o.ok else None, messages, debug], default=repr))


if __name__ == "__main__":
    main()
