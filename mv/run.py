"""Runs the real library and records what is observed at its boundary."""

import copy
import sys

from mau import BaseVisitor, Environment, JinjaVisitor, Mau, YamlVisitor
from mau.message import BaseMessageHandler, MauException

from mv.ref import AutoId, merge_texts

VISITORS = {"python": BaseVisitor, "yaml": YamlVisitor, "jinja": JinjaVisitor}


class Recorder(BaseMessageHandler):
    """A message handler that records what it receives."""

    type = "recorder"

    def __init__(self):
        self.errors = []
        self.debug = []

    def process_lexer_error(self, message):
        self.errors.append(("lexer", message))

    def process_parser_error(self, message):
        self.errors.append(("parser", message))

    def process_visitor_error(self, message):
        self.errors.append(("visitor", message))

    def process_visitor_debug(self, message):
        self.debug.append(message)


class Outcome:
    """What happened: kind is `ok`, `error` or `crash`."""

    def __init__(self, kind, value, recorder, exc=None):
        self.kind, self.value, self.recorder, self.exc = kind, value, recorder, exc

    @property
    def ok(self):
        return self.kind == "ok"

    def error(self):
        """(stage, line, source) of a reported error."""
        stage, m = self.recorder.errors[0]
        if stage == "lexer":
            return (stage, m.position[0] if m.position else None, m.source)
        c = m.context
        return (stage, c.start_line if c else None, c.source if c else None)

    def text(self):
        return self.recorder.errors[0][1].text

    def brief(self):
        if self.ok:
            return "ok"
        if self.kind == "error":
            return f"error {self.error()} {self.text()!r}"
        return f"crash {self.exc!r}"


def run(text, env=None, visitor=BaseVisitor, source="main.mau", environment=None):
    recorder = Recorder()
    try:
        if environment is None:
            environment = Environment.from_dict(env or {})
        mau = Mau(recorder, environment)
        value = mau.process(visitor, text, source)
        return Outcome("ok", value, recorder)
    except MauException as exc:
        return Outcome("error", exc.message, recorder, exc)
    except RecursionError as exc:
        return Outcome("crash", None, recorder, exc)
    except Exception as exc:
        return Outcome("crash", None, recorder, exc)


def normal(o):
    """Normalise an output: contexts become `_pos`, adjacent texts are merged."""
    if isinstance(o, dict):
        # Labels and positions can have any name.
        is_node = isinstance(o.get("_type"), str)
        out = {}
        for k, v in o.items():
            if not is_node:
                out[k] = normal(v)
            elif k in ("args", "kwargs"):
                out[k] = copy.copy(v)
            elif k == "_context":
                out["_pos"] = (
                    v["start_line"],
                    v["start_column"],
                    v["end_line"],
                    v["end_column"],
                    v["source"],
                )
            elif k == "parent":
                pass
            else:
                out[k] = normal(v)
        return out
    if isinstance(o, list | tuple):
        return merge_texts([normal(i) for i in o])
    return o


class Mismatch(Exception):
    pass


def compare(exp, got, path="$", ids=None, on_pair=None):
    """Compare the expected structure with the (normalised) observed one.

    Every field of the model must be observed; fields that the
    model does not know are ignored.
    """
    if ids is None:
        ids = {}
    if isinstance(exp, dict):
        if not isinstance(got, dict):
            raise Mismatch(f"{path}: expected {short(exp)}, observed {short(got)}")
        if isinstance(exp.get("_type"), str):
            if exp["_type"] != got.get("_type"):
                raise Mismatch(f"{path}: expected {short(exp)}, observed {short(got)}")
            path = f"{path}<{exp['_type']}>"
            if on_pair:
                on_pair(exp, got, path)
            for k, v in exp.items():
                if k == "_pos":
                    continue
                if k not in got:
                    raise Mismatch(f"{path}: field {k} is missing")
                if k == "kwargs":
                    if not isinstance(got[k], dict) or set(v) != set(got[k]):
                        raise Mismatch(f"{path}.{k}: expected {short(v)}, observed {short(got[k])}")
                    for name in v:
                        compare(v[name], got[k][name], f"{path}.{k}[{name}]", ids, on_pair)
                else:
                    compare(v, got[k], f"{path}.{k}", ids, on_pair)
        else:
            if set(exp) != set(got):
                raise Mismatch(f"{path}: expected keys {sorted(exp, key=str)}, observed {sorted(got, key=str)}")
            for k, v in exp.items():
                compare(v, got[k], f"{path}[{k}]", ids, on_pair)
    elif isinstance(exp, list):
        if not isinstance(got, list):
            raise Mismatch(f"{path}: expected {short(exp)}, observed {short(got)}")
        for n, (a, b) in enumerate(zip(exp, got)):
            compare(a, b, f"{path}[{n}]", ids, on_pair)
        if len(exp) != len(got):
            extra = exp[len(got):] or got[len(exp):]
            raise Mismatch(
                f"{path}: expected {len(exp)} entries, observed {len(got)}; first difference {short(extra[0])}"
            )
    elif isinstance(exp, AutoId):
        if not isinstance(got, str) or not got:
            raise Mismatch(f"{path}: a computed identifier is {got!r}")
        if ids.setdefault(exp.key, got) != got:
            raise Mismatch(
                f"{path}: identifier {got!r} differs from {ids[exp.key]!r} computed for the same header"
            )
    elif exp != got or type(exp) is not type(got):
        raise Mismatch(f"{path}: expected {exp!r}, observed {got!r}")


def short(o, limit=160):
    if isinstance(o, dict) and isinstance(o.get("_type"), str):
        o = {k: v for k, v in o.items() if v not in ([], {}, None) and k != "_pos"}
    s = repr(o)
    return s if len(s) <= limit else s[: limit - 3] + "..."
