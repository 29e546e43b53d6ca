"""The differential monitor: what is observed against what the model says."""

from mv import gen, mutate, ref, run
from mv.core import Violation


def nothing(*_):
    return None


class Differential:
    """Judges documents from the point of view of a property.

    view: the projection of the output the property is about.
    codes: the mistakes that the property requires to be rejected.
    kinds: the constructs that come many times, in the documents in which they do.
    interesting: whether the projection (of the model) makes the case non-trivial.
    """

    def __init__(self, view, codes=(), interesting=None, profiles=(), view_exp=None, mutants=0.3, kinds=None):
        self.view, self.codes = view, codes
        self.view_exp = view_exp or view
        self.mutants = mutants
        self.interesting = interesting or bool
        self.profiles = [{**p, "kinds": kinds} for p in list(profiles) or [gen.DEFAULT]]

    def __call__(self, mon, rng, n):
        p = self.profiles[n % len(self.profiles)]
        case = gen.Gen(rng, p).case()
        if rng.random() < self.mutants:
            # The model decides also what a damaged document means.
            case.text = mutate.mutate(rng, case.text, case.files)
            mon.count("mutated documents")
        self.judge(mon, case)

    def judge(self, mon, case, shrink=True):
        problem = self.problem(mon, case, count=True)
        if problem:
            text = case.text
            if shrink:
                text = self.shrink(mon, case)
                problem = self.problem(mon, gen.Case(text, case.env, case.files)) or problem
            raise Violation(problem[0], **problem[1], text=text, env=case.env, files=case.files)

    def problem(self, mon, case, count=False):
        mon.world(case.files)
        try:
            exp, world = ref.process(case.text, case.env, case.files)
            error = None
        except ref.RefError as e:
            exp, error = None, e
        except ref.Unspecified:
            if count:
                mon.count("model: unspecified")
            return None
        got = run.run(case.text, case.env)
        if error:
            if count:
                mon.count("model: rejected")
                if error.code in self.codes:
                    mon.count(f"rejected: {error.code}")
                    mon.case(["err", case.text, case.env], True, None)
            if got.ok and error.code in self.codes:
                return (
                    f"a document that must be rejected ({error.code}) was accepted",
                    {"expected": str(error)},
                )
            return None
        view = self.view_exp(exp) if exp else []
        trivial = not self.interesting(view)
        if count:
            mon.count("model: accepted")
            mon.count("events compared", size(view))
            for f in world.features:
                mon.count(f"documents with {f}")
            mon.case(
                view, not trivial, {"text": case.text[:1500], "env": case.env} if not trivial else None
            )
        if not got.ok:
            if trivial:
                return None
            return (f"a valid document gave {got.brief()}"[:300], {})
        seen = run.normal(got.value)
        try:
            run.compare(view, self.view(seen) if seen else [])
        except run.Mismatch as m:
            return (f"the output is not the expected one: {m}"[:800], {})
        except (KeyError, TypeError, AttributeError) as e:
            return (f"the output has not the expected form: {e!r}", {})
        return None

    def shrink(self, mon, case, budget=150):
        """Drop lines as long as the problem stays."""
        lines = case.text.split("\n")
        step = max(1, len(lines) // 2)
        while step and budget > 0:
            i = 0
            while i < len(lines) and budget > 0:
                attempt = lines[:i] + lines[i + step :]
                budget -= 1
                try:
                    bad = self.problem(mon, gen.Case("\n".join(attempt), case.env, case.files))
                except Exception:
                    bad = None
                if bad:
                    lines = attempt
                else:
                    i += step
            step //= 2
        return "\n".join(lines)


def size(o):
    if isinstance(o, dict):
        return sum(size(v) for v in o.values())
    if isinstance(o, list):
        return sum(size(v) for v in o)
    return 1
