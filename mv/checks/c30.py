"""The parser reports the inclusions, the table of contents and the variables of the document."""

import copy
import os

from mau import BaseVisitor, Environment, Mau
from mau.message import MauException

from mv import gen, ref, run, views
from mv.checks.c21 import inclusion
from mv.core import Check, Kind, Violation

PROFILES = [
    gen.focus("mau", "block", "args", "footnote", "group", "cond", "label", mau=8, block=6, include_depth=4, depth=3, cond=0.2),
    gen.focus("header", "toc", "block", "mau", "args", "style", "headerlink", header=8, block=5, isolate_false=0.5, depth=3),
    gen.focus("vardef", "var", "mau", "block", "cond", vardef=8, var=6, mau=3, block=4, cond=0.2),
]


def parsed(text, env, source):
    """The parser of a document, and the environment that was given."""
    recorder = run.Recorder()
    environment = Environment.from_dict(env)
    mau = Mau(recorder, environment)
    lexer = mau.run_lexer(mau.init_text_buffer(text, source))
    return mau.run_parser(lexer.tokens), recorder


def calls(parser):
    out = []
    for c in parser.output.include_calls:
        ctx = c.info.context
        out.append([c.caller_uri, c.callee_uri, dict(c.call_arguments), [ctx.start_line, ctx.end_line, ctx.source]])
    return out


def report(mon, text, env, files, source, detail):
    mon.world(files)
    try:
        exp, world = ref.process(text, env, files, source)
    except (ref.RefError, ref.Unspecified):
        mon.count("rejected documents")
        return None
    doc = world.document
    try:
        parser, recorder = parsed(text, copy.deepcopy(env), source)
    except MauException as e:
        raise Violation(f"a valid document gave {e.message.text!r}", **detail) from None
    if recorder.errors:
        raise Violation(f"a valid document reported {recorder.errors}", **detail)
    wanted = [[a, b, dict(c), [p[0], p[2], p[4]]] for a, b, c, p in doc.calls]
    seen = calls(parser)
    if seen != wanted:
        raise Violation(f"the reported inclusions are {seen} instead of {wanted}"[:900], **detail)
    mon.count("inclusions reported", len(seen))
    mon.count("inclusions with variables", sum(1 for c in seen if c[2]))
    mon.count("inclusions in included files", sum(1 for c in seen if c[0] != source))
    # The table of contents of the document.
    toc = parser.output.toc
    if exp:
        if toc is None:
            raise Violation("the parser gives no table of contents", **detail)
        # Its place does not matter, and its data are those of a table.
        data = run.normal(BaseVisitor(run.Recorder(), Environment()).process(toc))
        model = ref.normalise(ref.mk("toc", None, plain_entries=[ref.copy(h) for h in doc.headers], nested_entries=doc.nest()))
        ids = {}
        try:
            got = run.normal(BaseVisitor(run.Recorder(), Environment()).process(parser.output.document))
            run.compare(views.v_headers(exp), views.v_headers(got), ids=ids)
            run.compare(views.v_headers(model), views.v_headers(data), ids=ids)
        except run.Mismatch as m:
            raise Violation(f"the table of contents of the parser is not that of the document: {m}"[:800], **detail) from None
        mon.count("entries of tables", len(doc.headers))
    elif toc is not None and parser.output.document is None and run.normal(BaseVisitor(run.Recorder(), Environment()).process(toc))["plain_entries"]:
        raise Violation("an empty document has a table of contents", **detail)
    # The variables at the end of the document.
    variables = parser.environment.asflatdict()
    model = world.env
    if variables != model:
        raise Violation(
            f"the variables at the end differ: {sorted(set(map(str, variables.items())) ^ set(map(str, model.items())))}"[:600], **detail
        )
    mon.count("variables at the end", len(variables))
    return wanted, len(doc.headers)


def reports(mon, rng, n):
    case = gen.Gen(rng, PROFILES[n % len(PROFILES)]).case()
    detail = dict(text=case.text, env=case.env, files=case.files)
    r = report(mon, case.text, case.env, case.files, "main.mau", detail)
    if r:
        mon.case([case.text, r[0]], bool(r[0] or r[1]), {"text": case.text[:500], "inclusions": r[0][:4]})


def graphs(mon, rng, n):
    """Files that include other files, many times."""
    names = ["main.mau", "a.mau", "sub/b.mau", "c.txt", "sub/a.mau"][: rng.randint(2, 5)]
    files = {}
    mon.world()
    for k, name in enumerate(names):
        rows = []
        for _ in range(rng.choice([0, 1, 2, 3])):
            rows += rng.choice([[], ["text", ""], ["", ""], ["// note"], ["== head", ""]])
            if names[k + 1 :]:
                rows += inclusion(rng, rng.choice(names[k + 1 :]), "¤") + [""]
        rows += rng.choice([[], ["end"], ["= head"]])
        files[name] = "\n".join(rows)
    source = rng.choice(["main.mau", "./main.mau", os.path.join(os.getcwd(), "main.mau")])
    detail = dict(files=files, source=source)
    r = report(mon, files["main.mau"], {}, files, source, detail)
    if r:
        mon.case([files, source], bool(r[0]), {"files": files, "inclusions": r[0][:4]})


CHECK = Check(
    "C30",
    rule="generated documents and sets of files processed by lexer and parser: the reported inclusions (who, what, with which variables, where, in "
    "order), the table of contents and the final variables are compared with the model; documents with inclusions or headers count",
    kinds=[Kind("reports", reports, 3000, 45000), Kind("graphs", graphs, 1500, 22000)],
    require=["inclusions reported", "inclusions with variables", "inclusions in included files", "entries of tables", "variables at the end"],
)
