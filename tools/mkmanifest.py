"""Writes /verif/MANIFEST.json."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [R, "/repo"]
DIFF = "runtime differential monitor: the real library is run on generated documents and its output and messages are compared online with an independent executable model of the language"
META = "metamorphic monitors (relations between several executions of the real code)"
T = {
 "C01": "runtime monitor of exceptions and delivered messages under hostile generated inputs and injected file-system faults",
 "C02": "runtime monitor counting interpreter events (sys.monitoring) on growing families of inputs, with recorded growth curves",
 "C03": "runtime monitors comparing recorded executions across processes, hash seeds, histories and permutations; state snapshots",
 "C04": "runtime monitor of the stream of tokens of the real lexers, checked online against the source text",
 "C05": "runtime monitor of the locations reported by every node, checked against the source text and an independent model",
 "C06": "runtime monitor of reported errors under injection of exactly one mistake at a known place",
 "C22": "runtime monitor of operation histories on the real Environment, checked online against a mapping model; conservation of given objects",
 "C23": "runtime monitor of the real command (processes, exit status, streams, bytes on disk), compared with the library",
 "C24": "runtime differential monitor: marks left by rendered templates are compared with an independent selection model",
 "C25": "runtime monitor of conservation between output formats (echo templates, reload of serialised output)",
 "C26": "runtime monitor of the container reported by every element of the output, and " + META,
 "C27": "runtime monitor of outputs and debug messages of documents with and without debugging tags",
 "C29": "runtime monitor of the calls of configured functions and of the identifiers in the output, compared with an independent model",
 "C30": "runtime monitor of what lexer and parser report (inclusions, table of contents, variables), compared with an independent model",
 "C31": "runtime monitor of the log records of real runs, compared with the messages recorded in an identical run",
 "C32": "runtime monitors relating the outputs of many renderings of one parsed document (parts, options, transformations, visitors of the program) to its whole output",
 "C28": "runtime monitor of audit events (sys.addaudithook) raised while documents are processed, checked against the set of allowed accesses",
}
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l); i = p["id"]
    if not os.path.exists(f"{R}/mv/checks/{i.lower()}.py"):
        na.append(dict(property=i, reason="no check yet")); continue
    c = importlib.import_module(f"mv.checks.{i.lower()}").CHECK
    note = ("Exploration by generated workloads with seeded randomness; no claim beyond the executions observed. " + c.rule[0].upper() + c.rule[1:] + "."
            + (" Assumes: " + "; ".join(c.assumptions) + "." if c.assumptions else ""))
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"./check.sh {i} --tier thorough", evidence_file=f"evidence/{i}.json",
                       technique=T.get(i, DIFF + "; " + META), level="exploration", level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks are needed: all monitors observe the real code through its public interface, the interpreter's own monitoring and audit events, and processes. The tier comes from VERIF_TIER (or --tier).")
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1); print(len(checks), len(na))
