"""Tries the monitors on many small changes of the library.

mutants.py make OUT [N] [SEED]   small changes that the tests accept
mutants.py judge OUT [SCALE]     which of the checks notice each of them
mutants.py list OUT              those that no check notices

A development tool: no check uses it.
"""
import ast, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO, PY = os.environ.get("MUT_REPO", "/repo"), "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("MUT_WORKERS", "3"))
SKIP = ("test_helpers.py",)


def files():
    out = subprocess.run(["git", "-C", REPO, "ls-files", "mau/*.py"], capture_output=True, text=True).stdout.split()
    return [f for f in out if not f.endswith(SKIP)]


class Find(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.starts = [0]
        for l in src.encode().split(b"\n"):
            self.starts.append(self.starts[-1] + len(l) + 1)
        self.out = []
        self.quiet = 0

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def seg(self, n):
        a, b = self.span(n)
        return self.src.encode()[a:b].decode()

    def add(self, n, new, what):
        a, b = self.span(n)
        self.out.append((a, b, new, what, n.lineno))

    def visit(self, n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = self.seg(n.left), self.seg(n.comparators[0])
            table = {ast.Eq: ["!="], ast.NotEq: ["=="], ast.Lt: ["<=", ">="], ast.LtE: ["<"], ast.Gt: [">=", "<="], ast.GtE: [">"],
                     ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
            for op in table.get(type(n.ops[0]), []):
                self.add(n, f"{l} {op} {r}", "compare")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            self.add(n, "(" + op.join(self.seg(v) for v in n.values) + ")", "boolop")
            for v in n.values:
                self.add(n, self.seg(v), "boolpart")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.add(n, self.seg(n.operand), "not")
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            self.add(n.test, "True", "test"); self.add(n.test, "False", "test")
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                self.add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                self.add(n, str(n.value + 1), "int"); self.add(n, str(n.value - 1), "int")
            elif isinstance(n.value, str) and not self.quiet and len(n.value) < 40:
                self.add(n, repr(n.value + "x"), "str") if n.value else self.add(n, "'x'", "str")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            self.add(n, f"{self.seg(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {self.seg(n.right)}", "arith")
            self.add(n, self.seg(n.left), "arith")
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in "strip lstrip rstrip copy clone lower upper removeprefix removesuffix replace split items values asdict".split():
                self.add(n, self.seg(f.value), "method")
                if f.attr == "strip": self.add(n, self.seg(f.value) + ".lstrip()", "method"); self.add(n, self.seg(f.value) + ".rstrip()", "method")
            if isinstance(f, ast.Name) and f.id in "list dict set tuple str sorted deepcopy reversed enumerate".split() and len(n.args) == 1:
                self.add(n, self.seg(n.args[0]), "wrap")
            if isinstance(f, ast.Attribute) and f.attr in ("get", "pop") and len(n.args) == 2:
                self.add(n, f"{self.seg(f)}({self.seg(n.args[0])}, None)", "default")
            for k in n.keywords:
                if k.arg and k.arg not in ("help_text", "help", "text"):
                    rest = [self.seg(a) for a in n.args] + [f"{x.arg}={self.seg(x.value)}" if x.arg else f"**{self.seg(x.value)}" for x in n.keywords if x is not k]
                    self.add(n, f"{self.seg(f)}({', '.join(rest)})", f"keyword {k.arg}")
            if len(n.args) > 1:
                rest = [self.seg(a) for a in n.args]
                rest[0], rest[1] = rest[1], rest[0]
                self.add(n, f"{self.seg(f)}({', '.join(rest + [f'{x.arg}={self.seg(x.value)}' if x.arg else '**' + self.seg(x.value) for x in n.keywords])})", "swap")
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant)):
            self.add(n.value, "None", "return")
        if isinstance(n, ast.Continue): self.add(n, "break", "loop"); self.add(n, "pass", "loop")
        if isinstance(n, ast.Break): self.add(n, "pass", "loop")
        if isinstance(n, ast.For):
            it = self.seg(n.iter)
            self.add(n.iter, f"list({it})[:1]", "iter"); self.add(n.iter, f"list({it})[1:]", "iter"); self.add(n.iter, f"list({it})[::-1]", "iter"); self.add(n.iter, f"list({it})[:-1]", "iter")
        if isinstance(n, ast.comprehension):
            it = self.seg(n.iter)
            self.add(n.iter, f"list({it})[::-1]", "iter"); self.add(n.iter, f"list({it})[:1]", "iter")
            for c in n.ifs: self.add(c, "True", "test")
        if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            self.add(n, "pass", "drop")
        if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Constant):
            self.add(n.value, "None", "assign")
        if isinstance(n, (ast.List, ast.Tuple)) and len(n.elts) > 1 and isinstance(n.ctx, ast.Load):
            b = ("[", "]") if isinstance(n, ast.List) else ("(", ")")
            for i in range(len(n.elts)):
                e = [self.seg(x) for x in n.elts]; del e[i]
                self.add(n, b[0] + ", ".join(e) + ("," if b[0] == "(" and len(e) == 1 else "") + b[1], "element")
            if len(n.elts) <= 12:
                for i in range(len(n.elts) - 1):
                    e = [self.seg(x) for x in n.elts]; e[i], e[i + 1] = e[i + 1], e[i]
                    self.add(n, b[0] + ", ".join(e) + b[1], "order")
        if isinstance(n, ast.Dict) and len(n.keys) > 1 and all(n.keys):
            for i in range(len(n.keys)):
                e = [f"{self.seg(k)}: {self.seg(v)}" for k, v in zip(n.keys, n.values)]; del e[i]
                self.add(n, "{" + ", ".join(e) + "}", "entry")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            self.add(n, self.seg(n.value), "slice")
        if isinstance(n, (ast.Raise,)):
            self.add(n, "pass", "raise")
        quiet = isinstance(n, (ast.JoinedStr, ast.Raise)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) or (isinstance(n, ast.keyword) and n.arg in ("text", "help_text", "help")) or (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and "exception" in n.func.id)
        self.quiet += quiet
        # Annotations are not code.
        for name, v in ast.iter_fields(n):
            if name in ("annotation", "returns"): continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, ast.AST): self.visit(x)
        self.quiet -= quiet


def candidates():
    for f in files():
        src = open(f"{REPO}/{f}").read()
        v = Find(src); v.visit(ast.parse(src))
        seen = set()
        for a, b, new, what, line in v.out:
            if (a, b, new) in seen: continue
            seen.add((a, b, new))
            raw = src.encode()
            if raw[a:b].decode() == new: continue
            text = (raw[:a] + new.encode() + raw[b:]).decode()
            try: t = ast.parse(text)
            except SyntaxError: continue
            if ast.dump(t) == ast.dump(ast.parse(src)): continue
            yield dict(file=f, line=line, what=what, old=raw[a:b].decode()[:200], new=new[:200], a=a, b=b, text=new)


def place(m, w):
    raw = open(f"{REPO}/{m['file']}", "rb").read()
    with open(f"{w}/{m['file']}", "wb") as f: f.write(raw[: m["a"]] + m["text"].encode() + raw[m["b"]:])


def restore(m, w):
    shutil.copyfile(f"{REPO}/{m['file']}", f"{w}/{m['file']}")


def copies(n):
    out = []
    for i in range(n):
        w = f"/tmp/mut/{i}"; shutil.rmtree(w, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True)
        subprocess.run(["cp", "-a", REPO, w], check=True); out.append(w)
    return out


def make(out, n, seed):
    ms = list(candidates()); random.Random(seed).shuffle(ms)
    print(len(ms), "candidates"); ms = ms[:n]
    free = copies(8)
    def one(m):
        w = free.pop(); place(m, w)
        try:
            r = subprocess.run(f"cd {w} && ulimit -v 4000000; PYTHONPATH={w} PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 {PY} -m pytest -q -p no:cacheprovider --no-cov -x tests", shell=True, capture_output=True, timeout=60)
            ok = r.returncode == 0
        except subprocess.TimeoutExpired: ok = False
        restore(m, w); free.append(w)
        return m if ok else None
    keep, done = [], 0
    with ThreadPoolExecutor(8) as ex:
        for m in ex.map(one, ms):
            done += 1
            if m: keep.append(m)
            if done % 200 == 0: print(done, len(keep), flush=True); json.dump(keep, open(out, "w"), indent=0)
    json.dump(keep, open(out, "w"), indent=0); print(done, len(keep))
    shutil.rmtree("/tmp/mut")


ORDER = {"lexers": "C04 C13 C05 C06", "text_parser": "C07 C08 C05 C06", "arguments": "C09 C05 C06", "visitors/jinja": "C24 C25 C03 C28", "base_visitor": "C25 C26 C27", "environment": "C22 C10",
         "cli": "C23", "source": "C19 C05", "list": "C14", "toc": "C15", "footnote": "C17", "header": "C16 C15", "include": "C21 C28 C06", "group": "C18", "block": "C20", "condition": "C12",
         "control": "C12 C11", "message": "C01 C23", "__init__": "C23 C01", "node": "C26 C25", "preprocess": "C10 C05", "variable": "C10", "label": "C11", "token": "C04 C05 C06", "text_buffer": "C04 C05"}


def judge(out, scale):
    ms = json.load(open(out)); random.Random(7).shuffle(ms); res = out + ".res"
    known = json.load(open(res)) if os.path.exists(res) else {}
    free = copies(WORKERS)
    def one(m):
        key = f"{m['file']}:{m['a']}:{m['b']}:{m['text']}"
        if key in known: return
        w = free.pop(); place(m, w)
        order = [c for k, v in ORDER.items() if k in m["file"] for c in v.split()]
        order = list(dict.fromkeys(order + [f"C{i:02d}" for i in (25, 9, 7, 11, 5, 20, 21, 1, 6, 16, 17, 18, 26, 27, 29, 31, 15, 13, 10, 8, 12, 14, 19, 22, 28, 30, 32, 4, 24, 23, 2)]))
        hit = []
        for c in order:
            try: r = subprocess.run([HERE + "/check.sh", c], capture_output=True, text=True, timeout=400, env=dict(os.environ, VERIF_REPO=w, VERIF_SCALE=str(scale), VERIF_NOEVIDENCE="1"))
            except subprocess.TimeoutExpired: hit.append(c + "?"); break
            if r.returncode == 1: hit.append(c); break
        restore(m, w); free.append(w)
        known[key] = dict(m, hit=hit)
        print(m["file"], m["line"], m["what"], hit, flush=True)
        json.dump(known, open(res, "w"), indent=0)
    with ThreadPoolExecutor(WORKERS) as ex: list(ex.map(one, ms))
    shutil.rmtree("/tmp/mut")


def show(out):
    for k, m in sorted(json.load(open(out + ".res")).items()):
        if not m["hit"]: print(f"{m['file']}:{m['line']} [{m['what']}] {m['old']!r} -> {m['new']!r}")


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "make": make(a[1], int(a[2]) if len(a) > 2 else 10**9, int(a[3]) if len(a) > 3 else 1)
    elif a[0] == "judge": judge(a[1], float(a[2]) if len(a) > 2 else 0.15)
    else: show(a[1])
