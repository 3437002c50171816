"""Mechanical edits that change no behaviour, applied to every function of a property's files, to see that its check stays quiet.

  refactor.py [--only T1,T2] [--jobs N] <property>...
"""
import ast, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


class Fn(ast.NodeTransformer):
    """Runs `body` edits on every statement list of every function."""

    def __init__(self):
        self.fn, self.count, self.cls = None, 0, 0

    def visit_FunctionDef(self, node):
        old, self.fn = self.fn, node
        node.body = self.stmts(node.body)
        self.fn = old
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_Lambda(self, node):
        return node

    def stmts(self, body):
        out = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, f, None), list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    setattr(s, f, self.stmts(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.stmts(h.body)
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                s = self.visit(s)
            out += self.one(s)
        return self.block(out)

    def one(self, s):
        return [s]

    def block(self, b):
        return b


def names(node, ctx=None):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and (ctx is None or isinstance(n.ctx, ctx))}


def assigned(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    return out, names(fn, (ast.Store, ast.Del)) | {n.name for n in ast.walk(fn) if isinstance(n, ast.ExceptHandler) and n.name}


class ReturnTemp(Fn):
    def one(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            self.count += 1
            return [ast.Assign([ast.Name("outcome_", ast.Store())], s.value), ast.Return(ast.Name("outcome_", ast.Load()))]
        return [s]


class InvertIf(Fn):
    def one(self, s):
        if isinstance(s, ast.If) and s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
            self.count += 1
            return [ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)]
        return [s]


class Rename(Fn):
    def visit_FunctionDef(self, node):
        if any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) and n is not node for n in ast.walk(node)) \
                or "locals" in names(node):
            return node
        params, loc = assigned(node)
        loc = loc - params
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in loc and not n.id.startswith("__"):
                n.id += "_v"
                self.count += 1
            if isinstance(n, ast.ExceptHandler) and n.name:
                n.name += "_v"
        for n in ast.walk(node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    nm = (al.asname or al.name).split(".")[0]
                    pass
        return node


class CompToLoop(Fn):
    def one(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) \
                and len(s.value.generators) == 1 and not s.value.generators[0].is_async:
            g = s.value.generators[0]
            t = names(g.target)
            inner = sum(1 for n in ast.walk(s.value) if isinstance(n, ast.Name) and n.id in t)
            total = sum(1 for n in ast.walk(self.fn) if isinstance(n, ast.Name) and n.id in t)
            if inner == total and s.targets[0].id not in names(s.value):
                self.count += 1
                x = s.targets[0].id
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                return [ast.Assign([ast.Name(x, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, body, [])]
        return [s]


class Swap(Fn):
    def block(self, b):
        i = 0
        while i + 1 < len(b):
            x, y = b[i], b[i + 1]
            if self.simple(x) and self.simple(y):
                wx, wy = names(x, ast.Store), names(y, ast.Store)
                if not (wx & names(y)) and not (wy & names(x)) and wx and wy:
                    b[i], b[i + 1] = y, x
                    self.count += 1
                    i += 1
            i += 1
        return b

    @staticmethod
    def simple(s):
        if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name)):
            return False
        return all(isinstance(n, (ast.Name, ast.Constant, ast.Attribute, ast.expr_context, ast.List, ast.Dict, ast.Tuple)) for n in ast.walk(s.value))


class ForToWhile(Fn):
    def one(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            self.count += 1
            it = f"it_{self.count}"
            return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name("iter", ast.Load()), [s.iter], [])),
                    ast.While(ast.Constant(True), [
                        ast.Try([ast.Assign([s.target], ast.Call(ast.Name("next", ast.Load()), [ast.Name(it, ast.Load())], []))],
                                [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])] + s.body, [])]
        return [s]


class Helper(Fn):
    """The test of an `if` becomes a module-level function of the names it reads."""

    def __init__(self):
        super().__init__()
        self.new = []

    def one(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
            bad = (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)
            if any(isinstance(n, bad) for n in ast.walk(s.test)) or "super" in names(s.test) or re.search(r"\b__\w+[^_]\b", ast.unparse(s.test)):
                return [s]
            comp = {t for n in ast.walk(s.test) if isinstance(n, ast.comprehension) for t in names(n.target)}
            free = sorted(names(s.test, ast.Load) - comp - self.globals)
            self.count += 1
            name = f"_test_{self.count}"
            self.new.append(ast.FunctionDef(name=name, args=ast.arguments([], [ast.arg(x) for x in free], None, [], [], None, []),
                                            body=[ast.Return(s.test)], decorator_list=[], type_params=[]))
            return [ast.If(ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in free], []), s.body, s.orelse)]
        return [s]


class NoOp(Fn):
    def visit_FunctionDef(self, node):
        super().visit_FunctionDef(node)
        at = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(at, ast.Assign([ast.Name("_unused", ast.Store())], ast.Constant(None)))
        self.count += 1
        return node


class AugSplit(Fn):
    """x += e becomes x = x + e for counters (numbers only: e is a constant or a length)."""

    def one(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int):
            self.count += 1
            return [ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value))]
        return [s]


class GuardElse(Fn):
    """if c: ...return/raise; rest  ->  if c: ... else: rest"""

    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(b) \
                    and not any(isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)) for x in b[i + 1:]):
                self.count += 1
                return b[:i] + [ast.If(s.test, s.body, self.block(b[i + 1:]))]
        return b


class MoreLoops(Fn):
    """A loop that does nothing at the start of every function: the loops after it are numbered differently."""

    def visit_FunctionDef(self, node):
        node = super().visit_FunctionDef(node)
        doc = isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
        node.body.insert(1 if doc else 0, ast.parse("for _none in ():\n    pass").body[0])
        self.count += 1
        return node

    def one(self, s):
        return [s]


EDITS = {"loops": MoreLoops, "return": ReturnTemp, "invert": InvertIf, "rename": Rename, "comp": CompToLoop, "swap": Swap, "while": ForToWhile, "helper": Helper,
         "noop": NoOp, "aug": AugSplit, "guard": GuardElse}


def edit(path, kind):
    src = open(path, encoding="utf-8", newline="").read().replace("\r\n", "\n")
    tree = ast.parse(src)
    t = EDITS[kind]()
    bound = set(dir(__builtins__)) | set(vars(__import__("builtins")))
    glob = set()
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            glob.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            glob |= {(a.asname or a.name).split(".")[0] for a in n.names}
        else:
            glob |= names(n, ast.Store)
    # a name that is also a local somewhere is passed on
    loc = {x for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) for x in assigned(f)[0] | assigned(f)[1]}
    loc |= {(a.asname or a.name).split(".")[0] for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
    t.globals = (glob | bound) - loc
    for n in tree.body:
        if isinstance(n, ast.FunctionDef):
            t.visit(n)
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    t.visit(m)
    if isinstance(t, Helper):
        at = max([i + 1 for i, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom))] + [0])
        tree.body[at:at] = t.new
    ast.fix_missing_locations(tree)
    open(path, "w", encoding="utf-8", newline="").write(ast.unparse(tree) + "\n")
    return t.count


def one(pid, kind):
    p = next(json.loads(l) for l in open(f"{HERE}/properties.jsonl") if json.loads(l)["id"] == pid)
    files = sorted(p["anchors"]["files"])
    d = tempfile.mkdtemp(prefix="refac-")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        n = 0
        for f in files:
            q = os.path.join(d, f)
            if f.endswith(".py") and os.path.isfile(q):
                n += edit(q, kind)
        t0 = time.time()
        v = os.path.join(d, ".verif")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
        r = subprocess.run([PY, "check.py", pid], cwd=v, env={**os.environ, "PYVC_REPO": d}, capture_output=True, text=True)
        out = (r.stdout + r.stderr).splitlines()
        show = [l for l in out if not l.startswith("OK")]
        return f"{pid} {kind} edits={n} exit={r.returncode} ({time.time() - t0:.0f}s) " + ("" if r.returncode == 0 and not show else "\n    " + "\n    ".join(x[:260] for x in show[-9:]))
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    only, jobs = list(EDITS), 3
    while args and args[0].startswith("--"):
        if args[0] == "--only":
            only = args[1].split(",")
        if args[0] == "--jobs":
            jobs = int(args[1])
        args = args[2:]
    pids = args or [json.loads(l)["id"] for l in open(f"{HERE}/properties.jsonl")]
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda a: one(*a), [(p, k) for k in only for p in pids]):
            print(r, flush=True)
