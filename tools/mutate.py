"""Random small faults in the anchored files; each is shown to the checks of every property anchored there. Survivors are listed for a person to look at.

  mutate.py [--jobs N] [--n PER_FILE] [--seed S] [--only-functions REGEX] <file>...
"""
import ast, collections, json, os, random, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SPEED = "W22 D09 L18 O17 S16 D11 D08 D01 C13 C12 D10 D02 D05 D04 B20 D03 S15 D07 F19 C14 D06 R21".split()
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}


def sites(src, pattern):
    """(function, line, start, end, new text)"""
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    out = []

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = pos(n)
        return raw[a:b].decode()

    def put(fn, n, new):
        a, b = pos(n)
        if raw[a:b].decode() != new:
            out.append((fn, n.lineno, a, b, new))

    def walk(n, fn):
        for c in ast.iter_child_nodes(n):
            f = fn
            if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                f = f"{fn}.{c.name}" if fn else c.name
            visit(c, f)
            walk(c, f)

    def visit(n, fn):
        if not fn:
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(fn, n, f"({text(n.left)} {CMP[type(n.ops[0])]} {text(n.comparators[0])})")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(fn, n, "(" + op.join(f"({text(v)})" for v in n.values) + ")")
            k = rng.randrange(len(n.values))
            rest = [v for i, v in enumerate(n.values) if i != k]
            put(fn, n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({text(v)})" for v in rest) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(fn, n, f"({text(n.operand)})")
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(fn, n, str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            put(fn, n, str(n.value + rng.choice([1, -1])) if n.value else "1")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            put(fn, n, f"({text(n.left)} {'-' if isinstance(n.op, ast.Add) else '+'} {text(n.right)})")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.FloorDiv, ast.Mod)):
            put(fn, n, f"({text(n.left)} {'+' if isinstance(n.op, ast.Mult) else '*'} {text(n.right)})")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(fn, n, "pass")
        if isinstance(n, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
            put(fn, n, "pass")
        if isinstance(n, ast.AugAssign):
            put(fn, n, "pass")
        if isinstance(n, ast.Raise):
            put(fn, n, "pass")
        if isinstance(n, ast.If):
            put(fn, n.test, f"False and ({text(n.test)})" if not n.orelse else f"not ({text(n.test)})")
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            i = rng.randrange(len(n.args) - 1)
            a, b = n.args[i], n.args[i + 1]
            (a0, a1), (b0, b1) = pos(a), pos(b)
            if raw[a0:a1] != raw[b0:b1]:
                out.append((fn, n.lineno, a0, b1, (raw[b0:b1] + raw[a1:b0] + raw[a0:a1]).decode()))
        if isinstance(n, (ast.Continue, ast.Break)):
            put(fn, n, "pass")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("min", "max", "any", "all", "sorted", "list", "dict", "tuple", "set"):
            new = {"min": "max", "max": "min", "any": "all", "all": "any"}.get(n.func.id)
            if new:
                put(fn, n.func, new)
            elif n.func.id == "sorted" and len(n.args) == 1:
                put(fn, n, f"list({text(n.args[0])})" if not n.keywords else text(n))
            elif len(n.args) == 1 and n.func.id in ("list", "dict"):
                put(fn, n, f"({text(n.args[0])})")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
            put(fn, n, text(n.func.value))
        if isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                put(fn, n.lower, f"{text(n.lower)} + 1")
    rng = random.Random(len(src))
    walk(tree, "")
    return [s for s in out if not pattern or re.search(pattern, s[0])], raw


def run(job):
    path, props, (fn, line, a, b, new), raw, crlf = job
    d = tempfile.mkdtemp(prefix="mutant-")
    try:
        subprocess.run(f"cd /repo && tar cf - --exclude=.git --exclude=build . | tar xf - -C {d}", shell=True, check=True)
        out = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(out.decode())
        except SyntaxError:
            return None
        if crlf:
            out = out.replace(b"\n", b"\r\n")
        open(os.path.join(d, path), "wb").write(out)
        v = os.path.join(d, ".verif")
        shutil.copytree(HERE, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays", "__pycache__"))
        notes = []
        for p in props:
            r = subprocess.run([PY, "check.py", p], cwd=v, env={**os.environ, "PYVC_REPO": d}, capture_output=True, text=True)
            if r.returncode == 1:
                nfi = "no-failing-input" in r.stdout and ".json\n" not in r.stdout
                return "killed", f"{p} {'NFI' if nfi else 'concrete'} {path}:{line} {fn} - {raw[a:b].decode()[:80]!r} + {new[:80]!r}", "NFI" if nfi else "concrete"
            if "UNDECIDED" in r.stdout:
                notes.append(p)
        return "SURVIVED", f"{path}:{line} {fn}\n      - {raw[a:b].decode()[:160]!r}\n      + {new[:160]!r}   undecided: {notes}"
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    args = sys.argv[1:]
    jobs, n, seed, pattern, only = 5, 20, 1, None, None
    while args and args[0].startswith("--"):
        k = args[0]
        if k == "--jobs":
            jobs = int(args[1])
        if k == "--n":
            n = int(args[1])
        if k == "--seed":
            seed = int(args[1])
        if k == "--only-functions":
            pattern = args[1]
        if k == "--props":
            only = args[1].split(",")
        args = args[2:]
    anchors = collections.defaultdict(list)
    for l in open(f"{HERE}/properties.jsonl"):
        p = json.loads(l)
        for f in p["anchors"]["files"]:
            anchors[f].append(p["id"])
    work = []
    for f in args or sorted(anchors):
        if not f.endswith(".py"):
            continue
        data = open("/repo/" + f, "rb").read()
        crlf = b"\r\n" in data
        s, raw = sites(data.replace(b"\r\n", b"\n").decode(), pattern)
        r = random.Random(f"{seed}{f}")
        r.shuffle(s)
        props = sorted(only or anchors[f], key=SPEED.index)
        work += [(f, props, x, raw, crlf) for x in s[:n]]
    tally = collections.Counter()
    with ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(run, work):
            if r is None:
                continue
            tally[r[0] if r[0] != "killed" else f"killed {r[2]}"] += 1
            if r[0] == "SURVIVED":
                print("SURVIVED", r[1], flush=True)
            elif r[2] == "NFI":
                print("KILLED", r[1], flush=True)
    print(dict(tally))
