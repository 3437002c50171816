"""F19 - executable contracts: random expressions against an independent reading of the language with numpy."""
import ast
import copy
import os
import tempfile
import warnings

import numpy as np

from bounded.harness import require

warnings.filterwarnings("ignore")
FUN = {"abs": (np.abs, 1), "isfinite": (np.isfinite, 1), "isnan": (np.isnan, 1), "logical_not": (np.logical_not, 1),
       "logical_and": (np.logical_and, 2), "logical_or": (np.logical_or, 2)}
BIN = {"+": np.add, "-": np.subtract, "*": np.multiply, "/": np.true_divide, "//": np.floor_divide, "%": np.mod, "&": np.bitwise_and,
       "|": np.bitwise_or, "^": np.bitwise_xor}
PY = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b,
      "%": lambda a, b: a % b, "&": lambda a, b: a & b, "|": lambda a, b: a | b, "^": lambda a, b: a ^ b,
      "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b,
      "==": lambda a, b: a == b, "!=": lambda a, b: a != b}


class Over(Exception):
    """Beyond the limits of the language."""


class Ref:
    """Evaluates while the expression is made."""

    def __init__(self, fields):
        self.fields = fields
        self.n = len(next(iter(fields.values())))
        self.max = max(4096, 8 * self.n)

    def lim(self, v):
        if isinstance(v, np.ndarray):
            if v.dtype.kind not in "biuf":
                raise Over("dtype")
            if v.size > self.max or v.nbytes > 64 << 20:
                raise Over("size")
        elif type(v) is int and not -(1 << 63) <= v < 1 << 63:
            raise Over("int")
        return v

    def op(self, f, *a):
        """Sized by the broadcast of its array operands before it is computed."""
        arrs = [x for x in a if isinstance(x, np.ndarray)]
        if arrs:
            n = int(np.prod(np.broadcast_shapes(*(x.shape for x in arrs)), dtype=object))
            if n > self.max or n * max(x.dtype.itemsize for x in arrs) > 64 << 20:
                raise Over("size")
        return self.lim(f(*a))


def gen(rng, ref, depth):
    """(text, function -> value)"""
    if depth <= 0 or rng.random() < .12:
        if rng.random() < .65:
            k = rng.choice(list(ref.fields))
            return k, lambda: ref.fields[k]
        t = rng.choice(["0", "1", "2", "3", "0.5", "2.5", "1e3", "True", "False", "7", "100", "0x10"])
        return t, lambda: eval(t)
    p = rng.random()
    if p < .12:
        o = rng.choice("-+~")
        t, f = gen(rng, ref, depth - 1)
        return f"{o}({t})", lambda: ref.op({"-": lambda a: -a, "+": lambda a: +a, "~": lambda a: ~a}[o], f())
    if p < .42:
        o = rng.choice(list(BIN))
        (a, fa), (b, fb) = gen(rng, ref, depth - 1), gen(rng, ref, depth - 1)
        return f"({a}) {o} ({b})", lambda: ref.op(PY[o], fa(), fb())
    if p < .47:
        a, fa = gen(rng, ref, depth - 1)
        k = rng.choice([0, 1, 2, 3, 8])
        return f"({a}) ** {k}", lambda: ref.op(lambda x: x ** k, fa())
    if p < .7:
        n = rng.choice([1, 1, 1, 2, 3])
        parts = [gen(rng, ref, depth - 1) for _ in range(n + 1)]
        os_ = [rng.choice(["<", "<=", ">", ">=", "==", "!="]) for _ in range(n)]

        def f():
            left, out = parts[0][1](), None
            for o, (_, fb) in zip(os_, parts[1:]):
                right = fb()
                part = ref.op(PY[o], left, right)
                out = part if out is None else ref.op(np.logical_and, out, part)
                left = right
            return out
        return f"({parts[0][0]})" + "".join(f" {o} ({t})" for o, (t, _) in zip(os_, parts[1:])), f
    if p < .85:
        name = rng.choice(list(FUN))
        fn, nin = FUN[name]
        args = [gen(rng, ref, depth - 1) for _ in range(nin)]
        return f"{rng.choice(['', 'np.'])}{name}({', '.join(t for t, _ in args)})", lambda: ref.op(fn, *[f() for _, f in args])
    a, fa = gen(rng, ref, depth - 1)
    idx = rng.choice(["0", "-1", ":", "1:", "::2", "::-1", "...", ":, 0", ":, -1", "..., 0", ":, 0, 0", ":, 1:2", "[0, 0, 1]", "[0]", "0, 0", ":, [0]", "0:0"])
    index = eval(f"np.s_[{idx}]")

    def sub():
        v = fa()
        if not isinstance(v, np.ndarray):
            raise TypeError
        return ref.lim(v[index])
    return f"({a})[{idx}]", sub


def fields(rng, n=None):
    r = np.random.default_rng(rng.randrange(1 << 30))
    n = rng.choice([0, 1, 2, 3, 5, 8]) if n is None else n
    out = {}
    for k in ("x", "gf", "vt", "flag", "pt")[:rng.randrange(1, 6)]:
        shape = (n,) + {"x": (), "flag": (), "gf": (rng.choice([1, 2, 3]),), "vt": (3,), "pt": (2, 2)}[k]
        kind = rng.choice(["i1", "u1", "i4", "i8", "f4", "f8", "f2", "u8", "?"]) if k != "flag" else "?"
        if kind == "?":
            a = r.integers(0, 2, shape) > 0
        elif kind[0] == "f":
            a = r.normal(0, 2, shape).round(1).astype(kind)
            if a.size and rng.random() < .3:
                a.flat[rng.randrange(a.size)] = rng.choice([np.nan, np.inf, -np.inf])
        else:
            a = r.integers(0 if kind[0] == "u" else -4, 8, shape).astype(kind)
        out[k] = a
    return out


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def unchanged(before, after):
    return list(before) == list(after) and all(same(after[k], before[k]) for k in before)


def height(tree):
    return 1 + max([height(c) for c in ast.iter_child_nodes(tree)], default=0)


def accepted_size(text):
    tree = ast.parse(text, mode="eval")
    return len(text.encode()) <= 4096 and sum(1 for _ in ast.walk(tree)) <= 128 and height(tree) <= 16


def run(H):
    rng = H.rng
    from dataset.filter import evaluate_filter_condition
    from utils.data_utils import filter_data_by_condition

    def ask(text, data):
        try:
            return evaluate_filter_condition(text, data)
        except Exception as e:
            if isinstance(e, (MemoryError, RecursionError)):
                require(False, f"refused with {type(e).__name__} only", expression=text)
            return None

    def meaning(ref, f):
        """The mask an accepted expression must give, None for a refusal."""
        try:
            v = f()
        except Over:
            return None
        except Exception:
            return None
        if isinstance(v, np.ndarray) and v.dtype == np.bool_ and v.shape == (ref.n,):
            return v
        return None

    # ---- 1. values
    H.bound("values", "random expressions of the language up to depth 4 over 1-5 fields of 9 dtypes, 1-3 dimensions and 0-8 samples, against numpy")
    stats = [0, 0]

    def values():
        data = fields(rng)
        ref = Ref(copy.deepcopy(data))
        for _ in range(40):
            text, f = gen(rng, ref, rng.choice([1, 2, 3, 4]))
            if not accepted_size(text):
                require(ask(text, data) is None, "an expression beyond the size limits was evaluated", expression=text)
                continue
            want, got = meaning(ref, f), ask(text, data)
            stats[want is not None] += 1
            require((want is None) == (got is None), "an expression of the language was refused" if got is None else
                    "an expression without a boolean value per sample was accepted", expression=text, fields=data, value=got, expected=want)
            if want is not None:
                require(same(got, want), "an expression has another value than in numpy", expression=text, fields=data, value=got, expected=want)
            require(unchanged(ref.fields, data), "evaluating an expression changed a field", expression=text, fields=data, before=ref.fields)
    for _ in range(H.scale(150, 1500)):
        H.case("values", values)
    require(stats[1] > 100, "the generator makes valid expressions")

    # ---- 2. syntax outside the language
    H.bound("refused", "a catalogue of forbidden constructs at random places of a valid expression, with fields and a file to be left alone")
    scratch = tempfile.mkdtemp(dir=H.scratch)
    target = os.path.join(scratch, "written.npy")

    def forbidden():
        x = rng.choice(["x", "x[:]", "(x + 1)", "abs(x)"])
        n = rng.choice(["os", "sys", "eval", "exec", "open", "len", "sum", "max", "min", "any", "all", "print", "self", "node", "numpy", "unknown", "__builtins__",
                        "getattr", "type", "object", "globals", "range", "isinf", "where", "sqrt", "logical_xor", "sign"])
        m = rng.choice(["save", "load", "copyto", "put", "fill_diagonal", "ones", "zeros", "sqrt", "where", "sum", "any", "all", "random", "linalg", "array", "ndarray",
                        "tofile", "ctypeslib", "__builtins__", "__class__", "lib", "f2py", "testing", "negative", "add", "maximum", "logical_xor", "invert", "isinf"])
        a = rng.choice(["sum", "any", "all", "T", "fill", "sort", "tofile", "itemset", "shape", "dtype", "base", "real", "__class__", "__array__", "data", "flat", "resize",
                        "setflags", "astype", "__iadd__", "byteswap", "partition", "put", "view", "copy", "nonzero"])
        return rng.choice([
            f"{n}", f"{n}({x})", f"{n}({x}) > 0", f"np.{m}({x})", f"np.{m}", f"np.{m}({x}, {x})", f"{x}.{a}", f"{x}.{a}()", f"{x}.{a}({x})", f"np.abs.{rng.choice(['at', 'reduce', 'accumulate', '__call__', 'outer', '__class__', 'nin'])}",
            f"np.logical_and.reduce({x})", f"np.logical_and.at({x}, 0, {x})", f"np.np.abs({x})", f"abs.__call__({x})", f"np.random.rand({x})",
            f"np.save({target!r}, {x})", f"{x}.tofile({target!r})", f"open({target!r}, 'w')", f"__import__('os').mkdir({target!r})", f"np.memmap({target!r}, mode='w+', shape=1)",
            f"abs({x}, {x})", f"abs({x}, out={x})", f"isnan({x}, flag)", f"logical_and({x}, {x}, flag)", f"logical_not({x}, where=flag)", f"logical_and({x}, {x}, out=flag)", f"abs()", f"logical_or({x})",
            f"abs(*[{x}])", f"abs(**{{}})", f"isnan({x}, **{{'out': flag}})", f"logical_and(*({x}, {x}))",
            f"{x} and {x}", f"{x} or flag", f"not {x}", f"flag and flag", f"{x} if flag else {x}", f"(lambda: {x})()", f"lambda: {x}", f"(y := {x})", f"[q for q in {x}]",
            f"{{q for q in {x}}}", f"{{q: 1 for q in {x}}}", f"(q for q in {x})", f"{{1, 2}}", f"{{}}", f"f'{{x}}'", "'text'", "b'bytes'", f"{x} == 'text'", f"{x} in flag", f"{x} not in flag", f"{x} is flag", f"{x} is not flag",
            f"{x} @ {x}", f"{x} << 1", f"{x} >> 1", f"{x} ** 9", f"{x} ** -1", f"{x} ** 2.0", f"{x} ** x", f"{x} ** True", f"{x} ** (1 + 1)", f"2 ** x", f"{x} > 1j", f"{x} > 1e999", f"{x} > 9223372036854775808",
            f"{x}[x]", f"{x}[flag]", f"{x}[None]", f"{x}[True]", f"{x}[1.0]", f"{x}['x']", f"{x}[0 + 0]", f"{x}[x > 0]", f"{x}[[True, False]]", f"{x}[[0.5]]", f"{x}[..., ...]", f"{x}[0][0][0][0]", f"{x}[x:]", f"{x}[(lambda: 0)()]",
            f"{x}[{', '.join(['0'] * 65)}]", f"{x}[[{', '.join(['0'] * 65)}]]", f"(1, 2) * 100000000 == x", f"[0] * 100000000 == x", f"(1, 2) + (3, 4) == x", f"9 ** 8 ** 8 > x", f"((((9 ** 8) ** 8) ** 8) ** 8) > x",
            f"yield {x}", f"await {x}", f"*{x}", f"{x}, {x}", f"{x}; {x}", f"x = {x}", f"x += 1", f"del x", f"import os", f"pass", "", " ", "(", "x >", "x > 0 #\nx", f"{x} > 0\nx"])

    def refused():
        data = {"x": np.array([1, 2, 0, -1]), "flag": np.array([True, False, True, True])}
        if rng.random() < .3:
            data["y"] = np.arange(8.).reshape(4, 2)
        before = copy.deepcopy(data)
        for _ in range(20):
            core = forbidden()
            text = core
            for _ in range(rng.choice([0, 0, 1, 2])):
                text = rng.choice(["flag & ({})", "({}) > 0", "abs({})", "logical_and(flag, {})", "({})[:]", "-({})", "({}) + 1", "x < ({}) < 5", "({}) == x", "np.isnan({})", "(({}) > 0) | flag"]).format(text)
            got = ask(text, data)
            require(got is None, "an expression outside the language was evaluated", expression=text, value=got)
            require(unchanged(before, data), "a refused expression changed a field", expression=text, before=before, fields=data)
            require(not os.path.exists(target), "a refused expression wrote a file", expression=text)
    for _ in range(H.scale(120, 1200)):
        H.case("refused", refused)

    # ---- 3. limits
    H.bound("limits", "expressions on both sides of every limit: bytes, nodes, depth, literal items, integers, entries, bytes of an intermediate")

    def limits():
        n = rng.choice([1, 3, 600])
        x = np.zeros(n, dtype=rng.choice(["i1", "f4", "f8"]))
        x[0] = 1
        data = {"x": x, "m": np.zeros((n, 3), dtype="f8")}
        base = x > 0
        cases = []

        def both(text, ok, what, want=base):
            cases.append((text, ok, what, want))
        for k in (4096, 4097):
            t = "x > 0"
            both(t + " " * (k - len(t)), k <= 4096, "bytes")
        for k in (13, 14, 15, 16, 30):
            t = "x > 0"
            for _ in range(k):
                t = f"+({t})" if False else f"logical_or({t}, False)" if False else f"({t}) | False"
            both(t, height(ast.parse(t, mode="eval")) <= 16 and sum(1 for _ in ast.walk(ast.parse(t, mode="eval"))) <= 128, "depth")
        for k in (20, 24, 25, 26, 40):
            t = "0 < x" + " <= 5" * k
            both(t, sum(1 for _ in ast.walk(ast.parse(t, mode="eval"))) <= 128, "nodes")
        for k in (64, 65):
            idx = [0] * k
            both(f"x[[{', '.join(map(str, idx))}]][:0].x" if False else f"x[[{', '.join(map(str, idx))}]] > 0", False if n != k else True, "items", None)
        for v, ok in ((2 ** 63 - 1, True), (2 ** 63, False)):
            both(f"(x < {v}) & (x > 0)", ok, "integers")
        both("(9223372036854775807 + 1) > x", False, "integers")
        both("(9223372036854775807 * 9223372036854775807) > x", False, "integers")
        both("-(-9223372036854775807 - 1) > x", False, "integers")
        # entries: (n, 1) against (1, n)
        outer = max(4096, 8 * n)
        both("((x[0:1] < 5) & (x > 0))", True, "entries")
        big = np.zeros((n, outer // max(1, n) + 1), dtype="i1")
        data["big"] = big
        both("(big + 0)[:, 0] + x > 0", False, "entries")
        both("(x > 0) & (big[:, 0] == 0)", True, "entries")
        both("abs(big)[:, 0] + x > 0", False, "entries")
        both("(-big)[:, 0] + x > 0", False, "entries")
        both("(big < 3)[:, 0] & (x > 0)", False, "entries")
        both("(x[0] < 5 < big)[:, 0] & (x > 0)", False, "entries")
        before = {k: v.copy() for k, v in data.items()}
        for text, ok, what, want in cases:
            got = ask(text, data)
            if want is None:
                require(got is None or ok, f"an expression beyond the {what} limit was evaluated", expression=text, samples=n)
                continue
            require((got is not None) == ok, f"an expression within the {what} limit was refused" if ok else f"an expression beyond the {what} limit was evaluated",
                    expression=text, samples=n, value=got)
            if ok:
                require(same(got, want), f"an expression at the {what} limit has another value", expression=text, samples=n)
        require(unchanged(before, data), "evaluating an expression changed a field", fields=list(data))
    for _ in range(H.scale(6, 40)):
        H.case("limits", limits)

    def wide():
        # an outer product, and a conjunction of two thin parts, sized before they are made
        n = 20000
        data = {"x": np.zeros((n, 9), dtype="f8"), "f": np.zeros(n, dtype="?"), "w": np.zeros(n, dtype="f8")}
        import tracemalloc
        for text in ("(x[0:1] < 5 < x[:, 0:1])[:, 0]", "((x[:, 0:1] < 5) & (w > 0))[:, 0]", "(x[:, 0:1] + w)[:, 0] > 0", "abs(x[:, 0:1] - w)[:, 0] > 0", "(w == x[:, 0:1])[:, 0]", "logical_or(x[:, 0:1], w)[:, 0]",
                     "(0 < x[:, 0:1] < w)[:, 0]"):
            tracemalloc.start()
            got = ask(text, data)
            peak = tracemalloc.get_traced_memory()[1]
            tracemalloc.stop()
            if "x[0:1]" in text:
                require(got is None or same(got, np.ones(n, dtype="?")), "wrong value", expression=text)
            else:
                require(got is None, "an intermediate beyond the limit was made", expression=text)
            require(peak < 64 << 20, "an oversized intermediate was allocated before it was refused", expression=text, peak=peak)
        require(not any(v.any() for v in data.values()), "evaluating an expression changed a field")
    H.case("wide", wide)

    # ---- 4. filtering
    H.bound("filtering", "random accepted conditions applied to dictionaries of 1-5 fields; every field keeps exactly the selected rows in order")

    def filtering():
        data = fields(rng)
        ref = Ref(copy.deepcopy(data))
        for _ in range(60):
            text, f = gen(rng, ref, rng.choice([1, 2, 3]))
            want = meaning(ref, f) if accepted_size(text) else None
            if want is None or (want.all() and rng.random() < .7):
                continue
            got = filter_data_by_condition(text, data)
            require(got == int(want.sum()), "the number of kept samples is wrong", condition=text, fields=ref.fields, got=got)
            require(list(data) == list(ref.fields), "filtering changed the set of fields", condition=text)
            for k in data:
                require(same(data[k], ref.fields[k][want]), "a field does not keep exactly the selected samples", condition=text, field=k, fields=ref.fields, got=data[k])
            return
    for _ in range(H.scale(300, 3000)):
        H.case("filtering", filtering)

    def refused_filter():
        data = {"x": np.arange(4), "y": np.arange(8.).reshape(4, 2)}
        before = copy.deepcopy(data)
        text = rng.choice(["x", "y > 0", "x[:2] > 0", "x.sum() > 0", "1 < 2", "x > z", "abs(x, y) > 0"])
        try:
            filter_data_by_condition(text, data)
        except Exception:
            require(unchanged(before, data), "a refused condition changed the data", condition=text)
            return
        require(False, "a refused condition filtered the data", condition=text)
    for _ in range(H.scale(20, 60)):
        H.case("refused filter", refused_filter)

    # ---- 5. datasets
    H.bound("datasets", "processed and raw KataGo files read by the map-style and streamed datasets with a condition: exactly the selected records arrive")
    from bounded.realdata import build, ctx, write_processed, write_raw_katago

    def datasets(raw):
        d = tempfile.mkdtemp(dir=H.scratch)
        paths = []
        truth = []
        rows = rng.choice([3, 6])
        for i in range(rng.choice([1, 2])):
            p = os.path.join(d, f"f{i}.npz")
            if raw:
                write_raw_katago(p, i, rows, 5, rng)
            else:
                write_processed(p, i, rows, (5, 5), rng=rng)
            paths.append(p)
            z = dict(np.load(p))
            truth.append(z)
        name = "globalTargetsNC" if raw else "vt"
        pivot = rng.choice([0, 1, rows // 2, 1000, 1000 + rows // 2])
        text = rng.choice([f"{name}[:, 0] >= {pivot}", f"{name}[:, 0] % 2 == 0", f"({name}[:, 0] != {pivot}) & ({name}[:, 0] < {1000 + rows})", f"abs({name}[:, 0] - {pivot}) < 2",
                           f"np.logical_not({name}[:, 0] > {pivot})", f"{pivot - 2} < {name}[:, 0] <= {pivot + 1}"])
        env = {"np": np, "abs": np.abs}
        want, empty = [], False
        for z in truth:
            e = text.replace(f"{pivot - 2} < {name}[:, 0] <= {pivot + 1}", f"({pivot - 2} < {name}[:, 0]) & ({name}[:, 0] <= {pivot + 1})")
            keep = eval(e, {**env, **z})
            empty = empty or not keep.any()
            want += [float(v) for v in z[name][keep][:, 0]]
        if raw and empty:        # a raw file without a valid entry is refused as a whole
            return
        kw = dict(has_pass_move=True, filter_condition=text, boardsizes=[(5, 5)])
        kind = "katago_numpy" if raw else "processed_katago_numpy"
        c = ctx(1)
        from dataset.katago import KatagoNumpyDataset, ProcessedKatagoNumpyDataset
        ds = (KatagoNumpyDataset if raw else ProcessedKatagoNumpyDataset)(paths, **{**kw, "boardsizes": {(5, 5)}})
        got = [float(np.asarray(ds.data_dict["value_target" if raw else "vt"][i])[0]) for i in range(len(ds))]
        require(got == want, "a dataset does not hold exactly the selected samples in order", condition=text, kind=kind, got=got, expected=want)
        if not want:
            return
        ds = build("iterative_" + kind, paths, c, **kw)
        got = []
        for b in ds._planned_decoder:
            v = np.asarray(b.data["value_target"])
            got += [float(x[0]) for x, ok in zip(v, b.is_real) if ok]
        require(sorted(got) == sorted(want), "a streamed dataset does not deliver exactly the selected samples", condition=text, kind=kind, got=got, expected=want)
    for k in range(H.scale(24, 200)):
        H.case("datasets", lambda raw=k % 2: datasets(raw))
