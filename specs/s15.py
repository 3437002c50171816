"""S15 - board symmetries and the samples they are applied to."""
import types

import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymBool, SymInt, SymReal, int_term, to_bool_term
from pyvc.arrays import SArr, NPModule, board_and_tail, flat_rows, concrete, same
from pyvc import shims
from pyvc.load import World, LoopSpec

I, B = z3.IntSort(), z3.BoolSort()
DU, DEC = "utils.data_utils", "dataset.decoder"
TRUSTED = ["numpy's documented index equations (flip, swapaxes/transpose, copy, take, pad, reshape in row-major order, concatenate, "
           "boolean and index selection); elements are compared as values, dtype conversions are not modelled",
           "validate_field_dict (refuses malformed samples), uniform_below (a number below its bound), SHA-256"]

# the documented maps; w, h are the last column and row
MAPS = {"IDENTITY": lambda x, y, w, h: (x, y), "ROTATE_90": lambda x, y, w, h: (y, w - x),
        "ROTATE_180": lambda x, y, w, h: (w - x, h - y), "ROTATE_270": lambda x, y, w, h: (h - y, x),
        "FLIP_X": lambda x, y, w, h: (x, h - y), "FLIP_Y": lambda x, y, w, h: (w - x, y),
        "FLIP_XY": lambda x, y, w, h: (y, x), "FLIP_YX": lambda x, y, w, h: (h - y, w - x)}
KEEP = ["IDENTITY", "ROTATE_180", "FLIP_X", "FLIP_Y"]
KINDS = {"default": list(MAPS), "rotate": ["IDENTITY", "ROTATE_90", "ROTATE_180", "ROTATE_270"],
         "flip": ["IDENTITY", "FLIP_X", "FLIP_Y", "FLIP_XY", "FLIP_YX"],
         "flip_diag_rotate180": ["IDENTITY", "ROTATE_180", "FLIP_XY", "FLIP_YX"]}
SIDE = [4, 5, 6, 7, 0, 1, 2, 3, 9, 8, 11, 10]


class Moves:
    """A list of moves of arbitrary length; element j is what at(j) computes."""
    __pyvc_type__ = list

    def __init__(self, n, at):
        self.n, self.at = n, at

    def __pyvc_len__(self):
        return SymInt(self.n)

    def __bool__(self):
        return ctx().decide(self.n > 0)

    def __getitem__(self, k):
        k = concrete(k)
        if k == -1:
            if ctx().decide(self.n <= 0):
                raise IndexError("list index out of range")
            return self.at(self.n - 1)
        raise Unsupported("an element of the recorded moves")

    def __iter__(self):
        raise Unsupported("iterating over the recorded moves")


class Text(str):
    def __new__(cls, moves):
        s = str.__new__(cls, "\0moves")
        s.moves = moves
        return s


class Letters:
    def __init__(self, move):
        self.move = move


def prove(S):
    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return type(k, (), {})
    torch = Dummy("torch")
    core = types.ModuleType("core")
    core.validate_field_dict = lambda data, *, batched: None
    core.FIELD_SPECS = {}
    dataset = types.ModuleType("dataset")
    dataset.core = core

    def load(loops=None):
        w = World(loops=loops or {}, stubs={"torch": torch, "dataset": dataset, "dataset.core": core})
        m = w.module(DU)
        m.np = NPModule()
        base = m.__dict__["__pyvc_comp__"]

        def comp(kind, f, src, cond):
            if isinstance(src, Moves) and cond is None and kind in ("list", "gen"):
                return Moves(src.n, lambda j: f(src.at(j)))
            return base(kind, f, src, cond)
        m.__dict__["__pyvc_comp__"] = comp
        join = m.__dict__["__pyvc_join__"]

        def joined(sep, parts):
            if isinstance(parts, Moves):
                if sep != "":
                    raise Unsupported("another separator")
                return Text(parts)
            return join(sep, parts)
        m.__dict__["__pyvc_join__"] = joined
        m.chr = lambda v: "?" if isinstance(v, SymInt) else chr(v)
        m.str = lambda *a: Letters(a[0]) if a and isinstance(a[0], m.Move) else shims.SHIMS.get("str", str)(*a)
        m.list = lambda *a: a[0] if a and isinstance(a[0], Moves) else shims.SHIMS.get("list", list)(*a)
        return w, m
    w, m = load()
    names = [s.name for s in m.Symmetry]
    if set(names) != set(MAPS):
        raise Unsupported("another set of symmetries")

    def dims(square, lo=1):
        c = ctx()
        h = c.fresh(I, "height")
        wd = h if square else c.fresh(I, "width")
        c.add(z3.And(h >= lo, wd >= lo))
        if not square:
            c.add(h != wd)
        c.inputs.update(height=h, width=wd)
        return h, wd

    def cell(h, wd, hint=""):
        c = ctx()
        x, y = c.fresh(I, f"x{hint}"), c.fresh(I, f"y{hint}")
        c.add(z3.And(x >= 0, x < wd, y >= 0, y < h))
        c.inputs.update(x=x, y=y)
        return x, y

    def size(h, wd):
        return SArr.of([h, wd])

    def moved(name, x, y, h, wd):
        return MAPS[name](x, y, wd - 1, h - 1)

    def shape_is(a, *want):
        return z3.And(z3.BoolVal(a.ndim == len(want)), *[int_term(p) == q for p, q in zip(a.shape, want)])

    # ------------------------------------------------------------ positions and arrays
    def one(name, square):
        def h():
            s = m.Symmetry[name]
            hh, ww = dims(square)
            x, y = cell(hh, ww)
            mv = s.apply_to_move(m.Move(SymInt(x), SymInt(y)), size(hh, ww))
            nx, ny = moved(name, x, y, hh, ww)
            S.prove("a cell moves where the documentation says", z3.And(int_term(mv.x) == nx, int_term(mv.y) == ny))
            S.prove("it stays on the board", z3.And(int_term(mv.x) >= 0, int_term(mv.x) < ww, int_term(mv.y) >= 0, int_term(mv.y) < hh))
            x2, y2 = cell(hh, ww, "2")
            m2 = s.apply_to_move(m.Move(SymInt(x2), SymInt(y2)), size(hh, ww))
            S.prove("no two cells collide", z3.Implies(z3.And(int_term(mv.x) == int_term(m2.x), int_term(mv.y) == int_term(m2.y)),
                                                       z3.And(x == x2, y == y2)))
            p = m.Move.PASS
            S.prove("a pass stays a pass", z3.BoolVal(bool(s.apply_to_move(p, size(hh, ww)).is_pass)))
            for lead in (0, 1, 2):
                ld = [ctx().fresh(I, "dim") for _ in range(lead)]
                at = [ctx().fresh(I, "lead") for _ in range(lead)]
                for d, k in zip(ld, at):
                    ctx().add(z3.And(d > 0, k >= 0, k < d))
                a = SArr.fresh([*ld, hh, ww], "plane")
                out = s.apply_to_array(a)
                S.prove(f"{lead + 2}-d: the shape is kept", shape_is(out, *ld, hh, ww))
                S.prove(f"{lead + 2}-d: the array moves each cell like the position",
                        out.fn(*at, int_term(mv.y), int_term(mv.x)) == a.fn(*at, y, x))
                S.prove(f"{lead + 2}-d: the result is a copy", z3.BoolVal(not out.view and out is not a))
                if lead:
                    b = SArr.fresh([ww, hh, *ld], "plane")
                    out = s.apply_to_array(b, y_dim=1, x_dim=0)
                    S.prove(f"{lead + 2}-d: other axes move alike",
                            out.fn(int_term(mv.x), int_term(mv.y), *at) == b.fn(x, y, *at))
        return h
    for n in names:
        S.run(f"Symmetry.apply_to_move/apply_to_array ({n}, square)", one(n, True))
        if n in KEEP:
            S.run(f"Symmetry.apply_to_move/apply_to_array ({n}, rectangle)", one(n, False))

    def refuse(name):
        def h():
            hh, ww = dims(False)
            x, y = cell(hh, ww)
            try:
                m.Symmetry[name].apply_to_move(m.Move(SymInt(x), SymInt(y)), size(hh, ww))
            except ValueError:
                S.prove("refused", z3.BoolVal(True))
                return
            S.prove("a shape-changing symmetry of a rectangular board is refused", z3.BoolVal(False))
        return h
    for n in names:
        if n not in KEEP:
            S.run(f"Symmetry.apply_to_move ({n}, rectangle)", refuse(n))

    def outside(name):
        def h():
            hh, ww = dims(True)
            c = ctx()
            x, y = c.fresh(I, "x"), c.fresh(I, "y")
            c.add(z3.Not(z3.And(x >= 0, x < ww, y >= 0, y < hh)))
            c.add(z3.Not(z3.And(x < 0, y < 0)))
            try:
                m.Symmetry[name].apply_to_move(m.Move(SymInt(x), SymInt(y)), size(hh, ww))
            except ValueError:
                S.prove("refused", z3.BoolVal(True))
                return
            S.prove("a move outside the board is refused", z3.BoolVal(False))
        return h
    for n in names:
        S.run(f"Symmetry.apply_to_move ({n}, outside)", outside(n))

    # ------------------------------------------------------------ the group
    def apply(name, x, y, hh, ww):
        mv = m.Symmetry[name].apply_to_move(m.Move(SymInt(x), SymInt(y)), size(hh, ww))
        return int_term(mv.x), int_term(mv.y)

    def image(ns, h, wd, kept):
        """Concrete 2 x 3 or 3 x 3 run of the real code, to name the element of the group."""
        def go(x, y):
            for n in ns:
                mv = m.Symmetry[n].apply_to_move(m.Move(x, y), (h, wd))
                x, y = mv.x, mv.y
            return int(x), int(y)
        t = [go(x, y) for y in range(h) for x in range(wd)]
        for k in kept:
            if t == [tuple(int(v) for v in (lambda q: (q.x, q.y))(m.Symmetry[k].apply_to_move(m.Move(x, y), (h, wd))))
                     for y in range(h) for x in range(wd)]:
                return k
        return None

    def group(square, kept):
        ch, cw = (3, 3) if square else (2, 3)

        def h():
            hh, ww = dims(square)
            x, y = cell(hh, ww)
            t = {n: apply(n, x, y, hh, ww) for n in kept}
            ident = image([], ch, cw, kept)
            S.prove("the identity belongs to them", z3.And(t[ident][0] == x, t[ident][1] == y) if ident else z3.BoolVal(False))
            inverse = 0
            for a in kept:
                found = False
                for b in kept:
                    u = image([a, b], ch, cw, kept)
                    two = apply(b, *t[a], hh, ww)
                    S.prove(f"{a} then {b} is again one of them",
                            z3.And(two[0] == t[u][0], two[1] == t[u][1]) if u else z3.BoolVal(False))
                    found |= u == ident and ident is not None
                inverse += found
            S.prove("each has an inverse", z3.BoolVal(inverse == len(kept)))
        return h
    S.run("group of the square", group(True, names))
    S.run("group of the rectangle", group(False, KEEP))

    # ------------------------------------------------------------ which symmetries are offered
    def offered(kind):
        def h():
            c = ctx()
            hh, ww = c.fresh(I, "height"), c.fresh(I, "width")
            c.add(z3.And(hh >= 1, ww >= 1))
            c.inputs.update(height=hh, width=ww)
            try:
                got = list(m.Symmetry.available_symmetries((SymInt(hh), SymInt(ww)), kind))
            except ValueError:
                S.prove("a kind is refused only where it would change the shape", z3.And(z3.BoolVal(kind != "default"), hh != ww))
                return
            got = [g.name for g in got]
            S.prove("at least one and none twice", z3.BoolVal(len(got) > 0 and len(set(got)) == len(got)))
            S.prove("the identity is offered", z3.BoolVal("IDENTITY" in got))
            S.prove("only symmetries of the documented kind", z3.BoolVal(set(got) <= set(KINDS[kind])))
            S.prove("rectangular boards keep their shape", z3.Or(hh == ww, z3.BoolVal(set(got) <= set(KEEP))))
            if kind == "default":
                S.prove("all symmetries of the board are offered",
                        z3.And(z3.Implies(hh == ww, z3.BoolVal(set(got) == set(MAPS))),
                               z3.Implies(hh != ww, z3.BoolVal(set(got) == set(KEEP)))))
        return h
    for k in KINDS:
        S.run(f"Symmetry.available_symmetries ({k})", offered(k))

    def unknown():
        try:
            m.Symmetry.available_symmetries((5, 5), "no such kind")
        except ValueError:
            S.prove("an unknown kind is refused", z3.BoolVal(True))
            return
        S.prove("an unknown kind is refused", z3.BoolVal(False))
    S.run("Symmetry.available_symmetries (unknown kind)", unknown)

    # ------------------------------------------------------------ one sample
    def flat_cell(a, hh, ww, y, x):
        """Element y*ww + x of a flat array of hh*ww board cells and a tail."""
        if a.segs and len(a.segs) == 2 and a.segs[0].ndim == 2 if a.segs else False:
            b = a.segs[0]
            if same(b.shape[0], SymInt(hh)) and same(b.shape[1], SymInt(ww)):
                return b.fn(y, x)
        return a.fn(y * ww + x)

    def sample_harness(name, square, flat, fixed, side, sparse, position, drawn, kind=True):
        def h():
            c = ctx()
            hh, ww = dims(square)
            x, y = cell(hh, ww)
            ch = c.fresh(I, "channels")
            c.add(ch >= 1)
            k = c.fresh(I, "channel")
            c.add(z3.And(k >= 0, k < ch))
            board = SArr.fresh([ch, hh, ww], "board")
            pol = SArr.fresh([hh, ww], "policy")
            tail = c.fresh(I, "pass_target")
            stm = c.fresh(I, "stm")
            value = SArr.fresh([3], "value")
            data = {"board_size": size(hh, ww), "board_input": board, "stm_input": SArr.of([stm]), "value_target": value,
                    "policy_target": board_and_tail(pol, tail) if flat else pol, "rule_index": 2, "ply": 7}
            feat = SArr.fresh([12, hh, ww], "feature")
            if sparse:
                data["sparse_feature_input"] = feat
                data["sparse_feature_dim"] = SArr.fresh([12], "dims")
            n = c.fresh(I, "moves")
            c.add(n >= 0)
            mx, my, ps = (z3.Function(f"move_{q}", I, s) for q, s in (("x", I), ("y", I), ("pass", B)))

            def move_at(j):
                if c.decide(ps(j)):
                    return m.Move.PASS
                c.add(z3.And(mx(j) >= 0, mx(j) < ww, my(j) >= 0, my(j) < hh))
                return m.Move(SymInt(mx(j)), SymInt(my(j)))
            if position:
                data["position"] = Moves(n, move_at)
            before = dict(data)
            offered = [s.name for s in m.Symmetry.available_symmetries((SymInt(hh), SymInt(ww)),
                                                                       "default" if kind is True else kind)] if name else []
            index = offered.index(name) if name else None

            def draw(count, *a, **kw):
                S.prove("the symmetry is drawn among those offered", int_term(count) == len(offered))
                return index, 0
            core.uniform_below = draw
            m.hashlib = types.SimpleNamespace(sha256=lambda *a: types.SimpleNamespace(update=lambda b: None, digest=lambda: b"d"))
            ph = pw = None
            kw = {}
            if fixed:
                ph, pw = c.fresh(I, "padded_h"), c.fresh(I, "padded_w")
                c.add(z3.And(ph >= hh, pw >= ww))
                kw["fixed_board_size"] = (SymInt(ph), SymInt(pw))
            out = m.SamplePostProcessor().process_sample(
                data, fixed_side_input=side, symmetry_type=kind if name else None, symmetry_index=None if drawn else index, **kw)
            S.prove("the given sample is untouched", z3.BoolVal(set(data) == set(before) and all(data[q] is before[q] for q in before)))
            want = (set(before) - {"position"}) | ({"position_string", "last_move"} if position else set())
            S.prove("no field is added or lost", z3.BoolVal(set(out) == want))
            S.prove("other fields are kept", z3.And(
                z3.BoolVal(out["rule_index"] == 2 and out["ply"] == 7),
                *[out[q].fn(z3.IntVal(j)) == before[q].fn(z3.IntVal(j)) for q, l in (("board_size", 2), ("stm_input", 1)) for j in range(l)]))
            nx, ny = moved(name or "IDENTITY", x, y, hh, ww)
            swapped = z3.And(z3.BoolVal(bool(side)), stm > 0)
            oh, ow = (ph, pw) if fixed else (hh, ww)
            ob = out["board_input"]
            S.prove("the board keeps its planes", shape_is(ob, ch, oh, ow))
            S.prove("the board is moved by the symmetry", ob.fn(k, ny, nx) == board.fn(z3.If(swapped, ch - 1 - k, k), y, x))
            op = out["policy_target"]
            if flat:
                S.prove("the policy keeps its layout", shape_is(op, oh * ow + 1))
                S.prove("the policy is moved by the same symmetry", flat_cell(op, oh, ow, ny, nx) == pol.fn(y, x))
                last = op.segs[1].t if op.segs and len(op.segs) == 2 and op.segs[0].ndim == 2 else op.fn(oh * ow)
                S.prove("the pass target stays last", last == tail)
            else:
                S.prove("the policy keeps its layout", shape_is(op, oh, ow))
                S.prove("the policy is moved by the same symmetry", op.fn(ny, nx) == pol.fn(y, x))
            if sparse:
                f = out["sparse_feature_input"]
                q = c.fresh(I, "feature_row")
                c.add(z3.And(q >= 0, q < 12))
                src = z3.If(swapped, SArr.of([z3.IntVal(v) for v in SIDE]).fn(q), q)
                S.prove("the sparse features keep their planes", shape_is(f, 12, oh, ow))
                S.prove("the sparse features are moved by the same symmetry", f.fn(q, ny, nx) == feat.fn(src, y, x))
            if fixed:
                py, px = c.fresh(I, "pad_y"), c.fresh(I, "pad_x")
                c.add(z3.And(py >= 0, py < ph, px >= 0, px < pw, z3.Or(py >= hh, px >= ww)))
                S.prove("padding is empty", z3.And(ob.fn(k, py, px) == 0, (flat_cell(op, oh, ow, py, px) if flat else op.fn(py, px)) == 0))
            v = [value.fn(z3.IntVal(j)) for j in range(3)]
            ov = [out["value_target"].fn(z3.IntVal(j)) for j in range(3)]
            S.prove("values change sides only", z3.And(ov[0] == z3.If(swapped, v[1], v[0]), ov[1] == z3.If(swapped, v[0], v[1]), ov[2] == v[2]))
            if position:
                text, last = out["position_string"], out["last_move"]
                if not isinstance(text, Text):
                    raise Unsupported("the moves are written in another way")
                S.prove("as many moves", int_term(text.moves.n) == n)
                j = c.fresh(I, "move_index")
                empty = c.decide(n <= 0)
                if not empty:
                    c.add(z3.And(j >= 0, j < n))
                    letters = text.moves.at(j)
                    mv = letters.move
                    if mv is m.Move.PASS or c.decide(ps(j)):
                        S.prove("a recorded pass stays a pass", z3.And(ps(j), z3.BoolVal(bool(mv.is_pass))))
                    else:
                        wx, wy = moved(name or "IDENTITY", mx(j), my(j), hh, ww)
                        S.prove("a recorded move is moved by the same symmetry", z3.And(int_term(mv.x) == wx, int_term(mv.y) == wy))
                    e = n - 1
                    lx, ly = (int_term(last[q] if isinstance(last[q], SymInt) else int(last[q])) for q in (0, 1))
                    wx, wy = moved(name or "IDENTITY", mx(e), my(e), hh, ww)
                    S.prove("the last move is the moved last move", z3.If(ps(e), z3.And(lx == -1, ly == -1), z3.And(lx == wx, ly == wy)))
                else:
                    S.prove("no last move", z3.BoolVal(int(last[0]) == -1 and int(last[1]) == -1))
        return h
    import itertools
    names_of = {True: names, False: KEEP}
    variety = itertools.cycle([(True, False, True, True, False), (False, True, False, False, True), (True, True, True, False, False),
                               (False, True, True, True, False), (True, False, False, False, True), (False, False, True, True, False)])
    full = S.tier == "thorough" if hasattr(S, "tier") else False
    for square in (True, False):
        for n in names_of[square]:
            cases = list(itertools.product((True, False), repeat=5)) if full else [next(variety) for _ in range(2)]
            for flat, fixed, side, sparse, drawn in cases:
                S.run(f"process_sample ({n}, {'square' if square else 'rectangle'}, flat={flat}, fixed={fixed}, side={side}, "
                      f"sparse={sparse}, drawn={drawn})", sample_harness(n, square, flat, fixed, side, sparse, False, drawn))
            S.run(f"process_sample ({n}, {'square' if square else 'rectangle'}, moves)",
                  sample_harness(n, square, False, True, False, False, True, False))
    for flat in (True, False):
        S.run(f"process_sample (no symmetry, flat={flat})", sample_harness(None, False, flat, True, True, True, False, False))
    for kind in ("rotate", "flip", "flip_diag_rotate180"):
        for n in KINDS[kind]:
            S.run(f"process_sample ({kind}: {n})", sample_harness(n, True, True, False, False, True, False, True, kind))

    # ------------------------------------------------------------ a batch, row by row
    class Row(dict):
        """What process_sample made of row number `row`."""
        def __init__(self, row, keys):
            dict.__init__(self, {k: Cell(k, row) for k in keys})
            self.row = row

    class Cell(m.np.ndarray):
        def __new__(cls, key, row):
            o = m.np.ndarray.__new__(cls, ())
            o.key, o.row = key, row
            return o

    class Rows:
        """The processed rows so far (row i at position i)."""
        __pyvc_type__ = list

        def __init__(self, n, keys):
            self.n, self.keys = n, keys

        def append(self, sample):
            S.prove("rows are appended in order", z3.And(z3.BoolVal(type(sample) is Row), sample.row == self.n))
            self.n = z3.simplify(self.n + 1)

        def __getitem__(self, k):
            if ctx().decide(self.n <= int(k)):
                raise IndexError("list index out of range")
            return Row(z3.IntVal(int(k)), self.keys)

    class Column:
        """[f(row) for row in rows]"""
        def __init__(self, n, f):
            self.n, self.f = n, f

        def probe(self):
            return self.f(ctx().fresh(I, "row"))

        def __getitem__(self, k):
            return self.f(z3.IntVal(int(k)))

    class Stacked:
        def __init__(self, n, key, row):
            self.n, self.key, self.row = n, key, row

    def rows_inv(L):
        s = L.samples
        if isinstance(s, list):
            yield "no row yet", z3.BoolVal(len(s) == 0)
            yield "at the first row", int_term(L.i) == 0
        else:
            yield "one result per row so far", s.n == int_term(L.i)
    key_names = ["board_size", "board_input", "stm_input", "value_target", "policy_target", "sparse_feature_dim", "rule_index"]
    bw, bm = load({f"{DU}:SamplePostProcessor.process_batch#0": LoopSpec(
        inv=rows_inv, types={"samples": lambda v: Rows(ctx().fresh(I, "rows_done"), key_names), "sample": lambda v: None,
                             "key": lambda v: None, "value": lambda v: None, "spec": lambda v: None})})

    class Spec:
        def __init__(self, scope):
            self.scope = scope

    def h_batch(given, side, sym):
        def h():
            c = ctx()
            n = c.fresh(I, "batch")
            c.add(n >= 1)
            c.inputs["batch"] = n
            core.FIELD_SPECS = {k: Spec("batch_shared" if k == "sparse_feature_dim" else "per_sample") for k in key_names}
            hh, ww = dims(False)
            data = {"board_size": SArr.fresh([n, 2], "sizes"), "board_input": SArr.fresh([n, 2, hh, ww], "boards"),
                    "stm_input": SArr.fresh([n, 1], "stm"), "value_target": SArr.fresh([n, 3], "values"),
                    "policy_target": SArr.fresh([n, hh, ww], "policies"), "sparse_feature_dim": SArr.fresh([n, 12], "dims"),
                    "rule_index": SArr.fresh([n], "rules")}
            indices = SArr.fresh([n], "indices") if given else None
            kindarg = "rotate" if sym else None

            class Post(bm.SamplePostProcessor):
                def process_sample(self, sample, fixed_side_input=False, fixed_board_size=None, symmetry_type=None,
                                   symmetry_index=None, drop_extra=False):
                    S.prove("options reach every row", z3.BoolVal(
                        fixed_side_input is side and fixed_board_size is None and symmetry_type == kindarg and not drop_extra))
                    S.prove("every field reaches the row", z3.BoolVal(set(sample) == set(data)))
                    a = [c.fresh(I, "at") for _ in range(3)]
                    r = ctx().fresh(I, "which_row")
                    # the row number is what the sample's board names it
                    row = ctx().ghost["row"]()
                    for k, v in data.items():
                        if k == "sparse_feature_dim":
                            S.prove("shared fields are handed over whole", z3.BoolVal(sample[k] is v))
                            continue
                        got = sample[k]
                        at = a[:v.ndim - 1]
                        term = got.fn(*at) if isinstance(got, SArr) else int_term(got)
                        S.prove(f"{k} of the same row", term == v.fn(row, *at))
                    if given:
                        S.prove("its own symmetry", int_term(symmetry_index) == indices.fn(row))
                    else:
                        S.prove("the symmetry is drawn per row", z3.BoolVal(symmetry_index is None))
                    return Row(row, key_names)
            base = bm.__dict__["__pyvc_comp__"]

            def comp(kind, f, src, cond):
                if isinstance(src, Rows) and cond is None:
                    return Column(src.n, lambda i: f(Row(i, key_names)))
                if isinstance(src, Column) and cond is None:
                    return Column(src.n, lambda i: f(src.f(i)))
                return base(kind, f, src, cond)
            bm.__dict__["__pyvc_comp__"] = comp
            bm.all = lambda v: bool(v.probe()) if isinstance(v, Column) else shims.SHIMS.get("all", all)(v)

            class NP2(NPModule):
                def stack(self, values, axis=0):
                    if not isinstance(values, Column) or axis != 0:
                        raise Unsupported("stacking something else")
                    i = c.fresh(I, "stacked_row")
                    cell = values.f(i)
                    S.prove("stacked rows keep their order", z3.And(z3.BoolVal(isinstance(cell, Cell)), cell.row == i))
                    return Stacked(values.n, cell.key, i)

                def ascontiguousarray(self, a, dtype=None):
                    return a if isinstance(a, Cell) else NPModule.ascontiguousarray(self, a, dtype)

                def asarray(self, a, dtype=None, **kw):
                    return a if isinstance(a, Cell) else NPModule.asarray(self, a, dtype, **kw)
            bm.np = NP2()
            done = []

            def current():
                return done[-1]
            c.ghost["row"] = current
            real_range = bm.__dict__.get("range", range)
            orig = Post.process_sample

            def tracked(self, sample, **kw):
                # sample fields are row views; recover the row from the loop position
                done.append(c.ghost["loop_row"]())
                return orig(self, sample, **kw)
            Post.process_sample = tracked
            c.ghost["loop_row"] = lambda: c.ghost["samples"].n
            make = Rows.__init__

            def init(self, k, keys):
                make(self, k, keys)
                c.ghost["samples"] = self
            Rows.__init__ = init
            try:
                out = Post().process_batch(data, fixed_side_input=side, symmetry_type=kindarg, symmetry_indices=indices)
            finally:
                Rows.__init__ = make
            if not side and not sym:
                S.prove("nothing to do leaves the batch", z3.BoolVal(out is data))
                return
            S.prove("every field comes back", z3.BoolVal(set(out) == set(data)))
            for k, v in out.items():
                if k == "sparse_feature_dim":
                    S.prove("a shared field comes from the rows", z3.BoolVal(isinstance(v, Cell) and v.key == k))
                else:
                    S.prove(f"{k} holds all rows of {k}", z3.And(z3.BoolVal(isinstance(v, Stacked) and v.key == k), v.n == n))
        return h
    for given, side, sym in ((True, False, True), (False, True, True), (False, True, False), (False, False, False), (True, True, True)):
        S.run(f"process_batch (indices={given}, side={side}, symmetry={sym})", h_batch(given, side, sym))

    def h_short():
        c = ctx()
        n, k = c.fresh(I, "batch"), c.fresh(I, "indices")
        c.add(z3.And(n >= 1, k >= 0, k != n))
        data = {"board_input": SArr.fresh([n, 2, 5, 5], "boards")}
        try:
            bm.SamplePostProcessor().process_batch(data, symmetry_type="default", symmetry_indices=SArr.fresh([k], "indices"))
        except ValueError:
            S.prove("refused", z3.BoolVal(True))
            return
        S.prove("another number of symmetries than rows is refused", z3.BoolVal(False))
    S.run("process_batch (too few indices)", h_short)

    # ------------------------------------------------------------ the vectorised reader
    decode(S, w, m, dims, moved, shape_is)


def decode(S, w, m, dims, moved, shape_is):
    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return type(k, (), {})
    du = types.ModuleType("du")
    du.__dict__.update(m.__dict__)
    utils = types.ModuleType("utils")
    utils.data_utils = m
    dw = World(stubs={"torch": Dummy("torch"), "utils": utils, "utils.data_utils": m,
                      **{n: Dummy(n) for n in ("dataset.core", "dataset.stream", "dataset.planner", "dataset.source_dataset",
                                               "dataset.packed", "dataset.source_protocol", "dataset.npz_source")}})
    d = dw.module(DEC)
    d.np = NPModule()
    cls = next(v for k, v in vars(d).items() if isinstance(v, type) and hasattr(v, "_post_process_vectorized"))

    def vector(square, kind, keep, flat, side, k0, packed):
        def h():
            c = ctx()
            hh, ww = dims(square)
            n = c.fresh(I, "rows")
            r, ch, q = c.fresh(I, "row"), c.fresh(I, "channels"), c.fresh(I, "channel")
            y, x = c.fresh(I, "y"), c.fresh(I, "x")
            c.add(z3.And(n >= 1, r >= 0, r < n, ch >= 1, q >= 0, q < ch, x >= 0, x < ww, y >= 0, y < hh))
            c.ghost["rows"] = [r]
            boards, pols = SArr.fresh([n, ch, hh, ww], "boards"), SArr.fresh([n, hh, ww], "policies")
            tail = z3.Function("tails", I, I)
            stm, values = SArr.fresh([n, 1], "stm"), SArr.fresh([n, 3], "values")
            data = {"board_size": SArr.fresh([n, 2], "sizes"), "board_input": boards, "stm_input": stm, "value_target": values,
                    "policy_target": flat_rows(pols, lambda i: tail(i)) if flat else pols}
            before = dict(data)
            draws = SArr.fresh([n], "draws")
            c.add(draws.fn(r) == k0)

            def draw(count, *a):
                S.prove("the symmetry is drawn among those offered", int_term(count) == len(keep))
                return draws
            for f in ("_uniform_below_for_packed_processed_rows_v2", "_uniform_below_for_processed_sample_keys_v2"):
                setattr(d, f, draw)
            d.post_process_batch = lambda dd, fixed_side_input=False, symmetry_type=None, **kw: dd if not (
                fixed_side_input or symmetry_type) else (_ for _ in ()).throw(Unsupported("post-processing by row"))
            refs = types.SimpleNamespace(sample_keys=(), file_indices=0, rows=0, **({"content_digests": ()} if packed else {}))

            class Refs:
                def __pyvc_len__(self):
                    return SymInt(n)

                def __iter__(self):
                    return iter(())

                def __getattr__(self, k):
                    return getattr(refs, k)
            me = types.SimpleNamespace(fixed_side_input=side, apply_symmetry=kind, runtime_context=types.SimpleNamespace(seed=5),
                                       _active_epoch=3)
            out = cls._post_process_vectorized(me, data, Refs())
            S.prove("no field is added or lost", z3.BoolVal(set(out) == set(before)))
            S.prove("board sizes and sides are kept", z3.BoolVal(out["board_size"] is before["board_size"]
                                                                 and out["stm_input"] is before["stm_input"]))
            name = keep[k0] if keep else "IDENTITY"
            nx, ny = moved(name, x, y, hh, ww)
            swapped = z3.And(z3.BoolVal(bool(side)), stm.fn(r, z3.IntVal(0)) > 0)
            ob, op, ov = out["board_input"], out["policy_target"], out["value_target"]
            S.prove("the boards keep their planes", shape_is(ob, n, ch, hh, ww))
            S.prove("each board is moved by its symmetry", ob.fn(r, q, ny, nx) == boards.fn(r, z3.If(swapped, ch - 1 - q, q), y, x))
            if flat:
                S.prove("the policies keep their layout", shape_is(op, n, hh * ww + 1))
                sg = op.rowsegs
                if sg and len(sg) == 2 and sg[0].ndim == 3 and same(sg[0].shape[2], SymInt(ww)):
                    S.prove("each policy is moved by the same symmetry", sg[0].fn(r, ny, nx) == pols.fn(r, y, x))
                    t = sg[1].t
                    S.prove("the pass target stays last", (t(r) if callable(t) else t) == tail(r))
                else:
                    S.prove("each policy is moved by the same symmetry", op.fn(r, ny * ww + nx) == pols.fn(r, y, x))
                    S.prove("the pass target stays last", op.fn(r, hh * ww) == tail(r))
            else:
                S.prove("the policies keep their layout", shape_is(op, n, hh, ww))
                S.prove("each policy is moved by the same symmetry", op.fn(r, ny, nx) == pols.fn(r, y, x))
            v = [values.fn(r, z3.IntVal(j)) for j in range(3)]
            g = [ov.fn(r, z3.IntVal(j)) for j in range(3)]
            S.prove("values change sides only", z3.And(g[0] == z3.If(swapped, v[1], v[0]), g[1] == z3.If(swapped, v[0], v[1]), g[2] == v[2]))
        return h
    full = getattr(S, "tier", "quick") == "thorough"
    for square, kind in ((False, True), (True, "rotate"), (True, "flip_diag_rotate180"), (True, True)):
        keep = [s.name for s in m.Symmetry.available_symmetries((3, 3) if square else (2, 3), "default" if kind is True else kind)]
        for k0, n in enumerate(keep):
            for flat, side in (((True, True), (False, False)) if full or len(keep) < 8 else ((k0 % 2 == 0, False),)):
                S.run(f"_post_process_vectorized ({kind}, {'square' if square else 'rectangle'}, {n}, flat={flat}, side={side})",
                      vector(square, kind, keep, flat, side, k0, flat))
    S.run("_post_process_vectorized (side only)", vector(False, False, [], False, True, 0, False))


if __name__ == "__main__":
    from specs.common import main
    main(prove)
