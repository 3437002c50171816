"""W22: parameters with a declared range are in it whenever a training step computes with them.

Contracts on `resolve_weight_clipping`, `apply_weight_clipping` (utils/training_utils.py), `_setup_weight_clipping` and the start of `_run_train_step`
(trainer/base.py).  One cell of one parameter is watched (arbitrary, so the result holds for every cell of every parameter); any number of models, groups and
parameters, with and without a virtual parameter.  Tensors are the watched cell's real value (rounding of min - virtual is not modelled).
"""
import types

import z3

from pyvc.engine import ctx
from pyvc.load import World, LoopSpec
from pyvc.values import LazySeq, SymBool, SymInt, SymList, TInt, Unsupported, int_term, seq_at, sym_len
from specs.common import trainer_world

TU, MOD = "utils.training_utils", "trainer.base"
I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
LOW, HIGH = (z3.Function(k, I, R) for k in ("low", "high"))       # per group
COUNT = z3.Function("parameters_of", I, I)
VIRTUAL = z3.Function("has_virtual", I, B)
TILED = z3.Function("tiled_virtual", I, I, R)                     # group, place -> the virtual parameter, tiled, at the watched cell


def claim(label, t):
    ctx().session.prove(label, t if z3.is_expr(t) else z3.BoolVal(bool(t)))


def G():
    return ctx().ghost["G"]


class Ghost:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"{type(self).__name__}.{k}")


class Heap(Ghost):
    __pyvc_heap__ = True


class Seq(LazySeq):
    __pyvc_heap__ = False

    def __init__(self, n, f):
        self.n, self.f = n, f

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        ctx().add(z3.And(i >= 0, i < self.n))
        return self.f(i)

    def __iter__(self):
        raise Unsupported("an unrolled sequence")


class Bound(Ghost):
    """A number of the declaration."""
    def __init__(self, t):
        self.t = t


class Axis(Ghost):
    """The extent of one axis of a parameter, a multiple of its virtual parameter's."""
    def __init__(self, kind, place, axis):
        self.kind, self.place, self.axis = kind, place, axis

    def __floordiv__(self, o):
        if self.kind == "parameter" and isinstance(o, Axis) and o.kind == "virtual" and o.axis == self.axis and o.place == self.place:
            return Repeats(self.place, self.axis)
        raise Unsupported("another division of extents")


class Repeats(Ghost):
    def __init__(self, place, axis):
        self.place, self.axis = place, axis


class Shape(tuple):
    pass


def shape(kind, place):
    return Shape(Axis(kind, place, k) for k in range(G().ndim))


class Value(Ghost):
    """A tensor of a parameter's shape: its term at the watched cell."""
    def __init__(self, place, t):
        self.place, self.t = place, t

    @property
    def shape(self):
        return shape("parameter", self.place)

    def new_full(self, s, v):
        if not isinstance(s, Shape):
            raise Unsupported("another shape")
        return Value(self.place, v.t)

    def __sub__(self, o):
        return Value(self.place, self.t - o.t)

    def __add__(self, o):
        return Value(self.place, self.t + o.t)

    def clamp(self, lo, hi):
        return Value(self.place, torch_min(torch_max(self, lo), hi).t)


def torch_max(a, b):
    return Value(a.place, z3.If(a.t >= b.t, a.t, b.t))


def torch_min(a, b):
    return Value(a.place, z3.If(a.t <= b.t, a.t, b.t))


class Data(Value):
    """The storage of a parameter: what is read and written at the watched cell, if it is the watched parameter."""
    def __init__(self, place):
        self.place = place

    @property
    def mine(self):
        i, j = self.place
        return z3.And(i == G().group, j == G().index)

    @property
    def t(self):
        return z3.If(self.mine, G().value, OTHER(*self.place))

    def _put(self, t):
        g = G()
        g.value = z3.simplify(z3.If(self.mine, t, g.value))

    def clamp_(self, lo, hi):
        v = self.t
        v = z3.If(v < lo.t, lo.t, v)
        self._put(z3.If(v > hi.t, hi.t, v))
        return self

    def copy_(self, o):
        self._put(o.t)
        return self


OTHER = z3.Function("another_value", I, I, R)


class Param(Ghost):
    def __init__(self, *place):
        self.place = place

    @property
    def data(self):
        return Data(self.place)


class Virtual(Ghost):
    def __init__(self, *place):
        self.place = place

    @property
    def ndim(self):
        return G().ndim

    @property
    def shape(self):
        return shape("virtual", self.place)

    def repeat(self, *n):
        claim("a virtual parameter is tiled over the whole parameter", len(n) == G().ndim and all(isinstance(x, Repeats) and x.axis == k and x.place == self.place for k, x in enumerate(n)))
        return Value(self.place, TILED(*self.place))


def applying(S):
    F = TU + ":apply_weight_clipping"
    AT = {}

    def done(L, low=None):
        """The watched value: as it was before its turn, clamped after it."""
        g = G()
        i, j = g.at

        return z3.Or(g.group < i, z3.And(g.group == i, g.index < j))

    def state(g, after):
        v = g.before
        low = LOW(g.group) - g.shift
        high = HIGH(g.group) - g.shift
        clamped = z3.If(v < low, low, z3.If(v > high, high, v))
        return g.value == z3.If(z3.And(g.inside, after), clamped, v)

    def groups(L):
        g = G()
        i = int_term(L.i)
        AT["group"] = i
        yield "a cell is clamped when its parameter's group has been seen", state(g, g.group < i)

    def params(L):
        g = G()
        i, j = g.now, int_term(L.i)
        yield "within a group, when its parameter has been seen", state(g, z3.Or(g.group < i, z3.And(g.group == i, g.index < j)))
    havoc = lambda L: [("attr", G(), "value", lambda v: ctx().fresh(R, "value"))]
    skip = lambda v: None
    w = World({F + "#0": LoopSpec(inv=groups, havoc=havoc, types={k: skip for k in ("min_weight", "max_weight", "params", "virtual_params", "p", "p_data", "virtual", "virtual_param", "min_weight_t", "max_weight_t")}),
               F + "#1": LoopSpec(inv=params, havoc=havoc, types={"p": skip}),
               F + "#2": LoopSpec(inv=params, havoc=havoc, types={k: skip for k in ("p", "p_data", "virtual", "virtual_param", "min_weight_t", "max_weight_t")})})
    m = w.module(TU)
    t = Ghost()
    t.max, t.min = torch_max, torch_min
    m.torch = t
    zip0 = m.__dict__.get("zip", zip)

    def zipped(*xs):
        if len(xs) == 2 and all(isinstance(x, Seq) for x in xs):
            a, b = xs
            if not a.n.eq(b.n):
                raise Unsupported("sequences of different lengths")
            return Seq(a.n, lambda i: (a.at(i), b.at(i)))
        return zip0(*xs)
    m.zip = zipped

    def h(ndim):
        def go():
            c = ctx()
            g = c.ghost["G"] = Heap()
            g.ndim = ndim
            n = c.fresh(I, "groups")
            g.group, g.index, g.inside = c.fresh(I, "its_group"), c.fresh(I, "its_place"), c.fresh(B, "is_declared")
            g.before = g.value = c.fresh(R, "value_before")
            g.now = z3.IntVal(0)
            c.add(z3.And(n >= 0, z3.Implies(g.inside, z3.And(0 <= g.group, g.group < n, 0 <= g.index, g.index < COUNT(g.group), LOW(g.group) <= HIGH(g.group))),
                         z3.Implies(z3.Not(g.inside), g.group == -1)))
            g.shift = z3.If(VIRTUAL(g.group), TILED(g.group, g.index), z3.RealVal(0))

            def group(i):
                g.now = i
                ctx().add(COUNT(i) >= 0)
                ps = Seq(COUNT(i), lambda j: Param(i, j))
                v = Seq(COUNT(i), lambda j: Virtual(i, j)) if ctx().decide(VIRTUAL(i)) else None
                return Bound(LOW(i)), Bound(HIGH(i)), ps, v
            m.apply_weight_clipping(Seq(n, group))
            low, high, v = LOW(g.group), HIGH(g.group), g.value + g.shift
            claim("a declared parameter, with its virtual parameter added, is in its range", z3.Implies(g.inside, z3.And(low <= v, v <= high)))
            claim("a value in its range is left alone", z3.Implies(z3.And(g.inside, low <= g.before + g.shift, g.before + g.shift <= high), g.value == g.before))
            claim("every other value is moved to the nearest end", z3.Implies(g.inside, z3.And(z3.Implies(g.before + g.shift < low, v == low), z3.Implies(g.before + g.shift > high, v == high))))
            claim("a parameter that is not declared is left alone", z3.Implies(z3.Not(g.inside), g.value == g.before))
        return go
    for nd in (1, 2, 4):
        S.run(f"apply_weight_clipping[{nd} axes]", h(nd))


class Bag(Seq):
    """A list that grows: what it has, and what this iteration adds."""
    def __init__(self, what):
        self.what, self.added = what, []
        t = ctx().fresh(I, "collected")
        ctx().add(t >= 0)
        super().__init__(t, lambda i: (what, i))

    def append(self, x):
        self.added.append([x])

    def extend(self, x):
        self.added.append(x)


NAMED = z3.Function("name_of", I, I, I, I)          # group, 0 parameter / 1 virtual, place -> name
VCOUNT = z3.Function("virtuals_of", I, I)


def resolving(S):
    F = TU + ":resolve_weight_clipping"

    class Name(Ghost):
        def __init__(self, t):
            self.t = t

    class Called(Ghost):
        """The parameter of a name."""
        def __init__(self, t):
            self.t = t

        @staticmethod
        def __pyvc_T__():
            t = TInt()
            t.wrap, t.unwrap = lambda terms: Called(terms[0]), lambda v: [v.t]
            return t

    class Named(Ghost):
        def __getitem__(self, k):
            if not isinstance(k, Name):
                raise Unsupported("another name")
            return Called(k.t)

    class Declared(Ghost):
        def __init__(self, i):
            self.i = i

        def __getitem__(self, k):
            i = self.i
            if k == "params":
                return Seq(COUNT(i), lambda j: Name(NAMED(i, 0, j)))
            if k == "virtual_params":
                if not ctx().decide(VIRTUAL(i)):
                    raise KeyError(k)
                return Seq(VCOUNT(i), lambda j: Name(NAMED(i, 1, j)))
            if k in ("min_weight", "max_weight"):
                return Bound((LOW if k == "min_weight" else HIGH)(i))
            raise Unsupported(f"a declaration's {k}")

        def __contains__(self, k):
            if k != "virtual_params":
                raise Unsupported("another test of a declaration")
            return ctx().decide(VIRTUAL(self.i))

        def get(self, k, d=None):
            return self[k] if k != "virtual_params" or k in self else d

    def inv(L):
        b = L.resolved
        if isinstance(b, list):
            if b != []:
                raise Unsupported("groups are collected otherwise")
            return
        if not isinstance(b, Bag):
            raise Unsupported("groups are collected otherwise")
        if not b.added:
            return
        i = z3.simplify(int_term(L.i) - 1)
        r = b.added[0][0] if len(b.added) == 1 and len(b.added[0]) == 1 else None
        ok = isinstance(r, tuple) and len(r) == 4 and isinstance(r[0], Bound) and isinstance(r[1], Bound) and isinstance(r[2], (LazySeq, SymList)) and (r[3] is None or isinstance(r[3], (LazySeq, SymList)))
        yield "one group for each declaration", z3.BoolVal(ok)
        if not ok:
            return
        yield "with the declared range", z3.And(r[0].t == LOW(i), r[1].t == HIGH(i))
        j = ctx().fresh(I, "place")
        ctx().add(z3.And(j >= 0, j < COUNT(i)))
        p = seq_at(r[2], j)
        yield "over the declared parameters, in order", z3.And(int_term(sym_len(r[2])) == COUNT(i), p.t == NAMED(i, 0, j))
        yield "a virtual parameter is one that is declared", z3.BoolVal(r[3] is not None) == VIRTUAL(i)
        if r[3] is not None:
            yield "each parameter has its virtual parameter", z3.And(int_term(sym_len(r[3])) == COUNT(i), VCOUNT(i) == COUNT(i), seq_at(r[3], j).t == NAMED(i, 1, j))
    skip = lambda v: None
    w = World({F + "#0": LoopSpec(inv=inv, types={"resolved": lambda v: Bag("groups"), **{k: skip for k in ("group", "params", "virtual_params")}})})
    m = w.module(TU)
    dict0 = m.__dict__.get("dict", dict)
    m.dict = lambda *a, **k: a[0] if len(a) == 1 and not k and isinstance(a[0], Named) else dict0(*a, **k)

    def go():
        n = ctx().fresh(I, "declarations")
        ctx().add(n >= 0)

        def decl(i):
            ctx().add(z3.And(COUNT(i) >= 0, VCOUNT(i) >= 0))
            return Declared(i)
        try:
            r = m.resolve_weight_clipping(Named(), Seq(n, decl))
        except ValueError:
            return claim("refused", True)
        claim("all groups are returned", isinstance(r, Bag) and not r.added)
    S.run("resolve_weight_clipping", go)


def collecting(S):
    N = MOD + ":BaseTrainer._setup_weight_clipping"
    HAS = z3.Function("declares_ranges", I, B)

    class Net(Ghost):
        def __init__(self, i, bare):
            self.i, self.bare = i, bare

        def named_parameters(self):
            if not self.bare:
                raise Unsupported("names of a wrapped model")
            return ("named", self.i)

        @property
        def weight_clipping(self):
            return ("declared", self.i)

    def inv(L):
        b = L.self._weight_clip_groups
        if not isinstance(b, Bag):
            if b != []:
                raise Unsupported("the groups are collected otherwise")
            return
        if b.fresh:
            b.fresh = False
            return
        i = z3.simplify(int_term(L.i) - 1)
        ok = len(b.added) <= 1 and all(isinstance(x, tuple) and x[0] == "resolved" for x in b.added)
        yield "a model's groups are taken once", z3.BoolVal(ok)
        yield "a model that declares ranges has them taken", z3.BoolVal(len(b.added) == 1) == HAS(i)
        if b.added and ok:
            _, names, declared = b.added[0]
            yield "its own ranges for its own parameters", z3.And(names[1] == i, declared[1] == i)

    def havoc(L):
        def bag(v):
            b = Bag("groups")
            b.fresh = True
            return b
        return [("attr", L.self, "_weight_clip_groups", bag)]
    m = trainer_world({N + "#0": LoopSpec(inv=inv, havoc=havoc, types={"m": lambda v: None, "unwrapped": lambda v: None})}).module(MOD)
    m.resolve_weight_clipping = lambda names, declared: ("resolved", names, declared)
    hasattr0 = m.__dict__.get("hasattr", hasattr)

    def has(o, k):
        if isinstance(o, Net):
            if k != "weight_clipping":
                raise Unsupported(f"hasattr {k}")
            return ctx().decide(HAS(o.i))
        return hasattr0(o, k)
    m.hasattr = has

    def go():
        n = ctx().fresh(I, "models")
        ctx().add(n >= 0)

        class Models(Ghost):
            def values(self):
                return Seq(n, lambda i: Net(i, False))

            def items(self):
                return Seq(n, lambda i: (f"m", Net(i, False)))

        class Trainer(Heap):
            _setup_weight_clipping = m.BaseTrainer.__dict__["_setup_weight_clipping"]

            def _unwrap(self, x):
                return Net(x.i, True)
        x = Trainer()
        x.models = Models()
        x._weight_clip_groups = ["left over"]
        x._setup_weight_clipping()
        claim("the groups of an earlier run are dropped, the models' collected", isinstance(x._weight_clip_groups, Bag) and not x._weight_clip_groups.added or x._weight_clip_groups == [])
    S.run("_setup_weight_clipping", go)


class Stop(Exception):
    pass


def stepping(S):
    m = trainer_world().module(MOD)

    class Region:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    class Profiler(Ghost):
        def region(self, *a, **k):
            return Region()

    def h(groups, gas):
        def go():
            seen = []

            class Trainer(Heap):
                _run_train_step = m.BaseTrainer.__dict__["_run_train_step"]

                def on_before_step(self, data):
                    claim("the declared parameters are clamped before the step computes", seen == ([groups] if groups else []) or (not groups and seen == [[]]))
                    raise Stop

                def _synchronize_phase_errors(self, *a, **k):
                    raise Stop
            x = Trainer()
            m.apply_weight_clipping = lambda g: seen.append(g)
            x.accelerator = types.SimpleNamespace(num_processes=1, process_index=0)
            x.profiler = Profiler()
            x._weight_clip_groups = groups
            x.gradient_accumulation_steps = gas
            try:
                x._run_train_step("batch")
            except Stop:
                return
            claim("the step reaches its first hook", False)
        return go
    for groups in ([], ["g"], ["g", "h"]):
        for gas in (1, 3):
            S.run(f"_run_train_step[{len(groups)} groups, {gas} micro-batches] up to the first forward", h(groups, gas))


def prove(S):
    applying(S)
    resolving(S)
    collecting(S)
    stepping(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
