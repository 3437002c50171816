"""F19 - dataset filter expressions, by structural induction on the syntax tree.

`_eval` is run on a node of every class the `ast` module knows, one level deep: its recursive calls are answered by its own contract
(an arbitrary value a sub-expression may have). What it returns must be the node's own operation on the children's values, and
every operation must have been sized beforehand. Arrays are ghosts that only remember which operation produced them.
"""
import _ast
import ast
import builtins

import numpy
import z3

from pyvc.engine import ctx, PathEnd, Unsupported
from pyvc.values import LazySeq, SymBool, SymInt, int_term
from pyvc.load import NONE, LoopSpec, World
from pyvc import shims

I, B = z3.IntSort(), z3.BoolSort()
MOD, DATA = "dataset.filter", "utils.data_utils"
TRUSTED = ["the ast module: ast.parse yields the syntax tree Python itself would evaluate, ast.walk and ast.iter_child_nodes visit all of its nodes",
           "numpy's operators and the six ufuncs change no operand when they are given exactly their operands, and what they compute; "
           "numpy.broadcast_shapes is the shape of their result; a comparison yields booleans",
           "numpy.nonzero lists the positions of the true entries in order; a[indices, ...] takes those rows",
           "Python's operators on int, float, bool and None"]
LIMIT64 = 64 * 1024 * 1024
INT64 = lambda t: z3.And(t >= -(1 << 63), t < (1 << 63))
FUNCTIONS = {"abs": numpy.abs, "isfinite": numpy.isfinite, "isnan": numpy.isnan, "logical_and": numpy.logical_and,
             "logical_or": numpy.logical_or, "logical_not": numpy.logical_not}
UNARY = {ast.UAdd: "pos", ast.USub: "neg", ast.Invert: "invert"}
BINARY = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
          ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor"}
COMPARE = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
SWAP = {"eq": "eq", "ne": "ne", "lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}
BC = z3.Function("broadcast_elements", I, I, I)


class GH:
    """What one harness knows."""

    def __init__(self, S, m):
        c = ctx()
        self.S, self.c, self.m = S, c, m
        self.n = c.fresh(I, "samples")
        c.add(self.n >= 0)
        self.max = z3.If(8 * self.n > 4096, 8 * self.n, 4096)
        self.ids = 0
        self.ran = []          # operations carried out on arrays
        self.raised = False    # an operation on values failed on its own
        self.values = {}       # node -> value
        self.evaluated = []
        c.ghost["f19"] = self


def g():
    return ctx().ghost["f19"]


def may_raise(exc=TypeError):
    if ctx().decide(ctx().fresh(B, "operation_fails")):
        g().raised = True
        raise exc("the operation itself fails")


class Shape:
    __hash__ = None

    def __init__(self, el=None, vec=None):
        c, G = ctx(), g()
        G.ids += 1
        self.id = G.ids
        self.el = c.fresh(I, "elements") if el is None else el
        self.vec = c.fresh(B, "one_entry_per_sample") if vec is None else vec
        self.first = c.fresh(I, "rows")
        self.nd = c.fresh(I, "dimensions")
        c.add(z3.And(self.el >= 0, self.first >= 0, self.nd >= 0, z3.Implies(self.vec, z3.And(self.el == G.n, self.nd == 1, self.first == G.n))))

    def __getitem__(self, k):
        if k != 0:
            raise Unsupported("another dimension of a shape")
        if not ctx().decide(self.nd >= 1):
            raise IndexError("tuple index out of range")
        return SymInt(self.first)

    def __pyvc_len__(self):
        return SymInt(self.nd)

    def __eq__(self, o):
        if isinstance(o, tuple) and len(o) == 1 and z3.eq(z3.simplify(int_term(o[0])), z3.simplify(g().n)):
            return SymBool(self.vec)
        raise Unsupported("a shape compared with something else than (samples,)")

    def __ne__(self, o):
        return SymBool(z3.Not((self == o).t))

    def __repr__(self):
        return "(...)"


class Dtype:
    __hash__ = None

    def __init__(self, kind=None):
        self._kind = kind
        c = ctx()
        self.size = z3.IntVal(1) if kind == "b" else c.fresh(I, "itemsize")
        c.add(z3.And(self.size >= 1, self.size <= 1024))

    @property
    def kind(self):
        if self._kind is None:
            for k in "biuf":
                if ctx().decide(ctx().fresh(B, "dtype_" + k)):
                    self._kind = k
                    break
            else:
                self._kind = "O"
            if self._kind == "b":
                ctx().add(self.size == 1)
        return self._kind

    itemsize = property(lambda self: SymInt(self.size))

    def __eq__(self, o):
        if o is numpy.bool_ or o is bool:
            return self.kind == "b"
        raise Unsupported("a dtype compared with another type")

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "dtype"


class V:
    """A value of the filter language: only what made it is known."""
    __hash__ = object.__hash__
    falsy = False

    def _unknown(self, *a, **k):
        raise Unsupported("an operation of a ghost value that is not modelled")

    def __getattr__(self, k):
        if k.startswith("__") or not hasattr({"GInt": int, "GFloat": float, "GBool": bool}.get(type(self).__name__, numpy.ndarray), k):
            raise AttributeError(k)
        raise Unsupported(f"{type(self).__name__}.{k}")

    def _bin(self, op, o, rev):
        l, r = (o, self) if rev else (self, o)
        return binary(op, l, r)

    def _change(self, *a, **k):
        g().S.prove("no field or operand is changed in place", z3.BoolVal(False))
        raise TypeError("in place")

    __setitem__ = __delitem__ = __imatmul__ = __ilshift__ = __irshift__ = _change
    __len__ = __iter__ = __contains__ = __int__ = __float__ = __index__ = __divmod__ = __matmul__ = __lshift__ = __rshift__ = __round__ = _unknown
    __rmatmul__ = __rlshift__ = __rrshift__ = _unknown

    def __neg__(self): return unary("neg", self)
    def __pos__(self): return unary("pos", self)
    def __invert__(self): return unary("invert", self)
    def __abs__(self): return unary("abs", self)


for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
    setattr(V, f"__{_op}__", lambda self, o, _op=_op: self._bin(_op, o, False))
    setattr(V, f"__r{_op}__", lambda self, o, _op=_op: self._bin(_op, o, True))
for _op in ("eq", "ne", "lt", "le", "gt", "ge"):
    setattr(V, f"__{_op}__", lambda self, o, _op=_op: compare(_op, self, o))


class Arr(V):
    def __init__(self, origin, shape=None, dtype=None):
        self.origin, self.shape, self.dtype = origin, shape or Shape(), dtype or Dtype()

    @property
    def size(self):
        return SymInt(self.shape.el)

    @property
    def nbytes(self):
        return SymInt(self.shape.el * self.dtype.size)

    @property
    def ndim(self):
        return SymInt(self.shape.nd)

    def __getitem__(self, k):
        may_raise(IndexError)
        if ctx().decide(ctx().fresh(B, "one_entry")):
            return Scl(("getitem", self, k))
        return Arr(("getitem", self, k))

    def __bool__(self):
        if self.falsy:
            if ctx().decide(self.shape.el == 1):
                return False
            raise ValueError("ambiguous")
        raise Unsupported("the truth of an array")

    def __repr__(self):
        return "array"


for _op in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
    setattr(Arr, f"__i{_op}__", V._change)


class Scl(V):
    """A numpy scalar (one entry of an array)."""

    def __init__(self, origin, boolean=False):
        self.origin, self.shape, self.dtype = origin, (), Dtype("b" if boolean else None)
        self.term = ctx().fresh(B, "truth")

    def __bool__(self):
        return ctx().decide(self.term)

    def __getitem__(self, k):
        raise IndexError("invalid index to scalar variable")

    def __repr__(self):
        return "scalar"


class Num(V):
    """A Python int or float."""

    def __init__(self, origin, t=None):
        self.origin, self.t = origin, t

    def __bool__(self):
        return ctx().decide(self.t != 0 if self.t is not None else ctx().fresh(B, "nonzero"))

    def __repr__(self):
        return "number"

    def __index__(self):
        raise Unsupported("a native use of a ghost number")


class GInt(Num):
    __pyvc_type__ = int

    def __init__(self, origin, t=None):
        Num.__init__(self, origin, ctx().fresh(I, "int") if t is None else t)


class GFloat(Num):
    __pyvc_type__ = float

    def __init__(self, origin, finite=None):
        Num.__init__(self, origin)
        self.finite = ctx().fresh(B, "finite") if finite is None else finite


class GBool(V):
    """The outcome of comparing two numbers."""
    __pyvc_type__ = bool

    def __init__(self, origin, term):
        self.origin, self.term = origin, term

    def __bool__(self):
        return ctx().decide(self.term)


class Fun:
    """One of the six ufuncs."""

    def __init__(self, name, real):
        self.name, self.nin, self.__name__, self.nargs, self.nout = name, real.nin, real.__name__, real.nargs, real.nout

    def __call__(self, *args, **kw):
        G = g()
        G.S.prove("a function is given no keyword argument", z3.BoolVal(not kw))
        G.S.prove("a function is given exactly its operands: a further one would be an output array", z3.BoolVal(len(args) == self.nin))
        return apply(self.name, args, boolean=self.name != "abs")

    def __getattr__(self, k):
        if k.startswith("__") or not hasattr(numpy.ufunc, k):
            raise AttributeError(k)
        raise Unsupported(f"ufunc.{k}")


def sized(args):
    """The broadcast shape of the array operands, and the largest of their element sizes."""
    arrs = [a for a in args if isinstance(a, Arr)]
    size = arrs[0].dtype.size
    for a in arrs[1:]:
        size = z3.If(a.dtype.size > size, a.dtype.size, size)
    return broadcast(*(a.shape for a in arrs)), size


def broadcast(*shapes):
    G = g()
    sh = [s for s in shapes if isinstance(s, Shape)]
    if any(not isinstance(s, Shape) and s != () for s in shapes):
        raise Unsupported("broadcasting another shape")
    if not sh:
        return ()
    uniq = {s.id: s for s in sh}
    if len(uniq) == 1:
        return sh[0]
    if len(uniq) > 2:
        raise Unsupported("broadcasting three shapes")
    key = ("bc",) + tuple(sorted(uniq))
    if key not in G.c.ghost:
        G.c.ghost[key] = Shape()
        G.c.ghost[key + ("ok",)] = G.c.fresh(B, "compatible")
    if not G.c.decide(G.c.ghost[key + ("ok",)]):
        raise ValueError("shape mismatch")
    return G.c.ghost[key]


def apply(op, args, boolean):
    """An elementwise numpy operation."""
    G = g()
    S = G.S
    for a in args:
        if isinstance(a, (V, bool, int, float, tuple, type(None), Fun, NP)):
            continue
        raise Unsupported(f"operand {type(a).__name__}")
    if any(isinstance(a, Arr) for a in args):
        if all(isinstance(a, (V, bool, int, float, type(None))) for a in args):
            shape, size = sized(args)
            S.prove(f"{op}: the result has at most max(4096, 8n) entries, checked before it is computed", shape.el <= G.max)
            S.prove(f"{op}: the result at the operands' widest type has at most 64 MB, checked before it is computed", shape.el * size <= LIMIT64)
        else:
            shape = Shape()        # a literal sequence of at most 64 entries takes part: sized afterwards
        G.ran.append(op)
        may_raise()
        r = Arr((op,) + tuple(args), shape, Dtype("b") if boolean else None)
        r.falsy = op == "eq" and any(isinstance(a, (Fun, NP)) for a in args)
        return r
    may_raise()
    if any(isinstance(a, tuple) for a in args):
        return Arr((op,) + tuple(args), None, Dtype("b") if boolean else None)
    return Scl((op,) + tuple(args), boolean)


def binary(op, l, r):
    G = g()
    if isinstance(l, Arr) or isinstance(r, Arr):
        return apply(op, (l, r), False)
    if isinstance(l, tuple) or isinstance(r, tuple):
        if isinstance(l, Scl) or isinstance(r, Scl):
            return apply(op, (l, r), False)
        G.S.prove("a literal sequence is not repeated or joined", z3.BoolVal(False))
        raise TypeError("sequence operation")
    if isinstance(l, (Fun, NP, type(None))) or isinstance(r, (Fun, NP, type(None))):
        raise TypeError(f"unsupported operand for {op}")
    may_raise(ZeroDivisionError)
    if isinstance(l, Scl) or isinstance(r, Scl):
        return Scl((op, l, r))
    if op == "truediv" or isinstance(l, (GFloat, float)) or isinstance(r, (GFloat, float)):
        if op in ("and", "or", "xor"):
            raise TypeError("unsupported operand")
        return GFloat((op, l, r))
    if op in ("and", "or", "xor") and all(isinstance(x, (bool, GBool)) for x in (l, r)):
        return GBool((op, l, r), ctx().fresh(B, "bits"))
    if op == "pow":
        G.S.prove("integers are raised to a literal power of at most 8 only", z3.BoolVal(G.power_ok))
    return GInt((op, l, r))


def unary(op, v):
    G = g()
    if isinstance(v, Arr):
        return apply(op, (v,), False)
    if isinstance(v, Scl):
        may_raise()
        return Scl((op, v))
    if isinstance(v, GFloat):
        if op == "invert":
            raise TypeError("bad operand type for unary ~")
        return GFloat((op, v))
    t = None
    if isinstance(v, GInt):
        t = {"neg": -v.t, "pos": v.t, "invert": -v.t - 1}.get(op)
    return GInt((op, v), t)


def compare(op, l, r):
    """l is a ghost."""
    if isinstance(l, Arr) or isinstance(r, Arr):
        return apply(op, (l, r), True)
    if isinstance(r, tuple):
        if isinstance(l, Scl):
            return apply(op, (l, r), True)
        return NotImplemented
    if isinstance(r, (Fun, NP, type(None))):
        return NotImplemented
    if isinstance(l, Scl) or isinstance(r, Scl):
        return Scl((op, l, r), True)
    if not isinstance(r, (V, int, float)):
        return NotImplemented
    tl = l.t if isinstance(l, GInt) else None
    tr = r.t if isinstance(r, GInt) else z3.IntVal(int(r)) if isinstance(r, int) else None
    if tl is None or tr is None:
        return GBool((op, l, r), ctx().fresh(B, "compared"))
    return GBool((op, l, r), {"eq": tl == tr, "ne": tl != tr, "lt": tl < tr, "le": tl <= tr, "gt": tl > tr, "ge": tl >= tr}[op])


class NP:
    """The numpy module as the evaluator sees it."""
    ndarray, bool_ = Arr, numpy.bool_

    def __init__(self, funs):
        self.__dict__.update(funs)

    broadcast_shapes = staticmethod(broadcast)

    def __getattr__(self, k):
        if k.startswith("__") or k in ("shape", "dtype"):
            raise AttributeError(k)
        raise Unsupported(f"numpy.{k}")


class Math:
    @staticmethod
    def prod(shape):
        if isinstance(shape, Shape):
            return SymInt(shape.el)
        if isinstance(shape, (tuple, list)):
            p = 1
            for x in shape:
                p = x * p
            return p
        raise TypeError("not iterable")

    @staticmethod
    def isfinite(x):
        if isinstance(x, GFloat):
            return SymBool(x.finite)
        import math
        return math.isfinite(x)

    def __getattr__(self, k):
        raise Unsupported(f"math.{k}")


class Hole(ast.expr):
    """A sub-expression the evaluator must not look into."""
    _fields = ()

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        raise Unsupported(f"the evaluator looks at {k!r} of a sub-expression")


KINDS = ("array", "scalar", "int", "float", "true", "false", "none", "tuple", "function", "numpy")


def value(kind, origin="child"):
    """An arbitrary value of the language of that kind."""
    c = ctx()
    if kind == "array":
        a = Arr(origin, None, Dtype())
        c.add(a.dtype.size >= 1)
        a.field = True
        return a
    if kind == "scalar":
        return Scl(origin)
    if kind == "int":
        v = GInt(origin)
        c.add(INT64(v.t))
        return v
    if kind == "float":
        return GFloat(origin)
    if kind == "tuple":
        return (GInt("item"), Ellipsis)
    if kind == "function":
        return g().funs[0]
    if kind == "numpy":
        return g().np
    return {"true": True, "false": False, "none": None}[kind]


def any_value(kinds=KINDS):
    c = ctx()
    for k in kinds[:-1]:
        if c.decide(c.fresh(B, k)):
            return value(k)
    return value(kinds[-1])


def index_value():
    c = ctx()
    for k in ("int", "ellipsis", "slice", "tuple", "ints"):
        if k == "ints" or c.decide(c.fresh(B, "index_" + k)):
            a, b = GInt("index"), GInt("index")
            c.add(z3.And(INT64(-a.t), INT64(a.t), INT64(-b.t), INT64(b.t)))
            return {"int": a, "ellipsis": Ellipsis, "slice": slice(a, None, b), "tuple": (a, slice(None), [b]), "ints": [a, b]}[k]


def wellformed(v):
    """What every value of the language satisfies; fields themselves are not limited."""
    G = g()
    if isinstance(v, Arr):
        ok = v.dtype.kind in "biuf" and len(v.dtype.kind) == 1
        return z3.And(z3.BoolVal(ok), v.shape.el <= G.max, v.shape.el * v.dtype.size <= LIMIT64)
    if isinstance(v, GInt):
        return INT64(v.t)
    if isinstance(v, bool) or v is None or isinstance(v, (float, Scl, GFloat, GBool)):
        return z3.BoolVal(True)
    if isinstance(v, int):
        return z3.BoolVal(-(1 << 63) <= v < 1 << 63)
    return z3.BoolVal(False)


def came_from(v, op, *args):
    o = getattr(v, "origin", None) if isinstance(v, V) else None
    return isinstance(o, tuple) and len(o) == 1 + len(args) and o[0] == op and all(a is b for a, b in zip(o[1:], args))


def is_binary(v, op, l, r):
    if isinstance(l, V) or isinstance(r, V):
        if isinstance(v, bool):       # a number compared with something that is no number
            return not any(isinstance(x, Arr) for x in (l, r)) and any(isinstance(x, (type(None), tuple, Fun, NP)) for x in (l, r)) and (
                (op, v) in (("eq", False), ("ne", True)))
        return came_from(v, op, l, r) or (op in SWAP and came_from(v, SWAP[op], r, l))
    import operator
    f = getattr(operator, op + "_" if op in ("and", "or") else op)
    try:
        want = f(l, r)
    except Exception:
        return False
    return type(v) is type(want) and v == want


def prove(S):
    names = {"same": None}

    # ---- the module, and the evaluator as the harnesses see it
    cur = {}

    def cmp_types(which):
        def f(v):
            return cur["head"](which)
        return f

    def cmp_inv(L):
        return cur["inv"](L)

    loops = {f"{MOD}:SafeFilterEvaluator._eval#0": LoopSpec(
                 cmp_inv, types={"left": cmp_types("left"), "result": cmp_types("result"), "right": lambda v: None, "part": lambda v: None,
                                 "op_node": lambda v: None, "comparator": lambda v: None}),
             f"{MOD}:SafeFilterEvaluator._check_depth#0": LoopSpec(lambda L: cur["dinv"](L), types={"child": lambda v: None},
                                                                  havoc=lambda L: cur["dhavoc"](L)),
             f"{MOD}:SafeFilterEvaluator.__init__#0": LoopSpec(lambda L: cur["iinv"](L), types={"name": lambda v: None, "value": lambda v: None},
                                                              havoc=lambda L: cur["ihavoc"](L)),
             f"{DATA}:filter_data_by_condition#0": LoopSpec(lambda L: cur["finv"](L), types={"k": lambda v: None},
                                                            havoc=lambda L: cur["fhavoc"](L))}
    w = World(loops)
    m = w.module(MOD)
    real = dict(m._FUNCTIONS)
    plain = World({}).module(MOD)

    def tables():
        ctx()
        S.prove("the functions of the language are the six documented numpy functions", z3.BoolVal(
            set(real) == set(FUNCTIONS) and all(real[k] is FUNCTIONS[k] for k in FUNCTIONS)))
        S.prove("the limits are the documented ones", z3.BoolVal(
            (m.MAX_EXPRESSION_BYTES, m.MAX_AST_NODES, m.MAX_AST_DEPTH, m.MAX_LITERAL_ITEMS, m.MAX_INTERMEDIATE_BYTES)
            == (4096, 128, 16, 64, LIMIT64)))
        S.prove("every function has a fixed number of operands and one result", z3.BoolVal(
            all(f.nout == 1 and f.nin in (1, 2) for f in real.values())))
    S.run("filter language: the documented functions and limits", tables)
    if not (set(real) == set(FUNCTIONS) and all(isinstance(f, numpy.ufunc) for f in real.values())):
        return
    funs = {k: Fun(k, f) for k, f in real.items()}
    # every place that holds one of the real functions now holds its ghost
    for mod in (m, plain):
        for k in list(mod._FUNCTIONS):
            mod._FUNCTIONS[k] = funs[k]
        for k, v in list(vars(mod).items()):
            if isinstance(v, numpy.ufunc):
                setattr(mod, k, next(f for n, f in funs.items() if real[n] is v))
        mod.np, mod.math = NP(funs), Math()
        old_isinstance, old_type = mod.isinstance, mod.type

        def isinst(x, cls, old=old_isinstance):
            if isinstance(x, Hole):
                cl = list(shims._flat(shims.unshim_cls(cls)))
                if any(isinstance(k, type) and issubclass(k, ast.AST) and k is not ast.AST for k in cl):
                    raise Unsupported("the evaluator looks at the class of a sub-expression")
            return old(x, cls)

        def typ(*a, old=old_type):
            if len(a) == 1 and isinstance(a[0], Hole):
                raise Unsupported("the evaluator looks at the class of a sub-expression")
            return old(*a)
        mod.isinstance, mod.type = isinst, typ
    Ev = m.SafeFilterEvaluator
    Ev2 = plain.SafeFilterEvaluator

    def evaluator(cls=Ev, fields=None):
        G = GH(S, m)
        G.np, G.funs, G.power_ok = (m if cls is Ev else plain).np, list(funs.values()), False
        ev = object.__new__(cls)
        ev.expression = "expression"
        ev.length, ev.max_elements = SymInt(G.n), SymInt(G.max)
        ev.arrays = fields if fields is not None else {}
        ev.tree = ast.Expression(body=Hole())
        G.eval_of = {}

        def child(node):
            if id(node) not in G.eval_of:
                if not isinstance(node, Hole) and id(node) not in G.given:
                    raise Unsupported("evaluation of a node that is not a child")
                G.evaluated.append(node)
                if ctx().decide(ctx().fresh(B, "child_refused")):
                    G.raised = True
                    raise ValueError("refused below")
                G.eval_of[id(node)] = (node, G.given[id(node)]() if id(node) in G.given else any_value())
            return G.eval_of[id(node)][1]
        G.given, G.index_of = {}, {}
        G.real_eval, G.real_index = ev._eval, ev._index_literal
        ev._eval = child

        def index(node):
            if id(node) not in G.index_of:
                if not isinstance(node, Hole) and id(node) not in G.given:
                    raise Unsupported("an index that is not a child")
                if ctx().decide(ctx().fresh(B, "index_refused")):
                    G.raised = True
                    raise ValueError("refused below")
                G.index_of[id(node)] = (node, G.given[id(node)]() if id(node) in G.given else index_value())
            return G.index_of[id(node)][1]
        ev._index_literal = index
        return G, ev

    REFUSED = object()

    def outcome(f, *a):
        try:
            return f(*a)
        except (PathEnd, Unsupported):
            raise
        except Exception as e:
            g().error = e
            return REFUSED

    def val(G, node):
        return G.eval_of[id(node)][1] if id(node) in G.eval_of else Unsupported

    B_ = z3.BoolVal

    # ---- 1. names
    candidates = set(dir(builtins)) | set(dir(numpy)) | set(dir(numpy.ndarray)) | set(dir(numpy.ufunc)) | {"os", "sys", "self", "node", "field", "np", "numpy"}
    for node in ast.walk(ast.parse(w.sources[MOD])):
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            candidates.add(node.value)
        if isinstance(node, ast.Name):
            candidates.add(node.id)
    candidates = sorted(candidates)

    def names_():
        field = None
        G, ev = evaluator(Ev2)
        field = Arr("field")
        bad = []
        for name in candidates:
            for is_field in (False, True):
                ev.arrays = {"other": Arr("field"), **({name: field} if is_field else {})}
                r = outcome(G.real_eval, ast.Name(name, ast.Load()))
                if name.startswith("__"):
                    want = REFUSED
                elif is_field:
                    want = field
                elif name == "np":
                    want = G.np
                elif name in funs:
                    want = funs[name]
                else:
                    want = REFUSED
                if r is not want:
                    bad.append((name, is_field))
        S.prove(f"a name is a field, np or one of the six functions, everything else is refused {bad[:3]}", B_(not bad))
    S.run("SafeFilterEvaluator._eval(Name)", names_)

    def attributes():
        G, ev = evaluator(Ev2)
        bad = []
        bases = [ast.Name("np", ast.Load()), ast.Name("other", ast.Load()), ast.Name("abs", ast.Load()), ast.Constant(1), ast.Attribute(ast.Name("np", ast.Load()), "abs", ast.Load()),
                 ast.Subscript(ast.Name("other", ast.Load()), ast.Constant(0), ast.Load()), ast.Call(ast.Name("abs", ast.Load()), [ast.Name("other", ast.Load())], []),
                 ast.BinOp(ast.Name("other", ast.Load()), ast.Add(), ast.Name("other", ast.Load()))]
        ev._eval = G.real_eval
        for name in candidates:
            for base in bases:
                ev.arrays = {"other": Arr("field", Shape(z3.IntVal(1), B_(False)), Dtype("f"))}
                r = outcome(G.real_eval, ast.Attribute(base, name, ast.Load())) if base in bases[:4] else None
                if r is None:
                    # the base's own value by contract
                    b2 = base
                    ev._eval = lambda n: ev.arrays["other"]
                    r = outcome(G.real_eval, ast.Attribute(b2, name, ast.Load()))
                    ev._eval = G.real_eval
                want = funs[name] if base is bases[0] and name in funs else REFUSED
                if r is not want:
                    bad.append((ast.unparse(base), name))
        S.prove(f"an attribute is np.<one of the six functions>, everything else is refused {bad[:3]}", B_(not bad))
    S.run("SafeFilterEvaluator._eval(Attribute)", attributes)

    # ---- 2. constants
    def constant(kind):
        def f():
            G, ev = evaluator(Ev2)
            v = {"none": None, "true": True, "false": False, "text": "text", "bytes": b"x", "complex": 1j, "ellipsis": ...}.get(kind)
            if kind == "int":
                v = GInt("literal")
            if kind == "float":
                v = GFloat("literal")
            if kind == "containers":
                v = (1, 2)
            for fn, where in ((G.real_eval, "value"), (G.real_index, "index")):
                r = outcome(fn, ast.Constant(v))
                ok = z3.And(z3.BoolVal(isinstance(v, GInt)), INT64(v.t)) if kind == "int" else None
                if where == "value":
                    ok = ok if ok is not None else v.finite if kind == "float" else B_(kind in ("none", "true", "false"))
                else:
                    ok = ok if ok is not None else B_(kind == "ellipsis")
                S.prove(f"{where}: exactly the literals of the language are accepted", (z3.Not(ok) if r is REFUSED else ok))
                if r is not REFUSED:
                    S.prove(f"{where}: a literal is its own value", B_(r is v))
        return f
    for kind in ("none", "true", "false", "int", "float", "text", "bytes", "complex", "ellipsis", "containers"):
        S.run(f"SafeFilterEvaluator literal: {kind}", constant(kind))

    # ---- 3. every other syntax
    handled = (ast.Constant, ast.Name, ast.Tuple, ast.List, ast.UnaryOp, ast.BinOp, ast.Compare, ast.Subscript, ast.Attribute, ast.Call)
    own = [k for k in vars(_ast).values() if isinstance(k, type) and issubclass(k, ast.AST) and k is not ast.AST]

    def build(k):
        """A node of the class with plausible children."""
        node = k.__new__(k)
        for fld in getattr(k, "_fields", ()):
            v = Hole()
            if fld in ("elts", "values", "args", "keywords", "comparators", "generators", "keys", "ifs", "body", "targets", "names"):
                v = [Hole(), Hole()]
            if fld == "ops":
                v = [ast.Lt()]
            if fld == "op":
                v = ast.And()
            if fld in ("id", "attr", "arg", "name", "str"):
                v = "field"
            if fld == "ctx":
                v = ast.Load()
            if fld == "conversion":
                v = -1
            try:
                setattr(node, fld, v)
            except Exception:
                pass
        return node

    def others():
        G, ev = evaluator(Ev2)
        G.plain_child = True
        ev.arrays = {"field": Arr("field")}
        ev._eval = lambda n: Arr("child", Shape(z3.IntVal(1), B_(False)), Dtype("f"))
        ev._index_literal = lambda n: 0
        bad = [k.__name__ for k in own if not issubclass(k, handled) and outcome(G.real_eval, build(k)) is not REFUSED]
        S.prove(f"syntax outside the language is refused {bad[:4]}", B_(not bad))
        S.prove("the ast module has the node classes", B_({"Lambda", "BoolOp", "IfExp", "ListComp", "GeneratorExp", "DictComp", "SetComp", "NamedExpr", "JoinedStr", "Starred",
                                                           "Await", "Yield", "YieldFrom", "Dict", "Set", "FormattedValue"} <= {k.__name__ for k in own}))
        iallow = (ast.Constant, ast.UnaryOp, ast.Slice, ast.Tuple, ast.List)
        ibad = [k.__name__ for k in own if not issubclass(k, iallow) and outcome(G.real_index, build(k)) is not REFUSED]
        S.prove(f"an index outside the language is refused {ibad[:4]}", B_(not ibad))
        uops = [k for k in ast.unaryop.__subclasses__()]
        ubad = [k.__name__ for k in uops if k not in UNARY and outcome(G.real_eval, ast.UnaryOp(k(), Hole())) is not REFUSED]
        ubad += [k.__name__ for k in uops if k is not ast.USub and outcome(G.real_index, ast.UnaryOp(k(), Hole())) is not REFUSED]
        S.prove(f"other unary operators are refused {ubad[:4]}", B_(not ubad))
        bbad = [k.__name__ for k in ast.operator.__subclasses__() if k not in BINARY and outcome(G.real_eval, ast.BinOp(Hole(), k(), Hole())) is not REFUSED]
        S.prove(f"other binary operators are refused {bbad[:4]}", B_(not bbad))
    S.run("SafeFilterEvaluator._eval: syntax outside the language", others)

    # ---- 4. unary operators
    def unaries(op):
        def f():
            G, ev = evaluator(Ev2)
            child = Hole()
            r = outcome(G.real_eval, ast.UnaryOp(op(), child))
            v = val(G, child)
            if r is REFUSED:
                if isinstance(v, Arr) and not G.raised:
                    size = v.shape.el
                    S.prove("an operation on an array within the limits is not refused", z3.Or(
                        size > G.max, size * v.dtype.size > LIMIT64, oversized(G)))
                return
            S.prove("the operand was evaluated", B_(v is not Unsupported))
            if isinstance(v, (bool, int)) and not isinstance(v, V):
                want = {"pos": +v, "neg": -v, "invert": None}[UNARY[op]] if UNARY[op] != "invert" else ~int(v)
                S.prove("a unary operator is applied to its operand", B_(r == want and type(r) is int))
            else:
                S.prove("a unary operator is applied to its operand", B_(came_from(r, UNARY[op], v)))
            S.prove("the value is within the limits", wellformed(r))
        return f

    def oversized(G):
        """The result that was computed is outside the limits or of another type."""
        return G.result_bad if hasattr(G, "result_bad") else B_(False)

    # remember the last array made by an operation, to tell why it was refused
    def watch(cls):
        inner = cls._check_array

        def check(self, v, *a, **k):
            G = g()
            if isinstance(v, Arr):
                G.result_bad = z3.Or(B_(v.dtype.kind not in "biuf"), v.shape.el > G.max, v.shape.el * v.dtype.size > LIMIT64)
            if isinstance(v, GInt):
                G.result_bad = z3.Not(INT64(v.t))
            return inner(self, v, *a, **k)
        cls._check_array = check
    watch(Ev)
    watch(Ev2)
    for op in UNARY:
        S.run(f"SafeFilterEvaluator._eval(UnaryOp {op.__name__})", unaries(op))

    # ---- 5. binary operators
    def small(v):
        return isinstance(v, (GInt, GFloat, Arr, Scl, bool, int, float))

    def complete(G, l, r):
        """Array operations that must not be refused."""
        if G.raised or not (isinstance(l, Arr) or isinstance(r, Arr)) or not (small(l) and small(r)):
            return
        try:
            shape, size = sized((l, r))
        except ValueError:
            return
        S.prove("an operation on arrays within the limits is not refused", z3.Or(shape.el > G.max, shape.el * size > LIMIT64, oversized(G)))

    def binaries(op, right=None, legal=True):
        def f():
            G, ev = evaluator(Ev2)
            a, b = Hole(), Hole() if right is None else right()
            if right is not None:
                G.given[id(b)] = lambda: b.value
                if isinstance(b.value, GInt):
                    G.power_ok = True
                    ok = z3.And(b.value.t >= 0, b.value.t <= 8)
                else:
                    G.power_ok = type(b.value) is int and 0 <= b.value <= 8
                    ok = B_(G.power_ok)
            r = outcome(G.real_eval, ast.BinOp(a, op(), b))
            l, rr = val(G, a), val(G, b)
            if r is REFUSED:
                if op is not ast.Pow and l is not Unsupported and rr is not Unsupported:
                    complete(G, l, rr)
                elif op is ast.Pow and right is not None and l is not Unsupported:
                    if ctx().decide(ok):
                        complete(G, l, rr)
                elif op is ast.Pow and right is not None and not G.raised:
                    S.prove("a power between 0 and 8 is not refused", z3.Not(ok))
                return
            S.prove("both operands were evaluated", B_(l is not Unsupported and rr is not Unsupported))
            if op is ast.Pow:
                S.prove("an exponent is a literal integer", B_(right is not None))
                S.prove("an exponent is between 0 and 8", ok if right is not None else B_(False))
            if isinstance(r, tuple):
                S.prove("a literal sequence is not repeated or joined", B_(False))
            S.prove("a binary operator is applied to its operands", B_(is_binary(r, BINARY[op], l, rr)))
            S.prove("the value is within the limits", wellformed(r))
        return f
    for op in BINARY:
        if op is ast.Pow:
            S.run("SafeFilterEvaluator._eval(BinOp Pow, any exponent)", binaries(op, lambda: ast.Constant(GInt("exponent"))))
            for k, what in ((True, "a truth value"), (2.0, "a float"), ("a", "text"), (None, "None"), (3, "3"), (9, "9"), (-1, "-1"), (0, "0")):
                S.run(f"SafeFilterEvaluator._eval(BinOp Pow, exponent {what})", binaries(op, lambda k=k: ast.Constant(k)))
            for mk, what in ((lambda: ast.Name("n", ast.Load()), "a name"), (lambda: ast.UnaryOp(ast.USub(), ast.Constant(1)), "negative"),
                             (lambda: ast.BinOp(ast.Constant(2), ast.Pow(), ast.Constant(2)), "nested"), (lambda: ast.Tuple([], ast.Load()), "a tuple")):
                def exponent(mk=mk):
                    G, ev = evaluator(Ev2)
                    node = mk()
                    G.given[id(node)] = any_value
                    S.prove("a computed exponent is refused", B_(outcome(G.real_eval, ast.BinOp(Hole(), ast.Pow(), node)) is REFUSED))
                S.run(f"SafeFilterEvaluator._eval(BinOp Pow, exponent is {what})", exponent)
        else:
            S.run(f"SafeFilterEvaluator._eval(BinOp {op.__name__})", binaries(op))

    # ---- 6. comparisons of any length
    class CSeq(LazySeq):
        __pyvc_type__ = list
        __hash__ = None

        def __init__(self, n, at):
            self.n, self._at, self.memo = n, at, {}

        def length(self):
            return SymInt(self.n)

        def __pyvc_len__(self):
            return SymInt(self.n)

        def at(self, i):
            k = z3.simplify(i).sexpr()
            if k not in self.memo:
                self.memo[k] = self._at(i)
            return self.memo[k]

    def comparisons(cmp):
      def f():
        G, ev = evaluator(Ev)
        c = ctx()
        n = c.fresh(I, "links")
        c.add(n >= 1)
        first = c.fresh(B, "at_the_first_link")
        left0 = Hole()
        G.given[id(left0)] = lambda: any_value(("array", "int"))     # the loop head forgets it again
        used = {}
        kinds = ("array", "scalar", "int", "true", "none", "tuple", "function")

        def op_at(i):
            used["op"] = cmp
            return cmp()

        def comp_at(i):
            used["hole"] = h = Hole()
            G.given[id(h)] = lambda: any_value(kinds)
            return h
        node = ast.Compare(left0, [], [])
        node.ops, node.comparators = CSeq(n, op_at), CSeq(n, comp_at)
        phase = ["entry"]

        def head(which):
            if which == "left":
                G.head_left = any_value(kinds)
                return NONE if G.head_left is None else G.head_left
            if c.decide(first):
                G.head_result = None
                return NONE
            G.head_result = Arr("conjunction", None, Dtype("b")) if c.decide(c.fresh(B, "conjunction_is_array")) else Scl("conjunction", True)
            if isinstance(G.head_result, Arr):
                c.add(wellformed(G.head_result))
            return G.head_result

        def inv(L):
            ph = phase[0]
            if ph == "entry":
                phase[0] = "head"
                return [("a comparison starts from its first operand", B_(L.left is val(G, left0) and L.result is None))]
            if ph == "head":
                phase[0] = "body"
                return [("at the first link nothing has been compared", (L.i == 0).t == first)]
            right = val(G, used.get("hole"))
            out = [("each link goes on from the operand before it", B_(L.left is right))]
            r = L.result
            o = getattr(r, "origin", None) if isinstance(r, V) else None
            op = COMPARE.get(used.get("op"))
            out.append(("only the six comparisons are applied", B_(op is not None)))
            if G.head_result is None:
                ok = op is not None and is_binary(r, op, G.head_left, right)
            else:
                ok = op is not None and isinstance(o, tuple) and len(o) == 3 and o[0] in ("logical_and", "and") and any(
                    o[k] is G.head_result and is_binary(o[3 - k], op, G.head_left, right) for k in (1, 2))
            out.append(("a chain is the conjunction of its links", B_(ok)))
            out.append(("the value is within the limits", wellformed(r)))
            return out
        cur["head"], cur["inv"] = head, inv
        r = outcome(G.real_eval, node)
        if r is REFUSED:
            if phase[0] == "body" and "op" in used and used["op"] in COMPARE and G.head_result is None:
                right = val(G, used["hole"])
                if right is not Unsupported:
                    complete(G, G.head_left, right)
            return
        S.prove("the value of a comparison is the conjunction of all its links", B_(phase[0] == "body" and r is G.head_result and r is not None))
      return f
    for cmp in ast.cmpop.__subclasses__():
        S.run(f"SafeFilterEvaluator._eval(Compare {cmp.__name__}), any number of links", comparisons(cmp))

    # ---- 7. subscripts
    def subscripts():
        G, ev = evaluator(Ev2)
        a, i = Hole(), Hole()
        node = ast.Subscript(a, i, ast.Load())
        r = outcome(G.real_eval, node)
        v = val(G, a)
        k = G.index_of[id(i)][1] if id(i) in G.index_of else Unsupported
        if r is REFUSED:
            if isinstance(v, Arr) and not G.raised and (isinstance(k, GInt) or isinstance(k, slice) or k is Ellipsis):
                S.prove("a plain index or slice within the limits is not refused", oversized(G))
            return
        S.prove("only an array is indexed, by the literal index", B_(isinstance(v, Arr) and came_from(r, "getitem", v, k)))
        S.prove("the value is within the limits", wellformed(r))
    S.run("SafeFilterEvaluator._eval(Subscript)", subscripts)

    # ---- 8. calls
    def calls(nargs, nkw):
        def f():
            G, ev = evaluator(Ev2)
            fn = Hole()
            c = ctx()

            def fun():
                for q in G.funs[:-1]:
                    if c.decide(c.fresh(B, q.name)):
                        return q
                return G.funs[-1]
            other = c.decide(c.fresh(B, "not_a_function"))
            G.given[id(fn)] = (lambda: any_value(("array", "scalar", "int", "float", "true", "none", "tuple", "numpy"))) if other else fun
            kinds = ("array", "scalar", "int", "none", "tuple", "function")
            args = [Hole() for _ in range(nargs)]
            for a in args:
                G.given[id(a)] = lambda: any_value(kinds)
            kw = [ast.keyword(k, Hole()) for k in ("out", None, "where")[:nkw]]
            for a in kw:
                G.given[id(a.value)] = lambda: value("array")
            r = outcome(G.real_eval, ast.Call(fn, args, kw))
            q = val(G, fn)
            vals = [val(G, a) for a in args]
            if r is REFUSED:
                if isinstance(q, Fun) and not nkw and nargs == q.nin and not G.raised and all(isinstance(v, (Arr, GInt, Scl)) for v in vals) and any(
                        isinstance(v, Arr) for v in vals):
                    try:
                        shape, size = sized(vals)
                    except ValueError:
                        return
                    S.prove("a function of arrays within the limits is not refused", z3.Or(shape.el > G.max, shape.el * size > LIMIT64, oversized(G)))
                else:
                    S.prove("refused", B_(True))
                return
            S.prove("only the six functions are called", B_(isinstance(q, Fun)))
            S.prove("a call has exactly the function's operands and no keyword", B_(nkw == 0 and nargs == getattr(q, "nin", None)))
            if isinstance(q, Fun) and q.name == "abs" and len(vals) == 1 and came_from(r, "abs", vals[0]):
                pass
            else:
                S.prove("a call is the function applied to its operands", B_(isinstance(q, Fun) and came_from(r, q.name, *vals)))
            S.prove("the value is within the limits", wellformed(r))
        return f
    for nargs in range(4):
        S.run(f"SafeFilterEvaluator._eval(Call), {nargs} operands", calls(nargs, 0))
    for nargs in (0, 1, 2):
        S.run(f"SafeFilterEvaluator._eval(Call), {nargs} operands and keywords", calls(nargs, 1))
    S.run("SafeFilterEvaluator._eval(Call), unpacked keywords", calls(1, 2))

    # ---- 9. literal sequences and indices
    def items(kind, n, special=None, pos=None):
        """n children; the one at pos has the special value."""
        def f():
            bad = []
            for where in ("value", "index"):
                G, ev = evaluator(Ev2)
                els = [Hole() for _ in range(n)]
                vals = []
                for k, e in enumerate(els):
                    v = GInt("item") if special is None or k not in pos else special()
                    vals.append(v)
                    G.index_of[id(e)] = (e, v)
                node = kind(els, ast.Load())
                r = outcome(G.real_eval if where == "value" else G.real_index, node)
                ok = n <= 64
                if where == "index":
                    ok = ok and sum(v is Ellipsis for v in vals) <= 1
                    if kind is ast.List:
                        ok = ok and all(isinstance(v, GInt) for v in vals)
                if not ok:
                    if r is not REFUSED:
                        bad.append((where, "accepted"))
                    continue
                want = list if where == "index" and kind is ast.List else tuple
                if r is REFUSED or type(r) is not want or len(r) != n or any(a is not b for a, b in zip(r, vals)):
                    bad.append((where, "another value"))
            S.prove(f"a literal sequence of at most 64 index literals is its own value {bad}", B_(not bad))
        return f

    def sequences(kind):
        def f():
            for n in list(range(0, 68)) + [127]:
                items(kind, n)()
            for special in (lambda: Ellipsis, lambda: slice(None), lambda: (GInt("i"),), lambda: [GInt("i")]):
                for n in (1, 2, 3, 5, 64):
                    for pos in ([0], [n - 1], [n // 2], [0, n - 1], list(range(n))):
                        items(kind, n, special, pos)()
        return f
    S.run("SafeFilterEvaluator: literal tuples", sequences(ast.Tuple))
    S.run("SafeFilterEvaluator: literal lists", sequences(ast.List))

    def negative():
        G, ev = evaluator(Ev2)
        child = Hole()
        r = outcome(G.real_index, ast.UnaryOp(ast.USub(), child))
        v = G.index_of[id(child)][1] if id(child) in G.index_of else None
        if r is REFUSED:
            S.prove("a negated index is not refused", B_(G.raised or not isinstance(v, GInt)))
            return
        S.prove("a negated index is the negated integer", B_(isinstance(v, GInt) and came_from(r, "neg", v)))
        S.prove("a negated index is a 64-bit integer", z3.And(INT64(r.t), INT64(-r.t)) if isinstance(r, GInt) else B_(False))
    S.run("SafeFilterEvaluator._index_literal(negated)", negative)

    def slices():
        G, ev = evaluator(Ev2)
        c = ctx()
        parts = [None if c.decide(c.fresh(B, k)) else Hole() for k in ("no_lower", "no_upper", "no_step")]
        for p in parts:
            if p is not None:
                G.given[id(p)] = lambda: GInt("bound")
        r = outcome(G.real_index, ast.Slice(*parts))
        if r is REFUSED:
            S.prove("a slice of literals is not refused", B_(G.raised))
            return
        want = [None if p is None else G.index_of[id(p)][1] if id(p) in G.index_of else Unsupported for p in parts]
        S.prove("a slice is its literal bounds", B_(isinstance(r, slice) and r.start is want[0] and r.stop is want[1] and r.step is want[2]))
    S.run("SafeFilterEvaluator._index_literal(Slice)", slices)

    # ---- 10. the result
    def result():
        G, ev = evaluator(Ev2)
        body = ev.tree.body
        G.given[id(body)] = lambda: any_value(KINDS)
        r = outcome(ev.evaluate)
        v = val(G, body)
        fits = z3.And(v.shape.vec, B_(v.dtype.kind == "b")) if isinstance(v, Arr) else B_(False)
        if r is REFUSED:
            S.prove("a boolean vector with one entry per sample is not refused", z3.Or(B_(G.raised), z3.Not(fits)))
            return
        S.prove("the result is the value of the expression", B_(r is v))
        S.prove("the result is a boolean vector with one entry per sample", fits)
    S.run("SafeFilterEvaluator.evaluate", result)

    # ---- 11. depth
    def depth():
        G, ev = evaluator(Ev)
        c = ctx()
        d = c.fresh(I, "depth")
        n = c.fresh(I, "children")
        c.add(z3.And(d >= 1, n >= 0))
        node = ast.Name("x", ast.Load())
        st = {"phase": "entry", "checked": None}

        class A:
            def __getattr__(self, k):
                return getattr(ast, k)

            @staticmethod
            def iter_child_nodes(x):
                if x is not node:
                    raise Unsupported("the children of another node")
                return CSeq(n, lambda i: st.setdefault(("c", z3.simplify(i).sexpr()), Hole()))
        m.ast = A()
        done = []

        def below(x, k):
            done.append((x, int_term(k)))
            if c.decide(c.fresh(B, "too_deep_below")):
                G.raised = True
                raise ValueError("too deep")

        def dinv(L):
            if st["phase"] != "body":
                st["phase"] = "head" if st["phase"] == "entry" else "body"
                return [("walked", B_(True))]
            child = st.get(("c", z3.simplify((L.i - 1).t).sexpr()))
            return [("every child is checked one level deeper", z3.And(B_(len(done) == 1 and done[0][0] is child), done[0][1] == d + 1 if done else B_(False)))]
        cur["dinv"], cur["dhavoc"] = dinv, lambda L: []
        real_check = ev._check_depth
        ev._check_depth = below
        try:
            r = outcome(real_check, node, SymInt(d))
        finally:
            m.ast = ast
        if r is REFUSED:
            S.prove("only nesting beyond 16 levels is refused", z3.Or(B_(G.raised), d > 16))
        else:
            S.prove("nesting beyond 16 levels is refused", d <= 16)
    S.run("SafeFilterEvaluator._check_depth, any number of children", depth)

    # ---- 12. construction
    def construction():
        G = GH(S, m)
        G.np, G.funs, G.power_ok = m.np, list(funs.values()), False
        c = ctx()
        nbytes, nodes, nf = (c.fresh(I, k) for k in ("bytes", "nodes", "fields"))
        c.add(z3.And(nbytes >= 0, nodes >= 1, nf >= 0))
        st = {"phase": "entry", "depth": 0, "seen": []}

        class Text:
            __pyvc_type__ = str

            def encode(self, enc="utf-8", errors="strict"):
                if enc.lower().replace("_", "-") not in ("utf-8", "utf8") or errors != "strict":
                    raise Unsupported("another encoding")

                class E:
                    def __pyvc_len__(self):
                        return SymInt(nbytes)
                return E()

            def __repr__(self):
                return "'...'"
        text = Text()
        tree = ast.Expression(body=Hole())

        class A:
            def __getattr__(self, k):
                return getattr(ast, k)

            @staticmethod
            def parse(src, mode="exec"):
                S.prove("the expression as given is parsed as one expression", B_(src is text and mode == "eval"))
                if c.decide(c.fresh(B, "syntax_error")):
                    G.raised = True
                    e = SyntaxError("invalid syntax")
                    raise e
                return tree

            @staticmethod
            def walk(x):
                S.prove("the nodes of this expression are counted", B_(x is tree))
                return CSeq(nodes, lambda i: Hole())

        class Name:
            __pyvc_type__ = str

            def __init__(self, i):
                self.dunder = c.fresh(B, "dunder_name")

            def startswith(self, p):
                if p != "__":
                    raise Unsupported("another prefix")
                return SymBool(self.dunder)

            def __repr__(self):
                return "name"
        first = Arr("field")
        c.add(first.shape.nd >= 1)

        def pair(i):
            st.setdefault("pairs", {})
            k = z3.simplify(i).sexpr()
            if k not in st["pairs"]:
                st["pairs"][k] = (Name(i), Arr("field"))
            return st["pairs"][k]

        class Fields:
            def values(self):
                return CSeq(nf, lambda i: pair(i)[1])

            def items(self):
                return CSeq(nf, pair)

            def keys(self):
                return CSeq(nf, lambda i: pair(i)[0])
        fields = Fields()

        class First:
            """iter(fields.values())"""
        old_iter, old_next, old_list, old_len = m.__dict__.get("iter"), m.__dict__.get("next"), m.__dict__.get("list"), m.len

        def it(x, *a):
            if isinstance(x, CSeq):
                f = First()
                f.seq = x
                return f
            return builtins.iter(x, *a)

        def nx(x, *a):
            if isinstance(x, First):
                if not c.decide(nf >= 1):
                    if a:
                        return a[0]
                    G.raised = True
                    raise StopIteration
                return x.seq.at(z3.IntVal(0))
            return builtins.next(x, *a)
        m.ast, m.iter, m.next = A(), it, nx
        m.list = lambda x=(): x if isinstance(x, CSeq) else old_list(x) if old_list else builtins.list(x)
        m.len = lambda x: SymInt(G.n) if isinstance(x, Arr) else old_len(x)

        def iinv(L):
            if st["phase"] != "body":
                st["phase"] = "head" if st["phase"] == "entry" else "body"
                st["seen"] = []
                return [("walked", B_(True))]
            name, value_ = pair((L.i - 1).t)
            return [("every field has a plain name and a numeric type", z3.And(z3.Not(name.dunder), B_(value_.dtype._kind in tuple("biuf"))))]
        cur["iinv"], cur["ihavoc"] = iinv, lambda L: []
        depths = []

        def check_depth(node, k):
            depths.append((node, k))
            if c.decide(c.fresh(B, "too_deep")):
                G.raised = True
                raise ValueError("too deep")
        ev = object.__new__(Ev)
        ev._check_depth = check_depth
        try:
            r = outcome(Ev.__init__, ev, text, fields)
        finally:
            m.ast, m.len = ast, old_len
            for k, o in (("iter", old_iter), ("next", old_next), ("list", old_list)):
                if o is None:
                    del m.__dict__[k]
                else:
                    setattr(m, k, o)
        if r is REFUSED:
            bad = B_(G.raised)
            for name, v in st.get("pairs", {}).values():
                bad = z3.Or(bad, name.dunder, B_(v.dtype._kind == "O"))
            S.prove("only what is beyond the limits is refused", z3.Or(bad, nbytes > 4096, nodes > 128))
            return
        S.prove("an expression has at most 4096 bytes and 128 nodes", z3.And(nbytes <= 4096, nodes <= 128))
        S.prove("the nesting of the whole expression was checked", B_(any(t is tree and k == 1 for t, k in depths)))
        S.prove("the evaluator reads the fields it was given", B_(ev.arrays is fields and ev.tree is tree))
        S.prove("the number of samples is the length of the first field", int_term(ev.length) == G.n)
        S.prove("an intermediate array has at most max(4096, 8n) entries", int_term(ev.max_elements) == G.max)
        S.prove("the error text names the expression", B_(ev.expression is text))
    S.run("SafeFilterEvaluator.__init__, any number of fields", construction)

    def entry():
        got = []

        class E:
            def __init__(self, *a):
                got.append(a)

            def evaluate(self):
                return got
        old, m.SafeFilterEvaluator = m.SafeFilterEvaluator, E
        try:
            ctx()
            r = m.evaluate_filter_condition("e", "fields")
        finally:
            m.SafeFilterEvaluator = old
        S.prove("a condition is evaluated by the checked evaluator on the given fields", B_(r is got and got == [("e", "fields")]))
    S.run("evaluate_filter_condition", entry)

    # ---- 13. filtering
    d = w.module(DATA)

    def filtering():
        G = GH(S, m)
        G.np, G.funs, G.power_ok = m.np, list(funs.values()), False
        c = ctx()
        nk, kept = c.fresh(I, "fields"), c.fresh(I, "kept")
        c.add(z3.And(nk >= 1, kept >= 0, kept <= G.n))
        watched = c.fresh(I, "watched_field")
        c.add(z3.And(watched >= 0, watched < nk))
        cond, picked = Arr("condition", None, Dtype("b")), Arr("positions")
        st = {"phase": "entry", "set": B_(False)}

        class Key:
            def __init__(self, i):
                self.i = i

            def __eq__(self, o):
                if isinstance(o, Key):
                    return SymBool(self.i == o.i)
                raise Unsupported("a field's name is looked at")

            __hash__ = None
            __pyvc_type__ = str

            def __getattr__(self, k):
                if k.startswith("_"):
                    raise AttributeError(k)
                raise Unsupported("a field's name is looked at")

        class Row:
            """Field i before (old) or after filtering."""

            def __init__(self, i, new):
                self.i, self.new = i, new

            def __getitem__(self, k):
                if isinstance(k, tuple) and len(k) == 2 and k[1] is Ellipsis:
                    k = k[0]
                if k is picked or k is cond:
                    S.prove("a field is filtered once", z3.BoolVal(True) if self.new is None else z3.Not(self.new))
                    return Row(self.i, z3.BoolVal(True))
                raise Unsupported("another index of a field")

            def __pyvc_len__(self):
                return SymInt(z3.If(self.new, kept, G.n)) if self.new is not None else SymInt(G.n)

        class Data:
            """The dictionary: the watched field was replaced by its kept samples, or not yet."""
            __pyvc_heap__ = True
            __hash__ = None

            def __init__(self):
                self.set = B_(False)

            def keys(self):
                return CSeq(nk, lambda i: Key(i))

            def items(self):
                return CSeq(nk, lambda i: (Key(i), self[Key(i)]))

            def values(self):
                return CSeq(nk, lambda i: self[Key(i)])

            def __getitem__(self, k):
                if not isinstance(k, Key):
                    raise KeyError(k)
                new = c.fresh(B, "already_filtered")
                c.add(z3.Implies(k.i == watched, new == self.set))
                if st["phase"] == "body":      # the fields not reached yet are as they were, those passed are filtered
                    i = cur.get("at")
                    c.add(new == B_(False)) if i is not None and z3.eq(z3.simplify(k.i), z3.simplify(i)) else None
                if st["phase"] == "after":
                    c.add(new)
                return Row(k.i, new)

            def __setitem__(self, k, v):
                ok = isinstance(k, Key) and isinstance(v, Row)
                S.prove("a field is replaced by its own kept samples", z3.And(B_(ok), k.i == v.i, v.new) if ok else B_(False))
                self.set = z3.Or(self.set, k.i == watched)

            def __delitem__(self, k):
                S.prove("no field is removed", B_(False))
        data = Data()

        def finv(L):
            if st["phase"] == "entry":
                st["phase"] = "head"
                return [("nothing is filtered before the loop", data.set == (watched < 0))]
            if st["phase"] == "head":
                st["phase"] = "body"
                cur["at"] = L.i.t
                return [("the fields passed are filtered", data.set == (watched < L.i.t))]
            return [("the fields passed are filtered", data.set == (watched < L.i.t))]
        cur["finv"] = finv
        cur["fhavoc"] = lambda L: [("attr", data, "set", lambda v: c.fresh(B, "watched_is_filtered"))]
        evs = []

        class Mod:
            @staticmethod
            def evaluate_filter_condition(e, fields):
                S.prove("the condition is evaluated on all fields before any of them is filtered", z3.And(B_(fields is data), z3.Not(data.set)))
                evs.append(e)
                return cond
        filt = w.modules[MOD]
        olds = filt.evaluate_filter_condition
        filt.evaluate_filter_condition = Mod.evaluate_filter_condition

        class N:
            def nonzero(self, x):
                if x is not cond:
                    raise Unsupported("the positions of something else")
                return (picked,)

            def flatnonzero(self, x):
                return self.nonzero(x)[0]

            def where(self, x):
                return self.nonzero(x)

            def __getattr__(self, k):
                raise Unsupported(f"numpy.{k}")
        old_np, d.np = d.np, N()

        class First:
            pass

        def it(x, *a):
            if isinstance(x, CSeq):
                f = First()
                f.seq = x
                return f
            return builtins.iter(x, *a)

        def nx(x, *a):
            if isinstance(x, First):
                st["phase"] = "after"
                return x.seq.at(z3.IntVal(0))
            return builtins.next(x, *a)
        d.iter, d.next = it, nx
        text = "condition"
        try:
            r = outcome(d.filter_data_by_condition, text, data)
        finally:
            filt.evaluate_filter_condition, d.np = olds, old_np
            del d.__dict__["iter"], d.__dict__["next"]
        S.prove("filtering by an accepted condition does not fail", B_(r is not REFUSED))
        S.prove("the condition is evaluated once, as given", B_(evs == [text]))
        S.prove("every field keeps exactly the samples whose entry is true, in order", data.set)
        S.prove("the number of kept samples is returned", int_term(r) == kept)
    S.run("filter_data_by_condition, any number of fields", filtering)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
