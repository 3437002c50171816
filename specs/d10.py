"""D10 - evaluation statistics: accumulators, what one batch contributes, and the totals over batches and ranks."""
import itertools
import types

import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymBool, SymInt, SymReal, LazySeq, int_term, to_bool_term
from pyvc.load import World, LoopSpec, NONE

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
TRUSTED = ["torch's elementwise operations, sums, maxima and constructors (an elementwise operation is described at one arbitrary element; "
           "float arithmetic is treated as real arithmetic)",
           "torch's row-wise operations (softmax, argmax, topk, any over dim=1.., flatten(start_dim=1), where, masked_fill, huber_loss and "
           "mse_loss with reduction='none') compute each row from that row alone",
           "accelerator.reduce returns the sum (maximum) over the ranks of what the ranks passed, accelerator.gather the ranks' values in rank order",
           "the registered finalizer and the schema check of a sufficient statistic depend only on the tensors and counts they are given"]


# ---------------------------------------------------------------------------------------------- tensors at one element
class Tensor:
    pass


class RT(Tensor):
    """A real tensor at one arbitrary element; shape, dtype and device are opaque names."""
    __hash__ = None

    def __init__(self, v, shape=None, dtype=None, device=None, ninf=None):
        self.v = v
        self.shape, self.dtype, self.device = (SymInt(z3.IntVal(0)) if x is None else x for x in (shape, dtype, device))
        self.ninf = z3.BoolVal(False) if ninf is None else ninf       # minus infinity

    def like(self, v, ninf=None):
        return RT(v, self.shape, self.dtype, self.device, ninf)

    def _v(self, o):
        if isinstance(o, RT):
            return o.v
        if isinstance(o, CT):
            return z3.ToReal(o.t)
        if isinstance(o, SymInt):
            return z3.ToReal(o.t)
        if isinstance(o, (SymReal,)):
            return o.t
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return z3.RealVal(o)
        raise Unsupported(f"tensor arithmetic with {type(o).__name__}")

    def __add__(self, o): return self.like(self.v + self._v(o))
    def __sub__(self, o): return self.like(self.v - self._v(o))
    def __mul__(self, o): return self.like(self.v * self._v(o))
    __radd__, __rmul__ = __add__, __mul__
    def __rsub__(self, o): return self.like(self._v(o) - self.v)
    def __neg__(self): return self.like(-self.v)

    def __truediv__(self, o):
        d = self._v(o)
        ctx().session.prove("nothing is divided by a zero count", d != 0)
        return self.like(self.v / d)

    def __pow__(self, n):
        if n != 2:
            raise Unsupported("a power other than the square")
        return self.like(self.v * self.v)

    def square(self): return self.like(self.v * self.v)
    def abs(self): return self.like(z3.If(self.v < 0, -self.v, self.v))
    def detach(self): return self
    def __gt__(self, o): return BT(self.v > self._v(o))
    def __lt__(self, o): return BT(self.v < self._v(o))
    def __ge__(self, o): return BT(self.v >= self._v(o))
    def __le__(self, o): return BT(self.v <= self._v(o))

    def to(self, d): return RT(self.v, self.shape, d, self.device, self.ninf)

    def item(self): return SymReal(self.v)

    def __getattr__(self, k):
        raise Unsupported(f"tensor.{k}")


class BT(Tensor):
    def __init__(self, t):
        self.t = t


class CT(Tensor):
    """A tensor made of one count."""
    __hash__ = None
    dtype = shape = device = SymInt(z3.IntVal(-1))

    def __init__(self, t):
        self.t = t

    def to(self, d):
        return CT(self.t)

    def item(self):
        return SymInt(self.t)

    def __getattr__(self, k):
        raise Unsupported(f"count.{k}")


def torch_stub():
    import torch as real

    class Torch(types.ModuleType):
        def __getattr__(self, k):
            return getattr(real, k)
    t = Torch("torch")
    t.Tensor = Tensor
    t.zeros_like = lambda x: x.like(z3.RealVal(0))
    t.ones_like = lambda x: x.like(z3.RealVal(1))

    def full_like(x, v):
        if v != -real.inf:
            raise Unsupported("full_like of something else than minus infinity")
        return x.like(z3.RealVal(0), z3.BoolVal(True))
    t.full_like = full_like

    def maximum(a, b):
        return a.like(z3.If(a.v >= b.v, a.v, b.v))
    t.maximum = maximum

    def any_(x):
        if not isinstance(x, BT):
            raise Unsupported("any of something else")
        return SymBool(x.t)
    t.any = any_
    t.finfo = lambda d: types.SimpleNamespace(eps=SymReal(EPS)) if not isinstance(d, real.dtype) else real.finfo(d)

    def tensor(v, dtype=None, device=None):
        if isinstance(v, list) and len(v) == 1:
            v = v[0]
        if not isinstance(v, (int, SymInt)) or isinstance(v, bool):
            raise Unsupported("a tensor made of something else than a count")
        return CT(int_term(v))
    t.tensor = tensor
    return t


EPS = z3.Real("eps_of_the_dtype")


# ---------------------------------------------------------------------------------------------- mappings at one key
class Key:
    """The arbitrary key under consideration."""
    __pyvc_type__ = str

    def __init__(self, of):
        self.of = of


class Keys:
    __hash__ = None

    def __init__(self, m):
        self.m = m

    def __ne__(self, o):
        return SymBool(self.m.keyset != o.m.keyset)

    def __eq__(self, o):
        return SymBool(self.m.keyset == o.m.keyset)

    __iter__ = None


class Values:
    def __init__(self, m):
        self.m = m
    __iter__ = None


class Items:
    def __init__(self, m):
        self.m = m
    __iter__ = None


class KMap:
    """A mapping with arbitrarily many keys, seen at one arbitrary key it has."""
    __pyvc_type__ = dict
    __hash__ = None

    def __init__(self, keyset, value, kind):
        self.keyset, self.value, self.kind = keyset, value, kind

    def __getitem__(self, k):
        if not isinstance(k, Key):
            raise Unsupported("a particular key of an arbitrary mapping")
        ctx().session.prove("a key of the other mapping is looked up only when both have the same keys", k.of.keyset == self.keyset)
        return self.value

    def keys(self): return Keys(self)
    def values(self): return Values(self)
    def items(self): return Items(self)
    __iter__ = None


def kcomp(base):
    def comp(kind, f, src, cond):
        if isinstance(src, (KMap, Keys, Values, Items)):
            if cond is not None:
                raise Unsupported("a selection of the keys")
            m = src if isinstance(src, KMap) else src.m
            k = Key(m)
            x = m.value if isinstance(src, Values) else (k, m.value) if isinstance(src, Items) else k
            if kind == "dict":
                a, b = f(x)
                if not (isinstance(a, Key) and a.of.keyset is m.keyset):
                    raise Unsupported("a mapping with other keys")
                return KMap(m.keyset, b, m.kind)
            if kind == "gen":
                # the arbitrary key, then some other one
                return iter([f(x)] if ctx().ghost.get("valid") else [f(x), SymBool(ctx().fresh(B, "at_another_key"))])
            raise Unsupported(f"{kind} comprehension over a mapping")
        return base(kind, f, src, cond)
    return comp


def fresh_rt(name, like=None):
    c = ctx()
    if like is not None:
        return like.like(c.fresh(R, name))
    return RT(c.fresh(R, name), *(SymInt(c.fresh(I, f"{name}_{k}")) for k in ("shape", "dtype", "device")))


def count(name):
    c = ctx()
    n = c.fresh(I, name)
    c.add(n >= 0)
    return SymInt(n)


# ---------------------------------------------------------------------------------------------- accumulators
def core_world(loops=None):
    w = World(loops, stubs={"torch": torch_stub()})
    m = w.module("dataset.core")
    m.__pyvc_comp__ = kcomp(m.__pyvc_comp__)
    return w, m


class Finalizers:
    """The registry: an unknown name may come up; a known finalizer answers or refuses."""

    def __contains__(self, k):
        return isinstance(k, Fid)

    def __getitem__(self, k):
        return k.call


class Fid:
    __pyvc_type__ = str
    __hash__ = None

    def __init__(self, n, call=None):
        self.n, self.call = n, call

    def __eq__(self, o):
        return SymBool(self.n == o.n)

    def __ne__(self, o):
        return SymBool(self.n != o.n)


SCOPES = ("global_batch", "evaluation")


def accumulators(S):
    w, m = core_world()
    m.FINALIZERS = Finalizers()
    checked = []
    m._validate_sufficient_stats_schema = lambda fid, t, c: checked.append((fid, t, c))

    def same(*pairs):
        return z3.And([a.t == b.t for a, b in pairs])

    def scope(name):
        return SCOPES[0] if ctx().decide(ctx().fresh(B, name)) else SCOPES[1]

    def form(a, b):
        return same((a.shape, b.shape), (a.dtype, b.dtype), (a.device, b.device))

    def h_sumcount():
        a, b = (m.SumCount(scope(n), fresh_rt(n), count("count_" + n)) for n in "ab")
        try:
            r = a.combine(b)
        except ValueError:
            S.prove("only values of different form are refused", z3.Not(z3.And(z3.BoolVal(a.scope == b.scope), form(a.sum, b.sum))))
            return
        S.prove("values of different form do not combine", z3.And(z3.BoolVal(a.scope == b.scope), form(a.sum, b.sum)))
        S.prove("sums add", r.sum.v == a.sum.v + b.sum.v)
        S.prove("counts add", int_term(r.count) == int_term(a.count) + int_term(b.count))
        S.prove("the form is kept", z3.And(z3.BoolVal(r.scope == a.scope), form(r.sum, a.sum)))
    S.run("SumCount.combine", h_sumcount)

    def h_sumcount_fin():
        a = m.SumCount(scope("s"), fresh_rt("a"), count("count"))
        try:
            r = a.finalize()
        except ValueError:
            S.prove("only an empty sum is refused", int_term(a.count) == 0)
            return
        S.prove("the mean is the sum over the count", z3.And(int_term(a.count) > 0, r.v * z3.ToReal(int_term(a.count)) == a.sum.v))
    S.run("SumCount.finalize", h_sumcount_fin)

    def h_bad(make, what):
        def h():
            n = SymInt(ctx().fresh(I, "n"))
            try:
                make(n)
            except ValueError:
                S.prove("only a negative count is refused", n.t < 0)
                return
            S.prove(what, n.t >= 0)
        return h
    S.run("SumCount.__post_init__", h_bad(lambda n: m.SumCount("evaluation", fresh_rt("a"), n), "a count is never negative"))
    S.run("Maximum.__post_init__", h_bad(lambda n: m.Maximum("evaluation", fresh_rt("a"), n), "a count is never negative"))

    def h_max():
        a, b = (m.Maximum("evaluation", fresh_rt(n), count("count_" + n)) for n in "ab")
        try:
            r = a.combine(b)
        except ValueError:
            S.prove("only values of different form are refused", z3.Not(form(a.value, b.value)))
            return
        na, nb, nr = (int_term(x.valid_count) for x in (a, b, r))
        S.prove("values of different form do not combine", form(a.value, b.value))
        S.prove("counts add", nr == na + nb)
        # a maximum is the set of values it has seen: empty counts, and otherwise the greatest
        S.prove("the maximum of both sides that have values", z3.And(
            z3.Implies(z3.And(na > 0, nb > 0), r.value.v == z3.If(a.value.v >= b.value.v, a.value.v, b.value.v)),
            z3.Implies(z3.And(na > 0, nb == 0), r.value.v == a.value.v),
            z3.Implies(z3.And(na == 0, nb > 0), r.value.v == b.value.v)))
        S.prove("the form is kept", z3.And(z3.BoolVal(r.scope == "evaluation"), form(r.value, a.value)))
    S.run("Maximum.combine", h_max)

    def h_max_fin():
        a = m.Maximum("evaluation", fresh_rt("a"), count("count"))
        try:
            r = a.finalize()
        except ValueError:
            S.prove("only an empty maximum is refused", int_term(a.valid_count) == 0)
            return
        S.prove("a maximum is the value it holds", z3.And(int_term(a.valid_count) > 0, r.v == a.value.v))
    S.run("Maximum.finalize", h_max_fin)

    def valid(*a):
        """The statistic is one that could be made: what its constructor checks holds at every key."""
        g = ctx().ghost
        g["valid"] = True
        try:
            return m.SufficientStats(*a)
        finally:
            g["valid"] = False

    def stats(n, fid, t=None, c=None):
        k = ctx()
        ts = t or KMap(k.fresh(I, "tensor_keys_" + n), fresh_rt("tensor_" + n), "tensors")
        cs = c or KMap(k.fresh(I, "count_keys_" + n), count("count_" + n), "counts")
        return valid(scope("scope_" + n), fid, ts, cs)

    def h_stats():
        c = ctx()
        a, b = (stats(n, Fid(c.fresh(I, "finalizer_" + n))) for n in "ab")
        like = z3.And(z3.BoolVal(a.scope == b.scope), a.finalizer_id.n == b.finalizer_id.n, a.tensors.keyset == b.tensors.keyset,
                      a.counts.keyset == b.counts.keyset)
        del checked[:]
        try:
            r = a.combine(b)
        except (ValueError, TypeError):
            # refused at this key or at another one
            return
        S.prove("values of different form do not combine", z3.And(like, form(a.tensors.value, b.tensors.value)))
        S.prove("every tensor adds", r.tensors.value.v == a.tensors.value.v + b.tensors.value.v)
        S.prove("every count adds", int_term(r.counts.value) == int_term(a.counts.value) + int_term(b.counts.value))
        S.prove("the form is kept", z3.And(z3.BoolVal(r.scope == a.scope), r.finalizer_id.n == a.finalizer_id.n,
                                           r.tensors.keyset == a.tensors.keyset, r.counts.keyset == a.counts.keyset,
                                           form(r.tensors.value, a.tensors.value)))
        S.prove("the sum's schema is checked", z3.BoolVal(len(checked) == 1 and checked[0][1] is r.tensors and checked[0][2] is r.counts))
    S.run("SufficientStats.combine", h_stats)

    def h_stats_ok():
        """At matching forms the only way to be refused is at another key."""
        c = ctx()
        fid = Fid(c.fresh(I, "finalizer"))
        keys = c.fresh(I, "keys")
        a = valid("evaluation", fid, KMap(keys, fresh_rt("a"), "t"), KMap(keys, count("n"), "c"))
        b = valid("evaluation", fid, KMap(keys, fresh_rt("b", a.tensors.value), "t"), KMap(keys, count("k"), "c"))
        import builtins
        other = []

        def comp(kind, f, src, cond):
            r = base(kind, f, src, cond)
            if kind == "gen":
                x = next(r)
                other.append(x)
                return iter([x])
            return r
        base = m.__pyvc_comp__
        m.__pyvc_comp__ = comp
        try:
            r = a.combine(b)
        except ValueError:
            S.prove("values of the same form combine", z3.BoolVal(False))
            return
        finally:
            m.__pyvc_comp__ = base
        S.prove("values of the same form combine", z3.BoolVal(bool(other)))
    S.run("SufficientStats.combine of equal form", h_stats_ok)

    def h_stats_fin():
        c = ctx()
        got = []
        out = object()

        def call(t, n):
            got.append((t, n))
            return out
        a = stats("a", Fid(c.fresh(I, "finalizer"), call))
        r = a.finalize()
        S.prove("the registered finalizer sees the totals and nothing else", z3.BoolVal(
            r is out and len(got) == 1 and got[0][0] is a.tensors and got[0][1] is a.counts))
    S.run("SufficientStats.finalize", h_stats_fin)

    def h_laws():
        """What the contracts above say combine is, as a law over the values."""
        c = ctx()
        x, y, z = (c.fresh(R, n) for n in "xyz")
        i, j, k = (c.fresh(I, "n" + n) for n in "xyz")
        c.add(z3.And(i >= 0, j >= 0, k >= 0))

        def mx(p, q):
            (a, na), (b, nb) = p, q
            return z3.If(na == 0, b, z3.If(nb == 0, a, z3.If(a >= b, a, b))), na + nb

        def eq(p, q):
            return z3.And(p[1] == q[1], z3.Implies(p[1] > 0, p[0] == q[0]))
        A, Bb, C = (x, i), (y, j), (z, k)
        S.prove("the maximum is associative", eq(mx(mx(A, Bb), C), mx(A, mx(Bb, C))))
        S.prove("the maximum is commutative", eq(mx(A, Bb), mx(Bb, A)))
        S.prove("sums are associative and commutative", z3.And((x + y) + z == x + (y + z), x + y == y + x))
    S.run("lemma: laws of combine", h_laws)


# ---------------------------------------------------------------------------------------------- finalizers
GV, GC = z3.Function("total", I, I, R), z3.Function("total_count", I, I, I)      # field, item
WT = z3.Function("weight", I, I, R)                                             # kind of term, item
VQ = z3.Function("vq_value", I, R)
SUMS = z3.Function("terms_up_to", I, I, R)                                      # kind of term, how many items
FIELDS = ["mean_sum:", "mean_weight_sum:", "mean_weight_square_sum:", "mean_count:", "mean_replicas:",
          "reg_sum:", "reg_weight_sum:", "reg_weight_square_sum:", "reg_cells:", "reg_replicas:"]


ITEMS = []


def token(kind, j):
    """The id of item j of one kind of term: a string nobody else makes."""
    ITEMS.append((kind, j))
    return f"\x00{len(ITEMS) - 1}\x01"


def parse(k):
    """(text before the id, the item) of a key that ends with an item's id."""
    if not isinstance(k, str) or k.count("\x00") != 1 or not k.endswith("\x01"):
        raise Unsupported("another key of the composition")
    pre, _, num = k[:-1].partition("\x00")
    return pre, ITEMS[int(num)]


def finalizers(S):
    def h_mean_square():
        w, m = core_world()
        t, n = fresh_rt("sum"), SymInt(ctx().fresh(I, "cells"))
        ctx().add(n.t >= 0)
        try:
            r = m._finalize_mean_square({"valid_logit_sum": t}, {"valid_cells": n})
        except ValueError:
            S.prove("only no cells are refused", n.t == 0)
            return
        S.prove("the squared mean of the totals", z3.And(n.t > 0, r.v * z3.ToReal(n.t) * z3.ToReal(n.t) == t.v * t.v))
    S.run("_finalize_mean_square", h_mean_square)

    def h_mean():
        w, m = core_world()
        t, n = fresh_rt("sum"), SymInt(ctx().fresh(I, "count"))
        try:
            r = m._finalize_mean({"sum": t}, {"count": n})
        except ValueError:
            S.prove("only no values are refused", n.t <= 0)
            return
        S.prove("the mean of the totals", z3.And(n.t > 0, r.v * z3.ToReal(n.t) == t.v))
    S.run("_finalize_mean", h_mean)

    def h_const():
        w, m = core_world()
        c = ctx()
        c.add(EPS > 0)
        v, n = c.fresh(R, "constant"), SymInt(c.fresh(I, "replicas"))
        a = RT(v * z3.ToReal(n.t))
        try:
            r = m._constant_mean({"s": a, "q": RT(v * v * z3.ToReal(n.t))}, {"n": n}, sum_key="s", square_sum_key="q", replica_key="n")
        except ValueError:
            S.prove("equal constants are refused only without replicas", n.t <= 0)
            return
        S.prove("equal constants have their value as mean", z3.And(n.t > 0, r.v == v))
    S.run("_constant_mean", h_const)

    def h_const_any():
        w, m = core_world()
        c = ctx()
        c.add(EPS > 0)
        n = SymInt(c.fresh(I, "replicas"))
        a, q = fresh_rt("sum"), fresh_rt("squares")
        try:
            r = m._constant_mean({"s": a, "q": q}, {"n": n}, sum_key="s", square_sum_key="q", replica_key="n")
        except ValueError:
            return
        S.prove("a constant is the mean of its replicas", z3.And(n.t > 0, r.v * z3.ToReal(n.t) == a.v))
    S.run("_constant_mean of any totals", h_const_any)

    def h_replicated():
        w, m = core_world()
        a, q, n, out = object(), object(), object(), object()
        got = []

        def cm(t, k, *, sum_key, square_sum_key, replica_key):
            got.append((t[sum_key], t[square_sum_key], k[replica_key]))
            return out
        m._constant_mean = cm
        r = m._finalize_replicated_constant({"sum": a, "square_sum": q}, {"replicas": n})
        S.prove("a replicated constant is the mean of its replicas", z3.BoolVal(r is out and got == [(a, q, n)]))
    S.run("_finalize_replicated_constant", h_replicated)

    composition(S)
    kd(S)


def composition(S):
    """_finalize_composition_group over arbitrarily many terms of each kind."""
    class Ids:
        def __init__(self, kind, n):
            self.kind, self.n = kind, n

    class IdSeq(LazySeq):
        __hash__ = None

        def __init__(self, ids):
            self.ids = ids

        def length(self):
            return SymInt(self.ids.n)

        def at(self, i):
            return token(self.ids.kind, int_term(i))

    class Bag:
        """expected keys; only added to here"""
        def update(self, x):
            pass

    class Totals:
        __pyvc_type__ = dict
        __hash__ = None

        def __init__(self, kind):
            self.kind = kind

        def field(self, k):
            pre, (kind, j) = parse(k)
            f = pre[:-2]
            if not pre.endswith("G.") or f not in FIELDS or kind > 1 or ["mean", "reg"][kind] != f.split("_")[0]:
                raise Unsupported("a key of another kind of term")
            return FIELDS.index(f), j

        def __getitem__(self, k):
            f, j = self.field(k)
            if self.kind == "tensors":
                return RT(GV(f, j))
            return SymInt(GC(f, j))

        def get(self, k, d):
            f, j = self.field(k)
            return SymInt(GC(f, j))        # the key is there, by the schema

    def term(kind, j):
        b = 5 * kind
        if kind == 0:
            return WT(0, j) * GV(b, j) / z3.ToReal(GC(b + 3, j))
        if kind == 1:
            q = GV(b, j) / z3.ToReal(GC(b + 3, j))
            return WT(1, j) * (q * q)
        return VQ(j)

    def unfold(kind, i):
        ctx().add(z3.And(SUMS(kind, 0) == 0, SUMS(kind, i + 1) == SUMS(kind, i) + term(kind, i)))

    def value(x):
        return z3.RealVal(0) if x is None else x.v

    def carry(v):
        # before the first term there is no result yet
        c = ctx()
        if c.decide(c.fresh(B, "none_yet")):
            return NONE
        return RT(c.fresh(R, "so_far"))

    def inv(kind):
        def f(L):
            i = L.i.t
            unfold(kind, i)
            unfold(kind, i - 1)
            done = z3.RealVal(0)
            n = ctx().ghost["n"]
            for k in range(kind):
                done = done + SUMS(k, n[k])
            yield "the result is the sum of the terms so far", value(L.result) == done + SUMS(kind, i)
            yield "there is a result after a term", z3.BoolVal(L.result is not None) == (i + sum(n[:kind]) > 0)
        return f
    drop = {k: (lambda v: None) for k in ("prefix", "sum_key", "weight_sum_key", "weight_square_key", "count_key", "replica_key", "cell_key",
                                          "weight", "value", "nested_tensors", "nested_counts", "item_id")}
    key = "dataset.core:_finalize_composition_group#%d"
    w, m = core_world({key % k: LoopSpec(inv(k), types={"result": carry, **drop}) for k in range(3)})
    base = m.__pyvc_comp__

    def ids(mapping, prefix):
        n = ctx().ghost["n"]
        kinds = {"mean_sum:G.": 0, "reg_sum:G.": 1}
        if not isinstance(mapping, Totals) or prefix not in kinds:
            raise Unsupported("the ids of another field")
        return Ids(kinds[prefix], n[kinds[prefix]])
    m._schema_ids = ids

    def comp(kind, f, src, cond):
        if isinstance(src, Totals):
            if kind == "set" and cond is not None:        # the ids of the nested statistics
                return Ids(2, ctx().ghost["n"][2])
            raise Unsupported("another comprehension over the totals")
        if isinstance(src, Nested):      # the nested keys, only collected
            return ()
        return base(kind, f, src, cond)
    m.__pyvc_comp__ = comp
    m.sorted = lambda x, **k: IdSeq(x) if isinstance(x, Ids) else sorted(x, **k)
    class Nested:
        def __init__(self, item):
            self.item = item

    def nested(t, n, prefix, item):
        pre, it = parse(item)
        if prefix != "vq" or pre != "G." or it[0] != 2:
            raise Unsupported("another nested statistic")
        return Nested(it), Nested(it)
    m._extract_nested_stats = nested

    def vq(t, n):
        if t.item is not n.item:
            raise Unsupported("tensors and counts of different statistics")
        c = ctx()
        if c.decide(c.fresh(B, "vq_refused")):
            raise ValueError("VQ slot has no selected entries")
        return RT(VQ(t.item[1]))
    m._finalize_vq_composition = vq

    def const(t, n, *, sum_key, square_sum_key, replica_key):
        f = [t.field(sum_key), t.field(square_sum_key), n.field(replica_key)]
        kind, j = parse(sum_key)[1]
        ok = [x[0] for x in f] == [5 * kind + 1, 5 * kind + 2, 5 * kind + 4] and all(x[1] is j for x in f)
        S.prove("a term's weight is made of its own weight totals", z3.BoolVal(ok))
        c = ctx()
        if c.decide(c.fresh(B, "weights_differ")):
            raise ValueError("replicated constant differs across ranks")
        return RT(WT(kind, j))
    m._constant_mean = const

    def h():
        c = ctx()
        n = [c.fresh(I, k) for k in ("means", "regularizers", "vqs")]
        for k in n:
            c.add(k >= 0)
        c.ghost["n"] = n
        try:
            r = m._finalize_composition_group(Totals("tensors"), Totals("counts"), "G", Bag(), Bag())
        except ValueError:
            return
        S.prove("a composition is the sum of its weighted terms", value(r) == SUMS(0, n[0]) + SUMS(1, n[1]) + SUMS(2, n[2]))
        S.prove("a composition without terms has no value", z3.BoolVal(r is not None) == (n[0] + n[1] + n[2] > 0))
    S.run("_finalize_composition_group", h)


VF = ["embed_sum:", "commit_sum:", "slot_weight_sum:", "slot_weight_square_sum:", "commit_weight_sum:", "commit_weight_square_sum:",
      "probability_sum:", "entropy_weight_sum:", "entropy_weight_square_sum:", "elements:", "vectors:", "constant_replicas:"]
SV, SC = z3.Function("slot_total", I, I, R), z3.Function("slot_count", I, I, I)
SW = z3.Function("slot_constant", I, I, R)          # which constant, slot
PLOGP = z3.Function("sum_p_log_p", I, R)
ENTROPIC = z3.Function("slot_has_entropy", I, B)
SLOTS = z3.Function("slots_up_to", I, R)


def vq(S):
    """_finalize_vq_composition over arbitrarily many slots."""
    class Slots:
        pass

    class SlotSeq(LazySeq):
        __hash__ = None

        def __init__(self, n):
            self.n = n

        def length(self):
            return SymInt(self.n)

        def at(self, i):
            return token(9, int_term(i))

    class Vec(Tensor):
        """the slot's probability vector on its way to the entropy"""
        __hash__ = None

        def __init__(self, j, state):
            self.j, self.state = j, state

        def __truediv__(self, n):
            if self.state != "sum":
                raise Unsupported("another use of the probabilities")
            S.prove("probabilities are totals over the total number of vectors", z3.And(int_term(n) == SC(10, self.j), int_term(n) > 0))
            return Vec(self.j, "p")

        def clamp_min(self, e):
            return Vec(self.j, "clamped" if self.state == "p" and 0 < e < 1e-3 else None)

        def __mul__(self, o):
            return Vec(self.j, "plogp" if isinstance(o, Vec) and o.j is self.j and {self.state, o.state} == {"p", "log"} else None)

        def sum(self):
            if self.state != "plogp":
                raise Unsupported("another sum over the probabilities")
            return RT(PLOGP(self.j))

    class Totals:
        __pyvc_type__ = dict
        __hash__ = None

        def field(self, k):
            pre, (kind, j) = parse(k)
            if kind != 9 or pre not in VF:
                raise Unsupported("another key of the slots")
            return VF.index(pre), j

        def __getitem__(self, k):
            f, j = self.field(k)
            return Vec(j, "sum") if f == 6 else RT(SV(f, j))

        def get(self, k, d):
            f, j = self.field(k)
            return SymInt(SC(f, j))

    class TotalKeys:
        __hash__ = None

        def __rand__(self, keys):
            keys = set(keys)
            f = {t.field(k)[0] for k in keys}
            j = t.field(next(iter(keys)))[1]
            if f != {6, 7, 8}:
                raise Unsupported("a question about other keys")
            return keys if ctx().decide(ENTROPIC(j)) else set()

        __and__ = __rand__

        def __ne__(self, o):
            return False       # checked when the statistic was made (precondition)

        def __eq__(self, o):
            return True
    t = Totals()

    def term(j):
        el = z3.ToReal(SC(9, j))
        return SW(0, j) * ((SV(0, j) + SW(1, j) * SV(1, j)) / el + z3.If(ENTROPIC(j), SW(2, j) * PLOGP(j), 0))

    def unfold(i):
        ctx().add(z3.And(SLOTS(0) == 0, SLOTS(i + 1) == SLOTS(i) + term(i)))

    def carry(v):
        c = ctx()
        if c.decide(c.fresh(B, "none_yet")):
            return NONE
        return RT(c.fresh(R, "so_far"))

    def inv(L):
        i = L.i.t
        unfold(i)
        unfold(i - 1)
        yield "the result is the sum over the slots so far", (z3.RealVal(0) if L.result is None else L.result.v) == SLOTS(i)
        yield "there is a result after a slot", z3.BoolVal(L.result is not None) == (i > 0)
    drop = {k: (lambda v: None) for k in (
        "tensor_keys", "count_keys", "elements", "vectors", "slot_weight", "commitment_weight", "slot_value", "probability_key",
        "entropy_sum_key", "entropy_square_key", "entropy_keys", "has_entropy", "entropy_weight", "probability", "entropy_regularizer",
        "weighted", "slot_id")}

    class Bag:
        def update(self, x):
            pass
    w, m = core_world({"dataset.core:_finalize_vq_composition#0": LoopSpec(
        inv, types={"result": carry, "expected_tensors": lambda v: Bag(), "expected_counts": lambda v: Bag(), **drop})})

    def ids(mapping, prefix):
        if mapping is not t or prefix != "embed_sum:":
            raise Unsupported("the ids of another field")
        return Slots()
    m._schema_ids = ids
    m.sorted = lambda x, **k: SlotSeq(ctx().ghost["n"]) if isinstance(x, Slots) else sorted(x, **k)
    m.set = lambda *a: TotalKeys() if a and a[0] is t else set(*a)

    def log(x):
        return Vec(x.j, "log" if x.state == "clamped" else None)
    m.torch.log = log

    def const(tt, n, *, sum_key, square_sum_key, replica_key):
        f = [t.field(sum_key), t.field(square_sum_key), t.field(replica_key)]
        j = f[0][1]
        which = [x[0] for x in f]
        pairs = {2: (0, [2, 3, 11]), 4: (1, [4, 5, 11]), 7: (2, [7, 8, 11])}
        ok = which[0] in pairs and which == pairs[which[0]][1] and all(x[1] is j for x in f)
        S.prove("a slot's constant is made of its own totals", z3.BoolVal(ok))
        c = ctx()
        if c.decide(c.fresh(B, "constants_differ")):
            raise ValueError("replicated constant differs across ranks")
        return RT(SW(pairs[which[0]][0], j))
    m._constant_mean = const

    def h():
        c = ctx()
        n = c.fresh(I, "slots")
        c.add(n >= 1)
        c.ghost["n"] = n
        try:
            r = m._finalize_vq_composition(t, t)
        except ValueError:
            return
        S.prove("a VQ loss is the weighted sum over its slots", r.v == SLOTS(n))
    S.run("_finalize_vq_composition", h)


def kd(S):
    vq(S)
    names = {"kd_alpha_sum", "kd_alpha_square_sum", "kd_temperature_sum", "kd_temperature_square_sum", "kd_config_replicas"}

    class Some(dict):
        """the totals: only handed on"""
        def __getitem__(self, k):
            raise Unsupported("a total is looked at here")

    def world():
        w, m = core_world()
        c = ctx()
        given = (Some.fromkeys(n for n in names if n != "kd_config_replicas"), Some.fromkeys(["kd_config_replicas"]))
        vals = {}

        def group(t, n, g, et, en):
            S.prove("the groups are made of the given totals", z3.BoolVal(t is given[0] and n is given[1]))
            vals[g] = None if c.decide(c.fresh(B, "no_" + g)) else RTz(c.fresh(R, g))
            return vals[g]
        m._finalize_composition_group = group

        def const(t, n, *, sum_key, square_sum_key, replica_key):
            k = sum_key[:-len("_sum")]
            S.prove("a setting is made of its own totals", z3.BoolVal(
                (sum_key, square_sum_key, replica_key) == (f"{k}_sum", f"{k}_square_sum", "kd_config_replicas")
                and k in ("kd_alpha", "kd_temperature") and t is given[0] and n is given[1]))
            vals[k] = RTz(c.fresh(R, k))
            return vals[k]
        m._constant_mean = const
        return m, given, vals

    class RTz(RT):
        def new_zeros(self, shape):
            return RT(z3.RealVal(0))

        def like(self, v, ninf=None):
            return RTz(v)

    def h_kd():
        m, given, vals = world()
        try:
            r = m._finalize_kd_total(*given)
        except ValueError:
            S.prove("only a total without target terms is refused", z3.BoolVal(vals.get("kd") is None or vals.get("real") is None))
            return
        S.prove("every part is there", z3.BoolVal({"kd", "real", "independent", "kd_alpha", "kd_temperature"} == set(vals)))
        a, T = vals["kd_alpha"].v, vals["kd_temperature"].v
        ind = vals["independent"]
        S.prove("the distillation total mixes teacher and target terms by the settings", z3.And(
            z3.BoolVal(vals["kd"] is not None and vals["real"] is not None),
            r.v == a * T * T * vals["kd"].v + (1 - a) * vals["real"].v + (0 if ind is None else ind.v)))
    S.run("_finalize_kd_total", h_kd)

    def h_loss():
        m, given, vals = world()
        empty = (Some(), Some())
        given = empty

        def group(t, n, g, et, en):
            S.prove("the total is made of the given totals", z3.BoolVal(t is empty[0] and n is empty[1] and g == "all"))
            vals[g] = None if ctx().decide(ctx().fresh(B, "no_terms")) else RT(ctx().fresh(R, "total"))
            return vals[g]
        m._finalize_composition_group = group
        try:
            r = m._finalize_loss_composition(*empty)
        except ValueError:
            S.prove("only a total without terms is refused", z3.BoolVal(vals["all"] is None))
            return
        S.prove("the total loss is the sum of its terms", z3.BoolVal(r is vals["all"] and r is not None))
    S.run("_finalize_loss_composition", h_loss)


# ---------------------------------------------------------------------------------------------- the trainer's totals
# statistic i of a dictionary: its kind, what this rank holds (L...), what all ranks hold together (T...)
KIND = z3.Function("kind", I, I)                       # 0 SumCount, 1 Maximum, 2 SufficientStats
GLOBAL = z3.Function("closes_with_the_batch", I, B)    # scope "global_batch"
LS, LC = z3.Function("local_sum", I, R), z3.Function("local_count", I, I)
LM = z3.Function("local_maximum", I, R)
LT, LN = z3.Function("local_tensor", I, R), z3.Function("local_tensor_count", I, I)      # at the arbitrary key
TS, TC, TM = z3.Function("all_ranks_sum", I, R), z3.Function("all_ranks_count", I, I), z3.Function("all_ranks_maximum", I, R)
TT, TN = z3.Function("all_ranks_tensor", I, R), z3.Function("all_ranks_tensor_count", I, I)
FIN = z3.Function("finalized", I, R)                   # what the registered finalizer says of the totals of item i
BASE = "trainer.base:BaseTrainer."


def trainer(S):
    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return type(k, (), {})

    class Accel:
        """One rank of arbitrarily many; `hold` says what the ranks hold together of what this one passed."""
        device = SymInt(z3.IntVal(0))

        def __init__(self, include):
            self.include = include
            self.num_processes = SymInt(ctx().fresh(I, "ranks"))
            ctx().add(self.num_processes.t >= 1)
            self.is_main_process = SymBool(ctx().fresh(B, "main"))

        def reduce(self, x, reduction="mean"):
            c = ctx()
            inc = self.include
            g = c.ghost["at"]
            i, k = g.i, g.kind
            if reduction == "max":
                S.prove("a rank without values takes no part in the maximum", z3.And(
                    z3.BoolVal(isinstance(x, RT)), z3.BoolVal(k == 1),
                    z3.Implies(LC(i) > 0, z3.And(x.v == LM(i), z3.Not(x.ninf))), z3.Implies(LC(i) == 0, x.ninf)))
                return x.like(TM(i))
            if reduction != "sum":
                raise Unsupported(f"reduction {reduction}")
            if isinstance(x, RT):
                local, total = {0: (LS, TS), 2: (LT, TT)}.get(k, (None, None))
                if local is None:
                    raise Unsupported("the sum of a maximum")
                S.prove("a rank passes its own share of the sum, and nothing for a replayed batch", x.v == z3.If(inc, local(i), 0))
                S.prove("the sum is reduced in its own form", x.shape.t == g.form.shape.t)
                return x.like(total(i))
            if isinstance(x, CT):
                local, total = (LN, TN) if k == 2 else (LC, TC)
                S.prove("a rank passes its own count, and nothing for a replayed batch", x.t == z3.If(inc, local(i), 0))
                return CT(total(i))
            raise Unsupported("a reduction of something else")

        def gather(self, x):
            raise Unsupported("gather")

    class At:
        pass

    def stat(m, i):
        """Statistic i as this rank holds it (forks over its kind)."""
        c = ctx()
        g = At()
        g.i, g.form = i, RT(z3.RealVal(0), SymInt(c.fresh(I, "shape")))
        c.ghost["at"] = g
        c.add(z3.And(KIND(i) >= 0, KIND(i) <= 2, LC(i) >= 0, LN(i) >= 0, TC(i) >= 0, TN(i) >= 0))
        scope = SCOPES[0] if c.decide(GLOBAL(i)) else SCOPES[1]
        if c.decide(KIND(i) == 0):
            g.kind = 0
            return m.SumCount(scope, g.form.like(LS(i)), SymInt(LC(i)))
        if c.decide(KIND(i) == 1):
            g.kind = 1
            return m.Maximum("evaluation", g.form.like(LM(i)), SymInt(LC(i)))
        g.kind = 2
        c.ghost["valid"] = True
        keys = c.fresh(I, "keys"), c.fresh(I, "count_keys")
        c.ghost["keys"] = keys
        return m.SufficientStats(scope, Fid(i, final), KMap(keys[0], g.form.like(LT(i)), "t"), KMap(keys[1], SymInt(LN(i)), "c"))

    def final(t, n):
        g = ctx().ghost["at"]
        i = g.i
        S.prove("what is finalized are the totals of all ranks", z3.And(
            z3.BoolVal(isinstance(t, KMap) and isinstance(n, KMap)), t.value.v == TT(i), int_term(n.value) == TN(i),
            t.keyset == ctx().ghost["keys"][0], n.keyset == ctx().ghost["keys"][1]))
        if ctx().decide(ctx().fresh(B, "totals_refused")):
            raise ValueError("empty statistic")
        return g.form.like(FIN(i))

    class Dict:
        """A dictionary of arbitrarily many statistics."""
        __pyvc_type__ = dict
        __hash__ = None

        def __init__(self, m, n):
            self.m, self.n = m, n

        def items(self):
            return Entries(self)
        __iter__ = None

    class Entries(LazySeq):
        __hash__ = None

        def __init__(self, d):
            self.d = d

        def length(self):
            return SymInt(self.d.n)

        def at(self, i):
            i = int_term(i)
            return Nm(i), stat(self.d.m, i)

    class Nm:
        """The name of statistic i."""
        __pyvc_type__ = str
        __hash__ = None

        def __init__(self, i):
            self.i = i

        def __eq__(self, o):
            if isinstance(o, Nm):
                return SymBool(self.i == o.i)
            return SymBool(ctx().fresh(B, "is_that_name"))

        def __format__(self, s):
            return "name"
        __repr__ = lambda self: "name"

    class Out:
        """A result dictionary while it is filled; `check(i, value)` says what belongs there."""
        __pyvc_type__ = dict
        __pyvc_heap__ = True
        __hash__ = None

        def __init__(self, check, n=None):
            self.check, self.n, self.last = check, z3.IntVal(0) if n is None else n, None

        def __setitem__(self, k, v):
            if not isinstance(k, Nm):
                raise Unsupported("another name")
            S.prove("every statistic is filed once, under its own name", k.i == self.n)
            self.check(k.i, v)
            self.n = z3.simplify(self.n + 1)

        def items(self):
            return self
        __iter__ = None

    def load(loops):
        stubs = {n: Dummy(n) for n in ("dataset", "model", "model.vq", "trainer.profiler", "utils.cuda_utils", "utils.compile_utils")}
        w = World(loops, stubs=stubs)
        core = w.module("dataset.core")
        core.torch = torch_stub()
        core.__pyvc_comp__ = kcomp(core.__pyvc_comp__)
        core.FINALIZERS = Finalizers()
        core._validate_sufficient_stats_schema = lambda *a: None
        m = w.module("trainer.base")
        m.torch = core.torch
        m.__pyvc_comp__ = kcomp(m.__pyvc_comp__)
        m.sorted = lambda x, **k: x if isinstance(x, (Entries, Items, KMap, Keys)) else sorted(x, **k)
        return w, m, core

    def filled(L, name):
        v = L.__getattr__(name)
        if isinstance(v, dict) and not v:
            return z3.IntVal(0)
        if not isinstance(v, Out):
            raise Unsupported("the results are collected in something else")
        return v.n

    def out(check):
        return lambda v: Out(check, ctx().fresh(I, "filed"))

    drop = {k: (lambda v: None) for k in ("key", "value", "local_sum", "local_count", "global_sum", "global_count", "global_value", "tensors",
                                          "counts", "k", "v", "total_sum", "total_count", "candidate", "maximum", "valid_count")}

    # -- one batch over all ranks
    def batch_check(i, v):
        c = ctx()
        g = c.ghost["at"]
        inc = c.ghost["include"]
        core = c.ghost["core"]
        S.prove("the statistic at hand is the one filed", g.i == i)
        if g.kind == 1:
            S.prove("a maximum stays one, without values for a replayed batch", z3.And(
                z3.BoolVal(isinstance(v, core.Maximum)), v.value.v == LM(i), int_term(v.valid_count) == z3.If(inc, LC(i), 0)))
            return
        if isinstance(v, core.SumCount) and v.scope == "evaluation":
            closed = TS(i) / z3.ToReal(TC(i)) if g.kind == 0 else FIN(i)
            S.prove("a statistic of the batch is closed over all ranks' real rows, and counts as one batch", z3.Implies(
                GLOBAL(i), z3.And(v.sum.v == closed, int_term(v.count) == 1)))
            S.prove("a mean over no rows at all is refused", z3.Implies(z3.And(GLOBAL(i), z3.BoolVal(g.kind == 0)), TC(i) > 0))
            if g.kind == 0:
                S.prove("a statistic of the evaluation stays open, and empty for a replayed batch", z3.Implies(
                    z3.Not(GLOBAL(i)), z3.And(v.sum.v == z3.If(inc, LS(i), 0), int_term(v.count) == z3.If(inc, LC(i), 0))))
            else:
                S.prove("a sufficient statistic of the evaluation stays open", GLOBAL(i))
            return
        S.prove("a sufficient statistic of the evaluation stays open, and empty for a replayed batch", z3.And(
            z3.BoolVal(isinstance(v, core.SufficientStats) and g.kind == 2 and v.scope == "evaluation"), z3.Not(GLOBAL(i)),
            v.finalizer_id.n == i, v.tensors.value.v == z3.If(inc, LT(i), 0), int_term(v.counts.value) == z3.If(inc, LN(i), 0)))
    w, m, core = load({BASE + "_finalize_masked_global_batch#0": LoopSpec(
        lambda L: [("every statistic so far is filed", filled(L, "finalized") == L.i.t)], types={"finalized": out(batch_check), **drop})})
    BT_ = m.BaseTrainer

    def h_batch():
        c = ctx()
        o = object.__new__(BT_)
        inc = c.fresh(B, "include_metrics")
        c.ghost.update(include=inc, core=core)
        o.accelerator = Accel(inc)
        n = c.fresh(I, "statistics")
        c.add(n >= 0)
        try:
            r = o._finalize_masked_global_batch(Dict(core, n), object(), include_metrics=SymBool(inc))
        except ValueError:
            return
        if isinstance(r, dict):
            S.prove("every statistic is filed", n == 0)
            return
        S.prove("every statistic is filed", r.n == n)
    S.run("_finalize_masked_global_batch", h_batch)

    # -- the evaluation's averages
    def avg_check(i, v):
        g = ctx().ghost["at"]
        S.prove("the statistic at hand is the one filed", g.i == i)
        if g.kind == 0:
            S.prove("a mean is the sum of all ranks over their count", z3.And(TC(i) > 0, v.v * z3.ToReal(TC(i)) == TS(i)))
        elif g.kind == 1:
            S.prove("a maximum is that of all ranks' values", z3.And(v.v == TM(i), TC(i) > 0))
        else:
            S.prove("a sufficient statistic is finalized over all ranks", v.v == FIN(i))
    w2, m2, core2 = load({BASE + "_gather_averaged_metrics#0": LoopSpec(
        lambda L: [("every statistic so far is filed", filled(L, "finalized_stats") == L.i.t),
                   ("nothing is averaged by batches", z3.BoolVal(L.gathered == {}))],
        types={"finalized_stats": out(avg_check), "gathered": lambda v: v, **drop})})
    base2 = m2.__pyvc_comp__

    def comp2(kind, f, src, cond):
        if isinstance(src, Out):
            if kind != "dict" or cond is not None:
                raise Unsupported("another use of the results")
            # at one arbitrary name: the value is handed on as a number
            i = ctx().fresh(I, "any_name")
            k, v = f((Nm(i), RT(FIN(i))))
            S.prove("a result is handed on as the number it is", z3.And(
                z3.BoolVal(isinstance(k, Nm)), k.i == i, (v.t if isinstance(v, SymReal) else v.v) == FIN(i)))
            return {"__all__": src}
        return base2(kind, f, src, cond)
    m2.__pyvc_comp__ = comp2

    def h_avg():
        c = ctx()
        o = object.__new__(m2.BaseTrainer)
        acc = Accel(z3.BoolVal(True))
        c.ghost.update(core=core2)
        batches = SymInt(c.fresh(I, "batches"))
        total = c.fresh(I, "all_ranks_batches")
        c.add(z3.And(batches.t >= 0, total >= batches.t))
        real = acc.reduce

        def reduce(x, reduction="mean"):
            if "at" not in c.ghost:
                S.prove("the number of batches is summed", z3.And(z3.BoolVal(isinstance(x, CT) and reduction == "sum"), x.t == batches.t))
                return CT(total)
            return real(x, reduction)
        acc.reduce = reduce
        o.accelerator = acc
        n = c.fresh(I, "statistics")
        c.add(n >= 1)
        try:
            r, t = o._gather_averaged_metrics(Dict(core2, n), batches)
        except (RuntimeError, ValueError) as e:
            if "at" not in c.ghost:
                S.prove("an evaluation is refused as empty only without a batch", total == 0)
            else:
                g = c.ghost["at"]
                if g.kind != 2:
                    S.prove("a statistic is refused only without a value on any rank", TC(g.i) == 0)
            return
        S.prove("an evaluation without a batch is refused", total > 0)
        if r is None:
            S.prove("only the other ranks get nothing", z3.Not(acc.is_main_process.t))
            return
        S.prove("the main process gets every statistic", z3.And(acc.is_main_process.t, z3.BoolVal(set(r) == {"__all__"}), r["__all__"].n == n))
        S.prove("and the number of batches", int_term(t) == total)
    S.run("_gather_averaged_metrics", h_avg)

    # -- totals over the batches
    OS, OC, OM, OT, ON = (z3.Function("old_" + k, I, s) for k, s in (("sum", R), ("count", I), ("max", R), ("tensor", R), ("tensor_count", I)))
    HAS = z3.Function("seen_before", I, B)

    def old_stat(i):
        c = ctx()
        g = c.ghost["at"]
        core_ = c.ghost["core"]
        new = g.value
        c.add(z3.And(OC(i) >= 0, ON(i) >= 0))
        if g.kind == 0:
            return core_.SumCount(new.scope, g.form.like(OS(i)), SymInt(OC(i)))
        if g.kind == 1:
            return core_.Maximum("evaluation", g.form.like(OM(i)), SymInt(OC(i)))
        return core_.SufficientStats(new.scope, new.finalizer_id, KMap(new.tensors.keyset, g.form.like(OT(i)), "t"),
                                     KMap(new.counts.keyset, SymInt(ON(i)), "c"))

    class Running:
        """The totals before this batch; each name is read at its old value and written once."""
        __pyvc_type__ = dict
        __pyvc_heap__ = True
        __hash__ = None

        def __init__(self):
            self.n = z3.IntVal(0)

        def __contains__(self, k):
            return ctx().decide(HAS(k.i))

        def __getitem__(self, k):
            S.prove("a total that exists is looked up", HAS(k.i))
            return old_stat(k.i)

        def __setitem__(self, k, v):
            c = ctx()
            g = c.ghost["at"]
            i = g.i
            core_ = c.ghost["core"]
            S.prove("every statistic is added once, under its own name", z3.And(k.i == self.n, k.i == i))
            has = HAS(i)
            if g.kind == 0:
                f = z3.And(z3.BoolVal(isinstance(v, core_.SumCount)), v.sum.v == LS(i) + z3.If(has, OS(i), 0),
                           int_term(v.count) == LC(i) + z3.If(has, OC(i), 0))
            elif g.kind == 1:
                both = z3.And(has, OC(i) > 0)
                f = z3.And(z3.BoolVal(isinstance(v, core_.Maximum)), int_term(v.valid_count) == LC(i) + z3.If(has, OC(i), 0),
                           z3.Implies(z3.And(both, LC(i) > 0), v.value.v == z3.If(OM(i) >= LM(i), OM(i), LM(i))),
                           z3.Implies(z3.And(z3.Not(both), LC(i) > 0), v.value.v == LM(i)),
                           z3.Implies(z3.And(both, LC(i) == 0), v.value.v == OM(i)))
            else:
                f = z3.And(z3.BoolVal(isinstance(v, core_.SufficientStats)), v.tensors.value.v == LT(i) + z3.If(has, OT(i), 0),
                           int_term(v.counts.value) == LN(i) + z3.If(has, ON(i), 0))
            S.prove("a total grows by exactly the batch's contribution", f)
            self.n = z3.simplify(self.n + 1)
        __iter__ = None

    w3, m3, core3 = load({BASE + "_accumulate_evaluation_metrics#0": LoopSpec(
        lambda L: [("every statistic so far is added", L.totals.n == L.i.t)], types={"totals": lambda v: v, **drop},
        havoc=lambda L: [("attr", L.totals, "n", lambda v: ctx().fresh(I, "added"))])})

    class Entries3(Entries):
        def at(self, i):
            k, v = Entries.at(self, i)
            ctx().ghost["at"].value = v
            return k, v

    def h_acc():
        c = ctx()
        c.ghost.update(core=core3)
        n = c.fresh(I, "statistics")
        c.add(n >= 0)
        t = Running()
        d = Dict(core3, n)
        d.items = lambda: Entries3(d)
        m3.BaseTrainer._accumulate_evaluation_metrics(t, d)
        S.prove("every statistic is added", t.n == n)
    S.run("_accumulate_evaluation_metrics", h_acc)

    def h_zero():
        c = ctx()
        i = c.fresh(I, "statistic")
        v = stat(core3, i)
        z = m3.BaseTrainer._zero_evaluation_stat(v)
        a = {0: lambda: core3.SumCount(v.scope, v.sum.like(c.fresh(R, "s")), count("n")),
             1: lambda: core3.Maximum("evaluation", v.value.like(c.fresh(R, "s")), count("n")),
             2: lambda: core3.SufficientStats(v.scope, v.finalizer_id, KMap(v.tensors.keyset, v.tensors.value.like(c.fresh(R, "s")), "t"),
                                              KMap(v.counts.keyset, count("n"), "c"))}[c.ghost["at"].kind]()
        for left, right in ((a, z), (z, a)):
            r = left.combine(right)
            if c.ghost["at"].kind == 0:
                f = z3.And(r.sum.v == a.sum.v, int_term(r.count) == int_term(a.count))
            elif c.ghost["at"].kind == 1:
                f = z3.And(int_term(r.valid_count) == int_term(a.valid_count), z3.Implies(int_term(a.valid_count) > 0, r.value.v == a.value.v))
            else:
                f = z3.And(r.tensors.value.v == a.tensors.value.v, int_term(r.counts.value) == int_term(a.counts.value))
            S.prove("an empty contribution changes no total", f)
    S.run("_zero_evaluation_stat", h_zero)


# ---------------------------------------------------------------------------------------------- what one batch contributes
# A tensor with one entry per row is described by how an entry follows from its row: an expression over the row's own inputs.  The rows are
# "all" (the batch with its padding) or "real" (the flagged ones).  Nothing else is known of a row, so the expressions hold for every row.
NALL, NREAL = z3.Int("rows_of_the_batch"), z3.Int("real_rows_of_the_batch")


class Row(Tensor):
    __hash__ = None
    is_mask = False

    def __init__(self, e, dims, rows="all", dtype="float"):
        self.e, self.dims, self.rows, self.dtype = e, tuple(dims), rows, dtype
        self.device = "device"

    def n(self):
        return SymInt(NALL if self.rows == "all" else NREAL)

    def mk(self, e, dims=None, dtype="float"):
        return Row(e, self.dims if dims is None else dims, self.rows, dtype)

    # shape
    @property
    def ndim(self): return 1 + len(self.dims)
    @property
    def shape(self): return Shape((self.n(), *self.dims))
    def size(self, d): return self.shape[d]
    def __pyvc_len__(self): return self.n()

    def numel(self):
        k = 1
        for d in self.dims:
            k *= d
        return SymInt(self.n().t * k)

    # selection
    def __getitem__(self, k):
        if isinstance(k, Row) and k.is_mask:
            if self.rows == "real":
                # reached only where both have as many rows: then every row is real
                ctx().session.prove("rows are selected by the batch's own flags", NREAL == NALL)
                return self
            return Row(self.e, self.dims, "real", self.dtype)
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None) and isinstance(k[1], int):
            return self.mk(("column", k[1], self.e), self.dims[1:])
        raise Unsupported("another selection")

    # entry by entry
    def _other(self, o):
        if isinstance(o, Row):
            if o.rows != self.rows:
                ctx().session.prove("a row is combined with itself only", z3.BoolVal(False))
            if len(o.dims) > len(self.dims):
                return o.e, o.dims
            return o.e, self.dims
        if isinstance(o, Scal):
            ctx().session.prove("what a row contributes does not depend on the other rows", z3.BoolVal(False))
            raise Unsupported("a row combined with a sum over rows")
        if isinstance(o, (int, float, SymInt, SymReal)):
            return ("number", o if isinstance(o, (int, float)) else str(o.t)), self.dims
        raise Unsupported(f"tensor arithmetic with {type(o).__name__}")

    def _bin(self, op, o, flip=False, dtype="float"):
        e, dims = self._other(o)
        return self.mk((op, e, self.e) if flip else (op, self.e, e), dims, dtype)

    def __add__(self, o): return self._bin("+", o)
    def __radd__(self, o): return self._bin("+", o, True)
    def __sub__(self, o): return self._bin("-", o)
    def __rsub__(self, o): return self._bin("-", o, True)
    def __mul__(self, o): return self._bin("*", o)
    def __rmul__(self, o): return self._bin("*", o, True)
    def __truediv__(self, o): return self._bin("/", o)
    def __pow__(self, o): return self._bin("**", o)
    def __neg__(self): return self.mk(("neg", self.e))
    def __eq__(self, o): return self._bin("==", o, dtype="bool")
    def __ge__(self, o): return self._bin(">=", o, dtype="bool")
    def __gt__(self, o): return self._bin(">", o, dtype="bool")
    def __lt__(self, o): return self._bin("<", o, dtype="bool")
    def __le__(self, o): return self._bin("<=", o, dtype="bool")
    def square(self): return self.mk(("**", self.e, ("number", 2)))
    def detach(self): return self
    def float(self): return self.mk(("float", self.e))
    def bool(self): return self if self.is_mask else self.mk(("bool", self.e), dtype="bool")

    def to(self, *a, **k):
        if self.is_mask:
            return self
        return self.mk(("float", self.e)) if self.dtype == "bool" else self

    def masked_fill(self, mask, v): return self._bin(f"fill {v} where", mask)

    def unsqueeze(self, d):
        if d < 1 or d > self.ndim:
            raise Unsupported("a new axis across the rows")
        return self.mk(("unsqueeze", d, self.e), self.dims[:d - 1] + (1,) + self.dims[d - 1:], self.dtype)

    def view(self, *shape):
        ok = len(shape) == 2 and isinstance(shape[0], SymInt) and shape[1] == -1 and z3.simplify(shape[0].t - self.n().t).eq(z3.IntVal(0))
        if ok:
            # torch cannot tell the columns of a tensor without entries
            ctx().session.prove("a batch without real rows is handled", self.n().t > 0)
            return flatten(self, start_dim=1)
        raise Unsupported("another view")

    def any(self, dim=None):
        if dim is None or dim < 1:
            raise Unsupported("any() across the rows")
        return self.mk(("any", dim, self.e), self.dims[:dim - 1] + self.dims[dim:], "bool")

    # across the rows
    def sum(self, dim=None):
        if dim is not None:
            return rowsum(self, dim=dim)
        return Scal("sum", self)

    def max(self): return Scal("max", self)
    def new_tensor(self, v): return Const(v)
    def new_zeros(self, s): return Const(0)

    def __getattr__(self, k):
        raise Unsupported(f"tensor.{k}")


class Shape(tuple):
    __hash__ = None

    def __eq__(self, o):
        if len(self) != len(o):
            return False
        return all(a == b if not isinstance(a, SymInt) else z3.simplify(a.t - b.t).eq(z3.IntVal(0)) for a, b in zip(self, o))

    def __ne__(self, o):
        return not self == o


class Scal(Tensor):
    """A reduction over all entries of a tensor."""
    ndim = 0
    __hash__ = None

    def __init__(self, op, x, scale=1):
        self.op, self.x, self.scale = op, x, scale

    def float(self): return self
    def detach(self): return self

    def __mul__(self, k):
        if not isinstance(k, (int, float)):
            raise Unsupported("a scaled sum")
        return Scal(self.op, self.x, self.scale * k)

    def new_tensor(self, v): return Const(v)

    def item(self):
        if self.op != "sum" or self.x.dtype != "bool":
            raise Unsupported("a sum as a number")
        e = f"entries of one row of {self.x.e!r}"
        t = z3.Int(f"sum over {self.x.rows} rows: {e}")
        ctx().add(t >= 0)
        v = SymInt(t)
        ctx().ghost.setdefault("counted", {})[t.get_id()] = (self.x.rows, self.x.e)
        return v

    def __getattr__(self, k):
        raise Unsupported(f"scalar.{k}")


class Const(Tensor):
    """A constant, the same on every rank and batch."""
    ndim = 0
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def __mul__(self, k):
        return Const(("*", self.v, k))

    def new_tensor(self, v): return Const(v)

    def __getattr__(self, k):
        raise Unsupported(f"constant.{k}")


def flatten(x, start_dim=0):
    if start_dim != 1:
        raise Unsupported("flatten across the rows")
    k = 1
    for d in x.dims:
        k *= d
    if len(x.dims) < 2:
        return x
    return x.mk(("flatten", x.e), (k,), x.dtype)


def rowsum(x, dim=None):
    if dim is None:
        return x.sum()
    if dim < 1:
        raise Unsupported("sum across the rows")
    return x.mk(("sum", dim, x.e), x.dims[:dim - 1] + x.dims[dim:])


def row_torch():
    import torch as real

    class Torch(types.ModuleType):
        def __getattr__(self, k):
            v = getattr(real, k)
            if callable(v) and not isinstance(v, (type, real.dtype)):
                raise Unsupported(f"torch.{k}")
            return v
    t = Torch("torch")
    t.Tensor = Tensor

    def along(name, drop=False):
        def f(x, dim=None):
            if dim is None or dim < 1 or not isinstance(x, Row):
                raise Unsupported(f"{name} across the rows")
            return x.mk((name, dim, x.e), x.dims[:dim - 1] + x.dims[dim:] if drop else None)
        return f
    t.softmax, t.argmax = along("softmax"), along("argmax", True)

    def topk(x, dim=-1, k=1, sorted=True, largest=True):
        if dim != 1:
            raise Unsupported("topk across the rows")
        y = x.mk((f"top{k}", x.e, largest), (k,) + x.dims[1:])
        return x.mk(("values", y.e), y.dims), y
    t.topk = topk
    for n in ("sigmoid", "exp", "log", "abs", "square"):
        setattr(t, n, lambda x, n=n: x.mk((n, x.e)))
    t.clamp = lambda x, min: x.mk(("clamp", min, x.e))
    t.where = lambda c, a, b: c._bin("where", a).mk(("where", c.e, a.e, b.e if isinstance(b, Row) else b))
    t.flatten, t.sum = flatten, rowsum
    t.ones = lambda n, dtype=None, device=None: flags(n)

    def flags(n):
        k = n.t if isinstance(n, SymInt) else None
        if k is None or not z3.simplify(k - NALL).eq(z3.IntVal(0)):
            raise Unsupported("flags for something else")
        ctx().ghost["all_real"] = True
        ctx().add(NREAL == NALL)
        m = Row(("is_real",), (), "all", "bool")
        m.is_mask = True
        return m
    F = types.ModuleType("F")
    F.log_softmax = along("log_softmax")

    def pair(name):
        def f(a, b, reduction="mean", **k):
            if reduction != "none":
                return Scal("mean", a)
            return a._bin(name, b)
        return f
    F.huber_loss, F.mse_loss = pair("huber"), pair("mse")

    def bce(a, b, reduction="mean", pos_weight=None, **k):
        if reduction != "none" or k:
            raise Unsupported("another cross entropy")
        return a._bin("bce", b)
    F.binary_cross_entropy_with_logits = bce
    t.nn = types.SimpleNamespace(functional=F)
    return t, F


def producers(S):
    P = 7

    def world():
        w = World()
        core = w.module("dataset.core")
        t, F = row_torch()
        core.torch = t
        core.FINALIZERS = {k: None for k in core.FINALIZERS}
        mods = [w.module(n) for n in ("utils.training_utils", "trainer.loss.utils", "trainer.loss.supervised", "trainer.metric.supervised")]
        for x in mods:
            x.torch = t
            if "F" in vars(x):
                x.F = F
            if "SumCount" in vars(x):
                x.SumCount, x.SufficientStats = Sum, Stats
            if "Maximum" in vars(x):
                x.Maximum = Max
        return mods

    class Stat:
        pass

    class Sum(Stat):
        def __init__(self, scope, sum, count):
            self.scope, self.sum, self.count = scope, sum, count

    class Max(Stat):
        def __init__(self, scope, value, valid_count):
            self.scope, self.value, self.valid_count = scope, value, valid_count

    class Stats(Stat):
        def __init__(self, scope, finalizer_id, tensors, counts):
            self.scope, self.finalizer_id, self.tensors, self.counts = scope, finalizer_id, tensors, counts

    def row(name, *dims, dtype="float"):
        return Row((name,), dims, "all", dtype)

    def flagged():
        m = row("is_real", dtype="bool")
        m.is_mask = True
        return m

    problems = []

    def sums_rows(x, where):
        """A sum of what the real rows contribute, or a constant."""
        if isinstance(x, Const):
            return
        if isinstance(x, External):
            return
        if not isinstance(x, Scal) or x.op != "sum":
            problems.append(f"{where}: not a sum over rows")
        elif x.x.rows != "real":
            problems.append(f"{where}: padding rows are summed")

    def counts_rows(n, where, x=None):
        if isinstance(n, int):
            # replicas: one per rank and batch
            return [] if n == 1 and "replicas" in where else [z3.BoolVal(False)]
        t = int_term(n)
        c = ctx().ghost.get("counted", {}).get(t.get_id())
        if c is not None:
            if c[0] != "real":
                problems.append(f"{where}: padding rows are counted")
            return []
        if isinstance(n, SymInt) and str(n.t).startswith("external"):
            return []
        for q in (1, 2, 3, P):
            if z3.simplify(t - q * NREAL).eq(z3.IntVal(0)):
                return [z3.BoolVal(True)]
        return [z3.BoolVal(False)]

    def look(stats, where):
        out = []
        for name, s in stats.items():
            at = f"{where}{name}"
            if isinstance(s, Sum):
                if s.scope != "global_batch":
                    problems.append(f"{at}: scope")
                sums_rows(s.sum, at)
                out += counts_rows(s.count, at)
            elif isinstance(s, Max):
                if isinstance(s.value, Const):
                    pass
                elif not (isinstance(s.value, Scal) and s.value.op == "max" and s.value.x.rows == "real"):
                    problems.append(f"{at}: not the maximum over the real rows")
                out += counts_rows(s.valid_count, at)
            elif isinstance(s, Stats):
                for k, v in s.tensors.items():
                    sums_rows(v, f"{at}.{k}")
                for k, v in s.counts.items():
                    out += counts_rows(v, f"{at}.{k}")
            else:
                problems.append(f"{at}: opaque")
        return out

    class External(Scal):
        """A sum the model made over its own real entries (its sidecar's contract)."""
        def __init__(self, name, v=None):
            self.op, self.x, self.scale = "external", None, 1

    def inputs(vd, td, masked, real, aux, forbidden):
        data = {"value_target": row("value_target", td), "policy_target": row("policy_target", 1, P)}
        if forbidden:
            data["forbidden_point"] = row("forbidden_point", 1, P, dtype="bool")
        if real:
            data["is_real"] = flagged()
        res = {"value": row("value", vd), "policy": row("policy", 1, P)}
        if masked:
            res["board_mask"] = row("board_mask", 1, P)
        if aux:
            slot = {"slot_id": "s", "slot_weight": 1.0, "embed_sum": External("e"), "commit_sum": External("c"), "elements": SymInt(z3.Int("external_elements")),
                    "vectors": SymInt(z3.Int("external_vectors")),
                    "commitment_weight": 0.25, "entropy_weight": 0.0}
            one = lambda n: row(n)
            res["aux_losses"] = {
                "small_value": ("value_loss", row("small_value", vd)), "small_policy": ("policy_loss", row("small_policy", 1, P)),
                "uncertainty": ("value_uncertainty_loss", (one("u"), one("uv"), one("ut"))),
                "uncertainty3": ("value_uncertainty_loss", (one("u"), row("uv3", 3), row("ut3", 3))),
                "relative": ("value_relative_uncertainty_loss", (one("ru"), one("rs"), one("rl"), one("rt"))),
                "reg": ("policy_reg", row("reg_policy", 1, P)), "vq": ("vq_loss", {"value": External("v"), "slots": [slot]}),
            }
        return data, res

    def run(name, mods, call, axes):
        def h():
            c = ctx()
            c.add(z3.And(NREAL >= 0, NREAL <= NALL, NALL >= 1, z3.Int("external_elements") >= 0, z3.Int("external_vectors") >= 0))
            k = []
            for n, vals in axes.items():
                i = 0
                while i + 1 < len(vals) and not c.decide(c.fresh(B, n)):
                    i += 1
                k.append(vals[i])
            del problems[:]
            conj = call(mods, *k)
            S.prove(f"{name}: a statistic is a sum (maximum) of what each real row contributes on its own"
                    + (f" [{k}: {problems[0]}]" if problems else ""), z3.BoolVal(not problems))
            S.prove(f"{name}: a count counts real rows", z3.And(conj) if conj else z3.BoolVal(True))
        S.run(name, h)

    mods = world()
    loss, metric = mods[2], mods[3]
    combos = [(a, b) for a in ("KL", "CE", "MSE") for b in ("KL", "CE", "MSE", "NONE")]

    def losses(mods, types_, vd, td, masked, real, how):
        kd_, forbidden, reg, aux, focal = how
        data, res = inputs(vd, td, masked, real, aux, forbidden)
        kd = None
        extra = {}
        if kd_:
            kd = {"value": row("teacher_value", td), "policy": row("teacher_policy", 1, P)}
        if forbidden:
            extra["ignore_forbidden_point_policy"] = True
        if focal and "KL" not in types_:
            extra.update(value_focal_gamma=2.0, policy_focal_gamma=2.0)
        d, aux_out = loss.compute_supervised_loss_statistics("+".join(types_), data, res, kd, 2.0 if kd_ else 1.0, 0.5 if kd_ else 1.0,
                                                             0.1 if reg else 0, 1, **extra)
        return look(d, "")
    run("compute_supervised_loss_statistics", mods, losses, {
        "loss_type": combos, "value_columns": [3, 1], "target_columns": [3, 1], "board_mask": [False, True], "flags": [True, False],
        "how": [(k, f, r, a, g) for k, f, r, a, g in ((0, 0, 0, 0, 0), (1, 0, 1, 1, 0), (0, 1, 1, 1, 1), (1, 1, 1, 1, 0))]})

    def metrics(mods, vd, td, masked, real, cross):
        data, res = inputs(vd, td, masked, real, False, False)
        d = metric.compute_supervised_metric_statistics(data, res, do_cross_eval=cross)
        return look(d, "")
    run("compute_supervised_metric_statistics", mods, metrics, {
        "value_columns": [3, 1], "target_columns": [3, 1], "board_mask": [False, True], "flags": [True, False], "cross": [False, True]})


def prove(S):
    accumulators(S)
    finalizers(S)
    trainer(S)
    producers(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
