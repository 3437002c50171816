"""Symbolic-aware stand-ins for the builtins the verified code calls.

Each one behaves exactly like the builtin on ordinary values.
"""
import builtins
import sys
import collections
import z3

from .engine import ctx, Unsupported, merged_bool, probe
from .values import (
    Sym, SymBool, SymInt, SymReal, SymVal, SymList, SymRange, LazySeq, FilterSeq, DequeKind,
    int_term, num_term, to_bool_term, sym_len, seq_at, is_symseq, concrete_int, TTuple, _real,
    Undefined,
)


def s_len(x):
    if isinstance(x, (SymList, SymRange, LazySeq)):
        return sym_len(x)
    if isinstance(x, Undefined):
        x._bad()
    f = getattr(type(x), "__pyvc_len__", None)
    if f is not None:
        return f(x)
    # native len() insists on a native int: go through the method
    m = getattr(type(x), "__len__", None)
    if m is not None and not isinstance(x, (builtins.list, builtins.tuple, builtins.dict,
                                            builtins.str, builtins.bytes, builtins.set)):
        return m(x)
    return builtins.len(x)


def s_range(*a):
    if builtins.all(isinstance(x, int) for x in a):
        return builtins.range(*a)
    if builtins.all(concrete_int(x) is not None for x in a):
        return builtins.range(*[concrete_int(x) for x in a])
    if builtins.len(a) == 1:
        return SymRange(0, a[0])
    if builtins.len(a) == 2:
        return SymRange(a[0], a[1])
    return SymRange(*a)


def _reduce(args, pick, kw, native):
    if builtins.len(args) == 1:
        if is_symseq(args[0]):
            raise Unsupported("min/max of a symbolic sequence")
        args = builtins.list(args[0])
        if not args and "default" in kw:
            return kw["default"]
    if "key" in kw or not builtins.any(isinstance(x, Sym) for x in args):
        return native(args, **{k: v for k, v in kw.items() if k == "key"})
    if builtins.any(isinstance(x, (SymReal, float)) for x in args):
        r = _real(args[0])
        for x in args[1:]:
            t = _real(x)
            r = z3.If(pick(t, r), t, r)
        return SymReal(r)
    r = int_term(args[0])
    for x in args[1:]:
        t = int_term(x)
        r = z3.If(pick(t, r), t, r)
    return SymInt(r)


def s_min(*a, **kw):
    return _reduce(a, lambda x, y: x < y, kw, builtins.min)


def s_max(*a, **kw):
    return _reduce(a, lambda x, y: x > y, kw, builtins.max)


def s_sum(x, start=0):
    if isinstance(x, SymList):
        for m in x.measures.values():
            if getattr(m, "is_sum", False):
                return SymInt(x.mvals[m.name]) + start
        raise Unsupported("sum of a symbolic sequence without a sum measure")
    if isinstance(x, (SymRange, FilterSeq)):
        raise Unsupported("sum over a symbolic source")
    if isinstance(x, LazySeq):
        raise Unsupported("sum over a symbolic source")
    r = start
    for v in x:
        r = r + v
    return r


def s_any(x):
    if isinstance(x, SymList):
        return x.exists(lambda v: v)
    if isinstance(x, LazySeq):
        return bool(_quant(x, False))
    if isinstance(x, FilterSeq):
        return bool(_quant(LazySeq(x.src, lambda v: _and2(x.cond(v), lambda: x.f(v))), False))
    for v in x:
        if v:
            return True
    return False


def s_all(x):
    if isinstance(x, SymList):
        return x.forall(lambda v: v)
    if isinstance(x, LazySeq):
        return bool(_quant(x, True))
    if isinstance(x, FilterSeq):
        return bool(_quant(LazySeq(x.src, lambda v: _imp2(x.cond(v), lambda: x.f(v))), True))
    for v in x:
        if not v:
            return False
    return True


def _and2(a, b):
    return b() if a else False


def _imp2(a, b):
    return b() if a else True


def _quant(lazy, universal):
    c = ctx()
    from .values import bound_var
    k = bound_var(c)
    n = int_term(lazy.length())
    rng = z3.And(k >= 0, k < n)
    b = merged_bool(lambda: lazy.at(k), [k], rng)
    if universal:
        return SymBool(z3.ForAll([k], z3.Implies(rng, b)))
    return SymBool(z3.Exists([k], z3.And(rng, b)))


def s_abs(x):
    return x.__abs__() if isinstance(x, SymInt) else builtins.abs(x)


_TYPES = {SymInt: int, SymBool: bool, SymReal: float}


class _TypeShim:
    """type(x), answering with the stand-in class the code's own names denote."""

    def __call__(self, *a):
        r = _type(*a)
        return _BY_NATIVE.get(r, r) if builtins.len(a) == 1 else r

    def __getitem__(self, x):       # type[C] in annotations
        return builtins.type

    def __or__(self, o):
        return object

    __ror__ = __or__


s_type = _TypeShim()


def _type(*a):
    if builtins.len(a) == 1:
        x = a[0]
        t = getattr(builtins.type(x), "__pyvc_type__", None)
        if t is not None:
            return t
        if isinstance(x, SymList):
            return collections.deque if x.kind is DequeKind else x.kind
        if isinstance(x, SymVal):
            if x.pytype is None:
                raise Unsupported("type() of an opaque value")
            return x.pytype
        if isinstance(x, Sym):
            return _TYPES[builtins.type(x)]
        return builtins.type(x)
    return builtins.type(*a)


def _flat(c):
    if isinstance(c, builtins.tuple):
        for x in c:
            yield from _flat(x)
    else:
        yield c


MAY_LACK = set()    # (class, attribute) a harness leaves out on purpose: absence is one of the states it proves


def _stored(x, name):
    """An attribute the class of x stores although the object under proof was made without it: the harness knows an older class."""
    for k in builtins.type(x).__mro__:
        mod = sys.modules.get(k.__module__)
        if (k.__qualname__, name) in MAY_LACK:
            return False
        if mod is not None and name in getattr(mod, "__pyvc_stores__", {}).get(k.__qualname__, ()):
            return True
    return False


def s_getattr(x, name, *default):
    try:
        return getattr(x, name)
    except AttributeError:
        if not default:
            raise
        if _stored(x, name):
            raise Unsupported(f"{builtins.type(x).__name__}.{name} is read with a default, but the object under proof lacks it")
        return default[0]


def s_hasattr(x, name):
    if not hasattr(x, name):
        if _stored(x, name):
            raise Unsupported(f"{builtins.type(x).__name__}.{name} is tested for, but the object under proof lacks it")
        return False
    return True


def s_isinstance(x, cls):
    if isinstance(x, (Sym, SymList)) or hasattr(builtins.type(x), "__pyvc_type__"):
        t = _type(x)
        return builtins.any(builtins.issubclass(t, c) for c in _flat(unshim_cls(cls)))
    if isinstance(x, (LazySeq, FilterSeq, SymRange)):
        return builtins.any(c is object for c in _flat(unshim_cls(cls)))
    return builtins.isinstance(x, unshim_cls(cls))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return s_isinstance(x, cls._native)

    def __subclasscheck__(cls, x):
        return builtins.issubclass(x, cls._native)

    def __eq__(cls, o):
        return o is cls or o is cls._native

    def __hash__(cls):
        return hash(cls._native)

    def __getattr__(cls, n):
        return getattr(cls._native, n)

    def __or__(cls, o):
        return object

    def __ror__(cls, o):
        return object

    def __getitem__(cls, x):
        return cls._native[x]

    def __repr__(cls):
        return repr(cls._native)


def _shim_cls(native, conv):
    class S(metaclass=_IntMeta):
        _native = native

        def __new__(cls, *a, **k):
            return conv(*a, **k)
    S.__name__ = native.__name__
    return S


def _int(*a, **k):
    if a and isinstance(a[0], (SymInt, SymBool)):
        return SymInt(int_term(a[0]), getattr(a[0], "bits", None))
    if a and isinstance(a[0], SymReal):
        t = a[0].t
        return SymInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    return builtins.int(*a, **k)


def _bool(*a):
    if a and isinstance(a[0], (SymBool,)):
        return a[0]
    if a and isinstance(a[0], SymInt):
        return SymBool(a[0].t != 0)
    return builtins.bool(*a)


def _float(*a):
    if a and isinstance(a[0], (SymInt, SymBool, SymReal)):
        return SymReal(_real(a[0]))
    return builtins.float(*a)


def _seq(kind, native):
    def conv(*a):
        if not a:
            return native()
        x = a[0]
        f = getattr(type(x), "__pyvc_seq__", None)      # a contract object that says what list(x) is
        if f is not None:
            return f(x, kind)
        if isinstance(x, SymList):
            s = x.snapshot(kind)
            return s
        if isinstance(x, (SymRange, LazySeq)):
            return materialize(x, kind)
        return native(*a)
    return conv


def materialize(x, kind):
    """A list/tuple holding the elements of a lazily defined sequence."""
    k = concrete_int(sym_len(x))
    if k is not None:
        out = [seq_at(x, z3.IntVal(i)) for i in builtins.range(k)]
        return out if kind is builtins.list else kind(out)
    c = ctx()
    from .values import type_of, bound_var
    n = int_term(sym_len(x))
    if isinstance(x, SymRange) and concrete_int(x.step) == 1 and c.ghost.get("range_measures"):
        from .values import INT
        ms = c.ghost["range_measures"]
        a0 = int_term(x.start)
        arr = c.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), "range")
        i = bound_var(c)
        c.add(z3.ForAll([i], arr[i] == a0 + i, patterns=[arr[i]]))
        return SymList(INT, n, [arr], None, ms, {m.name: m.of_range(a0, a0 + n) for m in ms}, kind)
    i = bound_var(c)
    rng = z3.And(i >= 0, i < n)

    def one():
        elem = seq_at(x, i)
        et = type_of(elem)
        return et, et.unwrap(elem)
    et, terms = probe(one, [i], rng)
    arrs = []
    for t in terms:
        a = c.fresh(z3.ArraySort(z3.IntSort(), t.sort()), "m")
        arrs.append(a)
        c.add(z3.ForAll([i], z3.Implies(rng, a[i] == t), patterns=[a[i]]))
    return SymList(et, n, arrs, None, (), {}, kind)


def _deque(*a, **k):
    if a and isinstance(a[0], SymList):
        return a[0].snapshot(DequeKind)
    return collections.deque(*a, **k)


def _str(*a):
    if a and isinstance(a[0], (Sym, SymList)):
        return "<sym>"
    return builtins.str(*a)


S_int = _shim_cls(builtins.int, _int)
S_bool = _shim_cls(builtins.bool, _bool)
S_float = _shim_cls(builtins.float, _float)
S_list = _shim_cls(builtins.list, _seq(builtins.list, builtins.list))
S_tuple = _shim_cls(builtins.tuple, _seq(builtins.tuple, builtins.tuple))
S_deque = _shim_cls(collections.deque, _deque)
S_str = _shim_cls(builtins.str, _str)


def _from_bytes(b, order="big", **k):
    if hasattr(b, "__pyvc_from_bytes__"):
        return b.__pyvc_from_bytes__(order)
    return builtins.int.from_bytes(b, order, **k)


S_int.from_bytes = _from_bytes
_BY_NATIVE = {builtins.int: S_int, builtins.bool: S_bool, builtins.float: S_float,
              builtins.list: S_list, builtins.tuple: S_tuple, builtins.str: S_str}


def unshim_cls(c):
    if isinstance(c, builtins.tuple):
        return builtins.tuple(unshim_cls(x) for x in c)
    if c is s_type:
        return builtins.type
    return getattr(c, "_native", c) if builtins.isinstance(c, _IntMeta) else c


class SymZip:
    pass


def s_zip(*seqs, **kw):
    if builtins.any(is_symseq(s) for s in seqs):
        n = None
        for s in seqs:
            t = int_term(s_len(s))
            n = t if n is None else z3.If(t < n, t, n)

        class Z(LazySeq):
            def __init__(self):
                pass

            def length(self):
                return SymInt(z3.simplify(n))

            def at(self, i):
                return builtins.tuple(_at_any(s, i) for s in seqs)

            def __iter__(self):
                i = 0
                while ctx().decide(n > i):
                    yield self.at(z3.IntVal(i))
                    i += 1
        return Z()
    return builtins.zip(*seqs, **kw)


def _at_any(s, i):
    if is_symseq(s):
        return seq_at(s, i)
    k = z3.simplify(i)
    if z3.is_int_value(k):
        return s[k.as_long()]
    raise Unsupported("symbolic index into a native sequence")


def s_enumerate(s, start=0):
    if is_symseq(s):
        class E(LazySeq):
            def __init__(self):
                pass

            def length(self):
                return SymInt(int_term(s_len(s)))

            def at(self, i):
                return (SymInt(z3.simplify(i + int_term(start))), seq_at(s, i))

            def __iter__(self):
                for j, x in builtins.enumerate(s, start):
                    yield j, x
        return E()
    return builtins.enumerate(s, start)


def s_reversed(s):
    if isinstance(s, (SymRange, SymList)):
        return s.__reversed__()
    return builtins.reversed(s)


def s_sorted(x, **k):
    if isinstance(x, (SymRange, LazySeq)):
        x = materialize(x, builtins.list)
    if isinstance(x, FilterSeq):
        x = materialize_filtered(x)
    if isinstance(x, SymList):
        return sorted_list(x)
    if is_symseq(x):
        raise Unsupported("sorted() of a symbolic sequence")
    return builtins.sorted(x, **k)


def materialize_filtered(x):
    """[f(y) for y in src if cond(y)]: an order-preserving selection of the source."""
    c = ctx()
    from .values import type_of, bound_var
    n = int_term(sym_len(x.src))
    i = bound_var(c)
    rng = z3.And(i >= 0, i < n)
    cond = merged_bool(lambda: x.cond(seq_at(x.src, i)), [i], rng)

    def one():
        elem = x.f(seq_at(x.src, i))
        et = type_of(elem)
        return et, et.unwrap(elem)
    et, terms = probe(one, [i], rng)
    out = SymList.fresh(et, "sel")
    tag = builtins.next(c.counter)
    idx = z3.Function(f"sel_idx!{tag}", z3.IntSort(), z3.IntSort())
    inv = z3.Function(f"sel_inv!{tag}", z3.IntSort(), z3.IntSort())
    j, j2 = z3.Int(f"j_sel!{tag}"), z3.Int(f"j2_sel!{tag}")
    at = lambda t, v: z3.substitute(t, (i, v))
    trig = out.arrs[0][j] if out.arrs else idx(j)
    c.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < out.n), z3.And(
        [idx(j) >= 0, idx(j) < n, at(cond, idx(j)), inv(idx(j)) == j]
        + [a[j] == at(t, idx(j)) for a, t in builtins.zip(out.arrs, terms)])), patterns=[trig, idx(j)]))
    c.add(z3.ForAll([i], z3.Implies(z3.And(rng, cond), z3.And(
        inv(i) >= 0, inv(i) < out.n, idx(inv(i)) == i))))
    c.add(z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j < j2, j2 < out.n), idx(j) < idx(j2)),
                    patterns=[z3.MultiPattern(idx(j), idx(j2))]))
    return out


def sorted_list(x):
    """Only this much of sorted() is used: the result is a permutation of x."""
    c = ctx()
    arrs = [c.fresh(a.sort(), "srt") for a in x.arrs]
    pi = z3.Function(f"sort_pi!{builtins.next(c.counter)}", z3.IntSort(), z3.IntSort())
    k = z3.Int(f"k_sort!{builtins.next(c.counter)}")
    if arrs:
        c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < x.n), z3.And(
            [pi(k) >= 0, pi(k) < x.n] + [a[k] == b[x.lo + pi(k)] for a, b in builtins.zip(arrs, x.arrs)])),
            patterns=[arrs[0][k]]))
    return SymList(x.et, x.n, arrs, None, x.measures.values(), x.mvals, builtins.list)


def s_in(x, coll):
    if isinstance(x, Sym) or (isinstance(x, builtins.tuple) and builtins.any(isinstance(y, Sym) for y in x)):
        if isinstance(coll, (builtins.set, builtins.frozenset, builtins.dict, builtins.list,
                             builtins.tuple)):
            for y in coll:
                if x == y:
                    return True
            return False
    return x in coll


def s_comp(kind, f, src, conds):
    """[f(x) for x in src if conds(x)]"""
    if is_symseq(src):
        if conds is None:
            seq = LazySeq(src, f)
        else:
            seq = FilterSeq(src, f, conds)
        if kind == "gen":
            return seq
        if kind == "list" and conds is not None:
            return materialize_filtered(seq)
        if kind == "list" and conds is None:
            if concrete_int(sym_len(seq)) is not None:
                return materialize(seq, builtins.list)
            return materialize(seq, builtins.list)
        raise Unsupported(f"{kind} comprehension over a symbolic source")
    if kind == "gen":
        return (f(x) for x in src if conds is None or conds(x))
    out = [f(x) for x in src if conds is None or conds(x)]
    if kind == "list":
        return out
    if kind == "set":
        return builtins.set(out)
    if kind == "dict":
        return builtins.dict(out)
    raise Unsupported(kind)


def s_join(sep, parts):
    if builtins.isinstance(sep, (builtins.bytes, builtins.str)):
        if is_symseq(parts):
            raise Unsupported("join over a symbolic sequence")
        parts = builtins.list(parts)
        if builtins.any(hasattr(p, "__pyvc_type__") for p in parts):
            r = sep[:0]
            for k, p in builtins.enumerate(parts):
                r = (r + sep if k else r) + p
            return r
        return sep.join(parts)
    return sep.join(parts)


def s_dataclass_replace(obj, **kw):
    import dataclasses
    return dataclasses.replace(obj, **kw)


SHIMS = {
    "len": s_len, "range": s_range, "min": s_min, "max": s_max, "sum": s_sum, "any": s_any,
    "all": s_all, "abs": s_abs, "type": s_type, "getattr": s_getattr, "hasattr": s_hasattr, "isinstance": s_isinstance, "int": S_int,
    "bool": S_bool, "float": S_float, "list": S_list, "tuple": S_tuple, "zip": s_zip,
    "enumerate": s_enumerate, "reversed": s_reversed, "sorted": s_sorted, "str": S_str,
}
