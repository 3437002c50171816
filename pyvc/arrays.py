"""Contract of numpy arrays: a shape of terms and an index function.

Every operation is numpy's documented index equation; views may not be written through (Unsupported), so value semantics are
exact. Elements are z3 terms of one sort."""
import z3

from .engine import ctx, Unsupported
from .values import Sym, SymInt, SymBool, SymReal, int_term, to_bool_term
import numpy as _np

I = z3.IntSort()


def _t(v):
    return int_term(v)


def _n(t):
    """A dimension: a Python int when it is one."""
    t = z3.simplify(t) if z3.is_expr(t) else t
    if isinstance(t, int):
        return t
    return t.as_long() if z3.is_int_value(t) else SymInt(t)


class DType:
    def __init__(self, name="elem"):
        self.name = self.str = name


class SArr:
    __pyvc_type__ = _np.ndarray
    __array_ufunc__ = None
    __hash__ = None

    def __init__(self, shape, fn, wrap=SymInt, view=False, sel=None, segs=None, dtype=None):
        self.__dict__["shape"] = tuple(_n(_t(s)) for s in shape)
        self.fn, self.wrap, self.view, self.sel, self.segs = fn, wrap, view, sel, segs
        self.viewed = False
        self.dtype = dtype or DType()

    @classmethod
    def fresh(cls, shape, hint="a", sort=I, wrap=SymInt):
        f = z3.Function(f"{hint}!{next_id()}", *[I] * len(shape), sort)
        return cls(shape, lambda *i: f(*i), wrap)

    @classmethod
    def of(cls, items, wrap=SymInt):
        items = list(items)

        def fn(i):
            if z3.is_int_value(i):
                return items[i.as_long()]
            r = items[-1]
            for k in range(len(items) - 2, -1, -1):
                r = z3.If(i == k, items[k], r)
            return r
        return cls((len(items),), fn, wrap)

    # -- shape --------------------------------------------------------------
    def __setattr__(self, k, v):
        if k == "shape":
            raise Unsupported("assigning the shape of an array")
        self.__dict__[k] = v

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return NP.prod(self.shape)

    def __pyvc_len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __len__(self):
        n = self.__pyvc_len__()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a symbolic array")

    def _view(self, shape, fn, **kw):
        self.viewed = True
        kw.setdefault("sel", self.sel)
        return SArr(shape, fn, self.wrap, view=True, dtype=self.dtype, **kw)

    def _fresh(self, shape, fn, **kw):
        return SArr(shape, fn, self.wrap, dtype=self.dtype, **kw)

    def copy(self, order="C"):
        out = self._fresh(self.shape, self.fn, sel=self.sel, segs=self.segs)
        out.rowsegs = self.rowsegs
        return out

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dtype, copy=True, **kw):
        return self.copy()

    def axis(self, a):
        if not isinstance(a, int) or not -self.ndim <= a < self.ndim:
            raise Unsupported(f"axis {a!r} of a {self.ndim}-d array")
        return a % self.ndim

    # -- views --------------------------------------------------------------
    def flip(self, axis=None):
        axes = range(self.ndim) if axis is None else [self.axis(a) for a in (axis if isinstance(axis, tuple) else (axis,))]
        self._rows(axes)
        shape, f = self.shape, self.fn

        def fn(*i):
            i = list(i)
            for a in axes:
                i[a] = _t(shape[a]) - 1 - i[a]
            return f(*i)
        return self._view(shape, fn)

    def _rows(self, axes):
        if self.sel is not None and 0 in axes:
            raise Unsupported("reordering the selected rows")

    def transpose(self, *axes):
        if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
            axes = axes[0] or ()
        axes = [self.axis(a) for a in axes] if axes else list(range(self.ndim))[::-1]
        if axes[:1] != [0]:
            self._rows([0])
        f = self.fn
        inv = [axes.index(k) for k in range(self.ndim)]
        return self._view([self.shape[a] for a in axes], lambda *i: f(*[i[inv[k]] for k in range(len(i))]))

    T = property(lambda self: self.transpose())

    def swapaxes(self, a, b):
        a, b = self.axis(a), self.axis(b)
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return self.transpose(*p)

    def reshape(self, *shape, **kw):
        if kw:
            raise Unsupported("reshape options")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr)):
            shape = tuple(shape[0])
        shape = list(shape)
        if len(shape) == 1 and (concrete(shape[0]) == -1):
            return self.ravel()
        if any(concrete(s) == -1 for s in shape):
            k = [concrete(s) for s in shape].index(-1)
            if self.sel is None and len(shape) == 2 and k == 1 and same(shape[0], self.shape[0]):
                return self.rows_flat()
            if k == 0 and len(shape) == 3 and self.ndim == 2:
                shape[0] = self.shape[0]
            else:
                raise Unsupported("reshape with an inferred dimension")
        c = ctx()
        if len(shape) == self.ndim and all(same(a, b) for a, b in zip(shape, self.shape)):
            return self._view(self.shape, self.fn, segs=self.segs)
        if self.ndim == 1 and len(shape) == 2:
            h, w = shape
            c.session.prove("reshape keeps the number of elements", _t(h) * _t(w) == _t(self.shape[0]))
            if self.segs and len(self.segs) == 1 and same(self.segs[0].shape[0], h) and same(self.segs[0].shape[1], w):
                b = self.segs[0]
                return self._view((h, w), b.fn)
            f = self.fn
            return self._view((h, w), lambda y, x: f(y * _t(w) + x))
        if self.ndim == 2 and len(shape) == 3 and same(shape[0], self.shape[0]) and self.rowsegs:
            segs = self.rowsegs
            _, h, w = shape
            if len(segs) == 1 and same(segs[0].shape[1], h) and same(segs[0].shape[2], w):
                return self._view(segs[0].shape, segs[0].fn)
        raise Unsupported("this reshape")

    def ravel(self, order="C"):
        if self.ndim == 1:
            return self._view(self.shape, self.fn, segs=self.segs)
        if self.ndim != 2:
            raise Unsupported("flattening more than two axes")
        h, w = (_t(s) for s in self.shape)
        f = self.fn
        return self._view((h * w,), lambda k: f(k / w, k % w), segs=[self])

    flatten = ravel
    rowsegs = None

    def rows_flat(self):
        """(n, h, w) -> (n, h*w)"""
        if self.ndim == 2:
            return self._view(self.shape, self.fn)
        if self.ndim != 3:
            raise Unsupported("flattening rows")
        n, h, w = self.shape
        f, wt = self.fn, _t(w)
        r = self._view((n, _t(h) * _t(w)), lambda i, k: f(i, k / wt, k % wt))
        r.rowsegs = [self]
        return r

    # -- elements -----------------------------------------------------------
    def item(self, *i):
        if not i and all(s == 1 for s in self.shape):
            i = (0,) * self.ndim
        return self.wrap(self.fn(*[_t(k) for k in i]))

    def tolist(self):
        return list(self)

    def tobytes(self):
        return b"\0array"

    def __iter__(self):
        n = self.shape[0] if self.shape else None
        if not isinstance(n, int):
            raise Unsupported("iterating over an array of symbolic length")
        return iter([self[i] for i in range(n)])

    def __bool__(self):
        if all(s == 1 for s in self.shape):
            v = self.wrap(self.fn(*[z3.IntVal(0)] * self.ndim))
            return bool(v != 0 if not isinstance(v, SymBool) else v)
        raise Unsupported("truth of an array with several elements")

    def _index(self, key):
        """key -> list of per-axis (kind, data) entries, kind in full/rev/int/list/range."""
        key = key if isinstance(key, tuple) else (key,)
        if any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            key = key[:p] + (slice(None),) * (self.ndim - len(key) + 1) + key[p + 1:]
        key = key + (slice(None),) * (self.ndim - len(key))
        if len(key) != self.ndim:
            raise Unsupported("indexing with new axes")
        return key

    def _pick(self, key):
        """(shape, map from result index to source index, is_view)"""
        shape, steps, view = [], [], True
        for a, k in enumerate(key):
            n = _t(self.shape[a])
            if isinstance(k, slice):
                st = concrete(k.step) if k.step is not None else 1
                if st == -1 and k.start is None and k.stop is None:
                    steps.append(("map", lambda i, n=n: n - 1 - i))
                    shape.append(self.shape[a])
                    self._rows([a])
                elif st == 1:
                    lo = _bound(k.start, n, 0)
                    hi = _bound(k.stop, n, n)
                    if not (k.start is None and k.stop is None):
                        self._rows([a])
                    m = z3.simplify(hi - lo)
                    m = z3.If(m < 0, 0, m) if not (k.stop is None and k.start is None) else n
                    shape.append(_n(m))
                    steps.append(("map", lambda i, lo=lo: i + lo))
                else:
                    raise Unsupported("a slice with this step")
            elif isinstance(k, (int, SymInt)) and not isinstance(k, bool):
                self._rows([a])
                kt = _t(k)
                kk = z3.simplify(z3.If(kt < 0, kt + n, kt))
                if ctx().decide(z3.Not(z3.And(kk >= 0, kk < n))):
                    raise IndexError("index out of range")
                steps.append(("at", kk))
            elif isinstance(k, (list, _np.ndarray)) and all(isinstance(int(x), int) for x in k):
                if isinstance(k, _np.ndarray) and k.dtype.kind not in "iu":
                    raise Unsupported("indexing with a native mask")
                self._rows([a])
                items = [int(x) for x in k]
                ctx().session.prove("gathered positions exist", z3.And([z3.And(n > x, n >= -x) for x in items]))
                src = SArr.of([z3.IntVal(x) if x >= 0 else n + x for x in items])
                shape.append(len(items))
                steps.append(("map", src.fn))
                view = False
            else:
                raise Unsupported(f"indexing with {type(k).__name__}")
        if sum(isinstance(k, (list, _np.ndarray)) for k in key) > 1:
            raise Unsupported("several gathered axes")

        def to(*i):
            i = list(i)
            return [s[1] if s[0] == "at" else s[1](i.pop(0)) for s in steps]
        return shape, to, view

    def __getitem__(self, key):
        rows, key = self._selector(key)
        key = self._index(key)
        if rows is not None:
            shape, to, _ = self._pick(key)
            f = self.fn
            out = self._fresh(shape, lambda *i: f(*to(*i)))
            out.sel = rows
            return out
        shape, to, view = self._pick(key)
        f = self.fn
        if not shape:
            return self.wrap(f(*to()))
        segs = None
        if self.segs and self.ndim == 1 and isinstance(key[0], slice):
            segs = _cut(self.segs, key[0])
        if view:
            out = self._view(shape, lambda *i: f(*to(*i)), segs=segs)
        else:
            out = self._fresh(shape, lambda *i: f(*to(*i)), sel=self.sel, segs=segs)
        if self.rowsegs and isinstance(key[1], slice) and key[0] == slice(None):
            out.rowsegs = _cut(self.rowsegs, key[1])
        return out

    def _selector(self, key):
        first = key[0] if isinstance(key, tuple) and key else key
        if isinstance(first, Rows):
            rows = first
        elif isinstance(first, SArr) and first.wrap is SymBool and first.ndim == 1:
            rows = Rows(first)
        else:
            return None, key
        rest = key[1:] if isinstance(key, tuple) else ()
        if self.sel is not None or not same(rows.mask.shape[0], self.shape[0]):
            raise Unsupported("selecting rows of a selection")
        return rows, (slice(None),) + tuple(rest)

    def __setitem__(self, key, value):
        if self.view or self.viewed:
            raise Unsupported("writing to an array with views")
        rows, key = self._selector(key)
        key = self._index(key)
        cond, src = [], []
        for a, k in enumerate(key):
            if isinstance(k, slice) and k == slice(None):
                src.append(None)
            elif isinstance(k, slice) and k.start is None and k.stop is None and concrete(k.step) == -1:
                src.append(("rev", self.shape[a]))
            elif isinstance(k, (int, SymInt)):
                kk = _t(k)
                ctx().session.prove("written position exists", z3.And(kk < _t(self.shape[a]), kk >= -_t(self.shape[a])))
                src.append(("at", z3.If(kk < 0, kk + _t(self.shape[a]), kk)))
            elif isinstance(k, (list, _np.ndarray)):
                src.append(("list", [int(x) for x in k]))
            else:
                raise Unsupported("writing through this index")
        if sum(s is not None and s[0] == "list" for s in src) > 1:
            raise Unsupported("writing through several lists")
        old = self.fn
        if isinstance(value, SArr):
            if (value.sel is None) != (rows is None and self.sel is None) or (
                    value.sel is not None and value.sel.mask is not (rows.mask if rows is not None else self.sel.mask)):
                raise Unsupported("writing rows of another selection")
            g = value.fn
            if value.ndim != self.ndim - sum(s is not None and s[0] == "at" for s in src):
                raise Unsupported("broadcasting on assignment")
            dims = [(a, s) for a, s in enumerate(src) if s is None or s[0] != "at"]
            for d, (a, s) in enumerate(dims):
                want = self.shape[a] if s is None or s[0] == "rev" else len(s[1])
                if rows is not None and a == 0:
                    continue
                if not same(value.shape[d], want):
                    if ctx().decide(_t(value.shape[d]) != _t(want)):
                        raise ValueError("could not broadcast input array")
        else:
            const = value.t if isinstance(value, Sym) else z3.IntVal(int(value))
            g = None

        def fn(*i):
            hit, at = [], []
            if rows is not None:
                hit.append(rows.mask.fn(i[0]))
            for a, s in enumerate(src):
                if s is None:
                    at.append(i[a])
                elif s[0] == "rev":
                    at.append(_t(s[1]) - 1 - i[a])
                elif s[0] == "at":
                    hit.append(i[a] == s[1])
                else:
                    n = _t(self.shape[a])
                    pos = [z3.IntVal(x) if x >= 0 else n + x for x in s[1]]
                    hit.append(z3.Or([i[a] == p for p in pos]))
                    r = z3.IntVal(len(pos) - 1)
                    for k in range(len(pos) - 2, -1, -1):
                        r = z3.If(z3.And(i[a] == pos[k], *[i[a] != q for q in pos[k + 1:]]), z3.IntVal(k), r)
                    at.append(r)
            new = g(*at) if g is not None else const
            return z3.If(z3.And(hit), new, old(*i)) if hit else new
        self.fn, self.segs, self.rowsegs = fn, None, None

    # -- elementwise --------------------------------------------------------
    def _map(self, o, f, wrap):
        if isinstance(o, SArr):
            raise Unsupported("combining two symbolic arrays")
        w, g = self.wrap, self.fn

        def fn(*i):
            r = f(w(g(*i)), o)
            return to_bool_term(r) if wrap is SymBool else r.t
        return SArr(self.shape, fn, wrap, sel=self.sel)

    def __gt__(self, o): return self._map(o, lambda a, b: a > b, SymBool)
    def __ge__(self, o): return self._map(o, lambda a, b: a >= b, SymBool)
    def __lt__(self, o): return self._map(o, lambda a, b: a < b, SymBool)
    def __le__(self, o): return self._map(o, lambda a, b: a <= b, SymBool)
    def __eq__(self, o): return self._map(o, lambda a, b: a == b, SymBool)
    def __ne__(self, o): return self._map(o, lambda a, b: a != b, SymBool)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"ndarray.{k}")


class Rows:
    """np.flatnonzero(mask): the increasing positions of the true rows."""

    def __init__(self, mask):
        self.mask = mask

    @property
    def size(self):
        c = ctx()
        n = c.fresh(I, "selected_rows")
        c.add(n >= 0)
        for r in c.ghost.get("rows", ()):
            c.add(z3.Implies(self.mask.fn(r), n > 0))
        return SymInt(n)

    def __pyvc_len__(self):
        return self.size

    def __len__(self):
        raise Unsupported("native len() of selected rows")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported(f"flatnonzero().{k}")


def _cut(segs, sl):
    """Structure of [:-1] and [-1:] of something ending in a single tail element."""
    last = segs[-1]
    if (sl.start, sl.stop) == (None, None):
        return segs
    if not isinstance(last, Tail) or sl.step not in (None, 1):
        return None
    if (sl.start, sl.stop) == (None, -1):
        return segs[:-1]
    if (sl.start, sl.stop) == (-1, None):
        return [last]
    return None


class Tail:
    """One element behind a flattened board."""

    def __init__(self, t):
        self.t = t


def _bound(v, n, default):
    if v is None:
        return default if z3.is_expr(default) else z3.IntVal(default)
    v = _t(v)
    lo = z3.If(v < 0, v + n, v)
    return z3.simplify(z3.If(lo < 0, 0, z3.If(lo > n, n, lo)))


def concrete(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return v
    if isinstance(v, SymInt):
        t = z3.simplify(v.t)
        return t.as_long() if z3.is_int_value(t) else None
    return None


def same(a, b):
    """Provably (syntactically) the same dimension."""
    a, b = z3.simplify(_t(a)), z3.simplify(_t(b))
    return a.eq(b) or z3.is_true(z3.simplify(a == b))


_ids = [0]


def next_id():
    _ids[0] += 1
    return _ids[0]


def board_and_tail(board, tail):
    """The flat array [rows of board..., tail] (tail is a term)."""
    h, w = (_t(s) for s in board.shape)
    f = board.fn
    return SArr((h * w + 1,), lambda k: z3.If(k < h * w, f(k / w, k % w), tail), board.wrap, segs=[board, Tail(tail)])


def flat_rows(boards, tail):
    """(n, h*w+1) rows of boards (n, h, w) and a tail function of the row."""
    n, h, w = boards.shape
    ht, wt, f = _t(h), _t(w), boards.fn
    r = SArr((n, ht * wt + 1), lambda i, k: z3.If(k < ht * wt, f(i, k / wt, k % wt), tail(i)), boards.wrap)
    r.rowsegs = [boards, Tail(tail)]
    return r


class NPModule:
    """numpy, with contracts for symbolic arrays; concrete arguments go to numpy."""
    ndarray = _np.ndarray

    def __getattr__(self, k):
        v = getattr(_np, k)
        if not callable(v) or isinstance(v, type):
            return v

        def call(*a, **kw):
            if _symbolic(a) or _symbolic(list(kw.values())):
                raise Unsupported(f"np.{k} of symbolic arrays")
            return v(*a, **kw)
        return call

    def flip(self, a, axis=None):
        return a.flip(axis) if isinstance(a, SArr) else _np.flip(a, axis)

    def fliplr(self, a):
        return a.flip(1) if isinstance(a, SArr) else _np.fliplr(a)

    def flipud(self, a):
        return a.flip(0) if isinstance(a, SArr) else _np.flipud(a)

    def rot90(self, a, k=1, axes=(0, 1)):
        if not isinstance(a, SArr):
            return _np.rot90(a, k, axes)
        k %= 4
        x, y = axes
        if k == 0:
            return a[...]
        if k == 2:
            return a.flip((x, y))
        return a.flip(y).swapaxes(x, y) if k == 1 else a.swapaxes(x, y).flip(y)

    def swapaxes(self, a, x, y):
        return a.swapaxes(x, y) if isinstance(a, SArr) else _np.swapaxes(a, x, y)

    def transpose(self, a, axes=None):
        return a.transpose(axes) if isinstance(a, SArr) else _np.transpose(a, axes)

    def moveaxis(self, a, s, d):
        if not isinstance(a, SArr):
            return _np.moveaxis(a, s, d)
        order = list(range(a.ndim))
        s, d = a.axis(s), a.axis(d)
        order.insert(d, order.pop(s))
        return a.transpose(*order)

    def copy(self, a):
        return a.copy() if isinstance(a, SArr) else _np.copy(a)

    def ascontiguousarray(self, a, dtype=None):
        return a.copy() if isinstance(a, SArr) else _np.ascontiguousarray(a, dtype)

    def asarray(self, a, dtype=None, **kw):
        if isinstance(a, SArr):
            return a
        return self.array(a, dtype) if _symbolic([a]) else _np.asarray(a, dtype, **kw)

    def array(self, a, dtype=None, copy=True, **kw):
        if isinstance(a, SArr):
            return a.copy() if copy is not False else a
        if isinstance(a, (list, tuple)) and _symbolic(a):
            if all(isinstance(x, (int, SymInt)) for x in a):
                return SArr.of([_t(x) for x in a])
            raise Unsupported("np.array of these elements")
        return _np.array(a, dtype, copy=copy, **kw)

    def empty_like(self, a, **kw):
        return SArr.fresh(a.shape, "uninitialised", a.fn(*[z3.IntVal(0)] * a.ndim).sort(), a.wrap) if isinstance(a, SArr) \
            else _np.empty_like(a, **kw)

    def zeros_like(self, a, **kw):
        if not isinstance(a, SArr):
            return _np.zeros_like(a, **kw)
        return SArr(a.shape, lambda *i: z3.IntVal(0), a.wrap)

    def zeros(self, shape, dtype=None):
        if not _symbolic([shape]):
            return _np.zeros(shape, **({"dtype": dtype} if dtype is not None else {}))
        shape = shape if isinstance(shape, tuple) else (shape,)
        return SArr(shape, lambda *i: z3.IntVal(0))

    def reshape(self, a, *shape):
        return a.reshape(*shape) if isinstance(a, SArr) else _np.reshape(a, *shape)

    def take(self, a, indices, axis=None):
        if not isinstance(a, SArr):
            return _np.take(a, indices, axis)
        if axis is None:
            raise Unsupported("np.take of the flattened array")
        ax = a.axis(axis)
        return a[(slice(None),) * ax + (list(indices),)]

    def prod(self, a, **kw):
        if isinstance(a, (SArr, tuple, list)) and _symbolic([a]):
            r = z3.IntVal(1)
            for v in a:
                r = r * _t(v)
            return _n(r)
        return _np.prod(a, **kw)

    def sum(self, a, *r, **kw):
        if _symbolic([a]):
            raise Unsupported("np.sum of a symbolic array")
        return _np.sum(a, *r, **kw)

    def any(self, a, **kw):
        if not isinstance(a, SArr):
            return _np.any(a, **kw)
        if a.ndim != 1 or a.wrap is not SymBool or kw:
            raise Unsupported("np.any of this array")
        return Rows(a).size > 0

    def flatnonzero(self, a):
        if not isinstance(a, SArr):
            return _np.flatnonzero(a)
        if a.ndim != 1 or a.wrap is not SymBool or a.sel is not None:
            raise Unsupported("np.flatnonzero of this array")
        return Rows(a)

    def nonzero(self, a):
        return (self.flatnonzero(a),) if isinstance(a, SArr) else _np.nonzero(a)

    def where(self, a, *r):
        if isinstance(a, SArr) and not r:
            return (self.flatnonzero(a),)
        if _symbolic([a, *r]):
            raise Unsupported("np.where of symbolic arrays")
        return _np.where(a, *r)

    def pad(self, a, width, mode="constant", constant_values=0, **kw):
        if not isinstance(a, SArr):
            return _np.pad(a, width, mode=mode, constant_values=constant_values, **kw)
        if mode != "constant" or kw or not isinstance(constant_values, int):
            raise Unsupported("np.pad in this mode")
        if isinstance(width, int) or len(width) != a.ndim or any(len(p) != 2 for p in width):
            raise Unsupported("np.pad with broadcast widths")
        w = [(_t(p), _t(q)) for p, q in width]
        c = ctx()
        if c.decide(z3.Or([x < 0 for p in w for x in p])):
            raise ValueError("index can't contain negative values")
        shape = [_t(s) for s in a.shape]
        f = a.fn

        def fn(*i):
            j = [k - p for k, (p, _) in zip(i, w)]
            return z3.If(z3.And([z3.And(k >= 0, k < s) for k, s in zip(j, shape)]), f(*j), z3.IntVal(constant_values))
        return a._fresh([z3.simplify(s + p + q) for s, (p, q) in zip(shape, w)], fn)

    def concatenate(self, arrays, axis=0, **kw):
        arrays = list(arrays)
        if not any(isinstance(a, SArr) for a in arrays):
            return _np.concatenate(arrays, axis=axis, **kw)
        if len(arrays) != 2 or kw or any(not isinstance(a, SArr) or a.sel is not None for a in arrays):
            raise Unsupported("np.concatenate of these arrays")
        a, b = arrays
        ax = a.axis(axis)
        if a.ndim != b.ndim:
            raise Unsupported("np.concatenate of different ranks")
        for k in range(a.ndim):
            if k != ax and not same(a.shape[k], b.shape[k]):
                raise Unsupported("np.concatenate of different shapes")
        n, f, g = _t(a.shape[ax]), a.fn, b.fn

        def fn(*i):
            j = list(i)
            j[ax] = i[ax] - n
            return z3.If(i[ax] < n, f(*i), g(*j))
        shape = list(a.shape)
        shape[ax] = _n(z3.simplify(n + _t(b.shape[ax])))
        out = a._fresh(shape, fn)
        if a.ndim == 1:
            sb = b.segs if b.segs else [Tail(b.fn(z3.IntVal(0)))] if concrete(b.shape[0]) == 1 else None
            out.segs = a.segs + sb if a.segs and sb else None
        elif a.ndim == 2 and ax == 1 and a.rowsegs:
            gb = b.fn
            sb = b.rowsegs if b.rowsegs else [Tail(lambda i: gb(i, z3.IntVal(0)))] if concrete(b.shape[1]) == 1 else None
            out.rowsegs = a.rowsegs + sb if sb else None
        return out


def _symbolic(a):
    if isinstance(a, (SArr, Sym)):
        return True
    if isinstance(a, (list, tuple)):
        return any(_symbolic(x) for x in a)
    return False


NP = NPModule()
