"""A dict from int to sequences, of unknown size (symbolic keys and contents)."""
import z3

from .engine import ctx, Unsupported
from .values import SymInt, SymList, LazySeq, INT, NAT, int_term, to_bool_term

I = z3.IntSort()


class SymMap:
    """dict[int, list]: `present[k]`, and for every key the length, the element
    arrays and the measures of its list.  Lists handed out by get()/[] and lists
    stored by [k] = v stay aliased: they are written back before every operation.
    """
    __pyvc_heap__ = True
    __pyvc_type__ = dict

    def __init__(self, et, measures=(), hint="map", empty=False):
        self._et, self._measures, self._hint = et, tuple(measures), hint
        self._handles = _Handles()
        if empty:
            self._present = z3.K(I, z3.BoolVal(False))
            self._size = z3.IntVal(0)
        self._reset(empty)

    def _reset(self, empty=False):
        c = ctx()
        f = lambda s, h: c.fresh(z3.ArraySort(I, s), f"{self._hint}_{h}")
        if not empty:
            self._present = f(z3.BoolSort(), "in")
            self._size = c.fresh(I, f"{self._hint}_size")
            c.add(self._size >= 0)
        self._n = f(I, "n")
        self._arrs = tuple(f(z3.ArraySort(I, s), f"a{i}") for i, s in enumerate(self._et.sorts))
        self._mv = {m.name: f(I, m.name) for m in self._measures}
        if not empty:
            k = z3.Int("k_map")
            c.add(z3.ForAll([k], z3.Implies(self._present[k], self._size >= 1), patterns=[self._present[k]]))
            c.add(z3.ForAll([k], self._n[k] >= 0, patterns=[self._n[k]]))
            for m in self._measures:
                a = self._mv[m.name]
                c.add(z3.ForAll([k], z3.Implies(self._n[k] == 0, a[k] == 0), patterns=[a[k]]))
                if m.nonneg:
                    c.add(z3.ForAll([k], a[k] >= 0, patterns=[a[k]]))

    # -- aliases ---------------------------------------------------------
    def _flush(self):
        for k, v in self._handles.items:
            self._write(k, v)

    def _write(self, k, v):
        if not isinstance(v, SymList):
            v = SymList.of(self._et, list(v), self._measures)
        self._n = z3.Store(self._n, k, v.n)
        c = ctx()
        arrs = []
        for a, x in zip(self._arrs, v.arrs):
            if z3.is_int_value(v.lo) and v.lo.as_long() == 0:
                arrs.append(z3.Store(a, k, x))
            else:
                i = z3.Int("i_map")
                y = c.fresh(x.sort(), "shift")
                c.add(z3.ForAll([i], y[i] == x[v.lo + i], patterns=[y[i]]))
                arrs.append(z3.Store(a, k, y))
        self._arrs = tuple(arrs)
        self._mv = {m: z3.Store(a, k, v.mvals[m]) for m, a in self._mv.items()}

    def _find(self, k):
        """The alias registered for key k, if any (decides key equalities)."""
        for j, (h, v) in enumerate(self._handles.items):
            if z3.eq(h, k) or ctx().decide(h == k):
                return j
        return None

    def _view(self, k):
        return SymList(self._et, z3.simplify(self._n[k]), [a[k] for a in self._arrs], None, self._measures,
                       {m: a[k] for m, a in self._mv.items()}, list)

    def havoc(self):
        self._flush()
        self._handles.items = []
        self._reset()

    # -- dict ------------------------------------------------------------
    def __len__(self):
        raise Unsupported("native len() of a symbolic map")

    @staticmethod
    def __pyvc_len__(m):
        return SymInt(m._size)

    def __bool__(self):
        return ctx().decide(self._size > 0)

    def __contains__(self, key):
        return ctx().decide(self._present[int_term(key)])

    def get(self, key, default=None):
        k = int_term(key)
        if not ctx().decide(self._present[k]):
            return default
        return self._get(k)

    def _get(self, k):
        j = self._find(k)
        if j is not None:
            return self._handles.items[j][1]
        self._flush()
        v = self._view(k)
        self._handles.items = self._handles.items + [(k, v)]
        return v

    def __getitem__(self, key):
        k = int_term(key)
        if not ctx().decide(self._present[k]):
            raise KeyError(key)
        return self._get(k)

    def __setitem__(self, key, v):
        k = int_term(key)
        self._flush()
        j = self._find(k)
        items = list(self._handles.items)
        if j is not None:
            items.pop(j)
        self._handles.items = items + [(k, v)]
        self._size = z3.simplify(self._size + z3.If(self._present[k], 0, 1))
        self._present = z3.Store(self._present, k, z3.BoolVal(True))
        self._write(k, v)

    def setdefault(self, key, v):
        k = int_term(key)
        if not ctx().decide(self._present[k]):
            self[key] = v
            return v
        return self._get(k)

    def pop(self, key, *default):
        k = int_term(key)
        if not ctx().decide(self._present[k]):
            if default:
                return default[0]
            raise KeyError(key)
        self._flush()
        j = self._find(k)
        items = list(self._handles.items)
        v = items.pop(j)[1] if j is not None else self._view(k)
        self._handles.items = items
        self._present = z3.Store(self._present, k, z3.BoolVal(False))
        self._size = z3.simplify(self._size - 1)
        k2 = z3.Int("k_map")
        ctx().add(z3.ForAll([k2], z3.Implies(self._present[k2], self._size >= 1)))
        ctx().add(self._size >= 0)
        return v

    def __delitem__(self, key):
        self.pop(key)

    def clear(self):
        self._flush()
        self._handles.items = []
        self._present = z3.K(I, z3.BoolVal(False))
        self._size = z3.IntVal(0)

    def _keys(self):
        """Every key exactly once, in some order."""
        self._flush()
        c = ctx()
        keys = SymList.fresh(INT, self._hint + "_keys")
        pos = z3.Function(f"{self._hint}_pos!{next(c.counter)}", I, I)
        i, k = z3.Int("i_map"), z3.Int("k_map")
        a = keys.arrs[0]
        c.add(keys.n == self._size)
        c.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < keys.n), z3.And(self._present[a[i]], pos(a[i]) == i)),
                        patterns=[a[i]]))
        c.add(z3.ForAll([k], z3.Implies(self._present[k], z3.And(pos(k) >= 0, pos(k) < keys.n, a[pos(k)] == k)),
                        patterns=[self._present[k]]))
        return keys

    def keys(self):
        return self._keys()

    def __iter__(self):
        raise Unsupported("iteration over a symbolic map")

    def items(self):
        return LazySeq(self._keys(), lambda k: (k, self._view(int_term(k))))

    def values(self):
        return LazySeq(self._keys(), lambda k: self._view(int_term(k)))

    # -- for specifications ------------------------------------------------
    def has(self, k):
        self._flush()
        return self._present[k]

    def n_at(self, k):
        self._flush()
        return self._n[k]

    def elem(self, k, i):
        self._flush()
        return [a[k][i] for a in self._arrs]

    def measure_at(self, name, k):
        self._flush()
        return self._mv[name][k]

    @property
    def size(self):
        return self._size


class _Handles:
    """Not part of the verified heap picture: only a cache of aliases."""

    def __init__(self):
        self.items = []
