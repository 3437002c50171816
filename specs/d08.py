"""D08 - a composite stream follows its integer source ratio exactly."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymInt, SymBool, SymVal, SymList, LazySeq, SymRange, TInt, TOpaque, INT, NAT, BOOL, Measure, int_term, to_bool_term
from pyvc.load import World, LoopSpec
from pyvc import shims

MOD = "dataset.composite_source"
TRUSTED = ["a child source delivers its records in one fixed order, next_envelopes(cursor, limit) the next 1..limit of them (none only at the "
           "end), and its own save/restore round trips (D06, D07)"]
I, B = z3.IntSort(), z3.BoolSort()
W = z3.Int("watched_child")
LENF = z3.Function("records_of_child", I, I)
COUNT = Measure("count", lambda t: z3.If(t == W, z3.IntVal(1), z3.IntVal(0)))
TOTAL = Measure("total", lambda t: t)
TOTAL.is_sum = True
skip = lambda v: None


# ---------------------------------------------------------------- the schedule
def sum_lemmas(S):
    A = z3.ArraySort(I, I)

    def h():
        P = z3.Function("prefix_sum", A, I, I)
        a, b, c = (z3.Const(k, A) for k in "abc")
        j, n, s, q = z3.Ints("j n s q")
        x = ctx()
        for t in (a, b, c):
            x.add(z3.And(P(t, z3.IntVal(0)) == 0, P(t, j + 1) == P(t, j) + t[j]))
        x.add(z3.And(j >= 0, j < n, s >= 0, s < n))
        allj = lambda f: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q)))
        z = z3.IntVal(0)

        def induct(name, pre, claim):
            S.prove(f"{name}: base", z3.Implies(pre, claim(z)))
            S.prove(f"{name}: step", z3.Implies(z3.And(pre, claim(j)), claim(j + 1)))
        induct("sum of sums", allj(lambda q: c[q] == a[q] + b[q]), lambda k: P(c, k) == P(a, k) + P(b, k))
        induct("sum after one change", allj(lambda q: z3.Implies(q != s, c[q] == a[q])),
               lambda k: P(c, k) == P(a, k) + z3.If(s < k, c[s] - a[s], z))
        induct("a sum of nonpositives is nonpositive", allj(lambda q: a[q] <= 0), lambda k: P(a, k) <= 0)
        induct("a sum of nonnegatives bounds each", allj(lambda q: a[q] >= 0), lambda k: z3.And(P(a, k) >= 0, z3.Implies(s < k, P(a, k) >= a[s])))
        induct("a sum of zeros is zero", allj(lambda q: a[q] == 0), lambda k: P(a, k) == 0)
    S.run("sums over all children (lemmas)", h)


def schedule(S):
    held = {}
    SUM = z3.Function("sum_of_scores", z3.ArraySort(I, I), I)

    def arr(l):
        if not z3.eq(z3.simplify(l.lo), z3.IntVal(0)):
            raise Unsupported("scores do not start at 0")
        return l.arrs[0]

    def allj(f):
        q = z3.Int("q_child")
        return z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < held["n"]), f(q)))

    def outer(L):
        c = ctx()
        n, tot, wa = held["n"], held["total"], held["wa"]
        sc = L.scores
        a = arr(sc)
        k = L.i.t if isinstance(L.i, SymInt) else z3.IntVal(int(L.i))
        c.add(z3.Implies(allj(lambda q: a[q] == 0), SUM(a) == 0))
        if "A2" in held:
            a2, sel = held["A2"], held["sel"]
            c.add(z3.Implies(allj(lambda q: z3.Implies(q != sel, a[q] == a2[q])), SUM(a) == SUM(a2) + a[sel] - a2[sel]))
        sch = L.schedule
        ln = sch.n if isinstance(sch, SymList) else z3.IntVal(len(sch))
        cnt = sch.mvals["count"] if isinstance(sch, SymList) else z3.IntVal(0)
        yield "one pick per step", ln == k
        yield "one score per child", sc.n == n
        yield "the scores are the debts of the picks", a[W] == k * wa[W] - tot * cnt
        yield "the scores cancel", SUM(a) == 0
        yield "no child is a full cycle ahead", allj(lambda q: a[q] > -tot)
        if isinstance(sch, SymList):
            j = z3.Int("j_pick")
            yield "only children are picked", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < sch.n), z3.And(
                sch.arrs[0][sch.lo + j] >= 0, sch.arrs[0][sch.lo + j] < n)))

    def init(L, old):
        held["A1"] = arr(L.scores)

    def inner(L):
        a, a1, wa = arr(L.scores), held["A1"], held["wa"]
        yield "one score per child", L.scores.n == held["n"]
        yield "children passed earned their weight", allj(lambda q: a[q] == a1[q] + z3.If(q < int_term(L.i), wa[q], 0))
    w = World(loops={
        f"{MOD}:_weighted_cycle#0": LoopSpec(inv=outer, types={
            "schedule": lambda v: SymList.fresh(INT, "schedule", (COUNT,), list), "selected": skip, "child": skip, "weight": skip}),
        f"{MOD}:_weighted_cycle#1": LoopSpec(inv=inner, init=init)})
    m = w.module(MOD)

    def pick_max(*a, **kw):
        if len(a) == 1 and isinstance(a[0], SymRange) and "key" in kw:
            c = ctx()
            n = int_term(a[0].length())
            sel, p = c.fresh(I, "selected"), c.fresh(I, "positive")
            sc = held["scores"]()
            a2, a1, wa = arr(sc), held["A1"], held["wa"]
            c.session.prove("the maximum is over a nonempty range", n > 0)
            c.add(z3.Implies(allj(lambda q: a2[q] == a1[q] + wa[q]), SUM(a2) == SUM(a1) + held["total"]))
            # a positive sum has a positive summand (contrapositive of the lemma)
            c.add(z3.Implies(SUM(a2) > 0, z3.And(p >= 0, p < held["n"], a2[p] > 0)))
            c.add(z3.Implies(SUM(a2) <= 0, p == 0))
            c.add(z3.And(sel >= 0, sel < n))
            held["A2"], held["sel"] = a2, sel
            ks, kp = kw["key"](SymInt(sel)), kw["key"](SymInt(p))
            ge = z3.BoolVal(True)
            for x, y in reversed(list(zip(ks if isinstance(ks, tuple) else (ks,), kp if isinstance(kp, tuple) else (kp,)))):
                ge = z3.Or(int_term(x) > int_term(y), z3.And(int_term(x) == int_term(y), ge))
            c.add(ge)
            return SymInt(sel)
        return shims.s_max(*a, **kw)
    m.max = pick_max

    def h():
        c = ctx()
        held.clear()
        weights = SymList.fresh(INT, "weight", (TOTAL,), tuple)
        n, wa, tot = weights.n, weights.arrs[0], weights.mvals["total"]
        c.add(z3.And(W >= 0, W < n))
        c.inputs.update(children=n, watched_child=W, weight=wa[W])
        held.update(n=n, wa=wa, total=tot)
        # the sum of positive weights is at least each of them (lemma above)
        c.add(z3.Implies(allj(lambda q: wa[q] >= 1), tot >= wa[W]))
        scores = []
        old_repeat = m.__dict__.get("__pyvc_repeat__")
        import pyvc.values as V
        orig = V.seq_repeat

        def repeat(s, k):
            r = orig(s, k)
            if s == [0]:
                scores.append(r)
            return r
        V.seq_repeat = repeat
        held["scores"] = lambda: scores[-1]
        try:
            try:
                out = m._weighted_cycle(weights)
            except ValueError:
                S.prove("refuses only weights that are not positive", z3.Not(allj(lambda q: wa[q] >= 1)))
                return
        finally:
            V.seq_repeat = orig
        S.prove("the cycle has one pick per unit of weight", out.n == tot)
        cnt = out.mvals["count"]
        a = arr(scores[-1])
        d = wa[W] - cnt
        # integer arithmetic of one product
        c.add(z3.And(tot * wa[W] - tot * cnt == tot * d, z3.Implies(d <= -1, tot * d <= -tot), z3.Implies(d >= 1, tot * d >= tot)))
        S.prove("no child ends in debt", a[W] >= 0)
        # the watched child is arbitrary: the same holds of every child
        c.add(allj(lambda q: a[q] >= 0))
        c.add(z3.Implies(allj(lambda q: a[q] >= 0), SUM(a) >= a[W]))
        S.prove("each child is picked exactly its weight in a cycle", cnt == wa[W])
        c.completed = True
    S.run("_weighted_cycle", h)


# ---------------------------------------------------------------- drawing
class Cur:
    __pyvc_heap__ = True

    def __init__(self, child, pos):
        self.child, self.pos = child, pos


class Env:
    """Record idx of child."""

    def __init__(self, child, idx):
        self.child, self.idx = child, idx


class Run:
    """Records idx..idx+n of a child, in order."""
    __pyvc_heap__ = True
    __pyvc_type__ = list

    def __init__(self, child, start, n):
        self.child, self.start, self.n = child, start, n

    def __pyvc_len__(self):
        return SymInt(z3.simplify(self.n))

    def __bool__(self):
        return ctx().decide(self.n > 0)

    def __getitem__(self, i):
        t = int_term(i)
        ctx().session.prove("a drawn record is addressed", z3.And(t >= 0, t < self.n))
        return Env(self.child, z3.simplify(self.start + t))

    def _add(self, child, first, k):
        ctx().session.prove("records are collected in the order of the child", z3.And(child == self.child, first == self.start + self.n))
        self.n = z3.simplify(self.n + k)

    def extend(self, o):
        if not isinstance(o, Run):
            raise Unsupported("extend")
        if ctx().decide(o.n > 0):
            self._add(o.child, o.start, o.n)

    def append(self, e):
        self._add(e.child, e.idx, 1)


class Child:
    def __init__(self, S, t, bulk):
        self.S, self.t = S, t
        if bulk:
            self.next_envelopes = self._many

    def _own(self, cur):
        self.S.prove("a child is read from its own cursor", cur.child == self.t)
        ctx().add(z3.And(cur.pos >= 0, cur.pos <= LENF(self.t)))

    def next_envelope(self, cur):
        self._own(cur)
        if ctx().decide(cur.pos >= LENF(self.t)):
            return None, cur
        return Env(self.t, cur.pos), Cur(self.t, z3.simplify(cur.pos + 1))

    def _many(self, cur, limit):
        self._own(cur)
        c = ctx()
        self.S.prove("a chunk of at least one record is asked for", int_term(limit) >= 1)
        k = c.fresh(I, "chunk")
        left = LENF(self.t) - cur.pos
        c.add(z3.And(k >= 0, k <= int_term(limit), k <= left, z3.Implies(left > 0, k >= 1)))
        return Run(self.t, cur.pos, k), Cur(self.t, z3.simplify(cur.pos + k))


class WMap(LazySeq):
    """One slot per child; the watched child's is followed exactly."""
    __pyvc_heap__ = True

    def __init__(self, n, w, other, put=None):
        self.n, self.w, self.other, self.put = n, w, other, put

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        return self[SymInt(i)]

    def _pick(self, i):
        t = int_term(i)
        ctx().session.prove("a child index is in range", z3.And(t >= 0, t < self.n))
        return t, ctx().decide(t == W)

    def __getitem__(self, i):
        t, w = self._pick(i)
        return self.w if w else self.other(t)

    def __setitem__(self, i, x):
        t, w = self._pick(i)
        if w:
            self.w = x
        elif self.put:
            self.put(t, x)


class Wrapped:
    def __init__(self, child, idx):
        self.child, self.idx = child, idx


class Pend:
    """The records of a cycle: how many of the watched child's, which must come in its order from base on."""
    __pyvc_heap__ = True

    def __init__(self, base, n, nw):
        self.base, self.n, self.nw = base, n, nw

    def __pyvc_len__(self):
        return SymInt(z3.simplify(self.n))

    def __bool__(self):
        return ctx().decide(self.n > 0)

    def append(self, x):
        if not isinstance(x, Wrapped):
            raise Unsupported("something else than a wrapped record is queued")
        if ctx().decide(x.child == W):
            ctx().session.prove("records of a child are queued in its order, none twice", x.idx == self.base + self.nw)
            self.nw = z3.simplify(self.nw + 1)
        self.n = z3.simplify(self.n + 1)


class Model:
    def __init__(self, S, m, sync, bulk=True):
        self.S, self.m = S, m
        c = ctx()
        self.weights = SymList.fresh(INT, "weight", (), tuple)
        self.n = self.weights.n
        self.wt = self.weights.arrs[0][self.weights.lo + W]
        q = z3.Int("q_weight")
        c.add(z3.And(W >= 0, W < self.n))
        c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < self.n), self.weights.arrs[0][self.weights.lo + q] >= 1)))
        c.add(self.wt >= 1)
        self.schedule = SymList.fresh(INT, "schedule", (COUNT,), tuple)
        s = self.schedule
        c.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s.n), z3.And(s.arrs[0][s.lo + q] >= 0, s.arrs[0][s.lo + q] < self.n))))
        c.add(z3.And(s.mvals["count"] == self.wt, s.n >= self.wt))           # what _weighted_cycle ensures
        self.pos0 = NAT.fresh("position").t
        c.add(self.pos0 <= LENF(W))
        self.ex0 = BOOL.fresh("exhausted")
        c.add(z3.Implies(to_bool_term(self.ex0), self.pos0 == LENF(W)))
        c.inputs.update(children=self.n, weight=self.wt, records=LENF(W), position=self.pos0, schedule_length=s.n)
        src = self.src = object.__new__(self.cls())
        src.weights, src.schedule, src.sync_length = self.weights, s, sync
        src.child_sources = WMap(self.n, Child(S, W, bulk), lambda t: Child(S, t, bulk))
        src.child_ids = WMap(self.n, "W", lambda t: "other")
        self.cur = m.CompositeCursor(NAT.fresh("epoch"), 0, 0, WMap(self.n, Cur(W, self.pos0), lambda t: Cur(t, NAT.fresh("pos").t)),
                                     WMap(self.n, self.ex0, lambda t: BOOL.fresh("other_exhausted")), [], 0, NAT.fresh("cycles"), False)

    def cls(self):
        model, base = self, self.m.CompositeRecordSource

        def wrap(s, child, env):
            model.S.prove("a record is attributed to its child", int_term(child) == env.child)
            return Wrapped(env.child, env.idx)
        return type("Source", (base,), {"_wrap": wrap})

    @property
    def pos(self):
        return self.cur.child_cursors.w.pos

    @property
    def exhausted(self):
        return to_bool_term(self.cur.exhausted.w)


def draw(S):
    held = {}

    def inv(L):
        M, r = held["M"], L.envelopes
        n = r.n if isinstance(r, Run) else z3.IntVal(len(r))
        yield "the child is read on from where it stood", z3.And(L.child_cursor.child == W, L.child_cursor.pos == M.pos0 + n)
        yield "not more than asked for", z3.And(n >= 0, n <= held["limit"].t)
        yield "not at the end so far", z3.And(z3.Not(M.exhausted), M.pos == M.pos0, M.pos0 + n <= LENF(W))
    w = World(loops={f"{MOD}:CompositeRecordSource._next_child_many#0": LoopSpec(
        inv=inv, variant=lambda L: SymInt(held["limit"].t - (L.envelopes.n if isinstance(L.envelopes, Run) else len(L.envelopes))),
        types={"envelopes": lambda v: Run(W, held["M"].pos0, NAT.fresh("drawn").t), "child_cursor": lambda v: Cur(W, NAT.fresh("at").t),
               "chunk": skip, "envelope": skip, "remaining": skip})})
    m = w.module(MOD)
    for bulk in (True, False):
        def h(bulk=bulk):
            held.clear()
            M = held["M"] = Model(S, m, True, bulk)
            lim = held["limit"] = TInt(lo=1).fresh("limit")
            r = M.src._next_child_many(M.cur, SymInt(W), lim)
            n = r.n if isinstance(r, Run) else z3.IntVal(len(r))
            left = LENF(W) - M.pos0
            S.prove("the next records of the child, as many as asked for and there", n == z3.If(left < lim.t, left, lim.t))
            S.prove("and no other", z3.BoolVal(not isinstance(r, Run)) if not isinstance(r, Run) else z3.And(r.child == W, r.start == M.pos0))
            S.prove("the cursor is past exactly these", M.pos == M.pos0 + n)
            S.prove("the child counts as exhausted only at its end, and whenever it gave less than asked for", z3.And(
                z3.Implies(M.exhausted, M.pos == LENF(W)), z3.Implies(n < lim.t, M.exhausted)))
            ctx().completed = True
        S.run(f"_next_child_many[{'chunks' if bulk else 'one by one'}]", h)

        def h_one(bulk=bulk):
            M = Model(S, m, True, bulk)
            x = M.src._next_child(M.cur, SymInt(W))
            if x is None:
                S.prove("_next_child: nothing only at the end, which is noted", z3.And(M.pos0 == LENF(W), M.exhausted, M.pos == M.pos0))
            else:
                S.prove("_next_child: the next record", z3.And(x.child == W, x.idx == M.pos0, M.pos == M.pos0 + 1, M.pos0 < LENF(W)))
                S.prove("_next_child: the end is not noted early", M.exhausted == to_bool_term(M.ex0))
        S.run(f"_next_child[{'chunks' if bulk else 'one by one'}]", h_one)


def fill_many(S):
    held = {}
    AV = z3.Function("drawn_of_child", I, I)

    def state(L):
        p, pos = L.pending, L.positions
        n, nw = (p.n, p.nw) if isinstance(p, Pend) else (z3.IntVal(len(p)), z3.IntVal(0))
        q = z3.Int("q_position")
        held["places"] = z3.And(pos.n == held["M"].n, z3.ForAll([q], z3.Implies(
            z3.And(q >= 0, q < pos.n), pos.arrs[0][pos.lo + q] >= 0)))
        return n, nw, pos.arrs[0][pos.lo + W]

    def outer(L):
        M, av = held["M"], held["avail"]
        n, nw, at = state(L)
        i = int_term(L.i)
        held["cycle"] = i
        c = ctx()
        c.add(z3.And((i + 1) * M.wt == i * M.wt + M.wt, z3.Implies(i >= 0, i * M.wt >= i)))
        done = i * M.wt
        yield "each finished cycle took the weight of the child, while records last", nw == z3.If(done < av, done, av)
        yield "the position of the child is what was taken", at == nw
        yield "there is a position for every child", held["places"]
        yield "the queue holds at least these", z3.And(n >= nw, int_term(L.nonempty_cycles) >= 0, int_term(L.nonempty_cycles) <= i)
        yield "every complete cycle counts", z3.Implies(done <= av, int_term(L.nonempty_cycles) == i)

    def init(L, old):
        n, nw, at = state(L)
        held["begin"] = (n, nw)

    def inner(L):
        M, av = held["M"], held["avail"]
        n, nw, at = state(L)
        done = held["cycle"] * M.wt + int_term(L.done("count"))
        yield "within a cycle the child was taken at its places", nw == z3.If(done < av, done, av)
        yield "the position of the child is what was taken", at == nw
        yield "there is a position for every child", held["places"]
        n0, nw0 = held["begin"]
        yield "the queue only grows", z3.And(n >= nw, nw >= nw0, n - nw >= n0 - nw0)

    def fresh_pend(v):
        return Pend(held["M"].pos0, NAT.fresh("queued").t, NAT.fresh("queued_watched").t)
    w = World(loops={
        f"{MOD}:CompositeRecordSource._fill_cycles#0": LoopSpec(inv=outer, types={
            "pending": fresh_pend, "cycle_begin": skip, "child": skip, "position": skip}),
        f"{MOD}:CompositeRecordSource._fill_cycles#1": LoopSpec(inv=inner, init=init, types={
            "pending": fresh_pend, "position": skip})})
    m = w.module(MOD)

    def contract(self, cursor, child, limit):
        M, c = held["M"], ctx()
        t, lim = int_term(child), int_term(limit)
        if c.decide(t == W):
            S.prove("each child is asked once for its share of the cycles", z3.And(
                z3.BoolVal("avail" not in held), lim == M.wt * held["cc"].t))
            left = LENF(W) - M.pos0
            av = held["avail"] = z3.If(left < lim, left, lim)
            ex = BOOL.fresh("now_exhausted")
            c.add(z3.And(z3.Implies(to_bool_term(ex), M.pos0 + av == LENF(W)), z3.Implies(av < lim, to_bool_term(ex)),
                         z3.Implies(to_bool_term(M.ex0), to_bool_term(ex))))
            cursor.exhausted.w = ex
            cursor.child_cursors.w = Cur(W, M.pos0 + av)
            return Run(W, M.pos0, av)
        S.prove("each child is asked for its share of the cycles", lim == M.weights.arrs[0][M.weights.lo + t] * held["cc"].t)
        return Run(t, NAT.fresh("from").t, AV(t))

    def comp(kind, f, src, cond):
        if kind == "list" and cond is None and isinstance(src, LazySeq) and not isinstance(src, WMap):
            M, c = held["M"], ctx()
            mine = f(shims.seq_at(src, W))
            if not isinstance(mine, Run):
                raise Unsupported("comprehension over the children")
            if c.decide(M.n > 1):
                t = c.fresh(I, "other_child")
                c.add(z3.And(t >= 0, t < M.n, t != W))
                f(shims.seq_at(src, t))

            def other(t):
                c.add(AV(t) >= 0)
                return Run(t, NAT.fresh("from").t, AV(t))
            return WMap(M.n, mine, other)
        return shims.s_comp(kind, f, src, cond)
    m.__dict__["__pyvc_comp__"] = comp

    def the_min(*a, **kw):
        if len(a) == 1 and isinstance(a[0], LazySeq):
            c = ctx()
            mine = int_term(a[0].at(W))
            r = c.fresh(I, "least")
            held["mine"] = c.decide(r == mine)
            c.add(z3.And(r <= mine, r >= 0))
            if not held["mine"]:
                c.add(held["M"].n > 1)
            held["least"] = r
            return SymInt(r)
        return shims.s_min(*a, **kw)

    def the_all(x):
        if isinstance(x, LazySeq):
            mine = x.at(W)
            if not (ctx().decide(mine.t) if isinstance(mine, SymBool) else mine):
                return False
            return ctx().decide(ctx().fresh(B, "all_others"))
        return shims.s_all(x)
    m.min, m.all = the_min, the_all

    for sync in (True, False):
        def h(sync=sync):
            c = ctx()
            held.clear()
            M = held["M"] = Model(S, m, sync)
            cc = held["cc"] = TInt(lo=1).fresh("cycles_asked")
            type(M.src)._next_child_many = contract
            cycles0 = int_term(M.cur.cycle_index)
            c.add(z3.And(cc.t * M.wt >= cc.t, M.wt * cc.t == cc.t * M.wt))
            ok = M.src._fill_cycles(M.cur, cc)
            av = held["avail"]
            if sync:
                k = held["least"]
                # k = min over the children of (drawn // weight): k*w <= drawn, and drawn < (k+1)*w for the child that attains it
                c.add(z3.And(z3.Implies(k + 1 <= cc.t, (k + 1) * M.wt <= cc.t * M.wt), (k + 1) * M.wt == k * M.wt + M.wt))
                for ta, tb, q, r in c.ghost.get("divmods", ()):
                    c.add(z3.And(z3.Implies(k <= q, k * M.wt <= q * M.wt), z3.Implies(k == q, k * M.wt == q * M.wt)))
            if ok is False:
                S.prove("a refusal ends the stream", z3.BoolVal(M.cur.terminal is True))
                if sync:
                    S.prove("synchronised: the end comes only when some child cannot complete the next cycle", k == 0)
                    if held["mine"]:
                        S.prove("synchronised: that child is at its end", z3.And(M.exhausted, LENF(W) - M.pos0 < M.wt))
                    S.prove("synchronised: nothing of an incomplete cycle is kept", z3.BoolVal(len(M.cur.pending) == 0))
                else:
                    S.prove("the end comes only when no child has records left", z3.And(av == 0, M.pos0 == LENF(W)))
                return
            S.prove("records were queued", z3.BoolVal(ok is True and M.cur.terminal is False and M.cur.pending_position == 0))
            p = M.cur.pending
            S.prove("the queue is new and not empty", z3.And(z3.BoolVal(isinstance(p, Pend)), p.n > 0))
            S.prove("the child was read past exactly what was drawn", M.pos == M.pos0 + av)
            if sync:
                S.prove("synchronised: only complete cycles, each with the child's weight", p.nw == k * M.wt)
                S.prove("synchronised: complete cycles are counted", int_term(M.cur.cycle_index) == cycles0 + k)
                S.prove("synchronised: not more cycles than asked for", k <= cc.t)
                if held["mine"]:
                    S.prove("synchronised: records are left over only once the limiting child is at its end", z3.Implies(k < cc.t, M.exhausted))
                S.prove("synchronised: an exhausted child with nothing left ends the stream", z3.Implies(
                    z3.And(to_bool_term(M.ex0)), z3.BoolVal(False)))
            else:
                S.prove("every drawn record of a child is queued once", p.nw == av)
                S.prove("as many as its weight per cycle while they last", p.nw == z3.If(
                    LENF(W) - M.pos0 < cc.t * M.wt, LENF(W) - M.pos0, cc.t * M.wt))
            S.prove("an exhausted child has no more records", z3.Implies(M.exhausted, M.pos == LENF(W)))
            c.completed = True
        S.run(f"_fill_cycles[{'synchronised' if sync else 'unsynchronised'}]", h)


def fill_one(S):
    held = {}

    def st(L):
        p = L.pending
        return (p.n, p.nw) if isinstance(p, Pend) else (z3.IntVal(len(p)), z3.IntVal(0))

    def sync_inv(L):
        M = held["M"]
        n, nw = st(L)
        yield "the child was taken at its places", z3.And(nw == int_term(L.done("count")), n == int_term(L.i))
        yield "and read just as far", z3.And(M.pos == M.pos0 + nw, M.pos <= LENF(W), M.exhausted == to_bool_term(M.ex0))
        yield "not terminal", z3.BoolVal(M.cur.terminal is False)

    def free_inv(L):
        M = held["M"]
        n, nw = st(L)
        done, left = int_term(L.done("count")), LENF(W) - M.pos0
        yield "the child was taken at its places while records last", z3.And(nw == z3.If(done < left, done, left), n >= nw)
        yield "and read just as far", z3.And(M.pos == M.pos0 + nw, z3.Implies(M.exhausted, M.pos == LENF(W)))
        yield "not terminal", z3.BoolVal(M.cur.terminal is False)

    def havoc(L):
        M = held["M"]
        yield "attr", M.cur.child_cursors, "w", lambda v: Cur(W, NAT.fresh("at").t)
        yield "attr", M.cur.exhausted, "w", BOOL
    fresh = {"pending": lambda v: Pend(held["M"].pos0, NAT.fresh("queued").t, NAT.fresh("queued_watched").t), "envelope": skip}
    # one loop per mode: which of them comes first in the text does not matter
    spec = LoopSpec(inv=lambda L: (sync_inv if held["M"].src.sync_length else free_inv)(L), havoc=havoc, types=fresh)
    w = World(loops={f"{MOD}:CompositeRecordSource._fill_cycle#{k}": spec for k in (0, 1)})
    m = w.module(MOD)

    def the_all(x):
        if isinstance(x, WMap):
            mine = x.w
            if not (ctx().decide(mine.t) if isinstance(mine, SymBool) else mine):
                return False
            return ctx().decide(ctx().fresh(B, "all_others"))
        return shims.s_all(x)
    m.all = the_all

    def contract(self, cursor, child):
        M, c = held["M"], ctx()
        t = int_term(child)
        if not c.decide(t == W):
            return None if c.decide(c.fresh(B, "other_ends")) else Wrapped(t, NAT.fresh("other_record").t)
        p = M.pos
        if c.decide(p >= LENF(W)):
            cursor.exhausted.w = True
            held["ended"] = True
            return None
        cursor.child_cursors.w = Cur(W, z3.simplify(p + 1))
        return Wrapped(W, p)
    for sync in (True, False):
        def h(sync=sync):
            c = ctx()
            held.clear()
            M = held["M"] = Model(S, m, sync)
            type(M.src)._next_child = contract
            cycles0 = int_term(M.cur.cycle_index)
            ok = M.src._fill_cycle(M.cur)
            left = LENF(W) - M.pos0
            if ok is False:
                S.prove("one cycle: a refusal ends the stream", z3.BoolVal(M.cur.terminal is True))
                S.prove("one cycle: nothing is kept", z3.BoolVal(len(M.cur.pending) == 0) if isinstance(M.cur.pending, list) else z3.BoolVal(False))
                if sync and held.get("ended"):
                    S.prove("one cycle: the child could not complete it", z3.And(left < M.wt, M.exhausted))
                if not sync:
                    S.prove("one cycle: the end comes only when no child has records left", left == 0)
                return
            p = M.cur.pending
            S.prove("one cycle: queued", z3.And(z3.BoolVal(ok is True and M.cur.terminal is False and isinstance(p, Pend)
                                                            and M.cur.pending_position == 0), p.n > 0))
            S.prove("one cycle: counted", int_term(M.cur.cycle_index) == cycles0 + 1)
            S.prove("one cycle: the child's weight" + ("" if sync else " while records last"),
                    p.nw == (M.wt if sync else z3.If(left < M.wt, left, M.wt)))
            S.prove("one cycle: read past exactly these", M.pos == M.pos0 + p.nw)
            if sync:
                S.prove("one cycle: a pick for each unit of weight", p.n == M.schedule.n)
            c.completed = True
        S.run(f"_fill_cycle[{'synchronised' if sync else 'unsynchronised'}]", h)


# ---------------------------------------------------------------- delivering
def deliver(S):
    held = {}
    X = TOpaque("Wrapped")
    STREAM = z3.Function("stream", I, X.sorts[0])

    def seq(l, first, lo=0):
        """Elements lo.. of l are the stream from first on."""
        if not isinstance(l, SymList):
            return z3.BoolVal(len(l) == 0)
        j = z3.Int("j_el")
        return z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < l.n), l.arrs[0][l.lo + j] == STREAM(first + j - lo)))

    def ln(l):
        return l.n if isinstance(l, SymList) else z3.IntVal(len(l))

    def wf(cur, g):
        p, at = cur.pending, int_term(cur.pending_position)
        yield "the queue is read from a place inside it", z3.And(at >= 0, z3.Or(at < ln(p), z3.And(at == 0, ln(p) == 0)))
        yield "the queue holds the stream from here on", seq(p, g, at)
        if cur.terminal is not False:
            yield "nothing is queued at the end", z3.Implies(to_bool_term(cur.terminal), ln(p) == 0)

    def inv(L):
        n = ln(L.output)
        held["g"] = held["g0"] + n
        yield "not more than the limit", z3.And(n >= 0, n <= held["limit"].t)
        yield "delivered in stream order", seq(L.output, held["g0"])
        yield from wf(L.cursor, held["g0"] + n)

    def havoc(L):
        yield "attr", L.cursor, "pending", lambda v: SymList.fresh(X, "pending", (), list)
        yield "attr", L.cursor, "pending_position", NAT
        yield "attr", L.cursor, "terminal", BOOL
    w = World(loops={f"{MOD}:CompositeRecordSource.next_envelopes#0": LoopSpec(
        inv=inv, havoc=havoc, variant=lambda L: SymInt(held["limit"].t - ln(L.output)),
        types={"output": lambda v: SymList.fresh(X, "output", (), list), "remaining": skip, "cycle_count": skip, "available": skip})})
    m = w.module(MOD)

    def fill(self, cursor, cycles=None):
        c = ctx()
        if cycles is not None:
            S.prove("at least one cycle is asked for", int_term(cycles) >= 1)
        S.prove("a new queue is made only when the old one is delivered", ln(cursor.pending) == 0)
        if c.decide(c.fresh(B, "ends")):
            cursor.terminal = True
            return False
        p = SymList.fresh(X, "queue", (), list)
        c.add(p.n > 0)
        c.add(seq(p, held["g"]))
        cursor.pending, cursor.pending_position = p, 0
        return True

    def start():
        c = ctx()
        held.clear()
        src = object.__new__(type("Source", (m.CompositeRecordSource,), {"_fill_cycles": fill, "_fill_cycle": fill}))
        src.schedule = SymList.fresh(INT, "schedule", (), tuple)
        c.add(src.schedule.n >= 1)
        p = SymList.fresh(X, "pending", (), list)
        cur = m.CompositeCursor(0, 0, 0, [], [], p, NAT.fresh("at"), 0, BOOL.fresh("terminal"))
        held["g0"] = held["g"] = INT.fresh("delivered").t
        for _, f in wf(cur, held["g0"]):
            c.add(to_bool_term(f))
        return src, cur

    def h_many():
        src, cur = start()
        lim = held["limit"] = TInt(lo=1).fresh("limit")
        ctx().inputs.update(limit=lim.t)
        out, back = src.next_envelopes(cur, lim)
        n = ln(out)
        S.prove("next_envelopes: the cursor itself advances", z3.BoolVal(back is cur))
        S.prove("next_envelopes: the stream, in order", seq(out, held["g0"]))
        S.prove("next_envelopes: as many as asked for unless the stream ends", z3.And(n <= lim.t, z3.Implies(
            n < lim.t, to_bool_term(cur.terminal))))
        for label, f in wf(cur, held["g0"] + n):
            S.prove(f"next_envelopes: {label}", f)
        ctx().completed = True
    S.run("next_envelopes", h_many)

    def h_one():
        src, cur = start()
        env, back = src.next_envelope(cur)
        S.prove("next_envelope: the cursor itself advances", z3.BoolVal(back is cur))
        if env is None:
            S.prove("next_envelope: nothing only at the end", to_bool_term(cur.terminal))
            return
        S.prove("next_envelope: the next of the stream", env.t == STREAM(held["g0"]))
        for label, f in wf(cur, held["g0"] + 1):
            S.prove(f"next_envelope: {label}", f)
    S.run("next_envelope", h_one)

    def h_limit():
        src, cur = start()
        for bad in (0, -1, 1.0, "1", None):
            try:
                src.next_envelopes(cur, bad)
                S.prove("next_envelopes: a limit that is no positive integer is refused", z3.BoolVal(False))
            except ValueError:
                S.prove("next_envelopes: a limit that is no positive integer is refused", z3.BoolVal(True))
    S.run("next_envelopes[limits]", h_limit)


# ---------------------------------------------------------------- attribution, saving, batches
def records(S):
    m = World().module(MOD)
    KEY, PAY, CUR = TOpaque("Key", bytes), TOpaque("Payload", dict), TOpaque("ChildCursor", dict)
    SP, RP = (z3.Function(k, I, PAY.sorts[0], PAY.sorts[0]) for k in ("save_payload", "restore_payload"))
    SC, RC = (z3.Function(k, I, CUR.sorts[0], CUR.sorts[0]) for k in ("save_cursor", "restore_cursor"))

    def make(n, with_payloads=True):
        closed = []

        class Ch:
            def __init__(self, i):
                self.i = i

            if with_payloads:
                def save_payload(self, p):
                    return SymVal(SP(z3.IntVal(self.i), p.t))

                def restore_payload(self, p):
                    return SymVal(RP(z3.IntVal(self.i), p.t))

            def save_cursor(self, cu):
                return SymVal(SC(z3.IntVal(self.i), cu.t))

            def restore_cursor(self, s):
                return SymVal(RC(z3.IntVal(self.i), s.t))

            def close_cursor(self, cu):
                closed.append((self.i, cu))
        src = object.__new__(m.CompositeRecordSource)
        src.child_sources = tuple(Ch(i) for i in range(n))
        src.child_ids = tuple(f"child{i}" for i in range(n))
        src.capabilities = type("Caps", (), {"resumable": True})
        src._rank, src._rank_sharded, src._world_size = 0, False, 1
        src.closed = closed
        shapes = [(5 + 2 * k, 5 + 2 * k) for k in range(n + 1)]
        src.shape_codes = {s: k for k, s in enumerate(shapes)}
        # child i knows two shapes, numbered its own way
        src._child_shape_maps = tuple({7: shapes[i], 3: shapes[i + 1]} for i in range(n))
        return src

    def env(i, code=7):
        return m.RecordEnvelope(source_id=INT.fresh("sid"), record_key=("c", KEY.fresh("key")), shape_code=code, payload=PAY.fresh("payload"),
                                resident_bytes=NAT.fresh("bytes"))

    def same_env(a, b):
        return z3.And(int_term(a.source_id) == int_term(b.source_id), z3.BoolVal(a.record_key == b.record_key or False)
                      if not isinstance(a.record_key[1], SymVal) else a.record_key[1].t == b.record_key[1].t,
                      z3.BoolVal(a.record_key[0] == b.record_key[0] and len(a.record_key) == len(b.record_key)),
                      int_term(a.shape_code) == int_term(b.shape_code), a.payload.t == b.payload.t,
                      int_term(a.resident_bytes) == int_term(b.resident_bytes))

    def h_wrap():
        for n in (1, 2, 3):
            src = make(n)
            for i in range(n):
                for code in (7, 3):
                    e = env(i, code)
                    x = src._wrap(i, e)
                    shape = src._child_shape_maps[i][code]
                    S.prove("wrap: attributed to its child", z3.BoolVal(
                        x.source_id == i and x.payload.child_index == i and x.payload.envelope is e and x.record_key[0] == "composite"
                        and x.record_key[1] == src.child_ids[i] and x.record_key[2] is e.record_key))
                    S.prove("wrap: the common code of the child's shape", z3.BoolVal(x.shape_code == src.shape_codes[shape]))
                    S.prove("wrap: accounted for", int_term(x.resident_bytes) >= int_term(e.resident_bytes))
                try:
                    src._wrap(i, env(i, 11))
                    S.prove("wrap: an unknown shape is refused", z3.BoolVal(False))
                except RuntimeError:
                    S.prove("wrap: an unknown shape is refused", z3.BoolVal(True))
    S.run("_wrap", h_wrap)

    for wp in (True, False):
        def h_save(wp=wp):
            c = ctx()
            n = 2
            src = make(n, wp)
            for i in range(n):
                p, q = z3.Const("p", PAY.sorts[0]), z3.Const("q", CUR.sorts[0])
                c.add(z3.ForAll([p], RP(z3.IntVal(i), SP(z3.IntVal(i), p)) == p))
                c.add(z3.ForAll([q], RC(z3.IntVal(i), SC(z3.IntVal(i), q)) == q))
            ws = [src._wrap(i, env(i, code)) for i, code in ((0, 7), (1, 3), (1, 7))]
            ats = [k for k in range(len(ws) + 1) if k == len(ws) or c.decide(c.fresh(B, "at"))][:1]
            for at in ats:
                for terminal in (c.decide(c.fresh(B, "ended")),):
                    pend = ws if not terminal else []
                    k = at if not terminal else 0
                    ex = [BOOL.fresh("ex0"), BOOL.fresh("ex1")]
                    ex = [bool(c.decide(x.t)) for x in ex]
                    epoch, cyc, cyi = NAT.fresh("epoch"), NAT.fresh("cycle"), NAT.fresh("cycles")
                    cur = m.CompositeCursor(epoch, cyc, 0, [CUR.fresh("c0"), CUR.fresh("c1")], ex, pend, k, cyi, terminal)
                    b = src.restore_cursor(src.save_cursor(cur))
                    S.prove("save/restore: epoch, cycle, rank and count", z3.And(
                        int_term(b.epoch) == epoch.t, int_term(b.source_cycle) == cyc.t, int_term(b.cycle_index) == cyi.t,
                        z3.BoolVal(b.rank == 0 and b.terminal is terminal and list(b.exhausted) == ex)))
                    S.prove("save/restore: every child continues where it stood", z3.And(
                        z3.BoolVal(len(b.child_cursors) == n), *[x.t == y.t for x, y in zip(b.child_cursors, cur.child_cursors)]))
                    rest = b.pending[b.pending_position:]
                    S.prove("save/restore: exactly the undelivered records wait", z3.BoolVal(len(rest) == len(pend) - k))
                    for x, y in zip(rest, pend[k:]):
                        S.prove("save/restore: a waiting record is unchanged", z3.And(
                            z3.BoolVal(x.source_id == y.source_id and x.record_key[:2] == y.record_key[:2] and x.shape_code == y.shape_code
                                       and x.payload.child_index == y.payload.child_index),
                            same_env(x.payload.envelope, y.payload.envelope), x.record_key[2][1].t == y.record_key[2][1].t,
                            int_term(x.resident_bytes) == int_term(y.resident_bytes)))
                    S.prove("save/restore: no child was closed", z3.BoolVal(not src.closed))
        S.run(f"save_cursor/restore_cursor[{'payload hooks' if wp else 'plain payloads'}]", h_save)

    def h_refuse():
        src = make(2)
        ok = src.save_cursor(m.CompositeCursor(1, 0, 0, [CUR.fresh("a"), CUR.fresh("b")], [False, True], [src._wrap(0, env(0))], 0, 2, False))
        for k, v in (("schema", "x"), ("epoch", -1), ("source_cycle", -1), ("rank", 1), ("cycle_index", -1), ("terminal", 1), ("terminal", True),
                     ("exhausted", [False]), ("exhausted", [0, 1]), ("child_cursors", ok["child_cursors"][:1]), ("epoch", None)):
            src.closed.clear()
            try:
                src.restore_cursor({**ok, k: v})
                S.prove(f"restore: a wrong {k} is refused", z3.BoolVal(False))
            except ValueError:
                S.prove(f"restore: a wrong {k} is refused", z3.BoolVal(True))
        for k in ok:
            try:
                src.restore_cursor({x: y for x, y in ok.items() if x != k})
                S.prove(f"restore: a state without {k} is refused", z3.BoolVal(False))
            except ValueError:
                S.prove(f"restore: a state without {k} is refused", z3.BoolVal(True))
    S.run("restore_cursor[refusals]", h_refuse)

    def h_batch():
        c = ctx()
        n, rows = 3, 4
        src = make(n)
        asked = {}

        class Col:
            def __init__(self, i, envs):
                self.i, self.envs = i, envs

            def __getitem__(self, r):
                return (self.i, self.envs[r])
        for i, ch in enumerate(src.child_sources):
            type(ch).materialize_batch = lambda self, envs: asked.setdefault(self.i, []).append(envs) or {"f": Col(self.i, envs), "g": Col(self.i, envs)}
        who = []
        for r in range(rows):
            k = 0
            while k < n - 1 and not c.decide(c.fresh(B, f"row{r}_next")):
                k += 1
            who.append(k)
        envs = [src._wrap(k, env(k)) for k in who]
        got = []
        m.collate_sample_dicts = lambda samples, **kw: got.append(samples) or "batch"
        out = src.materialize_batch(envs)
        S.prove("batch: one sample per record, collated", z3.BoolVal(out == "batch" and len(got[0]) == rows))
        S.prove("batch: each row holds the record of its envelope, made by its child", z3.BoolVal(all(
            s == {"f": (k, e.payload.envelope), "g": (k, e.payload.envelope)} for s, e, k in zip(got[0], envs, who))))
        bad = m.RecordEnvelope(source_id=(who[0] + 1) % n, record_key=envs[0].record_key, shape_code=0, payload=envs[0].payload, resident_bytes=1)
        bad2 = m.RecordEnvelope(source_id=who[0], record_key=("composite", "else", envs[0].record_key[2]), shape_code=0, payload=envs[0].payload,
                                resident_bytes=1)
        for b in (bad, bad2):
            try:
                src.materialize_batch([b])
                S.prove("batch: a record attributed to another child is refused", z3.BoolVal(False))
            except RuntimeError:
                S.prove("batch: a record attributed to another child is refused", z3.BoolVal(True))
    S.run("materialize_batch[4 rows of 3 children]", h_batch)


def prove(S):
    sum_lemmas(S)
    records(S)
    draw(S)
    fill_one(S)
    deliver(S)
    fill_many(S)
    schedule(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
