"""D06 - NPZ record identity is a bijection onto file rows."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import (SymInt, SymBool, SymReal, SymVal, SymList, SymRange, TRec, TInt, TOpaque, TTuple, T, INT, NAT, BOOL, REAL, Measure,
                         int_term, to_bool_term)
from pyvc.load import World, LoopSpec, NONE

MOD = "dataset.npz_source"
TRUSTED = ["bisect.bisect_right and numpy.searchsorted(side='right') return the insertion point after equal entries of a sorted sequence",
           "numpy arange, asarray, concatenate and elementwise uint64 arithmetic (differences of in-range values do not wrap)",
           "sample_is_admitted is a pure function of its arguments that admits everything at rate 1 (proved as D02)",
           "deterministic_permutation returns a permutation of range(n) (proved as D02)"]
I = z3.IntSort()
SHA, PATH = TOpaque("Sha", bytes), TOpaque("Path", str)
BOARD = TOpaque("Board", tuple)
ADM = z3.Function("admitted", z3.RealSort(), I, I, SHA.sorts[0], I, I, z3.BoolSort())
PERM = z3.Function("file_perm", I, I, I, I, I)
W0, D0, K0, R0 = z3.Ints("watched_id watched_descriptor watched_slot watched_row")
M0, S0 = z3.Ints("watched_quotient watched_residue")
WATCH = Measure("watched", lambda t: z3.If(t == W0, z3.IntVal(1), z3.IntVal(0)))
CYC, END = z3.Int("cursor_cycle"), z3.Int("end_of_ids")
# what the record of the watched row has to look like (bound per source kind)
X = {}


def bad(payload, *pairs):
    """A record outside the ID space, or the watched record with a wrong component."""
    return z3.If(z3.Or(payload < 0, payload >= END, z3.And(payload == W0, z3.Or([a != b for a, b in pairs]))), z3.IntVal(1), z3.IntVal(0))


# dense envelope terms: descriptor (path, ordinal, sha, count, begin, board, shape), payload, cycle
X_DESC = [z3.Const("x_path", PATH.sorts[0]), z3.Int("x_ordinal"), z3.Const("x_sha", SHA.sorts[0]), z3.Int("x_count"), z3.Int("x_begin"),
          z3.Const("x_board", BOARD.sorts[0]), z3.Int("x_shape")]
E_WATCH = Measure("watched", lambda *t: z3.If(t[7] == W0, z3.IntVal(1), z3.IntVal(0)))
E_BAD = Measure("malformed", lambda *t: bad(t[7], (t[8], CYC), *zip(t[:7], X_DESC)))
# plain envelope terms: source id, key (cycle, sha, row), shape, payload
X_ROW, X_CODE = z3.Int("x_physical_row"), z3.Int("x_row_shape")
R_WATCH = Measure("watched", lambda *t: z3.If(t[5] == W0, z3.IntVal(1), z3.IntVal(0)))
R_BAD = Measure("malformed", lambda *t: bad(t[5], (t[0], X_DESC[1]), (t[1], CYC), (t[2], X_DESC[2]), (t[3], X_ROW), (t[4], X_CODE)))
PHYS = z3.Function("physical_row", I, I, I)
CODE = z3.Function("row_shape_code", I, I, I)


class TKey(T):
    """("root", sha, "npz-row", (row,)) in the first pass, ... (cycle, row) later."""
    sorts = (I, SHA.sorts[0], I)

    def wrap(self, t):
        ctx().add(t[0] >= 0)
        addr = (SymInt(t[2]),) if ctx().decide(t[0] == 0) else (SymInt(t[0]), SymInt(t[2]))
        return ("root", SymVal(t[1], bytes), "npz-row", addr)

    def unwrap(self, v):
        if not (isinstance(v, tuple) and len(v) == 4 and v[0] == "root" and v[2] == "npz-row" and len(v[3]) in (1, 2)):
            raise Unsupported("malformed record key")
        cyc = z3.IntVal(0) if len(v[3]) == 1 else int_term(v[3][0])
        return [cyc, v[1].t, int_term(v[3][-1])]


class Column:
    """Row table of one file (row_indices / row_shape_codes), identified by its file's first record ID."""

    def __init__(self, ident, f):
        self.ident, self.f = ident, f

    def __getitem__(self, i):
        return SymInt(self.f(self.ident, int_term(i)))


class TColumn(T):
    sorts = (z3.BoolSort(), I)

    def __init__(self, f):
        self.f = f

    def wrap(self, t):
        return Column(t[1], self.f) if ctx().decide(t[0]) else None

    def unwrap(self, v):
        return [z3.BoolVal(False), z3.IntVal(0)] if v is None else [z3.BoolVal(True), v.ident]


def zi(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))


class Part:
    """A numpy array of record IDs: its length, how often it holds the watched ID."""

    def __init__(self, n, w):
        self.n, self.w = n, w

    def __pyvc_len__(self):
        return self.n


class TPart(T):
    sorts = (I, I)

    def wrap(self, t):
        ctx().add(z3.And(t[0] >= 0, t[1] >= 0))
        return Part(SymInt(t[0]), SymInt(t[1]))

    def unwrap(self, v):
        return [int_term(v.n), int_term(v.w)]


P_N = Measure("ids", lambda n, w: n)
P_W = Measure("watched", lambda n, w: w)


class FakeNp:
    uint64 = "uint64"

    @staticmethod
    def arange(a, b, dtype=None):
        a, b = int_term(a), int_term(b)
        return Part(SymInt(z3.If(b > a, b - a, z3.IntVal(0))), SymInt(zi(z3.And(a <= W0, W0 < b))))

    @staticmethod
    def asarray(x, dtype=None):
        x = SymList.of(INT, x, (WATCH,)) if isinstance(x, list) else x
        return Part(SymInt(x.n), SymInt(x.mvals["watched"]))

    @staticmethod
    def empty(n, dtype=None):
        return Part(SymInt(z3.IntVal(0)), SymInt(z3.IntVal(0)))

    @staticmethod
    def concatenate(parts):
        parts = SymList.of(TPart(), parts, (P_N, P_W)) if isinstance(parts, list) else parts
        return Part(SymInt(parts.mvals["ids"]), SymInt(parts.mvals["watched"]))


class FakeBlock:
    def __init__(self, record_ids, default_cycle=0, **k):
        self.record_ids, self.default_cycle, self.rest = record_ids, default_cycle, k


def lists(L):
    e = L.envelopes
    return SymList.of(X["env"], e, X["env_measures"]) if isinstance(e, list) else e


def pend(fp, rp):
    return z3.Or(K0 > fp, z3.And(K0 == fp, R0 >= rp))


def wanted(L):
    src, cur = L.self, L.cursor
    g = ctx().ghost
    return z3.And(g["adm0"], z3.Or(z3.Not(to_bool_term(src._rank_sharded)), S0 == int_term(cur.rank)))


def fp_rp(L):
    return int_term(L.file_position), int_term(L.row_position)


def base_inv(L):
    fp, rp = fp_rp(L)
    F = L.cursor.file_order.n
    g = ctx().ghost
    yield "cursor in range", z3.And(fp >= 0, fp <= F, rp >= 0)
    yield "cursor does not go back", z3.Or(fp > g["fp0"], z3.And(fp == g["fp0"], rp >= g["rp0"]))


def once(L, emitted):
    fp, rp = fp_rp(L)
    g = ctx().ghost
    W = int_term(L.self._world_size)
    for _, tb, q, _ in g.get("divmods", ()):     # multiples of W are W apart
        k = q + M0
        ctx().add(z3.Implies(tb == W, z3.And(k * W == q * W + M0 * W, z3.Implies(k >= 0, k * W >= 0), z3.Implies(k >= 1, k * W >= W),
                                             z3.Implies(k <= -1, k * W <= -W))))
    D, o = L.self.descriptors, L.cursor.file_order
    cnt, beg = (lambda d: D.arrs[3][D.lo + d]), (lambda d: D.arrs[4][D.lo + d])
    for f in (fp, fp - 1):                        # instances of the catalog facts
        d = o.arrs[0][o.lo + f]
        inside = z3.And(f >= 0, f < o.n)
        ctx().add(z3.Implies(inside, z3.And(
            d >= 0, d < D.n, z3.Implies(f != K0, d != D0), cnt(d) >= 0, beg(d) >= 0,
            z3.Implies(d < D0, beg(d) + cnt(d) <= beg(D0)), z3.Implies(d > D0, beg(D0) + cnt(D0) <= beg(d)))))
    yield "any wanted row is emitted exactly when the cursor passes it", z3.If(
        wanted(L), emitted + zi(pend(fp, rp)) == zi(pend(g["fp0"], g["rp0"])), emitted == 0)


def env_inv(L):
    e = lists(L)
    yield from base_inv(L)
    yield "at most limit records", e.n <= int_term(L.limit)
    yield from once(L, e.mvals["watched"])
    yield "every record is a row of its file", e.mvals["malformed"] == 0


def env_variant(L):
    fp, rp = fp_rp(L)
    F = L.cursor.file_order.n
    cnt = ctx().ghost["count_at"](L.cursor, fp)
    return F - fp, z3.If(cnt - rp >= 0, cnt - rp, z3.IntVal(0))


def tail_inv(records):
    def inv(L):
        yield from base_inv(L)
        w, n = records(L)
        yield from once(L, w)
        yield "fewer than asked only at the end", z3.Implies(n < int_term(L.limit), fp_rp(L)[0] == L.cursor.file_order.n)
    return inv


def parts_of(L):
    p = L.parts
    return SymList.of(TPart(), p, (P_N, P_W)) if isinstance(p, list) else p


def packed_inv(L):
    p = parts_of(L)
    yield from base_inv(L)
    yield "counts the records", z3.And(int_term(L.count) == p.mvals["ids"], int_term(L.count) <= int_term(L.limit), int_term(L.count) >= 0)
    yield from once(L, p.mvals["watched"])


def admitted_inv(L):
    a = L.admitted
    a = SymList.of(INT, a, (WATCH,)) if isinstance(a, list) else a
    p = parts_of(L)
    fp, rp = fp_rp(L)
    yield from base_inv(L)
    yield "inside the file", z3.And(rp <= int_term(L.stop), a.n <= rp - int_term(L.old.start), rp >= int_term(L.old.start))
    yield from once(L, p.mvals["watched"] + a.mvals["watched"])


def loops(cls):
    q = f"{MOD}:{cls}."
    dont = {n: (lambda v: None) for n in ("descriptor", "row", "record_id", "global_row", "logical_row", "physical_row", "record_key",
                                          "take", "begin", "values", "stop", "admitted")}
    elist = lambda v: SymList.fresh(X["env"], "envelopes", X["env_measures"])
    plist = lambda v: SymList.fresh(TPart(), "parts", (P_N, P_W))
    pos = {"file_position": INT, "row_position": INT}
    return {
        q + "next_envelopes#0": LoopSpec(inv=env_inv, types={**dont, **pos, "envelopes": elist}, variant=env_variant),
        q + "next_envelopes#1": LoopSpec(inv=tail_inv(lambda L: (lists(L).mvals["watched"], lists(L).n)), types=pos,
                                         variant=lambda L: L.cursor.file_order.n - fp_rp(L)[0]),
        q + "next_packed_records#0": LoopSpec(inv=packed_inv, types={**dont, **pos, "parts": plist, "count": INT}, variant=env_variant),
        q + "next_packed_records#1": LoopSpec(
            inv=admitted_inv, types={**dont, **pos, "stop": None, "descriptor": None,
                                     "admitted": lambda v: SymList.fresh(INT, "admitted", (WATCH,))},
            init=lambda L, old: setattr(old, "start", int_term(L.row_position)),
            variant=lambda L: int_term(L.stop) - fp_rp(L)[1]),
        q + "next_packed_records#2": LoopSpec(inv=tail_inv(lambda L: (parts_of(L).mvals["watched"], parts_of(L).mvals["ids"])), types=pos,
                                              variant=lambda L: L.cursor.file_order.n - fp_rp(L)[0]),
    }


class Setup:
    """One source class: its module, descriptors and symbolic instances."""

    def __init__(self, S, indexed):
        self.S, self.indexed = S, indexed
        self.cls_name = "IndexedNpzSource" if indexed else "DenseNpzSource"
        sp = loops(self.cls_name)
        for k in sp.values():
            k.types = {n: t for n, t in k.types.items() if t is not None}
        sp.update(ref_loops(self.cls_name))
        self.w = World(loops=sp)
        m = self.m = self.w.module(MOD)
        self.cls = getattr(m, self.cls_name)
        m.np, m.PackedRecordBlock = FakeNp, FakeBlock
        RE = self.w.module("dataset.source").RecordEnvelope
        self.REC = TRec(RE, {"source_id": INT, "record_key": TKey(), "shape_code": INT, "payload": INT})
        if indexed:
            self.DESC = TRec(m.IndexedNpzFileDescriptor, {
                "path": PATH, "file_ordinal": INT, "file_sha256": SHA, "logical_row_count": NAT, "global_row_begin": NAT,
                "row_indices": TColumn(PHYS), "uniform_shape_code": INT, "row_shape_codes": TColumn(CODE)})
            self.ENV, self.measures = self.REC, (R_WATCH, R_BAD)
        else:
            self.DESC = TRec(m.DenseNpzFileDescriptor, {
                "path": PATH, "file_ordinal": INT, "file_sha256": SHA, "logical_row_count": NAT, "global_row_begin": NAT,
                "board_size": BOARD, "shape_code": INT})
            self.ENV, self.measures = TRec(m._DenseEnvelope, {"descriptor": self.DESC, "payload": INT, "cycle": INT}), (E_WATCH, E_BAD)
        m.sample_is_admitted = self.admitted

    def activate(self):
        X.update(env=self.ENV, env_measures=self.measures)

    def admitted(self, rate, seed, epoch, key):
        cyc, sha, row = TKey().unwrap(key)
        self.S.prove("sampling key: names the pass", cyc == CYC)
        return SymBool(z3.Or(rate.t == 1, ADM(rate.t, int_term(seed), int_term(epoch), sha, cyc, row)))

    def desc_eq(self, a, b):
        if not self.indexed:
            return z3.And([x == y for x, y in zip(a, b)])
        return z3.And([x == y for x, y in zip(a[:6], b)] + [a[7] == b[7], a[8] == b[8], z3.Implies(a[5], a[6] == b[6]),
                                                              z3.Implies(a[8], a[9] == b[9])])

    def physical(self, d, r):
        """Physical row and shape code of logical row r of descriptor index d (terms)."""
        D = self.D
        a = [x[D.lo + d] for x in D.arrs]
        if not self.indexed:
            return r, a[6]
        return z3.If(a[5], PHYS(a[6], r), r), z3.If(a[8], CODE(a[9], r), a[7])

    def source(self, sharded=False):
        self.activate()
        c = ctx()
        src = self.cls.__new__(self.cls)
        D = self.D = src.descriptors = SymList.fresh(self.DESC, "desc", kind=tuple)
        c.add(D.n >= 1)
        a, b = z3.Ints("a_desc b_desc")
        cnt, beg = D.arrs[3], D.arrs[4]
        c.add(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < D.n), beg[D.lo + a] + cnt[D.lo + a] <= beg[D.lo + b])))
        c.add(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < D.n), z3.And(cnt[D.lo + a] >= 0, beg[D.lo + a] >= 0,
                                                                        beg[D.lo + a] + cnt[D.lo + a] <= END))))
        src.seed, src.shuffle, src.sample_rate = INT.fresh("seed"), True, REAL.fresh("rate")
        c.add(z3.And(src.sample_rate.t >= 0, src.sample_rate.t <= 1))
        src._file_identity = SHA.fresh("identity")
        src._world_size, src._rank = NAT.fresh("world"), NAT.fresh("rank")
        c.add(z3.And(src._world_size.t >= 1, src._rank.t < src._world_size.t))
        src._rank_sharded = sharded
        src._active_epoch = 0
        src.decoder = object()
        src._row_begins = SymList(INT, D.n, [beg], D.lo, (), {}, tuple)
        c.inputs.update(files=D.n, rate=src.sample_rate.t, world=src._world_size.t, rank=src._rank.t)
        # the watched row
        c.add(z3.And(D0 >= 0, D0 < D.n, R0 >= 0, R0 < cnt[D.lo + D0], W0 == beg[D.lo + D0] + R0))
        x = X_DESC[:5] if self.indexed else X_DESC
        c.add(z3.And([t == arr[D.lo + D0] for t, arr in zip(x, D.arrs)]))
        row, code = self.physical(D0, R0)
        c.add(z3.And(X_ROW == row, X_CODE == code))
        c.inputs.update(watched_file=D0, watched_row=R0)
        return src

    def cursor(self, src):
        c, D = ctx(), self.D
        order = SymList.fresh(TInt(lo=0, hi=SymInt(D.n)), "order", kind=tuple)
        c.add(order.n == D.n)
        a, b = z3.Ints("a_ord b_ord")
        o = order.arrs[0]
        c.add(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < order.n), o[order.lo + a] != o[order.lo + b])))
        c.add(z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < order.n), z3.And(o[order.lo + a] >= 0, o[order.lo + a] < D.n))))
        cur = self.m.DenseNpzCursor(NAT.fresh("epoch"), SymInt(CYC), SymInt(int_term(src._rank)) if src._rank_sharded else 0,
                                    order, NAT.fresh("fp"), NAT.fresh("rp"))
        c.add(z3.And(CYC >= 0, cur.file_position.t <= order.n))
        c.ghost["count_at"] = lambda cu, fp: D.arrs[3][D.lo + cu.file_order.arrs[0][cu.file_order.lo + fp]]
        c.add(z3.Implies(cur.file_position.t == order.n, cur.row_position.t == 0))
        c.add(z3.Implies(cur.file_position.t < order.n, cur.row_position.t <= c.ghost["count_at"](cur, cur.file_position.t)))
        c.inputs.update(file_position=cur.file_position.t, row_position=cur.row_position.t, cycle=CYC)
        c.add(z3.And(K0 >= 0, K0 < order.n, D0 == o[order.lo + K0]))
        W = int_term(src._world_size)
        c.add(z3.And(W0 == M0 * W + S0, S0 >= 0, S0 < W))
        c.ghost["adm0"] = z3.Or(src.sample_rate.t == 1, ADM(src.sample_rate.t, int_term(src.seed), int_term(cur.epoch), X_DESC[2], CYC, X_ROW))
        c.ghost["fp0"], c.ghost["rp0"] = cur.file_position.t, cur.row_position.t
        c.inputs.update(watched_slot=K0)
        return cur

    # -- enumeration -------------------------------------------------------
    def after(self, label, src, cur, nxt, emitted, count, limit):
        c, S = ctx(), self.S
        fp, rp = int_term(nxt.file_position), int_term(nxt.row_position)
        F = cur.file_order.n
        want = z3.And(c.ghost["adm0"], z3.Or(z3.BoolVal(not src._rank_sharded), S0 == int_term(cur.rank)))
        S.prove(f"{label}: a wanted row comes out exactly when the cursor passes it", z3.If(
            want, emitted + zi(pend(fp, rp)) == zi(pend(c.ghost["fp0"], c.ghost["rp0"])), emitted == 0))
        S.prove(f"{label}: the cursor stays in range", z3.And(fp >= 0, fp <= F, rp >= 0, z3.Implies(fp == F, rp == 0),
                z3.Implies(fp < F, rp <= c.ghost["count_at"](cur, fp))))
        S.prove(f"{label}: the cursor names the same pass", z3.And(
            int_term(nxt.epoch) == int_term(cur.epoch), int_term(nxt.cycle) == CYC, int_term(nxt.rank) == int_term(cur.rank),
            z3.BoolVal(nxt.file_order is cur.file_order)))
        S.prove(f"{label}: not more than asked", count <= limit)
        S.prove(f"{label}: fewer only at the end", z3.Implies(count < limit, fp == F))

    def enumeration(self):
        S = self.S

        def h_env(sharded):
            c = ctx()
            src = self.source(sharded)
            cur = self.cursor(src)
            limit = INT.fresh("limit")
            c.inputs["limit"] = limit.t
            try:
                out, nxt = src.next_envelopes(cur, limit)
            except ValueError:
                S.prove("next_envelopes: refuses only a non-positive limit", limit.t <= 0)
                return
            out = SymList.of(self.ENV, out, self.measures) if isinstance(out, (list, tuple)) else out
            S.prove("next_envelopes: limit is positive", limit.t > 0)
            S.prove("next_envelopes: every record stands for its row", out.mvals["malformed"] == 0)
            self.after("next_envelopes", src, cur, nxt, out.mvals["watched"], out.n, limit.t)
        for sh in (False, True):
            S.run(f"{self.cls_name}.next_envelopes[sharded={sh}]", lambda: h_env(sh))

        def h_one():
            src = self.source(False)
            cur = self.cursor(src)
            first = ctx().decide(ctx().fresh(z3.BoolSort(), "some"))
            rec, nxt, asked = object(), object(), []
            src.__class__ = type("Sub", (self.cls,), {"next_envelopes": lambda s, c, n: (asked.append((c, n)), (((rec,) if first else ()), nxt))[1]})
            got = src.next_envelope(cur)
            S.prove("next_envelope: the first of a chunk of one", len(asked) == 1 and asked[0][0] is cur and asked[0][1] == 1
                    and got[0] is (rec if first else None) and got[1] is nxt)
        S.run(f"{self.cls_name}.next_envelope", h_one)

        def h_packed():
            c = ctx()
            src = self.source(False)
            cur = self.cursor(src)
            limit = INT.fresh("limit")
            try:
                block, nxt = src.next_packed_records(cur, limit)
            except ValueError:
                S.prove("next_packed_records: refuses only a non-positive limit", limit.t <= 0)
                return
            S.prove("next_packed_records: the block names the pass", int_term(block.default_cycle) == CYC)
            self.after("next_packed_records", src, cur, nxt, int_term(block.record_ids.w), int_term(block.record_ids.n), limit.t)
        S.run(f"{self.cls_name}.next_packed_records", h_packed)

    def cursors(self):
        S, m = self.S, self.m

        def setup(sharded, shuffle):
            c = ctx()
            src = self.source(sharded)
            src.shuffle = shuffle
            epochs = []
            src.decoder = type("Dec", (), {"set_epoch": lambda s, e: epochs.append(e)})()

            def permutation(n, seed, domain, key):
                S.prove("file order: seeded, over all files", z3.And(int_term(n) == self.D.n, int_term(seed) == int_term(src.seed)))
                S.prove("file order: key is the epoch, later passes and the files", key[-1] is src._file_identity and len(key) in (2, 3))
                e = int_term(key[0])
                cyc = z3.IntVal(0) if len(key) == 2 else int_term(key[1])
                S.prove("file order: the short key only in the first pass", z3.BoolVal(True) if len(key) == 2 else cyc != 0)
                k = z3.Int("k_perm")
                arr = c.fresh(z3.ArraySort(I, I), "perm")
                c.add(z3.ForAll([k], z3.And(arr[k] == PERM(int_term(seed), e, cyc, k), z3.Implies(
                    z3.And(k >= 0, k < int_term(n)), z3.And(arr[k] >= 0, arr[k] < int_term(n)))), patterns=[arr[k]]))
                return SymList(INT, int_term(n), [arr], None, (), {}, list)
            m.deterministic_permutation = permutation
            return src, epochs

        def h_start(sharded, shuffle):
            c = ctx()
            src, epochs = setup(sharded, shuffle)
            e, cy, r = INT.fresh("epoch"), INT.fresh("cycle"), INT.fresh("rank_arg")
            legal = z3.And(e.t >= 0, cy.t >= 0, r.t == int_term(src._rank))
            try:
                cur = src.start_cycle(e, cy, r)
            except ValueError:
                S.prove("start_cycle: refuses only an illegal epoch, pass or rank", z3.Not(legal))
                return
            S.prove("start_cycle: legal", legal)
            S.prove("start_cycle: at the very beginning", z3.And(int_term(cur.file_position) == 0, int_term(cur.row_position) == 0))
            S.prove("start_cycle: names its pass and rank", z3.And(int_term(cur.epoch) == e.t, int_term(cur.cycle) == cy.t,
                    int_term(cur.rank) == (r.t if sharded else 0)))
            k = c.fresh(I, "k")
            c.add(z3.And(k >= 0, k < self.D.n))
            o = cur.file_order
            S.prove("start_cycle: the order has every file", o.n == self.D.n)
            S.prove("start_cycle: file order is a function of seed, epoch, pass and files",
                    o.arrs[0][o.lo + k] == (PERM(int_term(src.seed), e.t, cy.t, k) if shuffle else k))
            S.prove("start_cycle: augmentation follows the epoch", z3.And(
                z3.BoolVal(len(epochs) == 1), int_term(epochs[0]) == e.t, int_term(src._active_epoch) == e.t))
        for sharded in (False, True):
            for shuffle in (False, True):
                S.run(f"{self.cls_name}.start_cycle[sharded={sharded},shuffle={shuffle}]", lambda: h_start(sharded, shuffle))

        def h_epoch():
            src, _ = setup(False, False)
            log = []
            sub = type("Sub", (self.cls,), {"start_cycle": lambda s, *a: (log.append(a), "cursor")[1]})
            src.__class__ = sub
            e, r = INT.fresh("epoch"), INT.fresh("rank_arg")
            got = src.start_epoch(e, r)
            S.prove("start_epoch: the first pass of the epoch", got == "cursor" and len(log) == 1 and log[0][0] is e
                    and log[0][1] == 0 and log[0][2] is r)
        S.run(f"{self.cls_name}.start_epoch", h_epoch)

        def h_round(sharded, shuffle):
            c = ctx()
            src, _ = setup(sharded, shuffle)
            e, cy = NAT.fresh("epoch"), NAT.fresh("cycle")
            start = src.start_cycle(e, cy, SymInt(int_term(src._rank)))
            fp, rp = NAT.fresh("fp"), NAT.fresh("rp")
            o = start.file_order
            k = z3.Int("k_rng")
            c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < o.n), z3.And(o.arrs[0][o.lo + k] >= 0, o.arrs[0][o.lo + k] < self.D.n))))
            cur = m.DenseNpzCursor(start.epoch, start.cycle, start.rank, o, fp, rp)
            cnt = self.D.arrs[3][self.D.lo + o.arrs[0][o.lo + fp.t]]
            c.add(z3.And(fp.t <= o.n, z3.Implies(fp.t == o.n, rp.t == 0), z3.Implies(fp.t < o.n, rp.t <= cnt)))
            c.add(z3.Implies(fp.t < o.n, z3.And(o.arrs[0][o.lo + fp.t] >= 0, o.arrs[0][o.lo + fp.t] < self.D.n)))
            st = src.save_cursor(cur)
            got = src.restore_cursor(st)       # a refusal would be an uncaught exception
            S.prove("cursor round trip: every position of every pass", z3.And(
                int_term(got.epoch) == e.t, int_term(got.cycle) == cy.t, int_term(got.rank) == int_term(start.rank),
                int_term(got.file_position) == fp.t, int_term(got.row_position) == rp.t))
            S.prove("cursor round trip: the file order", got.file_order.seq_eq(o))
            S.prove("cursor round trip: augmentation follows the epoch", int_term(src._active_epoch) == e.t)
        for sharded in (False, True):
            for shuffle in (False, True):
                S.run(f"{self.cls_name}.save/restore_cursor[sharded={sharded},shuffle={shuffle}]", lambda: h_round(sharded, shuffle))

        def h_foreign():
            c = ctx()
            src, _ = setup(True, True)
            st = {"schema": m.INDEXED_NPZ_SOURCE_SCHEMA if self.indexed else m.DENSE_NPZ_SOURCE_SCHEMA,
                  "epoch": NAT.fresh("epoch"), "cycle": NAT.fresh("cycle"), "rank": INT.fresh("rank2"),
                  "file_order": SymList.fresh(INT, "order2"), "file_position": INT.fresh("fp"), "row_position": INT.fresh("rp")}
            if not c.decide(c.fresh(z3.BoolSort(), "own schema")):
                st["schema"] = "another"
            try:
                cur = src.restore_cursor(dict(st))
            except ValueError:
                S.prove("restore(refused): schema, rank, order or position differs", z3.BoolVal(True))
                return
            o = st["file_order"]
            k = c.fresh(I, "k")
            c.add(z3.And(k >= 0, k < o.n))
            S.prove("restore: own schema, rank and file order only", z3.And(
                z3.BoolVal(st["schema"] != "another"), st["rank"].t == int_term(src._rank), o.n == self.D.n,
                o.arrs[0][o.lo + k] == PERM(int_term(src.seed), st["epoch"].t, st["cycle"].t, k)))
            fp, rp = st["file_position"].t, st["row_position"].t
            S.prove("restore: position inside the files", z3.And(fp >= 0, fp <= o.n, z3.Implies(fp == o.n, rp == 0), rp >= 0))
        S.run(f"{self.cls_name}.restore_cursor[any state]", h_foreign)

    # -- the packed form of a batch ----
    def packed_batch(self):
        """_packed_decode_batch: numpy's elementwise operations at an arbitrary position J."""
        S, m = self.S, self.m
        J = z3.Int("position")

        class Vec:
            flags = type("flags", (), {})()

            def __init__(self, n, f):
                self.n, self.f = n, f

            def astype(self, *a, **k):
                return self

            def setflags(self, **k):
                pass

            def __pyvc_len__(self):
                return SymInt(self.n)

            def _lift(self, o, op):
                g = o.f if isinstance(o, Vec) else (lambda i: int_term(o))
                return Vec(self.n, lambda i: op(self.f(i), g(i)))

            def __sub__(self, o): return self._lift(o, lambda a, b: a - b)
            def __lt__(self, o): return self._lift(o, lambda a, b: a < b)
            def __ge__(self, o): return self._lift(o, lambda a, b: a >= b)

            def __getitem__(self, i):
                if isinstance(i, Vec):
                    c = ctx()
                    k = c.fresh(I, "ix")
                    # negative indexes would wrap around
                    S.prove("_packed_decode_batch: no index is out of range", z3.Implies(
                        z3.And(k >= 0, k < i.n), z3.And(i.f(k) >= 0, i.f(k) < self.n)))
                    return Vec(i.n, lambda q: self.f(i.f(q)))
                return SymInt(self.f(int_term(i)))

        def vec(seq):
            return Vec(seq.n, lambda i: seq.arrs[0][seq.lo + i])

        class Np(FakeNp):
            intp = "intp"

            @staticmethod
            def searchsorted(a, v, side="left"):
                c = ctx()
                S.prove("_packed_decode_batch: searches after equal begins", side == "right")
                F = z3.Function(f"search!{next(c.counter)}", I, I)
                i, k = z3.Ints("i_ss k_ss")
                c.add(z3.ForAll([i], z3.And(F(i) >= 0, F(i) <= a.n), patterns=[F(i)]))
                c.add(z3.ForAll([i, k], z3.And(z3.Implies(z3.And(k >= 0, k < F(i)), a.f(k) <= v.f(i)),
                                               z3.Implies(z3.And(k >= F(i), k < a.n), a.f(k) > v.f(i))), patterns=[z3.MultiPattern(F(i), a.f(k))]))
                return Vec(v.n, lambda i: F(i))

            @staticmethod
            def any(v):
                c = ctx()
                i = z3.Int(f"i_any!{next(c.counter)}")
                c.add(z3.Or(z3.Exists([i], z3.And(i >= 0, i < v.n, v.f(i))), z3.Not(v.f(J))))
                return SymBool(z3.Exists([i], z3.And(i >= 0, i < v.n, v.f(i))))

            @staticmethod
            def ascontiguousarray(v):
                return v

        def h(valid):
            c = ctx()
            src = self.source()
            D = self.D
            m.np = Np
            m._validate_packed_batch_owner = lambda s, b: c.ghost.__setitem__("owner", (s, b))
            src._row_begins_array = vec(src._row_begins)
            src._row_counts_array = Vec(D.n, lambda i: D.arrs[3][D.lo + i])
            src._descriptor_paths = "paths"
            src._descriptor_digests = "digests"
            ids = SymList.fresh(INT, "ids")
            c.add(ids.n >= 1)
            batch = type("Batch", (), {})()
            batch.record_ids = vec(ids)
            idj = ids.arrs[0][ids.lo + J]
            c.add(z3.And(J >= 0, J < ids.n))
            k, i, a = z3.Ints("k_id i_id a_id")
            if valid:
                # every ID is the ID of some row
                FILE = z3.Function("file_of", I, I)
                fid = FILE(k)
                c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ids.n), z3.And(
                    fid >= 0, fid < D.n, ids.arrs[0][ids.lo + k] >= D.arrs[4][D.lo + fid],
                    ids.arrs[0][ids.lo + k] < D.arrs[4][D.lo + fid] + D.arrs[3][D.lo + fid]))))
                c.add(idj == W0)
            try:
                out = src._packed_decode_batch(batch)
            except RuntimeError:
                S.prove("_packed_decode_batch: refuses only IDs of no row", not valid)
                return
            finally:
                m.np = FakeNp
            S.prove("_packed_decode_batch: the batch belongs to this source", c.ghost.get("owner") == (src, batch))
            f, r = out.file_indices.f(J), out.rows.f(J)
            S.prove("_packed_decode_batch: a row of the catalog", z3.And(
                f >= 0, f < D.n, r >= 0, r < D.arrs[3][D.lo + f], D.arrs[4][D.lo + f] + r == idj))
            S.prove("_packed_decode_batch: the ID of a row gives its file and row", z3.Implies(idj == W0, z3.And(f == D0, r == R0)))
            S.prove("_packed_decode_batch: the keys are those of the rows", z3.BoolVal(
                out.sample_keys.file_indices is out.file_indices and out.sample_keys.rows is out.rows
                and out.paths == "paths" and out.content_digests == "digests" and out.sample_keys.content_digests == "digests"))
        for v in (True, False):
            S.run(f"{self.cls_name}._packed_decode_batch[{'valid' if v else 'any'} IDs]", lambda: h(v))

    # -- record IDs back to rows --------------------------------------------
    def resolving(self):
        S, m = self.S, self.m

        def bisect_right(seq, x):
            c = ctx()
            i, x = c.fresh(I, "insertion"), int_term(x)
            c.add(z3.And(i >= 0, i <= seq.n))
            a = seq.arrs[0]
            k = z3.Int("k_bis")
            c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < i), a[seq.lo + k] <= x)))
            c.add(z3.ForAll([k], z3.Implies(z3.And(k >= i, k < seq.n), a[seq.lo + k] > x)))
            for h in (D0, i - 1, i):      # instances
                c.add(z3.And(z3.Implies(z3.And(h >= 0, h < i), a[seq.lo + h] <= x), z3.Implies(z3.And(h >= i, h < seq.n), a[seq.lo + h] > x)))
            return SymInt(i)
        m.bisect_right = bisect_right

        def h():
            c = ctx()
            src = self.source()
            rid = INT.fresh("record_id")
            try:
                d, row = src._resolve(rid)
            except ValueError:
                S.prove("_resolve: refuses no ID of a row", rid.t != W0)
                return
            t = self.DESC.unwrap(d)
            S.prove("_resolve: the row is inside its file", z3.And(int_term(row) >= 0, int_term(row) < t[3], rid.t == t[4] + int_term(row)))
            S.prove("_resolve: the ID of a row resolves to its file and row", z3.Implies(rid.t == W0, z3.And(
                int_term(row) == R0, self.desc_eq(t, [arr[self.D.lo + D0] for arr in self.D.arrs]))))
        S.run(f"{self.cls_name}._resolve", h)

        # position J of a batch: record -> ref, in order
        FILE = z3.Function("file_of_ordinal", I, I)
        KNOWN = z3.Function("ordinal_known", I, z3.BoolSort())

        class Ordinals:
            def __init__(self, D):
                self.D = D

            def get(self, o):
                t = int_term(o)
                c = ctx()
                if not c.decide(KNOWN(t)):
                    return None
                c.add(z3.And(FILE(t) >= 0, FILE(t) < self.D.n, self.D.arrs[1][self.D.lo + FILE(t)] == t))
                return self.D.get(FILE(t))
        m.struct = type("struct", (), {"pack": staticmethod(lambda f, v: v)})

        def genuine(src, j, t):
            """Position j (arbitrary) holds the record of the watched row."""
            D, c = self.D, ctx()
            cyc = z3.Int("env_cycle")
            c.add(cyc >= 0)
            if self.dense_env:
                return z3.And(t[7] == W0, t[8] == cyc, *[a == arr[D.lo + D0] for a, arr in zip(t, D.arrs)])
            return z3.And(t[0] == X_DESC[1], t[1] == cyc, t[2] == X_DESC[2], t[3] == X_ROW, t[4] == X_CODE, t[5] == W0)

        def h_refs(kind):
            c = ctx()
            src = self.source()
            D = self.D
            if not self.indexed:
                src._descriptors_by_ordinal = Ordinals(D)
                c.add(z3.And(KNOWN(X_DESC[1]), FILE(X_DESC[1]) == D0))
            else:
                src._code_shapes = Shapes()
            self.dense_env = kind == "dense"
            J = z3.Int("position")
            if kind == "packed":
                batch = m.PackedEnvelopeBatch.__new__(m.PackedEnvelopeBatch)
                m._validate_packed_batch_owner = lambda s, b: c.ghost.__setitem__("owner", (s, b))
                batch.record_ids = ids = SymList.fresh(INT, "ids")
                n = ids.n
                c.add(z3.And(J >= 0, J < n, ids.arrs[0][ids.lo + J] == W0))
                cyc = z3.IntVal(0)
            else:
                et = self.ENV if self.dense_env else self.REC
                batch = SymList.fresh(et, "batch", kind=tuple)
                n = batch.n
                t = [a[batch.lo + J] for a in batch.arrs]
                c.add(z3.And(J >= 0, J < n, genuine(src, J, t)))
                cyc = z3.Int("env_cycle")
            c.ghost["position"], c.ghost["batch"] = J, batch
            c.ghost["expected"] = lambda q: z3.And(q[0] == X_DESC[0], q[1] == X_ROW,
                                                    q[2] == (SHAPE(X_CODE) if self.indexed else X_DESC[5]),
                                                    q[3] == cyc, q[4] == X_DESC[2], q[5] == X_ROW, q[6] == X_ROW)
            X["ref"] = REF
            label = "_decode_refs" if not self.indexed else "materialize_batch"
            try:
                if self.indexed:
                    def decode(refs):
                        c.ghost["refs"] = refs
                        return "data"
                    src.decoder = type("Dec", (), {"decode_batch": staticmethod(decode)})()
                    out = src.materialize_batch(batch)
                    S.prove(f"{label}: returns what the decoder made of the rows", out == "data")
                    refs = c.ghost["refs"]
                else:
                    refs = src._decode_refs(batch)
            except (RuntimeError, ValueError):
                S.prove(f"{label}: refused only because of another record than any genuine one", c.ghost["at"] != J)
                return
            if kind == "packed":
                S.prove(f"{label}: the packed batch belongs to this source", c.ghost.get("owner") == (src, batch))
            S.prove(f"{label}: one reference per record", refs.n == n)
            S.prove(f"{label}: the reference at a record's position is its row",
                    c.ghost["expected"]([a[refs.lo + J] for a in refs.arrs]))
        REF = TRec(m._DenseDecodeRef, {"path": PATH, "address": TTuple(INT), "board_size": BOARD, "sample_key": TKey(), "record_digest": INT})
        for kind in (("plain", "packed") if self.indexed else ("dense", "plain", "packed")):
            S.run(f"{self.cls_name} records -> rows [{kind}]", lambda: h_refs(kind))


SHAPE = z3.Function("shape_of_code", I, BOARD.sorts[0])


class Shapes:
    def __getitem__(self, i):
        return SymVal(SHAPE(int_term(i)), tuple)


class SeqIter:
    """iter(batch) after some steps."""

    def __init__(self, seq, pos):
        self.seq, self.pos = seq, pos

    def __iter__(self):
        return self

    def __next__(self):
        if self.pos >= self.seq.length():
            raise StopIteration
        v = self.seq.get(self.pos.t)
        self.pos = self.pos + 1
        return v


def ref_loops(cls):
    q = f"{MOD}:{cls}."

    def inv(L):
        r = L.refs
        r = SymList.of(X["ref"], r) if isinstance(r, list) else r
        g = ctx().ghost
        J = g["position"]
        g["at"] = L.i.t
        yield "one reference per record so far", r.n == L.i.t
        it = L._d.get("envelope_iter")
        if isinstance(it, SeqIter):
            yield "the records are taken in step", it.pos.t == L.i.t
        yield "the reference at the watched position", z3.Implies(L.i.t > J, g["expected"]([a[r.lo + J] for a in r.arrs]))
    dont = {n: (lambda v: None) for n in ("envelope", "descriptor", "row", "record_key", "record_id", "logical_row", "physical_row",
                                          "shape_code", "board_size")}
    spec = lambda: LoopSpec(inv=inv, types={**dont, "refs": lambda v: SymList.fresh(X["ref"], "refs")})
    if cls == "IndexedNpzSource":
        sp = spec()
        sp.types["envelope_iter"] = lambda v: NONE if v is None else SeqIter(ctx().ghost["batch"], NAT.fresh("pos"))
        return {q + "materialize_batch#0": sp}
    return {q + "_decode_refs#0": spec(), q + "_decode_refs#1": spec()}


def prove(S):
    for indexed in (False, True):
        s = Setup(S, indexed)
        s.enumeration()
        s.cursors()
        s.resolving()
        if not indexed:
            s.packed_batch()


if __name__ == "__main__":
    from specs.common import main
    main(prove)
