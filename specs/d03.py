"""D03 - batch geometry, rank sharing of map-style samplers and of unknown-length streams."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymInt, SymBool, SymList, TRec, INT, NAT, BOOL, TInt, Measure, int_term, to_bool_term
from pyvc.load import World, LoopSpec

MODES = ("train", "validate", "test", "export", "visualize")
TRUSTED = ["torch.randperm is a permutation that depends only on the generator seed and the length",
           "sorted() returns a permutation of its argument"]
e0 = z3.Int("any_file")
COUNT = Measure("count", lambda t: z3.If(t == e0, z3.IntVal(1), z3.IntVal(0)))
COUNT.of_range = lambda a, b: z3.If(z3.And(a <= e0, e0 < b), z3.IntVal(1), z3.IntVal(0))
MAX_WORLD = 4


def separated(w, o1, r1, o2, r2):
    """o1*w + r1 != o2*w + r2 for different remainders: the multiples are w apart."""
    return z3.And(z3.Implies(o1 + 1 <= o2, o1 * w + w <= o2 * w), z3.Implies(o2 + 1 <= o1, o2 * w + w <= o1 * w),
                  z3.Implies(o1 == o2, o1 * w == o2 * w))


def geometry(S):
    m = World().module("dataset.core")

    def h_context(mode):
        def h():
            c = ctx()
            g, l, w, r, seed = (INT.fresh(n) for n in ("global", "local", "world", "rank", "seed"))
            c.inputs.update(global_batch_size=g.t, local_batch_size=l.t, world_size=w.t, rank=r.t, seed=seed.t)
            legal = z3.And(w.t >= 1, r.t >= 0, r.t < w.t, g.t > 0, l.t > 0, l.t * w.t == g.t,
                           seed.t >= -(1 << 63), seed.t < 1 << 63)
            try:
                x = m.DatasetRuntimeContext(g, l, w, r, seed, mode)
            except ValueError:
                S.prove("refused only when illegal", z3.Or(z3.Not(legal), z3.BoolVal(mode not in MODES)))
                return
            S.prove("accepted only when legal", z3.And(legal, z3.BoolVal(mode in MODES)))
            i = x.rank_local_identity
            a, b = int_term(i.slice_start), int_term(i.slice_stop)
            S.prove("slice belongs to its rank", int_term(i.rank) == r.t)
            S.prove("slice size is the local batch", b - a == l.t)
            S.prove("slice starts after the slices of the lower ranks", a == r.t * l.t)
            S.prove("slice inside the global batch", z3.And(a >= 0, z3.Implies(
                r.t * l.t + l.t <= w.t * l.t, b <= g.t)))
            k = x.global_contract
            S.prove("the global contract has the geometry and no rank", z3.And(
                int_term(k.global_batch_size) == g.t, int_term(k.local_batch_size) == l.t,
                int_term(k.world_size) == w.t, int_term(k.seed) == seed.t, z3.BoolVal(k.mode == mode),
                z3.BoolVal(not hasattr(k, "rank"))))
        return h
    for mode in MODES + ("", "Train", "eval", "predict"):
        S.run(f"DatasetRuntimeContext[{mode!r}]", h_context(mode))

    def h_tiling():
        """slice r = [r*l, r*l+l) for r in [0, w) tiles [0, w*l): lemma over the contract above."""
        c = ctx()
        l, w, r1, r2, p, q, m_ = z3.Ints("l w r1 r2 p q m")
        c.add(z3.And(l > 0, w >= 1, r1 >= 0, r1 < w, r2 >= 0, r2 < w))
        c.add(z3.And(z3.Implies(r1 + 1 <= r2, r1 * l + l <= r2 * l), z3.Implies(r2 + 1 <= r1, r2 * l + l <= r1 * l)))
        S.prove("slices of different ranks are disjoint", z3.Implies(
            z3.And(r1 != r2, p >= r1 * l, p < r1 * l + l), z3.Not(z3.And(p >= r2 * l, p < r2 * l + l))))
        c.add(z3.And(p >= 0, p < w * l, p == q * l + m_, m_ >= 0, m_ < l))
        c.add(z3.And(z3.Implies(q >= w, q * l >= w * l), z3.Implies(q <= -1, q * l <= -l)))
        S.prove("every position is in the slice of rank p div l", z3.And(q >= 0, q < w, p >= q * l, p < q * l + l))
        S.prove("the last slice ends with the batch", z3.Implies(r1 == w - 1, r1 * l + l == w * l))
    S.run("rank slices tile the batch (lemma)", h_tiling)

    def h_single():
        b, s = INT.fresh("batch"), INT.fresh("seed")
        try:
            x = m.single_process_dataset_context(b, seed=s)
        except ValueError:
            S.prove("single process: refuses only illegal", z3.Or(b.t <= 0, s.t < -(1 << 63), s.t >= 1 << 63))
            return
        i = x.rank_local_identity
        S.prove("single process: rank 0 has the whole batch",
                z3.And(int_term(i.slice_start) == 0, int_term(i.slice_stop) == b.t))
    S.run("single_process_dataset_context", h_single)


# -- map-style sampler ---------------------------------------------------

PERM = z3.Function("randperm", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


class FakeGenerator:
    seed = None

    def manual_seed(self, s):
        self.seed = s
        return self


class Perm:
    """torch.randperm(n, generator): element i is PERM(seed, n, i) in [0, n), injective."""

    def __init__(self, seed, n):
        self.seed, self.n = int_term(seed), int_term(n)

    def tolist(self):
        return self

    def __getitem__(self, i):
        t = int_term(i)
        c = ctx()
        if not c.decide(z3.And(t >= 0, t < self.n)):
            raise IndexError("index out of range")
        v = PERM(self.seed, self.n, t)
        c.add(z3.And(v >= 0, v < self.n))
        return SymInt(v)


class FakeTorch:
    Generator = FakeGenerator

    @staticmethod
    def randperm(n, generator=None):
        if generator is None or generator.seed is None:
            raise Unsupported("a permutation that is not seeded by the sampler")
        return Perm(generator.seed, n)


class Source:
    def __init__(self, n):
        self.n = n

    def __pyvc_len__(self):
        return self.n


def sampler_inv(L):
    yield "position is natural", int_term(L.self._yielded_offset) >= 0


def sampler(S):
    mod = "utils.training_utils"
    w = World(loops={f"{mod}:ResumableSampler.__iter__#1": LoopSpec(
        inv=sampler_inv, havoc=lambda L: [("attr", L.self, "_yielded_offset", INT)],
        types={"index": lambda v: None, "global_position": lambda v: None})})
    m = w.module(mod)
    m.torch = FakeTorch

    def one(shuffle, n, seed, epoch, world, rank, off):
        c = ctx()
        s = m.ResumableSampler(Source(n), shuffle=shuffle, seed=seed, rank=rank, world_size=world)
        s._yield_epoch = epoch
        s._yielded_offset = off
        it = iter(s)
        try:
            x = next(it)
        except StopIteration:
            return None
        return int_term(x), int_term(s._yielded_offset) - 1, s

    def h_next(shuffle):
        def h():
            c = ctx()
            n, seed, epoch, world, off = NAT.fresh("n"), INT.fresh("seed"), NAT.fresh("epoch"), INT.fresh("world"), NAT.fresh("off")
            rank = INT.fresh("rank")
            c.inputs.update(n=n.t, world=world.t, rank=rank.t)
            try:
                got = one(shuffle, n, seed, epoch, world, rank, off)
            except ValueError:
                S.prove("sampler: refuses only an illegal rank", z3.Or(world.t <= 0, rank.t < 0, rank.t >= world.t))
                return
            S.prove("sampler: accepts only a legal rank", z3.And(world.t >= 1, rank.t >= 0, rank.t < world.t))
            if got is None:
                c.completed = True
                return
            x, o, s = got
            pos = o * world.t + rank.t
            want = PERM(seed.t + epoch.t, n.t, pos) if shuffle else pos
            ln = int_term(s.local_length)
            S.prove("sampler: yields the entry at offset*world+rank of the shared order", x == want)
            S.prove("sampler: position inside the local partition", z3.And(o >= 0, o < ln))
            q, r = z3.Ints("q r")
            c.add(z3.And(n.t == q * world.t + r, r >= 0, r < world.t))
            c.add(separated(world.t, q, r, ln, n.t - ln * world.t))
            S.prove("sampler: partitions have length n div world", ln == q)
        return h
    for shuffle in (True, False):
        S.run(f"ResumableSampler.__iter__[shuffle={shuffle}]", h_next(shuffle))

    def h_disjoint():
        """positions offset*world+rank of two ranks never meet and stay inside the data."""
        c = ctx()
        w_, n, q, r, o1, o2, r1, r2 = z3.Ints("w n q r o1 o2 r1 r2")
        c.add(z3.And(w_ >= 1, n >= 0, n == q * w_ + r, r >= 0, r < w_, r1 >= 0, r1 < w_, r2 >= 0, r2 < w_,
                     o1 >= 0, o1 < q, o2 >= 0, o2 < q, z3.Or(r1 != r2, o1 != o2)))
        c.add(separated(w_, o1, r1, o2, r2))
        S.prove("no two ranks or offsets share a position", o1 * w_ + r1 != o2 * w_ + r2)
        c.add(z3.Implies(o1 + 1 <= q, o1 * w_ + w_ <= q * w_))
        c.add(z3.Implies(o1 >= 0, o1 * w_ >= 0))
        S.prove("positions stay inside the data", z3.And(o1 * w_ + r1 >= 0, o1 * w_ + r1 < n))
    S.run("map-style partitions are disjoint (lemma)", h_disjoint)


# -- unknown-length streams ------------------------------------------------

class Descr:
    def __init__(self, size):
        self.size = size


class Rank:
    """A rank that can only be used as an index; what was computed before is rank-independent."""

    def __init__(self, k):
        self.k, self.used = k, 0

    def __index__(self):
        self.used += 1
        return self.k


def files_inv(L):
    total = z3.IntVal(0)
    assignments = [a if isinstance(a, SymList) else SymList.of(INT, a, [COUNT]) for a in L.assignments]
    for a in assignments:
        total = total + a.mvals["count"]
    yield "every file seen so far is with exactly one rank", total == L.done_files("count")
    k = z3.Int("k_as")
    for r, a in enumerate(assignments):
        yield f"rank {r} holds files only", z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < a.n), z3.And(a.arrs[0][k + a.lo] >= 0, a.arrs[0][k + a.lo] < L.n_files)))
        yield f"rank {r} has its first file", z3.Implies(L.i.t > r, a.n >= 1)
        yield f"load of rank {r} is natural", int_term(L.loads[r]) >= 0


def files(S):
    mod = "dataset.sequential_source"
    held = {}

    def inv(L):
        src = L._loop.src                       # enumerate(by_size) over a measured list
        lst = held["by_size"]
        L.__dict__["done_files"] = lambda name: lst._prefix_measures(
            z3.simplify(L._loop.i), ctx().ghost.setdefault(("cuts", lst._key()), []))[name]
        L.__dict__["n_files"] = held["n"]
        # the prefix measure of the next element (definition of prefix sums)
        yield from files_inv(L)

    def fresh_assignments(v):
        out = [SymList.fresh(INT, f"rank{r}", [COUNT]) for r in range(len(v))]
        held["assignments"] = out
        return out

    w = World(loops={f"{mod}:InterleavedSequentialSource._file_order#0": LoopSpec(
        inv=inv,
        types={"assignments": fresh_assignments, "loads": lambda v: [NAT.fresh("load") for _ in v],
               "assigned_rank": lambda v: None, "position": lambda v: None, "descriptor_index": lambda v: None})})
    m = w.module(mod)
    inner_sorted = m.sorted

    def s_sorted(x, **k):
        out = inner_sorted(x, **k)
        if "by_size" not in held and isinstance(out, SymList):
            held["by_size"] = out
        return out
    m.sorted = s_sorted

    def enum(s, start=0):
        from pyvc import shims
        e = shims.s_enumerate(s, start)
        if s is held.get("by_size"):
            at = e.at

            def at2(i):
                c = ctx()
                cuts = c.ghost.setdefault(("cuts", s._key()), [])
                a, b = (s._prefix_measures(z3.simplify(j), cuts) for j in (i, i + 1))
                c.add(b["count"] == a["count"] + COUNT.f(*s.terms_at(i)))
                return at(i)
            e.at = at2
        return e
    m.enumerate = enum

    def setup(world, sharded, shuffle):
        c = ctx()
        held.clear()
        c.ghost["range_measures"] = [COUNT]
        c.ghost["enum_index"] = world
        src = m.InterleavedSequentialSource.__new__(m.InterleavedSequentialSource)
        n = TInt(lo=0).fresh("files")
        held["n"] = n.t
        d = SymList.fresh(TRec(Descr, {"size": NAT}), "descr")
        c.add(d.n == n.t)
        c.inputs["files"] = n.t
        src.descriptors = d
        src.shuffle, src.seed, src._file_identity = shuffle, 3, b"id"
        src._world_size, src._rank_sharded = world, sharded

        def stub_perm(length, seed, domain, key):
            p = SymList.fresh(INT, "perm", [])
            c = ctx()
            k = z3.Int("k_pm")
            c.add(p.n == int_term(length))
            c.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < p.n), z3.And(
                p.arrs[0][k] >= 0, p.arrs[0][k] < p.n)), patterns=[p.arrs[0][k]]))
            held["perm"], held["key"], held["dom"] = p, key, domain
            return p
        m.deterministic_permutation = stub_perm
        return src, n

    def h_shard(world, rank, shuffle):
        def h():
            c = ctx()
            src, n = setup(world, True, shuffle)
            c.add(n.t >= world)
            epoch, cycle = NAT.fresh("epoch"), NAT.fresh("cycle")
            r = Rank(rank)
            order = src._file_order(epoch, cycle, r)
            S.prove("assignments do not depend on the asking rank", z3.BoolVal(r.used == 1))
            parts = held["assignments"]
            total = z3.IntVal(0)
            for a in parts:
                total = total + a.mvals["count"]
            S.prove("every file is with exactly one rank, no other entry is",
                    total == COUNT.of_range(z3.IntVal(0), n.t))
            S.prove("every rank has a file", z3.And([a.n >= 1 for a in parts]))
            mine = parts[rank]
            S.prove("the rank reads all its files", int_term(sym_len(order)) == mine.n)
            if shuffle:
                S.prove("the order depends on seed, epoch, cycle, rank and files only",
                        z3.BoolVal(held["key"] == (epoch, cycle, r, b"id") if isinstance(held["key"], tuple) and len(held["key"]) == 4
                                   and held["key"][0] is epoch and held["key"][1] is cycle and held["key"][2] is r
                                   else False))
            else:
                S.prove("the rank's files are exactly its assignment", order.mvals["count"] == mine.mvals["count"])
        return h
    from pyvc.values import sym_len
    for world in range(1, MAX_WORLD + 1):
        S.run(f"_file_order[sharded, world {world}, in order]", h_shard(world, world - 1, False))
    S.run("_file_order[sharded, world 2, shuffled]", h_shard(2, 0, True))

    def h_whole(shuffle):
        def h():
            c = ctx()
            src, n = setup(2, False, shuffle)
            rank = Rank(1)
            order = src._file_order(NAT.fresh("epoch"), NAT.fresh("cycle"), rank)
            S.prove("without rank sharding every rank sees the same order", z3.BoolVal(rank.used == 0))
            S.prove("without rank sharding all files are read", int_term(sym_len(order)) == n.t)
            if not shuffle and isinstance(order, SymList):
                S.prove("in order: each file once", order.mvals["count"] == COUNT.of_range(z3.IntVal(0), n.t))
        return h
    for shuffle in (False, True):
        S.run(f"_file_order[replicated, shuffle={shuffle}]", h_whole(shuffle))

    def h_configure():
        src, n = setup(2, False, False)
        w_, r = INT.fresh("world"), INT.fresh("rank")
        sharded = BOOL.fresh("sharded")
        sb = to_bool_term(sharded)
        legal = z3.And(w_.t > 0, r.t >= 0, r.t < w_.t, z3.Implies(sb, n.t >= w_.t))
        try:
            src.configure_distributed(w_, r, rank_sharded=sharded)
        except ValueError:
            S.prove("configure: refuses only an illegal distribution", z3.Not(legal))
            return
        S.prove("configure: accepts only a legal distribution", legal)
        S.prove("configure: takes over the distribution", z3.And(
            int_term(src._world_size) == w_.t, int_term(src._rank) == r.t, to_bool_term(src._rank_sharded) == sb))
    S.run("configure_distributed", h_configure)


class FakeNp:
    bool_ = bool

    @staticmethod
    def asarray(x, dtype=None):
        return x


def local_slice(S):
    from pyvc.values import TOpaque, sym_len
    m = World().module("dataset.planner")
    m.np = FakeNp

    def h(sharded):
        def body():
            c = ctx()
            l, w, r = TInt(lo=1).fresh("local"), TInt(lo=1).fresh("world"), TInt(lo=0).fresh("rank")
            c.add(r.t < w.t)
            g = l * w
            p = m.DatasetPlanner.__new__(m.DatasetPlanner)
            p.runtime_context = m.DatasetRuntimeContext(g, l, w, r, 0, "train")
            p._rank_sharded = sharded
            env = SymList.fresh(TOpaque("Env"), "env", [], tuple)
            real = SymList.fresh(BOOL, "real", [], tuple)
            c.add(env.n == real.n)
            # products of the geometry, made explicit for the solver
            c.add(z3.And(r.t * l.t >= 0, r.t * l.t + l.t <= w.t * l.t, l.t * w.t == w.t * l.t))
            b = m.PlannedEnvelopeBatch(env, real, 0, 0, False)
            want = l.t if sharded else w.t * l.t
            try:
                e, mask = p.local_slice(b)
            except RuntimeError:
                S.prove("local_slice: refuses only a batch of another size", env.n != want)
                return
            start = z3.IntVal(0) if sharded else r.t * l.t
            S.prove("local_slice: local batch size", int_term(sym_len(e)) == l.t)
            S.prove("local_slice: mask of the same size", int_term(sym_len(mask)) == l.t)
            k = z3.Int("k_ls")
            rng = z3.And(k >= 0, k < l.t)
            S.prove("local_slice: exactly the rank's rows in order", z3.ForAll([k], z3.Implies(
                rng, e.arrs[0][e.lo + k] == env.arrs[0][env.lo + start + k])))
            S.prove("local_slice: mask of exactly those rows", z3.ForAll([k], z3.Implies(
                rng, mask.arrs[0][mask.lo + k] == real.arrs[0][real.lo + start + k])))
        return body
    S.run("DatasetPlanner.local_slice[replicated plan]", h(False))
    S.run("DatasetPlanner.local_slice[rank-sharded]", h(True))


def prove(S):
    geometry(S)
    local_slice(S)
    sampler(S)
    files(S)
    S.assume_note(f"rank file assignment is proved for every number and size of files and world sizes 1..{MAX_WORLD} "
                  "(larger worlds: bounded check)")


if __name__ == "__main__":
    from specs.common import main
    main(prove)
