"""D02 - counter-based randomness."""
import z3

from pyvc.engine import ctx, probe
from pyvc.values import SymInt, SymBool, SymList, INT, NAT, REAL, TInt, Measure, int_term, to_bool_term
from pyvc.symbytes import SymBytes, SymStr, sym_bytes, struct_module, hashlib_module
from pyvc.load import World, LoopSpec

MOD = "dataset.core"
TWO64 = 1 << 64
I64 = TInt(lo=-(1 << 63), hi=1 << 63)
e0 = z3.Int("any_value")
COUNT = Measure("count", lambda t: z3.If(t == e0, z3.IntVal(1), z3.IntVal(0)))
COUNT.of_range = lambda a, b: z3.If(z3.And(a <= e0, e0 < b), z3.IntVal(1), z3.IntVal(0))
U = z3.Function("block", z3.IntSort(), z3.IntSort())     # the 64-bit block of a counter

TRUSTED = ["blake2b is an uninterpreted function of its input bytes; little-endian packing is injective",
           "counting an element in range(a, b) (definition of range)",
           "float rounding in the admission threshold (modelled over the reals)"]


def limit(n):
    return TWO64 - (TWO64 % n)


def rejecting(L):
    """All blocks from the start counter up to the current one were rejected."""
    n, c = int_term(L.n), int_term(L.counter)
    k = z3.Int("k_rej")
    yield "counter only grows", c >= L.old.c
    yield "earlier blocks were rejected", z3.ForAll(
        [k], z3.Implies(z3.And(k >= L.old.c, k < c), U(k) >= limit(n)), patterns=[U(k)])


class Base:
    """A hash state whose block function is U."""

    def __init__(self, pending=None):
        self.pending = pending

    def copy(self):
        return Base()

    def update(self, data):
        self.pending = data

    def digest(self):
        return self

    def __getitem__(self, s):
        return self

    def __pyvc_from_bytes__(self, order):
        (kind, w, signed, t), = SymBytes.of(self.pending).atoms
        assert (w, signed, order) == (8, True, "little")
        ctx().add(z3.And(U(t) >= 0, U(t) < TWO64))
        return SymInt(U(t), 64)


def rej_loop():
    return LoopSpec(inv=rejecting, init=lambda L, old: setattr(old, "c", int_term(L.counter)),
                    types={"counter": INT, "value": lambda v: None, "digest": lambda v: None})


def perm_inv(L):
    yield "same length", L.values.n == int_term(L.length)
    yield "same elements", L.values.mvals["count"] == COUNT.of_range(z3.IntVal(0), int_term(L.length))
    yield "counter in range", int_term(L.counter) >= 0


def prove(S):
    stubs = {"struct": struct_module(), "hashlib": hashlib_module()}
    w = World(loops={
        f"{MOD}:uniform_below#0": rej_loop(),
        f"{MOD}:_uniform_below_from_base#0": rej_loop(),
        f"{MOD}:deterministic_permutation#0": LoopSpec(inv=perm_inv, types={"counter": INT}),
    }, stubs=stubs)
    m = w.module(MOD)

    def uniform_contract(call, label):
        def h():
            c = ctx()
            n, c0 = INT.fresh("n"), INT.fresh("counter")
            c.inputs.update(n=n.t, counter=c0.t)
            try:
                r, c1 = call(n, c0)
            except ValueError:
                S.prove(f"{label}: refuses only bounds outside [1, 2^64] or an exhausted counter", z3.Or(
                    n.t <= 0, n.t > TWO64, c0.t < 0, c0.t >= 1 << 63, exhausted(n.t, c0.t)))
                return
            r, c1 = int_term(r), int_term(c1)
            k = z3.Int("k_post")
            lim = limit(n.t)
            S.prove(f"{label}: result in range", z3.And(r >= 0, r < n.t))
            S.prove(f"{label}: at least one block consumed", c1 > c0.t)
            S.prove(f"{label}: result is the accepted block's residue",
                    z3.And(U(c1 - 1) < lim, r == U(c1 - 1) % n.t))
            S.prove(f"{label}: exactly the rejected blocks were skipped", z3.ForAll(
                [k], z3.Implies(z3.And(k >= c0.t, k < c1 - 1), U(k) >= lim)))
        return h

    def exhausted(n, c0):
        k = z3.Int("k_ex")
        return z3.ForAll([k], z3.Implies(z3.And(k >= c0, k < 1 << 63), U(k) >= limit(n)), patterns=[U(k)])

    real_rng = m.rng_u64

    def rng_u64(root_seed, domain, key, counter=0):
        t = int_term(counter)
        c = ctx()
        if not c.decide(z3.And(t >= 0, t < 1 << 63)):
            raise ValueError("counter")
        c.add(z3.And(U(t) >= 0, U(t) < TWO64))
        return SymInt(U(t), 64)
    m.rng_u64 = rng_u64
    S.run("uniform_below", uniform_contract(lambda n, c: m.uniform_below(n, 7, "d", (), c), "uniform_below"))
    S.run("_uniform_below_from_base", uniform_contract(
        lambda n, c: m._uniform_below_from_base(n, Base(), c), "_uniform_below_from_base"))

    def h_unbiased():
        """The contracts' rejection limit leaves the same number of blocks to every residue."""
        c = ctx()
        n = TInt(lo=1, hi=TWO64 + 1).fresh("n")
        lim = limit(n.t)
        S.prove("rejection limit is a multiple of n", lim % n.t == 0)
        S.prove("more than half of all blocks is accepted", lim > 1 << 63)
    # the modulus is nonlinear in n: decided by the division lemma q*n + r
    def h_unbiased2():
        c = ctx()
        n = TInt(lo=1, hi=TWO64 + 1).fresh("n")
        q, r = z3.Ints("q r")
        c.add(z3.And(TWO64 == q * n.t + r, r >= 0, r < n.t, q >= 1))
        S.prove("rejection limit is a multiple of n", z3.IntVal(TWO64) - r == q * n.t)
        S.prove("more than half of all blocks is accepted", 2 * (TWO64 - r) > TWO64)
    S.run("rejection limit (lemma)", h_unbiased2)

    m.rng_u64 = real_rng

    def key_parts():
        return INT.fresh("seed"), SymStr.fresh("domain"), (
            INT.fresh("epoch"), (SymStr.fresh("ns"), sym_bytes("digest"), SymStr.fresh("kind"), (INT.fresh("row"),)), INT.fresh("occ"))

    def h_same_stream():
        """rng_u64 and the cloned hash state give the same block for the same key and counter."""
        seed, domain, key = key_parts()
        ctr = TInt(lo=0, hi=1 << 63).fresh("counter")
        try:
            a = m.rng_u64(seed, domain, key, ctr)
        except ValueError:
            ctx().completed = True
            return
        base = m._counter_rng_base(seed, domain, key)
        d = base.copy()
        d.update(m.struct.pack("<q", ctr))
        b = d.digest()[:8].__pyvc_from_bytes__("little")
        S.prove("one-shot and cloned hash state agree", int_term(a) == int_term(b))
        S.prove("the cloned state itself is unchanged", z3.BoolVal(base.data.shape() != d.data.shape()))
    S.run("_counter_rng_base / rng_u64", h_same_stream)

    def block_of(seed, domain, key, k):
        """The block a one-key draw reads at counter k (via the real rng_u64)."""
        rng = z3.And(k >= 0, k < 1 << 63)
        return probe(lambda: m.rng_u64(seed, domain, key, SymInt(k)), [k], rng).t

    def batch_inv(L):
        k = z3.Int("k_batch")
        u = block_of(L.root_seed, L.domain, (L.epoch, L.sample_key, L.occurrence), k)
        c = int_term(L.counter)
        yield "blocks are read from zero, one at a time", c >= 0
        yield "earlier blocks of this key were rejected", z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < c, k < 1 << 63), u >= limit(int_term(L.n))))

    w2 = World(stubs=stubs, loops={
        f"{MOD}:_uniform_below_for_processed_sample_keys#1": LoopSpec(
            inv=batch_inv, types={"counter": INT, "results": lambda v: v})})
    m = w2.module(MOD)

    def h_batch(nkeys):
        def h():
            c = ctx()
            seed, domain, epoch, occ = I64.fresh("seed"), SymStr.fresh("domain"), I64.fresh("epoch"), I64.fresh("occ")
            n = TInt(lo=1, hi=TWO64 + 1).fresh("n")
            keys = []
            for i in range(nkeys):
                ns, dg, kd = SymStr.fresh("ns"), sym_bytes("digest"), SymStr.fresh("kind")
                two = c.decide(c.fresh(z3.BoolSort(), "two"))
                addr = tuple(I64.fresh("addr") for _ in range(2 if two else 1))
                keys.append((ns, dg, kd, addr))
            try:
                got = m._uniform_below_for_processed_sample_keys(n, seed, domain, epoch, keys, occ)
            except (ValueError, m.struct.error):
                c.completed = True
                return
            S.prove("one draw per key", z3.BoolVal(len(got) == nkeys))
            for i, (g, key) in enumerate(zip(got, keys)):
                k, j = z3.Ints("k_first j_first")
                first = c.fresh(z3.IntSort(), "first")
                u = block_of(seed, domain, (epoch, key, occ), j)
                uf = z3.substitute(u, (j, first))
                S.prove(f"batch draw {i} equals the one-key draw", z3.Implies(z3.And(
                    first >= 0, first < 1 << 63, uf < limit(n.t),
                    z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < first), u >= limit(n.t)), patterns=[u])),
                    int_term(g) == uf % n.t))
        return h
    for nk in (1, 2):
        S.run(f"_uniform_below_for_processed_sample_keys[{nk} keys]", h_batch(nk))

    m = w.module(MOD)

    def stub_from_base(n, base, counter):
        c = ctx()
        S.prove("caller of the bounded draw: bound in [1, 2^64]", z3.And(int_term(n) >= 1, int_term(n) <= TWO64))
        S.prove("caller of the bounded draw: counter is natural", int_term(counter) >= 0)
        j, c1 = INT.fresh("j"), INT.fresh("counter")
        c.add(z3.And(j.t >= 0, j.t < int_term(n), c1.t > int_term(counter)))
        return j, c1
    m._uniform_below_from_base = stub_from_base
    m._counter_rng_base = lambda *a: None

    def h_perm():
        c = ctx()
        c.ghost["range_measures"] = [COUNT]
        length = TInt(lo=0, hi=TWO64).fresh("length")
        c.inputs["length"] = length.t
        out = m.deterministic_permutation(length, 1, "d", ())
        if isinstance(out, SymList):
            S.prove("permutation: length", out.n == length.t)
            S.prove("permutation: every value of range(n) exactly once, nothing else",
                    out.mvals["count"] == COUNT.of_range(z3.IntVal(0), length.t))
        else:
            S.prove("permutation: trivial", z3.And(length.t == len(out)))
    S.run("deterministic_permutation", h_perm)

    def h_admit():
        c = ctx()
        rate, rate2 = REAL.fresh("rate"), REAL.fresh("rate2")
        u = TInt(bits=64).fresh("u")
        m.rng_u64 = lambda *a, **k: u
        c.inputs.update(rate=rate.t, block=u.t)
        try:
            r = to_bool_term(m.sample_is_admitted(rate, 3, 0, ("k",)))
        except ValueError:
            S.prove("admission: refuses only rates outside [0, 1]", z3.Or(rate.t < 0, rate.t > 1))
            return
        S.prove("admission: rate within [0, 1]", z3.And(rate.t >= 0, rate.t <= 1))
        S.prove("admission: everything at rate 1", z3.Implies(rate.t == 1, r))
        S.prove("admission: nothing at rate 0", z3.Implies(rate.t == 0, z3.Not(r)))
        S.prove("admission: threshold on the block", r == (z3.ToReal(u.t) < rate.t * TWO64))
        c.add(z3.And(rate2.t >= rate.t, rate2.t <= 1))
        r2 = to_bool_term(m.sample_is_admitted(rate2, 3, 0, ("k",)))
        S.prove("admission: monotone in the rate", z3.Implies(r, r2))
    S.run("sample_is_admitted", h_admit)
    S.assume_note("batch draws for processed keys are proved for sequences of up to 2 keys, with unbounded "
                  "rejection (the only state carried from key to key is the previous prefix)")


if __name__ == "__main__":
    from specs.common import main
    main(prove)
