"""D02, executable contracts on the real random generator (bounded)."""
from collections import Counter
from .harness import require


def run(H):
    import numpy as np
    from dataset import core
    rng = H.rng
    HALF = [(1 << 63) + 1, (1 << 63) + 12345, (1 << 64) - 1, 3 << 62]
    H.bound("draws", "random bounds (including ones that reject half of all blocks), keys and counters")

    def a_key(depth=0):
        kinds = [lambda: rng.randrange(-(1 << 63), 1 << 63), lambda: rng.choice(["", "a", "é", "row"]),
                 lambda: bytes(rng.randrange(256) for _ in range(rng.randrange(5))), lambda: None,
                 lambda: rng.random() < .5]
        if depth < 2:
            kinds.append(lambda: tuple(a_key(depth + 1) for _ in range(rng.randrange(4))))
        return rng.choice(kinds)()

    def reference(n, seed, dom, key, ctr):
        lim = (1 << 64) - (1 << 64) % n
        while True:
            v = core.rng_u64(seed, dom, key, ctr)
            ctr += 1
            if v < lim:
                return v % n, ctr

    for i in range(H.scale(1500, 20000)):
        n = rng.choice([1, 2, 3, 7, 8, 100, 1 << 32, 1 << 64, rng.randrange(1, 1 << 64)] + HALF)
        seed, dom = rng.randrange(-(1 << 63), 1 << 63), rng.choice(["d", "shuffle", ""])
        key, ctr = tuple(a_key() for _ in range(rng.randrange(3))), rng.choice([0, 1, 5, 1 << 40])

        def body():
            r = core.uniform_below(n, seed, dom, key, ctr)
            require(0 <= r[0] < n and r[1] > ctr, "draw out of range", got=r)
            want = reference(n, seed, dom, key, ctr)
            require(tuple(r) == want, "draw is not the residue of the first accepted block", got=r, want=want)
            b = core._uniform_below_from_base(n, core._counter_rng_base(seed, dom, key), ctr)
            require(tuple(b) == want, "cloned hash state draws differently", got=b, want=want)
        H.case("draw", body, n=n, seed=seed, domain=dom, key=key, counter=ctr)

    def bad():
        for n in (0, -1, (1 << 64) + 1):
            for call in (lambda: core.uniform_below(n, 0, "d", ()),
                         lambda: core._uniform_below_from_base(n, core._counter_rng_base(0, "d", ()), 0),
                         lambda: core._uniform_below_for_processed_sample_keys(n, 0, "d", 0, []),
                         lambda: core._uniform_below_for_processed_sample_keys_v2(n, 0, "d", 0, [])):
                try:
                    call()
                except ValueError:
                    continue
                require(False, "an illegal bound was accepted", n=n)
        for c in (-1, 1 << 63):
            try:
                core.rng_u64(0, "d", (), c)
            except ValueError:
                continue
            require(False, "an illegal counter was accepted", counter=c)
        for r in (-0.1, 1.1, float("nan")):
            try:
                core.sample_is_admitted(r, 0, 0, ())
            except ValueError:
                continue
            require(False, "an illegal sampling rate was accepted", rate=r)
    H.case("illegal", bad)

    def sample_key():
        ns = rng.choice(["root", "c0", "c1"])
        addr = (rng.randrange(1 << 20),) if rng.random() < .6 else (rng.randrange(5), rng.randrange(1 << 20))
        return (ns, bytes([rng.randrange(3)]) * rng.choice([4, 32]), rng.choice(["npz-row", "x"]), addr)

    for i in range(H.scale(200, 3000)):
        keys = [sample_key() for _ in range(rng.randrange(8))]
        if keys and rng.random() < .5:
            keys += [keys[-1][:3] + ((rng.randrange(99),),), keys[0]]
        seed, epoch, occ = rng.randrange(-9, 1 << 40), rng.randrange(9), rng.randrange(3)
        n = rng.choice([1, 3, 6, 8, 100] + HALF)
        p2 = rng.choice([1, 2, 4, 8, 1 << 40])

        def body():
            got = core._uniform_below_for_processed_sample_keys(n, seed, "sym", epoch, keys, occ)
            want = [core.uniform_below(n, seed, "sym", (epoch, k, occ))[0] for k in keys]
            require(list(got) == want, "batch draws differ from one-key draws", got=got, want=want)
            v2 = core._uniform_below_for_processed_sample_keys_v2(p2, seed, "sym", epoch, keys, occ)
            one = [core._uniform_below_for_processed_sample_keys_v2(p2, seed, "sym", epoch, [k], occ)[0] for k in keys]
            require(list(v2) == one and all(0 <= v < p2 for v in v2), "vectorized draws differ from one-key draws",
                    got=v2, want=one)
            v2b = core._uniform_below_for_processed_sample_keys_v2(n, seed, "sym", epoch, keys, occ) if n & (n - 1) else want
            require(list(v2b) == want, "the fallback of the vectorized form differs")
            digests = tuple(bytes([q]) * 32 for q in range(4))
            fi = np.array([rng.randrange(4) for _ in range(len(keys) * 3)], dtype=np.intp)
            rows = np.array([rng.randrange(1 << 40) for _ in fi], dtype=np.uint64)
            pk = core._uniform_below_for_packed_processed_rows_v2(p2, seed, "sym", epoch, digests, fi, rows, occ)
            un = core._uniform_below_for_processed_sample_keys_v2(
                p2, seed, "sym", epoch, [("root", digests[f], "npz-row", (int(r),)) for f, r in zip(fi, rows)], occ)
            require(pk.tolist() == list(un), "packed-row draws differ from keyed draws", got=pk.tolist(), want=un)
        H.case("batch", body, keys=keys, seed=seed, epoch=epoch, occurrence=occ, n=n, p2=p2)

    def uniform():
        # each symmetry choice of many rows is roughly equally frequent (a gross-bias check only)
        keys = [("root", b"d" * 32, "npz-row", (r,)) for r in range(4000)]
        for f in (core._uniform_below_for_processed_sample_keys, core._uniform_below_for_processed_sample_keys_v2):
            c = Counter(f(8, 5, "sym", 0, keys, 0))
            require(len(c) == 8 and min(c.values()) > 350, "draws are grossly biased", counts=dict(c))
    H.case("gross-bias", uniform)

    for n in list(range(12)) + [50, 333]:
        for s in range(H.scale(4, 30)):
            def body():
                p = core.deterministic_permutation(n, s, "perm", ("k", s))
                require(sorted(p) == list(range(n)), "not a permutation", got=p)
                require(p == core.deterministic_permutation(n, s, "perm", ("k", s)), "not reproducible")
            H.case("permutation", body, length=n, seed=s)

    def spread():
        firsts = Counter(core.deterministic_permutation(4, s, "perm", ())[0] for s in range(400))
        lasts = Counter(core.deterministic_permutation(4, s, "perm", ())[3] for s in range(400))
        for c in (firsts, lasts):
            require(len(c) == 4 and min(c.values()) > 50, "a position is grossly biased", counts=dict(c))
        seen = {tuple(core.deterministic_permutation(4, s, "perm", ())) for s in range(1500)}
        require(len(seen) == 24, "some orders never occur", count=len(seen))
    H.case("gross-bias-permutation", spread)

    for i in range(H.scale(300, 3000)):
        seed, epoch, key = rng.randrange(99), rng.randrange(5), ("k", i)
        rates = sorted([0.0, 1.0] + [rng.random() for _ in range(6)])

        def body():
            a = [core.sample_is_admitted(r, seed, epoch, key) for r in rates]
            require(a[0] is False and a[-1] is True, "rate 0 or 1 is not exact", got=a)
            require(a == sorted(a), "admission is not monotone in the rate", rates=rates, got=a)
        H.case("admission", body, seed=seed, epoch=epoch, key=key)

    def freq():
        c = sum(core.sample_is_admitted(.25, 1, 0, (i,)) for i in range(3000))
        require(600 < c < 900, "the admitted fraction is grossly off", admitted=c)
    H.case("admission-rate", freq)
