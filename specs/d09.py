"""D09 - the map-style sampler's transactions and resume."""
import z3

from pyvc.engine import ctx
from pyvc.values import SymInt, SymList, TRec, INT, NAT, int_term, to_bool_term
from pyvc.load import World, LoopSpec
from specs.d03 import FakeTorch, Source, PERM, separated

MOD = "utils.training_utils"
TRUSTED = ["torch.randperm is a permutation that depends only on the generator seed and the length"]


def lex_le(a, b):
    return z3.Or(a[0] < b[0], z3.And(a[0] == b[0], a[1] <= b[1]))


def pos(s, kind):
    names = {"c": ("epoch", "offset"), "s": ("_staged_epoch", "_staged_offset"), "y": ("_yield_epoch", "_yielded_offset")}[kind]
    return tuple(int_term(getattr(s, n)) for n in names)


def inv(s):
    ln = int_term(s.local_length)
    for k, name in (("c", "committed"), ("s", "staged"), ("y", "yielded")):
        o = pos(s, k)[1]
        yield f"{name} offset inside the partition", z3.And(o >= 0, o <= ln)
    yield "committed <= staged", lex_le(pos(s, "c"), pos(s, "s"))
    yield "staged <= yielded", lex_le(pos(s, "s"), pos(s, "y"))


def prove(S):
    q = f"{MOD}:ResumableSampler."

    def chain_inv(L):
        t, i = L.src, L.i.t
        k = z3.Int("k_tok")
        E, O = int_term(L.self.epoch), int_term(L.self.offset)
        be, bo, ae, ao = (a[t.lo + k] for a in t.arrs)
        pe, po = t.arrs[2][t.lo + k - 1], t.arrs[3][t.lo + k - 1]
        yield "tokens so far are contiguous from the committed position", z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < i), z3.And(be == z3.If(k == 0, E, pe), bo == z3.If(k == 0, O, po),
                                          ae >= E, ae <= int_term(L.self._yield_epoch),
                                          ao >= 0, ao <= int_term(L.self.local_length))))
        le, lo = t.arrs[2][t.lo + i - 1], t.arrs[3][t.lo + i - 1]
        yield "position is after the last token", z3.And(
            int_term(L.epoch) == z3.If(i == 0, E, le), int_term(L.offset) == z3.If(i == 0, O, lo))

    def iter_inv(L):
        o = int_term(L.self._yielded_offset)
        yield "position inside the partition", z3.And(o >= 0, z3.Or(o <= int_term(L.self.local_length), o == L.old.start))

    w = World(loops={
        q + "prepare_commit#0": LoopSpec(inv=chain_inv, types={"epoch": INT, "offset": INT, "token": lambda v: None}),
        q + "__iter__#1": LoopSpec(
            inv=iter_inv, init=lambda L, old: setattr(old, "start", int_term(L.self._yielded_offset)),
            havoc=lambda L: [("attr", L.self, "_yielded_offset", INT)],
            types={"index": lambda v: None, "global_position": lambda v: None}),
    })
    m = w.module(MOD)
    m.torch = FakeTorch

    def fresh(assume=True, shuffle=True):
        c = ctx()
        n, world, rank, seed = NAT.fresh("n"), INT.fresh("world"), INT.fresh("rank"), INT.fresh("seed")
        c.add(z3.And(world.t >= 1, rank.t >= 0, rank.t < world.t))
        s = m.ResumableSampler(Source(n), shuffle=shuffle, seed=seed, rank=rank, world_size=world)
        if not assume:
            return s
        for f in ("epoch", "_staged_epoch", "_yield_epoch"):
            setattr(s, f, NAT.fresh(f))
        for f in ("offset", "_staged_offset", "_yielded_offset"):
            setattr(s, f, INT.fresh(f))
        for _, f in inv(s):
            c.add(f)
        c.inputs.update({k: int_term(getattr(s, k)) for k in (
            "epoch", "offset", "_staged_epoch", "_staged_offset", "_yield_epoch", "_yielded_offset")})
        c.inputs.update(n=n.t, world=world.t)
        return s

    def keeps(label, s):
        for name, f in inv(s):
            S.prove(f"{label}: {name}", f)

    def same(label, a, b):
        S.prove(label, z3.And([x == y for x, y in zip(a, b)]))

    def h_init():
        s = fresh(False)
        keeps("initial", s)
        same("initial: committed at the start", pos(s, "c"), (z3.IntVal(0), z3.IntVal(0)))
    S.run("__init__", h_init)

    def h_stage():
        s = fresh()
        count = INT.fresh("count")
        ctx().inputs["count"] = count.t
        c0, s0, y0 = pos(s, "c"), pos(s, "s"), pos(s, "y")
        ln = int_term(s.local_length)
        try:
            t = s.stage_batch(count)
        except RuntimeError:
            same("stage_batch(refused): nothing is committed", pos(s, "c"), c0)
            same("stage_batch(refused): nothing is yielded", pos(s, "y"), y0)
            keeps("stage_batch(refused)", s)
            base = z3.If(y0[0] == s0[0] + 1, z3.IntVal(0), s0[1])
            d = z3.If(count.t < ln - base, count.t, ln - base)
            S.prove("stage_batch(refused): only without a batch to stage", z3.Or(
                count.t <= 0, z3.And(y0[0] != s0[0], y0[0] != s0[0] + 1), d <= 0, base + d > y0[1]))
            return
        s1 = pos(s, "s")
        same("stage_batch: token starts at the staged position", (int_term(t.before_epoch), int_term(t.before_offset)), s0)
        same("stage_batch: token ends at the new staged position", (int_term(t.after_epoch), int_term(t.after_offset)), s1)
        same("stage_batch: the commit is untouched", pos(s, "c"), c0)
        same("stage_batch: the reader is untouched", pos(s, "y"), y0)
        base = z3.If(y0[0] == s0[0] + 1, z3.IntVal(0), s0[1])
        S.prove("stage_batch: stages the batch, at most to the end of the epoch", z3.And(
            s1[0] == y0[0], s1[1] == base + z3.If(count.t < ln - base, count.t, ln - base), s1[1] > base))
        keeps("stage_batch", s)
    S.run("stage_batch", h_stage)

    def h_advance():
        s = fresh()
        c0, s0, y0 = pos(s, "c"), pos(s, "s"), pos(s, "y")
        try:
            s.advance_yield_epoch()
        except RuntimeError:
            S.prove("advance: refused only before the epoch is exhausted", y0[1] < int_term(s.local_length))
            for a, b, n in ((pos(s, "c"), c0, "c"), (pos(s, "s"), s0, "s"), (pos(s, "y"), y0, "y")):
                same(f"advance(refused): unchanged {n}", a, b)
            return
        S.prove("advance: the epoch was exhausted", y0[1] >= int_term(s.local_length))
        same("advance: next epoch from its start", pos(s, "y"), (y0[0] + 1, z3.IntVal(0)))
        same("advance: commit untouched", pos(s, "c"), c0)
        same("advance: staging untouched", pos(s, "s"), s0)
        keeps("advance", s)
    S.run("advance_yield_epoch", h_advance)

    TOK = TRec(m.SamplerBatchToken, {"before_epoch": INT, "before_offset": INT, "after_epoch": INT, "after_offset": INT})

    def h_prepare():
        c = ctx()
        s = fresh()
        toks = SymList.fresh(TOK, "tok")
        c.inputs["tokens"] = toks.n
        c0, s0, y0 = pos(s, "c"), pos(s, "s"), pos(s, "y")
        ln = int_term(s.local_length)
        k = z3.Int("k_pre")
        be, bo, ae, ao = (a[toks.lo + k] for a in toks.arrs)
        pe, po = toks.arrs[2][toks.lo + k - 1], toks.arrs[3][toks.lo + k - 1]
        ok = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < toks.n), z3.And(
            be == z3.If(k == 0, c0[0], pe), bo == z3.If(k == 0, c0[1], po),
            ae >= c0[0], ae <= y0[0], ao >= 0, ao <= ln)))
        try:
            p = s.prepare_commit(toks)
        except ValueError:
            S.prove("prepare: an empty transaction is refused", toks.n == 0)
            return
        except RuntimeError:
            S.prove("prepare: refused only if a token is out of order or out of range", z3.Not(ok))
            same("prepare(refused): commit untouched", pos(s, "c"), c0)
            return
        S.prove("prepare: not empty", toks.n > 0)
        S.prove("prepare: tokens are contiguous from the last commit and in range", ok)
        same("prepare: starts at the last commit", (int_term(p.before_epoch), int_term(p.before_offset)), c0)
        last = toks.lo + toks.n - 1
        same("prepare: ends after the last token", (int_term(p.after_epoch), int_term(p.after_offset)),
             (toks.arrs[2][last], toks.arrs[3][last]))
        S.prove("prepare: counts its tokens", int_term(p.token_count) == toks.n)
        for a, b, n in ((pos(s, "c"), c0, "committed"), (pos(s, "s"), s0, "staged"), (pos(s, "y"), y0, "yielded")):
            same(f"prepare: changes nothing yet ({n})", a, b)
    S.run("prepare_commit", h_prepare)

    def h_commit():
        c = ctx()
        s = fresh()
        b = (NAT.fresh("be"), INT.fresh("bo"))
        a = (NAT.fresh("ae"), INT.fresh("ao"))
        p = m.PreparedSamplerCommit(b[0], b[1], a[0], a[1], NAT.fresh("count"))
        c0, s0, y0 = pos(s, "c"), pos(s, "s"), pos(s, "y")
        av = (a[0].t, a[1].t)
        # tokens are only issued up to the staged position, in order
        issued = z3.And(lex_le(c0, av), lex_le(av, s0), av[1] >= 0, av[1] <= int_term(s.local_length))
        try:
            s.commit_prepared(p)
        except RuntimeError:
            S.prove("commit: refused only when it does not start at the last commit",
                    z3.Not(z3.And(b[0].t == c0[0], b[1].t == c0[1])))
            same("commit(refused): unchanged", pos(s, "c"), c0)
            return
        S.prove("commit: starts at the last commit", z3.And(b[0].t == c0[0], b[1].t == c0[1]))
        same("commit: the position is exactly after the committed batches", pos(s, "c"), av)
        same("commit: the reader is untouched", pos(s, "y"), y0)
        same("commit: staging is untouched", pos(s, "s"), s0)
        c.add(issued)
        keeps("commit of issued tokens", s)
    S.run("commit_prepared", h_commit)

    def h_rollback():
        s = fresh()
        c0 = pos(s, "c")
        s.rollback_uncommitted()
        for k in "csy":
            same(f"rollback: back at the last commit ({k})", pos(s, k), c0)
        keeps("rollback", s)
    S.run("rollback_uncommitted", h_rollback)

    def h_iter(shuffle):
        def h():
            c = ctx()
            s = fresh(shuffle=shuffle)
            y0 = pos(s, "y")
            c0, s0 = pos(s, "c"), pos(s, "s")
            ln = int_term(s.local_length)
            n, world, rank = int_term(s.data_source.n), int_term(s.world_size), int_term(s.rank)
            it = iter(s)
            try:
                x = next(it)
            except StopIteration:
                S.prove("iteration ends only when the epoch is exhausted", pos(s, "y")[1] >= ln)
                return
            o = pos(s, "y")[1] - 1
            p = o * world + rank
            S.prove("iteration: the next uncommitted index of the epoch's order", int_term(x) == (
                PERM(int_term(s.seed) + y0[0], n, p) if shuffle else p))
            S.prove("iteration: one entry further, inside the epoch", z3.And(o >= 0, o < ln))
            S.prove("iteration: tells the dataset its epoch", int_term(s.data_source._active_epoch) == y0[0])
            same("iteration commits nothing", pos(s, "c"), c0)
            same("iteration stages nothing", pos(s, "s"), s0)
            try:
                next(it)
            except StopIteration:
                pass
        return h
    for sh in (True, False):
        S.run(f"__iter__[shuffle={sh}]", h_iter(sh))

    def h_first():
        """The first index after any (re)start is the one at the yield position."""
        c = ctx()
        w2 = World(loops={})
        m2 = w2.module(MOD)
        m2.torch = FakeTorch
        n, world, rank, seed, e, o = (NAT.fresh(x) for x in ("n", "world", "rank", "seed", "epoch", "offset"))
        c.add(z3.And(world.t >= 1, rank.t < world.t))
        s = m2.ResumableSampler(Source(n), shuffle=True, seed=seed, rank=rank, world_size=world)
        s._yield_epoch, s._yielded_offset = e, o
        try:
            x = next(iter(s))
        except StopIteration:
            S.prove("no index: the epoch is exhausted", o.t >= int_term(s.local_length))
            return
        S.prove("first index is at the yield position", int_term(x) == PERM(seed.t + e.t, n.t, o.t * world.t + rank.t))
        S.prove("first index advances by one", int_term(s._yielded_offset) == o.t + 1)
    S.run("__iter__ (first index)", h_first)

    def h_roundtrip():
        c = ctx()
        s = fresh()
        st = s.state_dict()
        t = m.ResumableSampler(s.data_source, shuffle=s.shuffle, seed=s.seed, rank=s.rank, world_size=s.world_size)
        t.load_state_dict(st)       # a refusal would be an uncaught exception
        for k in "csy":
            same(f"resume: a fresh sampler continues at the saved commit ({k})", pos(t, k), pos(s, "c"))
        keeps("resume", t)
    S.run("state_dict / load_state_dict", h_roundtrip)

    def h_load(version):
        def h():
            c = ctx()
            s = fresh()
            st = {"version": version, "length": NAT.fresh("len2"), "shuffle": c.decide(c.fresh(z3.BoolSort(), "sh")),
                  "seed": INT.fresh("seed2"), "epoch": NAT.fresh("e2"), "offset": INT.fresh("o2")}
            if version != 1:
                st["world_size"], st["rank"] = INT.fresh("w2"), INT.fresh("r2")
            same_id = z3.And(st["length"].t == int_term(s.data_source.n), z3.BoolVal(st["shuffle"] == s.shuffle),
                             st["seed"].t == int_term(s.seed))
            if version == 1:
                same_id = z3.And(same_id, int_term(s.world_size) == 1, int_term(s.rank) == 0)
            else:
                same_id = z3.And(same_id, st["world_size"].t == int_term(s.world_size), st["rank"].t == int_term(s.rank))
            ok = z3.And(same_id, st["offset"].t >= 0, st["offset"].t <= int_term(s.local_length),
                        z3.BoolVal(version in (1, 2)))
            before = [pos(s, k) for k in "csy"]
            try:
                s.load_state_dict(st)
            except RuntimeError:
                S.prove("load: only a foreign or damaged state is refused", z3.Not(ok))
                for k, b in zip("csy", before):
                    same(f"load(refused): nothing applied ({k})", pos(s, k), b)
                return
            S.prove("load: the state belongs to this sampler", ok)
            for k in "csy":
                same(f"load: position taken over ({k})", pos(s, k), (st["epoch"].t, st["offset"].t))
            keeps("load", s)
        return h
    for v in (1, 2, 3, None):
        S.run(f"load_state_dict[version {v}]", h_load(v))


if __name__ == "__main__":
    from specs.common import main
    main(prove)
