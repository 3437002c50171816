"""D05 - stream transactions, rollback and resume."""
import z3

from pyvc.engine import ctx
from pyvc.values import (SymInt, SymBool, SymList, SymVal, TOpaque, TOpt, TRec, TInt, INT, NAT, BOOL, DequeKind, int_term,
                         to_bool_term)
from pyvc.load import World, LoopSpec

MOD = "dataset.planner"
TRUSTED = ["the next batch is a function of the planner state (determinism of source, reservoir and planner: D01, D02, D04, D06-D08)",
           "restore_cursor(save_cursor(c)) = c, proved per source in D06-D08",
           "reservoir.restore(reservoir.state()) is the identity, proved in D01",
           "the shape queues are unrolled for 0, 1 and 2 queues of arbitrary content"]

STATE, DIGEST, BLOB, BATCH = TOpaque("PlannerState"), TOpaque("Digest"), TOpaque("Blob"), TOpaque("Batch")
St, Dg, Bl, Ba = (t.sorts[0] for t in (STATE, DIGEST, BLOB, BATCH))
I, B = z3.IntSort(), z3.BoolSort()
NEXT = z3.Function("next_state", St, St)            # the state after the next batch
PLAN = z3.Function("planned_batch", St, Ba)          # the next batch
MORE = z3.Function("has_next", St, B)
END = z3.Function("end_state", St, St)               # the state after finding that no batch is left
EPOCH, INDEX, FIN = (z3.Function(n, St, s) for n, s in (("epoch_of", I), ("index_of", I), ("finished_at", B)))
START = z3.Function("epoch_start", I, St)
BEP, BIX = z3.Function("batch_epoch", Ba, I), z3.Function("batch_number", Ba, I)
FLAG, LASTED = z3.Function("batch_last", Ba, B), z3.Function("with_last", Ba, Ba)
DIG = z3.Function("token_digest", Dg, Ba, Bl, Dg)
DIG0 = z3.Function("initial_digest", I, Bl, Dg)
PIPE = z3.Function("pipeline_next", Bl, Ba, Bl)


class State:
    """A snapshot: what it denotes is all that matters."""

    def __init__(self, t):
        self.t = t
    epoch = property(lambda s: SymInt(EPOCH(s.t.t)))
    batch_index = property(lambda s: SymInt(INDEX(s.t.t)))
    finished = property(lambda s: SymBool(FIN(s.t.t)))
    source_cycle = 0

    def __eq__(self, o):
        return (self.t == o.t) if isinstance(o, State) else False

    def __ne__(self, o):
        return (self.t != o.t) if isinstance(o, State) else True
    __hash__ = None


class Text(SymVal):
    """An opaque digest string of 64 characters."""
    __slots__ = ()
    __pyvc_type__ = str

    @staticmethod
    def __pyvc_len__(s):
        return 64


class TDigest(TOpaque):
    def wrap(self, terms):
        return Text(terms[0], str)


DIGEST = TDigest("Digest")


class Blob(SymVal):
    """Opaque pipeline bytes; without pipelines they are empty."""
    __slots__ = ()
    __pyvc_type__ = bytes

    def __bool__(self):
        return ctx().decide(self.t != EMPTY)


EMPTY = z3.Const("empty_blob", Bl)


class TBlob(TOpaque):
    def wrap(self, terms):
        return Blob(terms[0])


BLOB = TBlob("Blob")
STATE_T = TRec(State, {"t": STATE})


class Batch:
    def __init__(self, b):
        self.b = b
    epoch = property(lambda s: SymInt(BEP(s.b.t)))
    batch_index = property(lambda s: SymInt(BIX(s.b.t)))
    is_last = property(lambda s: SymBool(FLAG(s.b.t)))

    def __eq__(self, o):
        return self.b == o.b

    def __ne__(self, o):
        return self.b != o.b
    __hash__ = None


BATCH_T = TRec(Batch, {"b": BATCH})


def prove(S):
    q = f"{MOD}:DatasetPlanner."

    def chain_inv(L):
        p, t, i = L.self, L.src, L.i.t
        k = z3.Int("k_tok")
        for name, f in chain(p, t, i, k):
            yield name, f
        prev = lambda a: a[t.lo + i - 1]
        A = cols(t)
        yield "position after the tokens so far", z3.And(
            L.digest.t == z3.If(i == 0, p._committed_digest.t, prev(A["ad"])),
            L.pipeline_blob.t == z3.If(i == 0, p._committed_pipeline_blob.t, prev(A["ab"])),
            int_term(L.expected_batch) == INDEX(p._committed_state.t.t) + i,
            L.expected_state.t.t == z3.If(i == 0, p._committed_state.t.t, prev(A["as"])))

    def cols(t):
        names = ("epoch", "index", "bd", "ad", "bs", "as", "bb", "ab", "batch")
        return dict(zip(names, t.arrs))

    def chain(p, t, upto, k):
        """Tokens [0, upto) are contiguous from the committed position."""
        A = cols(t)
        at = lambda n, j: A[n][t.lo + j]
        yield "contiguous from the last commit", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < upto), z3.And(
            at("bd", k) == z3.If(k == 0, p._committed_digest.t, at("ad", k - 1)),
            at("bs", k) == z3.If(k == 0, p._committed_state.t.t, at("as", k - 1)),
            at("bb", k) == z3.If(k == 0, p._committed_pipeline_blob.t, at("ab", k - 1)),
            at("epoch", k) == EPOCH(p._committed_state.t.t),
            at("index", k) == INDEX(p._committed_state.t.t) + k)))

    w = World(loops={q + "prepare_commit#0": LoopSpec(
        inv=chain_inv, types={"digest": lambda v: DIGEST.fresh("digest"), "pipeline_blob": lambda v: BLOB.fresh("blob"),
                              "expected_batch": INT, "expected_state": lambda v: STATE_T.fresh("exp"),
                              "token": lambda v: None})})
    m = w.module(MOD)
    P = m.DatasetPlanner

    class Composer:
        """Contract of the pipeline composer: a pure function of batch and blob."""
        pipelines = ()

        def _decode_blob(self, blob):
            if not S_valid(blob):
                raise ValueError("pipeline composite state length changed")
            return []
    VALID = z3.Function("valid_blob", Bl, B)

    def S_valid(blob):
        return ctx().decide(VALID(blob.t))

    class Caps:
        resumable = True

    class Src:
        capabilities = Caps()

    class Runtime:
        mode, rank, global_contract = "train", 0, {}

    def fake_replace(obj, **kw):
        if isinstance(obj, Batch):
            assert set(kw) == {"is_last"} and kw["is_last"] is True
            ctx().add(z3.And(FLAG(LASTED(obj.b.t)), BEP(LASTED(obj.b.t)) == BEP(obj.b.t), BIX(LASTED(obj.b.t)) == BIX(obj.b.t)))
            return Batch(SymVal(LASTED(obj.b.t)))
        import dataclasses
        return dataclasses.replace(obj, **kw)
    m.replace = fake_replace

    def cursor_facts(s):
        """Contract of next_batch (D04) on a state term."""
        c = ctx()
        c.add(z3.And(EPOCH(s) >= 0, INDEX(s) >= 0))
        c.add(z3.Implies(MORE(s), z3.And(BEP(PLAN(s)) == EPOCH(s), BIX(PLAN(s)) == INDEX(s), z3.Not(FIN(s)),
                                         EPOCH(NEXT(s)) == EPOCH(s), INDEX(NEXT(s)) == INDEX(s) + 1)))
        c.add(z3.Implies(z3.Not(MORE(s)), z3.And(FIN(END(s)), EPOCH(END(s)) == EPOCH(s), INDEX(END(s)) == INDEX(s))))

    def planner(pipes, live="synced", sharded=False):
        c = ctx()
        p = P.__new__(P)
        p.source, p.runtime_context = Src(), Runtime()
        p.config, p._manifest_digest = "config", "manifest"
        p._rank_sharded = sharded
        p.distributed_policy = "rank-sharded-budget-v1" if sharded else "replicated-global-plan-v1"
        p.pipeline_composer = Composer() if pipes else None
        p.ghost = STATE.fresh("live").t               # what the planner's own fields denote
        p._committed_state, p._yield_state = STATE_T.fresh("committed"), STATE_T.fresh("yielded")
        p._committed_digest, p._yield_digest = DIGEST.fresh("cd"), DIGEST.fresh("yd")
        p._committed_pipeline_blob, p._yield_pipeline_blob = BLOB.fresh("cb"), BLOB.fresh("yb")
        if not pipes:
            c.add(z3.And(p._committed_pipeline_blob.t == EMPTY, p._yield_pipeline_blob.t == EMPTY))
        else:
            c.add(z3.And(VALID(p._committed_pipeline_blob.t), VALID(p._yield_pipeline_blob.t)))
        cursor_facts(p.ghost)
        cursor_facts(p._committed_state.t.t)
        if live == "synced":
            c.add(p._yield_state.t.t == p.ghost)

        def next_batch():
            if c.decide(MORE(p.ghost)):
                b = Batch(SymVal(PLAN(p.ghost)))
                p.ghost = NEXT(p.ghost)
                cursor_facts(p.ghost)
                return b
            p.ghost = END(p.ghost)
            return None
        p.next_batch = next_batch
        p.state = lambda: State(SymVal(p.ghost))

        def restore(s):
            p.ghost = s.t.t
        p.restore = restore

        def start_epoch(e):
            p.ghost = START(int_term(e))
            c.add(z3.And(EPOCH(p.ghost) == int_term(e), INDEX(p.ghost) == 0, z3.Not(FIN(p.ghost))))
        p.start_epoch = start_epoch
        p._token_digest = lambda before, batch, blob: Text(DIG(before.t, batch.b.t, blob.t), str)
        p._initial_digest = lambda e: Text(DIG0(int_term(e), p._committed_pipeline_blob.t), str)
        P.finished = property(lambda s: SymBool(FIN(s.ghost)))
        P.epoch = property(lambda s: SymInt(EPOCH(s.ghost)))
        return p

    def snap(p):
        return {"live position": p.ghost, "committed state": p._committed_state.t.t, "yielded state": p._yield_state.t.t,
                "committed digest": p._committed_digest.t, "yielded digest": p._yield_digest.t,
                "committed pipeline": p._committed_pipeline_blob.t, "yielded pipeline": p._yield_pipeline_blob.t}

    def same(label, a, b, *names):
        for n in names or a:
            S.prove(f"{label}: {n}", a[n] == b[n])
    COMMITTED = ("committed state", "committed digest", "committed pipeline")

    # ------------------------------------------------------------ planning a batch
    def h_next(pipes):
        def h():
            p = planner(pipes)
            a = snap(p)
            r = p.next_transactional_batch()
            b = snap(p)
            same("next: the commit is untouched", a, b, *COMMITTED)
            if r is None:
                S.prove("next: no batch only at the end", z3.Not(MORE(a["live position"])))
                return
            batch, t = r
            S.prove("next: the batch planned at the yielded position", batch.b.t == PLAN(a["live position"]))
            S.prove("next: the token carries this batch", t.batch.b.t == batch.b.t)
            S.prove("next: the token starts at the yielded position", t.before_state.t.t == a["yielded state"])
            S.prove("next: the token ends after the batch", t.after_state.t.t == NEXT(a["live position"]))
            S.prove("next: yielded position moves along", b["yielded state"] == b["live position"])
            S.prove("next: digests chain", z3.And(t.before_digest.t == a["yielded digest"], t.after_digest.t == b["yielded digest"],
                                                  t.after_digest.t == DIG(a["yielded digest"], batch.b.t, a["yielded pipeline"])))
            S.prove("next: pipeline state is carried", z3.And(t.before_pipeline_blob.t == a["yielded pipeline"],
                                                              t.after_pipeline_blob.t == a["yielded pipeline"]))
            S.prove("next: numbered by the batch", z3.And(int_term(t.epoch) == BEP(batch.b.t), int_term(t.batch_index) == BIX(batch.b.t)))
        return h
    for pipes in (False, True):
        S.run(f"next_transactional_batch[{'pipelines' if pipes else 'plain'}]", h_next(pipes))

    # tokens as records
    def mk_token(epoch, index, bd, ad, bs, as_, bb, ab, batch):
        return m.PlannerBatchToken(epoch=epoch, batch_index=index, before_digest=bd, after_digest=ad, batch=batch,
                                   before_state=bs, after_state=as_, before_pipeline_blob=bb, after_pipeline_blob=ab,
                                   distributed_policy="replicated-global-plan-v1")

    class TTok(TRec):
        FIELDS = {"epoch": "epoch", "index": "batch_index", "bd": "before_digest", "ad": "after_digest",
                  "bs": "before_state", "as_": "after_state", "bb": "before_pipeline_blob", "ab": "after_pipeline_blob",
                  "batch": "batch"}

        def unwrap(self, v):
            return [x for n, t in self.fields.items() for x in t.unwrap(getattr(v, self.FIELDS[n]))]
    TOK = TTok(mk_token, {"epoch": INT, "index": INT, "bd": DIGEST, "ad": DIGEST, "bs": STATE_T, "as_": STATE_T,
                          "bb": BLOB, "ab": BLOB, "batch": BATCH_T})

    # ------------------------------------------------------------ pipelines
    class Prepared:
        def __init__(self, data, blob):
            self.data, self.composite_blob = data, blob

    def h_pipe(pipes):
        def h():
            c = ctx()
            p = planner(pipes)
            t = TOK.fresh("tok")
            batch = BATCH_T.fresh("batch")
            keys = SymList.fresh(TOpaque("Key"), "keys", kind=tuple)
            data = {"x": 1}
            if pipes:
                def prepare(d, *, sample_keys, rng_keys, current_blob):
                    S.prove("pipeline: sees the decoded rows", z3.BoolVal(d is data))
                    S.prove("pipeline: sees the sample keys in order", to_bool_term(sample_keys == keys))
                    S.prove("pipeline: starts from the state before this batch", current_blob.t == t.before_pipeline_blob.t)
                    from pyvc.values import sym_len, seq_at
                    k = SymInt(z3.Int("k_key"))
                    c.add(z3.And(k.t >= 0, k.t < keys.n))
                    S.prove("pipeline: one augmentation key per row", int_term(sym_len(rng_keys)) == keys.n)
                    e, key, occ = seq_at(rng_keys, k.t)
                    S.prove("pipeline: the augmentation key is (epoch, sample key, row)", z3.And(
                        int_term(e) == BEP(batch.b.t), key.t == keys.arrs[0][keys.lo + k.t], int_term(occ) == k.t))
                    return Prepared({"y": 2}, Blob(PIPE(current_blob.t, batch.b.t)))
                p.pipeline_composer.prepare_batch = prepare
            a = snap(p)
            try:
                out, t2 = p.prepare_pipeline_batch(batch, t, data, keys)
            except RuntimeError:
                same("pipeline(refused): nothing changes", a, snap(p))
                S.prove("pipeline: refused only for a foreign or stale token", z3.Or(
                    batch.b.t != t.batch.b.t, *([t.after_digest.t != a["yielded digest"]] if pipes else [])))
                return
            b = snap(p)
            same("pipeline: the commit is untouched", a, b, *COMMITTED, "live position", "yielded state")
            S.prove("pipeline: the batch belongs to the token", batch.b.t == t.batch.b.t)
            if not pipes:
                S.prove("pipeline: without pipelines nothing happens", z3.BoolVal(out is data and t2 is t))
                same("pipeline: nothing changes", a, b)
                return
            S.prove("pipeline: the token is the latest one", t.after_digest.t == a["yielded digest"])
            nb = PIPE(t.before_pipeline_blob.t, batch.b.t)
            S.prove("pipeline: the token carries the next pipeline state", t2.after_pipeline_blob.t == nb)
            S.prove("pipeline: the reader carries the next pipeline state", b["yielded pipeline"] == nb)
            S.prove("pipeline: digest recomputed over the same start", z3.And(
                t2.after_digest.t == DIG(t.before_digest.t, batch.b.t, nb), b["yielded digest"] == t2.after_digest.t))
            S.prove("pipeline: the rest of the token is unchanged", z3.And(
                t2.before_digest.t == t.before_digest.t, t2.before_state.t.t == t.before_state.t.t,
                t2.after_state.t.t == t.after_state.t.t, t2.before_pipeline_blob.t == t.before_pipeline_blob.t,
                t2.batch.b.t == t.batch.b.t, int_term(t2.epoch) == int_term(t.epoch),
                int_term(t2.batch_index) == int_term(t.batch_index)))
            S.prove("pipeline: hands out the pipeline's rows", z3.BoolVal(out == {"y": 2}))
        return h
    for pipes in (False, True):
        S.run(f"prepare_pipeline_batch[{'pipelines' if pipes else 'plain'}]", h_pipe(pipes))

    # ------------------------------------------------------------ the last token of an epoch
    def h_final():
        p = planner(True)
        t = TOK.fresh("tok")
        a = snap(p)
        try:
            batch, t2 = p.finalize_terminal_token(t)
        except RuntimeError:
            same("finalize(refused): nothing changes", a, snap(p))
            S.prove("finalize: refused only when open or stale", z3.Or(z3.Not(FIN(a["live position"])),
                                                                       t.after_digest.t != a["yielded digest"]))
            return
        b = snap(p)
        same("finalize: the commit is untouched", a, b, *COMMITTED, "live position")
        S.prove("finalize: only at the end, only the latest token", z3.And(FIN(a["live position"]), t.after_digest.t == a["yielded digest"]))
        S.prove("finalize: the same batch, flagged last", z3.And(batch.b.t == LASTED(t.batch.b.t), t2.batch.b.t == batch.b.t))
        S.prove("finalize: the token ends in the finished state", z3.And(
            t2.after_state.t.t == a["live position"], b["yielded state"] == a["live position"]))
        S.prove("finalize: starts where it started", z3.And(t2.before_digest.t == t.before_digest.t,
                                                            t2.before_state.t.t == t.before_state.t.t,
                                                            t2.before_pipeline_blob.t == t.before_pipeline_blob.t,
                                                            t2.after_pipeline_blob.t == t.after_pipeline_blob.t))
        S.prove("finalize: digests", z3.And(t2.after_digest.t == DIG(t.before_digest.t, batch.b.t, t.after_pipeline_blob.t),
                                            b["yielded digest"] == t2.after_digest.t))
    S.run("finalize_terminal_token", h_final)

    # ------------------------------------------------------------ commits
    def h_prepare(pipes, sharded):
        def h():
            p = planner(pipes, sharded=sharded)
            toks = SymList.fresh(TOK, "tok")
            ctx().inputs["tokens"] = toks.n
            a = snap(p)
            k = z3.Int("k_pre")
            A = cols(toks)
            ok = z3.And([f for _, f in chain(p, toks, toks.n, k)] + [z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < toks.n), VALID(A["ab"][toks.lo + k]) if pipes else A["ab"][toks.lo + k] == EMPTY))])
            try:
                r = p.prepare_commit(toks)
            except (ValueError, RuntimeError):
                same("prepare(refused): nothing changes", a, snap(p))
                S.prove("prepare: refused only without tokens or out of order", z3.Or(toks.n == 0, z3.Not(ok)))
                return
            same("prepare: nothing changes yet", a, snap(p))
            S.prove("prepare: not empty", toks.n > 0)
            for name, f in chain(p, toks, toks.n, k):
                S.prove(f"prepare: accepted tokens are {name}", f)
            last = toks.lo + toks.n - 1
            S.prove("prepare: starts at the last commit", r.before_digest.t == a["committed digest"])
            S.prove("prepare: ends after the last token", z3.And(r.after_digest.t == A["ad"][last], r.after_state.t.t == A["as"][last],
                                                                 r.after_pipeline_blob.t == A["ab"][last]))
            S.prove("prepare: counts its tokens", int_term(r.token_count) == toks.n)
        return h
    for pipes in (False, True):
        for sharded in (False, True):
            S.run(f"prepare_commit[{'pipelines' if pipes else 'plain'}{', rank-sharded' if sharded else ''}]", h_prepare(pipes, sharded))

    def h_commit():
        p = planner(True, live="any")
        cand = m.PreparedPlannerCommit(DIGEST.fresh("b"), DIGEST.fresh("a"), STATE_T.fresh("after"), BLOB.fresh("blob"),
                                       NAT.fresh("count"), ())
        a = snap(p)
        try:
            p.commit_prepared(cand)
        except RuntimeError:
            S.prove("commit: refused only if it does not start at the last commit", cand.before_digest.t != a["committed digest"])
            same("commit(refused): nothing changes", a, snap(p))
            return
        b = snap(p)
        S.prove("commit: starts at the last commit", cand.before_digest.t == a["committed digest"])
        S.prove("commit: the position is exactly after the committed batches", z3.And(
            b["committed state"] == cand.after_state.t.t, b["committed digest"] == cand.after_digest.t,
            b["committed pipeline"] == cand.after_pipeline_blob.t))
        same("commit: the reader is untouched", a, b, "live position", "yielded state", "yielded digest", "yielded pipeline")
    S.run("commit_prepared", h_commit)

    def h_commit_one(raises):
        # against the contracts of the two functions above
        p = planner(True, live="any")
        t = TOK.fresh("tok")
        cand = object()
        log = []

        def prepare(tokens):
            log.append(("prepare", list(tokens)))
            if raises:
                raise RuntimeError("out of order")
            return cand
        p.prepare_commit = prepare
        p.commit_prepared = lambda c: log.append(("commit", c))
        a = snap(p)
        try:
            p.commit_batch(t)
        except RuntimeError:
            S.prove("commit_batch: a refused token is not committed", raises and log == [("prepare", [t])])
        else:
            S.prove("commit_batch: commits exactly the prepared token",
                    not raises and len(log) == 2 and log[0] == ("prepare", [t]) and log[1][1] is cand)
        same("commit_batch: changes nothing by itself", a, snap(p))
    S.run("commit_batch", lambda: h_commit_one(False))
    S.run("commit_batch[refused]", lambda: h_commit_one(True))

    def h_rollback():
        p = planner(True, live="any")
        a = snap(p)
        p.rollback_uncommitted()
        b = snap(p)
        same("rollback: the commit is untouched", a, b, *COMMITTED)
        S.prove("rollback: the reader is back at the last commit", z3.And(
            b["live position"] == a["committed state"], b["yielded state"] == a["committed state"],
            b["yielded digest"] == a["committed digest"], b["yielded pipeline"] == a["committed pipeline"]))
    S.run("rollback_uncommitted", h_rollback)

    def h_epoch():
        p = planner(True)
        a = snap(p)
        try:
            p.begin_next_epoch()
        except RuntimeError:
            S.prove("next epoch: refused only if unfinished or uncommitted", z3.Or(
                z3.Not(FIN(a["live position"])), a["yielded digest"] != a["committed digest"]))
            same("next epoch(refused): nothing changes", a, snap(p))
            return
        b = snap(p)
        S.prove("next epoch: the epoch is finished and committed", z3.And(FIN(a["live position"]),
                                                                          a["yielded digest"] == a["committed digest"]))
        s = START(EPOCH(a["live position"]) + 1)
        S.prove("next epoch: starts the following epoch", z3.And(b["live position"] == s, b["committed state"] == s,
                                                                 b["yielded state"] == s))
        S.prove("next epoch: the pipeline state is kept", z3.And(b["committed pipeline"] == a["committed pipeline"],
                                                                 b["yielded pipeline"] == a["committed pipeline"]))
        S.prove("next epoch: digests agree", z3.And(b["committed digest"] == b["yielded digest"],
                b["committed digest"] == DIG0(EPOCH(a["live position"]) + 1, a["committed pipeline"])))
    S.run("begin_next_epoch", h_epoch)

    # ------------------------------------------------------------ saving and loading
    class Hex(SymVal):
        __slots__ = ()
    HEX = z3.Function("hex", Bl, Bl)
    UNHEX = z3.Function("unhex", Bl, Bl)
    SER, UNSER = z3.Function("to_serializable", St, St), z3.Function("from_serializable", St, St)

    def load_ready(p):
        p.signature_state = lambda: {"sig": p.sig}
        p._state_to_serializable = lambda s: State(SymVal(SER(s.t.t)))

        def unser(s):
            if s is None:
                raise RuntimeError("cannot restore malformed planner cursor state")
            return State(SymVal(UNSER(s.t.t)))
        p._state_from_serializable = unser
        p.sig = SymInt(ctx().fresh(I, "sig"))

    Blob.hex = lambda self: HexText(HEX(self.t))

    class HexText(SymVal):
        __slots__ = ()
        __pyvc_type__ = str

    class FakeBytes:
        @staticmethod
        def fromhex(h):
            if isinstance(h, HexText):
                return Blob(UNHEX(h.t))
            return bytes.fromhex(h)
    m.bytes = FakeBytes

    def h_save_load():
        c = ctx()
        p = planner(True, live="any")
        load_ready(p)
        a = snap(p)
        s0, b0 = a["committed state"], a["committed pipeline"]
        c.add(z3.And(UNSER(SER(s0)) == s0, UNHEX(HEX(b0)) == b0))
        st = p.state_dict()
        same("save: nothing changes", a, snap(p))
        t = planner(True, live="any")
        load_ready(t)
        t.sig = p.sig
        t.load_state_dict(st)                  # a refusal would be an uncaught exception
        b = snap(t)
        S.prove("resume: a fresh stream stands at the saved commit", z3.And(
            b["live position"] == s0, b["committed state"] == s0, b["yielded state"] == s0,
            b["committed digest"] == a["committed digest"], b["yielded digest"] == a["committed digest"],
            b["committed pipeline"] == b0, b["yielded pipeline"] == b0))
    S.run("state_dict / load_state_dict", h_save_load)

    def h_load_refused(version, algorithm, digest):
        def h():
            c = ctx()
            p = planner(True, live="any")
            load_ready(p)
            a = snap(p)
            sig = SymInt(c.fresh(I, "other_sig"))
            state = State(STATE.fresh("st"))
            blob = BLOB.fresh("hex")
            st = {"version": version, "planner_algorithm": algorithm, "signature": {"sig": sig}, "cursor": state,
                  "cursor_digest": {"ok": DIGEST.fresh("d"), "short": "ab", "none": None}[digest],
                  "pipeline_state": HexText(blob.t)}
            good = version == 3 and algorithm == m.PLANNER_ALGORITHM and digest == "ok"
            try:
                p.load_state_dict(st)
            except (RuntimeError, ValueError):
                same("load(refused): nothing is applied", a, snap(p))
                if good:
                    S.prove("load: only a foreign state is refused", z3.Or(sig.t != p.sig.t, z3.Not(VALID(UNHEX(blob.t)))))
                return
            S.prove("load: the state belongs to this stream", z3.And(z3.BoolVal(good), sig.t == p.sig.t))
        return h
    for v, al, d in ((3, "dataset-planner-v2", "ok"), (2, "dataset-planner-v2", "ok"), (None, "dataset-planner-v2", "ok"),
                     (3, "dataset-planner-v1", "ok"), (3, "dataset-planner-v2", "short"), (3, "dataset-planner-v2", "none")):
        S.run(f"load_state_dict[version {v}, {al}, digest {d}]", h_load_refused(v, al, d))

    restore_part(S)


# ====================================================================== state() / restore()
KEY, PAYLOAD = TOpaque("RecordKey"), TOpaque("Payload")


class Env:
    def __init__(self, source_id, record_key, shape_code, payload, resident_bytes):
        self.source_id, self.record_key, self.shape_code = source_id, record_key, shape_code
        self.payload, self.resident_bytes = payload, resident_bytes


ENV = TRec(Env, {"source_id": INT, "record_key": KEY, "shape_code": INT, "payload": PAYLOAD, "resident_bytes": INT})


def restore_part(S):
    w = World(loops={})
    m = w.module(MOD)
    P = m.DatasetPlanner
    CUR, RES = TOpaque("Cursor"), TOpaque("ReservoirContent")
    SAVE, REST = z3.Function("save_cursor", CUR.sorts[0], CUR.sorts[0]), z3.Function("restore_cursor", CUR.sorts[0], CUR.sorts[0])

    class ObjState:
        """Snapshot token of a reservoir."""

        def __init__(self, t, closed):
            self.t, self.closed = t, closed

    class PackedState(ObjState):
        pass

    class PackedReady:
        def __init__(self, seq):
            self.seq = seq

        @staticmethod
        def __pyvc_len__(s):
            return SymInt(s.seq.n)
    m.PackedReservoirState, m.PackedReadyState = PackedState, PackedReady

    class Reservoir:
        def __init__(self, packed, t=None, closed=None):
            self.packed = packed
            self.t, self.closed_ = t, closed
        closed = property(lambda s: s.closed_)

        def state(self):
            return (PackedState if self.packed else ObjState)(self.t, self.closed_)

        def restore(self, s):
            self.t, self.closed_ = s.t, s.closed

        def drain(self):
            return []

    class PackedBuf:
        def __init__(self):
            self.seq = SymList.of(INT, [], [], list)

        def state(self):
            return PackedReady(self.seq.snapshot(tuple))

        def restore(self, st):
            self.seq = st.seq.snapshot(list)

        def clear(self):
            self.seq = SymList.of(INT, [], [], list)

        def extend(self, x):
            raise AssertionError

        @staticmethod
        def __pyvc_len__(b):
            return SymInt(b.seq.n)

    class Src:
        class capabilities:
            resumable = True
        closed_cursors = 0

        def start_epoch(self, epoch, rank):
            return CUR.fresh("start")

        def save_cursor(self, c):
            return SymVal(SAVE(c.t))

        def restore_cursor(self, s):
            return SymVal(REST(s.t))

    class Closing(Src):
        def close_cursor(self, c):
            pass

    class Runtime:
        rank, mode = 0, "train"

    class Config:
        def __init__(self, t, steps):
            self.t = t
            self.steps_per_epoch = steps
            self.max_shape_queues = TInt(lo=1).fresh("max_queues")
            self.shuffle = True

        def __eq__(self, o):
            return self.t == o.t

        def __ne__(self, o):
            return self.t != o.t
        __hash__ = None

    def planner(packed, queues, steps, closing, batch, cfg=None):
        c = ctx()
        p = P.__new__(P)
        p.source = (Closing if closing else Src)()
        p.runtime_context = Runtime()
        p.config = cfg or Config(INT.fresh("config"), TInt(lo=1).fresh("steps") if steps else None)
        p._manifest_digest = INT.fresh("manifest")
        p._rank_sharded, p._packed_uniform, p._uniform_shape_code = False, packed, None
        p._epoch, p._batch_index, p._source_cycle = NAT.fresh("epoch"), NAT.fresh("bi"), NAT.fresh("cycle")
        p._source_cursor = CUR.fresh("cursor")
        closed = BOOL.fresh("closed")
        p._reservoir = Reservoir(packed, RES.fresh("res"), closed)
        p._ready = SymList.fresh(ENV, "ready", kind=DequeKind) if not packed else SymList.of(ENV, [], [], DequeKind)
        p._packed_ready = PackedBuf()
        if packed:
            p._packed_ready.seq = SymList.fresh(INT, "ready", kind=list)
        p._shape_queues = {}
        for k in range(queues):
            ql = SymList.fresh(ENV, f"queue{k}", kind=list)
            p._shape_queues[k * 4 + 3] = ql
            j = z3.Int("j_q")
            c.add(z3.And(ql.n >= 1, ql.n < batch.t, z3.ForAll([j], z3.Implies(
                z3.And(j >= 0, j < ql.n), ql.arrs[2][ql.lo + j] == k * 4 + 3))))
        c.add(int_term(p.config.max_shape_queues) >= queues)
        p._source_exhausted = closed
        p._finished = BOOL.fresh("finished")
        rn = p._packed_ready.seq.n if packed else p._ready.n
        # the planner's own invariant (D04): a finished epoch has nothing left; the budget is respected
        c.add(z3.Implies(to_bool_term(p._finished), z3.And(to_bool_term(closed), rn == 0, z3.BoolVal(queues == 0))))
        if p.config.steps_per_epoch is not None:
            s = int_term(p.config.steps_per_epoch)
            c.add(z3.And(int_term(p._batch_index) <= s, z3.Implies(int_term(p._batch_index) == s, to_bool_term(p._finished))))
        p._new_reservoir = lambda cycle: Reservoir(packed, RES.fresh("empty"), False)
        P.planning_batch_size = property(lambda s: batch)
        return p

    def position(p):
        return [("epoch", int_term(p._epoch)), ("batch index", int_term(p._batch_index)), ("cycle", int_term(p._source_cycle)),
                ("cursor", p._source_cursor.t), ("reservoir", p._reservoir.t.t), ("reservoir closed", to_bool_term(p._reservoir.closed_)),
                ("exhausted", to_bool_term(p._source_exhausted)), ("finished", to_bool_term(p._finished))]

    def lists(p):
        out = [("ready", p._packed_ready.seq if p._packed_uniform else p._ready)]
        return out + [(f"queue {k}", v) for k, v in sorted(p._shape_queues.items())]

    def seq_same(label, a, b):
        k = z3.Int("k_seq")
        S.prove(f"{label}: same length", a.n == b.n)
        for j, (x, y) in enumerate(zip(a.arrs, b.arrs)):
            S.prove(f"{label}: same elements ({j})", z3.ForAll([k], z3.Implies(
                z3.And(k >= 0, k < a.n), x[a.lo + k] == y[b.lo + k])))

    def h_round(packed, queues, steps, closing):
        def h():
            c = ctx()
            batch = TInt(lo=1).fresh("batch")
            p = planner(packed, queues, steps, closing, batch)
            c.add(REST(SAVE(p._source_cursor.t)) == p._source_cursor.t)
            before, seqs = position(p), [(n, s.snapshot()) for n, s in lists(p)]
            st = p.state()
            for (n, x), (_, y) in zip(before, position(p)):
                S.prove(f"state(): reading does not move the {n}", x == y)
            q = planner(packed, 0, steps, closing, batch, cfg=p.config)
            q._manifest_digest = p._manifest_digest
            q.restore(st)                       # a refusal would be an uncaught exception
            for (n, x), (_, y) in zip(before, position(q)):
                S.prove(f"restore(state()): same {n}", x == y)
            S.prove("restore(state()): same queues", z3.BoolVal(list(q._shape_queues) == list(p._shape_queues)))
            for (n, x), (_, y) in zip(seqs, lists(q)):
                seq_same(f"restore(state()): {n}", x, y)
        return h
    for packed, queues, steps, closing in ((False, 0, False, False), (False, 1, True, True), (False, 2, False, True),
                                           (False, 0, True, False), (True, 0, False, True), (True, 0, True, False)):
        S.run(f"state/restore[{'packed' if packed else 'objects'}, {queues} queues{', budget' if steps else ''}]",
              h_round(packed, queues, steps, closing))

    def h_fresh():
        """What is restored replaces whatever the planner held before."""
        c = ctx()
        batch = TInt(lo=1).fresh("batch")
        p = planner(False, 1, False, False, batch)
        q = planner(False, 2, False, True, batch, cfg=p.config)
        q._manifest_digest = p._manifest_digest
        c.add(REST(SAVE(p._source_cursor.t)) == p._source_cursor.t)
        st = p.state()
        q.restore(st)
        S.prove("restore: no earlier queue survives", z3.BoolVal(list(q._shape_queues) == [3]))
        for (n, x), (_, y) in zip(position(p), position(q)):
            S.prove(f"restore over an active planner: same {n}", x == y)
        for (n, x), (_, y) in zip(lists(p), lists(q)):
            seq_same(f"restore over an active planner: {n}", x, y)
    S.run("restore[over an active planner]", h_fresh)

    def h_refuse(what):
        def h():
            c = ctx()
            batch = TInt(lo=1).fresh("batch")
            p = planner(False, 1, True, True, batch)
            q = planner(False, 0, True, True, batch, cfg=p.config)
            q._manifest_digest = p._manifest_digest
            st = p.state()
            import dataclasses
            bi = INT.fresh("bad_index")
            steps = int_term(p.config.steps_per_epoch)
            kw = {"schema": {"schema": "other"}, "algorithm": {"algorithm": "dataset-planner-v1"},
                  "manifest": {"manifest_digest": INT.fresh("other_manifest")},
                  "config": {"config": Config(INT.fresh("other_config"), p.config.steps_per_epoch)},
                  "index": {"batch_index": bi}, "storage": {"reservoir": PackedState(p._reservoir.t, p._reservoir.closed_)},
                  "exhausted": {"source_exhausted": BOOL.fresh("other")}, "flag": {"source_exhausted": 1},
                  "duplicate": {"shape_queues": st.shape_queues + st.shape_queues},
                  "empty queue": {"shape_queues": ((3, SymList.of(ENV, [], [], tuple)),)},
                  "foreign shape": {"shape_queues": ((4, st.shape_queues[0][1]),)},
                  "finished with work": {"finished": True}}[what]
            bad = dataclasses.replace(st, **kw)
            ok = z3.BoolVal(False)
            if what == "manifest":
                ok = kw["manifest_digest"].t == p._manifest_digest.t
            if what == "config":
                ok = kw["config"].t.t == p.config.t.t
            if what == "index":
                ok = z3.And(bi.t >= 0, z3.Or(bi.t < steps, z3.And(bi.t == steps, to_bool_term(p._finished))))
            if what == "exhausted":
                ok = to_bool_term(kw["source_exhausted"]) == to_bool_term(p._reservoir.closed_)
            pos, seqs = position(q), [(n, s.snapshot()) for n, s in lists(q)]
            try:
                q.restore(bad)
            except (ValueError, TypeError):
                for (n, x), (_, y) in zip(pos, position(q)):
                    S.prove(f"refused state ({what}): {n} untouched", x == y)
                S.prove(f"refused state ({what}): queues untouched", z3.BoolVal(not q._shape_queues))
                for (n, x), (_, y) in zip(seqs, lists(q)):
                    seq_same(f"refused state ({what}): {n} untouched", x, y)
                return
            S.prove(f"a state with another {what} is refused", ok)
        return h
    for what in ("schema", "algorithm", "manifest", "config", "index", "storage", "exhausted", "flag", "duplicate",
                 "empty queue", "foreign shape", "finished with work"):
        S.run(f"restore[refuses: {what}]", h_refuse(what))


if __name__ == "__main__":
    from specs.common import main
    main(prove)
