"""D11 - prefetching never changes the order or content of batches."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymInt, SymBool, LazySeq, INT, NAT, BOOL, int_term, to_bool_term
from pyvc.load import World, LoopSpec
from pyvc import shims

MOD = "dataset.source_dataset"
TRUSTED = ["concurrent.futures: submit(fn, x).result() returns fn(x) or raises what fn(x) raised, in whatever order workers finish",
           "planner.next_transactional_batch returns the batches of the epoch one after the other, rollback_uncommitted returns to the last "
           "commit (D04, D05)",
           "source materialization is a function of the envelopes (D06-D08)"]
q = f"{MOD}:SourceBatchDataset."
skip = lambda v: None
I, B = z3.IntSort(), z3.BoolSort()
KNOWN = z3.Bool("the_last_batch_is_known_to_be_last")


class WorkerError(Exception):
    pass


class PlanError(Exception):
    pass


class Ghost:
    """What happened so far, seen from outside."""
    __pyvc_heap__ = True


class Batch:
    def __init__(self, k, last=None):
        self.k, self.last = k, last
    is_last = property(lambda s: SymBool(s.last))


class Token:
    def __init__(self, k, final=z3.BoolVal(False), piped=False):
        self.k, self.final, self.piped = k, final, piped


class Data:
    def __init__(self, k, stages=()):
        self.k, self.stages = k, tuple(stages)


class Part:
    """One component of batch k (mask, keys, envelopes)."""

    def __init__(self, what, k):
        self.what, self.k = what, k


class Context:
    def __init__(self, mode):
        self.mode = mode


class Run(LazySeq):
    """f(start), ..., f(start+n-1)"""
    __pyvc_heap__ = True

    def __init__(self, start, n, f):
        self.start, self.n, self.f = start, n, f

    def length(self):
        return SymInt(z3.simplify(self.n))

    def at(self, i):
        return self.f(z3.simplify(self.start + i))

    def __iter__(self):
        i = 0
        while ctx().decide(self.n > i):
            yield self.at(z3.IntVal(i))
            i += 1


class Items(Run):
    """The list of (batch, token) pairs a chunk collects."""

    def append(self, pair):
        b, t = pair
        ctx().session.prove("chunk: batches are collected in planning order", z3.And(b.k == self.start + self.n, t.k == b.k))
        self.n = z3.simplify(self.n + 1)


class Pending:
    """The queue of submitted chunks: batches [head, tail), each chunk a contiguous nonempty run of them."""
    __pyvc_heap__ = True

    def __init__(self, *a):
        if a:
            raise Unsupported("deque with initial content")
        self.head = self.tail = SymInt(z3.IntVal(0))

    def __bool__(self):
        return ctx().decide(self.head.t < self.tail.t)

    @staticmethod
    def __pyvc_len__(s):
        raise Unsupported("number of chunks")

    def append(self, chunk):
        S = ctx().session
        items, future = chunk
        G = ctx().ghost["G"]
        n = int_term(shims.s_len(items))
        j = ctx().fresh(I, "any_item")
        S.prove("submit: a chunk is not empty", n > 0)
        a = fetch(items, j)
        S.prove("submit: chunks follow each other without gap or overlap", z3.Implies(z3.And(j >= 0, j < n), z3.And(
            a[0].k == self.tail.t + j, a[1].k == self.tail.t + j)))
        S.prove("submit: the worker decodes exactly the batches of its chunk", z3.And(future.start == self.tail.t, future.n == n))
        S.prove("submit: no more batches submitted but unpublished than configured",
                self.tail.t + n - int_term(G.published) <= int_term(G.limit))
        self.tail = SymInt(z3.simplify(self.tail.t + n))

    def popleft(self):
        c = ctx()
        n = c.fresh(I, "chunk_length")
        c.add(z3.And(n >= 1, n <= self.tail.t - self.head.t))
        a = self.head.t
        self.head = SymInt(z3.simplify(a + n))
        return Run(a, n, pair), Future(a, n)

    def pop(self):
        raise Unsupported("the newest chunk first")


def lazy(m):
    """Mapped sequences stay maps: element i is the mapped element i (the mapping has no effects in the contracts here)."""
    base = m.__dict__["__pyvc_comp__"]
    m.__dict__["__pyvc_comp__"] = lambda kind, f, src, cond: (
        LazySeq(src, f) if isinstance(src, LazySeq) and cond is None and kind in ("list", "gen") else base(kind, f, src, cond))
    m.tuple = lambda *a: a[0] if a and isinstance(a[0], LazySeq) else shims.S_tuple(*a)
    return m


def fetch(seq, j):
    if isinstance(seq, LazySeq):
        return seq.at(j)
    if len(seq) == 1:
        return seq[0]
    raise Unsupported("a chunk that is not a run")


def last_flag(k):
    G = ctx().ghost["G"]
    return k == int_term(G.total) - 1


def pair(k):
    """What _planned_transactions yields as its k-th item (proved below)."""
    return Batch(k, last_flag(k)), Token(k, last_flag(k))


class Future:
    def __init__(self, start, n):
        self.start, self.n = start, n

    def result(self):
        c = ctx()
        if c.decide(c.fresh(B, "worker_failed")):
            c.session.prove("a worker error surfaces only after all earlier chunks were published",
                            int_term(c.ghost["G"].published) == self.start)
            raise WorkerError()
        return Run(self.start, self.n, decoded)


def decoded(k):
    return Data(k), Part("mask", k), Part("keys", k)


class Executor:
    def __init__(self, max_workers=None):
        ctx().session.prove("pool: as many workers as configured", int_term(max_workers) == int_term(ctx().ghost["G"].workers))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def submit(self, fn, *args):
        S = ctx().session
        G = ctx().ghost["G"]
        S.prove("submit: workers run the decoder", z3.BoolVal(getattr(fn, "__func__", None) is G.decoder and len(args) == 1))
        batches = args[0]
        n = int_term(shims.s_len(batches))
        first = fetch(batches, z3.IntVal(0)).k
        j = ctx().fresh(I, "any_batch")
        S.prove("submit: a worker gets consecutive batches", z3.Implies(z3.And(j >= 0, j < n), fetch(batches, j).k == first + j))
        return Future(first, n)


class Planned:
    """Contract of _planned_transactions (proved in its own right)."""
    __pyvc_heap__ = True

    def __iter__(self):
        return self

    def __next__(self):
        c = ctx()
        G = c.ghost["G"]
        k = int_term(G.drawn)
        if c.decide(c.fresh(B, "planning_failed")):
            raise PlanError()
        if not c.decide(k < int_term(G.total)):
            raise StopIteration
        G.drawn = SymInt(z3.simplify(k + 1))
        return pair(k)


def ghost(**kw):
    G = ctx().ghost["G"] = Ghost()
    for k, v in kw.items():
        setattr(G, k, v)
    return G


# ---------------------------------------------------------------- the prefetching reader
def prefetch(S):
    def common(L, published, in_flight):
        G = ctx().ghost["G"]
        P = L.pending
        lim = int_term(L.self.prefetch_batches)
        yield "chunks are queued in order", z3.And(P.head.t >= 0, P.head.t <= P.tail.t, P.tail.t <= int_term(G.total))
        yield "everything drawn is queued or published", int_term(G.drawn) == P.tail.t
        yield "published in order", int_term(G.published) == published
        yield "batches in flight are counted", int_term(L.pending_batches) == P.tail.t - published
        yield "no more in flight than configured", z3.And(int_term(L.pending_batches) >= 0, int_term(L.pending_batches) <= lim)
        yield "exhausted only at the end of the epoch", z3.Implies(to_bool_term(L.exhausted), P.tail.t == int_term(G.total))
        yield "an epoch has batches", z3.Or(int_term(G.total) > 0, z3.Not(to_bool_term(L.exhausted)))

    def inv_fill(L):
        yield from common(L, L.pending.head.t, True)

    def inv_main(L):
        yield from common(L, L.pending.head.t, True)
        yield "an empty queue means the epoch is over", z3.Implies(L.pending.head.t == L.pending.tail.t, to_bool_term(L.exhausted))

    def inv_pub(L):
        d = L.decoded_batches
        yield from common(L, d.start + L.i.t, True)
        yield "the current chunk is the one before the queue", z3.And(L.pending.head.t == d.start + d.n, L.i.t <= d.n)

    def inv_chunk(L):
        G = ctx().ghost["G"]
        P, it = L.pending, L.items
        n = it.n if isinstance(it, Items) else z3.IntVal(len(it))
        if isinstance(it, Items):
            yield "the chunk starts where the queue ends", it.start == P.tail.t
        yield "the chunk holds what was drawn", z3.And(n == L.i.t, int_term(G.drawn) == P.tail.t + n, int_term(G.drawn) <= int_term(G.total))
        yield "not exhausted while drawing", z3.Not(to_bool_term(L.exhausted))

    heap = lambda L: [("attr", ctx().ghost["G"], "drawn", INT), ("attr", ctx().ghost["G"], "published", INT),
                      ("attr", L.pending, "head", INT), ("attr", L.pending, "tail", INT)]
    types = {"pending": lambda v: v, "planned": lambda v: v, "items": skip, "future": skip, "batch": skip, "token": skip, "decoded": skip,
             "decoded_batches": skip, "exhausted": BOOL, "pending_batches": INT}
    more = lambda L: (int_term(L.self.prefetch_batches) - int_term(L.pending_batches), z3.If(to_bool_term(L.exhausted), z3.IntVal(0), z3.IntVal(1)))
    progress = lambda L: (z3.If(to_bool_term(L.exhausted), z3.IntVal(0), z3.IntVal(1)), int_term(L.self.prefetch_batches) - int_term(L.pending_batches))
    p = q + "_iter_prefetched"
    w = World(loops={
        p + "#0": LoopSpec(inv=inv_fill, havoc=heap, types=types, variant=progress),
        p + "#1": LoopSpec(inv=inv_main, havoc=heap, types=types),
        p + "#2": LoopSpec(inv=inv_pub, havoc=lambda L: [("attr", ctx().ghost["G"], "published", INT)],
                           types={**types, "exhausted": lambda v: v, "decoded_batches": lambda v: v, "items": lambda v: v}),
        p + "#3": LoopSpec(inv=inv_fill, havoc=heap, types=types, variant=progress),
        p + ".submit_chunk#0": LoopSpec(inv=inv_chunk, havoc=lambda L: [("attr", ctx().ghost["G"], "drawn", INT)],
                                        types={**types, "items": lambda v: Items(L_tail(), ctx().fresh(I, "chunk"), pair),
                                               "pending_batches": lambda v: v, "pending": lambda v: v}),
    })
    m = lazy(w.module(MOD))
    m.deque = lambda *a: ctx().ghost.setdefault("P", Pending(*a))
    m.ThreadPoolExecutor = Executor
    cls = m.SourceBatchDataset

    def L_tail():
        return ctx().ghost["P"].tail.t

    class Envelope:
        def __init__(self, k):
            self.k = k

    def publish(self, batch, token, dec):
        G = ctx().ghost["G"]
        k = int_term(G.published)
        data, mask, keys = dec
        S.prove("publish: the next batch in planning order, with its own token and data",
                z3.And(batch.k == k, token.k == k, data.k == k, mask.k == k, keys.k == k, k < int_term(G.total)))
        G.published = SymInt(z3.simplify(k + 1))
        return Envelope(k)
    Sub = type("Sub", (cls,), {"_publish": publish, "_planned_transactions": lambda self: Planned()})

    def run(step):
        def h():
            c = ctx()
            limit, workers, total = NAT.fresh("prefetch_batches"), NAT.fresh("workers"), NAT.fresh("total")
            c.add(z3.And(limit.t >= 1, workers.t >= 1, total.t >= 1))
            self = object.__new__(Sub)
            self.prefetch_batches, self._effective_prefetch_workers = limit, workers
            G = ghost(drawn=SymInt(z3.IntVal(0)), published=SymInt(z3.IntVal(0)), limit=limit, total=total, workers=workers,
                      decoder=cls._decode_batches)
            it = self._iter_prefetched()
            try:
                for _ in range(2):
                    e = next(it)
                    S.prove("delivered: what was published", e.k == int_term(G.published) - 1)
            except StopIteration:
                S.prove("the reader ends only when every batch was published", int_term(G.published) == total.t)
            except (WorkerError, PlanError):
                S.prove("after an error nothing more is published", int_term(G.published) <= total.t)
        return h
    S.run("_iter_prefetched", run(0))


# ---------------------------------------------------------------- read-ahead by one
class Planner:
    """Batches 0..total-1; the last may or may not be known as last when it is planned."""
    __pyvc_heap__ = True
    pipeline_composer = None

    def __init__(self, G, mode):
        self.G, self.runtime_context = G, Context(mode)

    def next_transactional_batch(self):
        c = ctx()
        G = self.G
        k = int_term(G.planned)
        if c.decide(c.fresh(B, "planning_failed")):
            raise PlanError()
        S = c.session
        S.prove("planning reads at most one batch ahead", k <= int_term(G.delivered) + 1)
        if not c.decide(k < int_term(G.total)):
            return None
        G.planned = SymInt(z3.simplify(k + 1))
        return Batch(k, z3.And(KNOWN, k == int_term(G.total) - 1)), Token(k, z3.And(KNOWN, k == int_term(G.total) - 1))

    def finalize_terminal_token(self, token):
        S = ctx().session
        total = int_term(self.G.total)
        S.prove("only the newest batch of a finished epoch becomes the last", z3.And(token.k == total - 1, int_term(self.G.planned) == total))
        return Batch(token.k, z3.BoolVal(True)), Token(token.k, z3.BoolVal(True), token.piped)

    def local_slice(self, batch):
        return Part("envelopes", batch.k), Part("mask", batch.k)

    def prepare_pipeline_batch(self, batch, token, data, keys):
        S = ctx().session
        S.prove("the pipeline sees each batch once, in order, with its own rows", z3.And(
            batch.k == int_term(self.G.piped), token.k == batch.k, data.k == batch.k, keys.k == batch.k,
            z3.BoolVal(data.stages == ("finalized",) and not token.piped)))
        self.G.piped = SymInt(z3.simplify(int_term(self.G.piped) + 1))
        return Data(data.k, data.stages + ("piped",)), Token(token.k, token.final, True)

    def commit_batch(self, token):
        S = ctx().session
        S.prove("an evaluation batch is committed with its final token, in order", z3.And(
            token.k == int_term(self.G.committed), z3.BoolVal(token.piped),
            z3.Implies(token.k == int_term(self.G.total) - 1, token.final)))
        S.prove("training batches are committed by the trainer alone", z3.BoolVal(self.runtime_context.mode != "train"))
        self.G.committed = SymInt(z3.simplify(token.k + 1))

    finished = False


class Source:
    """materialization contracts by batch; `has` says which optional methods exist."""

    def __init__(self, has, wrong=False):
        if "mk" in has:
            self.materialize_batch_with_keys = lambda e: (Data(e.k), Part("keys", e.k))
        if "mbk" in has:
            self.materialize_batches_with_keys = lambda es: self.many(es, lambda e: (Data(e.k), Part("keys", e.k)))
        if "mb" in has:
            self.materialize_batches = lambda es: self.many(es, lambda e: Data(e.k))
        if "sk" in has:
            self.sample_keys_for_batch = lambda e: Part("keys", e.k)
        self.wrong = wrong

    def many(self, es, f):
        if self.wrong:
            n = ctx().fresh(I, "returned")
            ctx().add(n >= 0)
            return Run(z3.IntVal(0), n, lambda k: f(Part("envelopes", k)))
        return LazySeq(es, f)

    def materialize_batch(self, e):
        return Data(e.k)


def keys_of(self, envelopes):
    return Part("keys", envelopes.k)


def plan(S):
    def inv(L):
        G = ctx().ghost["G"]
        cur = L.current
        if cur is None:
            yield "there is a current batch", z3.BoolVal(False)
            return
        b, t = cur
        k, total = int_term(G.delivered), int_term(G.total)
        yield "the next batch to deliver is the one just planned", z3.And(b.k == k, t.k == k, int_term(G.planned) == k + 1, k >= 0, k < total)
        yield "it is the last only at the end", z3.And(b.last == z3.And(KNOWN, k == total - 1), t.final == b.last)
        yield "decoded and piped up to it", z3.And(int_term(G.piped) == z3.If(ctx().ghost["sync"], k, 0))
        yield "committed up to it", z3.And(int_term(G.committed) == z3.If(ctx().ghost["commits"], k, 0))

    def fresh_current(v):
        c = ctx()
        G = c.ghost["G"]
        k, last = c.fresh(I, "k"), c.fresh(B, "last")
        return Batch(k, last), Token(k, last)
    heap = lambda L: [("attr", ctx().ghost["G"], n, INT) for n in ("planned", "delivered", "piped", "committed")]
    types = {"current": fresh_current, "batch": skip, "token": skip, "following": skip, "decoded": skip, "data": skip, "mask": skip,
             "sample_keys": skip}
    w = World(loops={q + n + "#0": LoopSpec(inv=inv, havoc=heap, types=types) for n in ("_planned_transactions", "_iter_synchronous")})
    m = lazy(w.module(MOD))
    cls = m.SourceBatchDataset

    def start(sync, mode, **kw):
        c = ctx()
        zero = lambda: SymInt(z3.IntVal(0))
        total = NAT.fresh("total")
        G = ghost(planned=zero(), delivered=zero(), piped=zero(), committed=zero(), total=total)
        c.ghost["sync"], c.ghost["commits"] = z3.BoolVal(sync), z3.BoolVal(sync and mode != "train")
        self = object.__new__(kw.get("cls", cls))
        self.planner = Planner(G, mode)
        self.finalize_batch = lambda data: Data(data.k, data.stages + ("finalized",))
        self._finalize_in_prefetch = False
        self.source = kw.get("source")
        return self, G, total

    def h_plan():
        self, G, total = start(False, "train")
        it = self._planned_transactions()
        try:
            for _ in range(2):
                b, t = next(it)
                k = int_term(G.delivered)
                S.prove("plan: batches are handed out in order, each with its token", z3.And(b.k == k, t.k == k))
                S.prove("plan: exactly the final batch says it is the last", z3.And(b.last == (k == total.t - 1), t.final == b.last))
                G.delivered = SymInt(z3.simplify(k + 1))
        except StopIteration:
            S.prove("plan: the epoch ends after its last batch", int_term(G.delivered) == total.t)
            S.prove("plan: an empty epoch is an error", total.t > 0)
        except RuntimeError:
            S.prove("plan: only an empty epoch is an error", total.t == 0)
        except PlanError:
            pass
    S.run("_planned_transactions", h_plan)

    def h_sync(mode):
        def h():
            def decode(self, batch):
                return decoded(batch.k)
            self, G, total = start(True, mode, cls=type("Sub", (cls,), {"_decode_batch": decode}))
            m.BatchEnvelope = Envelope
            it = self._iter_synchronous()
            try:
                for _ in range(2):
                    e = next(it)
                    k = int_term(G.delivered)
                    whole(S, "synchronous", e, k, total.t)
                    S.prove("synchronous: committed exactly when not training", int_term(G.committed) == (0 if mode == "train" else k + 1))
                    G.delivered = SymInt(z3.simplify(k + 1))
            except StopIteration:
                S.prove("synchronous: the epoch ends after its last batch", int_term(G.delivered) == total.t)
                S.prove("synchronous: an empty epoch is an error", total.t > 0)
            except RuntimeError:
                S.prove("synchronous: only an empty epoch is an error", total.t == 0)
            except PlanError:
                pass
        return h
    for mode in ("train", "valid"):
        S.run(f"_iter_synchronous[{mode}]", h_sync(mode))


class Envelope:
    def __init__(self, data, token, is_real, sample_keys):
        self.data, self.token, self.is_real, self.sample_keys = data, token, is_real, sample_keys


def whole(S, name, e, k, total):
    S.prove(f"{name}: rows, mask, keys and token of one batch", z3.And(
        e.data.k == k, e.token.k == k, e.is_real.k == k, e.sample_keys.k == k,
        z3.BoolVal(e.is_real.what == "mask" and e.sample_keys.what == "keys")))
    S.prove(f"{name}: finalized once, then piped once", z3.BoolVal(e.data.stages == ("finalized", "piped") and e.token.piped))
    S.prove(f"{name}: the final batch carries the final token", z3.Implies(k == total - 1, e.token.final))


# ---------------------------------------------------------------- one batch
def one_batch(S):
    w = World()
    m = lazy(w.module(MOD))
    cls = m.SourceBatchDataset
    m.BatchEnvelope = Envelope

    def setup(has=(), mode="train", ahead=False, wrong=False):
        zero = lambda: SymInt(z3.IntVal(0))
        G = ghost(planned=zero(), delivered=zero(), piped=zero(), committed=zero(), total=NAT.fresh("total"))
        self = object.__new__(cls)
        self.planner = Planner(G, mode)
        self.source = Source(has, wrong)
        self.finalize_batch = lambda data: Data(data.k, data.stages + ("finalized",))
        self._finalize_in_prefetch = ahead
        return self, G

    def row(name, d, k, ahead):
        data, mask, keys = d
        S.prove(f"{name}: rows, mask and keys belong to the batch", z3.And(data.k == k, mask.k == k, z3.BoolVal(mask.what == "mask")))
        if isinstance(keys, Part):
            S.prove(f"{name}: the keys are the batch's", z3.And(keys.k == k, z3.BoolVal(keys.what == "keys")))
        else:
            raise Unsupported("keys")
        S.prove(f"{name}: finalized at most once", z3.BoolVal(data.stages == (("finalized",) if ahead else ())))

    def h_one(has):
        def h():
            self, G = setup(has)
            k = NAT.fresh("k").t
            if "mk" not in has and "sk" not in has:
                self._sample_keys = lambda e: Part("keys", e.k)
            row("decode", self._decode_batch(Batch(k)), k, False)
        return h
    for has in ((), ("mk",), ("sk",)):
        S.run(f"_decode_batch{list(has)}", h_one(has))

    def h_many(has, ahead):
        def h():
            self, G = setup(has, ahead=ahead)
            if "mbk" not in has and "sk" not in has:
                self._sample_keys = lambda e: Part("keys", e.k)
            start, n, j = NAT.fresh("start").t, NAT.fresh("n").t, NAT.fresh("j").t
            out = self._decode_batches(Run(start, n, Batch))
            S.prove("decode chunk: one result per batch", int_term(shims.s_len(out)) == n)
            ctx().add(j < n)
            row("decode chunk", out.at(j), start + j, ahead)
        return h
    for has in ((), ("mb",), ("mbk",), ("sk",), ("mb", "sk"), ("mbk", "mb", "sk")):
        for ahead in (False, True):
            S.run(f"_decode_batches{list(has)}{'[finalize ahead]' if ahead else ''}", h_many(has, ahead))

    def h_wrong(has):
        def h():
            self, G = setup(has, wrong=True)
            self._sample_keys = lambda e: Part("keys", e.k)
            n = NAT.fresh("n").t
            try:
                out = self._decode_batches(Run(NAT.fresh("start").t, n, Batch))
            except RuntimeError:
                S.prove("decode chunk: a source that changes the number of batches is refused", z3.BoolVal(True))
                return
            S.prove("decode chunk: as many results as batches", int_term(shims.s_len(out)) == n)
        return h
    for has in (("mb",), ("mbk",)):
        S.run(f"_decode_batches{list(has)} (source contract broken)", h_wrong(has))

    def h_publish(mode, ahead):
        def h():
            self, G = setup((), mode, ahead)
            k = NAT.fresh("k").t
            G.piped = G.committed = SymInt(k)
            ctx().add(k < int_term(G.total))
            last = k == int_term(G.total) - 1
            d = (Data(k, ("finalized",) if ahead else ()), Part("mask", k), Part("keys", k))
            e = self._publish(Batch(k, last), Token(k, last), d)
            whole(S, "publish", e, k, int_term(G.total))
            S.prove("publish: piped once", int_term(G.piped) == k + 1)
            S.prove("publish: committed exactly when not training", int_term(G.committed) == (k if mode == "train" else k + 1))
        return h
    for mode in ("train", "valid"):
        for ahead in (False, True):
            S.run(f"_publish[{mode}{', finalized ahead' if ahead else ''}]", h_publish(mode, ahead))

    def h_keys():
        class Env:
            def __init__(self, k):
                self.record_key = SymInt(k)
        self, G = setup()
        start, n, j = NAT.fresh("start").t, NAT.fresh("n").t, NAT.fresh("j").t
        out = self._sample_keys(Run(start, n, Env))
        S.prove("keys: one per row", int_term(shims.s_len(out)) == n)
        ctx().add(j < n)
        S.prove("keys: row by row", int_term(out.at(j)) == start + j)
    S.run("_sample_keys", h_keys)


# ---------------------------------------------------------------- the whole iteration
def lifecycle(S):
    w = World()
    m = lazy(w.module(MOD))
    cls = m.SourceBatchDataset

    class Caps:
        pass

    class Pl:
        def __init__(self):
            self.log, self._source_cursor = [], "cursor"

        def begin_next_epoch(self):
            self.log.append("next epoch")

        def rollback_uncommitted(self):
            self.log.append("rollback")

    class Src:
        pass

    def h_iter(how, workers, resumable, closable):
        def h():
            c = ctx()
            self = object.__new__(cls)
            self.planner, self.source = Pl(), Src()
            done = c.decide(c.fresh(B, "finished"))
            self.planner.finished = done
            self.source.capabilities = Caps()
            self.source.capabilities.resumable = resumable
            log = self.planner.log
            if closable:
                self.source.close_cursor = lambda cur: log.append(("close", cur))
            used = []

            def reader(name):
                def gen():
                    used.append(name)
                    yield 1
                    if how == "fails":
                        raise WorkerError()
                    yield 2
                return gen
            self._iter_prefetched, self._iter_synchronous = reader("prefetch"), reader("sync")
            n = NAT.fresh("workers")
            c.add(n.t > 0 if workers else n.t == 0)
            self._effective_prefetch_workers = n
            it = iter(self)
            got = [next(it)]
            try:
                if how == "closed":
                    it.close()
                else:
                    got.append(next(it))
                    next(it)
            except StopIteration:
                S.prove("iterate: ends only after all batches", z3.BoolVal(how == "ends" and got == [1, 2]))
            except WorkerError:
                S.prove("iterate: an error reaches the caller", z3.BoolVal(how == "fails"))
            S.prove("iterate: prefetching exactly when configured", z3.BoolVal(used == (["prefetch"] if workers else ["sync"])))
            want = ["next epoch"] if done else []
            if how != "ends":
                want += ["rollback"] if resumable else [("close", "cursor")] if closable else []
            S.prove("iterate: a finished epoch is followed by the next one; an abandoned or failed iteration rolls back what was not committed",
                    z3.BoolVal(log == want))
        return h
    for how in ("ends", "fails", "closed"):
        for workers in (False, True):
            for resumable, closable in ((True, True), (True, False), (False, True), (False, False)):
                S.run(f"__iter__[{how}, workers={workers}, resumable={resumable}, closable={closable}]", h_iter(how, workers, resumable, closable))

    def h_init(composer, safe, given):
        def h():
            c = ctx()

            class P2:
                pipeline_composer = object() if composer else None

            class S2:
                pass
            src = S2()
            if safe is not None:
                src.thread_safe_materialization = safe
            n, k = INT.fresh("workers"), INT.fresh("batches")
            try:
                d = cls(P2(), src, prefetch_workers=n, prefetch_batches=k, finalize_in_prefetch=given)
            except ValueError:
                S.prove("configure: only unusable settings are refused", z3.Or(n.t < 0, k.t <= 0, z3.And(n.t > 0, z3.BoolVal(not composer and not safe))))
                return
            S.prove("configure: usable settings", z3.And(n.t >= 0, k.t > 0))
            eff = int_term(d._effective_prefetch_workers)
            S.prove("configure: no worker when a pipeline needs the order", eff == (0 if composer else n.t))
            S.prove("configure: workers only for a source that allows it", z3.Implies(eff > 0, z3.BoolVal(bool(safe))))
            S.prove("configure: finalization ahead only with workers", to_bool_term(d._finalize_in_prefetch) == z3.And(z3.BoolVal(given), eff > 0))
            S.prove("configure: depth as given", int_term(d.prefetch_batches) == k.t)
            x = object()
            S.prove("configure: by default finalization changes nothing", z3.BoolVal(d.finalize_batch(x) is x))
        return h
    for composer in (False, True):
        for safe in (None, False, True):
            for given in (False, True):
                S.run(f"__init__[pipeline={composer}, thread safe={safe}, finalize ahead={given}]", h_init(composer, safe, given))


def prove(S):
    prefetch(S)
    plan(S)
    one_batch(S)
    lifecycle(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
