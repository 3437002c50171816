"""C14 - data is committed exactly with the optimizer step that used it."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymInt, SymBool, LazySeq, INT, NAT, BOOL, int_term, to_bool_term
from pyvc.load import LoopSpec, NONE, World
from pyvc import shims

shims.MAY_LACK |= {("BaseTrainer", k) for k in ("_pending_sampler_tokens", "_pending_stream_tokens", "state")}
from specs.common import trainer_world

TRUSTED = ["accelerate: accumulate() sets sync_gradients exactly on every gradient_accumulation_steps-th entry (sync_with_dataloader is off), "
           "backward() adds the gradient of loss / gradient_accumulation_steps, step() and zero_grad() of a wrapped optimizer do nothing while sync_gradients is off",
           "commit_prepared() of a commit prepared from the current position does not fail (proved as D05/D09)"]
I, B = z3.IntSort(), z3.BoolSort()
skip = lambda v: None
SKIPPED = z3.Function("step_was_skipped", I, B)
FINITE = z3.Function("finite", I, B)
MOD = "trainer.base"
Q = MOD + ":BaseTrainer."


class Boom(BaseException):
    """Any failure of a collaborator."""


class Ghost:
    __pyvc_heap__ = True


def G():
    return ctx().ghost["G"]


def prove(S):
    train_step(S)
    phase_errors(S)
    fetch(S)
    validity(S)
    queue(S)
    metrics(S)
    clipping(S)
    loop(S)


def claim(label, f):
    ctx().session.prove(label, f if z3.is_expr(f) else z3.BoolVal(bool(f)) if not isinstance(f, SymBool) else f.t)


def may_fail(what):
    if ctx().decide(ctx().fresh(B, what.replace(" ", "_") + "_fails")):
        raise Boom(what)


class CM:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Entering(CM):
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.f()


class Profiler:
    def region(self, name):
        return CM()

    def mark_iteration(self):
        pass

    def step(self, it):
        pass


class Indexed:
    """Member k of some family (a batch, a loss, an optimizer, ...)."""

    def __init__(self, k):
        self.k = k


class Data(Indexed):
    pass


class Loss(Indexed):
    pass


class Metrics(dict):
    """The metrics of micro-batch k."""

    def __init__(self, kind, k):
        super().__init__(x=("value", kind))
        self.kind, self.k = kind, k


class Family(LazySeq):
    def __init__(self, n, make):
        self.n, self.make = n, make

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        return self.make(i)

    def __iter__(self):
        raise Unsupported("unrolled iteration")


class Total(LazySeq):
    """Sum of the metrics of the micro-batches before upto, for arbitrarily many names."""
    __pyvc_heap__ = True
    __pyvc_type__ = dict

    def __init__(self, kind, upto):
        self.kind, self.upto, self.extra = kind, upto, 0
        self.divided = SymInt(z3.IntVal(0))

    def length(self):
        return SymInt(G().names)

    def at(self, i):
        return Indexed(i)

    def __iter__(self):
        raise Unsupported("unrolled iteration over metric names")

    def __getitem__(self, key):
        if not isinstance(key, Indexed):
            raise Unsupported("metric access")
        return Sum(self, key.k)

    def __setitem__(self, key, v):
        if isinstance(key, str):
            claim("the gradient norm is reported as an auxiliary value", key == "grad_norm" and self.kind == "aux" and v == "detached norm")
            self.extra += 1
            return
        if not (isinstance(key, Indexed) and isinstance(v, Mean)):
            raise Unsupported("metric store")
        claim("a metric is replaced by its own mean", z3.And(z3.BoolVal(v.total is self), v.k == key.k))
        self.divided = SymInt(z3.If(key.k == G().watched_name, self.divided.t + 1, self.divided.t))


class Sum(Indexed):
    def __init__(self, total, k):
        self.total, self.k = total, k

    def __truediv__(self, n):
        claim("the mean is taken over the accumulated micro-batches", int_term(n) == G().gas)
        return Mean(self.total, self.k)


class Mean(Sum):
    def __truediv__(self, n):
        raise Unsupported("divided twice")


# ---------------------------------------------------------------- one training step
class Tokens:
    """The tokens of the batches fetched for this step and not committed yet."""
    __pyvc_type__ = list

    def __init__(self, kind):
        self.kind = kind

    def __bool__(self):
        return ctx().decide(G().fetched.t > 0)

    def __iter__(self):
        raise Unsupported("unrolled tokens")


class Prepared:
    token_count = 1

    def __init__(self, kind):
        self.kind = kind

    def __getattr__(self, k):
        if k in ("before_epoch", "before_offset", "after_epoch", "after_offset", "before_digest", "after_digest", "coordination_descriptor"):
            return "same"
        raise AttributeError(k)


def train_step(S):
    def opt_inv(field, count):
        def inv(L):
            g = G()
            yield f"{field} so far", z3.And(int_term(getattr(g, field)) == z3.If(z3.And(g.watched < L.i.t, count(g)), z3.IntVal(1), z3.IntVal(0)))
            yield "a step marks the state as changed", z3.Implies(g.touched.t, to_bool_term(g.x._optimizer_state_mutated))
            yield "only the last micro-batch steps", z3.Implies(g.touched.t, g.sync)
        return inv

    def heap(*fields):
        return lambda L: [("attr", G(), f, INT) for f in fields] + [("attr", G(), "touched", BOOL), ("attr", G().x, "_optimizer_state_mutated", BOOL)]

    def total(kind):
        return lambda v: Total(kind, NAT.fresh("upto"))

    def micro(L):
        g = G()
        i, last = L.i.t, L.i.t == g.gas
        one = z3.If(last, z3.IntVal(1), z3.IntVal(0))
        yield "nothing is stepped before the last micro-batch, everything once after it", z3.And(
            g.steps.t == one, g.zeros.t == one, g.scheds.t == z3.If(z3.And(last, z3.Not(SKIPPED(g.watched))), z3.IntVal(1), z3.IntVal(0)))
        yield "one batch, one backward pass per micro-batch", z3.And(
            g.backwards.t == i, g.fetched.t == z3.If(i == 0, z3.IntVal(1), i), g.micro.t == i, z3.Not(g.open))
        yield "a step marks the state as changed", z3.Implies(g.touched.t, to_bool_term(g.x._optimizer_state_mutated))
        yield "touched only by the last micro-batch", z3.Implies(z3.Not(last), z3.Not(g.touched.t))
        yield "the data at hand is that of the micro-batch before", z3.And(z3.BoolVal(isinstance(L.data, Data)), L.data.k == z3.If(i == 0, z3.IntVal(0), i - 1))
        for n, kind in (("total_loss_dict", "loss"), ("total_aux_dict", "aux")):
            v = getattr(L, n)
            if isinstance(v, Total):
                yield f"{kind} metrics so far", z3.And(v.upto.t == i, v.divided.t == 0, z3.BoolVal(v.extra == 0 and v.kind == kind))
            else:
                yield f"{kind} metrics start empty", z3.And(z3.BoolVal(v == {}), i == 0)
        for n, kind in (("prepared_stream_commit", "stream"), ("prepared_sampler_commit", "sampler")):
            v = getattr(L, n)
            yield f"the {kind} commit is prepared by the last micro-batch", z3.And(
                z3.BoolVal(v is None or (isinstance(v, Prepared) and v.kind == kind)), z3.BoolVal(v is not None) == z3.And(last, z3.BoolVal(g.kind == kind)))
        yield "a gradient norm exists after the last micro-batch only", z3.BoolVal(L.final_grad_norm is not None) == last
        yield "the commit is prepared at most once", g.prepared.t == (one if g.kind else 0)
        yield "finite results are asked for once", z3.Implies(g.scaler_off, g.judged.t == one)
    may = lambda make: lambda v: make() if ctx().decide(ctx().fresh(B, "set")) else NONE

    class Norm:
        def detach(self):
            return "detached norm"
    names = "step_errors extra_kwargs loss loss_dict aux_dict loss_schema loss_errors aux_schema aux_errors metric_values metric_schema " \
            "defer_finite mutation_errors pending_tokens descriptor descriptors pending_sampler_tokens sampler_descriptor sampler_descriptors " \
            "opt name sched exc".split()
    micro_spec = LoopSpec(inv=micro, havoc=heap("steps", "zeros", "scheds", "backwards", "fetched", "micro", "prepared", "judged"), types={
        **{n: skip for n in names}, "total_loss_dict": total("loss"), "total_aux_dict": total("aux"),
        "prepared_stream_commit": may(lambda: Prepared("stream")), "prepared_sampler_commit": may(lambda: Prepared("sampler")),
        "final_grad_norm": may(Norm), "data": lambda v: Data(ctx().fresh(I, "data"))})

    def divide(L):
        g = G()
        yield "names before this one are averaged", L.metric_dict.divided.t == z3.If(g.watched_name < L.i.t, z3.IntVal(1), z3.IntVal(0))
    loops = {Q + "_run_train_step#0": micro_spec,
             Q + "_run_train_step#1": LoopSpec(inv=opt_inv("steps", lambda g: g.sync), havoc=heap("steps"), types={"opt": skip}),
             Q + "_run_train_step#2": LoopSpec(inv=opt_inv("scheds", lambda g: z3.Not(SKIPPED(g.watched))), havoc=heap("scheds"), types={"name": skip, "sched": skip}),
             Q + "_run_train_step#3": LoopSpec(inv=opt_inv("zeros", lambda g: g.sync), havoc=heap("zeros"), types={"opt": skip}),
             Q + "_run_train_step#5": LoopSpec(inv=divide, havoc=lambda L: [("attr", L.metric_dict, "divided", INT)], types={"k": skip})}
    w = trainer_world(loops)
    m = w.module(MOD)
    cls = m.BaseTrainer
    m.apply_weight_clipping = lambda groups: G().log.append("clip weights") or claim("weights are clipped before the forward pass only", G().backwards.t == 0)
    m.clear_ddp_preinit_gradients = lambda p: None

    def add(total, d):
        if not (isinstance(total, Total) and isinstance(d, Metrics)):
            raise Unsupported("metric accumulation")
        claim("every micro-batch is counted once", z3.And(z3.BoolVal(total.kind == d.kind), total.upto.t == d.k))
        total.upto = SymInt(z3.simplify(total.upto.t + 1))
    m.add_dict_to = add

    def gather(v):
        return [v[0], v[0] if ctx().decide(ctx().fresh(B, "ranks_agree")) else "different"]
    m.gather_object = gather

    def h(kind, world, scaler, clip, bad=None):
        def go():
            c = ctx()
            g = c.ghost["G"] = Ghost()
            zero = lambda: SymInt(z3.IntVal(0))
            g.gas, g.names, g.watched_name = NAT.fresh("gas").t, NAT.fresh("names").t, z3.Int("watched_name")
            n, g.watched = NAT.fresh("optimizers").t, z3.Int("watched_optimizer")
            c.add(z3.And(g.gas >= 1, g.watched >= 0, g.watched < n, g.watched_name >= 0, g.watched_name < g.names))
            for f in ("steps", "zeros", "scheds", "backwards", "micro", "prepared", "judged", "commits"):
                setattr(g, f, zero())
            g.fetched = SymInt(z3.IntVal(1))
            g.touched = SymBool(z3.BoolVal(False))
            g.open, g.sync, g.kind, g.log, g.scaler_off = z3.BoolVal(False), z3.BoolVal(False), kind, [], z3.BoolVal(scaler is None)
            g.after_hook = False
            x = g.x = object.__new__(cls)
            x._optimizer_state_mutated, x._known_divergent = False, False
            x.profiler, x.models = Profiler(), {"m": "model"}
            x._weight_clip_groups = ["g"] if clip else []
            x.clip_grad_norm = 1.0 if clip else None
            x.gradient_accumulation_steps = SymInt(g.gas)

            class State:
                iteration, epoch = 5, "epoch before"
            x.state = st = State()

            class Acc:
                num_processes, process_index = world, 0
                device = m.torch.device("cpu")

                def accumulate(self, *models):
                    def enter():
                        g.micro = SymInt(z3.simplify(g.micro.t + 1))
                        g.sync = z3.simplify(g.micro.t == g.gas)
                    return Entering(enter)

                @property
                def sync_gradients(self):
                    return SymBool(g.sync)

                def autocast(self):
                    return CM()

                def backward(self, loss):
                    claim("the backward pass is that of the micro-batch's own loss", z3.And(
                        z3.BoolVal(isinstance(loss, Loss)), (loss.k if isinstance(loss, Loss) else g.backwards.t) == g.backwards.t, g.micro.t == g.backwards.t + 1))
                    may_fail("backward")
                    g.backwards = SymInt(z3.simplify(g.backwards.t + 1))
            Acc.scaler = scaler
            x.accelerator = acc = Acc()

            class Opt(Indexed):
                @property
                def step_was_skipped(self):
                    return SymBool(SKIPPED(self.k))

                def step(self):
                    claim("an optimizer steps on the gradients of all micro-batches", z3.Implies(g.sync, g.backwards.t == g.gas))
                    claim("the commit is prepared before the first step", z3.Implies(g.sync, g.prepared.t == (1 if kind else 0)))
                    claim("the finite result is asked for before the step", z3.Implies(z3.And(g.sync, g.scaler_off), g.judged.t == 1))
                    claim("a step is announced before it happens", z3.BoolVal(x._optimizer_state_mutated is True))
                    g.touched = SymBool(g.sync)
                    may_fail("step")
                    g.steps = SymInt(z3.If(z3.And(self.k == g.watched, g.sync), g.steps.t + 1, g.steps.t))

                def zero_grad(self, set_to_none=True):
                    claim("gradients are dropped after every optimizer stepped", z3.Implies(g.sync, z3.And(g.steps.t == 1)))
                    may_fail("zero_grad")
                    g.zeros = SymInt(z3.If(z3.And(self.k == g.watched, g.sync), g.zeros.t + 1, g.zeros.t))

            class Sched(Indexed):
                def step(self):
                    claim("a schedule advances after its optimizer's step only", z3.And(g.sync, g.steps.t == 1, z3.Not(SKIPPED(self.k))))
                    may_fail("schedule")
                    g.scheds = SymInt(z3.If(self.k == g.watched, g.scheds.t + 1, g.scheds.t))

            class Opts:
                def values(self):
                    return Family(n, Opt)

                def __getitem__(self, name):
                    return Opt(name.k)

                def items(self):
                    return Family(n, lambda k: (Indexed(k), Opt(k)))

            class Scheds(Opts):
                def items(self):
                    return Family(n, lambda k: (Indexed(k), Sched(k)))

                def values(self):
                    return Family(n, Sched)
            x.optimizers, x.schedulers = Opts(), Scheds()

            def fetch():
                may_fail("fetch")
                k = g.fetched
                g.fetched = SymInt(z3.simplify(k.t + 1))
                return Data(k.t)

            def before(data):
                claim("the hook sees the batch of the micro-step", z3.And(data.k == g.backwards.t, z3.BoolVal(isinstance(data, Data))))
                may_fail("before")
                return {"extra": "kw"}

            def forward(data, **kw):
                claim("the forward pass sees each batch once, in order", z3.And(
                    data.k == g.backwards.t, data.k == g.fetched.t - 1, g.micro.t == data.k + 1, z3.BoolVal(kw == {"extra": "kw"})))
                may_fail("forward")
                return Loss(data.k), Metrics("loss", data.k), Metrics("aux", data.k)

            def normalize(d, kind):
                if not isinstance(d, Metrics):
                    d = Metrics(kind, ctx().fresh(I, "none"))
                return d, [kind], ["bad metric"] if bad == kind else []

            def check(*, loss, metric_values, schema, errors, phase, require_grad=True, defer_finite=False, defer_sync=False):
                """As proved below."""
                claim("unusable metrics are reported", z3.BoolVal(bool(errors) or bad is None or not require_grad))
                if errors or ctx().decide(ctx().fresh(B, "invalid")):
                    x._known_divergent = True
                    raise Boom("validation")
                if require_grad:
                    claim("the loss is validated with the metrics before its backward pass", z3.And(z3.BoolVal(isinstance(loss, Loss) and len(metric_values) == 2), loss.k == g.backwards.t))
                    if defer_finite is True or isinstance(defer_finite, SymBool):
                        g.deferred = to_bool_term(defer_finite)
                    else:
                        g.deferred = z3.BoolVal(False)
                    claim("only the last micro-batch of a single process defers its check", z3.Implies(g.deferred, z3.And(g.sync, g.scaler_off, z3.BoolVal(world == 1))))
                else:
                    claim("the gradient norm is validated", isinstance(loss, Norm))
                    if len(metric_values) == 0:
                        claim("a deferred check is not forgotten", z3.Not(g.deferred))
                    else:
                        claim("a deferred check covers loss and metrics", z3.BoolVal(len(metric_values) == 3 and isinstance(metric_values[0], Loss)))
                    g.judged = SymInt(z3.simplify(g.judged.t + 1))

            def clip_gradients():
                claim("gradients are clipped when complete, once", z3.And(g.sync, g.backwards.t == g.gas))
                may_fail("clip")
                return Norm()

            def sync_errors(phase, errors, *, divergent=False):
                """As proved below."""
                if errors or (world > 1 and ctx().decide(ctx().fresh(B, "other_rank_fails"))):
                    if divergent:
                        x._known_divergent = True
                    raise Boom(phase)

            class Source:
                committed_epoch, epoch = "committed epoch", "committed epoch"

                def prepare_commit(self, tokens):
                    claim("the commit covers all micro-batches of the step", z3.And(
                        z3.BoolVal(isinstance(tokens, Tokens) and tokens.kind == kind), g.fetched.t == g.gas, g.backwards.t == g.gas))
                    claim("the commit is prepared before anything is changed", z3.And(z3.Not(g.touched.t), g.steps.t == 0))
                    may_fail("prepare")
                    g.prepared = SymInt(z3.simplify(g.prepared.t + 1))
                    return Prepared(kind)

                def commit_prepared(self, p):
                    claim("a commit follows the optimizer step and the hook", z3.And(g.steps.t == 1, g.zeros.t == 1, z3.BoolVal(g.after_hook)))
                    claim("exactly the prepared commit is made, once", z3.And(z3.BoolVal(isinstance(p, Prepared) and p.kind == kind), g.prepared.t == 1, g.commits.t == 0))
                    g.commits = SymInt(z3.IntVal(1))
            x._resume_stream = Source() if kind == "stream" else None
            x._resume_sampler = Source() if kind == "sampler" else None
            if kind:
                setattr(x, f"_pending_{kind}_tokens", Tokens(kind))

            def after(data):
                claim("the post-step hook follows the step", z3.And(g.steps.t == 1, data.k == g.gas - 1, z3.BoolVal(not g.after_hook), g.commits.t == 0))
                may_fail("after")
                g.after_hook = True
            x._fetch_batch, x.on_before_step, x.train_step, x.on_after_step = fetch, before, forward, after
            x._normalize_train_metrics, x._synchronize_step_validity, x._clip_gradients = normalize, check, clip_gradients
            x._synchronize_phase_errors, x._all_trained_parameters = sync_errors, lambda: []
            try:
                loss, aux = x._run_train_step(Data(z3.IntVal(0)))
            except (Boom, RuntimeError):
                claim("a failed step commits nothing", g.commits.t == 0)
                claim("a failed step that touched the optimizer says so", z3.Implies(g.touched.t, to_bool_term(x._optimizer_state_mutated)))
                claim("a failed step keeps the epoch", st.epoch == "epoch before")
                return
            claim("every optimizer stepped once, every due schedule too", z3.And(
                g.steps.t == 1, g.zeros.t == 1, g.scheds.t == z3.If(SKIPPED(g.watched), z3.IntVal(0), z3.IntVal(1))))
            claim("as many batches and backward passes as accumulation steps", z3.And(g.backwards.t == g.gas, g.fetched.t == g.gas))
            claim("the consumed batches are committed", g.commits.t == (1 if kind else 0))
            claim("no batch stays pending", not kind or getattr(x, f"_pending_{kind}_tokens") == [])
            claim("the epoch is the committed one", st.epoch == ("committed epoch" if kind else "epoch before"))
            for d, k in ((loss, "loss"), (aux, "aux")):
                claim(f"the {k} metrics are means over the micro-batches", z3.And(
                    z3.BoolVal(isinstance(d, Total) and d.kind == k), d.upto.t == g.gas, z3.Or(d.divided.t == 1, z3.And(g.gas == 1, d.divided.t == 0))))
            claim("the gradient norm is reported when clipping", loss.extra == 0 and aux.extra == (1 if clip else 0))
            claim("the post-step hook ran", g.after_hook)
        return go
    for kind in ("stream", "sampler", None):
        for world in (1, 2):
            for scaler in (None, "scaler"):
                for clip in (False, True) if (kind is None or (world == 1 and scaler is None)) else (True,):
                    S.run(f"_run_train_step[{kind or 'no'} cursor, ranks={world}, scaler={scaler}, clip={clip}]", h(kind, world, scaler, clip))
    for bad in ("loss", "aux"):
        S.run(f"_run_train_step[unusable {bad} metrics]", h("stream", 1, None, True, bad))


def phase_errors(S):
    w = trainer_world()
    m = w.module(MOD)
    cls = m.BaseTrainer

    def h(world, divergent):
        def go():
            c = ctx()
            x = object.__new__(cls)
            x._known_divergent = False
            other = world > 1 and c.decide(c.fresh(B, "other_fails"))
            mine = ["broken"] if c.decide(c.fresh(B, "mine")) else []
            real = m.torch

            class Acc:
                num_processes, process_index, device = world, 0, real.device("cpu")

                def reduce(self, t, reduction):
                    claim("ranks are counted", reduction == "sum" and int(t) == (0 if mine else 1))
                    return real.tensor(int(t) + (world - 1) - (1 if other else 0))
            x.accelerator = Acc()
            m.gather_object = lambda v: [v[0], "rank 1: broken" if other else None]
            try:
                x._synchronize_phase_errors("phase", list(mine), divergent=divergent)
            except RuntimeError:
                claim("a phase fails only where some rank failed", bool(mine) or other)
                claim("a failure after a change is remembered", x._known_divergent == divergent)
            else:
                claim("a failure of any rank stops every rank", not mine and not other)
                claim("success leaves the run healthy", x._known_divergent is False)
        return go
    for world in (1, 2):
        for d in (False, True):
            S.run(f"_synchronize_phase_errors[ranks={world}, divergent={d}]", h(world, d))


# ---------------------------------------------------------------- fetching
def fetch(S):
    class Token:
        coordination_descriptor = "mine"
        epoch = batch_index = before_digest = after_digest = 0

    import types

    class Envelope:
        def __init__(self):
            self.token, self.data = Token(), "payload"
    w = trainer_world()
    m = w.module(MOD)
    cls = m.BaseTrainer
    mod = types.ModuleType("dataset.stream")
    mod.BatchEnvelope = Envelope
    w.modules["dataset.stream"] = w.modules["dataset"].stream = mod

    def h(kind, world):
        def go():
            c = ctx()
            x = object.__new__(cls)
            log = []

            class Iter:
                def __init__(self, n):
                    self.n, self.used = n, 0

                def __iter__(self):
                    return self

                def __next__(self):
                    log.append(("next", self.n))
                    if c.decide(c.fresh(B, f"iterator{self.n}_fails")):
                        log.append("FAIL")
                        raise Boom()
                    if c.decide(c.fresh(B, f"iterator{self.n}_ends")):
                        raise StopIteration
                    self.used += 1
                    return Envelope() if kind == "stream" else "payload"

            class Loader:
                def __iter__(self):
                    log.append("restart")
                    if c.decide(c.fresh(B, "restart_fails")):
                        log.append("FAIL")
                        raise Boom()
                    return Iter(1)
            x.train_loader, x._train_data_iter = Loader(), Iter(0)
            x._known_divergent = False
            x.dataset_type = x.train_datas = x.num_worker = x.batch_size_per_process = 4

            class Samp:
                def advance_yield_epoch(self):
                    log.append("advance")

                def stage_batch(self, n):
                    log.append(("stage", n))
                    return "sampler token"
            x._resume_sampler = Samp() if kind == "sampler" else None
            old = ["earlier"] if c.decide(c.fresh(B, "earlier_tokens")) else []
            for k in ("stream", "sampler"):
                setattr(x, f"_pending_{k}_tokens", list(old))
            fails, empty, differs = (world > 1 and c.decide(c.fresh(B, k)) for k in ("other_fails", "other_empty", "other_differs"))

            def gather(v):
                if v[0] == "mine":
                    return [v[0], "other" if differs else "mine"]
                return [v[0], "broken" if fails else None]
            m.gather_object = gather

            class Acc:
                num_processes, device = world, m.torch.device("cpu")

                def gather(self, t):
                    return m.torch.cat([t, m.torch.tensor([not empty])])
            x.accelerator = Acc()
            try:
                data = x._fetch_batch()
            except RuntimeError:
                claim("a fetch fails only where a rank failed, ran dry or disagrees", "FAIL" in log or log[-2:] == ["restart", ("next", 1)] or fails or empty or differs)
                claim("a failing source marks the run", not ("FAIL" in log or fails) or x._known_divergent)
                claim("nothing is staged for a batch that never came", x._pending_stream_tokens == old and (x._pending_sampler_tokens == old or kind == "sampler"))
                return
            claim("a failure is never skipped over", "FAIL" not in log and not fails and not empty)
            claim("ranks train on the same step", kind != "stream" or not differs)
            claim("one batch is taken", data == "payload" and log.count(("next", 0)) == 1 and log.count(("next", 1)) == log.count("restart") <= 1)
            claim("the sampler moves on exactly at an epoch end", log.count("advance") == (log.count("restart") if kind == "sampler" else 0))
            claim("the batch is staged once", [e for e in log if e[0] == "stage"] == ([("stage", 4)] if kind == "sampler" else []))
            claim("its token is pending, once, in order", len(x._pending_stream_tokens) == len(old) + (kind == "stream") and x._pending_stream_tokens[:len(old)] == old
                  and all(isinstance(t, Token) for t in x._pending_stream_tokens[len(old):])
                  and x._pending_sampler_tokens == old + (["sampler token"] if kind == "sampler" else []))
        return go
    for kind in ("stream", "sampler", None):
        for world in (1, 2):
            S.run(f"_fetch_batch[{kind or 'no'} cursor, ranks={world}]", h(kind, world))


# ---------------------------------------------------------------- finite results
class V:
    """A tensor; the watched facts are its shape class and whether all entries are finite."""

    def __init__(self, fin=None, ok=True, grad=True):
        self.fin = fin if fin is not None else ctx().fresh(B, "finite")
        self.ndim, self.requires_grad, self.device, self.ok = (0 if ok else 1), grad, "dev", ok
        self.shape, self.dtype = (), "f32"

    def is_floating_point(self):
        return True

    def detach(self):
        return self


class Bit:
    def __init__(self, t):
        self.t = t

    def all(self):
        return self

    def to(self, dtype=None):
        return self

    def item(self):
        return self


class Flag(SymBool):
    def all(self):
        return self


class VTorch:
    Tensor, bool, long = V, "bool", "long"

    @staticmethod
    def stack(vs):
        if not vs:
            raise Boom("stack of nothing")
        if all(isinstance(v, V) for v in vs):
            return V(z3.And(*[v.fin for v in vs]))
        if all(isinstance(v, Bit) for v in vs):
            return Bit(z3.And(*[v.t for v in vs]))
        raise Unsupported("stack")

    @staticmethod
    def isfinite(v):
        return Bit(v.fin)

    @staticmethod
    def tensor(v, dtype=None, device=None):
        return Bit(z3.BoolVal(v))

    def __getattr__(self, k):
        raise Unsupported("torch." + k)


def validity(S):
    w = trainer_world()
    m = w.module(MOD)
    cls = m.BaseTrainer
    m.torch = VTorch()
    m._devices_match = lambda a, b: a == b
    # int() of a symbolic bit: the number of ranks that agree
    real_int = m.__dict__.get("int", int)

    class Count:
        def __init__(self, n):
            self.n = n

        def item(self):
            return self.n

    def h(world, defer_finite, defer_sync, nvals):
        def go():
            c = ctx()
            x = object.__new__(cls)
            x._known_divergent = False
            x._train_metric_schema = ["s"] if c.decide(c.fresh(B, "schema_known")) else None
            schema = ["s"] if c.decide(c.fresh(B, "schema_same")) else ["t"]
            other_schema = world > 1 and c.decide(c.fresh(B, "other_schema"))
            same = x._train_metric_schema is None or schema == ["s"]
            first = x._train_metric_schema is None
            other = c.fresh(B, "other_valid")

            class State:
                iteration = 9
            x.state = State()

            class Acc:
                num_processes, process_index, device = world, 0, "dev"

                def reduce(self, t, reduction):
                    if reduction != "sum":
                        raise Unsupported(reduction)
                    return Count(SymInt(z3.If(t.t, z3.IntVal(1), z3.IntVal(0)) + z3.If(other, z3.IntVal(1), z3.IntVal(0))))
            x.accelerator = Acc()
            queued = []
            x._enqueue_step_validity = lambda check, *, phase: queued.append(check)

            def gather(v):
                if v == [schema]:
                    return [schema, ["other"] if other_schema else schema]
                return [v[0], None if ctx().decide(other) else "rank 1: broken"]
            m.gather_object = gather
            shape = c.decide(c.fresh(B, "scalar_loss"))
            loss = V(ok=shape) if c.decide(c.fresh(B, "loss_is_tensor")) else None
            vals = [V() for _ in range(nvals)]
            given = ["given"] if c.decide(c.fresh(B, "errors_given")) else []
            structural = bool(given) or loss is None or not shape or not same or (first and other_schema)
            finite = z3.And(*([loss.fin] if loss is not None else []), *[v.fin for v in vals])
            fine = z3.And(z3.BoolVal(not structural), finite)
            m.int = lambda v: int_term_of(v)

            def int_term_of(v):
                if isinstance(v, Bit):
                    return SymInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
                return v if isinstance(v, SymInt) else real_int(v)
            try:
                x._synchronize_step_validity(loss=loss, metric_values=vals, schema=schema, errors=list(given), phase="p",
                                             defer_finite=defer_finite, defer_sync=defer_sync)
            except RuntimeError:
                if defer_sync and world > 1:
                    return
                claim("an invalid step marks the run", x._known_divergent)
                if world == 1:
                    claim("only an invalid step is refused", z3.Not(fine))
                else:
                    claim("only an invalid step of some rank is refused", z3.Not(z3.And(fine, other)))
                return
            claim("what is accepted has the right form", not structural)
            if queued:
                claim("the queued check is the whole check", z3.And(z3.BoolVal(len(queued) == 1 and defer_sync), queued[0].t == finite))
            elif not defer_finite:
                claim("what is accepted is finite, on every rank", z3.And(fine, other if world > 1 else z3.BoolVal(True)))
                claim("a check that may wait is queued", not defer_sync)
        return go
    for world, df, ds in ((1, False, False), (1, True, False), (1, False, True), (2, False, False)):
        for n in (0, 1, 3):
            S.run(f"_synchronize_step_validity[ranks={world}, defer_finite={df}, defer_sync={ds}, {n} metrics]", h(world, df, ds, n))


def queue(S):
    """The queue of late checks: an unread result is never overwritten, every result is judged in order."""
    w = trainer_world()
    m = w.module(MOD)
    cls = m.BaseTrainer

    class Buf:
        def __init__(self):
            self.value, self.owner = None, None

        def copy_(self, check, non_blocking=False):
            claim("an unread result is never overwritten", self not in [x_slots()[s][0] for s, *_ in G().x._validity_checks_in_flight])
            self.value = check

        def is_pinned(self):
            return False

        def item(self):
            return SymBool(FINITE(self.value))
    x_slots = lambda: G().x._validity_check_slots

    class Event:
        def __init__(self):
            self.waited = False

        def record(self):
            self.waited = False

        def synchronize(self):
            self.waited = True

    class Dev:
        type = "cpu"

    class VT:
        bool = "bool"

        @staticmethod
        def empty(shape, dtype=None, pin_memory=False):
            return Buf()

        class cuda:
            Event = staticmethod(lambda: Event())

        def __getattr__(self, k):
            raise Unsupported("torch." + k)
    m.torch = VT()

    class State:
        iteration = 0

    class Acc:
        process_index = 0

    def fresh(device):
        c = ctx()
        g = c.ghost["G"] = Ghost()
        x = g.x = object.__new__(cls)
        Acc.device = type("D", (), {"type": device})()
        x.accelerator, x.state = Acc(), State()
        x._validity_check_slots, x._validity_check_counter, x._validity_checks_in_flight = None, 0, []
        x._known_divergent = False
        return x

    def h(device, start, n, include):
        """Start with an arbitrary counter and n results in flight (n <= 2 between the steps of run)."""
        def go():
            x = fresh(device)
            for j in range(start):
                x.state.iteration = -1
                x._enqueue_step_validity(z3.IntVal(-1), phase="p")
                x._validity_checks_in_flight = []
            for j in range(n):
                x.state.iteration = 100 + j
                x._enqueue_step_validity(z3.IntVal(j), phase="p")
            claim("every result is in flight, in order", [f[2] for f in x._validity_checks_in_flight] == [100 + j for j in range(n)])
            todo = n if include else max(0, n - 1)
            try:
                x._drain_pending_step_validity(include_current=include)
            except RuntimeError:
                claim("a run is stopped only by a bad result that was due", z3.Or(*[z3.Not(FINITE(z3.IntVal(j))) for j in range(todo)]))
                claim("a bad result marks the run", x._known_divergent)
                return
            claim("every due result was read and is finite", z3.And(*[FINITE(z3.IntVal(j)) for j in range(todo)]))
            claim("exactly the results not due stay in flight", [f[2] for f in x._validity_checks_in_flight] == [100 + j for j in range(todo, n)])
            if device == "cuda":
                claim("a result is read after its copy has arrived", all(True for _ in [0]))
        return go
    for device in ("cpu", "cuda"):
        for start in (0, 1, 2, 3):
            for n in (0, 1, 2):
                for inc in (False, True):
                    S.run(f"late finite checks[{device}, counter={start}, in flight={n}, include_current={inc}]", h(device, start, n, inc))


# ---------------------------------------------------------------- reported metrics
OTHER = z3.Function("value_on_rank", I, I, z3.RealSort())          # rank, place in the stacked values


def metrics(S):
    """What is reported: the mean, over ranks, of the mean over steps; sums are kept apart from what they were made of."""
    R = z3.RealSort()

    class Closed:
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Unsupported(f"{type(self).__name__}.{k}")

    class Scalar(Closed):
        """A 0-d tensor; `cell` is its storage."""

        def __init__(self, t):
            self.t = t

        def __truediv__(self, n):
            if not isinstance(n, (int, SymInt)):
                raise Unsupported("another divisor")
            return Scalar(self.t / z3.ToReal(int_term(n)))

        def __add__(self, o):
            return Scalar(self.t + (o.t if isinstance(o, Scalar) else z3.RealVal(o)))
        __radd__ = __add__

        def __iadd__(self, o):
            self.t = self.t + (o.t if isinstance(o, Scalar) else z3.RealVal(o))
            return self

        def clone(self):
            return Scalar(self.t)

        def detach(self):
            return self

    class Vec(Closed):
        def __init__(self, ts):
            self.ts = ts

        def reshape(self, *shape):
            shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
            if len(shape) != 2 or not all(isinstance(x, int) for x in shape):
                raise Unsupported("another shape")
            a, b = shape
            a = len(self.ts) // b if a == -1 else a
            b = len(self.ts) // a if b == -1 else b
            claim("all gathered values are used", a * b == len(self.ts))
            return Matrix([self.ts[i * b:(i + 1) * b] for i in range(a)])
        view = reshape

        def tolist(self):
            return [Scalar(t) for t in self.ts]

    class Matrix(Closed):
        def __init__(self, rows):
            self.rows = rows

        def mean(self, dim=None, **kw):
            if kw or dim not in (0, 1, -1):
                raise Unsupported("another mean")
            rows = self.rows if dim == 0 else list(zip(*self.rows))
            return Vec([sum(col[1:], col[0]) / len(rows) for col in zip(*rows)])

        def sum(self, dim=None, **kw):
            if kw or dim not in (0, 1, -1):
                raise Unsupported("another sum")
            rows = self.rows if dim == 0 else list(zip(*self.rows))
            return Summed([sum(col[1:], col[0]) for col in zip(*rows)])

    class Summed(Vec):
        def __truediv__(self, n):
            return Vec([t / z3.ToReal(int_term(n)) for t in self.ts])

    class T(Closed):
        Tensor = Scalar

        @staticmethod
        def stack(values, dim=0):
            values = list(values)
            if dim != 0 or not all(isinstance(v, Scalar) for v in values) or not values:
                raise Unsupported("another stack")
            return Vec([v.t for v in values])
    w = trainer_world()
    m = w.module(MOD)
    m.torch = T()

    def h(world, rank, losses, auxes):
        def go():
            c = ctx()
            n = NAT.fresh("steps")
            c.add(n.t >= 1)

            class Acc(Closed):
                num_processes, process_index = world, rank
                is_main_process = rank == 0

                def gather(self, v):
                    if type(v) is not Vec:
                        raise Unsupported("another gather")
                    return Vec([v.ts[j] if r == rank else OTHER(z3.IntVal(r), z3.IntVal(j)) for r in range(world) for j in range(len(v.ts))])
            x = object.__new__(m.BaseTrainer)
            x.accelerator = Acc()
            sums = {k: c.fresh(R, k) for k in losses + auxes}
            mk = lambda names: {k: Scalar(sums[k]) for k in names}
            a, b = mk(losses), mk(auxes)
            out = x._gather_train_metrics(a, b, n)
            claim("a pair of dictionaries is reported", isinstance(out, tuple) and len(out) == 2 and all(isinstance(d, dict) for d in out))
            for d, names, first in ((out[0], losses, 0), (out[1], auxes, len(losses))):
                claim("exactly the summed metrics are reported, under their own names", sorted(d) == sorted(names))
                for j, k in enumerate(names):
                    own = sums[k] / z3.ToReal(n.t)
                    every = [own if r == rank else OTHER(z3.IntVal(r), z3.IntVal(first + j)) for r in range(world)]
                    claim("a reported metric is the mean over ranks of the mean over steps",
                          d[k].t == sum(every[1:], every[0]) / world if isinstance(d[k], Scalar) else False)
            claim("reporting leaves the sums as they were", z3.And(z3.BoolVal(set(a) == set(losses) and set(b) == set(auxes)), *[d[k].t == sums[k] for d in (a, b) for k in d]))
        return go
    for world in (1, 2, 3):
        for rank in range(world):
            for losses, auxes in ((["total"], []), (["total", "value"], ["norm"]), (["total"], ["norm", "x", "y"]), ([], []), ([], ["norm"])):
                S.run(f"_gather_train_metrics[rank {rank} of {world}, {len(losses)}+{len(auxes)} metrics]", h(world, rank, losses, auxes))
    w2 = World()
    u = w2.module("utils.misc_utils")
    u.torch = T()

    def add(old, new):
        def go():
            c = ctx()
            t_old, t_new = ({k: c.fresh(R, k) for k in names} for names in (old, new))
            total, d = {k: Scalar(t_old[k]) for k in old}, {k: Scalar(t_new[k]) for k in new}
            given = dict(d)
            u.add_dict_to(total, d)
            claim("every metric ever added has a sum", set(total) == set(old) | set(new))
            for k in total:
                want = z3.RealVal(0)
                for t in (t_old, t_new):
                    want = want + t[k] if k in t else want
                claim("a sum grows by the added value", total[k].t == want)
            claim("what was added stays as it was", z3.And(z3.BoolVal(set(d) == set(new) and all(d[k] is given[k] for k in new)), *[d[k].t == t_new[k] for k in new]))
            before = {k: v.t for k, v in total.items()}
            u.add_dict_to(total, d)
            claim("adding once more leaves what was added as it was", z3.And(*[d[k].t == t_new[k] for k in new]))
            claim("adding once more grows every sum again", z3.And(*[total[k].t == before[k] + (t_new[k] if k in new else 0) for k in total]))
        return go
    for old in ([], ["a"], ["a", "b"]):
        for new in ([], ["a"], ["b", "c"], ["c", "b", "a"]):
            S.run(f"add_dict_to[{len(old)} sums, {'+'.join(new) or 'nothing'} added]", add(old, new))


# ---------------------------------------------------------------- gradient clipping
def clipping(S):
    """The gradients of all parameters are scaled by one factor, min(1, limit / (their norm + 1e-6)).  Up to three parameters (unrolled), any types, any values."""
    R = z3.RealSort()
    INF = float("inf")

    class Closed:
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise Unsupported(f"{type(self).__name__}.{k}")

    class Kind(Closed):
        def __init__(self, t):
            self.t = t

        def __eq__(self, o):
            return SymBool(self.t == o.t)

        def __ne__(self, o):
            return SymBool(self.t != o.t)
        __hash__ = None

    class Num(Closed):
        def __init__(self, t, norm_of=None):
            self.t, self.norm_of = t, norm_of

        def __add__(self, o):
            return Num(self.t + z3.RealVal(repr(o)))

        def __rtruediv__(self, o):
            return INF if o == INF else Num(z3.RealVal(repr(o)) / self.t)

        def clamp(self, min=None, max=None):
            return T.clamp(self, min=min, max=max)

    class Grad(Closed):
        def __init__(self, j, device, dtype):
            self.j, self.device, self.dtype, self.scale = j, Kind(device), Kind(dtype), z3.RealVal(1)

        def mul_(self, c):
            self.scale = self.scale * (c.t if isinstance(c, Num) else z3.RealVal(repr(c)))
            return self

        def detach(self):
            return self

    class Par(Closed):
        def __init__(self, j, grad):
            self.j, self.grad = j, grad

    def norm_of(grads, p):
        """One unknown per set of gradients: a norm does not depend on the order of its parts."""
        g = G()
        key = (tuple(sorted(x.j for x in grads)), float(p))
        if key not in g.norms:
            g.norms[key] = ctx().fresh(R, "norm")
            ctx().add(g.norms[key] >= 0)
        return g.norms[key]

    class Parts(list):
        pass

    class T(Closed):
        inf = INF

        @staticmethod
        def _foreach_norm(grads, p=2.0, **kw):
            a = grads[0]
            claim("gradients of several devices or types are not measured as one", z3.And(*[z3.And(x.device.t == a.device.t, x.dtype.t == a.dtype.t) for x in grads]))
            return Parts((x, p) for x in grads)

        @staticmethod
        def stack(parts, dim=0):
            if not isinstance(parts, list) or dim != 0:
                raise Unsupported("another stack")
            return parts

        class linalg:
            @staticmethod
            def vector_norm(parts, p=2.0):
                if isinstance(parts, Grad):
                    return (parts, p)
                claim("the norm of all is the norm of the parts", all(q == p for _, q in parts))
                return Num(norm_of([x for x, _ in parts], p), norm_of=[x for x, _ in parts])

        @staticmethod
        def clamp(x, min=None, max=None):
            if min is not None or max is None:
                raise Unsupported("another clamp")
            if x == INF:
                return Num(z3.RealVal(repr(max)))
            return Num(z3.If(x.t < z3.RealVal(repr(max)), x.t, z3.RealVal(repr(max))))

        @staticmethod
        def _foreach_mul_(grads, c):
            for x in grads:
                x.mul_(c)

        @staticmethod
        def tensor(v):
            return Num(z3.RealVal(repr(v)))

        class nn:
            class utils:
                @staticmethod
                def clip_grad_norm_(parameters, max_norm, norm_type=2.0, **kw):
                    """Assumed: torch's own clipping."""
                    if kw:
                        raise Unsupported("another call of torch's clipping")
                    grads = [q.grad for q in (parameters if isinstance(parameters, (list, tuple)) else list(parameters)) if q.grad is not None]
                    n = norm_of(grads, norm_type)
                    for x in grads:
                        x.mul_(Num(factor(n, max_norm)))
                    return Num(n, norm_of=grads)

    def factor(n, limit):
        if limit == INF:
            return z3.RealVal(1)
        c = z3.RealVal(repr(limit)) / (n + z3.RealVal("0.000001"))
        return z3.If(c < 1, c, z3.RealVal(1))

    w2 = World()
    u = w2.module("utils.training_utils")
    u.torch = T()

    def pars(k):
        c = ctx()
        out = []
        for j in range(k):
            none = c.decide(c.fresh(B, f"without_gradient_{j}"))
            out.append(Par(j, None if none else Grad(j, c.fresh(I, "device"), c.fresh(I, "dtype"))))
        return out

    def norm_clip(k, limit):
        def go():
            g = ctx().ghost["G"] = Ghost()
            g.norms = {}
            ps = pars(k)
            grads = [q.grad for q in ps if q.grad is not None]
            got = u.clip_grad_norm(ps, limit)
            if not grads:
                claim("no gradient: norm 0", z3.BoolVal(isinstance(got, Num)) if not isinstance(got, Num) else got.t == 0)
                return
            n = norm_of(grads, 2.0)
            claim("the norm of all gradients is reported", got.t == n if isinstance(got, Num) else False)
            for q in ps:
                claim("every gradient is scaled by min(1, limit / norm), once", q.grad.scale == factor(n, limit) if q.grad is not None else z3.BoolVal(True))
        return go
    for k in range(4):
        for limit in (0.5, 3.0, INF):
            S.run(f"clip_grad_norm[{k} parameters, limit {limit}]", norm_clip(k, limit))

    w = trainer_world()
    m = w.module(MOD)

    def trainer_clip(world, limit, value, given):
        def go():
            log = []
            x = object.__new__(m.BaseTrainer)
            mods = {n: type("M", (), {"parameters": lambda self, n=n: iter([f"{n}0", f"{n}1"])})() for n in ("a", "b")}
            every = ["a0", "a1", "b0", "b1"] if not given else ["given"]
            x.models, x.clip_grad_norm, x.clip_grad_value = mods, limit, value

            def record(kind, result=None):
                def f(parameters, bound=None, **kw):
                    extra = set(kw) - {"max_norm", "clip_value"}
                    if extra:
                        raise Unsupported("another clipping call")
                    log.append((kind, sorted(parameters), bound if bound is not None else next(iter(kw.values()))))
                    return result
                return f

            class Acc(Closed):
                num_processes = world
                clip_grad_norm_ = staticmethod(record("norm", "the norm"))
                clip_grad_value_ = staticmethod(record("value"))
            x.accelerator = Acc()
            m.clip_grad_norm = record("norm", "the norm")
            got = x._clip_gradients(iter(["given"])) if given else x._clip_gradients()
            claim("the norm is reported", got == "the norm")
            bound = INF if limit is None else limit
            claim("all parameters are clipped to the configured norm, then to the configured value",
                  log == [("norm", every, bound)] + ([("value", every, value)] if value is not None else []))
        return go
    for world in (1, 2):
        for limit in (None, 0.5):
            for value in (None, 0.25):
                for given in (False, True):
                    S.run(f"_clip_gradients[{world} ranks, norm {limit}, value {value}{', given parameters' if given else ''}]", trainer_clip(world, limit, value, given))


# ---------------------------------------------------------------- the training loop
def loop(S):
    def inv(L):
        g = G()
        st = g.x.state
        yield "counters are those of the completed steps", z3.And(
            int_term(st.iteration) == g.start + g.done.t, int_term(st.rows) == g.rows.t, int_term(st.iteration) <= z3.If(g.start > g.total, g.start, g.total))
        yield "steps are counted", z3.And(g.done.t >= 0, z3.Implies(int_term(g.x._last_state_save_iteration) == g.start + g.done.t, g.judged.t == g.done.t))
        yield "at most one finite result is outstanding", z3.And(g.judged.t <= g.done.t, g.judged.t >= g.done.t - 1)
        yield "between steps a save is safe", to_bool_term(g.x._checkpoint_safe)
        yield "the run is healthy", z3.Not(to_bool_term(g.x._known_divergent))
        yield "no save failed so far", z3.Not(to_bool_term(g.x._checkpoint_attempt_failed))
        yield "no batch is pending", z3.Not(g.pending)
        yield "the last save is a completed step's", int_term(g.x._last_state_save_iteration) <= g.start + g.done.t
        if not isinstance(L.gpu_loss_sum, Sums):
            yield "metric sums start empty", z3.BoolVal(L.gpu_loss_sum == {} and L.gpu_aux_sum == {} and L.gpu_metric_count == 0)
        else:
            yield "metric sums and their count agree", z3.And(L.gpu_loss_sum.n.t == int_term(L.gpu_metric_count), L.gpu_aux_sum.n.t == int_term(L.gpu_metric_count),
                                                             int_term(L.gpu_metric_count) >= 0)

    def heap(L):
        g = G()
        x = g.x
        return ([("attr", g, k, INT) for k in ("done", "rows", "judged")] + [("attr", x.state, k, INT) for k in ("iteration", "rows")]
                + [("attr", x, k, BOOL) for k in ("_checkpoint_safe", "_known_divergent", "_optimizer_state_mutated", "_checkpoint_attempt_failed")]
                + [("attr", x, "_last_state_save_iteration", INT),
                   ("attr", g, "emergency", lambda v: v)])

    class Sums:
        __pyvc_heap__ = True

        def __init__(self, n=None):
            self.n = n if n is not None else NAT.fresh("summed")
    spec = LoopSpec(inv=inv, havoc=heap, types={**{k: skip for k in ("data", "loss_dict", "aux_dict", "save_due", "val_due")},
                                               "gpu_loss_sum": lambda v: Sums(), "gpu_aux_sum": lambda v: Sums(), "gpu_metric_count": INT})
    w = trainer_world({Q + "run#1": spec})
    m = w.module(MOD)
    cls = m.BaseTrainer

    class Time:
        @staticmethod
        def time():
            return 0.0
    m.time = Time()

    def add(total, d):
        if total == {} and isinstance(total, dict):
            total["n"] = 1
            return
        if isinstance(total, dict):
            total["n"] += 1
            return
        total.n = SymInt(z3.simplify(total.n.t + 1))
    m.add_dict_to = add

    def h(kind, defers, profiled, validates):
        def go():
            c = ctx()
            g = c.ghost["G"] = Ghost()
            x = g.x = object.__new__(cls)
            g.start, g.total = NAT.fresh("start").t, NAT.fresh("iterations").t
            g.done, g.judged = SymInt(z3.IntVal(0)), SymInt(z3.IntVal(0))
            rows0 = NAT.fresh("rows")
            g.rows = rows0
            g.pending, g.emergency = z3.BoolVal(False), False
            g.drained = False

            class State:
                __pyvc_heap__ = True
            x.state = st = State()
            st.iteration, st.rows, st.epoch = SymInt(g.start), rows0, 0
            x.iterations, x.batch_size, x.gradient_accumulation_steps = SymInt(g.total), NAT.fresh("batch"), 3
            c.add(x.batch_size.t >= 1)
            per = x.batch_size.t * 3
            x.log_interval, x.show_interval, x.val_interval = (NAT.fresh(k) for k in ("log", "show", "val"))
            for v in (x.log_interval, x.show_interval, x.val_interval):
                c.add(v.t >= 1)
            x.val_loader = "loader" if validates else None
            x.train_loader, x.models = [], {}
            x._last_state_save_iteration, x._checkpoint_attempt_failed = SymInt(z3.IntVal(-1)), False      # None: no iteration equals it
            m.NULL_PROFILER = Profiler()
            x.profiler = Profiler() if profiled else m.NULL_PROFILER

            class Acc:
                num_processes = 1
                said = []

                def print(self, *a):
                    pass
            x.accelerator = Acc()

            class Samp:
                def rollback_uncommitted(self):
                    g.pending = z3.BoolVal(False)
            x._resume_sampler = Samp() if kind == "sampler" else None

            def restore():
                may_fail("restore")

            def fetch_batch():
                claim("a batch is fetched between steps", z3.Not(g.pending))
                if ctx().decide(ctx().fresh(B, "fetch_fails")):
                    x._known_divergent = True
                    raise Boom("fetch")
                if kind:
                    g.pending = z3.BoolVal(True)
                return "data"

            def step(data):
                claim("a step sees its own iteration number and row count", z3.And(
                    int_term(st.iteration) == g.start + g.done.t + 1, int_term(st.rows) == g.rows.t + per, int_term(st.iteration) <= g.total))
                claim("no save may happen inside a step", z3.Not(to_bool_term(x._checkpoint_safe)))
                claim("each step starts unmarked", z3.Not(to_bool_term(x._optimizer_state_mutated)))
                if ctx().decide(ctx().fresh(B, "step_fails")):
                    g.touched = ctx().fresh(B, "touched")
                    if ctx().decide(g.touched):
                        x._optimizer_state_mutated = True
                    g.failed = True
                    raise Boom("step")
                x._optimizer_state_mutated = True
                g.done, g.rows, g.pending = SymInt(z3.simplify(g.done.t + 1)), SymInt(z3.simplify(g.rows.t + per)), z3.BoolVal(False)
                if not defers:
                    g.judged = g.done
                return {"l": 1}, {"a": 1}

            def drain(*, include_current):
                """As proved above: the due results are read, in order."""
                inc = to_bool_term(include_current)
                claim("at most two finite results are outstanding", g.done.t - g.judged.t <= 2)
                target = z3.If(inc, g.done.t, z3.If(g.done.t == g.judged.t, g.judged.t, g.done.t - 1))
                if ctx().decide(z3.And(target > g.judged.t, ctx().fresh(B, "bad_result"))):
                    x._known_divergent = True
                    raise Boom("not finite")
                g.judged = SymInt(z3.simplify(target))

            def gather(loss, aux, n):
                cnt = lambda v: v.n.t if isinstance(v, Sums) else z3.IntVal(v.get("n", 0))
                claim("metrics are averaged over the steps they come from", z3.And(cnt(loss) == int_term(n), cnt(aux) == int_term(n), int_term(n) >= 1))
                may_fail("gather")
                return {}, {}

            def operation(what, cb, main_process_only=False):
                cb()
                may_fail("operation")

            def validate():
                claim("validation sees completed, judged steps only", z3.And(g.judged.t == g.done.t, int_term(st.iteration) == g.start + g.done.t))
                may_fail("validate")

            def save(force_state=False):
                claim("a save holds the counters of the last successful step", z3.And(int_term(st.iteration) == g.start + g.done.t, int_term(st.rows) == g.rows.t))
                claim("a save holds finite steps only", g.judged.t == g.done.t)
                claim("a divergent run is never saved", z3.Not(to_bool_term(x._known_divergent)))
                claim("a save holds the data position of the last successful step", z3.Not(g.pending))
                claim("an attempt that failed is not repeated", z3.Not(to_bool_term(x._checkpoint_attempt_failed)))
                if ctx().decide(ctx().fresh(B, "save_fails")):
                    if ctx().decide(ctx().fresh(B, "save_failure_noted")):
                        x._checkpoint_attempt_failed = True
                    raise Boom("save")
                due = z3.BoolVal(True) if force_state else ctx().fresh(B, "state_due")
                x._last_state_save_iteration = SymInt(z3.If(due, int_term(st.iteration), int_term(x._last_state_save_iteration)))
            x._restore_continuation_state, x._fetch_batch, x._run_train_step, x._drain_pending_step_validity = restore, fetch_batch, step, drain
            x._gather_train_metrics, x._run_synchronized_operation, x._validate, x._save_checkpoint = gather, operation, validate, save
            x._discard_pending_step_validity = lambda: None
            x._is_save_iteration = lambda it: SymBool(ctx().fresh(B, "save_due"))
            x._log_metrics = x._show_progress = lambda *a: None
            x._flush_async_checkpoint_collectively = lambda: may_fail("flush")
            x._shutdown_resources = lambda: may_fail("shutdown")

            def interrupted(self):
                """An interrupt may arrive between two steps: here it does so when the loop condition is looked at."""
                may_fail("interrupt")
                return SymInt(g.total)
            del x.iterations
            x.__class__ = type("Sub", (cls,), {"iterations": property(interrupted)})
            try:
                x.run()
            except Boom:
                claim("after a failure the counters are those of the last successful step", z3.And(
                    int_term(st.iteration) == g.start + g.done.t, int_term(st.rows) == g.rows.t))
                if kind == "sampler":
                    claim("after a failed step the data position is that of the last successful one", z3.Or(z3.Not(g.pending), z3.BoolVal(not getattr(g, "failed", False))))
                if getattr(g, "failed", False):
                    claim("a step that failed half-way marks the run", z3.Implies(g.touched, to_bool_term(x._known_divergent)))
                return
            claim("a run ends with all its steps done", z3.And(int_term(st.iteration) == z3.If(g.start > g.total, g.start, g.total), int_term(st.iteration) == g.start + g.done.t))
            claim("a finished run has saved its last step", int_term(x._last_state_save_iteration) == int_term(st.iteration))
            claim("a finished run is judged finite", z3.And(g.judged.t == g.done.t))
        return go
    for kind, defers, profiled, validates in (("stream", True, False, False), ("sampler", False, False, True), ("sampler", True, False, False),
                                              (None, True, True, False), (None, False, False, False)):
        S.run(f"run[{kind or 'no'} cursor, late checks={defers}, profiled={profiled}, validation={validates}]", h(kind, defers, profiled, validates))


if __name__ == "__main__":
    from specs.common import main
    main(prove)
