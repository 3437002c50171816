"""C12 - a checkpoint becomes visible only when complete."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymInt, SymBool, LazySeq, INT, NAT, int_term, to_bool_term
from pyvc.load import World, LoopSpec
from pyvc import shims

shims.MAY_LACK |= {("BaseTrainer", "rundir")}
from specs.common import trainer_world
from specs.d11 import lazy

TRUSTED = ["os.replace / os.link of a complete file are atomic; torch.save writes its object completely or raises, leaving any prefix behind",
           "a thread runs its target once, join() returns after it ended; CUDA streams and events order device work as documented"]
I, B = z3.IntSort(), z3.BoolSort()
skip = lambda v: None


class WriteError(BaseException):
    pass


# ---------------------------------------------------------------- files
class Text:
    """A path of unknown spelling."""
    __pyvc_type__ = str
    __pyvc_heap__ = False

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        return Text(z3.Concat(self.t, o.t if isinstance(o, Text) else z3.StringVal(o)))

    def __radd__(self, o):
        return Text(z3.Concat(z3.StringVal(o), self.t))

    def __eq__(self, o):
        return SymBool(self.t == (o.t if isinstance(o, Text) else z3.StringVal(o)))

    def __bool__(self):
        return ctx().decide(z3.Length(self.t) > 0)

    def __format__(self, spec):
        return "<path>"

    __hash__ = None


EXT = z3.Function("extension", z3.StringSort(), z3.StringSort())


class Disk:
    """What a reader finds under the final name: the old file until a complete new one replaces it."""

    def __init__(self, final, want):
        self.final, self.want = final, want
        self.final_new = z3.BoolVal(False)     # the final name holds the new file
        self.temp = None                       # (path, object) completely written elsewhere
        self.log = []

    def save(self, obj, path, *a, **k):
        S = ctx().session
        p = path.t if isinstance(path, Text) else z3.StringVal(path)
        S.prove("a file is never written under its final name", p != self.final)
        self.log.append("save")
        if ctx().decide(ctx().fresh(B, "write_fails")):
            self.temp = None
            raise WriteError()
        self.temp = (p, obj)

    def replace(self, a, b, *r, **k):
        S = ctx().session
        a, b = (x.t if isinstance(x, Text) else z3.StringVal(x) for x in (a, b))
        self.log.append("replace")
        S.prove("the final name is only ever given to a complete file", z3.And(
            b == self.final, z3.BoolVal(self.temp is not None), a == (self.temp[0] if self.temp else z3.StringVal(""))))
        if ctx().decide(ctx().fresh(B, "replace_fails")):
            raise WriteError()
        S.prove("the published file holds the whole checkpoint", z3.BoolVal(self.want(self.temp[1] if self.temp else None)))
        self.final_new = z3.BoolVal(True)


class FakeOs:
    def __init__(self, disk):
        self.d = disk

        class P:
            @staticmethod
            def dirname(p):
                return Text(ctx().fresh(z3.StringSort(), "dir"))

            @staticmethod
            def splitext(p):
                return (Text(ctx().fresh(z3.StringSort(), "root")), Text(EXT(p.t)))

            def __getattr__(s, k):
                raise Unsupported(f"os.path.{k}")
        self.path = P()
        self.replace = self.rename = disk.replace

    def __getattr__(self, k):
        raise Unsupported(f"os.{k} while publishing a checkpoint")


class FakeTorch:
    def __init__(self, disk):
        self.save = disk.save

    def __getattr__(self, k):
        raise Unsupported(f"torch.{k} while publishing a checkpoint")


def files(S):
    def publish(name, call, want, final):
        def h():
            c = ctx()
            path = c.fresh(z3.StringSort(), "path")
            end = final(path)
            c.add(EXT(z3.Concat(path, z3.StringVal(".tmp"))) == z3.StringVal(".tmp"))
            disk = Disk(end, want)
            try:
                call(Text(path), disk)
            except WriteError:
                S.prove(f"{name}: an interrupted write leaves the old file", z3.Not(disk.final_new))
                return
            S.prove(f"{name}: afterwards the new file is published", disk.final_new)
            S.prove(f"{name}: written once, renamed once", z3.BoolVal(disk.log == ["save", "replace"]))
        S.run(name, h)

    w = World()
    m = w.module("utils.file_utils")
    ext = lambda p: z3.If(EXT(p) == z3.StringVal(""), z3.Concat(p, z3.StringVal(".pt")), p)
    for extras in ((), ("optimizer",), ("optimizer", "scaler")):
        for metadata in (None, {}, {"iteration": "3"}, {"iteration": "3", "epoch": "1"}):
            model, ex = object(), {k: {"of": k} for k in extras}

            def call(path, disk):
                m.os, m.torch, m.make_dir = FakeOs(disk), FakeTorch(disk), lambda p: None
                m.save_torch_ckpt(path, model, ex, metadata)

            def want(obj):
                return (isinstance(obj, dict) and obj.get("model") is model and all(obj.get(k) is v for k, v in ex.items())
                        and all(obj.get(k) == v for k, v in (metadata or {}).items())
                        and set(obj) == {"model", *ex, *(metadata or {})})
            publish(f"save_torch_ckpt[extras={list(extras)}, metadata={metadata}]", call, want, ext)

    def bad(kind):
        def h():
            disk = Disk(z3.String("final"), lambda o: True)
            m.os, m.torch, m.make_dir = FakeOs(disk), FakeTorch(disk), lambda p: None
            try:
                m.save_torch_ckpt(Text(ctx().fresh(z3.StringSort(), "path")), {}, {"x": 3} if kind == "extra" else {},
                                  {"x": 3} if kind == "metadata" else None)
            except TypeError:
                S.prove("save: unusable content is refused before anything is written", z3.BoolVal(disk.log == []))
                return
            S.prove("save: unusable content is refused", z3.BoolVal(False))
        return h
    for k in ("extra", "metadata"):
        S.run(f"save_torch_ckpt[bad {k}]", bad(k))

    wt = trainer_world()
    b = wt.module("trainer.base")
    state = object()

    def call(path, disk):
        b.os, b.torch = FakeOs(disk), FakeTorch(disk)
        b._atomic_torch_save(state, path)
    publish("_atomic_torch_save", call, lambda obj: obj is state, lambda p: p)


# ---------------------------------------------------------------- the background writer
class Obj:
    def __init__(self, k, staged=False):
        self.k, self.staged = k, staged


class Ghost:
    __pyvc_heap__ = True


def finalizer(k):
    def finalize(obj):
        c = ctx()
        G = c.ghost["G"]
        S = c.session
        S.prove("payloads are written in submission order, each by its own finalizer", z3.And(obj.k == k, k == int_term(G.written)))
        S.prove("what is written is the snapshot exactly on the background path", z3.BoolVal(obj.staged == G.background))
        S.prove("nothing is written after the hook", z3.BoolVal(not G.hook))
        if c.decide(c.fresh(B, "write_fails")):
            G.failed = True
            raise WriteError()
        G.written = SymInt(z3.simplify(k + 1))
    return finalize


class Payloads(LazySeq):
    def __init__(self, n, staged):
        self.n, self.staged = n, staged

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        return Obj(i, self.staged), finalizer(i)

    def __iter__(self):
        raise Unsupported("unrolled payloads")


def hook():
    c = ctx()
    G = c.ghost["G"]
    c.session.prove("the hook runs once, after every payload was written", z3.And(int_term(G.written) == int_term(G.total), z3.BoolVal(not G.hook)))
    G.hook = True
    if c.decide(c.fresh(B, "hook_fails")):
        G.failed = True
        raise WriteError()


def writer(S):
    MOD = "utils.async_checkpoint"
    q = MOD + ":AsyncCheckpointWriter."

    def inv(L):
        G = ctx().ghost["G"]
        yield "written so far", z3.And(int_term(G.written) == L.i.t, z3.BoolVal(not G.hook), L.i.t <= int_term(G.total))
    heap = lambda L: [("attr", ctx().ghost["G"], "written", INT)]
    spec = LoopSpec(inv=inv, havoc=heap, types={k: skip for k in ("obj", "finalize", "staged_obj")})
    w = World(loops={q + k: spec for k in ("submit#0", "submit#1", "_write#0")})
    m = lazy(w.module(MOD))
    real_comp = m.__dict__["__pyvc_comp__"]
    cls = m.AsyncCheckpointWriter
    flush0, write0 = cls.flush, cls._write

    class Ev:
        def __init__(self):
            ctx().ghost["G"].log.append("event")

        def record(self, stream):
            ctx().ghost["G"].log.append(("record", stream))

        def synchronize(self):
            ctx().ghost["G"].log.append("event done")

    class OOM(RuntimeError):
        pass

    class Stream:
        def wait_stream(self, o):
            ctx().ghost["G"].log.append(("wait stream", o))

        def wait_event(self, e):
            ctx().ghost["G"].log.append(("wait event", e))

        def synchronize(self):
            ctx().ghost["G"].log.append(("sync", self))

    class Manager:
        def __init__(self, s):
            self.s = s

        def __enter__(self):
            ctx().ghost["G"].log.append(("use", self.s))

        def __exit__(self, *a):
            return False

    class Cuda:
        OutOfMemoryError = OOM
        compute = Stream()
        current_stream = staticmethod(lambda d: Cuda.compute)
        stream = Manager
        Event = Ev

    class Torch:
        cuda = Cuda

        def __getattr__(self, k):
            raise Unsupported("torch." + k)
    m.torch = Torch()

    class Thread:
        def __init__(self, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.args, self.kwargs = target, args, kwargs or {}

        def start(self):
            c = ctx()
            G = c.ghost["G"]
            c.session.prove("no job starts while another one runs", z3.BoolVal(G.running is None))
            c.session.prove("the background job is this writer's", z3.BoolVal(getattr(self.target, "__func__", None) is cls._write and not self.kwargs))
            G.running = self
            G.log.append("start")

        def join(self, *a, **k):
            c = ctx()
            G = c.ghost["G"]
            c.session.prove("waiting has no time limit", z3.BoolVal(not a and not k))
            if G.running is self:
                G.running = None
            if self.owner is not None and c.decide(c.fresh(B, "job_failed")):     # contract of _write
                G.failed = True
                self.owner._error = WriteError()
        owner = None

    class Threading:
        def __getattr__(self, k):
            raise Unsupported("threading." + k)
    Threading.Thread = Thread
    m.threading = Threading()

    class Environ:
        def get(self, k, d=None):
            if k != "NNUE_SYNC_CHECKPOINT":
                raise Unsupported("environment " + k)
            return "1" if ctx().ghost["G"].env else d

    class Os:
        environ = Environ()

        def __getattr__(self, k):
            raise Unsupported("os." + k)
    m.os = Os()
    staged_of = lambda obj, memo, stream: Obj(obj.k, True)

    def comp(kind, f, src, cond):
        if isinstance(src, Payloads):
            G = ctx().ghost["G"]
            G.log.append("stage")
            if ctx().decide(ctx().fresh(B, "out_of_memory")):
                raise OOM()
        return real_comp(kind, f, src, cond)
    m.__dict__["__pyvc_comp__"] = comp

    def fresh(busy, cuda):
        c = ctx()
        G = c.ghost["G"] = Ghost()
        G.written, G.total, G.hook, G.failed, G.running, G.log = SymInt(z3.IntVal(0)), NAT.fresh("payloads"), False, False, None, []
        G.background, G.env = False, False
        x = object.__new__(cls)
        x._device, x._thread, x._error, x._disabled = "device", None, None, False
        x._copy_stream = Stream() if cuda else None
        if busy:
            t = Thread()
            t.owner = x
            x._thread = G.running = t
        return x, G

    def h_flush(busy):
        def h():
            x, G = fresh(busy, True)
            try:
                x.flush()
            except RuntimeError as e:
                S.prove("flush: raises only when the last job failed", z3.BoolVal(G.failed and busy))
                S.prove("flush: the cause is kept", z3.BoolVal(isinstance(e.__cause__, WriteError)))
            else:
                S.prove("flush: a failed job is reported", z3.BoolVal(not G.failed))
            S.prove("flush: no job runs afterwards", z3.BoolVal(G.running is None and x._thread is None))
            S.prove("flush: a failure is reported once", z3.BoolVal(x._error is None))
            x.flush()
        return h
    for b in (False, True):
        S.run(f"flush[job running={b}]", h_flush(b))

    def flush_contract(self):
        """As proved above."""
        G = ctx().ghost["G"]
        G.running, self._thread = None, None
        G.log.append("flush")
        if ctx().decide(ctx().fresh(B, "earlier_job_failed")):
            G.log.append("refused")
            raise RuntimeError("asynchronous checkpoint write failed")
    Sub = type("Sub", (cls,), {"flush": flush_contract})

    def h_submit(how, with_hook):
        def h():
            c = ctx()
            x, G = fresh(False, how in ("cuda", "disabled", "env"))
            x.__class__ = Sub
            G.running = x._thread = Thread()
            x._disabled, G.env = how == "disabled", how == "env"
            m._stage_tree = staged_of
            try:
                x.submit(Payloads(G.total.t, False), hook if with_hook else None)
            except WriteError:
                S.prove("submit: a synchronous failure reaches the caller", z3.BoolVal(G.failed))
                S.prove("submit: no hook after a failed write", z3.Implies(int_term(G.written) != G.total.t, z3.BoolVal(not G.hook)))
                return
            except RuntimeError:
                S.prove("submit: the failure of an earlier job is reported before anything else happens", z3.And(
                    z3.BoolVal(G.log == ["flush", "refused"] and not G.hook), int_term(G.written) == 0))
                return
            S.prove("submit: the earlier job is waited for first", z3.BoolVal(G.log[0] == "flush"))
            if G.running is None:
                S.prove("submit: without a background job everything was written", z3.And(
                    int_term(G.written) == G.total.t, z3.BoolVal(G.hook == with_hook and not G.failed and x._thread is None)))
                if how == "cuda":
                    S.prove("submit: writing on the spot follows a failed snapshot", z3.BoolVal("stage" in G.log and x._disabled))
                return
            S.prove("submit: only a CUDA writer works in the background", z3.BoolVal(how == "cuda"))
            t = G.running
            S.prove("submit: the job can be waited for", z3.BoolVal(x._thread is t))
            staged, post, event = t.args
            j = c.fresh(I, "any_payload")
            S.prove("submit: every payload is staged", int_term(shims.s_len(staged)) == G.total.t)
            c.add(z3.And(j >= 0, j < G.total.t))
            obj, fin = staged.at(j)
            S.prove("submit: staged in order, each with its finalizer", z3.And(obj.k == j, z3.BoolVal(obj.staged)))
            G.background = True
            G.written = SymInt(j)
            try:
                fin(obj)
            except WriteError:
                pass
            S.prove("submit: the hook is passed on", z3.BoolVal(post is (hook if with_hook else None)))
            S.prove("submit: the snapshot is ordered after the computation, and later computation after the snapshot", z3.BoolVal(
                G.log == ["flush", ("wait stream", Cuda.compute), "stage", "event", ("record", x._copy_stream), ("wait event", event), "start"]))
            S.prove("submit: nothing was written on the spot", z3.BoolVal(not G.hook))
        return h
    for how in ("cpu", "disabled", "env", "cuda"):
        for wh in (False, True):
            S.run(f"submit[{how}, hook={wh}]", h_submit(how, wh))

    def h_write(with_hook):
        def h():
            x, G = fresh(False, True)
            G.background = True
            x._write(Payloads(G.total.t, True), hook if with_hook else None, Ev())   # must not raise
            S.prove("write: a failure is kept for the next flush", z3.BoolVal((x._error is not None) == G.failed))
            if not G.failed:
                S.prove("write: everything was written", z3.And(int_term(G.written) == G.total.t, z3.BoolVal(G.hook == with_hook)))
            elif with_hook:
                S.prove("write: no hook after a failed write", z3.Implies(int_term(G.written) != G.total.t, z3.BoolVal(not G.hook)))
            S.prove("write: the snapshot is complete before it is written", z3.BoolVal("event done" in G.log))
        return h
    for wh in (False, True):
        S.run(f"_write[hook={wh}]", h_write(wh))

    def h_init():
        class Dev:
            type = "cpu"
        x = cls(Dev())
        S.prove("a new writer is idle", z3.BoolVal(x._thread is None and x._error is None and x._copy_stream is None and not x._disabled))
    S.run("__init__", h_init)


def staging(S):
    w = World()
    m = w.module("utils.async_checkpoint")

    class Device:
        def __init__(self, t):
            self.type = t

    class T:
        def __init__(self, dev, source=None):
            self.device, self.source = Device(dev), source

        def clone(self):
            return T(self.device.type, self)

        def copy_(self, o, non_blocking=False):
            self.source = o
            log.append(("copy", cur[-1] if cur else None))
    log, cur = [], []

    class Manager:
        def __init__(self, s):
            self.s = s

        def __enter__(self):
            cur.append(self.s)

        def __exit__(self, *a):
            cur.pop()
            return False

    class Cuda:
        stream = Manager

    class Torch:
        cuda = Cuda
        empty_like = staticmethod(lambda t, device=None: T(t.device.type))
    m.torch, m.Tensor = Torch(), T
    real = m._stage_tree

    def same(a, b, memo):
        if isinstance(a, T):
            memo.setdefault(id(a), b)
            return isinstance(b, T) and b is not a and b.source is a and memo[id(a)] is b
        if isinstance(a, dict):
            return isinstance(b, dict) and b is not a and list(a) == list(b) and all(same(a[k], b[k], memo) for k in a)
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and (isinstance(a, tuple) or b is not a) and len(a) == len(b) and all(
                same(x, y, memo) for x, y in zip(a, b))
        return a is b

    def h(dev):
        def go():
            t, u = T(dev), T(dev)
            leaves = [t, u, 3, "x", None, b"z"]
            trees = [t, {}, [], (), {"a": t, "b": u}, [t, u, t], (t, (u, t)), {"m": {"w": t, "n": 1}, "l": [t, {"z": (u, 2)}]}]
            trees += [{"x": a, "y": [b, (a,)]} for a in leaves for b in leaves]
            ok = True
            for x in trees:
                ok = ok and same(x, real(x, {}, "copy stream"), {})
            S.prove("staging: every tensor is replaced by a copy of itself, shared ones once, the rest kept", z3.BoolVal(ok))
            memo = {}
            a, b = real({"p": t}, memo, "s"), real([t], memo, "s")
            S.prove("staging: tensors shared between payloads are staged once", z3.BoolVal(a["p"] is b[0]))
            S.prove("staging: device copies run on the copy stream", z3.BoolVal(all(s == "copy stream" or s == "s" for _, s in log)))
        return go
    for dev in ("cpu", "cuda"):
        S.run(f"_stage_tree[{dev}, trees of depth 3 and width 3]", h(dev))


# ---------------------------------------------------------------- the trainer
class CallError(BaseException):
    pass


def trainer(S):
    w = trainer_world()
    m = w.module("trainer.base")
    cls = m.BaseTrainer

    class State:
        pass

    class Writer:
        def __init__(self):
            self.jobs = []

        def submit(self, payloads, post_hook=None):
            self.jobs.append((list(payloads), post_hook))

    def main(models, rundir, force):
        def h():
            c = ctx()
            x = object.__new__(cls)
            x.state = State()
            it = x.state.iteration = NAT.fresh("iteration")
            x.state.epoch, x.state.rows = 3, 77
            x.save_interval, x.state_save_interval = NAT.fresh("save_interval"), (NAT.fresh("every") if c.decide(c.fresh(B, "has_every")) else None)
            c.add(x.save_interval.t >= 1)
            if x.state_save_interval is not None:
                c.add(x.state_save_interval.t >= 1)
            x._temp_snapshot_iters = set()
            if rundir:
                x.rundir = "run"
            wr = Writer()
            x._get_checkpoint_writer = lambda: wr
            x._cleanup_checkpoints = hook = lambda: None

            class Net:
                def __init__(self, n):
                    self.n = n

                def state_dict(self):
                    return ("weights", self.n)
            x._checkpointed_models = lambda: {n: Net(n) for n in models}
            x._unwrap = lambda net: net
            x._model_ckpt_path = lambda n, i: ("model", n, i)
            x._state_path = lambda i: ("state", i)
            x._build_training_state = lambda: "training state"
            wrote = []
            m.save_torch_ckpt = lambda path, sd, extra, meta: wrote.append(("model", path, sd, extra, meta))
            m._atomic_torch_save = lambda obj, path: wrote.append(("state", path, obj))

            class Iters:
                def add(self, i):
                    x._temps = x.__dict__.get("_temps", []) + [i]
            x._temp_snapshot_iters = Iters()
            x._save_checkpoint_main(force)
            S.prove("save: one job", z3.BoolVal(len(wr.jobs) == 1))
            payloads, post = wr.jobs[0]
            for obj, fin in payloads:
                fin(("staged", obj))
            due = z3.BoolVal(True) if force or x.state_save_interval is None else it.t % x.state_save_interval.t == 0
            n = len(models)
            S.prove("save: models first, then the state that refers to them, if it is due", z3.And(
                z3.BoolVal([k for k, *_ in wrote] == ["model"] * n + ["state"] * (len(wrote) - n)),
                z3.BoolVal(len(wrote) in (n, n + 1)), z3.BoolVal(len(wrote) == n + 1) == due))
            ok = z3.BoolVal(True)
            for (kind, path, sd, extra, meta), name in zip(wrote[:n], models):
                ok = z3.And(ok, z3.BoolVal(path[:2] == ("model", name) and sd == ("staged", ("weights", name)) and extra == {}), int_term(path[2]) == it.t,
                            z3.BoolVal(set(meta) == {"iteration", "epoch", "rows"} and meta["epoch"] == "3" and meta["rows"] == "77"))
            S.prove("save: each model file holds its own model, under its own name", ok)
            if len(wrote) > n:
                S.prove("save: the state file holds the training state of this iteration", z3.And(
                    z3.BoolVal(wrote[n][1][0] == "state" and wrote[n][2] == ("staged", "training state")), int_term(wrote[n][1][1]) == it.t))
            S.prove("save: pruning is the completion hook", z3.BoolVal(post is (hook if rundir else None)))
            temps = x.__dict__.get("_temps", [])
            S.prove("save: a snapshot between regular saves is remembered as temporary", z3.And(
                z3.BoolVal(len(temps) <= 1), z3.BoolVal(len(temps) == 1) == (it.t % x.save_interval.t != 0),
                *[int_term(i) == it.t for i in temps]))
        return h
    m.str = lambda v: v if isinstance(v, SymInt) else str(v)
    for models in (("a",), ("a", "b"), ("net", "ema", "teacher")):
        for rundir in (True, False):
            for force in (False, True):
                S.run(f"_save_checkpoint_main[{len(models)} models, rundir={rundir}, force={force}]", main(models, rundir, force))

    def save(force, world, every):
        """The order of the whole save: any step may fail."""
        def h():
            c = ctx()
            log = []

            def step(name, result=None):
                def f(*a, **k):
                    log.append(name)
                    if c.decide(c.fresh(B, name.replace(" ", "_") + "_fails")):
                        log.append("FAIL")
                        raise CallError(name)
                    return result(*a, **k) if callable(result) else result
                return f
            x = object.__new__(cls)
            x.state = State()
            it = x.state.iteration = NAT.fresh("iteration")
            x.state_save_interval = NAT.fresh("every") if every else None
            if every:
                c.add(x.state_save_interval.t >= 1)
            x._checkpoint_attempt_failed, x._last_state_save_iteration, x._resume_states_for_save = False, "before", None

            class Acc:
                process_index, num_processes = 0, world
            x.accelerator = Acc()
            exists = c.decide(c.fresh(B, "state_exists"))

            class P:
                @staticmethod
                def exists(p):
                    S.prove("save: files are only looked at after the previous job is done", z3.BoolVal("flush" in log and p == "state path"))
                    return exists

            class Os:
                path = P
            m.os = Os()
            x._state_path = lambda i: "state path"

            def gather(v):
                log.append("gather")
                other = c.decide(c.fresh(B, "other_rank_fails"))
                if other:
                    log.append("FAIL")
                mine = v[0]
                if isinstance(mine, tuple):
                    return [mine, (None, "rank 1: broken") if other else ("other state", None)]
                return [mine, "rank 1: broken" if other else None]
            m.gather_object = gather

            def sync(what, cb, main_process_only=False):
                S.prove("save: only the main process writes", z3.BoolVal(main_process_only))
                cb()
            x._run_synchronized_operation = sync
            x._flush_async_checkpoint_collectively = step("flush")
            x._validate_committed_checkpoint_set = step("validate old")
            x._prepare_checkpoint_directory_collectively = step("directory")
            x._runtime_generation_collectively = step("generation", "gen")
            x._capture_vq_runtime_collectively = step("capture", lambda i, g: ("manifest", g))
            x._local_resume_state = step("resume state", lambda vq_runtime=None: ("resume", vq_runtime))
            x._validate_rank_resume_states = step("validate ranks", lambda s: s)
            x._validate_current_vq_runtime_collision = step("collision")

            def commit(f):
                log.append("commit")
                S.prove("save: the state that is written was captured and validated now", z3.BoolVal(
                    not due_now or (isinstance(x._resume_states_for_save, list) and x._resume_states_for_save[0] == ("resume", ("manifest", "gen"))
                                    and "validate ranks" in log and "collision" in log)))
                if c.decide(c.fresh(B, "commit_fails")):
                    log.append("FAIL")
                    raise CallError()
            x._save_checkpoint_main = commit
            due = z3.BoolVal(True) if force or not every else it.t % x.state_save_interval.t == 0
            due_now = c.decide(due)
            failed = False
            try:
                x._save_checkpoint(force)
            except (CallError, RuntimeError):
                failed = True
            S.prove("save: a failure anywhere is reported, and nothing else is", z3.BoolVal(failed == ("FAIL" in log)))
            S.prove("save: the previous job is finished first", z3.BoolVal(log[0] == "flush"))
            if failed:
                at = log.index("FAIL")
                S.prove("save: after a failure nothing is written", z3.BoolVal("commit" not in log[at:]))
                S.prove("save: a failed attempt is remembered", z3.BoolVal(
                    x._checkpoint_attempt_failed or log[:2] == ["flush", "FAIL"] or log[at - 1] == "validate ranks"))
                S.prove("save: a failed attempt does not count as saved", z3.BoolVal(x._last_state_save_iteration == "before"))
            else:
                S.prove("save: the iteration counts as saved exactly when its state is", z3.BoolVal(
                    (x._last_state_save_iteration is it) if due_now else (x._last_state_save_iteration == "before")))
                S.prove("save: written exactly once, unless a validated state of this iteration is already there", z3.BoolVal(
                    log.count("commit") == (0 if due_now and exists else 1)))
                if due_now and exists:
                    S.prove("save: an existing state is validated", z3.BoolVal("validate old" in log))
            S.prove("save: the captured state is dropped afterwards", z3.BoolVal(x._resume_states_for_save is None or "commit" not in log))
        return h
    for force in (False, True):
        for world in (1, 2):
            for every in (False, True):
                S.run(f"_save_checkpoint[force={force}, ranks={world}, interval={every}]", save(force, world, every))


def sidecar(S):
    """The per-rank runtime file: written under a private name, linked when complete, its digest taken from the linked file."""
    w = trainer_world()
    m = w.module("trainer.base")
    cls = m.BaseTrainer

    def h():
        c = ctx()
        log, live = [], {}             # names -> "partial" / "written" / "durable"
        fds = {}

        def may_fail(what):
            log.append(what)
            if c.decide(c.fresh(B, what.replace(" ", "_") + "_fails")):
                raise WriteError(what)

        class File:
            def __init__(self, name):
                self.name = name

            def __enter__(self):
                return self

            def __exit__(self, *a):
                if live.get(self.name) == "written":
                    live[self.name] = "flushed"
                return False

            def flush(self):
                may_fail("flush")

            def fileno(self):
                return self

            def write(self, b):
                raise Unsupported("write to the runtime file")

        class Os:
            O_RDONLY, O_DIRECTORY, O_WRONLY, O_CREAT, O_EXCL = 0, 1 << 16, 1, 64, 128

            @staticmethod
            def urandom(n):
                return b"\x01" * n

            getpid = staticmethod(lambda: 77)

            @staticmethod
            def open(name, flags, mode=None, dir_fd=None):
                if name == "dir":
                    may_fail("open dir")
                    return "dirfd"
                may_fail("create")
                S.prove("runtime file: the private file is new", z3.BoolVal(flags & 192 == 192 and name not in live and dir_fd == "dirfd"))
                S.prove("runtime file: it is not written under its final name", z3.BoolVal(name != "final.pt" and m._RUNTIME_SIDECAR_RE.fullmatch(name) is None))
                live[name] = "partial"
                return name

            fdopen = staticmethod(lambda fd, mode: File(fd))

            @staticmethod
            def fsync(f):
                may_fail("fsync")
                if live[f.name] in ("written", "flushed"):
                    live[f.name] = "durable"

            @staticmethod
            def link(a, b, src_dir_fd=None, dst_dir_fd=None, follow_symlinks=True):
                S.prove("runtime file: only a complete, durable file gets the final name", z3.BoolVal(b == "final.pt" and live.get(a) == "durable"
                        and src_dir_fd == dst_dir_fd == "dirfd"))
                may_fail("link")
                live[b] = live[a]

            @staticmethod
            def unlink(a, dir_fd=None):
                S.prove("runtime file: the final name is not removed", z3.BoolVal(a != "final.pt"))
                live.pop(a, None)

            close = staticmethod(lambda fd: None)

            @staticmethod
            def read(fd, n):
                out = fds.setdefault(fd, [b"ab", b"c", b""])
                return out.pop(0)

            def __getattr__(self, k):
                raise Unsupported("os." + k)
        m.os = Os()

        class Torch:
            @staticmethod
            def save(obj, f):
                S.prove("runtime file: one write, of the whole payload", z3.BoolVal(live.get(f.name) == "partial" and set(obj) == {
                    "version", "iteration", "world_size", "rank", "generation"} and obj["rank"] == 1 and obj["world_size"] == 3 and obj["generation"] == "g" * 32))
                may_fail("write")
                live[f.name] = "written"

            def __getattr__(self, k):
                raise Unsupported("torch." + k)
        m.torch = Torch()
        x = object.__new__(cls)

        class Acc:
            process_index, num_processes = 1, 3
        x.accelerator = Acc()
        x.rundir = "run"
        Sub = type("Sub", (cls,), {"ckpt_dir": "dir"})
        x.__class__ = Sub
        x._runtime_basename = lambda it, gen, rank: "final.pt"
        x._capture_vq_runtime_payload = lambda: ({"version": 1}, {"maximum_bytes": c.fresh_limit, "raw_bytes": 0})
        size = NAT.fresh("size")
        c.fresh_limit = NAT.fresh("limit")

        class Stat:
            st_size = size

        def reopen(name):
            S.prove("runtime file: the digest is taken from the published file", z3.BoolVal(name == "final.pt" and live.get(name) == "durable"))
            return "dirfd", "filefd", Stat()
        x._open_runtime_file = reopen
        try:
            man = x._write_vq_runtime_sidecar(12, "g" * 32)
        except WriteError:
            S.prove("runtime file: after a failure nothing has the final name", z3.BoolVal("final.pt" not in live))
            S.prove("runtime file: after a failure nothing is left behind", z3.BoolVal(not live))
            return
        except RuntimeError:
            return
        import hashlib
        S.prove("runtime file: the manifest describes the published file", z3.BoolVal(
            man["sha256"] == hashlib.sha256(b"abc").hexdigest() and man["basename"] == "final.pt" and man["iteration"] == 12
            and man["generation"] == "g" * 32 and man["rank"] == 1 and man["size"] is size and set(live) == {"final.pt"}))
        S.prove("runtime file: the size bound holds", int_term(size) <= int_term(c.fresh_limit))

    class AnyTemp:
        @staticmethod
        def fullmatch(name):
            return name.startswith(".runtime-tmp_") or None
    m._RUNTIME_TEMP_RE = AnyTemp
    S.run("_write_vq_runtime_sidecar", h)


def collective(S):
    """_run_synchronized_operation: at most one call, only where it should run, and any rank's error reaches every rank."""
    w = trainer_world()
    m = w.module("trainer.base")
    cls = m.BaseTrainer

    def go(only_main, main, world):
        def h():
            c = ctx()
            x = object.__new__(cls)
            calls = []

            class Acc:
                process_index, num_processes, is_main_process = (0 if main else 1), world, main
                waits = 0

                def wait_for_everyone(self):
                    Acc.waits += 1
                    calls.append("wait")
            x.accelerator = Acc()
            mine, other = c.decide(c.fresh(B, "callback_fails")), world > 1 and c.decide(c.fresh(B, "other_fails"))

            def cb():
                calls.append("run")
                if mine:
                    raise WriteError("broken")
            m.gather_object = lambda v: [v[0], *(["rank 9: broken"] if other else [None])][:world] if world > 1 else v
            runs = main or not only_main
            try:
                x._run_synchronized_operation("op", cb, main_process_only=only_main)
            except RuntimeError:
                S.prove("collective: an error is raised only when some rank failed", z3.BoolVal((mine and runs) or other))
            else:
                S.prove("collective: every rank hears of a failure", z3.BoolVal(not (mine and runs) and not other))
            S.prove("collective: run once, where it belongs, between barriers", z3.BoolVal(calls == ["wait", *(["run"] if runs else []), "wait"]))
        return h
    for only in (False, True):
        for main in (False, True):
            for world in (1, 2):
                if world == 1 and not main:
                    continue
                S.run(f"_run_synchronized_operation[main_process_only={only}, main={main}, ranks={world}]", go(only, main, world))

    def flush(S=S):
        x = object.__new__(cls)
        x._checkpoint_attempt_failed = False
        fails = ctx().decide(ctx().fresh(B, "fails"))
        calls = []

        class Wr:
            def flush(self):
                calls.append("flush")
        x._async_checkpoint_writer = Wr() if ctx().decide(ctx().fresh(B, "has_writer")) else None

        def op(what, cb, main_process_only=False):
            cb()
            S.prove("flush: on the writing process", z3.BoolVal(main_process_only))
            if fails:
                raise WriteError()
        x._run_synchronized_operation = op
        try:
            x._flush_async_checkpoint_collectively()
        except WriteError:
            S.prove("flush: a failed write is remembered", z3.BoolVal(x._checkpoint_attempt_failed))
        else:
            S.prove("flush: failures are not swallowed", z3.BoolVal(not fails))
        S.prove("flush: the writer is waited for", z3.BoolVal(calls == (["flush"] if x._async_checkpoint_writer else [])))
    S.run("_flush_async_checkpoint_collectively", flush)


def prove(S):
    files(S)
    sidecar(S)
    collective(S)
    writer(S)
    staging(S)
    trainer(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
