"""C12, executable contracts: checkpoints interrupted before every file-system operation; the background writer under
failing writes and forced timing (bounded)."""
import os
import re
import shutil
import threading
import types

from .harness import require
from . import cpp, crash, training


class Boom(Exception):
    pass


def files_of(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}


def run(H):
    import torch
    torch.set_num_threads(1)
    single_files(H)
    async_writer(H)
    whole_saves(H)
    failing_steps(H)


# ---------------------------------------------------------------- one file
def single_files(H):
    import torch
    from utils import file_utils
    training.setup()
    from trainer import base
    rng = H.rng
    H.bound("interrupted files", "save_torch_ckpt and the state writer, with and without a previous file and with leftovers of an "
            "earlier interruption, stopped before every file-system operation and inside every write")

    def same(a, b):
        if isinstance(a, dict):
            return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
        return torch.equal(a, b) if isinstance(a, torch.Tensor) else a == b

    def case(which, previous, leftover, name):
        d = os.path.join(H.scratch, "one")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        path = os.path.join(d, name)
        final = path if which == "state" or os.path.splitext(name)[1] else path + ".pt"
        old = {"model": {"w": torch.arange(3.)}, "iteration": "1"}
        new = {"model": {"w": torch.arange(4000.) + 7, "b": torch.ones(2)}, "iteration": "2", "epoch": "0"}

        def prepare():
            shutil.rmtree(d)
            os.makedirs(d)
            if previous:
                torch.save(old, final)
            if leftover:
                open(final + ".tmp", "wb").write(b"PK half a file")
                open(final + ".bak", "wb").write(b"something else")

        def action():
            if which == "state":
                base._atomic_torch_save(new, path)
            else:
                file_utils.save_torch_ckpt(path, new["model"], {}, {k: v for k, v in new.items() if k != "model"})
        prepare()
        steps = 0
        for n, err in crash.every_interruption(action):
            require(not err, "writing a checkpoint failed", which=which, error=err)
            steps += 1
            got = torch.load(final, weights_only=False) if os.path.exists(final) else None
            if n is None:
                require(same(new, got), "the finished file does not hold the checkpoint", which=which, got=got)
                others = [f for f in os.listdir(d) if os.path.join(d, f) not in (final, final + ".bak")]
                require(not others, "a finished save leaves extra files", files=others)
            else:
                require((got is None and not previous) or (got is not None and (same(old, got) if previous else False)) or same(new, got),
                        "an interruption leaves neither the old nor the new file", which=which, at=n, previous=previous, got=got)
            prepare()
        H.counts["interruption points"] = H.counts.get("interruption points", 0) + steps
    for which in ("model", "state"):
        for previous in (False, True):
            for leftover in (False, True):
                for name in ("x_1.pt", "x_1"):
                    if which == "state" and name == "x_1":
                        continue
                    def go():
                        try:
                            case(which, previous, leftover, name)
                        except (RuntimeError, EOFError, OSError, ValueError) as e:
                            require(False, "an interruption leaves an unreadable file", which=which, previous=previous, error=repr(e))
                    H.case("one file", go, which=which, previous=previous, leftover=leftover, name=name)
    # not an interruption but an error: the old file stays and the error arrives
    for which in ("model", "state"):
        def go():
            d = os.path.join(H.scratch, "err")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, which + ".pt")
            torch.save({"model": {"w": torch.zeros(1)}}, path)
            before = open(path, "rb").read()
            bad = {"model": lambda: 0}             # cannot be pickled
            try:
                if which == "state":
                    base._atomic_torch_save(bad, path)
                else:
                    file_utils.save_torch_ckpt(path, bad, {}, {})
            except Exception:
                pass
            else:
                require(False, "a failed write is not reported", which=which)
            require(open(path, "rb").read() == before, "a failed write damages the previous file", which=which)
        H.case("failed write", go, which=which)


# ---------------------------------------------------------------- the writer
def fake_cuda(torch):
    class Stream:
        def __init__(self, *a, **k):
            pass

        def wait_stream(self, s):
            pass

        def wait_event(self, e):
            pass

        def synchronize(self):
            pass

    class Event:
        def __init__(self, *a, **k):
            pass

        def record(self, s=None):
            pass

        def synchronize(self):
            pass

        def wait(self, *a):
            pass

        def query(self):
            return True
    from contextlib import contextmanager

    @contextmanager
    def stream(s):
        yield
    cuda = types.SimpleNamespace(Stream=Stream, Event=Event, stream=stream, current_stream=lambda d=None: Stream(), OutOfMemoryError=MemoryError)

    class T:
        def __getattr__(self, k):
            return cuda if k == "cuda" else getattr(torch, k)
    return T()


def async_writer(H):
    import torch
    import importlib
    rng = H.rng
    H.bound("writer histories", "random submissions with up to 4 payloads, failing payloads and hooks, tensors changed right after "
            "submission, slow writes, with and without a (simulated) CUDA device, and a snapshot that does not fit")
    m = importlib.import_module("utils.async_checkpoint")
    real_torch = m.torch

    def history(kind, plan):
        m.torch = fake_cuda(torch) if kind != "cpu" else real_torch
        saved = m._stage_tree
        os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
        if kind == "env":
            os.environ["NNUE_SYNC_CHECKPOINT"] = "1"
        calls = {"n": 0}
        if kind == "oom":
            def full(*a, **k):
                calls["n"] += 1
                if calls["n"] > 2:
                    raise MemoryError("no room for a snapshot")
                return saved(*a, **k)
            m._stage_tree = full
        try:
            w = m.AsyncCheckpointWriter(types.SimpleNamespace(type="cpu" if kind == "cpu" else "cuda"))
            log, lock, active = [], threading.Lock(), [0]
            pending = None                     # the failure that must be reported next
            expect, background = [], kind == "cuda"

            def start(job, i):
                with lock:
                    active[0] += 1
                    require_later.append(active[0] == 1)
                    log.append((job, i))

            def end():
                with lock:
                    active[0] -= 1
            require_later = []
            for job, (n, fail_at, hook, hook_fails, change, wait, flush) in enumerate(plan):
                tensors = [torch.full((3,), float(10 * job + i)) for i in range(n)]
                seen = {}
                gate = threading.Event()

                def fin(i, job=job, fail_at=fail_at, seen=seen, gate=gate, wait=wait):
                    def finalize(obj):
                        start(job, i)
                        try:
                            if wait and threading.current_thread() is not threading.main_thread():
                                gate.wait(.02)
                            seen[i] = (float(obj["t"][0]), obj["tag"], obj["t"] is obj["again"][0])
                            if i == fail_at:
                                raise Boom((job, i))
                        finally:
                            end()
                    return finalize
                payloads = [({"t": t, "tag": f"{job}.{i}", "again": (t,)}, fin(i)) for i, t in enumerate(tensors)]

                def post(job=job, hook_fails=hook_fails):
                    start(job, "hook")
                    try:
                        if hook_fails:
                            raise Boom((job, "hook"))
                    finally:
                        end()
                here = [(job, i) for i in range(n if fail_at is None else fail_at + 1)]
                fails = fail_at is not None
                if not fails and hook:
                    here.append((job, "hook"))
                    fails = hook_fails
                who = here[-1] if fails else None
                err = None
                try:
                    w.submit(payloads, post_hook=post if hook else None)
                except Boom as e:
                    err = e
                except RuntimeError as e:
                    err = e
                if pending is not None:
                    require(isinstance(err, RuntimeError) and isinstance(err.__cause__, Boom) and err.__cause__.args[0] == pending,
                            "a failed background write is not reported at the next submission", got=repr(err), expected=pending)
                    require(not any(j == job for j, _ in list(log)), "something was written after a failure nobody was told about", log=list(log))
                    pending = None
                    continue
                sync_now = not background
                if sync_now:
                    expect += here
                    require((err is not None) == fails, "a failed write is not reported to the caller", got=repr(err), job=job)
                    require(not fails or err.args[0] == who, "the wrong failure is reported", got=repr(err))
                    require(log == expect, "payloads are not written in order, each once, with the hook last", log=list(log), expected=expect)
                else:
                    require(err is None, "a background submission failed although nothing had failed before", got=repr(err))
                    if change:
                        for t in tensors:
                            t.fill_(-1.)
                    gate.set()
                    expect += here
                    pending = who
                if flush:
                    err = None
                    try:
                        w.flush()
                    except RuntimeError as e:
                        err = e
                    if pending is not None:
                        require(err is not None and isinstance(err.__cause__, Boom) and err.__cause__.args[0] == pending,
                                "a failed background write is not reported at the next flush", got=repr(err), expected=pending)
                        pending = None
                    else:
                        require(err is None, "flush reports a failure that did not happen", got=repr(err))
                    require(log == expect, "after a flush payloads are missing, repeated or out of order", log=list(log), expected=expect)
                    for i, v in seen.items():
                        require(v[0] == 10 * job + i and v[1] == f"{job}.{i}" and v[2], "what was written is not what was submitted", job=job, payload=i, got=v)
            try:
                w.flush()
                err = None
            except RuntimeError as e:
                err = e
            require((err is not None) == (pending is not None), "the last failure is not reported", got=repr(err), expected=pending)
            w.flush()
            require(log == expect, "payloads are not written in order, each once, with the hook last", log=log, expected=expect)
            require(all(require_later), "two jobs overlap")
        finally:
            m.torch, m._stage_tree = real_torch, saved
            os.environ.pop("NNUE_SYNC_CHECKPOINT", None)
    for _ in range(H.scale(250, 2500)):
        kind = rng.choice(["cuda", "cuda", "cuda", "cpu", "env", "oom"])
        plan = []
        for _ in range(rng.randint(1, 5)):
            n = rng.randint(0, 4)
            hook = rng.random() < .7
            plan.append((n, rng.randrange(n) if n and rng.random() < .3 else None, hook, hook and rng.random() < .25,
                         rng.random() < .6, rng.random() < .4, rng.random() < .4))
        if kind == "oom":       # the first job's snapshot fails, everything is then written on the spot
            plan = [(max(3, p[0]), *p[1:]) for p in plan]
        H.case("writer history", lambda: history(kind, plan), kind=kind, plan=plan)


# ---------------------------------------------------------------- whole saves
CKPT = re.compile(r"ckpt_(.+)_(\d+)\.pt")
STATE = re.compile(r"state_(\d+)\.pt")


def readable(d, models, where):
    """Every file under a final name is complete, and every state has all it needs."""
    import torch
    names = os.listdir(d) if os.path.isdir(d) else []
    found = {}
    for f in names:
        if not f.endswith(".pt") or f.startswith("."):
            continue
        try:
            found[f] = torch.load(os.path.join(d, f), weights_only=True)
        except Exception as e:
            require(False, "an incomplete file stands under a final name", file=f, error=repr(e)[:300], where=where)
    for f, saved in found.items():
        if k := CKPT.fullmatch(f):
            require(saved.get("iteration") == str(int(k[2])), "a model file holds another iteration", file=f, where=where)
        if k := STATE.fullmatch(f):
            it = int(k[1])
            require(saved["metadata"]["iteration"] == it, "a state file holds another iteration", file=f, where=where)
            for n in models:
                require(f"ckpt_{n}_{it:07d}.pt" in found, "a state is visible without a model file it refers to", file=f, model=n, where=where)
            for rank in saved["resume"]["ranks"]:
                v = rank.get("vq_runtime")
                if v:
                    require(v["basename"] in found, "a state is visible without its runtime file", file=f, where=where)
    return found


def whole_saves(H):
    import torch
    rng = H.rng
    cpp.build(H, "dataset_planner_cpp")
    H.bound("interrupted saves", "the trainer's whole save (one and two models, first, later, forced, with temporary snapshots and pruning), "
            "stopped before every file-system operation and inside every write")

    def case(two, keep, every, its, force):
        d = os.path.join(H.scratch, "whole")
        shutil.rmtree(d, ignore_errors=True)
        data = training.write_data(os.path.join(d, "data"), rng)
        t = training.make(os.path.join(d, "run"), data, iterations=100, save_interval=4, temp_save_interval=2, state_save_interval=every,
                          num_keep_states=keep)
        models = ["tiny"]
        if two:
            import copy
            second = copy.deepcopy(t._unwrap(t.model))
            second.w.data += 1
            both = {"tiny": t.model, "teacher": second}
            t._checkpointed_models = lambda: both
            models.append("teacher")
        for it in its[:-1]:
            t.state.iteration = it
            with training.Quiet():
                t._save_checkpoint(force_state=force)
        t.state.iteration = its[-1]
        ck = t.ckpt_dir
        before = files_of(ck) if os.path.isdir(ck) else None
        want = {n: {k: v.clone() for k, v in t._unwrap(m).state_dict().items()} for n, m in t._checkpointed_models().items()}

        def restore():
            shutil.rmtree(ck, ignore_errors=True)
            if before is not None:
                os.makedirs(ck)
                for f, b in before.items():
                    open(os.path.join(ck, f), "wb").write(b)

        def action():
            with training.Quiet():
                t._save_checkpoint(force_state=force)
        steps = 0
        old_states = [int(k[1]) for f in (before or {}) if (k := STATE.fullmatch(f))]
        for n, err in crash.every_interruption(action):
            require(not err, "saving failed", error=err)
            steps += 1
            found = readable(ck, models, f"stopped before operation {n}" if n is not None else "finished")
            states = [int(k[1]) for f in found if (k := STATE.fullmatch(f))]
            if old_states:
                require(states and max(states) >= max(old_states), "an interruption loses the newest state", before=old_states, after=states, at=n)
            if n is None:
                for name in models:
                    f = f"ckpt_{name}_{its[-1]:07d}.pt"
                    require(f in found, "a finished save has no model file", file=f)
                    for k, v in want[name].items():
                        require(torch.equal(found[f]["model"][k], v), "a model file holds another model", file=f)
                due = force or every is None or its[-1] % every == 0
                require((f"state_{its[-1]:07d}.pt" in found) == due, "a finished save has the wrong state files", states=states, due=due)
            restore()
        H.counts["interruption points"] = H.counts.get("interruption points", 0) + steps
        training.close(t)
    cases = [(False, 1, None, [2, 4, 6], False), (True, 1, None, [4, 6], False), (True, 2, 4, [2, 4, 6, 8, 10], False),
             (False, 1, 4, [2, 4, 6], True), (False, -1, None, [4], False)]
    for _ in range(H.scale(1, 12)):
        k = rng.randint(1, 5)
        cases.append((rng.random() < .5, rng.choice([1, 2, -1]), rng.choice([None, 2, 4]), sorted(rng.sample(range(2, 30, 2), k)), rng.random() < .3))
    for two, keep, every, its, force in cases:
        H.case("whole save", lambda: case(two, keep, every, its, force), two_models=two, num_keep_states=keep, state_save_interval=every,
               iterations=its, force=force)


def failing_steps(H):
    """A step of the save that raises: the error is reported, nothing half-written is visible, and no state is published."""
    import torch
    rng = H.rng
    H.bound("failing saves", "torch.save, rename, link and the writer's flush failing at every call of one save")

    def case(op, at):
        d = os.path.join(H.scratch, "fail")
        shutil.rmtree(d, ignore_errors=True)
        data = training.write_data(os.path.join(d, "data"), rng)
        t = training.make(os.path.join(d, "run"), data, iterations=100, save_interval=4, temp_save_interval=2)
        t.state.iteration = 2
        with training.Quiet():
            t._save_checkpoint()
        t.state.iteration = 4
        last = t._last_state_save_iteration
        mod, name = {"save": (torch, "save"), "replace": (os, "replace"), "link": (os, "link")}[op]
        real, n = getattr(mod, name), [0]

        def failing(*a, **k):
            n[0] += 1
            if n[0] == at:
                if op == "save" and isinstance(a[1], str):
                    open(a[1], "wb").write(b"PK")
                raise Boom(op)
            return real(*a, **k)
        setattr(mod, name, failing)
        err = None
        try:
            with training.Quiet():
                t._save_checkpoint()
                t._flush_async_checkpoint_collectively()
        except Exception as e:
            err = e
        finally:
            setattr(mod, name, real)
        if n[0] < at:
            require(err is None, "a save failed by itself", error=repr(err))
            training.close(t)
            return False
        found = readable(t.ckpt_dir, ["tiny"], f"{op} {at} failed")
        require(err is not None, "a failed save is not reported", operation=op, call=at)
        require("state_0000004.pt" not in found, "a failed save publishes a state", operation=op, call=at)
        require("state_0000002.pt" in found and "ckpt_tiny_0000002.pt" in found, "a failed save loses the previous checkpoint", operation=op, call=at)
        require(t._last_state_save_iteration == last, "a failed save counts as saved", operation=op, call=at)
        training.close(t)
        return True
    for op in ("save", "replace", "link"):
        for at in range(1, 12):
            more = []
            ok = H.case("failing save", lambda: more.append(case(op, at)), operation=op, call=at)
            if not ok or not more or not more[0]:
                break
