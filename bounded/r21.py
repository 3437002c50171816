"""R21, real training runs on the CPU: stopped, resumed and compared bit for bit with the uninterrupted run; damaged and foreign states (bounded)."""
import copy
import glob
import os
import random
import shutil

import numpy as np

from . import cpp, training
from .harness import partial, require

_model = False


def noisy_model():
    """A model that uses everything a resume has to restore: buffers, dropout, and the random generators of Python, numpy and torch."""
    global _model
    training.setup()
    from model import MODELS
    if _model:
        return
    import torch
    import torch.nn as nn
    from model import vq
    from model.vq import VectorQuantize

    class Dense:                                       # KeOps, which compiles code, by contract
        def __init__(self, d):
            self.d = d

        def __neg__(self):
            return Dense(-self.d)

        def sqrt(self):
            return Dense(self.d.sqrt())

        def argmin(self, dim):
            return self.d.argmin(dim=dim, keepdim=True)

        def argmax(self, dim):
            return self.d.argmax(dim=dim, keepdim=True)
    vq.squared_l2_dist = lambda x, c: Dense((x[:, None] - c[None]).square().sum(-1))
    vq.l2_dist = lambda x, c: Dense((x[:, None] - c[None]).square().sum(-1).sqrt())

    class Noisy(nn.Module):
        def __init__(self, name="noisy", width=4, codes=0, seed=0):
            super().__init__()
            self.name = name
            torch.manual_seed(seed)
            self.conv = nn.Conv2d(2, width, 3, padding=1)
            self.norm = nn.BatchNorm2d(width)
            self.drop = nn.Dropout(.2)
            self.policy = nn.Conv2d(width, 1, 1)
            self.value = nn.Linear(width, 3)
            self.register_buffer("calls", torch.zeros((), dtype=torch.long))
            self.vq = VectorQuantize(codes, width, kmeans_sample_multiplier=7, kmeans_iter=2, ema_decay=.9) if codes else None

        def forward(self, data):
            x = torch.relu(self.norm(self.conv(data["board_input"].float())))
            if self.training:
                self.calls += 1
                x = x + .01 * random.random() + .01 * float(np.random.randn()) + .01 * torch.randn_like(x)
            x = self.drop(x)
            if self.vq is not None:
                b, c, h, w = x.shape
                x = self.vq(x.permute(0, 2, 3, 1).reshape(-1, c))[0].reshape(b, h, w, c).permute(0, 3, 1, 2)
            return {"value": self.value(x.mean((2, 3))), "policy": self.policy(x)[:, 0]}

        @property
        def weight_clipping(self):
            return [{"params": ["value.weight"], "min_weight": -.4, "max_weight": .4}]
    MODELS.register("pyvc_noisy")(Noisy)
    _model = True


def same(a, b):
    import torch
    if torch.is_tensor(a):
        return torch.is_tensor(b) and a.shape == b.shape and a.dtype == b.dtype and bool(torch.equal(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b)
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and bool(a == b)


def where(a, b, path=""):
    """The first place at which two values differ."""
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        for k in a:
            if not same(a[k], b[k]):
                return where(a[k], b[k], f"{path}.{k}")
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return where(x, y, f"{path}[{i}]")
    return path


def pending(q):
    """The initialisation samples a quantizer still waits with (read without going through the code that saves them)."""
    import torch
    batches = getattr(q, "_init_input_batches_this_process", None)
    return bool(q.inited), [torch.cat([x.detach() for x in batches])] if batches else [], getattr(q, "_init_input_count_this_process", None) if batches else None


def everything(t):
    import torch
    return copy.deepcopy({
        "model": {n: t._unwrap(m).state_dict() for n, m in t.models.items()},
        "pending": [(e["path"], pending(e["module"])) for e in t._vq_runtime_modules()],
        "optimizer": {n: o.state_dict() for n, o in t.optimizers.items()},
        "rates": {n: [g["lr"] for g in o.param_groups] for n, o in t.optimizers.items()},
        "scheduler": {n: {k: v for k, v in s.state_dict().items() if k != "_get_lr_called_within_step"} for n, s in t.schedulers.items()},
        "counters": (t.state.iteration, t.state.epoch, t.state.rows),
        "python": random.getstate(), "numpy": np.random.get_state(), "torch": torch.get_rng_state(),
        "data": t._resume_stream.state_dict() if t._resume_stream is not None else t._resume_sampler.state_dict()})


class Stopped(Exception):
    pass


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    import torch
    noisy_model()
    rng = H.rng
    H.bound("runs", "a small convolutional model with batch norm, dropout, quantizer and noise from all three generators, 4-14 steps on the CPU, stopped 1-3 times; streamed "
                    "and map-style processed data, 5 optimizers, 3 schedules, accumulation, clipping; generators disturbed before each resume")
    H.bound("refusals", "one field of the state, or one setting, one file or one byte of a data file changed per case")
    H.bound("ranks", "hand-made per-rank entries for 1-4 ranks, real digests")
    work = os.path.join(H.scratch, "r21")
    os.makedirs(work)
    KIND = {"stream": "iterative_processed_katago_numpy", "sampler": "processed_katago_numpy"}

    def settings():
        kind = rng.choice(["stream", "sampler"])
        gas = rng.choice([1, 1, 2, 4]) if kind == "stream" else rng.choice([1, 1, 2, 3])           # 8 batches in an epoch: see C14's open finding
        optim = rng.choice(["adamw", "adamw-ams", "sgd", "sgd-momentum", "sgd-nesterov", "muon-adamw"])
        sched, args = rng.choice([("constant", {}), ("step", {"step_size": rng.randint(1, 3), "step_gamma": .5}), ("cosine", {"eta_min": 1e-6})])
        n = rng.randint(4, 14) if gas == 1 else rng.randint(4, 8)
        return dict(dataset_type=KIND[kind], gradient_accumulation_steps=gas, optim_type=optim, lr_scheduler_type=sched, lr_scheduler_args=args, iterations=n,
                    learning_rate=10 ** -rng.uniform(1, 3), weight_decay=rng.choice([0.0, .01]), batch_size=3, clip_grad_norm=rng.choice([None, .05]),
                    model_args={"codes": rng.choice([0, 0, 4]), "seed": rng.randrange(100)}, random_seed=rng.randrange(1000), no_shuffle=rng.random() < .2,
                    model_type="pyvc_noisy", num_keep_states=-1)

    def disturb():
        torch.manual_seed(rng.randrange(1 << 30))
        np.random.seed(rng.randrange(1 << 30))
        random.seed(rng.randrange(1 << 30))

    def seeded(kw):
        """The generators as a new process finds them."""
        torch.manual_seed(kw["random_seed"])
        np.random.seed(kw["random_seed"])
        random.seed(kw["random_seed"])

    def make(d, data, kw):
        return training.make(d, data, **kw)

    def until(t, n):
        """Run, and stop (as if the process had been told to) right after step n."""
        step, seen = t._run_train_step, t.state.iteration

        def counted(batch):
            nonlocal seen
            if seen == n:
                raise Stopped
            seen += 1
            return step(batch)
        t._run_train_step = counted
        try:
            training.run(t)
        except Stopped:
            pass
        return t

    def trace(t, log):
        step = t._run_train_step

        def wrapped(batch):
            out = step(batch)
            log[t.state.iteration] = everything(t)
            return out
        t._run_train_step = wrapped
        return log

    # -- stopped and resumed
    for k in range(H.scale(14, 160)):
        kw = settings()
        n = kw["iterations"]
        cuts = sorted({rng.randint(1, n - 1) for _ in range(rng.randint(1, 3))})
        d = os.path.join(work, f"run{k}")
        data = training.write_data(os.path.join(d, "data"), rng, files=rng.choice([1, 2]), rows=(13, 12)[k % 2])
        if kw["dataset_type"] == KIND["stream"] and kw["gradient_accumulation_steps"] > 1:
            kw["dataset_args"] = {"boardsizes": [(7, 7)], "rules": ["freestyle", "standard", "renju"], "steps_per_epoch": rng.randint(1, 5)}
        by_interval = rng.random() < .5
        # saving flushes pending checks and prunes files; an uninterrupted run that saves as often is the reference

        def body():
            seeded(kw)
            a = make(os.path.join(d, "whole"), data, {**kw, "save_interval": 1000})
            log = {}
            seeded(kw)
            trace(a, log)
            training.run(a)
            require(sorted(log) == list(range(1, n + 1)), "the uninterrupted run does not take its steps")
            seeded(kw)
            b = make(os.path.join(d, "parts"), data, {**kw, "save_interval": 1 if by_interval else 1000})
            seeded(kw)
            for cut in (*cuts, None):
                mine = trace(b, {})
                first = b.state.iteration
                if cut is None:
                    training.run(b)
                else:
                    until_saved(b, cut, by_interval)
                for i, s in mine.items():
                    require(same(s, log[i]), f"a resumed run differs from the uninterrupted one in{where(s, log[i]).split('[')[0][:40]}" if first
                            else "saving changes the run", step=i, resumed_at=first, at=where(s, log[i]))
                if cut is None:
                    break
                training.close(b)
                disturb()
                b = make(os.path.join(d, "parts"), data, {**kw, "save_interval": 1 if by_interval else 1000})
                require(b.state.iteration == cut, "resuming does not start at the newest state", got=b.state.iteration, want=cut)
                got = everything(b)
                for key in ("model", "optimizer", "rates", "scheduler", "counters"):
                    require(same(got[key], log[cut][key]), f"the {key} is not restored", step=cut, at=where(got[key], log[cut][key]))
                disturb()
            require(same(everything(b), log[n]), "the end differs from the uninterrupted run", at=where(everything(b), log[n]))

        def until_saved(t, cut, by_interval):
            if by_interval:
                return until(t, cut)
            interrupt_at(t, cut)
            try:
                training.run(t)
            except KeyboardInterrupt:
                return
            require(False, "harness: the run was not interrupted", cut=cut)
        H.case("stopped and resumed", body, settings=kw, cuts=cuts, by_interval=by_interval)
        shutil.rmtree(d, ignore_errors=True)

    # -- refusals
    base = dict(dataset_type=KIND["stream"], gradient_accumulation_steps=1, optim_type="adamw", lr_scheduler_type="step", lr_scheduler_args={"step_size": 2, "step_gamma": .5},
                iterations=6, learning_rate=.01, weight_decay=.01, batch_size=3, model_args={"codes": 4}, model_type="pyvc_noisy", random_seed=5)

    def saved_run(name, kw):
        d = os.path.join(work, name)
        shutil.rmtree(d, ignore_errors=True)
        data = training.write_data(os.path.join(d, "data"), random.Random(3), files=2, rows=13)
        seeded(kw)
        training.run(make(os.path.join(d, "run"), data, {**kw, "iterations": kw["iterations"], "save_interval": 3}))
        return d, data

    def refused(d, data, kw, what):
        """Constructing or running the trainer fails before any step."""
        steps = []
        try:
            t = make(os.path.join(d, "run"), data, kw)
            t._run_train_step = lambda batch: steps.append(1) or (_ for _ in ()).throw(Stopped())
            t.iterations = t.state.iteration + 1
            training.run(t)
        except Stopped:
            require(False, what)
        except Exception:
            return
        require(bool(steps) is False and False, what)

    CHANGES = [("optimizer", dict(optim_type="sgd")), ("learning rate", dict(learning_rate=.02)), ("weight decay", dict(weight_decay=.02)),
               ("optimizer options", dict(optim_args={"eps": 1e-6})), ("schedule", dict(lr_scheduler_type="constant", lr_scheduler_args={})),
               ("schedule options", dict(lr_scheduler_args={"step_size": 3, "step_gamma": .5})), ("number of iterations", dict(iterations=9)),
               ("batch size", dict(batch_size=2)), ("accumulation", dict(gradient_accumulation_steps=2)), ("random seed", dict(random_seed=6)),
               ("shuffling", dict(no_shuffle=True)), ("data options", dict(dataset_args={"boardsizes": [(7, 7)], "rules": ["freestyle", "standard", "renju"], "apply_symmetry": True})),
               ("epoch length", dict(dataset_args={"boardsizes": [(7, 7)], "rules": ["freestyle", "standard", "renju"], "steps_per_epoch": 2})),
               ("kind of data", dict(dataset_type=KIND["sampler"])), ("number of codes", dict(model_args={"codes": 5})),
               ("quantizer", dict(model_args={"codes": 0}))]
    for kind in ("stream", "sampler"):
        kw = {**base, "dataset_type": KIND[kind]}
        d, data = saved_run("refuse", kw)
        skip = {"sampler": {"kind of data", "epoch length"}, "stream": set()}[kind]
        for name, change in CHANGES if H.scale(0, 1) else rng.sample(CHANGES, 9):
            if name in skip:
                continue
            H.case("changed setting", lambda: refused(d, data, {**kw, **change}, f"a run with another {name} resumes"), kind=kind, change=change)

        def other_files():
            p = data[1]
            old = open(p, "rb").read()
            st = os.stat(p)
            try:
                z = dict(np.load(p))
                z["bf"] = 1 - z["bf"]
                np.savez(p, **z)
                require(os.path.getsize(p) == len(old), "harness: the changed file has another size")
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
                refused(d, data, kw, "a run over changed data files resumes")
            finally:
                open(p, "wb").write(old)
                os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            refused(d, data[:1], kw, "a run over fewer data files resumes")
            refused(d, data[::-1], kw, "a run over reordered data files resumes")
        H.case("changed data", other_files, kind=kind)

        def large_file():
            """One changed byte anywhere in a file of several chunks, with its size and time kept."""
            dl = os.path.join(work, f"large-{kind}")
            files = training.write_data(os.path.join(dl, "data"), rng, files=1, rows=8)
            z = dict(np.load(files[0]))
            z["unused"] = np.zeros((8, 400_000), np.uint8)
            np.savez(files[0], **z)
            b = make(dl, files, kw2)
            training.run(b)
            training.close(b)
            old, st = open(files[0], "rb").read(), os.stat(files[0])
            spots = [rng.randrange(len(old)) for _ in range(2)] + [len(old) - 1, (1 << 20) + rng.randrange(1 << 20)]
            for spot in spots:
                raw = bytearray(old)
                raw[spot] ^= 1
                open(files[0], "wb").write(raw)
                os.utime(files[0], ns=(st.st_atime_ns, st.st_mtime_ns))
                try:
                    b = make(dl, files, kw2)
                    training.close(b)
                except Exception:
                    continue
                require(b.state.iteration == 0, "a run over changed data files resumes", byte=spot, size=len(old))
            shutil.rmtree(dl, ignore_errors=True)
        kw2 = {**kw, "iterations": 1, "dataset_args": {"boardsizes": [(7, 7)], "rules": ["freestyle", "standard", "renju"]}}
        H.case("changed data", large_file, kind=kind, size="several chunks")

        # -- one field of the saved state changed
        ck = os.path.join(d, "run", "ckpts")
        newest = max(glob.glob(os.path.join(ck, "state_*.pt")))
        model_file = max(glob.glob(os.path.join(ck, "ckpt_*.pt")))
        plain = torch.load(newest, weights_only=False)

        def leaves(v, path=()):
            if isinstance(v, dict):
                for k2 in v:
                    yield from leaves(v[k2], path + (k2,))
            elif isinstance(v, (list, tuple)) and v and not isinstance(v, tuple):
                for i, x in enumerate(v):
                    yield from leaves(x, path + (i,))
            else:
                yield path

        def put(state, path, fn):
            x = state
            for p in path[:-1]:
                x = x[p]
            x[path[-1]] = fn(x[path[-1]])

        def other(v):
            if isinstance(v, bool):
                return not v
            if isinstance(v, (int, float)):
                return v + 1
            if isinstance(v, str):
                return v + "x"
            if isinstance(v, bytes):
                return bytes([v[0] ^ 1]) + v[1:] if v else b"x"
            if isinstance(v, tuple):
                return (*v, 0)
            return "changed"
        rank = [("resume", "ranks", 0) + p for p in leaves(plain["resume"]["ranks"][0])]
        picks = rng.sample(rank, min(len(rank), H.scale(6, 60)))
        picks += [("resume", "world_size"), ("resume", "version"), ("format_version",), ("metadata", "iteration")]
        picks += [("optimizer_config",) + p for p in rng.sample(list(leaves(plain["optimizer_config"])), 2)]
        picks += [("scheduler_config",) + p for p in rng.sample(list(leaves(plain["scheduler_config"])), 2)]

        def with_state(edit, what):
            keep = open(newest, "rb").read()
            keep_model = open(model_file, "rb").read()
            try:
                edit()
                refused(d, data, kw, what)
            finally:
                open(newest, "wb").write(keep)
                open(model_file, "wb").write(keep_model)

        def edited(fn):
            s = copy.deepcopy(plain)
            fn(s)
            torch.save(s, newest)
        for path in picks:
            H.case("changed state", lambda: with_state(lambda: edited(lambda s: put(s, path, other)), f"a state with a changed {'.'.join(map(str, path))[:50]} is resumed from"),
                   kind=kind, path=path)
        for name, fn in [("no entry for the rank", lambda s: s["resume"]["ranks"].clear()), ("two entries for one rank", lambda s: s["resume"]["ranks"].append(s["resume"]["ranks"][0])),
                         ("no digest", lambda s: s["resume"]["ranks"][0].pop("local_digest")), ("another optimizer name", lambda s: s["optimizers"].update(extra=s["optimizers"]["main"])),
                         ("no optimizer", lambda s: s["optimizers"].clear()), ("another schedule name", lambda s: s["schedulers"].update(extra=s["schedulers"]["main"])),
                         ("no data position", lambda s: s.pop("resume"))]:
            H.case("changed state", lambda: with_state(lambda: edited(fn), f"a state with {name} is resumed from"), kind=kind, change=name)
        H.case("missing model", lambda: with_state(lambda: os.remove(model_file), "a state without its model file is resumed from"), kind=kind)

        def other_model():
            older = min(glob.glob(os.path.join(ck, "ckpt_*.pt")))
            require(older != model_file, "harness: one model file only")
            shutil.copy(older, model_file)
        H.case("another model", lambda: with_state(other_model, "a state is resumed with the model of another iteration"), kind=kind)
        runtime = max(glob.glob(os.path.join(ck, "runtime_*.pt")))

        def flip():
            raw = open(runtime, "rb").read()
            try:
                i = rng.randrange(len(raw))
                open(runtime, "wb").write(raw[:i] + bytes([raw[i] ^ 1]) + raw[i + 1:])
                refused(d, data, kw, "a state whose quantizer file was damaged is resumed from")
            finally:
                open(runtime, "wb").write(raw)
        for _ in range(H.scale(2, 20)):
            H.case("damaged quantizer file", flip, kind=kind)

        def intact():
            t = make(os.path.join(d, "run"), data, kw)
            require(t.state.iteration == 6, "the unchanged state is not resumed from", got=t.state.iteration)
        H.case("unchanged", intact, kind=kind)
        training.close(None) if False else None

    # -- the samples a quantizer waits with
    from model.vq import VectorQuantize

    def waiting():
        width, codes = rng.randint(1, 4), rng.randint(2, 5)
        make_vq = lambda: VectorQuantize(codes, width, kmeans_sample_multiplier=7, kmeans_iter=2)
        a, b = make_vq(), make_vq()
        g = torch.Generator().manual_seed(rng.randrange(1 << 30))
        target, left = a._init_input_samples_per_process, rng.randint(0, 4)
        for _ in range(left):
            room = target - a._init_input_count_this_process - 1
            if room > 0:
                a._accumulate_input_batch(torch.randn(rng.randint(1, room), width, generator=g))
        before = copy.deepcopy(pending(a))
        state = a._vq_init_continuation_state()
        require(same(pending(a), before), "saving changes the samples a quantizer waits with", batches=left)
        b._load_vq_init_continuation_state(copy.deepcopy(state))
        require(same(pending(b), before), "the samples a quantizer waits with are not restored", batches=left, samples=before[2])
        more = [torch.randn(rng.randint(1, target), width, generator=g) for _ in range(3)]
        ends = []
        for q in (a, b):
            q.load_state_dict(a.state_dict()) if q is b else None
        for q in (a, b):
            torch.manual_seed(5)
            for x in more:
                if not bool(q.inited):
                    q._accumulate_input_batch(x)
            ends.append(copy.deepcopy((pending(q), q.state_dict())))
        require(same(*ends), "a quantizer initialises differently after a resume", batches=left)
    for _ in range(H.scale(25, 300)):
        H.case("waiting samples", waiting)

    # -- the per-rank entries
    from trainer.base import BaseTrainer
    import hashlib
    from dataset.core import canonical_pipeline_state_bytes as canon

    def digest(s):
        return hashlib.sha256(canon(s)).hexdigest()

    def entry(slot, kind, shared, own):
        s = {"supported": True, "slot": slot, "rank": slot, "data_stream_signature": {"a": shared}, "rng": {"x": own}}
        if kind == "stream":
            s.update(cursor_kind="file_stream_v1", stream={"pos": shared}, slice=[slot, slot + 1])
        else:
            s.update(cursor_kind="map_sampler_v1", sampler={"position": shared, "rank": slot})
        return sign(s)

    def sign(s):
        s.pop("local_digest", None)
        s.pop("global_digest", None)
        s["global_digest"] = digest(BaseTrainer._global_resume_projection(s))
        s["local_digest"] = digest(s)
        return s

    def ranks():
        n = rng.randint(1, 4)
        kind = rng.choice(["stream", "sampler"])
        t = partial(object.__new__(BaseTrainer))
        t.accelerator = type("A", (), {"num_processes": n, "process_index": rng.randrange(n)})()
        shared = rng.randrange(9)
        good = [entry(i, kind, shared, rng.randrange(1000)) for i in range(n)]
        mixed = rng.sample(good, n)
        require(t._validate_rank_resume_states(copy.deepcopy(mixed)) == good, "the entries are not returned in rank order", ranks=n)
        bad = copy.deepcopy(mixed)
        i = rng.randrange(n)
        how = rng.choice(["leaf", "rank", "twice", "missing", "position", "signature", "slot type", "kind", "not a dictionary"])
        if how == "leaf":
            path = rng.choice(list(leaves(bad[i])))
            put(bad[i], path, other)
        elif how == "rank":
            bad[i]["rank"] += 1
            sign(bad[i])
        elif how == "twice":
            if n == 1:
                return
            j = (i + 1) % n
            bad[i] = copy.deepcopy(bad[j])
        elif how == "missing":
            del bad[i]
            if not bad:
                return
        elif how == "slot type":
            bad[i]["slot"] = bad[i]["rank"] = float(bad[i]["slot"])
            sign(bad[i])
        elif how == "kind":
            bad[i]["cursor_kind"] = "other"
            sign(bad[i])
        elif how == "not a dictionary":
            bad[i] = list(bad[i])
        else:
            if n == 1:
                return
            if how == "signature":
                bad[i]["data_stream_signature"]["a"] += 1
            elif kind == "stream":
                bad[i]["stream"]["pos"] += 1
            else:
                bad[i]["sampler"]["position"] += 1
            sign(bad[i])
        try:
            t._validate_rank_resume_states(bad)
        except (RuntimeError, TypeError, ValueError):
            return
        require(False, f"per-rank entries that do not fit ({how}) are accepted", ranks=n)
    for _ in range(H.scale(400, 4000)):
        H.case("per-rank entries", ranks)


def interrupt_at(t, cut):
    """A KeyboardInterrupt between the step that ends at `cut` and the next one."""
    from trainer.base import TrainingState
    fired = []

    class Interrupting(TrainingState):
        @property
        def iteration(self):
            v = self.__dict__["iteration"]
            if v == cut and not fired and t._checkpoint_safe and t.state.__dict__.get("ready"):
                fired.append(1)
                raise KeyboardInterrupt
            return v

        @iteration.setter
        def iteration(self, v):
            self.__dict__["iteration"] = v
            self.__dict__["ready"] = v == cut
    t.state.__class__ = Interrupting
