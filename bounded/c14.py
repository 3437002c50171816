"""C14, real training runs on the CPU: gradient accumulation against a hand-made reference, failures at every position of a step,
interrupts at every line of the loop (bounded)."""
import copy
import glob
import json
import math
import os
import shutil
import sys

from . import cpp, training
from .harness import partial, require


class Broken(Exception):
    pass


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    import torch
    rng = H.rng
    H.bound("runs", "tiny model, 1-4 accumulated micro-batches, 2-6 steps, streamed and map-style data with epoch changes inside a step, SGD / AdamW with schedules; "
                    "one failure or interrupt per run at a random position; all on one CPU process")
    KIND = {"stream": "iterative_processed_katago_numpy", "sampler": "processed_katago_numpy"}
    work = os.path.join(H.scratch, "c14")
    os.makedirs(work)
    data = training.write_data(os.path.join(work, "data"), rng, files=2, rows=13)

    def make(name, kind, gas, **kw):
        d = os.path.join(work, name)
        shutil.rmtree(d, ignore_errors=True)
        return training.make(d, data, dataset_type=KIND[kind], gradient_accumulation_steps=gas, batch_size=3, **kw)

    def cursor(t):
        """The committed data position."""
        if t._resume_stream is not None:
            return copy.deepcopy(t._resume_stream.state_dict())
        return copy.deepcopy(t._resume_sampler.state_dict())

    def same(a, b):
        if torch.is_tensor(a):
            return torch.is_tensor(b) and a.shape == b.shape and bool(torch.equal(a, b))
        if isinstance(a, dict):
            return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(map(same, a, b))
        try:
            return bool(a == b)
        except Exception:
            return a is b or repr(a) == repr(b)

    def params(t):
        return [p for m in t.models.values() for p in t._unwrap(m).parameters()]

    def spy(t, log):
        """Record what each step consumed, computed and left behind."""
        step, inner, fetch = t._run_train_step, t.train_step, t._fetch_batch

        def train_step(batch, **kw):
            out = inner(batch, **kw)
            log["batches"].append({k: v.clone() for k, v in batch.items() if torch.is_tensor(v)})
            ps = params(t)
            log["grads"].append([g.clone() for g in torch.autograd.grad(out[0], ps, retain_graph=True)])
            log["losses"].append({k: float(v) for k, v in out[1].items() if torch.is_tensor(v) and v.ndim == 0})
            return out

        def run_step(batch):
            log["grads"].clear()
            log["losses"].clear()
            before = [p.detach().clone() for p in params(t)]
            n = len(log["batches"])
            res = step(batch)
            log["steps"].append(dict(before=before, after=[p.detach().clone() for p in params(t)], grads=[list(g) for g in log["grads"]],
                                     losses=list(log["losses"]), reported={k: float(v) for k, v in res[0].items() if torch.is_tensor(v) and v.ndim == 0},
                                     batches=len(log["batches"]) - n, cursor=cursor(t), epoch=t.state.epoch, counters=(t.state.iteration, t.state.rows)))
            return res
        t.train_step, t._run_train_step = train_step, run_step
        return log
    factor = lambda kind: rng.choice((1, 2, 4)) if kind == "stream" else rng.randint(1, 4)     # 8 batches in an epoch, see the last case
    new = lambda: dict(batches=[], grads=[], losses=[], steps=[])

    def drop(c):
        """The position without what legitimately depends on the number of steps."""
        return {k: v for k, v in c.items() if k not in ("config", "fingerprint")} if isinstance(c, dict) else c

    def next_epoch(got, was):
        """The end of an epoch and the start of the next are one position: the stream enters the epoch when its first batch is asked for."""
        a, b = got.get("cursor"), was.get("cursor")
        return (isinstance(b, dict) and b["finished"] and not a["finished"] and (a["epoch"], a["batch_index"], a["source_cycle"]) == (b["epoch"] + 1, 0, 0)
                and a["source_cursor"]["epoch"] == a["epoch"] and a["source_cursor"]["file_position"] == a["source_cursor"]["row_position"] == 0
                and a["reservoir"]["offered"] == a["reservoir"]["emitted"] == 0 and not a["ready_ids_le"] and not a["shape_queues"]
                and same({k: v for k, v in got.items() if k not in ("cursor", "cursor_digest")}, {k: v for k, v in was.items() if k not in ("cursor", "cursor_digest")}))

    # -- accumulation: parameters after each step are those of the mean gradient; all metrics are means; the batches are the plain sequence
    for k in range(H.scale(6, 40)):
        kind = ("stream", "sampler")[k % 2]
        gas, steps, lr = factor(kind), rng.randint(2, 6), 10 ** -rng.randint(1, 3)
        clip = rng.choice([None, None, .01])

        def body():
            t = make("a", kind, gas, iterations=steps, optim_type="sgd", learning_rate=lr, weight_decay=0.0, clip_grad_norm=clip)
            log = spy(t, new())
            start = cursor(t)
            training.run(t)
            require(len(log["steps"]) == steps and len(log["batches"]) == steps * gas, "a step does not take its number of micro-batches",
                    batches=len(log["batches"]), steps=len(log["steps"]))
            prev = start
            for i, s in enumerate(log["steps"]):
                mean = [sum(g[j] for g in s["grads"]) / gas for j in range(len(s["before"]))]
                if clip is not None:
                    norm = math.sqrt(sum(float((g ** 2).sum()) for g in mean))
                    mean = [g * min(1.0, clip / (norm + 1e-6)) for g in mean]
                for b, a, g in zip(s["before"], s["after"], mean):
                    require(torch.allclose(a, b - lr * g, rtol=1e-4, atol=1e-6), "a step is not one optimizer step on the mean gradient", step=i, moved=a - b, want=-lr * g)
                for key, v in s["reported"].items():
                    want = sum(x[key] for x in s["losses"]) / gas
                    require(abs(v - want) <= 1e-5 * max(1, abs(want)), "a reported loss is not the mean over the micro-batches", key=key, got=v, want=want, step=i)
                require(s["counters"] == (i + 1, (i + 1) * 3 * gas), "the counters do not follow the steps", counters=s["counters"], step=i)
                require(not same(prev, s["cursor"]), "a step did not commit its batches", step=i)
                prev = s["cursor"]
            # the same rows in the same order as training with one micro-batch per step
            u = make("b", kind, 1, iterations=steps * gas, optim_type="sgd", learning_rate=lr, weight_decay=0.0)
            other = spy(u, new())
            training.run(u)
            for i, (x, y) in enumerate(zip(log["batches"], other["batches"])):
                require(same(x, y), "accumulation changes the order of the data", batch=i)
            for i, s in enumerate(log["steps"]):
                require(same(drop(s["cursor"]), drop(other["steps"][(i + 1) * gas - 1]["cursor"])),
                        "the committed position is not that of the consumed batches", step=i)
        H.case(f"accumulation {kind}", body, gas=gas, steps=steps, lr=lr, clip=clip)

    # -- what is written to the log: the mean of the steps since metrics were last reported
    for k in range(H.scale(4, 20)):
        kind = ("stream", "sampler")[k % 2]
        gas, steps, every, show = factor(kind), rng.randint(3, 9), rng.randint(1, 4), rng.choice([2, 3, 1000])

        def logged():
            t = make("l", kind, gas, iterations=steps, optim_type="sgd", learning_rate=.01, weight_decay=0.0, log_interval=every, show_interval=show)
            log = spy(t, new())
            training.run(t)
            lines = []
            for p in glob.glob(os.path.join(work, "l", "**", "*.jsonl"), recursive=True):
                with open(p) as f:
                    lines += [x for x in map(json.loads, f) if "train_loss" in x]
            require([x["it"] for x in lines] == [i for i in range(1, steps + 1) if i % every == 0], "metrics are not logged at their interval", its=[x["it"] for x in lines])
            for x in lines:
                last = max([i for i in range(1, x["it"]) if i % every == 0 or i % show == 0], default=0)
                window = log["steps"][last:x["it"]]
                require(x["train_loss"].keys() == window[-1]["reported"].keys(), "the log misses metrics", keys=list(x["train_loss"]))
                for key, v in x["train_loss"].items():
                    want = sum(s["reported"][key] for s in window) / len(window)
                    require(abs(v - want) <= 1e-5 * max(1, abs(want)), "a logged loss is not the mean of its steps", key=key, got=v, want=want, it=x["it"])
        H.case("logged metrics", logged, kind=kind, gas=gas, steps=steps, log=every, show=show)

    # -- the same over several ranks: the mean of the ranks' means, name by name
    from trainer.base import BaseTrainer
    import types
    for k in range(H.scale(20, 200)):
        world, n = rng.randint(1, 4), rng.randint(1, 5)
        a, b = [f"l{i}" for i in range(rng.randint(0, 3))], [f"a{i}" for i in range(rng.randint(0, 3))]
        sums = [[rng.uniform(-9, 9) for _ in a + b] for _ in range(world)]

        def over_ranks():
            for r in range(world):
                x = partial(object.__new__(BaseTrainer))

                def gather(v):
                    require(v.ndim == 1 and len(v) == len(a + b), "other values are gathered", got=tuple(v.shape))
                    return torch.cat([v if q == r else torch.tensor(sums[q], dtype=v.dtype) / n for q in range(world)])
                x.accelerator = types.SimpleNamespace(num_processes=world, process_index=r, is_main_process=r == 0, gather=gather, device=torch.device("cpu"))
                got = x._gather_train_metrics({k: torch.tensor(v) for k, v in zip(a, sums[r])}, {k: torch.tensor(v) for k, v in zip(b, sums[r][len(a):])}, n)
                for d, names, first in ((got[0], a, 0), (got[1], b, len(a))):
                    require(sorted(d) == names, "a metric is missing or in the wrong place", got=list(d), want=names)
                    for j, key in enumerate(names):
                        want = sum(s[first + j] for s in sums) / world / n
                        require(abs(float(d[key]) - want) <= 1e-4, "a reported metric is not the mean over ranks and steps", key=key, got=d[key], want=want)
        H.case("metrics over ranks", over_ranks, world=world, steps=n, losses=len(a), auxes=len(b))

    # -- sums are kept apart from what they were made of
    from utils.misc_utils import add_dict_to
    for k in range(H.scale(10, 50)):
        parts = [{key: torch.tensor(rng.uniform(-9, 9)) for key in rng.sample("abcd", rng.randint(0, 4))} for _ in range(rng.randint(1, 4))]

        def summed():
            copies, total = copy.deepcopy(parts), {}
            for d in parts:
                add_dict_to(total, d)
            require(all(same(x, y) for x, y in zip(parts, copies)), "summing metrics changes the metrics of a step", got=parts, want=copies)
            require(set(total) == {key for d in parts for key in d}, "a sum is missing", got=list(total))
            for key, v in total.items():
                require(abs(float(v) - sum(float(d[key]) for d in copies if key in d)) <= 1e-4, "a sum is not the sum", key=key, got=v)
        H.case("sums of metrics", summed, steps=len(parts))

    # -- clipping of gradients: one factor for all, whatever their types
    from utils.training_utils import clip_grad_norm
    for k in range(H.scale(60, 400)):
        mixed, limit, scale = rng.random() < .4, rng.choice([.1, 1.0, 50.0, math.inf]), 10.0 ** rng.randint(-3, 3)
        ps = []
        for j in range(rng.randint(0, 5)):
            q = torch.nn.Parameter(torch.zeros(rng.randint(1, 4), rng.randint(1, 4), dtype=rng.choice([torch.float64, torch.float32]) if mixed else torch.float32))
            if rng.random() < .8:
                q.grad = torch.tensor([[rng.gauss(0, scale) for _ in range(q.shape[1])] for _ in range(q.shape[0])], dtype=q.dtype)
            ps.append(q)
        was = [None if q.grad is None else q.grad.clone() for q in ps]

        class Net(torch.nn.Module):
            def __init__(self, part):
                super().__init__()
                for j, q in enumerate(part):
                    self.register_parameter(f"p{j}", q)

        def trainer_clips(ps, limit):
            """The trainer's own call, the parameters spread over two models."""
            t = partial(object.__new__(BaseTrainer))
            t.models = {"a": Net(ps[:2]), "b": Net(ps[2:])}
            t.clip_grad_norm, t.clip_grad_value = (None if limit == math.inf else limit), None
            t.accelerator = types.SimpleNamespace(num_processes=1, process_index=0, is_main_process=True)
            return t._clip_gradients()
        whole = trainer_clips if k % 2 else None

        def clipped():
            got = float(clip_grad_norm(ps, limit)) if whole is None else float(whole(ps, limit))
            norm = math.sqrt(sum(float((g.double() ** 2).sum()) for g in was if g is not None))
            require(abs(got - norm) <= 1e-4 * max(norm, 1e-6), "the reported norm is not that of all gradients", got=got, want=norm)
            c = min(1.0, limit / (norm + 1e-6))
            for q, g in zip(ps, was):
                require((q.grad is None) == (g is None), "a gradient appears or disappears")
                require(g is None or torch.allclose(q.grad, g * c, rtol=1e-4, atol=1e-9), "the gradients are not scaled by one factor to the limit", got=q.grad, was=g, factor=c)
        H.case("clipping", clipped, limit=limit, types="mixed" if mixed else "one")

    # -- a failure anywhere in a step
    where = ["on_before_step", "train_step", "backward", "_clip_gradients", "prepare_commit", "opt.step", "sched.step", "zero_grad", "on_after_step", "fetch", "nan loss", "metrics"]
    for k in range(H.scale(len(where) * 4, len(where) * 20)):
        kind = ("stream", "sampler")[(k // len(where)) % 2]
        pos = where[k % len(where)]
        gas = factor(kind)
        at, micro = rng.randint(1, 4), rng.randrange(gas)
        save = rng.choice([1, 2, 1000])

        def body():
            t = make("f", kind, gas, iterations=6, save_interval=save, num_keep_states=-1)
            log = spy(t, new())
            start = dict(cursor=cursor(t), epoch=t.state.epoch, counters=(t.state.iteration, t.state.rows))
            seen = {"n": 0}

            def arm(obj, name, per_step, raised=True):
                f = getattr(obj, name)
                when = (at - 1) * per_step + (micro if per_step == gas else 0)

                def g(*a, **kw):
                    seen["n"] += 1
                    if seen["n"] - 1 == when:
                        if not raised:
                            out = f(*a, **kw)
                            return (out[0] * float("nan"), *out[1:]) if pos == "nan loss" else (out[0], {**out[1], "extra": "text"}, out[2])
                        raise Broken(pos)
                    return f(*a, **kw)
                if name == "step":              # schedules put their attributes into the saved state
                    obj.__class__ = type("Armed", (type(obj),), {"step": lambda self, *a, **kw: g(*a, **kw)})
                else:
                    setattr(obj, name, g)
            name, opt = next(iter(t.optimizers.items()))
            if pos in ("on_before_step", "train_step"):
                arm(t, pos, gas)
            elif pos in ("nan loss", "metrics"):
                arm(t, "train_step", gas, raised=False)
            elif pos == "backward":
                arm(t.accelerator, "backward", gas)
            elif pos in ("_clip_gradients", "on_after_step"):
                arm(t, pos, 1)
            elif pos == "prepare_commit":
                arm(t._resume_stream if kind == "stream" else t._resume_sampler, "prepare_commit", 1)
            elif pos == "opt.step":
                arm(opt, "step", gas)
            elif pos == "zero_grad":
                arm(opt, "zero_grad", gas)
            elif pos == "sched.step":
                arm(t.schedulers[name], "step", 1)
            else:
                arm(t, "_fetch_batch", gas)
            try:
                training.run(t)
            except Exception as e:
                raised = f"{type(e).__name__}: {e}"
            else:
                require(False, "a failing step is ignored")
            done = log["steps"][-1] if log["steps"] else start
            require(len(log["steps"]) == at - 1 or (pos == "nan loss" and micro == gas - 1 and len(log["steps"]) in (at, at + 1)), "the failure was not where it was planted", steps=len(log["steps"]), raised=raised)
            n = len(log["steps"])
            require((t.state.iteration, t.state.rows) == (n, n * 3 * gas) == tuple(done["counters"]), "after a failure the counters are not those of the last successful step",
                    counters=(t.state.iteration, t.state.rows), steps=n)
            require(t.state.epoch == done["epoch"], "after a failure the epoch is not that of the last successful step", epoch=t.state.epoch, want=done["epoch"])
            require(same(cursor(t), done["cursor"]) or next_epoch(cursor(t), done["cursor"]), "after a failure the data position is not that of the last successful step", got=cursor(t), want=done["cursor"])
            for p in glob.glob(os.path.join(t.rundir, "**", "state_*.pt"), recursive=True):
                s = torch.load(p, weights_only=False)["metadata"]
                require(s["iteration"] <= min(n, at - 1) and s["rows"] == s["iteration"] * 3 * gas, "a failed step was saved", file=os.path.basename(p), rows=s["rows"])
        H.case(f"failure in {pos}", body, kind=kind, gas=gas, step=at, micro=micro, save_interval=save)

    # -- an interrupt at any line of the loop: what is saved is a completed, finite step
    def lines(t, codes, n, action):
        """Raise at the n-th executed line of the given functions."""
        left = [n]

        def local(frame, event, arg):
            if event == "line":
                left[0] -= 1
                if left[0] == 0:
                    raise KeyboardInterrupt
            return local

        def tracer(frame, event, arg):
            return local if frame.f_code in codes else None
        sys.settrace(tracer)
        try:
            action()
        finally:
            sys.settrace(None)
        return left[0]
    from trainer.base import BaseTrainer
    codes = {BaseTrainer.run.__code__}
    deep = codes | {BaseTrainer._run_train_step.__code__, BaseTrainer._fetch_batch.__code__}

    def interrupted(tag, n, codes, poison, kind, gas):
        t = make("i", kind, gas, iterations=4, save_interval=1000)
        log = spy(t, new())
        if poison is not None:                       # the gradients of one step are not finite although its loss is
            inner, calls = t.train_step, [0]

            def bad(batch, **kw):
                out = inner(batch, **kw)
                calls[0] += 1
                if calls[0] == poison * gas:
                    out[0].register_hook(lambda g: g * float("nan"))
                return out
            t.train_step = bad
        res = {}

        def go():
            try:
                training.run(t)
                res["end"] = "finished"
            except KeyboardInterrupt:
                res["end"] = "interrupted"
            except RuntimeError as e:
                res["end"] = f"refused {e}"
        left = lines(t, codes, n, go)
        for p in sorted(glob.glob(os.path.join(t.rundir, "**", "state_*.pt"), recursive=True)):
            s = torch.load(p, weights_only=False)["metadata"]
            i = s["iteration"]
            require(s["rows"] == i * 3 * gas and i <= len(log["steps"]), "a saved state is not that of a completed step", iteration=i, rows=s["rows"], steps=len(log["steps"]))
            for q in glob.glob(os.path.join(os.path.dirname(p), f"ckpt_*_{i:07d}.pt")):
                m = torch.load(q, weights_only=False)["model"]
                require(all(bool(torch.isfinite(v).all()) for v in m.values()), "a saved state contains a step that was not finite", iteration=i, end=res.get("end"))
                if i and poison is None:
                    want = log["steps"][i - 1]["after"]
                    require(any(same(v, want[0]) for v in m.values()), "the saved model is not that of its step", iteration=i)
        training.close(t)
        return left > 0
    for poison, chosen in ((None, codes), (2, codes), (4, codes), (None, deep), (3, deep)):
        n, stride = 1, (1 if chosen is codes else 7)
        if H.tier == "quick" and chosen is codes and poison is None:
            stride = 3
        if stride > 1:
            n += rng.randrange(stride)
        done = [False]
        while not done[0]:
            def body():
                done[0] = interrupted("i", n, chosen, poison, "stream" if n % 2 else "sampler", 1 if chosen is codes else 2)
            H.case("interrupt", body, line=n, poisoned_step=poison, deep=chosen is deep)
            n += stride

    # -- an epoch may end inside a step
    def spans():
        for kind in ("sampler", "stream"):
            t = make("s", kind, 3, iterations=5)
            try:
                training.run(t)
            except RuntimeError as e:
                if kind == "stream" and "uncommitted planner batches" in str(e):
                    require(t.state.iteration == 2, "the run stops elsewhere", iteration=t.state.iteration)
                    require(False, "a streamed run stops where an epoch ends inside an accumulated step", error=str(e)[:300], batches_per_epoch=8, accumulated=3)
                raise
            require(t.state.iteration == 5, "the run stops early")
    H.case("epoch end inside a step", spans)
