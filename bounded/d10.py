"""D10, executable contract: the real producers, accumulators, finalizers and trainers against one pass over the real rows in numpy doubles."""
import io
import json
import math
import os
import tempfile
import threading
from contextlib import nullcontext

import numpy as np

from .harness import partial, require

NAN = float("nan")


# ----------------------------------------------------------------------------------------------- one pass, in numpy

def lse(x):
    m = x.max(1, keepdims=True)
    return m + np.log(np.exp(x - m).sum(1, keepdims=True))


def softmax(x):
    return np.exp(x - lse(x))


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def xent(x, t, weight=None, gamma=0.0, kl=False):
    """Cross entropy of each row."""
    if x.ndim > 1:
        if weight is not None:
            t = t * weight
        lp = x - lse(x)
        scaled = lp * (1 - np.exp(lp)) ** gamma if gamma > 0 else lp
        out = -(t * scaled).sum(1)
        if kl:
            out = out + (t * np.log(np.maximum(t, 1e-8))).sum(1)
        return out
    out = np.maximum(x, 0) - x * t + np.log1p(np.exp(-np.abs(x)))
    if gamma > 0:
        p = sigmoid(x)
        out = out * (1 - (t * p + (1 - t) * (1 - p))) ** gamma
    if kl:
        out = out + t * np.log(np.maximum(t, 1e-8)) + (1 - t) * np.log(np.maximum(1 - t, 1e-8))
    return out


def winrate(v):
    return (v[:, 0] - v[:, 1] + 1) / 2


def value_pair(v, t):
    if v.shape[1] == 1:
        return v[:, 0], (t[:, 0] if t.shape[1] == 1 else winrate(t))
    return v, t


def value_rows(kind, v, t, gamma):
    v, t = value_pair(v, t)
    if kind == "MSE":
        return (sigmoid(v) - t) ** 2 if v.ndim == 1 else (winrate(softmax(v)) - winrate(t)) ** 2
    return xent(v, t, gamma=gamma if kind == "CE" else 0.0, kl=kind == "KL")


def policy_mean(kind, p, t, weight, gamma):
    """Mean over rows (per cell for MSE) of the policy loss."""
    if kind == "NONE":
        return 0.0
    if kind == "MSE":
        e = (softmax(p) - t) ** 2
        return float((e if weight is None else e * weight).mean())
    return float(xent(p, t, weight=weight, gamma=gamma if kind == "CE" else 0.0, kl=kind == "KL").mean())


def uncertainty_target(v, t):
    return (sigmoid(v) - t) ** 2 if v.ndim == 1 else (winrate(softmax(v)) - winrate(t)) ** 2


def oracle(cfg, data, res, kd):
    """Every reported loss of these real rows, in one pass."""
    vk, pk = cfg["loss"].split("+")
    extra, T = cfg["extra"], cfg["T"]
    n = len(res["value"])
    flat = lambda x: np.asarray(x, np.float64).reshape(n, -1)
    mask = None if res.get("board_mask") is None else flat(res["board_mask"]) != 0
    cut = lambda p: flat(p) if mask is None else np.where(mask, flat(p), -1e6)
    ratio = cfg["ratio"]
    vl, pl = 2 * ratio / (ratio + 1), 2 / (ratio + 1)
    weight = 1 - flat(data["forbidden_point"]) if extra.get("ignore_forbidden_point_policy") else None

    def branch(teacher):
        out, dep, indep = {}, 0.0, 0.0
        if teacher is None:
            vt, pt, t = data["value_target"], flat(data["policy_target"]), 1.0
            pt = pt if mask is None else np.where(mask, pt, 0)
        else:
            z = teacher["value"] / T
            vt = softmax(z) if z.shape[1] > 1 else sigmoid(z)
            q = flat(teacher["policy"])
            pt = softmax((q if mask is None else np.where(mask, q, -1e6)) / T)
            pt = pt if mask is None else np.where(mask, pt, 0)
            t = T
        out["value_loss"] = float(value_rows(vk, res["value"] / t, vt, extra.get("value_focal_gamma", 0)).mean())
        out["policy_loss"] = policy_mean(pk, cut(res["policy"]) / t, pt, weight, extra.get("policy_focal_gamma", 0))
        dep += vl * out["value_loss"] + pl * out["policy_loss"]

        def reg(p):
            p = flat(p)
            return float((p.mean() if mask is None else p[mask].mean()) ** 2)
        if cfg["reg"] > 0:
            out["policy_reg"] = reg(res["policy"])
            indep += cfg["reg"] * out["policy_reg"]
        for name, (kind, x) in (res.get("aux_losses") or {}).items():
            w = extra.get(f"{name}_lambda")
            key = f"{name}_loss"
            if kind == "value_loss":
                got = float(value_rows(vk, x / t, vt, extra.get("value_focal_gamma", 0)).mean())
                w, d = vl if w is None else w, True
            elif kind == "policy_loss":
                if pk == "NONE":
                    continue
                got = policy_mean(pk, cut(x) / t, pt, weight, extra.get("policy_focal_gamma", 0))
                w, d = pl if w is None else w, True
            elif kind == "policy_reg":
                if w is None and cfg["reg"] == 0:
                    continue
                got, key, w, d = reg(x), name, cfg["reg"] if w is None else w, False
            elif kind == "value_uncertainty_loss":
                u, v, target = x
                e = u - uncertainty_target(v, target)
                got = float(np.where(np.abs(e) <= 1, e * e / 2, np.abs(e) - .5).mean())
                d = False
            elif kind == "value_relative_uncertainty_loss":
                r, small, large, target = x
                s, g = uncertainty_target(small, target), uncertainty_target(large, target)
                got = float(((r - np.where(g < s, g / s, 1.0)) ** 2).mean())
                d = False
            elif kind == "vq_loss":
                got, d = 0.0, False
                for s in x:
                    e = s["vectors"]
                    slot = ((s["embed"].sum() + s["commitment"] * s["commit"].sum()) / s["embed"].size)
                    if s["entropy"]:
                        pr = s["prob"].sum(0) / len(e)
                        slot += s["entropy"] * float((pr * np.log(np.maximum(pr, 1e-7))).sum())
                    got += s["weight"] * slot
                got = float(got)
            out[key] = got
            w = 1.0 if w is None else w
            dep, indep = dep + w * got * d, indep + w * got * (not d)
        return out, dep, indep
    real, dep, indep = branch(None)
    if kd is None:
        return {**real, "total_loss": dep + indep}
    soft, kd_dep, _ = branch(kd)
    total = cfg["alpha"] * T * T * kd_dep + (1 - cfg["alpha"]) * dep + indep
    return {**real, **{"kd_" + k: v for k, v in soft.items()}, "total_loss": total}


def metric_oracle(data, res, cross):
    n = len(res["value"])
    flat = lambda x: np.asarray(x, np.float64).reshape(n, -1)
    p, t = flat(res["policy"]), flat(data["policy_target"])
    if res.get("board_mask") is not None:
        m = flat(res["board_mask"]) != 0
        p, t = np.where(m, p, -1e6), np.where(m, t, 0)
    out = {"bestmove_acc": float((p.argmax(1) == t.argmax(1)).mean())}
    for k in (2, 3):
        top = lambda x: np.argsort(-x, 1, kind="stable")[:, :k]
        out[f"top{k}move_acc"] = float(np.mean([len(set(a) & set(b)) / k for a, b in zip(top(p), top(t))]))
    v, vt = value_pair(np.asarray(res["value"], np.float64), np.asarray(data["value_target"], np.float64))
    if v.ndim == 1:
        pr = sigmoid(v)
        out["winrate_acc"] = float(((pr - .5) * (vt - .5) >= 0).mean())
        out["winrate_mse"] = float(((pr - vt) ** 2).mean())
    else:
        pr = softmax(v)
        out["winrate_acc"] = float(((pr[:, 0] >= pr[:, 1]) == (vt[:, 0] >= vt[:, 1])).mean())
        out["winrate_mse"] = float(((winrate(pr) - winrate(vt)) ** 2).mean())
        out["drawrate_acc"] = float(((pr.argmax(1) == 2) == (vt.argmax(1) == 2)).mean())
        out["drawrate_mse"] = float(((pr[:, 2] - vt[:, 2]) ** 2).mean())
    if cross:
        e = np.abs(pr - vt)
        r = e / (np.abs(pr) + 1e-4)
        out.update(value_abserr_mean=float(e.mean()), value_abserr_max=float(e.max()), value_relerr_mean=float(r.mean()), value_relerr_max=float(r.max()))
    return out


def close(a, b, tol=1e-6):
    return math.isfinite(a) and abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_report(got, want, what, tol=1e-6, **inputs):
    require(set(got) == set(want), f"{what}: other entries are reported", missing=sorted(set(want) - set(got)), unexpected=sorted(set(got) - set(want)), **inputs)
    for k in sorted(want):
        require(close(float(got[k]), want[k], tol), f"{what}: {k} differs from one pass over the real rows", got=float(got[k]), want=want[k], **inputs)


# ----------------------------------------------------------------------------------------------- several ranks, one process

class Team:
    """The collectives of R ranks running as threads."""

    def __init__(self, ranks):
        self.n, self.slots, self.barrier = ranks, [None] * ranks, threading.Barrier(ranks)

    def exchange(self, rank, value):
        self.slots[rank] = value
        self.barrier.wait(60)
        out = list(self.slots)
        self.barrier.wait(60)
        return out

    def run(self, body):
        """body(rank) on every rank; the first real error is raised."""
        out, errors = [None] * self.n, []

        def go(r):
            try:
                out[r] = body(r)
            except threading.BrokenBarrierError:
                pass
            except BaseException as e:
                errors.append(e)
                self.barrier.abort()
        ts = [threading.Thread(target=go, args=(r,), daemon=True) for r in range(self.n)]
        for x in ts:
            x.start()
        for x in ts:
            x.join(120)
        if errors:
            raise errors[0]
        if any(x.is_alive() for x in ts) or self.barrier.broken:
            require(False, "the ranks wait for each other in different collectives")
        return out


class Ranked:
    """accelerate's interface, on one rank of a team."""

    def __init__(self, real, team, rank):
        self.__dict__.update(real=real, team=team, rank=rank)

    num_processes = property(lambda s: s.team.n)
    process_index = local_process_index = property(lambda s: s.rank)
    is_main_process = is_local_main_process = property(lambda s: s.rank == 0)

    def __getattr__(self, k):
        return getattr(self.real, k)

    def __setattr__(self, k, v):
        setattr(self.real, k, v)

    def autocast(self, *a, **kw):
        return nullcontext()

    def wait_for_everyone(self):
        self.team.exchange(self.rank, None)

    def reduce(self, x, reduction="mean", **kw):
        import torch
        got = self.team.exchange(self.rank, x.clone())
        s = torch.stack(got)
        return s.amax(0) if reduction == "max" else s.sum(0).to(x.dtype) if reduction == "sum" else s.mean(0)

    def gather(self, x):
        import torch
        if isinstance(x, dict):
            return {k: self.gather(v) for k, v in sorted(x.items())}
        got = self.team.exchange(self.rank, x.clone())
        return torch.cat([g.reshape(1) if g.ndim == 0 else g for g in got])

    gather_for_metrics = gather


_here = threading.local()


def gather_objects(objs, *a, **kw):
    acc = getattr(_here, "acc", None)
    if acc is None or acc.num_processes == 1:
        return list(objs)
    return [x for part in acc.team.exchange(acc.rank, list(objs)) for x in part]


# ----------------------------------------------------------------------------------------------- cases

def run(H):
    import torch
    from . import training
    training.setup()
    torch.set_num_threads(1)
    from dataset import core
    from dataset.core import Maximum, SufficientStats, SumCount
    from trainer.loss.supervised import compute_supervised_loss_statistics
    from trainer.metric.supervised import compute_supervised_metric_statistics
    rng = H.rng
    np_rng = np.random.default_rng(rng.randrange(1 << 30))
    D = torch.float64

    # -- accumulators: any grouping and order gives the same totals
    def groupings():
        n = rng.randint(1, 9)
        vals = [(rng.randint(-50, 50), rng.choice([0, 0, 1, 2, 7])) for _ in range(n)]
        fid = rng.choice(["mean_v1", "policy_mean_square_v1"])
        names = {"mean_v1": ("sum", "count"), "policy_mean_square_v1": ("valid_logit_sum", "valid_cells")}[fid]
        scope = rng.choice(["global_batch", "evaluation"])
        t = lambda x: torch.tensor(float(x), dtype=D)
        kinds = [
            ([SumCount(scope, t(v), c) for v, c in vals], lambda s: (s.scope, float(s.sum), s.count), (scope, float(sum(v for v, _ in vals)), sum(c for _, c in vals))),
            ([Maximum("evaluation", t(v), c) for v, c in vals], lambda s: (float(s.value) if s.valid_count else None, s.valid_count),
             (max([float(v) for v, c in vals if c], default=None), sum(c for _, c in vals))),
            ([SufficientStats(scope, fid, {names[0]: t(v)}, {names[1]: c}) for v, c in vals],
             lambda s: (s.scope, s.finalizer_id, float(s.tensors[names[0]]), s.counts[names[1]]), (scope, fid, float(sum(v for v, _ in vals)), sum(c for _, c in vals)))]
        for items, show, want in kinds:
            pool = list(items)
            rng.shuffle(pool)
            while len(pool) > 1:                                    # any tree of combinations, in any order
                i = rng.randrange(len(pool))
                a = pool.pop(i)
                b = pool.pop(rng.randrange(len(pool)))
                pool.append(a.combine(b))
            require(show(pool[0]) == want, "another grouping or order gives other totals", values=vals, got=show(pool[0]), want=want, kind=type(pool[0]).__name__)
            if want[-1] == 0:
                try:
                    got = pool[0].finalize()
                except ValueError:
                    continue
                require(False, "a statistic without values is given a number", kind=type(pool[0]).__name__, got=repr(got))
            got = float(pool[0].finalize())
            s, c = (sum(v for v, _ in vals), sum(c for _, c in vals))
            should = want[0] if isinstance(pool[0], Maximum) else (s / c if not (isinstance(pool[0], SufficientStats) and fid != "mean_v1") else (s / c) ** 2)
            require(close(got, float(should), 1e-12), "the finished value is not that of the totals", got=got, want=should)
    for _ in range(H.scale(150, 3000)):
        H.case("grouping", groupings)

    # -- statistics of rows: padding, ranks, order
    def rows(n, size, vdim, board, teacher, aux, dtype=np.float64):
        r = np_rng.random
        vt = r((n, 3)) + .05
        tv = rng.choice([3, 3, 1]) if vdim == 1 else 3
        vt = r((n, 1)) if tv == 1 else vt / vt.sum(1, keepdims=True)
        pt = r((n, size, size)) ** 3
        pt /= pt.sum((1, 2), keepdims=True)
        data = {"value_target": vt, "policy_target": pt, "forbidden_point": (r((n, size, size)) < .2).astype(np.int8)}
        res = {"value": np_rng.normal(size=(n, vdim)) * 2, "policy": np_rng.normal(size=(n, size, size)) * 2}
        if board:
            m = r((n, size, size)) < .8
            m[:, 0, :] = True
            res["board_mask"] = m.astype(np.float64)
        kd = {"value": np_rng.normal(size=(n, rng.choice([vdim, vdim]))), "policy": np_rng.normal(size=(n, size, size))} if teacher else None
        al = {}
        for a in aux:
            if a == "value_loss":
                al["side"] = (a, np_rng.normal(size=(n, vdim)))
            elif a == "policy_loss":
                al["head"] = (a, np_rng.normal(size=(n, size, size)))
            elif a == "policy_reg":
                al["extra_reg"] = (a, np_rng.normal(size=(n, size, size)))
            elif a == "value_uncertainty_loss":
                v, t = (np_rng.normal(size=n) * 2, r(n)) if vdim == 1 else (np_rng.normal(size=(n, 3)), vt)
                al["unc"] = (a, (r(n) * 3, v, t))
            elif a == "value_relative_uncertainty_loss":
                mk = (lambda: np_rng.normal(size=n)) if vdim == 1 else (lambda: np_rng.normal(size=(n, 3)))
                al["rel"] = (a, (r(n), mk(), mk(), r(n) if vdim == 1 else vt))
            elif a == "vq_loss":
                al["vq"] = (a, [dict(vectors=r((n, 4)), embed=r((n, 4)), commit=r((n, 4)), prob=r((n, 5)), commitment=.25, entropy=e, weight=w)
                                for e, w in ((0.0, 1.0), (.3, .5))])
        res["aux_losses"] = al
        return data, res, kd

    def take(x, idx):
        if isinstance(x, dict):
            return {k: take(v, idx) for k, v in x.items()}
        if isinstance(x, tuple):
            return tuple(take(v, idx) for v in x)
        if isinstance(x, list):
            return [take(v, idx) for v in x]
        return x[idx] if isinstance(x, np.ndarray) else x

    def spoil(x, pad):
        """Padding rows hold anything."""
        if isinstance(x, dict):
            return {k: spoil(v, pad) for k, v in x.items()}
        if isinstance(x, tuple):
            return tuple(spoil(v, pad) for v in x)
        if isinstance(x, list):
            return [spoil(v, pad) for v in x]
        if isinstance(x, np.ndarray) and x.dtype.kind == "f" and len(x):
            x = x.copy()
            x[pad] = np_rng.choice([NAN, np.inf, -np.inf, 1e30, 7.0], size=x[pad].shape)
        return x

    def tensors(x, real):
        if isinstance(x, dict):
            return {k: tensors(v, real) for k, v in x.items()}
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "vq_loss":           # what a quantizer reports: sums over its real rows
            slots = []
            for i, s in enumerate(x[1]):
                d = {"slot_id": f"layer{i}", "slot_weight": s["weight"], "embed_sum": torch.tensor(s["embed"][real].sum(), dtype=D),
                     "commit_sum": torch.tensor(s["commit"][real].sum(), dtype=D), "elements": int(s["embed"][real].size), "vectors": int(real.sum()),
                     "commitment_weight": s["commitment"], "entropy_weight": s["entropy"]}
                if s["entropy"]:
                    d["probability_sum"] = torch.tensor(s["prob"][real].sum(0), dtype=D)
                slots.append(d)
            return ("vq_loss", {"value": torch.tensor(0.0, dtype=D), "slots": slots})
        if isinstance(x, tuple):
            return tuple(tensors(v, real) for v in x)
        return torch.tensor(x) if isinstance(x, np.ndarray) else x

    def make_accel(team, r):
        from types import SimpleNamespace
        return Ranked(SimpleNamespace(device=torch.device("cpu")), team, r)

    def on(team, body):
        """A trainer's evaluation methods on each rank of a team."""
        from trainer.supervised import SupervisedTrainer

        def go(r):
            t = partial(object.__new__(SupervisedTrainer))
            t.accelerator = make_accel(team, r)
            _here.acc = t.accelerator
            with torch.no_grad():
                return body(t, r)
        return team.run(go)

    import trainer.base as base
    keep = base.gather_object
    base.gather_object = gather_objects

    AUX = ["value_loss", "policy_loss", "policy_reg", "value_uncertainty_loss", "value_relative_uncertainty_loss", "vq_loss"]

    def config():
        kl = rng.choice(["KL", "CE", "MSE"])
        loss = kl + "+" + rng.choice(["KL", "CE", "MSE", "NONE"])
        extra = {}
        if rng.random() < .3:
            extra.update(value_focal_gamma=rng.choice([0, 1.5, 2]), policy_focal_gamma=rng.choice([0, 1, 2]))
        if rng.random() < .4:
            extra["ignore_forbidden_point_policy"] = True
        for a in ("side", "head", "extra_reg", "unc", "rel", "vq"):
            if rng.random() < .4:
                extra[f"{a}_lambda"] = rng.choice([.25, 2.0])
        return dict(loss=loss, extra=extra, T=rng.choice([1.0, 2.0, .5]), alpha=rng.choice([1.0, .3, 0.0]), reg=rng.choice([0, 0, .1]), ratio=rng.choice([1, .5, 3]),
                    aux=[a for a in AUX if rng.random() < .35], vdim=rng.choice([3, 3, 1]), board=rng.random() < .5, teacher=rng.random() < .4)

    def split(n, ranks, local):
        """Rows of a global batch, then padding, laid out over the ranks' slots in any way."""
        slots = [(i, True) for i in range(n)] + [(rng.randrange(n), False) for _ in range(ranks * local - n)]
        if rng.random() < .5:
            rng.shuffle(slots)
        return [slots[r * local:(r + 1) * local] for r in range(ranks)]

    def one_batch(cfg, ranks, local, n, metrics):
        size = rng.choice([2, 3])
        data, res, kd = rows(n, size, cfg["vdim"], cfg["board"], cfg["teacher"], cfg["aux"])
        want = None
        cross = metrics and rng.random() < .5 and (cfg["vdim"] == 3 or True)
        if metrics:
            plain = dict(cfg, loss="CE+CE", extra={}, reg=0, T=1.0, ratio=1)
            want = {**{f"lossCE_{k}": v for k, v in oracle(plain, data, res, None).items()}, **metric_oracle(data, res, cross)}
        else:
            want = oracle(cfg, data, res, kd)
        parts = split(n, ranks, local)
        how = rng.choice(["flags", "flags", "as bytes"])

        def body(t, r):
            idx = np.array([i for i, _ in parts[r]])
            real = np.array([ok for _, ok in parts[r]])
            d, q, k = (spoil(take(x, idx), ~real) if x is not None else None for x in (data, res, kd))
            d, q, k = (tensors(x, real) if x is not None else None for x in (d, q, k))
            d["is_real"] = torch.tensor(real) if how == "flags" else torch.tensor(real.astype(np.uint8))
            if all(ok for _, ok in parts[r]) and rng.random() < .3:
                del d["is_real"]
            if metrics:
                stats = compute_supervised_metric_statistics(d, q, do_cross_eval=cross)
            else:
                stats, _ = compute_supervised_loss_statistics(cfg["loss"], d, q, k, kd_T=cfg["T"], kd_alpha=cfg["alpha"], policy_reg_lambda=cfg["reg"],
                                                              value_policy_ratio=cfg["ratio"], **cfg["extra"])
            t._preflight_evaluation_schema(state_attr=None, x=stats)
            return stats, t._finalize_masked_global_batch(stats, d, include_metrics=True)
        got = on(Team(ranks), body)
        shown = dict(config=cfg, rows=n, ranks=ranks, slots=parts)
        # the parts of the ranks, combined in any order, are the batch's totals
        order = list(range(ranks))
        rng.shuffle(order)
        total = got[order[0]][0]
        for r in order[1:]:
            total = {k: v.combine(got[r][0][k]) for k, v in total.items()}
        same_report({k: float(v.finalize()) for k, v in total.items()}, want, "combined over ranks", **shown)
        for r in range(ranks):
            fin = got[r][1]
            for k, v in fin.items():
                if isinstance(v, SumCount):
                    require(v.scope == "evaluation" and v.count == 1 and close(float(v.sum), want[k]),
                            f"{k} of a global batch is not its value over the real rows", got=float(v.sum), want=want[k], count=v.count, **shown)
        return [g[1] for g in got], want

    def single():
        cfg = config()
        ranks = rng.choice([1, 1, 2, 3])
        local = rng.randint(1, 4)
        n = rng.randint(1, ranks * local)
        one_batch(cfg, ranks, local, n, False)

    def metric():
        cfg = dict(config(), teacher=False)
        cfg["aux"] = [a for a in cfg["aux"] if a != "policy_reg" or True]
        ranks = rng.choice([1, 2, 3])
        local = rng.randint(1, 4)
        one_batch(cfg, ranks, local, rng.randint(1, ranks * local), True)
    for _ in range(H.scale(220, 5000)):
        H.case("rows", single)
    for _ in range(H.scale(80, 2000)):
        H.case("metrics", metric)

    # -- several batches, accumulated and averaged, some of them replayed
    def batches():
        ranks = rng.choice([1, 2, 3])
        nb = rng.randint(1, 5)
        cfg = dict(config(), vdim=3, teacher=False)
        metrics = rng.random() < .5
        per = []
        for _ in range(nb):
            local = rng.randint(1, 3)
            st = rng.getstate()
            fins, want = None, None
            cfg["board"] = False
            fins, want = one_batch_cross(cfg, ranks, local, rng.randint(1, ranks * local), metrics)
            per.append((fins, want))
        replayed = rng.random() < .4

        def body(t, r):
            totals, n = {}, 0
            order = list(range(nb))
            for b in order:
                fin = per[b][0][r]
                if replayed and b % 2 == 1:                           # a batch this rank only replays: it contributes nothing
                    zero = t._finalize_masked_global_batch({k: v for k, v in fin.items()}, {}, include_metrics=False)
                    for k, v in zero.items():
                        if isinstance(v, (SumCount, SufficientStats)):
                            require((v.count if isinstance(v, SumCount) else sum(v.counts.values())) == 0, "a replayed batch counts values", key=k)
                            s = [v.sum] if isinstance(v, SumCount) else list(v.tensors.values())
                            require(all(float(x.abs().sum()) == 0 for x in s), "a replayed batch contributes to a sum", key=k)
                        else:
                            require(v.valid_count == 0, "a replayed batch contributes to a maximum", key=k)
                    t._accumulate_evaluation_metrics(totals, {k: t._zero_evaluation_stat(v) for k, v in fin.items()})
                t._accumulate_evaluation_metrics(totals, fin)
                n += 1
            return t._gather_averaged_metrics(totals, n)
        got = on(Team(ranks), body)
        avg, total = got[0]
        require(all(g == (None, None) for g in got[1:]), "another rank than the main one reports")
        require(total == nb * ranks, "the number of batches is wrong", got=total, want=nb * ranks)
        keys = per[0][1].keys()
        want = {k: (max if k.endswith("err_max") else lambda x: sum(x) / len(x))([w[k] for _, w in per]) for k in keys}
        same_report(avg, want, "averaged over batches", batches=nb, ranks=ranks)

    def one_batch_cross(cfg, ranks, local, n, metrics):
        while True:
            fins, want = one_batch(cfg, ranks, local, n, metrics)
            if not metrics or "value_abserr_max" in want:
                return fins, want
    for _ in range(H.scale(60, 1200)):
        H.case("batches", batches)

    # -- a statistic without real rows is refused
    def empty():
        cfg = dict(config(), teacher=rng.random() < .5)
        size = 2
        data, res, kd = rows(3, size, cfg["vdim"], cfg["board"], cfg["teacher"], cfg["aux"])
        real = np.zeros(3, bool)
        d, q, k = (tensors(spoil(x, ~real), real) if x is not None else None for x in (data, res, kd))
        d["is_real"] = torch.tensor(real)
        stats, _ = compute_supervised_loss_statistics(cfg["loss"], d, q, k, kd_T=cfg["T"], kd_alpha=cfg["alpha"], policy_reg_lambda=cfg["reg"],
                                                      value_policy_ratio=cfg["ratio"], **cfg["extra"])
        more = compute_supervised_metric_statistics(d, {a: b for a, b in q.items()}, do_cross_eval=True)
        for k, s in {**stats, **{f"metric {k}": v for k, v in more.items()}}.items():
            try:
                v = s.finalize()
            except ValueError:
                continue
            require(False, "a statistic without real rows is given a number", key=k, got=repr(v), config=cfg)

        def body(t, r):
            out = {}
            for k, s in stats.items():
                try:
                    out[k] = t._finalize_masked_global_batch({k: s}, d)
                except ValueError:
                    continue
            for v in ({"m": SumCount("evaluation", torch.tensor(0.0), 0)}, {"m": Maximum("evaluation", torch.tensor(3.0), 0)},
                      {"m": SufficientStats("evaluation", "mean_v1", {"sum": torch.tensor(0.0)}, {"count": 0})}):
                try:
                    out["averaged"] = t._gather_averaged_metrics(v, 1)
                except (ValueError, RuntimeError):
                    continue
            return out
        got = on(Team(rng.choice([1, 2])), body)
        require(not any(got), "an evaluation without real rows reports a number", got=repr(got))
    for _ in range(H.scale(40, 800)):
        H.case("empty", empty)

    # -- a constant replicated over many batches
    def constant():
        c = rng.choice([37.3, .1, 1e-3, 123456.7, 1 / 3, 65536.0])
        ranks, n = rng.choice([1, 2, 3]), rng.choice([1, 3, 70, 400, 1500])
        n = min(n, 400) if H.quick else n
        res = {"aux_outputs": {"vq_cluster_size_q50": torch.tensor(c), "vq_perplexity": torch.tensor(2.0)}}
        from trainer.loss.supervised import _evaluation_aux_output_statistics as aux

        def body(t, r):
            totals = {}
            for _ in range(n):
                s = aux(res)
                require(set(s) == {"vq_cluster_size_q50"}, "other auxiliary statistics", got=sorted(s))
                t._accumulate_evaluation_metrics(totals, t._finalize_masked_global_batch(s, {}))
            return t._gather_averaged_metrics(totals, n)
        avg, _ = on(Team(ranks), body)[0]
        require(close(avg["vq_cluster_size_q50"], c, 1e-5), "a constant changes with the number of batches", got=avg, constant=c, batches=n)
    for _ in range(H.scale(14, 60)):
        H.case("constant", constant)

    # -- a vector quantizer's own sums: masked entries never count
    def quantizer():
        import model.vq as vq
        from model.vq import VectorQuantize
        vq.squared_l2_dist = lambda x, c: (x[:, None] - c[None]).square().sum(-1)             # KeOps, which compiles code, by contract
        vq.gumbel_sample = lambda logits, **kw: logits.argmax(1)
        g = torch.Generator().manual_seed(rng.randrange(1 << 30))
        kw = dict(codebook_size=5, dim_feature=3, kmeans_init=False, use_cosine_sim=False, accelerated_search=False,
                  commitment_weight=rng.choice([.25, 1.0]), ema_update=rng.random() < .5)
        q = VectorQuantize(**kw).eval()
        n = rng.randint(1, 8)
        x = torch.randn(n, 3, generator=g)
        with torch.no_grad():
            q.reset_eval_perplexity_stats()
            q.set_eval_entry_mask(None)
            _, whole = q(x)
            whole, used = whole["loss_stats"], q._eval_cluster_size.clone()
            parts, q2 = [], None
            q.reset_eval_perplexity_stats()
            for lo in range(0, n, 2):
                part = x[lo:lo + 2]
                pad = torch.randn(rng.randint(0, 2), 3, generator=g)
                if rng.random() < .3:                                 # a rank with nothing but padding
                    q.set_eval_entry_mask(torch.zeros(2, dtype=torch.bool))
                    _, i = q(torch.randn(2, 3, generator=g))
                    parts.append(i["loss_stats"])
                mask = torch.tensor([True] * len(part) + [False] * len(pad))
                both = torch.cat([part, pad])
                perm = torch.randperm(len(both), generator=g)
                q.set_eval_entry_mask(mask[perm])
                _, i = q(both[perm])
                parts.append(i["loss_stats"])
            require(torch.equal(q._eval_cluster_size, used), "code usage counts padding or depends on the partition")
        for k in ("elements", "vectors"):
            require(sum(p[k] for p in parts) == whole[k], "a quantizer counts padding", key=k, parts=parts, whole=whole)
        for k in ("embed_sum", "commit_sum"):
            require(close(sum(float(p[k]) for p in parts), float(whole[k]), 1e-4), "a quantizer's sums depend on the partition", key=k, parts=parts, whole=whole)
    for _ in range(H.scale(40, 600)):
        H.case("quantizer", quantizer)

    # -- the planner of map-style evaluation
    from dataset.core import DatasetRuntimeContext
    from dataset.stream import EvaluationBatchPlannerDataset, MapRecordRef
    import inspect
    fields = list(inspect.signature(MapRecordRef).parameters)

    class Toy:
        is_fixed_side_input = True

        def __init__(self, shapes):
            self.shapes = shapes

        def __len__(self):
            return len(self.shapes)

        def map_record_ref(self, i):
            vals = {"index": i, "output_shape": self.shapes[i], "sample_key": ("rec", i), "dataset_id": "toy"}
            return MapRecordRef(**{f: vals[f] for f in fields if f in vals})

        def __getitem__(self, i):
            h, w = self.shapes[i]
            return {"board_size": np.array([h, w], np.int8), "board_input": np.full((2, h, w), i % 100, np.int8), "stm_input": np.array([1.0], np.float32),
                    "value_target": np.array([1, 0, 0], np.float32), "policy_target": np.zeros((h, w), np.float32), "ply": np.array(i, np.int64)}

    def planner():
        n = rng.randint(1, 14)
        shapes = [rng.choice([(3, 3), (4, 4), (3, 4)]) for _ in range(n)]
        ranks, local = rng.randint(1, 3), rng.randint(1, 3)
        ds = Toy(shapes)
        per = [list(EvaluationBatchPlannerDataset(ds, DatasetRuntimeContext(ranks * local, local, ranks, r, 0, rng.choice(["validate", "test"])))) for r in range(ranks)]
        shown = dict(shapes=shapes, ranks=ranks, local=local)
        require(len({len(p) for p in per}) == 1, "the ranks plan different numbers of batches", **shown)
        seen = []
        for b in range(len(per[0])):
            boards, masks = set(), []
            for r in range(ranks):
                e = per[r][b]
                mask = np.asarray(e.is_real)
                require(mask.dtype == np.bool_ and mask.shape == (local,), "a batch's flags do not cover its rows", **shown)
                require(np.asarray(e.data["board_input"]).shape[0] == local and len(e.sample_keys) == local, "a batch has another number of rows", **shown)
                ids = [int(x) for x in np.asarray(e.data["ply"]).reshape(-1)]
                require([("rec", i) for i in ids] == list(e.sample_keys), "rows and record names differ", **shown)
                boards |= {shapes[i] for i in ids}
                require(all((np.asarray(e.data["board_input"])[j] == i % 100).all() for j, i in enumerate(ids)), "a row holds another record", **shown)
                seen += [i for i, ok in zip(ids, mask) if ok]
                masks += list(mask)
                require(e.token.is_last == (b + 1 == len(per[0])), "the last batch is mislabelled", **shown)
            require(len(boards) == 1, "a global batch mixes board shapes", **shown)
            require(any(masks), "a global batch without real rows", **shown)
        require(sorted(seen) == list(range(n)), "a record is evaluated twice or not at all", seen=sorted(seen), **shown)
    for _ in range(H.scale(80, 2000)):
        H.case("planner", planner)

    # -- whole evaluations of the real trainer on several ranks
    from model import MODELS
    if "pyvc_tiny_d10" not in MODELS:
        class Tiny(MODELS["pyvc_tiny"]):
            def forward(self, data):
                out = super().forward(data)
                p = out["policy"]
                x = data["board_input"].float().flatten(1)
                mix = x @ torch.sin(torch.arange(x.shape[1]) * 1.7).float()                 # no two cells of a row tie
                return {**out, "policy": p + (torch.arange(p[0].numel()) * .37).sin().view(p.shape[1:]) * (1.3 + mix.sin()[:, None, None])}
        MODELS.register("pyvc_tiny_d10")(Tiny)

    def trained(ranks, kind, files, what, replay=False, **kw):
        from torch.utils.data import DataLoader
        team = Team(ranks)
        local = kw.pop("local")
        mult = kw.pop("mult", 1)
        folder = tempfile.mkdtemp(dir=H.scratch)
        ts = []
        for r in range(ranks):
            t = training.make(os.path.join(folder, f"r{r}"), files, batch_size=local, model_type="pyvc_tiny_d10", **kw)
            t.accelerator = Ranked(t.accelerator, team, r)
            ts.append(t)
        seen = [[] for _ in range(ranks)]
        values = [[] for _ in range(ranks)]
        entries = []
        from dataset import build_dataset
        from utils.training_utils import build_data_loader

        def body(r):
            t = ts[r]
            _here.acc = t.accelerator
            t.eval_bs_multipler = mult
            t.batch_size, t.batch_size_per_process = local * ranks, local
            mode = "validate" if what == "validate" else "test"
            if kind == "plain":                                  # a loader that plans nothing: ranks may run out at different times
                loader = [b for b in plain_batches[r]]
            else:
                ds = build_dataset(kind, files, runtime_context=DatasetRuntimeContext(local * ranks * mult, local * mult, ranks, r, 3, mode), shuffle=False,
                                   **t._evaluation_dataset_args(t.dataset_args))
                loader = t._prepare_data_loader(build_data_loader(ds, local * mult, num_workers=0, shuffle=False), even_batches=False)
            step_name = "validate_step" if what == "validate" else "test_step"
            inner = getattr(t, step_name)

            def step(data, **k2):
                real = data["is_real"].numpy().astype(bool) if "is_real" in data else np.ones(len(data["board_input"]), bool)
                out = dict(data)
                board = data["board_input"].clone()
                board[~torch.tensor(real)] = torch.tensor(rng.choice([0, 1]), dtype=board.dtype)
                vt = data["value_target"].clone()
                vt[~torch.tensor(real)] = NAN
                out["board_input"], out["value_target"] = board, vt
                seen[r].append((real, {k: data[k].numpy().copy() for k in ("board_input", "value_target", "policy_target")}))
                return inner(out, **k2)
            setattr(t, step_name, step)
            for m in t.models.values():
                m.eval()
            if what == "validate":
                t.val_loader = loader
                t._start_time = t._log_last_time = t._show_last_time = 0.0
                t.log_file = io.StringIO()

                class TB:
                    def add_scalar(self, name, value, it):
                        values[r].append((name, value))
                t.tb_logger = TB()
                t._validate()
                return json.loads(t.log_file.getvalue()) if t.log_file.getvalue() else None
            t.test_loader = loader
            t.checkpoint = "none"
            path = os.path.join(folder, f"out{r}.json")
            got = t.test(max_batches=kw2.get("max_batches"), result_file=path if r == 0 else None)
            if r == 0:
                with open(path) as f:
                    written = json.load(f)
                require(written["metrics"] == got, "the written results are not the returned ones")
                entries.append(written["num_entries"])
            return got
        kw2 = replay or {}
        with training.Quiet(), open(os.devnull, "w") as null:
            import tqdm as _t  # noqa: F401
            import contextlib
            with contextlib.redirect_stderr(null):
                out = team.run(body)
        for t in ts:
            t.accelerator = t.accelerator.real
            training.close(t)
        if what == "test":
            out[0] = {"val_loss": out[0], "num_val_entries": entries[0]}
        return out, seen, ts

    plain_batches = []

    def judged(out, seen, ts, what, weights=None):
        ranks = len(seen)
        require(all(len(s) == len(seen[0]) for s in seen), "the ranks evaluate different numbers of batches")
        m = next(iter(ts[0].models.values()))
        total, counts, weight = {}, [], []
        entries = 0
        for b in range(len(seen[0])):
            idx = [r for r in range(ranks) if weights is None or weights[r][b]]
            if not idx:
                continue
            data = {k: np.concatenate([seen[r][b][1][k][seen[r][b][0]] for r in idx]) for k in ("board_input", "value_target", "policy_target")}
            entries += len(data["value_target"])
            with torch.no_grad():
                res = m({"board_input": torch.tensor(data["board_input"])})
            res = {k: v.double().numpy() for k, v in res.items()}
            data = {k: v.astype(np.float64) for k, v in data.items()}
            cfg = dict(loss="CE+CE", extra={}, T=1.0, alpha=1.0, reg=0, ratio=1)
            want = oracle(cfg, data, res, None)
            if what == "test":
                want = {**{f"lossCE_{k}": v for k, v in want.items()}, **metric_oracle(data, res, False)}
            for k, v in want.items():
                total.setdefault(k, []).append(v)
            weight.append(len(idx))
        want = {k: float(np.average(v, weights=weight)) for k, v in total.items()}
        got = out[0]["val_loss"]
        same_report(got, want, f"reported by {what}", tol=2e-4)
        require(all(o is None for o in out[1:]), "another rank than the main one reports")
        require(out[0]["num_val_entries"] == entries, "the number of evaluated rows is not that of the real rows", got=out[0]["num_val_entries"], want=entries)
        return entries

    def whole(kind, what, ranks, local, max_batches=None, mult=1):
        nfiles, rws = rng.randint(1, 3), (1, 9)
        folder = tempfile.mkdtemp(dir=H.scratch)
        files = training.write_data(folder, rng, files=nfiles, rows=rws, size=5)
        args = {"boardsizes": [(5, 5)], "rules": ["freestyle", "standard", "renju"]}
        out, seen, ts = trained(ranks, kind, files, what, local=local, mult=mult, dataset_args=args, replay={"max_batches": max_batches}, loss_type="CE+CE")
        entries = judged(out, seen, ts, what)
        have = []
        for f in files:
            with np.load(f) as z:
                have += [z["vt"][i].tobytes() for i in range(len(z["vt"]))]
        got = [x[1]["value_target"][i].astype(np.float32).tobytes() for s in seen for x in s for i in range(len(x[0])) if x[0][i]]
        if max_batches is None:
            require(sorted(got) == sorted(have), "a row of the data is evaluated twice or not at all", rows=len(have), evaluated=len(got))
        else:
            require(len(seen[0]) == min(max_batches, -(-len(have) // (ranks * local * mult))), "max_batches is not the number of batches", got=len(seen[0]))
            require(len(set(got)) == len(got) and set(got) <= set(have), "a row of the data is evaluated twice")
    combos = [(k, w, r) for k in ("processed_katago_numpy", "iterative_processed_katago_numpy") for w in ("validate", "test") for r in (1, 2, 3)]
    for i in range(H.scale(24, 240)):
        k, w, r = combos[i % len(combos)]
        local = rng.randint(1, 4)
        mb = rng.randint(1, 3) if w == "test" and rng.random() < .3 else None
        mult = rng.choice([1, 1, 2])
        H.case("trainer", lambda: whole(k, w, r, local, mb, mult), dataset=k, what=w, ranks=r, local=local, max_batches=mb, eval_bs_multipler=mult)

    # -- ranks whose plain loaders end at different times
    def uneven(what, ranks):
        nonlocal plain_batches
        local, size = rng.randint(1, 3), 5
        counts = [rng.randint(0, 3) for _ in range(ranks)]
        counts[rng.randrange(ranks)] = 3
        plain_batches = []
        for r in range(ranks):
            bs = []
            for _ in range(counts[r]):
                d, _, _ = rows(local, size, 3, False, False, [])
                bs.append({"board_input": torch.tensor(np_rng.integers(0, 2, (local, 2, size, size)).astype(np.int8)),
                           "value_target": torch.tensor(d["value_target"]).float(), "policy_target": torch.tensor(d["policy_target"]).float()})
            plain_batches.append(bs)
        files = training.write_data(tempfile.mkdtemp(dir=H.scratch), rng, files=1, rows=3, size=5)
        args = {"boardsizes": [(5, 5)], "rules": ["freestyle", "standard", "renju"]}
        out, seen, ts = trained(ranks, "plain", files, what, local=local, dataset_args=args, loss_type="CE+CE")
        judged(out, seen, ts, what, [[b < counts[r] for b in range(3)] for r in range(ranks)])
    for i in range(H.scale(8, 80)):
        w, r = ("validate", "test")[i % 2], 2 + i % 2
        H.case("uneven", lambda: uneven(w, r), what=w, ranks=r)
    base.gather_object = keep

    H.bound("rows", "1-12 rows of a global batch over 1-3 ranks and 1-4 slots each, boards 2x2 and 3x3, every loss type, teachers, focal weights, board masks, "
                    "forbidden weights and predefined auxiliary losses; padding rows hold NaN, infinities and huge numbers")
    H.bound("trainer", "test() and _validate() of the real trainer on 1-3 ranks (threads, collectives by stand-in), map-style and streamed processed data of 1-27 rows")
    H.bound("constant", "up to 400 batches (1500 in the thorough tier)")
