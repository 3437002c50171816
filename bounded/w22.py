"""W22 on real tensors and real runs: rounding, broadcasting of the declared numbers, and that the ranges hold in every training forward pass."""
import os

import numpy as np

from bounded import cpp, training
from bounded.harness import partial, require


def run(H):
    cpp.build(H, "dataset_planner_cpp")
    training.setup()
    import torch
    import torch.nn as nn
    from utils.training_utils import apply_weight_clipping, resolve_weight_clipping
    from model import MODELS
    rng = H.rng
    H.bound("tensors", "1-4 axes of 1-6, values to 1e4, float32/64/bfloat16; 1-4 groups of 0-3 parameters, half with virtual parameters")
    H.bound("runs", "a model with plain and virtual declared ranges, large learning rates, 2-6 steps, accumulation")

    def direct():
        dtype = rng.choice([torch.float32, torch.float32, torch.float64, torch.bfloat16])
        g = torch.Generator().manual_seed(rng.randrange(1 << 30))
        named, declared, want = {}, [], {}
        tensor = lambda s: nn.Parameter((torch.randn(s, generator=g) * 10 ** rng.uniform(-2, 4)).to(dtype))
        for k in range(rng.randint(1, 4)):
            lo = rng.uniform(-3, 3)
            group = {"params": [], "min_weight": lo, "max_weight": lo + rng.choice([0, rng.uniform(0, 4)])}
            if rng.random() < .5:
                group["virtual_params"] = []
            for j in range(rng.randint(0, 3)):
                name = f"p{k}.{j}"
                tiles = [rng.randint(1, 3) for _ in range(rng.randint(1, 4))]
                small = [rng.randint(1, 3) for _ in tiles]
                named[name] = tensor([a * b for a, b in zip(tiles, small)])
                group["params"].append(name)
                shift = None
                if "virtual_params" in group:
                    named["v" + name] = tensor(small)
                    group["virtual_params"].append("v" + name)
                    shift = named["v" + name].detach().repeat(*tiles)
                want[name] = (group, shift)
            declared.append(group)
        named["free"] = tensor([3])
        named = dict(rng.sample(list(named.items()), len(named)))
        before = {k: v.detach().clone() for k, v in named.items()}
        apply_weight_clipping(resolve_weight_clipping(iter(named.items()), declared))
        for k, v in named.items():
            if k not in want:
                require(torch.equal(v.detach(), before[k]), "a parameter without a range is changed", name=k)
                continue
            group, shift = want[k]
            lo, hi = (torch.full_like(v.detach(), group[x]) for x in ("min_weight", "max_weight"))
            if shift is not None:
                lo, hi = lo - shift, hi - shift
            require(bool((v.detach() >= lo).all() and (v.detach() <= hi).all()), "a parameter is outside its range", virtual=shift is not None)
            inside = (before[k] >= lo) & (before[k] <= hi)
            require(bool((v.detach() == before[k])[inside].all()), "a value within its range is changed", virtual=shift is not None)
            require(bool(((v.detach() == lo) | (v.detach() == hi))[~inside].all()), "a value outside its range is not moved to an end of it", virtual=shift is not None)
    for _ in range(H.scale(150, 3000)):
        H.case("clipping", direct)

    class Ranged(nn.Module):
        def __init__(self, name="ranged", seed=0):
            super().__init__()
            self.name = name
            g = torch.Generator().manual_seed(seed)
            self.a = nn.Parameter(torch.randn(3, 2, generator=g))
            self.b = nn.Parameter(torch.randn(4, 2, generator=g))
            self.base = nn.Parameter(torch.randn(2, 1, generator=g))
            self.c = nn.Parameter(torch.randn(2, generator=g))
            self.seen = []

        @property
        def weight_clipping(self):
            return [{"params": ["a"], "min_weight": -.05, "max_weight": .07}, {"params": ["b"], "virtual_params": ["base"], "min_weight": -.1, "max_weight": .1}]

        def forward(self, data):
            if self.training:
                with torch.no_grad():
                    self.seen.append((self.a.clone(), self.b.clone() + self.base.repeat(2, 2)))
            x = data["board_input"].float()
            value = torch.einsum("bchw,vc->bv", x, self.a) / x.shape[-1] ** 2
            policy = torch.einsum("bchw,c->bhw", x, (self.b + self.base.repeat(2, 2)).sum(0) + self.c)
            return {"value": value, "policy": policy}
    if "pyvc_ranged" not in MODELS:
        MODELS.register("pyvc_ranged")(Ranged)

    from trainer.base import BaseTrainer

    def several():
        t = partial(object.__new__(BaseTrainer))
        t.models = {}
        for k in range(rng.randint(0, 4)):
            m = Ranged(seed=k)
            if rng.random() < .3:
                m = nn.Linear(2, 2)
            t.models[f"m{k}"] = m
        t._unwrap = lambda m: m
        for _ in range(2):
            t._setup_weight_clipping()
            got = sorted((id(p), lo, hi) for lo, hi, ps, v in t._weight_clip_groups for p in ps)
            want = sorted(x for m in t.models.values() if isinstance(m, Ranged) for x in ((id(m.a), -.05, .07), (id(m.b), -.1, .1)))
            require(got == want, "not every model's declared ranges are set up, once", models=len(t.models))
    for _ in range(H.scale(30, 200)):
        H.case("several models", several)

    def real(k):
        d = os.path.join(H.scratch, f"w22-{k}")
        data = training.write_data(os.path.join(d, "data"), rng, files=1, rows=12)
        gas = rng.choice([1, 2])
        kw = dict(model_type="pyvc_ranged", dataset_type=rng.choice(["iterative_processed_katago_numpy", "processed_katago_numpy"]), gradient_accumulation_steps=gas,
                  optim_type=rng.choice(["adamw", "sgd", "muon-adamw"]), learning_rate=1.0, batch_size=3, random_seed=rng.randrange(99))
        n = rng.randint(2, 6)
        t = training.make(d, data, **{**kw, "iterations": n})
        training.run(t)
        seen = [s for m in t.models.values() for s in t._unwrap(m).seen]
        require(len(seen) == n * gas, "harness: forward passes", got=len(seen), want=n * gas)
        for step, (a, b) in enumerate(seen):
            require(bool((a >= -.0501).all() and (a <= .0701).all()), "a forward pass sees a parameter outside its range", step=step)
            require(bool((b.abs() <= .1001).all()), "a forward pass sees a parameter outside its range with its virtual parameter", step=step)
        training.close(t)
    for k in range(H.scale(6, 60)):
        H.case("real run", lambda: real(k), run=k)
