"""Small real training runs on the CPU: the real trainer, data stream and checkpoint code around a tiny model."""
import os
import sys

import numpy as np

os.environ.setdefault("ACCELERATE_USE_CPU", "true")
_ready = False


def setup():
    """Import the trainer and register the tiny model."""
    global _ready
    import torch
    torch.set_num_threads(1)
    from trainer import build_trainer
    from model import MODELS
    if not _ready:
        import torch.nn as nn

        class Tiny(nn.Module):
            def __init__(self, name="tiny", seed=0):
                super().__init__()
                self.name = name
                g = torch.Generator().manual_seed(seed)
                self.w = nn.Parameter(torch.randn(4, 2, generator=g))

            def forward(self, data):
                x = data["board_input"].float()                                     # [B, 2, H, W]
                policy = torch.einsum("bchw,c->bhw", x, self.w[3])
                value = torch.einsum("bchw,vc->bv", x, self.w[:3]) / x.shape[-1] ** 2
                return {"value": value, "policy": policy}
        if "pyvc_tiny" not in MODELS:
            MODELS.register("pyvc_tiny")(Tiny)
        _ready = True
    return build_trainer


class Quiet:
    def __enter__(self):
        self.old = sys.stdout
        sys.stdout = open(os.devnull, "w")

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.old
        return False


def write_data(folder, rng, files=3, rows=10, size=7):
    """Processed training files with proper value and policy targets."""
    os.makedirs(folder, exist_ok=True)
    out = []
    for f in range(files):
        r = np.random.default_rng(rng.randrange(1 << 30))
        n = rows if isinstance(rows, int) else rng.randint(*rows)
        vt = r.random((n, 3)).astype(np.float32) + .1
        pt = r.random((n, size * size + 1)).astype(np.float32) + .1
        p = os.path.join(folder, f"f{f}.npz")
        np.savez(p, bf=r.integers(0, 2, size=(n, 2, size, size)).astype(np.int8), gf=np.where(r.random((n, 1)) < .5, 1., -1.).astype(np.float32),
                 vt=vt / vt.sum(1, keepdims=True), pt=pt / pt.sum(1, keepdims=True))
        out.append(p)
    return out


def make(rundir, data, **kw):
    build_trainer = setup()
    os.makedirs(rundir, exist_ok=True)
    kw = {**dict(rundir=rundir, train_datas=data, dataset_type="iterative_processed_katago_numpy", model_type="pyvc_tiny", use_cpu=True,
                 performance_level=0, batch_size=4, iterations=7, num_worker=0, log_interval=1000, show_interval=1000, save_interval=1000,
                 temp_save_interval=1000, dataset_args={"boardsizes": [(7, 7)], "rules": ["freestyle", "standard", "renju"]}), **kw}
    with Quiet():
        return build_trainer("supervised", **kw)


def run(t):
    with Quiet():
        t.run()
    return t


def close(t):
    """Release what a trainer holds open."""
    with Quiet():
        try:
            t._shutdown_resources()
        except Exception:
            pass
