"""C13, executable contracts: the real trainer's saves and pruning over random run directories against an independent
description of what must be there; the latest-file choice over random listings (bounded)."""
import os
import re
import shutil

from .harness import partial, require
from . import cpp, training


def run(H):
    import torch
    torch.set_num_threads(1)
    latest(H)
    pruning(H)


# ---------------------------------------------------------------- the latest file
def number(name):
    """The last all-digit piece of the name without its extension."""
    stem = name[:name.rindex(".")] if "." in name.lstrip(".") else name
    for p in reversed(stem.split("_")):
        if p and all(c in "0123456789" for c in p):
            return int(p)
    return None


def latest(H):
    from utils import file_utils as F
    rng = H.rng
    H.bound("listings", "up to 12 files and folders with random prefixes, padding, extensions and leftovers; iterations up to 10^12")
    base = os.path.join(H.scratch, "list")

    def case(names, folders, prefix, exts):
        d = base
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n in names:
            open(os.path.join(d, n), "w").close()
        for n in folders:
            os.makedirs(os.path.join(d, n), exist_ok=True)
        for n in names:
            require(F.get_iteration_from_ckpt_filename(os.path.join(d, n)) == number(n), "the wrong iteration is read from a name",
                    name=n, got=F.get_iteration_from_ckpt_filename(n), expected=number(n))
        got = F.find_latest_ckpt(d, prefix) if exts is None else F.find_latest_ckpt(d, prefix, exts)
        ok = [n for n in names if n.startswith(prefix) and any(n.endswith(e) for e in (exts or [".pt", ".pth", ".sft", ".safetensors"]))]
        if not ok:
            require(got is None, "a file is found that was not asked for", got=got, names=names)
            return
        require(got is not None and os.path.dirname(got) == d and os.path.basename(got) in ok, "not one of the files asked for", got=got, names=names)
        best = max((number(n) if number(n) is not None else -1) for n in ok)
        require((number(os.path.basename(got)) if number(os.path.basename(got)) is not None else -1) == best,
                "the chosen file is not the one with the largest iteration", got=got, names=names)
    H.case("listing", lambda: require(F.find_latest_ckpt(os.path.join(base, "missing"), "x") is None, "a missing folder has a latest file"))
    special = [(["state_9999999.pt", "state_10000000.pt"], "state_"), (["state_0000010.pt", "state_9.pt"], "state_"), (["state_²_0000003.pt", "state_²_12.pt"], "state_"),
               (["state_².pt", "state_0000001.pt"], "state_"), (["ckpt_net_2_0000010.pt", "ckpt_net_2_0000009.pt"], "ckpt_net_2"),
               (["state_0000005.pt", "state_0000009.pt.tmp"], "state_"), (["state_latest.pt", "state_0000001.pt"], "state_")]
    for names, prefix in special:
        H.case("listing", lambda: case(names, [], prefix, None), names=names)
    for _ in range(H.scale(150, 2000)):
        names, folders = [], []
        for _ in range(rng.randint(0, 12)):
            it = rng.choice([rng.randrange(20), rng.randrange(10 ** 7 - 3, 10 ** 7 + 3), rng.randrange(10 ** 12)])
            n = rng.choice(["state_", "ckpt_net_", "ckpt_net2_", "runtime_", "x"]) + rng.choice([f"{it:07d}", f"{it}", f"{it:012d}", f"v{it}", f"{it}_best", f"{rng.randrange(9)}_{it:07d}", "²"])
            n += rng.choice([".pt", ".pt", ".pt", ".pth", ".sft", ".tmp", ".pt.tmp", "", ".safetensors"])
            (folders if rng.random() < .1 else names).append(n)
        names = sorted(set(names) - set(folders))
        H.case("listing", lambda: case(names, folders, rng.choice(["state_", "ckpt_net_", "ckpt_net", ""]), rng.choice([None, [".pt"], [".sft", ".pth"]])), names=names, folders=folders)


# ---------------------------------------------------------------- pruning
def listing(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, f))}


STATE = re.compile(r"state_(\d+)\.pt")
MODEL = re.compile(r"ckpt_(.+)_(\d+)\.pt")
SIDE = re.compile(r"runtime_(\d+)_[0-9a-f]{32}_rank_\d+\.pt")


def pruning(H):
    import torch
    rng = H.rng
    cpp.build(H, "dataset_planner_cpp")
    H.bound("run directories", "up to 9 saves of the real trainer in up to 3 sessions, one or two models, every retention limit up to 4, "
            "temporary and permanent snapshots, leftovers and foreign files, iterations across the zero-padding limit")

    def needed_sidecars(d, it):
        s = torch.load(os.path.join(d, f"state_{it:07d}.pt"), weights_only=True)
        return {r["vq_runtime"]["basename"] for r in s["resume"]["ranks"] if r.get("vq_runtime")}

    def case(keep, two, every, save_interval, sessions, foreign):
        d = os.path.join(H.scratch, "prune")
        shutil.rmtree(d, ignore_errors=True)
        data = training.write_data(os.path.join(d, "data"), rng, files=1, rows=5)
        models = ["tiny", "teacher"] if two else ["tiny"]
        states, model_its, extra = set(), set(), {}
        for session in sessions:
            t = training.make(os.path.join(d, "run"), data, iterations=10 ** 9, save_interval=save_interval, temp_save_interval=1,
                              state_save_interval=every, num_keep_states=keep)
            ck = t.ckpt_dir
            if two:
                import copy
                second = copy.deepcopy(t._unwrap(t.model))
                both = {"tiny": t.model, "teacher": second}
                t._checkpointed_models = lambda: both
            require(t.state.iteration == (max(states) if states else 0), "the run does not resume from the newest state", got=t.state.iteration, states=states)
            temps = set()
            for it, force in session:
                t.state.iteration = it
                if foreign and rng.random() < .5 and os.path.isdir(ck):
                    name = rng.choice(["notes.txt", "state_old.pt", "ckpt_tiny_best.pt", "xstate_0000001.pt", "state_0000001.pt.tmp", "ckpt_tiny_0000001.pt.tmp", "log_0000002.pt"])
                    extra[name] = os.urandom(7)
                    open(os.path.join(ck, name), "wb").write(extra[name])
                    side = f"runtime_{it:07d}_{'a' * 32}_rank_0.pt"         # left by an interrupted save
                    open(os.path.join(ck, side), "wb").write(b"junk")
                with training.Quiet():
                    t._save_checkpoint(force_state=force)
                due = force or every is None or it % every == 0
                model_its.add(it)
                if it % save_interval:
                    temps.add(it)
                if due:
                    states.add(it)
                if keep >= 0:
                    states = set(sorted(states)[max(0, len(states) - keep):])
                gone = {x for x in temps if x != max(model_its) and x not in states}
                model_its -= gone
                temps -= gone
                got = listing(ck)
                require({int(k[1]) for f in got if (k := STATE.fullmatch(f))} == states, "the wrong resumable states are kept",
                        got=sorted(f for f in got if STATE.fullmatch(f)), expected=sorted(states), limit=keep)
                have = {(k[1], int(k[2])) for f in got if (k := MODEL.fullmatch(f)) and not f.endswith("best.pt")}
                want = {(m, i) for m in models for i in model_its}
                require(not want - have, "a model snapshot that must stay was removed", missing=sorted(want - have), states=sorted(states))
                require(not have - want, "a superseded temporary snapshot was kept", extra=sorted(have - want), states=sorted(states))
                side = set().union(*[needed_sidecars(ck, s) for s in states]) if states else set()
                require(side <= set(got), "a runtime file a kept state needs was removed", missing=sorted(side - set(got)))
                require({f for f in got if SIDE.fullmatch(f)} <= side, "a runtime file nobody needs was kept", extra=sorted({f for f in got if SIDE.fullmatch(f)} - side))
                for n, b in extra.items():
                    require(got.get(n) == b, "a foreign file was changed", file=n)
            training.close(t)
    cases = [(1, False, None, 4, [[(i, False) for i in (2, 4, 5, 6, 8, 9)]], False),
             (2, True, 4, 4, [[(2, False), (4, False), (6, False)], [(7, True), (8, False), (10, False), (13, True)]], True),
             (-1, False, 2, 3, [[(i, False) for i in range(1, 8)]], False), (1, False, 5, 10, [[(i, False) for i in range(1, 9)], [(12, False), (15, False), (16, False)]], True),
             (2, False, None, 5, [[(9999998, False), (9999999, False), (10000000, False), (10000001, False)], [(10000003, False)]], False),
             (3, False, None, 4, [[(i, False) for i in (1, 2, 3, 5, 6, 7)]], True)]
    for _ in range(H.scale(14, 150)):
        start, sessions = rng.choice([0, 0, 9999995]), []
        for _ in range(rng.randint(1, 3)):
            s = []
            for _ in range(rng.randint(1, 4)):
                start += rng.randint(1, 4)
                s.append((start, rng.random() < .25))
            sessions.append(s)
        cases.append((rng.choice([1, 1, 2, 3, 4, -1]), rng.random() < .4, rng.choice([None, 2, 3, 4]), rng.choice([1, 2, 4, 5]), sessions, rng.random() < .5))
    for keep, two, every, si, sessions, foreign in cases:
        H.case("run directory", lambda: case(keep, two, every, si, sessions, foreign), num_keep_states=keep, two_models=two, state_save_interval=every,
               save_interval=si, sessions=sessions, foreign_files=foreign)

    def broken(kind):
        """A retained state that cannot be validated stops pruning before anything is removed."""
        d = os.path.join(H.scratch, "broken")
        shutil.rmtree(d, ignore_errors=True)
        data = training.write_data(os.path.join(d, "data"), rng, files=1, rows=5)
        t = training.make(os.path.join(d, "run"), data, iterations=100, save_interval=4, temp_save_interval=1, num_keep_states=3)
        for it in (1, 2, 3):
            t.state.iteration = it
            with training.Quiet():
                t._save_checkpoint()
        ck = t.ckpt_dir
        p = os.path.join(ck, "state_0000002.pt")
        if kind == "truncated":
            b = open(p, "rb").read()
            open(p, "wb").write(b[:len(b) // 2])
        elif kind == "renamed":
            os.replace(os.path.join(ck, "state_0000001.pt"), os.path.join(ck, "state_0000003.pt"))
            p = os.path.join(ck, "state_0000003.pt")
        elif kind == "sidecar":
            s = torch.load(p, weights_only=True)
            os.remove(os.path.join(ck, s["resume"]["ranks"][0]["vq_runtime"]["basename"]))
        elif kind == "digest":
            s = torch.load(p, weights_only=True)
            f = os.path.join(ck, s["resume"]["ranks"][0]["vq_runtime"]["basename"])
            b = bytearray(open(f, "rb").read())
            b[len(b) // 2] ^= 1
            open(f, "wb").write(bytes(b))
        before = listing(ck)
        t.num_keep_states = 2
        try:
            t._cleanup_checkpoints()
        except RuntimeError:
            pass
        else:
            require(False, "a damaged kept state is not noticed while pruning", kind=kind)
        require(listing(ck) == before, "something was removed although a kept state is damaged", kind=kind)
        training.close(t)
    synthetic(H)
    for kind in ("truncated", "renamed", "sidecar", "digest"):
        H.case("damaged state", lambda: broken(kind), kind=kind)


def synthetic(H):
    """Hand-made run directories of several ranks, pruned by the real code (validators accept everything)."""
    import torch
    from trainer import base
    rng = H.rng
    H.bound("synthetic directories", "up to 3 ranks, 5 states of both formats, 8 model groups, any remembered snapshots, limits 0 to 4 and none")

    def case(world, keep, states, models, temps, version):
        d = os.path.join(H.scratch, "synth")
        shutil.rmtree(d, ignore_errors=True)
        ck = os.path.join(d, "ckpts")
        os.makedirs(ck)
        for n, it in models:
            open(os.path.join(ck, f"ckpt_{n}_{it:07d}.pt"), "wb").write(b"m")
        sides = {}
        for it in states:
            names = [f"runtime_{it:07d}_{'%032x' % (it + 1)}_rank_{r}.pt" for r in range(world)]
            v = version[it % len(version)]
            for n in names:
                open(os.path.join(ck, n), "wb").write(b"r")
            sides[it] = set(names) if v == 2 else set()
            torch.save({"format_version": 2, "metadata": {"iteration": it}, "resume": {"version": v, "world_size": world, "ranks": [
                {"vq_runtime": {"basename": n}} for n in names]}}, os.path.join(ck, f"state_{it:07d}.pt"))
        open(os.path.join(ck, f".runtime-tmp_{1:07d}_{'b' * 32}_rank_0_12_{'c' * 32}.pt"), "wb").write(b"t")
        t = partial(object.__new__(base.BaseTrainer))
        t.rundir, t.num_keep_states, t._temp_snapshot_iters = d, keep, set(temps)

        class Acc:
            num_processes, process_index, is_main_process = world, 0, True
        t.accelerator = Acc()
        t._validate_rank_resume_states = lambda s, **k: s
        t._validate_retained_vq_runtime_manifest = lambda m, *, iteration, rank: (
            require(m["basename"].startswith(f"runtime_{iteration:07d}_") and m["basename"].endswith(f"_rank_{rank}.pt"), "a manifest is checked for another rank"), m["basename"])[1]
        order = []
        real = os.remove

        def remove(p, *a, **k):
            order.append(os.path.basename(p))
            return real(p, *a, **k)
        os.remove = os.unlink = remove
        try:
            t._cleanup_checkpoints()
        finally:
            os.remove = os.unlink = real
        kept = sorted(states)[max(0, len(states) - keep):] if keep >= 0 else sorted(states)
        got = set(os.listdir(ck))
        require({f for f in got if STATE.fullmatch(f)} == {f"state_{i:07d}.pt" for i in kept}, "the wrong resumable states are kept", got=sorted(got), expected=kept)
        need = set().union(*[sides[i] for i in kept]) if kept else set()
        require(need <= got, "a runtime file a kept state needs was removed", missing=sorted(need - got))
        require({f for f in got if SIDE.fullmatch(f)} <= need and not any(f.startswith(".runtime") for f in got), "a runtime file nobody needs was kept", got=sorted(got))
        newest = max([i for _, i in models], default=None)
        want = {f"ckpt_{n}_{i:07d}.pt" for n, i in models if i not in temps or i == newest or i in kept}
        require({f for f in got if f.startswith("ckpt_")} == want, "the wrong model snapshots are kept", got=sorted(got), expected=sorted(want), kept_states=kept)
        last_state = max([i for i, f in enumerate(order) if STATE.fullmatch(f)], default=-1)
        require(all(not SIDE.fullmatch(f) and not MODEL.fullmatch(f) for f in order[:max(0, last_state)]), "a file goes before the state that needs it", order=order)
    for _ in range(H.scale(120, 1200)):
        off = rng.choice([0, 0, 9999995])
        pool = [off + i for i in range(1, 12)]
        models = [(n, i) for i in rng.sample(pool, rng.randint(0, 8)) for n in rng.choice([["net"], ["net", "ema"]])]
        its = sorted({i for _, i in models})
        states = sorted(rng.sample(its, rng.randint(0, min(5, len(its)))))
        temps = [i for i in its if rng.random() < .6] + ([10 ** 9] if rng.random() < .2 else [])
        args = (rng.randint(1, 3), rng.choice([-1, 0, 1, 1, 2, 3, 4]), states, models, temps, rng.choice([[2], [2], [1, 2], [1]]))
        H.case("synthetic directory", lambda: case(*args), world=args[0], num_keep_states=args[1], states=states, models=models, snapshots=temps, versions=args[5])
