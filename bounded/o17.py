"""O17 - executable contracts: chains of real torch optimizers against one optimizer per parameter."""
import copy
import io

import torch

from bounded.harness import require


def run(H):
    from utils.chained_optimizer import ChainedOptimizer, OptimizerSpec
    rng = H.rng
    torch.set_num_threads(1)
    KINDS = [(torch.optim.SGD, {"momentum": 0.9}), (torch.optim.AdamW, {}), (torch.optim.RMSprop, {"momentum": 0.5}),
             (torch.optim.Adam, {"betas": (0.8, 0.95), "weight_decay": 0.03}), (torch.optim.SGD, {}), (torch.optim.Adagrad, {})]
    H.bound("chains", "1-4 members of 6 torch optimizer kinds, 1-12 parameters in 1-3 groups, overlapping filters, 1-6 steps, learning rates "
                      "changed between steps, groups added later, states saved and loaded at every step")

    def make_filters(members, tags, total):
        """Overlapping filters over tags; the last may be missing (accepts everything)."""
        fs = []
        for k in range(members):
            if k == members - 1 and total:
                fs.append(None)
            else:
                fs.append({t for t in tags if rng.random() < 0.45})
        return fs

    def first(fs, tag):
        for k, f in enumerate(fs):
            if f is None or tag in f:
                return k
        return None

    def grads(params, seed):
        g = torch.Generator().manual_seed(seed)
        for p in params:
            p.grad = torch.randn(p.shape, generator=g)

    class Chain:
        def __init__(self, n, members, total=True, groups=1, kinds=None, fs=None, shapes=None, lr=0.05, wd=0.01):
            self.kinds = kinds or [rng.choice(KINDS) for _ in range(members)]
            self.shapes = shapes or [tuple(rng.choice([(3,), (2, 2), ()])) for _ in range(n)]
            self.fs = fs if fs is not None else make_filters(members, range(n), total)
            self.lr, self.wd = lr, wd
            g = torch.Generator().manual_seed(n * 7 + members)
            self.params = [torch.nn.Parameter(torch.randn(s, generator=g)) for s in self.shapes]
            self.twins = [torch.nn.Parameter(p.detach().clone()) for p in self.params]
            self.tag = {id(p): k for k, p in enumerate(self.params)}
            self.picked = []
            self.owner = [first(self.fs, k) for k in range(n)]
            cut = sorted(rng.sample(range(1, n), min(groups - 1, n - 1))) if groups > 1 else []
            self.parts = [list(range(a, b)) for a, b in zip([0] + cut, cut + [n])]
            self.specs = [OptimizerSpec(c, dict(a), None if f is None else (lambda p, f=f: self.tag[id(p)] in f))
                          for (c, a), f in zip(self.kinds, self.fs)]

        def build(self):
            ps = self.params if len(self.parts) == 1 else [{"params": [self.params[k] for k in part]} for part in self.parts]
            self.opt = ChainedOptimizer(iter(ps) if rng.random() < 0.3 else ps, self.specs, lr=self.lr, weight_decay=self.wd,
                                        optimizer_selection_callback=lambda p, i: self.picked.append((self.tag[id(p)], i)))
            self.ref = []
            for k, t in enumerate(self.twins):
                c, a = self.kinds[self.owner[k]]
                self.ref.append(c([t], **{"lr": self.lr, "weight_decay": self.wd, **a}))
            return self

        def check_partition(self, groups=None):
            require([i for _, i in sorted(self.picked)] == self.owner and len(self.picked) == len(self.params),
                    "the selection reported is not the first member that accepts", picked=self.picked, owner=self.owner)
            seen = {}
            for i, o in enumerate(self.opt.optimizers):
                for g in o.param_groups:
                    for p in g["params"]:
                        require(id(p) not in seen, "a parameter has two members", parameter=self.tag[id(p)])
                        seen[id(p)] = i
            require([seen.get(id(p)) for p in self.params] == self.owner, "a parameter is not with its first accepting member",
                    owner=self.owner, got=[seen.get(id(p)) for p in self.params])
            require([type(o) for o in self.opt.optimizers] == [c for c, _ in self.kinds], "members out of order")

        def step(self, seed, lr, closure=None):
            for g in self.opt.param_groups:
                g["lr"] = lr
            for o in self.ref:
                o.param_groups[0]["lr"] = lr
            calls = []

            def f():
                require(torch.is_grad_enabled(), "the closure runs without gradients")
                calls.append([p.detach().clone() for p in self.params])
                grads(self.params, seed)
                return torch.tensor(1.25 + seed)
            before = [p.detach().clone() for p in self.params]
            if closure is None:
                closure = rng.random() < 0.5
            if closure:
                with torch.no_grad():
                    out = self.opt.step(f)
                require(len(calls) == 1, "the closure ran several times", calls=len(calls))
                require(all(torch.equal(a, b) for a, b in zip(calls[0], before)), "the closure ran after a member had stepped")
                require(out is not None and float(out) == 1.25 + seed, "step does not return the loss")
            else:
                grads(self.params, seed)
                require(self.opt.step() is None, "step returns something without a closure")
            grads(self.twins, seed)
            for o in self.ref:
                o.step()
            for i, o in enumerate(self.opt.optimizers):
                require(all(g["lr"] == lr for g in o.param_groups), "a member has another learning rate than the chain", member=i, lr=lr,
                        got=[g["lr"] for g in o.param_groups])
            self.same("after a step")

        def same(self, when):
            for k, (p, t) in enumerate(zip(self.params, self.twins)):
                require(torch.equal(p, t), f"a parameter differs from the one its own member alone would give {when}", parameter=k,
                        member=self.owner[k])

    def ok(fs, n):
        own = [first(fs, k) for k in range(n)]
        return None not in own and set(own) == set(range(len(fs)))

    def chain(n, members, **kw):
        for _ in range(200):
            c = Chain(n, members, **kw)
            if ok(c.fs, n):
                return c
        return None

    def training(n, members, groups, steps):
        def f():
            c = chain(n, members, groups=groups, total=rng.random() < 0.7)
            if c is None:
                return
            c.build()
            c.check_partition()
            for s in range(steps):
                c.step(s, rng.choice([0.1, 0.01, 0.003 * (s + 1)]))
                none = rng.random() < 0.5
                c.opt.zero_grad(none) if rng.random() < 0.5 else c.opt.zero_grad(set_to_none=none)
                require(all((p.grad is None) if none else (p.grad is not None and not p.grad.any()) for p in c.params),
                        "zero_grad leaves a gradient", set_to_none=none)
        H.case("training", f, n=n, members=members, groups=groups, steps=steps)

    for _ in range(H.scale(120, 1500)):
        members = rng.randint(1, 4)
        n = rng.randint(members, 12)
        training(n, members, rng.randint(1, min(3, n)), rng.randint(1, 6))

    def added(n, members, extra, steps):
        def f():
            c = chain(n + extra, members, total=rng.random() < 0.7)
            if c is None or not ok(c.fs, n) or None in [first(c.fs, k) for k in range(n + extra)]:
                return
            c.parts = [list(range(n))]
            every, twins = c.params, c.twins
            c.params, c.twins, c.owner = every[:n], twins[:n], c.owner[:n]
            c.build()
            for s in range(steps):
                c.step(s, 0.02)
            done = n
            while done < n + extra:
                m = rng.randint(1, n + extra - done)
                new = list(range(done, done + m))
                g = {"params": [every[k] for k in new]} if m > 1 or rng.random() < 0.5 else {"params": every[done]}
                if rng.random() < 0.5:
                    g["lr"] = 0.5
                before = [len(o.param_groups) for o in c.opt.optimizers]
                c.opt.add_param_group(g)
                for k in new:
                    o = first(c.fs, k)
                    c.owner.append(o)
                    cl, a = c.kinds[o]
                    c.ref.append(cl([twins[k]], **{"lr": 0.05, "weight_decay": c.wd, **a}))
                done += m
                c.params, c.twins = every[:done], twins[:done]
                c.check_partition()
                after = [len(o.param_groups) for o in c.opt.optimizers]
                require(after == [b + (i in {first(c.fs, k) for k in new}) for i, b in enumerate(before)], "another number of member groups",
                        before=before, after=after)
                # one rate per group: a member's group follows the chain's group that names it
                rates = [0.01 * (k + 1) for k in range(len(c.opt.param_groups))]
                uniform = rng.random() < 0.5
                for gr, r in zip(c.opt.param_groups, rates):
                    gr["lr"] = 0.033 if uniform else r
                grads(c.params, done)
                c.opt.step()
                for i, o in enumerate(c.opt.optimizers):
                    for q, mg in enumerate(o.param_groups):
                        home = [gi for gi, gr in enumerate(c.opt.param_groups)
                                if any(p is x for p in mg["params"] for x in gr["params"])]
                        require(mg["lr"] in [0.033 if uniform else rates[gi] for gi in home], "a group added later misses the scheduled rate",
                                member=i, group=q, lr=mg["lr"])
                grads(c.twins, done)
                for k, o in enumerate(c.ref):
                    i = c.owner[k]
                    mg = next(mg for mg in c.opt.optimizers[i].param_groups if any(p is c.params[k] for p in mg["params"]))
                    o.param_groups[0]["lr"] = mg["lr"]
                    o.step()
                c.same("after a group was added")
        H.case("added groups", f, n=n, members=members, extra=extra, steps=steps)

    for _ in range(H.scale(60, 800)):
        members = rng.randint(1, 3)
        n = rng.randint(members + 1, 8)
        added(n, members, rng.randint(1, 5), rng.randint(0, 2))

    def refused(n, members):
        def f():
            c = Chain(n, members, total=False)
            orphans = [k for k in range(n) if first(c.fs, k) is None]
            if not orphans:
                return
            try:
                ChainedOptimizer(c.params, c.specs, lr=0.1)
            except ValueError:
                return
            require(False, "a parameter no member accepts is left out silently", orphans=orphans)
        H.case("no member accepts", f, n=n, members=members)

        def h():
            c = Chain(n, members, total=False)
            c.fs[rng.randrange(members)] = None
            c = Chain(n, members, kinds=c.kinds, fs=c.fs, shapes=c.shapes)
            if ok(c.fs, n):
                c.build()
                c.check_partition()
                return
            try:
                o = ChainedOptimizer(c.params, c.specs, lr=0.1)
            except ValueError:      # torch refuses a member without parameters
                return
            require(False, "a parameter skips the first member that accepts it", owner=c.owner,
                    got=[[c.tag[id(p)] for g in x.param_groups for p in g["params"]] for x in o.optimizers])
        H.case("a member without filter", h, n=n, members=members)

        def g():
            c = chain(n, members, total=False)
            if c is None:
                return
            c.build()
            extra = torch.nn.Parameter(torch.ones(2))
            c.tag[id(extra)] = -1
            groups = [len(o.param_groups) for o in c.opt.optimizers]
            try:
                c.opt.add_param_group({"params": [extra]})
            except ValueError:
                require([len(o.param_groups) for o in c.opt.optimizers] == groups, "a refused group reached a member")
                return
            require(False, "a parameter no member accepts is added silently")
        H.case("no member accepts a new one", g, n=n, members=members)

    for _ in range(H.scale(80, 400)):
        refused(rng.randint(3, 9), rng.randint(1, 3))

    def saved(n, members, k, more, blob, late, again):
        """Training saved after k steps and continued in a new chain equals training in one go."""
        def f():
            c = chain(n, members, groups=1)
            if c is None:
                return
            c.build()
            for s in range(k):
                c.step(s, 0.02 + 0.01 * s)
            state = c.opt.state_dict()
            require(len(state["optimizers"]) == members, "the state lacks a member")
            if blob:
                buf = io.BytesIO()
                torch.save(state, buf)
                state = torch.load(io.BytesIO(buf.getvalue()), weights_only=False)
            else:
                state = copy.deepcopy(state)
            d = Chain(n, members, kinds=c.kinds, fs=c.fs, shapes=c.shapes, lr=0.7 if late else c.lr)
            d.build()
            if late:        # the new chain has already trained: nothing of that may remain
                for g in d.opt.param_groups:
                    g["lr"] = 0.125
                for s in range(2):
                    grads(d.params, 99 + s)
                    d.opt.step()
            for a, b in zip(d.params, c.params):
                a.data.copy_(b.data)
            keys = set(state)
            d.opt.load_state_dict(state)
            require(set(state) == keys and len(state["optimizers"]) == members, "loading changes the caller's state")
            for a, b in zip(d.opt.optimizers, c.opt.optimizers):
                require(a.param_groups[0]["lr"] == b.param_groups[0]["lr"], "a member's rate is not restored")
                x, y = a.state_dict()["state"], b.state_dict()["state"]
                require(set(x) == set(y) and all(torch.equal(torch.as_tensor(x[p][q]), torch.as_tensor(y[p][q]))
                        for p in x for q in x[p] if x[p][q] is not None), "a member's state is not restored")
            d.twins, d.ref = c.twins, c.ref
            require([g["lr"] for g in d.opt.param_groups] == [g["lr"] for g in c.opt.param_groups], "the chain's rate is not restored")
            if again:       # the first step after loading uses a rate set before it, perhaps the one used before loading
                d.step(50, 0.125)
            else:
                grads(d.params, 50)
                d.opt.step()
                grads(c.twins, 50)
                for o in c.ref:
                    o.step()
            d.same("after loading")
            for s in range(more):
                d.step(60 + s, 0.004 * (s + 1))
        H.case("saved states", f, n=n, members=members, after=k, more=more, blob=blob, late=late, again=again)

    for _ in range(H.scale(60, 800)):
        members = rng.randint(1, 4)
        saved(rng.randint(members, 10), members, rng.randint(0, 4), rng.randint(0, 3), rng.random() < 0.5, rng.random() < 0.4,
              rng.random() < 0.5)

    def other(sizes_a, sizes_b):
        def f():
            def mk(sizes):
                n = sum(sizes)
                cut, fs = 0, []
                for s in sizes:
                    fs.append(set(range(cut, cut + s)))
                    cut += s
                c = Chain(n, len(sizes), fs=fs, kinds=[KINDS[1]] * len(sizes), shapes=[(2,)] * n)
                return c.build()
            a, b = mk(sizes_a), mk(sizes_b)
            a.step(1, 0.01)
            try:
                b.opt.load_state_dict(a.opt.state_dict())
            except (ValueError, IndexError, KeyError):
                require(list(sizes_a) != list(sizes_b), "the state of the same chain is refused")
                return
            require(list(sizes_a) == list(sizes_b), "the state of another chain is accepted", saved=sizes_a, into=sizes_b)
        H.case("states of other chains", f, saved=sizes_a, into=sizes_b)

    def comps(n):
        return [[n]] + [[k] + r for k in range(1, n) for r in comps(n - k)]
    every = [c for n in range(1, H.scale(4, 5) + 1) for c in comps(n)]
    H.bound("other chains", f"all pairs of member sizes summing to at most {H.scale(4, 5)}")
    for a in every:
        for b in every:
            other(a, b)

    def bare():
        c = chain(4, 2).build()
        s = dict(c.opt.state_dict())
        s.pop("optimizers")
        try:
            c.opt.load_state_dict(s)
        except (KeyError, ValueError):
            return
        require(False, "a state without the members' states is accepted")
    H.case("a state without members", bare)

    # ------------------------------------------------------------ the chain the trainer builds
    def built(shape_seed, freeze, two):
        def f():
            from utils.training_utils import build_optimizer
            g = torch.Generator().manual_seed(shape_seed)

            def net():
                return torch.nn.Sequential(torch.nn.Conv2d(2, 4, 3), torch.nn.BatchNorm2d(4), torch.nn.ReLU(), torch.nn.Flatten(),
                                           torch.nn.Linear(4 * 9, 3))
            models = [net(), net()] if two else [net()]
            names = [p for m in models for p in m.parameters()]
            if freeze:
                for p in names[::3]:
                    p.requires_grad_(False)
            opt = build_optimizer("muon-adamw", models if two else models[0], 0.01, 0.02)
            held = [id(p) for o in opt.optimizers for gr in o.param_groups for p in gr["params"]]
            want = [id(p) for p in names if p.requires_grad]
            require(sorted(held) == sorted(want), "the trainer's chain does not hold every trainable parameter once")
            before = [p.detach().clone() for p in names]
            sched = torch.optim.lr_scheduler.StepLR(opt, 1, gamma=0.5)
            for s in range(3):
                x = torch.randn(5, 2, 5, 5, generator=g)
                opt.zero_grad()
                sum(m(x).pow(2).sum() for m in models).backward()
                opt.step()
                require(all(gr["lr"] == opt.param_groups[0]["lr"] for o in opt.optimizers for gr in o.param_groups),
                        "a member misses the scheduled rate")
                sched.step()
            for p, b in zip(names, before):
                require(torch.equal(p, b) != p.requires_grad, "a trainable parameter did not move, or a frozen one did")
        H.case("muon-adamw", f, seed=shape_seed, freeze=freeze, two=two)

    for k in range(H.scale(6, 40)):
        built(k, k % 2 == 1, k % 3 == 2)
