"""O17 - a chain of optimizers: who updates which parameter, with which rate, and what a saved state restores."""
import types

import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymBool, SymInt, SymReal, LazySeq, int_term, to_bool_term
from pyvc.load import World, LoopSpec

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
MOD = "utils.chained_optimizer"
TRUSTED = ["torch.optim.Optimizer: __init__ adds each group with add_param_group and stores lr and the other defaults in it; the groups hold "
           "distinct tensors; an empty parameter list is refused; add_param_group appends the group to param_groups or raises; load_state_dict "
           "refuses a state whose groups differ in number or size",
           "each member optimizer's own step, zero_grad, state_dict and load_state_dict; a filter answers the same for the same parameter"]

ACC = z3.Function("accepts", I, I, B)          # filter i accepts parameter x
NONE = z3.Function("no_filter", I, B)          # member i has no filter: accepts everything
FIRST = z3.Function("first_member", I, I)      # the first member that accepts x, or the number of members
PID = z3.Function("parameter", I, I, I)        # parameter j of group g
NP = z3.Function("group_size", I, I)
NG = z3.Function("member_groups", I, I)        # how many groups member i has
LR = z3.Function("group_lr", I, R)
EO, EQ = z3.Function("entry_member", I, I, I), z3.Function("entry_group", I, I, I)
NE = z3.Function("entries", I, I)
SEEN = z3.Function("seen", I, I, B)            # one of the first e entries of group g names the watched member group
LAST = z3.Function("last_referring", I, I)     # the last of the first g groups that names it, or -1
FILLED = z3.Function("pile_filled", I, B)
SZ, SZ2, PS, PS2 = (z3.Function(n, I, I) for n in ("size", "saved_size", "sizes", "saved_sizes"))


def accepts(i, x):
    return z3.Or(NONE(i), ACC(i, x))


class G:
    """The ghost state of one harness."""

    def __init__(self, specs=None):
        c = ctx()
        self.c = c
        self.n = c.fresh(I, "members")
        c.add(self.n >= 0)
        self.i, self.x, self.g, self.j = (c.fresh(I, k) for k in ("watched_member", "watched_param", "watched_group", "watched_position"))
        c.add(z3.And(self.i >= 0, self.i < self.n))

    def first(self, x, k=None):
        """Unfold what FIRST means for x (at k)."""
        f = FIRST(x)
        self.c.add(z3.And(f >= 0, f <= self.n, z3.Implies(f < self.n, accepts(f, x))))
        if k is not None:
            self.c.add(z3.Implies(z3.And(k >= 0, k < f), z3.Not(accepts(k, x))))
        return f


class Seq(LazySeq):
    __hash__ = None

    def __init__(self, n, at):
        self.n, self._at = n, at

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        return self._at(int_term(i))

    def __pyvc_len__(self):
        return SymInt(self.n)


class Piles(Seq):
    """What each member was given so far: how often the watched parameter is in the watched member's pile."""
    __pyvc_type__ = list

    def __init__(self, G, c):
        Seq.__init__(self, G.n, lambda k: Pile(self, k))
        self.G, self.c = G, c


class Pile:
    __hash__ = None

    def __init__(self, piles, k):
        self.piles, self.k = piles, k

    def append(self, p):
        G = self.piles.G
        if not isinstance(p, _Param):
            raise Unsupported("something else than a parameter of the group")
        G.S.prove("a parameter goes to a member whose filter accepts it", accepts(self.k, p.x))
        G.first(p.x, self.k)
        G.S.prove("a parameter goes to the first member that accepts it", self.k == FIRST(p.x))
        self.piles.c = self.piles.c + z3.If(z3.And(self.k == G.i, p.x == G.x), 1, 0)

    def __bool__(self):
        c = ctx()
        # a pile that holds the watched parameter is not empty
        c.add(z3.Implies(z3.And(self.k == self.piles.G.i, self.piles.c > 0), FILLED(self.k)))
        return c.decide(FILLED(self.k))

    def __pyvc_len__(self):
        c = ctx()
        n = c.fresh(I, "pile_size")
        c.add(z3.And(n >= 0, (n > 0) == FILLED(self.k), z3.Implies(z3.And(self.k == self.piles.G.i, self.piles.c > 0), FILLED(self.k))))
        return SymInt(n)


class Pairs:
    """A set of (member, group) pairs: does it hold the watched parameter's pair?"""
    __pyvc_type__ = set
    __pyvc_heap__ = True
    __hash__ = None

    def __init__(self, G):
        self.G, self.has = G, z3.BoolVal(False)

    def add(self, pair):
        if not (isinstance(pair, tuple) and len(pair) == 2):
            raise Unsupported("another entry of the group")
        o, q = map(int_term, pair)
        G = self.G
        G.S.prove("a recorded member exists", z3.And(o >= 0, o < G.n))
        G.S.prove("a recorded group is the one the member is about to get", q == G.next_group(o))
        self.has = z3.Or(self.has, z3.And(o == FIRST(G.x), q == G.next_group(FIRST(G.x))))


class _Param:
    pass


def prove(S):
    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return type(k, (), {})

    class Tensor:
        pass

    class Param(Tensor, _Param):
        def __init__(self, x):
            self.x = x

    hooks = {}

    class Optimizer:
        """torch's base class, as the trusted contract describes it."""

        def __init__(self, params, defaults):
            hooks["init"](self, params, defaults)

        def add_param_group(self, group):
            hooks["add"](self, group)

        def state_dict(self):
            return hooks["state"](self)

        def load_state_dict(self, state):
            hooks["load"](self, state)

        def zero_grad(self, set_to_none=True):
            raise Unsupported("the base class's zero_grad")

        def step(self, closure=None):
            raise Unsupported("the base class's step")

    class Grad:
        def __enter__(self):
            hooks["grad"] = True

        def __exit__(self, *a):
            hooks["grad"] = False

    torch = Dummy("torch")
    torch.Tensor = Tensor
    torch.enable_grad = Grad
    optim, opt2 = Dummy("torch.optim"), Dummy("torch.optim.optimizer")
    optim.Optimizer = opt2.Optimizer = Optimizer
    torch.optim = optim
    optim.optimizer = opt2

    def load(loops=None):
        w = World(loops, stubs={"torch": torch, "torch.optim": optim, "torch.optim.optimizer": opt2})
        m = w.module(MOD)
        base_comp = m.__pyvc_comp__

        def comp(kind, f, src, cond):
            G = ctx().ghost.get("G")
            if G is not None and src is G.specs and kind == "list" and cond is None:
                a = f(G.specs.at(z3.IntVal(0)))
                b = f(G.specs.at(z3.IntVal(0)))
                if a == [] and b == [] and a is not b and type(a) is list:
                    return Piles(G, z3.IntVal(0))
                raise Unsupported("another comprehension over the members")
            if isinstance(src, Members) and kind == "list" and cond is None:
                return Seq(src.n, lambda k: f(src.at(k)))
            return base_comp(kind, f, src, cond)
        m.__pyvc_comp__ = comp

        def fresh_set(*a):
            if a:
                raise Unsupported("a set of something")
            return Pairs(ctx().ghost["G"])
        m.set = fresh_set

        return w, m

    # ---------------------------------------------------------------- the pieces
    class Spec:
        def __init__(self, G, k):
            self.G, self.k = G, k

        @property
        def param_filter(self):
            c = ctx()
            if c.decide(NONE(self.k)):
                return None

            def f(p):
                if not isinstance(p, Param):
                    raise Unsupported("a filter called with something else")
                return SymBool(accepts(self.k, p.x))
            return f

        @property
        def class_type(self):
            def make(params, *args, **kw):
                G = self.G
                ok = isinstance(params, Pile) and params.piles is G.piles()
                S.prove("a member is built for the pile of its own spec",
                        z3.And(z3.BoolVal(ok), params.k == self.k) if ok else z3.BoolVal(False))
                want = {"lr": G.lr, "weight_decay": G.wd, **G.common, **G.init_args}
                S.prove("a member gets the chain's options, its own spec's winning", z3.BoolVal(
                    not args and set(kw) == set(want) and all(kw[k] is want[k] for k in want)))
                if not params:
                    raise ValueError("optimizer got an empty parameter list")
                return Member(G, self.k)
            return make

        @property
        def init_args(self):
            return dict(self.G.init_args)

    class Member:
        def __init__(self, G, k):
            self.G, self.k = G, k

        @property
        def param_groups(self):
            G, k = self.G, self.k
            return Seq(G.groups_now(k), lambda q: MGroup(G, k, q))

        def add_param_group(self, d):
            G = self.G
            p = d.get("params")
            ok = isinstance(p, Pile) and p.piles is G.piles()
            S.prove("a member's new group is its own pile", z3.And(z3.BoolVal(ok), p.k == self.k) if ok else z3.BoolVal(False))
            G.log.added = G.log.added + z3.If(self.k == G.i, 1, 0)

        def step(self, closure=None):
            G = self.G
            S.prove("a member steps without re-evaluating the closure", z3.BoolVal(closure is None))
            S.prove("the members step once each, in the order of the chain", self.k == G.log.steps)
            S.prove("the closure is evaluated before any member steps", z3.BoolVal(G.closure_calls == G.closure_due))
            S.prove("every member group has its learning rate before its member steps", z3.Implies(
                z3.And(self.k == G.o, LAST(G.ngroups) >= 0), G.log.cur == LR(LAST(G.ngroups))))
            G.log.steps = G.log.steps + 1

        def zero_grad(self, set_to_none=True):
            G = self.G
            S.prove("zero_grad reaches the members once each", self.k == G.log.steps)
            S.prove("zero_grad passes the mode on", z3.BoolVal(set_to_none is G.mode))
            G.log.steps = G.log.steps + 1

        def state_dict(self):
            return State(self.k)

        def load_state_dict(self, s):
            G = self.G
            S.prove("a member is given its own saved state",
                    s.k == self.k if isinstance(s, State) else z3.BoolVal(False))
            S.prove("the members are loaded once each", self.k == G.log.steps)
            if ctx().decide(SZ(self.k) != SZ2(self.k)):
                raise ValueError("loaded state dict contains a parameter group that doesn't match the size of optimizer's group")
            G.log.steps = G.log.steps + 1

    class State:
        def __init__(self, k):
            self.k = k

    class MGroup:
        def __init__(self, G, k, q):
            self.G, self.k, self.q = G, k, q

        def __setitem__(self, key, v):
            if key != "lr":
                raise Unsupported("another option of a member's group")
            if not isinstance(v, SymReal):
                raise Unsupported("a rate made of something else")
            G = self.G
            G.log.cur = z3.If(z3.And(self.k == G.o, self.q == G.q), v.t, G.log.cur)

    class Log:
        __pyvc_heap__ = True
        __hash__ = None

        def __init__(self):
            self.added = self.steps = z3.IntVal(0)
            self.cur = None

    class Members(Seq):
        """The chain's member list while it is being filled."""
        __pyvc_type__ = list

        def __init__(self, G, n):
            Seq.__init__(self, n, lambda k: Member(G, k))

        def append(self, x):
            S.prove("the members are kept in the order of their specs",
                    x.k == self.n if isinstance(x, Member) else z3.BoolVal(False))
            self.n = z3.simplify(self.n + 1)

    class Group:
        """Parameter group g of the chain."""
        __pyvc_type__ = dict

        def __init__(self, G, g):
            self.G, self.g = G, g
            self.pairs = None

        def __getitem__(self, k):
            G, g = self.G, self.g
            if k == "params":
                ctx().add(NP(g) >= 0)
                return Seq(NP(g), lambda j: Param(PID(g, j)))
            if k == "lr":
                return SymReal(LR(g))
            if k == "optimizer_and_param_group_indices":
                if self.pairs is not None:
                    return self.pairs
                c = ctx()
                c.add(NE(g) >= 0)

                def entry(e):
                    # class invariant: a recorded pair names a group of a member
                    c.add(z3.And(EO(g, e) >= 0, EO(g, e) < G.n, EQ(g, e) >= 0, EQ(g, e) < NG(EO(g, e))))
                    return SymInt(EO(g, e)), SymInt(EQ(g, e))
                return Seq(NE(g), entry)
            raise KeyError(k)

        def __setitem__(self, k, v):
            if k != "optimizer_and_param_group_indices" or not isinstance(v, Pairs):
                raise Unsupported("another option of the group")
            self.pairs = v
            v.group = self.g
            self.G.current = v

    def chain(m, G, members=None):
        o = object.__new__(m.ChainedOptimizer)
        o.optimizer_specs = G.specs
        o.optimizers = Members(G, G.n)
        o.param_groups = Seq(G.ngroups, lambda g: Group(G, g))
        o.optimizer_selection_callback = G.callback
        return o

    FIELDS = {"optimizer_specs", "optimizer_selection_callback", "optimizers", "param_groups"}

    def unchanged(o):
        if set(vars(o)) != FIELDS:
            raise Unsupported("the chain keeps other state")

    def ghost():
        G_ = G()
        G_.S = S
        c = ctx()
        c.ghost["G"] = G_
        G_.specs = Seq(G_.n, lambda k: Spec(G_, k))
        G_.log = Log()
        G_.current = None
        G_.closure_calls, G_.closure_due = 0, 0
        G_.ngroups = c.fresh(I, "groups")
        c.add(G_.ngroups >= 0)
        # the watched parameter sits at (g, j); a parameter occurs once
        c.add(z3.And(G_.g >= 0, G_.g < G_.ngroups, G_.j >= 0, G_.j < NP(G_.g), G_.x == PID(G_.g, G_.j)))
        G_.only = lambda g, j: c.add(z3.Implies(PID(g, j) == G_.x, z3.And(g == G_.g, j == G_.j)))

        def callback(p, index):
            S.prove("the selection is reported for the member that gets the parameter",
                    int_term(index) == FIRST(p.x))
        G_.callback = callback if c.decide(c.fresh(B, "callback")) else None
        if G_.callback:
            base = G_.callback

            def G_callback(p, index):
                G_.first(p.x, int_term(index))
                base(p, index)
            G_.callback = G_callback
        return G_

    # ---------------------------------------------------------------- the partition (__init__ and add_param_group)
    def now():
        return ctx().ghost["G"]

    def as_piles(v):
        G_ = now()
        if not isinstance(v, Piles):
            raise Unsupported("the parameters are not collected member by member")
        # the loop works on an arbitrary collection (its count is constrained by the invariant)
        p = Piles(G_, ctx().fresh(I, "count"))
        G_.the_piles = p
        G_.piles = lambda: p
        return p

    def count(L):
        v = L.params_for_optimizers
        if not isinstance(v, Piles):
            raise Unsupported("the parameters are not collected member by member")
        return v.c

    def mine():
        return FIRST(now().x) == now().i

    def inv_specs(L):
        """No member before this one accepts the parameter."""
        G_ = now()
        p = L.param
        if not isinstance(p, Param):
            raise Unsupported("the parameter at hand")
        i = L.i.t
        G_.first(p.x, i - 1)
        G_.first(p.x, i)
        yield "no earlier member accepts", i <= FIRST(p.x)
        yield "not found yet", z3.Not(to_bool_term(L.found_optimizer))
        c0 = getattr(L.old, "count", None)
        if c0 is not None:
            yield "nothing given yet", count(L) == c0

    def init_specs(L, old):
        old.count = count(L)

    def params_inv(group):
        def inv(L):
            G_ = now()
            g, i = group(L), L.i.t
            G_.only(g, i)
            G_.only(g, i - 1)
            G_.first(G_.x)
            before = z3.Or(g > G_.g, z3.And(g == G_.g, i > G_.j))
            yield "the watched parameter is in its first member's pile once", count(L) == z3.If(z3.And(before, mine()), 1, 0)
            yield "its pair is recorded", z3.Implies(z3.And(g == G_.g, i > G_.j), pairs(L).has)
            yield "its member exists", z3.Implies(before, FIRST(G_.x) < G_.n)
        return inv

    def pairs(L):
        v = L.indices
        if not isinstance(v, Pairs):
            raise Unsupported("the recorded pairs")
        return v

    def havoc_params(L):
        return [("attr", pairs(L), "has", lambda v: ctx().fresh(B, "recorded"))]

    keep = {"indices": lambda v: v, "param_group": lambda v: v}
    drop = {k: (lambda v: None) for k in ("spec", "index", "param")}

    # the group at hand in __init__ is the outer loop's element
    init_loops = {
        f"{MOD}:ChainedOptimizer.__init__#0": LoopSpec(
            lambda L: outer(L), types={"params_for_optimizers": as_piles, "params": lambda v: v, "indices": lambda v: None,
                                       "param_group": lambda v: None, "found_optimizer": lambda v: None, **drop},
            havoc=lambda L: [("attr", now().log, "recorded", lambda v: ctx().fresh(B, "recorded"))]),
        f"{MOD}:ChainedOptimizer.__init__#1": LoopSpec(
            params_inv(lambda L: L.param_group.g), havoc=havoc_params,
            types={"params_for_optimizers": as_piles, "found_optimizer": lambda v: None, "indices": lambda v: v, **drop}),
        f"{MOD}:ChainedOptimizer.__init__#2": LoopSpec(
            inv_specs, init=init_specs,
            types={"params_for_optimizers": lambda v: v, "indices": lambda v: v, "found_optimizer": lambda v: v,
                   "spec": lambda v: None, "index": lambda v: None}),
        f"{MOD}:ChainedOptimizer.__init__#3": LoopSpec(
            lambda L: members_inv(L),
            havoc=lambda L: [("attr", L.self, "optimizers", lambda v: Members(now(), ctx().fresh(I, "built")))],
            types={k: (lambda v: None) for k in ("spec", "selected_params", "optimizer", "optimizer_args")}),
    }

    def outer(L):
        G_ = now()
        i = L.i.t
        before = i > G_.g
        # the set of the group just finished: is the watched pair in it?
        if G_.current is not None:
            G_.log.recorded = z3.If(G_.current.group == G_.g, G_.current.has, G_.log.recorded)
            G_.current = None
        yield "the watched parameter is in its first member's pile once", count(L) == z3.If(z3.And(before, mine()), 1, 0)
        yield "its pair is recorded in its group", z3.Implies(before, G_.log.recorded)
        yield "its member exists", z3.Implies(before, FIRST(G_.x) < G_.n)

    def members_inv(L):
        v = L.self.optimizers
        n = v.n if isinstance(v, Members) else z3.IntVal(0) if v == [] else None
        if n is None:
            raise Unsupported("the member list")
        yield "one member per spec so far", n == L.i.t

    w, m = load(init_loops)

    def h_init():
        G_ = ghost()
        c = ctx()
        G_.log.recorded = z3.BoolVal(False)
        G_.lr, G_.wd, eps, beta, own = (object() for _ in range(5))
        G_.common = {"eps": eps}
        G_.init_args = [{}, {"beta": beta}, {"eps": own, "lr": beta}][0 if c.decide(c.fresh(B, "no_args")) else
                                                                      1 if c.decide(c.fresh(B, "other_args")) else 2]
        G_.next_group = lambda o: z3.IntVal(0)
        given = object()

        def init(self, params, defaults):
            S.prove("the chain's own groups are made of all parameters", z3.BoolVal(params is given))
            S.prove("the chain's groups start with the given learning rate", z3.BoolVal(
                defaults.get("lr") is G_.lr and defaults.get("weight_decay") is G_.wd))
            self.param_groups = []
            self.add_param_group({"params": [Param(PID(0, 0))]})
            self.param_groups = Seq(G_.ngroups, lambda g: Group(G_, g))
        hooks["init"] = init
        hooks["add"] = lambda self, group: self.param_groups.append(group)
        try:
            o = m.ChainedOptimizer(given, G_.specs, G_.lr, G_.wd, G_.callback, **G_.common)
        except ValueError as e:
            if "No valid" in str(e) or "empty parameter list" in str(e):
                return
            raise
        unchanged(o)
        G_.first(G_.x)
        S.prove("no parameter is left out", FIRST(G_.x) < G_.n)
        S.prove("the parameter is in its member's pile exactly once and in no other pile",
                G_.piles().c == z3.If(mine(), 1, 0))
        S.prove("the chain's group records the member's group", G_.log.recorded)
        S.prove("one member per spec, in order", o.optimizers.n == G_.n if isinstance(o.optimizers, Members) else z3.BoolVal(False))
        S.prove("the chain keeps its specs and groups", z3.BoolVal(o.optimizer_specs is G_.specs and isinstance(o.param_groups, Seq)))
    S.run("ChainedOptimizer.__init__", h_init)

    # ---------------------------------------------------------------- a group added later
    def adding_inv(L):
        G_ = now()
        i = L.i.t
        ctx().add(z3.Implies(G_.the_piles.c > 0, FILLED(G_.i)))
        yield "a member with new parameters gets one group", G_.log.added == z3.If(z3.And(i > G_.i, FILLED(G_.i)), 1, 0)

    add_loops = {
        f"{MOD}:ChainedOptimizer.add_param_group#0": LoopSpec(
            params_inv(lambda L: now().g), havoc=havoc_params,
            types={"params_for_optimizers": as_piles, "found_optimizer": lambda v: None, "indices": lambda v: v, **drop}),
        f"{MOD}:ChainedOptimizer.add_param_group#1": LoopSpec(
            inv_specs, init=init_specs,
            types={"params_for_optimizers": lambda v: v, "indices": lambda v: v, "found_optimizer": lambda v: v,
                   "spec": lambda v: None, "index": lambda v: None}),
        f"{MOD}:ChainedOptimizer.add_param_group#2": LoopSpec(
            adding_inv, havoc=lambda L: [("attr", now().log, "added", lambda v: ctx().fresh(I, "added"))],
            types={k: (lambda v: None) for k in ("optimizer", "selected_params")}),
    }
    _, ma = load(add_loops)

    def h_add():
        G_ = ghost()
        c = ctx()
        G_.groups_now = lambda k: NG(k) + z3.If(k == G_.i, G_.log.added, 0)
        G_.next_group = lambda o: NG(o)
        o = chain(ma, G_)
        added = []

        def add(self, group):
            if c.decide(c.fresh(B, "refused")):
                raise ValueError("some parameters appear in more than one parameter group")
            added.append(group)
        hooks["add"] = add
        new = Group(G_, G_.g)
        try:
            o.add_param_group(new)
        except ValueError:
            return
        unchanged(o)
        S.prove("the chain itself gets the group, once", z3.BoolVal(len(added) == 1 and added[0] is new))
        if c.decide(G_.n == 0):
            return
        G_.first(G_.x)
        S.prove("no parameter of a new group is left out", FIRST(G_.x) < G_.n)
        p = G_.the_piles
        S.prove("a new parameter is in its first member's pile exactly once and in no other", p.c == z3.If(mine(), 1, 0))
        c.add(z3.Implies(p.c > 0, FILLED(G_.i)))
        S.prove("the member with the new parameter gets it as one group", z3.Implies(mine(), G_.log.added == 1))
        S.prove("the new group records the member's group", new.pairs.has if isinstance(new.pairs, Pairs) else z3.BoolVal(False))
    S.run("ChainedOptimizer.add_param_group", h_add)

    # ---------------------------------------------------------------- learning rates and steps
    def refer(g, e):
        G_ = now()
        ctx().add(z3.And(z3.Not(SEEN(g, 0)), SEEN(g, e + 1) == z3.Or(SEEN(g, e), z3.And(EO(g, e) == G_.o, EQ(g, e) == G_.q)),
                         LAST(0) == -1, LAST(g + 1) == z3.If(SEEN(g, NE(g)), g, LAST(g))))

    def lr_outer(L):
        G_ = now()
        g = L.i.t
        refer(g, z3.IntVal(0))
        refer(g - 1, z3.IntVal(0))
        yield "the member group has the rate of the last group that names it", G_.log.cur == z3.If(LAST(g) >= 0, LR(LAST(g)), G_.cur0)
        yield "that group came before", z3.And(LAST(g) >= -1, LAST(g) < g)

    def lr_inner(L):
        G_ = now()
        g, e = L.param_group.g, L.i.t
        refer(g, e)
        refer(g, e - 1)
        yield "named so far: this group's rate", G_.log.cur == z3.If(SEEN(g, e), LR(g), L.old.cur)

    def keep_cur(L, old):
        old.cur = now().log.cur

    def steps(L):
        yield "the members so far are done", now().log.steps == L.i.t

    def step_spec():
        return LoopSpec(steps, havoc=lambda L: [("attr", now().log, "steps", lambda v: ctx().fresh(I, "steps"))],
                        types={k: (lambda v: None) for k in ("opt",)})
    cur = lambda L: [("attr", now().log, "cur", lambda v: ctx().fresh(R, "rate"))]
    step_loops = {
        f"{MOD}:ChainedOptimizer._copy_lr_to_optimizers#0": LoopSpec(
            lr_outer, havoc=cur, types={k: (lambda v: None) for k in ("param_group", "indices", "optimizer_idx", "param_group_idx")}),
        f"{MOD}:ChainedOptimizer._copy_lr_to_optimizers#1": LoopSpec(
            lr_inner, havoc=cur, init=keep_cur, types={k: (lambda v: None) for k in ("optimizer_idx", "param_group_idx")}),
        f"{MOD}:ChainedOptimizer.step#0": step_spec(),
        f"{MOD}:ChainedOptimizer.zero_grad#0": step_spec(),
        f"{MOD}:ChainedOptimizer.load_state_dict#0": LoopSpec(
            lambda L: load_inv(L), havoc=lambda L: [("attr", now().log, "steps", lambda v: ctx().fresh(I, "steps"))],
            types={"i": lambda v: None}),
    }
    _, ms = load(step_loops)

    def h_step():
        G_ = ghost()
        c = ctx()
        G_.o, G_.q = G_.i, c.fresh(I, "watched_member_group")
        G_.groups_now = lambda k: (c.add(NG(k) >= 0), NG(k))[1]
        G_.cur0 = G_.log.cur = c.fresh(R, "old_rate")
        o = chain(ms, G_)
        value = object()

        def closure():
            S.prove("the closure runs once, before any member", z3.And(z3.BoolVal(G_.closure_calls == 0), G_.log.steps == 0))
            S.prove("the closure runs with gradients enabled", z3.BoolVal(hooks.get("grad") is True))
            G_.closure_calls += 1
            return value
        hooks["grad"] = False
        f = closure if c.decide(c.fresh(B, "with_closure")) else None
        G_.closure_due = 1 if f else 0
        out = o.step(f) if f else o.step()
        unchanged(o)
        S.prove("step returns the closure's loss", z3.BoolVal(out is (value if f else None)))
        S.prove("every member stepped", G_.log.steps == G_.n)
        S.prove("the closure ran exactly once", z3.BoolVal(G_.closure_calls == G_.closure_due))
        # class invariant (proved of __init__ and add_param_group): some entry of some group names the member's group
        g, e, n = c.fresh(I, "naming_group"), c.fresh(I, "naming_entry"), G_.ngroups
        c.add(z3.And(g >= 0, g < n, e >= 0, e < NE(g), EO(g, e) == G_.o, EQ(g, e) == G_.q))
        refer(g, e)
        # lemma below: what was seen stays seen
        c.add(z3.And(z3.Implies(SEEN(g, e + 1), SEEN(g, NE(g))), z3.Implies(LAST(g + 1) >= 0, LAST(n) >= 0)))
        S.prove("every member group carries the rate of a group of the chain that names it",
                z3.And(LAST(n) >= 0, LAST(n) < n, G_.log.cur == LR(LAST(n))))
    S.run("ChainedOptimizer.step", h_step)

    def h_mono():
        c = ctx()
        G_ = ghost()
        G_.o, G_.q = G_.i, c.fresh(I, "q")
        g, e, d = (c.fresh(I, k) for k in "ged")
        c.add(z3.And(d >= 0, e >= 0))
        refer(g, e + d)
        S.prove("an entry once seen stays seen (induction step)", z3.Implies(SEEN(g, e + d), SEEN(g, e + d + 1)))
        refer(g + d, z3.IntVal(0))
        c.add(z3.And(g >= 0))
        S.prove("a group once found stays found (induction step)", z3.Implies(LAST(g + d) >= 0, LAST(g + d + 1) >= 0))
    S.run("lemma: a named member group stays named", h_mono)

    def h_zero():
        G_ = ghost()
        G_.o, G_.q, G_.mode = G_.i, z3.IntVal(0), object()
        o = chain(ms, G_)
        o.zero_grad(set_to_none=G_.mode)
        unchanged(o)
        S.prove("zero_grad reaches every member", G_.log.steps == G_.n)
        G_.log.steps = z3.IntVal(0)
        G_.mode = True
        o.zero_grad()
        S.prove("zero_grad reaches every member by default", G_.log.steps == G_.n)
    S.run("ChainedOptimizer.zero_grad", h_zero)

    # ---------------------------------------------------------------- saved states
    def h_state():
        G_ = ghost()
        o = chain(ms, G_)
        base = {"state": object(), "param_groups": object()}
        hooks["state"] = lambda self: dict(base)
        d = o.state_dict()
        unchanged(o)
        S.prove("the base state is saved as it is", z3.BoolVal(
            set(d) == {"optimizers", "state", "param_groups"} and all(d[k] is base[k] for k in base)))
        s = d["optimizers"]
        if not isinstance(s, LazySeq):
            raise Unsupported("the saved member states")
        k = ctx().fresh(I, "k")
        ctx().add(z3.And(k >= 0, k < G_.n))
        e = s.at(k)
        S.prove("one saved state per member", int_term(s.length()) == G_.n)
        S.prove("member k's state is saved at place k", e.k == k if isinstance(e, State) else z3.BoolVal(False))
    S.run("ChainedOptimizer.state_dict", h_state)

    def sizes(k):
        ctx().add(z3.And(SZ(k) >= 1, SZ2(k) >= 1, PS(0) == 0, PS2(0) == 0, PS(k + 1) == PS(k) + SZ(k), PS2(k + 1) == PS2(k) + SZ2(k)))

    def load_inv(L):
        G_ = now()
        i = L.i.t
        sizes(i)
        sizes(i - 1)
        yield "the members so far are loaded", G_.log.steps == i
        yield "their sizes agree", PS(i) == PS2(i)
        yield "there are states for them", i <= G_.saved

    def h_load():
        G_ = ghost()
        c = ctx()
        G_.saved = c.fresh(I, "saved_members")
        c.add(G_.saved >= 0)
        o = chain(ms, G_)
        got = []
        states = Seq(G_.saved, State)
        parts = {"state": object(), "param_groups": object()}
        given = {**parts, "optimizers": states}

        def base(self, d):
            S.prove("the base state is loaded without the members' states", z3.BoolVal(
                set(d) == set(parts) and all(d[k] is parts[k] for k in parts)))
            got.append(1)
            if c.decide(PS(G_.n) != PS2(G_.saved)):
                raise ValueError("loaded state dict contains a parameter group that doesn't match the size of optimizer's group")
        hooks["load"] = base
        try:
            o.load_state_dict(given)
        except (ValueError, IndexError):
            return
        unchanged(o)
        S.prove("the caller's state is not changed", z3.BoolVal(
            set(given) == {*parts, "optimizers"} and given["optimizers"] is states))
        S.prove("the base state is loaded once", z3.BoolVal(len(got) == 1))
        S.prove("every member's state is loaded", G_.log.steps == G_.n)
        # lemma (proved below): sums of sizes of non-empty members grow
        c.add(z3.Implies(G_.saved > G_.n, PS2(G_.saved) > PS2(G_.n)))
        S.prove("a state with more or fewer members is refused", G_.saved == G_.n)
    S.run("ChainedOptimizer.load_state_dict", h_load)

    def h_sum():
        c = ctx()
        a, d = c.fresh(I, "a"), c.fresh(I, "d")
        c.add(z3.And(a >= 0, d >= 0))
        sizes(a + d)
        S.prove("the sizes of more members sum to more (induction step)",
                z3.Implies(z3.Or(d == 0, PS2(a + d) > PS2(a)), PS2(a + d + 1) > PS2(a)))
    S.run("lemma: non-empty members", h_sum)
    S.assume_note("a chain's members are non-empty (torch refuses an empty parameter list; proved: a member is built for its pile)")


if __name__ == "__main__":
    from specs.common import main
    main(prove)
