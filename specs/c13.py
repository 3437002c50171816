"""C13 - pruning and latest-checkpoint selection never lose the resume point."""
import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import SymInt, SymBool, LazySeq, INT, NAT, int_term
from pyvc.load import World, LoopSpec
from pyvc import shims
from specs.common import trainer_world

TRUSTED = ["list.sort orders by key, ties by insertion; os.listdir lists every name once; a name has one of the prefixes at most",
           "the checkpoint and state validators return or raise (their own content is C12/C14's subject)"]
I, B = z3.IntSort(), z3.BoolSort()
skip = lambda v: None
F = {n: z3.Function(n, I, B) for n in ("ISFILE", "HASIT", "STATE", "MODEL", "RUNTIME", "SIDE", "TMPPRE", "TMP", "EXTOK", "PREFIX")}
ITER = z3.Function("ITER", I, I)
POS = z3.Function("POS", I, I)          # position of a state file in the sorted list
ORDER = z3.Function("ORDER", I, I)
NEED = z3.Function("NEED", I, I, I)     # the runtime file rank r of state k needs


class LoadError(Exception):
    pass


class Ghost:
    __pyvc_heap__ = True


def G():
    return ctx().ghost["G"]


def know(k):
    """Facts about the name k."""
    c = ctx()
    pre = [F["STATE"](k), F["MODEL"](k), F["RUNTIME"](k), F["TMPPRE"](k)]
    c.add(z3.And(*[z3.Not(z3.And(a, b)) for i, a in enumerate(pre) for b in pre[i + 1:]]))
    c.add(z3.And(z3.Implies(F["SIDE"](k), F["RUNTIME"](k)), z3.Implies(F["TMP"](k), F["TMPPRE"](k)), ITER(k) >= 0))
    return k


class Name:
    __pyvc_type__ = str

    def __init__(self, k):
        self.k = know(k)

    def startswith(self, p):
        f = {"state_": "STATE", "ckpt_": "MODEL", "runtime_": "RUNTIME", ".runtime-tmp_": "TMPPRE"}.get(p)
        if f is None:
            raise Unsupported(f"prefix {p}")
        return SymBool(F[f](self.k))

    def __format__(self, s):
        return "<name>"

    def __hash__(self):
        raise Unsupported("a name in a native set")

    def __eq__(self, o):
        raise Unsupported("comparison of names")


class Path(Name):
    pass


class Names(LazySeq):
    def __init__(self, n):
        self.n = n

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        return Name(i)

    def __iter__(self):
        raise Unsupported("unrolled listing")


def is_state(k):
    return z3.And(F["ISFILE"](k), F["HASIT"](k), F["STATE"](k))


def is_model(k):
    return z3.And(F["ISFILE"](k), F["HASIT"](k), F["MODEL"](k))


def earlier(a, b):
    """Sort order of the entries (iteration, path)."""
    return z3.Or(ITER(a) < ITER(b), z3.And(ITER(a) == ITER(b), a < b))      # the path order: any total order of the names


def sequence(seq):
    return isinstance(seq, (LazySeq, list, tuple))


# ---------------------------------------------------------------- the collections the scan fills
class Bag:
    """What the scan collected for the names before i (the loop invariant says which)."""
    __pyvc_heap__ = False

    def __init__(self):
        self.i, self.added = None, []

    # the state list
    def append(self, x):
        self.added.append(x)

    # the model groups
    def setdefault(self, it, default):
        bag = self

        class Group:
            def append(self, path):
                bag.added.append((it, path))
        if default != []:
            raise Unsupported("a group that does not start empty")
        return Group()

    def __iter__(self):
        raise Unsupported("unrolled collection")


def collected(name, bag, i, wanted):
    """Invariant: exactly the wanted names before i, in order, with their iteration."""
    if isinstance(bag, (list, dict)):
        return f"{name} starts empty", z3.BoolVal(not bag)
    if bag.i is None:
        bag.i = i
    if bag.i is i or bag.i.eq(i):
        return f"{name} so far", z3.BoolVal(True)
    k = z3.simplify(i - 1)
    ok = z3.BoolVal(len(bag.added) <= 1)
    ok = z3.And(ok, z3.BoolVal(len(bag.added) == 1) == wanted(k))
    for x in bag.added:
        if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], Path)):
            raise Unsupported("an entry that is not (iteration, path)")
        ok = z3.And(ok, int_term(x[0]) == ITER(k), x[1].k == k)
    return f"{name}: exactly the files of its kind", ok


class States(Bag):
    """The collected states; after sort() the sorted list."""
    sorted = False

    def sort(self, *a, **k):
        if a or k:
            raise Unsupported("sorting states by something else")
        self.sorted = True
        g = G()
        c = ctx()
        s = g.watch
        c.add(g.n_states >= 0)
        c.add(z3.Implies(is_state(s), z3.And(POS(s) >= 0, POS(s) < g.n_states, ORDER(POS(s)) == s)))

    def __pyvc_len__(self):
        return SymInt(G().n_states)

    def __getitem__(self, i):
        if not self.sorted:
            raise Unsupported("an unsorted list is sliced")
        if not isinstance(i, slice) or i.step is not None:
            raise Unsupported("an element of the states")
        n = G().n_states
        lo = z3.IntVal(0) if i.start is None else int_term(i.start)
        hi = n if i.stop is None else int_term(i.stop)
        ctx().session.prove("slices stay inside the list", z3.And(lo >= 0, hi >= 0))
        lo, hi = z3.If(lo > n, n, lo), z3.If(hi > n, n, hi)
        return Part(z3.simplify(lo), z3.simplify(z3.If(hi < lo, lo, hi)))


class Part(LazySeq):
    """A slice of the sorted states."""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def length(self):
        return SymInt(z3.simplify(self.hi - self.lo))

    def at(self, i):
        k = ORDER(self.lo + i)
        c = ctx()
        know(k)
        c.add(z3.And(is_state(k), POS(k) == self.lo + i))
        s = G().watch                   # sortedness, against the watched state
        c.add(z3.Implies(is_state(s), z3.And((POS(s) < POS(k)) == earlier(s, k), (POS(s) == POS(k)) == (s == k))))
        return SymInt(ITER(k)), Path(k)

    def __iter__(self):
        raise Unsupported("unrolled states")


class Groups(Bag):
    def get(self, it, default=None):
        return Group(int_term(it))

    def pop(self, it, default=None):
        return Group(int_term(it))

    __getitem__ = None


class Group(LazySeq):
    def __init__(self, it):
        self.it, self.n = it, NAT.fresh("group").t

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        c = ctx()
        k = know(c.fresh(I, "member"))
        c.add(z3.And(is_model(k), ITER(k) == self.it, *([ITER(k) <= G().latest] if G().latest is not None else [])))
        return Path(k)

    def __iter__(self):
        raise Unsupported("unrolled group")


class Protected:
    """The set of runtime files that must stay."""
    __pyvc_heap__ = False
    count = 0

    def __init__(self):
        Protected.count += 1
        self.more = z3.Function(f"protected{Protected.count}", I, B)
        self.added = []

    def add(self, name):
        if not isinstance(name, Name):
            raise Unsupported("protection of something that is not a name")
        self.added.append(name.k)

    def has(self, k):
        return z3.Or(self.more(k), *[k == a for a in self.added])

    def __contains__(self, name):
        return ctx().decide(self.has(name.k))


class Kept:
    def __init__(self, part, f):
        g = G()
        self.value = int_term(f(part.at(POS(g.watch) - part.lo)))
        self.part = part
        self.more = z3.Function("kept", I, B)

    def __contains__(self, it):
        g = G()
        inside = z3.And(is_state(g.watch), POS(g.watch) >= self.part.lo, POS(g.watch) < self.part.hi)
        return ctx().decide(z3.Or(self.more(int_term(it)), z3.And(inside, int_term(it) == self.value)))


class Temps:
    __pyvc_heap__ = False

    def __init__(self):
        self.n = NAT.fresh("temps").t
        self.at_fn = z3.Function("TEMP", I, I)

    def discard(self, it):
        pass

    def __pyvc_seq__(self, kind):
        return TempList(self)


class TempList(LazySeq):
    def __init__(self, t):
        self.t = t

    def length(self):
        return SymInt(self.t.n)

    def at(self, i):
        G().temp = it = self.t.at_fn(i)
        return SymInt(it)

    def __iter__(self):
        raise Unsupported("unrolled snapshots")


def remove(p):
    """os.remove: is this file dispensable?"""
    c = ctx()
    S, g = c.session, G()
    if not isinstance(p, Path):
        raise Unsupported("removal of something else")
    k, s = p.k, g.watch
    c.add(z3.Implies(z3.And(is_state(s), is_state(k)), z3.And(POS(k) >= 0, POS(k) < g.n_states, (POS(k) == POS(s)) == (k == s))))
    keep = g.keep
    stays = lambda x: z3.And(is_state(x), z3.Or(keep < 0, POS(x) >= g.n_states - keep))
    S.prove("prune: a kept state is not removed", z3.Not(stays(k)))
    S.prove("prune: with a limit of one or more the newest state is not removed", z3.Implies(
        z3.And(keep != 0, is_state(k)), POS(k) < g.n_states - 1))
    S.prove("prune: no runtime file of a kept state is removed", z3.Implies(stays(s), z3.And(*[k != NEED(s, z3.IntVal(r)) for r in range(g.world)])))
    S.prove("prune: no model of a kept state is removed", z3.Implies(z3.And(stays(s), F["MODEL"](k)), ITER(k) != ITER(s)))
    S.prove("prune: only superseded states, runtime files and temporary snapshots are removed", z3.Or(
        is_state(k), F["SIDE"](k), F["TMP"](k), z3.And(F["MODEL"](k), z3.BoolVal(g.temp is not None), ITER(k) == (g.temp if g.temp is not None else z3.IntVal(-1)))))
    if g.latest is not None:
        S.prove("prune: the newest model is not removed", z3.Implies(F["MODEL"](k), ITER(k) < g.latest))
    S.prove("prune: superseded states go before the files they need", z3.Implies(z3.Not(is_state(k)), int_term(g.gone) == g.superseded()))
    g.any = True
    if c.decide(is_state(k)):
        g.gone = SymInt(z3.simplify(int_term(g.gone) + 1))
    elif c.decide(c.fresh(B, "already_gone")):
        raise FileNotFoundError()


class Os:
    class path:
        isdir = staticmethod(lambda p: SymBool(ctx().ghost["isdir"]))
        isfile = staticmethod(lambda p: SymBool(F["ISFILE"](p.k)))
        join = staticmethod(lambda d, n: Path(n.k))
        exists = staticmethod(lambda p: SymBool(ctx().ghost["isdir"]))
        basename = staticmethod(lambda p: Name(p.k))
    listdir = staticmethod(lambda d: Names(ctx().ghost["n"]))
    remove = unlink = staticmethod(remove)

    def __getattr__(self, k):
        raise Unsupported("os." + k)


def iteration_of(x):
    if not isinstance(x, Name):
        raise Unsupported("iteration of something else")
    return SymInt(ITER(x.k)) if ctx().decide(F["HASIT"](x.k)) else None


class Pattern:
    def __init__(self, f):
        self.f = f

    def fullmatch(self, name):
        return "match" if ctx().decide(F[self.f](name.k)) else None


def cleanup(S):
    q = "trainer.base:BaseTrainer._cleanup_checkpoints#"

    def inv0(L):
        yield collected("states", L.state_files, L.i.t, is_state)
        yield collected("models", L.model_groups, L.i.t, is_model)
        yield "nothing removed while looking", z3.BoolVal(not G().any)

    def inv1(L):
        g = G()
        p = L.protected_sidecars
        s = g.watch
        has = (lambda k: z3.BoolVal(False)) if isinstance(p, set) else p.has
        lo = L.src.lo
        yield "the runtime files of the states seen so far are protected", z3.Implies(
            z3.And(is_state(s), POS(s) >= lo, POS(s) < lo + L.i.t), z3.And(*[has(NEED(s, z3.IntVal(r))) for r in range(g.world)]) if g.version == 2 else z3.BoolVal(True))
        yield "nothing removed while validating", z3.BoolVal(not g.any)

    def inv_del(L):
        yield "states removed so far", int_term(G().gone) == L.i.t

    def inv_after(L):
        g = G()
        yield "all superseded states are gone", int_term(g.gone) == g.superseded()

    def inv_temps(L):
        yield from inv_after(L)
    heap = lambda L: [("attr", G(), "gone", INT)]
    loc = {k: skip for k in ("path", "iteration", "fn", "filename", "_", "saved", "resume", "rank_states", "rank", "rank_state", "manifest", "basename")}
    w = trainer_world({
        q + "0": LoopSpec(inv=inv0, types={**loc, "state_files": lambda v: States(), "model_groups": lambda v: Groups()}),
        q + "1": LoopSpec(inv=inv1, types={**loc, "protected_sidecars": lambda v: Protected()}),
        q + "3": LoopSpec(inv=inv_del, types=loc, havoc=heap),
        q + "4": LoopSpec(inv=inv_after, types=loc),
        q + "5": LoopSpec(inv=inv_temps, types=loc),
        q + "6": LoopSpec(inv=inv_temps, types=loc),
    })
    m = w.module("trainer.base")
    cls = type("Sub", (m.BaseTrainer,), {"ckpt_dir": "dir"})
    m.os = Os()
    m.get_iteration_from_ckpt_filename = iteration_of
    m._RUNTIME_SIDECAR_RE, m._RUNTIME_TEMP_RE = Pattern("SIDE"), Pattern("TMP")
    base = m.__dict__["__pyvc_comp__"]

    def comp(kind, f, src, cond):
        if isinstance(src, Names) and cond is not None and kind == "list":
            class Bad(list):
                def __bool__(self):
                    return ctx().decide(ctx().fresh(B, "malformed_names"))
            return Bad()
        if isinstance(src, Part) and cond is None and kind == "set":
            return Kept(src, f)
        return base(kind, f, src, cond)
    m.__dict__["__pyvc_comp__"] = comp

    def s_max(*a, **k):
        if a and isinstance(a[0], Groups):
            if set(k) != {"default"} or k["default"] is not None:
                raise Unsupported("newest of no model")
            c = ctx()
            if c.decide(c.fresh(B, "no_model")):
                G().latest = None
                G().no_model = True
                return None
            G().latest = c.fresh(I, "latest")
            return SymInt(G().latest)
        return shims.s_max(*a, **k)
    m.max = s_max

    def h(world, version):
        def go():
            c = ctx()
            g = c.ghost["G"] = Ghost()
            c.ghost["isdir"], c.ghost["n"] = c.fresh(B, "isdir"), NAT.fresh("names").t
            g.watch, g.n_states, g.any, g.gone, g.temp, g.latest = know(c.fresh(I, "any_state")), c.fresh(I, "states"), False, SymInt(z3.IntVal(0)), None, None
            g.world, g.version, g.no_model = world, version, False
            c.add(z3.And(g.watch >= 0, g.watch < c.ghost["n"], is_state(g.watch)))
            x = object.__new__(cls)

            class Acc:
                num_processes = world
            x.accelerator = Acc()
            x.rundir = "run"
            x.num_keep_states = INT.fresh("num_keep_states")
            g.keep = x.num_keep_states.t
            g.superseded = lambda: z3.If(g.keep < 0, z3.IntVal(0), z3.If(g.n_states > g.keep, g.n_states - g.keep, z3.IntVal(0)))
            x._temp_snapshot_iters = Temps()

            class Torch:
                @staticmethod
                def load(path, **k):
                    if c.decide(c.fresh(B, "unreadable")):
                        raise LoadError()
                    it = INT.fresh("saved_iteration")
                    g.loaded = (path.k, it)
                    return {"format_version": INT.fresh("format"), "metadata": {"iteration": it},
                            "resume": {"version": version, "world_size": world, "ranks": [{"vq_runtime": (path.k, r)} for r in range(world)]}}

                def __getattr__(self, k):
                    raise Unsupported("torch." + k)
            m.torch = Torch()

            def ranks(v):
                if c.decide(c.fresh(B, "bad_ranks")):
                    raise LoadError()
                return v
            x._validate_rank_resume_states = ranks

            def manifest(man, *, iteration, rank):
                k, r = man
                S.prove("prune: each rank's manifest is validated for its own iteration and rank", z3.And(
                    int_term(iteration) == ITER(k), z3.BoolVal(rank == r), g.loaded[1].t == ITER(k)))
                if c.decide(c.fresh(B, "bad_manifest")):
                    raise LoadError()
                return Name(NEED(k, z3.IntVal(r)))
            x._validate_retained_vq_runtime_manifest = manifest
            if version == 1:           # older states have no runtime files
                for r in range(world):
                    c.add(z3.Not(F["SIDE"](NEED(g.watch, z3.IntVal(r)))))
                    know(NEED(g.watch, z3.IntVal(r)))
                    c.add(F["RUNTIME"](NEED(g.watch, z3.IntVal(r))))
            else:
                for r in range(world):
                    c.add(F["SIDE"](know(NEED(g.watch, z3.IntVal(r)))))
            try:
                x._cleanup_checkpoints()
            except RuntimeError as e:
                if e.__cause__ is not None and not isinstance(e.__cause__, (LoadError, RuntimeError)):
                    raise Unsupported(f"the contracts do not cover {e.__cause__!r}")
                S.prove("prune: what cannot be validated stops it before anything is removed", z3.BoolVal(not g.any))
                return
            except FileNotFoundError:
                return                 # a file that vanished while pruning
            S.prove("prune: every superseded state is gone afterwards", z3.Or(
                z3.Not(c.ghost["isdir"]), int_term(g.gone) == g.superseded()))
        return go
    for world in (1, 2, 3):
        for version in (1, 2):
            S.run(f"_cleanup_checkpoints[{world} ranks, format {version}]", h(world, version))


# ---------------------------------------------------------------- the latest file
class Found(Bag):
    """Paths collected by find_latest_ckpt."""
    key = None

    def __bool__(self):
        c = ctx()
        g = G()
        if c.decide(c.fresh(B, "none_found")):
            c.add(z3.Not(wanted(g.watch)))
            return False
        return True

    def sort(self, key=None, **k):
        if k or key is None:
            raise Unsupported("sorting without a key")
        self.key = key

    def __getitem__(self, i):
        if i != -1 or self.key is None:
            raise Unsupported("an element other than the last of the sorted list")
        c = ctx()
        last = know(c.fresh(I, "last"))
        c.add(z3.And(last >= 0, last < c.ghost["n"], wanted(last)))
        ka, kb = self.key(Path(G().watch)), self.key(Path(last))
        c.add(z3.Implies(wanted(G().watch), tuple_le(ka, kb)))
        return Path(last)


def tuple_le(a, b):
    """Lexicographic order of two key tuples."""
    if not (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b)):
        raise Unsupported("sort keys that are not tuples")
    r = z3.BoolVal(True)
    for x, y in reversed(list(zip(a, b))):
        if isinstance(x, Name):
            x, y = x.k, y.k             # any total order of the names
        elif isinstance(x, SymBool) or isinstance(x, bool):
            from pyvc.values import to_bool_term
            x, y = (z3.If(to_bool_term(v), z3.IntVal(1), z3.IntVal(0)) for v in (x, y))
        else:
            x, y = int_term(x), int_term(y)
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


def wanted(k):
    return z3.And(F["ISFILE"](k), F["PREFIX"](k), F["EXTOK"](k))


def latest(S):
    q = "utils.file_utils:find_latest_ckpt#0"

    def inv(L):
        b = L.ckpt_list
        if isinstance(b, list):
            yield "starts empty", z3.BoolVal(not b)
            return
        i = L.i.t
        if b.i is None:
            b.i = i
        if b.i is i or b.i.eq(i):
            yield "so far", z3.BoolVal(True)
            return
        k = z3.simplify(i - 1)
        yield "exactly the files with this prefix and extension", z3.And(z3.BoolVal(len(b.added) <= 1), z3.BoolVal(len(b.added) == 1) == wanted(k),
                                                                         *[x.k == k for x in b.added])
    w = World(loops={q: LoopSpec(inv=inv, types={"ckpt_list": lambda v: Found(), "fn": skip, "filepath": skip})})
    m = w.module("utils.file_utils")
    real = m.get_iteration_from_ckpt_filename
    m.os = Os()
    m.get_iteration_from_ckpt_filename = iteration_of

    class FName(Name):
        def startswith(self, p):
            ctx().session.prove("latest: the given prefix is used", z3.BoolVal(p == "PREFIX"))
            return SymBool(F["PREFIX"](self.k))

        def endswith(self, e):
            ctx().session.prove("latest: the given extensions are used", z3.BoolVal(tuple(e) == (".a", ".b")))
            return SymBool(F["EXTOK"](self.k))

    class FNames(Names):
        def at(self, i):
            return FName(i)
    m.os.listdir = lambda d: FNames(ctx().ghost["n"])

    def h():
        c = ctx()
        g = c.ghost["G"] = Ghost()
        c.ghost["isdir"], c.ghost["n"] = c.fresh(B, "isdir"), NAT.fresh("names").t
        g.watch = know(c.fresh(I, "any_file"))
        c.add(z3.And(g.watch >= 0, g.watch < c.ghost["n"]))
        r = m.find_latest_ckpt("dir", "PREFIX", [".a", ".b"])
        if r is None:
            S.prove("latest: nothing is found only when there is nothing", z3.Or(z3.Not(c.ghost["isdir"]), z3.Not(wanted(g.watch))))
            return
        S.prove("latest: one of the files asked for", wanted(r.k))
        S.prove("latest: no other has a larger iteration", z3.Implies(z3.And(wanted(g.watch), F["HASIT"](g.watch)),
                                                                     z3.And(F["HASIT"](r.k), ITER(g.watch) <= ITER(r.k))))
    S.run("find_latest_ckpt", h)

    # the number in a file name
    DIG, OTHER, VAL = z3.Function("DIGITS", I, B), z3.Function("OTHERDIGITS", I, B), z3.Function("VALUE", I, I)

    class Piece:
        __pyvc_type__ = str

        def __init__(self, j):
            self.j = j

        def isdecimal(self):
            return SymBool(DIG(self.j))

        def isdigit(self):              # superscripts and the like: digits that int() refuses
            return SymBool(z3.Or(DIG(self.j), OTHER(self.j)))

        def __pyvc_int__(self):
            S.prove("iteration: only decimal digits are read as a number", DIG(self.j))
            return SymInt(VAL(self.j))

    class Back(LazySeq):
        def __init__(self, s):
            self.s = s

        def length(self):
            return self.s.length()

        def at(self, i):
            return self.s.at(int_term(self.s.length()) - 1 - i)

        def __iter__(self):
            raise Unsupported("unrolled name")

    class Pieces(LazySeq):
        def __init__(self, n):
            self.n = n

        def length(self):
            return SymInt(self.n)

        def at(self, i):
            return Piece(i)

        def __iter__(self):
            raise Unsupported("unrolled name")

    def inv2(L):
        n = int_term(L.src.length())
        w0 = ctx().ghost["w"]
        yield "no number behind", z3.Implies(z3.And(w0 < n, w0 >= n - L.i.t), z3.Not(DIG(w0)))
    w2 = World(loops={"utils.file_utils:get_iteration_from_ckpt_filename#0": LoopSpec(inv=inv2, types={"part": skip})})
    m2 = w2.module("utils.file_utils")
    m2.reversed = lambda s: Back(s) if isinstance(s, Pieces) else reversed(s)
    m2.int = lambda v, *a: v.__pyvc_int__() if isinstance(v, Piece) else shims.S_int(v, *a)

    def parse():
        c = ctx()
        n = c.fresh(I, "pieces")
        c.add(n >= 1)
        c.ghost["w"] = wt = c.fresh(I, "any_piece")
        c.add(z3.And(wt >= 0, wt < n))

        class Root:
            def split(self, sep):
                S.prove("iteration: pieces are separated by _", z3.BoolVal(sep == "_"))
                return Pieces(n)

        class OsP:
            class path:
                basename = staticmethod(lambda p: ("base", p))
                splitext = staticmethod(lambda p: (Root(), ".pt") if p == ("base", "path") else None)
        m2.os = OsP
        r = m2.get_iteration_from_ckpt_filename("path")
        if r is None:
            S.prove("iteration: none only when no piece is a number", z3.Not(DIG(wt)))
            return
        if r.t.decl().name() != "VALUE":
            raise Unsupported("a number that is not a piece of the name")
        k = r.t.arg(0)
        S.prove("iteration: the last number of the name", z3.And(k >= 0, k < n, DIG(k), z3.Implies(wt > k, z3.Not(DIG(wt)))))
    S.run("get_iteration_from_ckpt_filename", parse)


def prove(S):
    cleanup(S)
    latest(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
