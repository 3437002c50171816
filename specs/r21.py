"""R21 - a resumed run continues exactly as if it had not stopped."""
import builtins
import itertools
import types

import z3

from pyvc.engine import ctx, Unsupported
from pyvc.values import Sym, SymInt, SymBool, LazySeq, TInt, NAT, int_term, seq_at, to_bool_term
from pyvc.load import World, LoopSpec
from pyvc import shims
from specs.common import trainer_world

TRUSTED = ["SHA-256 of the canonical bytes tells contents apart; the canonical bytes determine the content (an int and an equal bool or float are told apart)",
           "torch.load returns what torch.save was given; load_state_dict(state_dict()) restores torch optimizers, schedules, scalers and modules",
           "random, numpy and torch set_state(get_state()) restore the generators; seeking and reading a file returns its bytes"]
I, B = z3.IntSort(), z3.BoolSort()
skip = lambda v: None
MOD, Q = "trainer.base", "trainer.base:BaseTrainer."

_v = z3.Datatype("Value")
_v.declare("atom", ("id", I))
_v.declare("int_", ("i", I))
_v.declare("str_", ("s", I))
_v.declare("bool_", ("b", B))
_v.declare("nil")
_v.declare("cons", ("head", _v), ("tail", _v))
_v.declare("dict_", ("items", _v))
_v.declare("seq_", ("kind", I), ("elems", _v))
_v.declare("digest", ("of", _v))
V = _v.create()
_words = {"": 0}
word = lambda x: V.str_(z3.IntVal(_words.setdefault(x, len(_words))))
kind_of = {"list": z3.IntVal(0), "tuple": z3.IntVal(1), "float": z3.IntVal(2)}
# every key any of the saved dictionaries is known to have; the others are together one unknown value
KEYS = sorted("""supported reason slot rank data_stream_signature rng cursor_kind stream slice stream_coordination sampler vq_runtime pipeline_tuning global_digest local_digest
 version world_size ranks format_version optimizers schedulers optimizer_config scheduler_config resume scaler metadata iteration epoch rows schema autocast_mode
 python numpy torch_cpu torch_cuda bit_generator state_u32_le position has_gauss cached_gaussian type args iterations main extra""".split())
fresh = lambda name="value": ctx().fresh(V, name)
PARSE = z3.Function("as_integer", V, I)
CANON = z3.Function("canonical", V, V)


class Refused(Exception):
    pass


class Ghost:
    __pyvc_heap__ = True


def claim(label, t):
    ctx().session.prove(label, t if z3.is_expr(t) else z3.BoolVal(bool(t)))


def may_refuse(what):
    if ctx().decide(ctx().fresh(B, what)):
        raise Refused(what)


class Val(Sym):
    """A value about which nothing is known but what the path has found out."""
    __slots__ = ()

    def __eq__(self, o):
        return SymBool(self.t == lift(o))

    def __ne__(self, o):
        return SymBool(self.t != lift(o))

    __hash__ = Sym.__hash__

    def __bool__(self):
        c = ctx()
        truth = z3.If(V.is_nil(self.t), False, z3.If(V.is_bool_(self.t), V.b(self.t), z3.If(V.is_int_(self.t), V.i(self.t) != 0, z3.If(
            V.is_str_(self.t), V.s(self.t) != 0, z3.Function("truth", V, B)(self.t)))))
        return c.decide(truth)

    def get(self, *a):
        raise Refused("not a dictionary")

    def __getitem__(self, k):
        raise Refused("not a container")

    def __iter__(self):
        raise Refused("not a container")

    def __contains__(self, k):
        raise Refused("not a container")

    def __getattr__(self, k):
        raise Unsupported(f"attribute {k} of an arbitrary value")


class Entry:
    """A dictionary of unknown content: a key is present or not, its value arbitrary, unless `kinds` says how to look at it."""
    __pyvc_type__ = dict
    __pyvc_heap__ = False

    def __init__(self, name, kinds=None):
        c = ctx()
        self.name, self.kinds, self.seen = name, kinds or {}, {}
        self.has = {k: c.fresh(B, f"{name}.has_{k}") for k in KEYS}
        self.val = {k: c.fresh(V, f"{name}.{k}") for k in KEYS}
        self.rest = c.fresh(V, f"{name}.others")

    def copy(self):
        e = object.__new__(Entry)
        e.__dict__.update({k: (dict(v) if isinstance(v, dict) else v) for k, v in self.__dict__.items()})
        return e

    def term(self, without=()):
        items = V.nil
        for k in reversed(KEYS):
            h = z3.BoolVal(False) if k in without else self.has[k]
            items = V.cons(z3.If(h, V.cons(V.nil, self.val[k]), V.nil), items)
        return V.dict_(V.cons(self.rest, items))

    def _known(self, k):
        if k not in KEYS:
            raise Unsupported(f"key {k!r} of {self.name}, unknown to the contract")

    def __contains__(self, k):
        self._known(k)
        return ctx().decide(self.has[k])

    def _value(self, k):
        if k not in self.seen:
            view = self.kinds.get(k)
            self.seen[k] = view(self.val[k], f"{self.name}.{k}") if view else Val(self.val[k])
        return self.seen[k]

    def get(self, k, default=None):
        self._known(k)
        if k not in self.kinds and (default is None or isinstance(default, int)):        # no need to know which
            return Val(z3.If(self.has[k], self.val[k], lift(default)))
        return self._value(k) if k in self else default

    def __getitem__(self, k):
        if k not in self:
            raise Refused(f"no {k}")
        return self._value(k)

    def pop(self, k, *default):
        self._known(k)
        if k not in self.kinds and default == (None,):
            v = self.get(k)
            self.has[k] = z3.BoolVal(False)
            return v
        if k in self:
            v = self._value(k)
            self.has[k] = z3.BoolVal(False)
            return v
        if not default:
            raise Refused(f"no {k}")
        return default[0]

    def __bool__(self):
        return ctx().decide(z3.Or(self.rest != V.nil, *self.has.values()))

    def __eq__(self, o):
        return SymBool(self.term() == lift(o))

    def __ne__(self, o):
        return SymBool(self.term() != lift(o))

    __hash__ = None

    def __iter__(self):
        raise Unsupported("iteration over an arbitrary dictionary")

    def __getattr__(self, k):
        raise Unsupported(f"dict.{k} of an arbitrary dictionary")


def lift(o):
    """The value a Python object stands for."""
    if isinstance(o, Val):
        return o.t
    if isinstance(o, SymInt):
        return V.int_(o.t)
    if isinstance(o, SymBool):
        return V.bool_(o.t)
    if isinstance(o, Entry):
        return o.term()
    if o is None:
        return V.nil
    if isinstance(o, bool):
        return V.bool_(z3.BoolVal(o))
    if isinstance(o, int):
        return V.int_(z3.IntVal(o))
    if isinstance(o, str):
        return word(o)
    if isinstance(o, float):
        return V.seq_(kind_of["float"], V.cons(word(o.hex()), V.nil))
    if isinstance(o, (list, tuple)):
        r = V.nil
        for x in reversed(o):
            r = V.cons(lift(x), r)
        return V.seq_(kind_of[type(o).__name__], r)
    if isinstance(o, dict):
        if not all(isinstance(k, str) for k in o):
            raise Unsupported("a dictionary with other keys than names")
        rest = V.nil
        for k in sorted(set(o) - set(KEYS), reverse=True):
            rest = V.cons(V.cons(word(k), lift(o[k])), rest)
        items = V.nil
        for k in reversed(KEYS):
            items = V.cons(V.cons(V.nil, lift(o[k])) if k in o else V.nil, items)
        return V.dict_(V.cons(rest, items))
    if hasattr(o, "lifted"):
        return o.lifted()
    raise Unsupported(f"a saved value of type {type(o).__name__}")


# -- how the checks look at a field
def flag(t, name):
    c = ctx()
    if c.decide(t == V.bool_(True)):
        return True
    if c.decide(t == V.bool_(False)):
        return False
    return Val(t)


def none_or_value(t, name):
    return None if ctx().decide(t == V.nil) else Val(t)


def small_int(n):
    def view(t, name):
        for i in range(n):
            if ctx().decide(t == V.int_(i)):
                return i
        return Val(t)
    return view


def dictionary(kinds=None, or_none=False):
    def view(t, name):
        c = ctx()
        if or_none and c.decide(t == V.nil):
            return None
        if c.decide(V.is_dict_(t)):
            e = Entry(name, kinds)
            c.add(t == e.term())
            return e
        return Val(t)
    return view


def is_dict(x):
    if isinstance(x, Val):
        return ctx().decide(V.is_dict_(x.t)) and _odd()
    return isinstance(x, (dict, Entry))


def _odd():
    raise Unsupported("an arbitrary value is looked at as a dictionary where the contract has no view of it")


class ValSet:
    def __init__(self, xs):
        self.xs = []
        for x in xs:
            if not any(bool(x == y) for y in self.xs):
                self.xs.append(x)

    def __len__(self):
        return len(self.xs)

    def __eq__(self, o):
        o = o.xs if isinstance(o, ValSet) else list(o)
        return len(o) == len(self.xs) and all(any(bool(x == y) for y in o) for x in self.xs)

    def __ne__(self, o):
        return not self == o

    def __iter__(self):
        return iter(self.xs)

    def __contains__(self, x):
        return any(bool(x == y) for y in self.xs)


class KeySet:
    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        o = set(o)
        if not o <= set(KEYS):
            raise Unsupported("keys unknown to the contract")
        return bool(SymBool(z3.And(self.e.rest == V.nil, *[h == z3.BoolVal(k in o) for k, h in self.e.has.items()])))

    def __ne__(self, o):
        return not self == o


def install(m):
    """Builtins of the module under proof, for arbitrary values."""
    def as_dict(x=(), **kw):
        if isinstance(x, Entry):
            return x.copy()
        if isinstance(x, Val):
            raise Refused("not a dictionary")
        return dict(x, **kw)

    def as_set(x=()):
        if isinstance(x, Entry):
            return KeySet(x)
        if isinstance(x, Val):
            raise Refused("not a container")
        x = list(x)
        return ValSet(x) if any(isinstance(y, Sym) for y in x) else set(x)
    plain = {as_dict: dict, as_set: set}

    def isinst(x, cls):
        cls = tuple(plain.get(c, c) if not isinstance(c, tuple) else c for c in (cls if isinstance(cls, tuple) else (cls,)))
        if isinstance(x, Val):
            tests = {dict: V.is_dict_, str: V.is_str_, bool: V.is_bool_}
            return any(ctx().decide(tests[c](x.t)) if c in tests else ctx().decide(z3.Or(V.is_int_(x.t), V.is_bool_(x.t))) if c is int
                       else ctx().decide(z3.And(V.is_seq_(x.t), V.kind(x.t) == kind_of[c.__name__])) if c in (list, tuple)
                       else (_ for _ in ()).throw(Unsupported(f"isinstance of an arbitrary value and {c}")) for c in map(unshim, cls))
        return shims.s_isinstance(x, cls)

    def unshim(c):
        return shims.unshim_cls(c)

    def type_(*a):
        if len(a) == 1 and isinstance(a[0], Val):
            if ctx().decide(V.is_int_(a[0].t)):
                return int_
            return object
        r = shims.s_type(*a)
        return {int: int_, dict: as_dict, set: as_set}.get(unshim(r), r) if len(a) == 1 else r
    int0 = m.__dict__.get("int", int)

    def int_(*a):
        if len(a) == 1 and isinstance(a[0], Val):
            ctx().add(z3.Implies(V.is_int_(a[0].t), PARSE(a[0].t) == V.i(a[0].t)))
            may_refuse("not a number")
            return SymInt(PARSE(a[0].t))
        return int0(*a)

    def comp(kind, f, src, conds):
        if kind == "set" and not shims.is_symseq(src):
            return as_set([f(x) for x in src if conds is None or conds(x)])
        return shims.s_comp(kind, f, src, conds)
    m.dict, m.set, m.isinstance, m.int, m.type = as_dict, as_set, isinst, int_, type_
    plain[int_] = int
    m.__dict__["__pyvc_comp__"] = comp

    class Sha:
        def __init__(self, x):
            self.x = x

        def hexdigest(self):
            return Val(V.digest(self.x))
    m.hashlib = types.SimpleNamespace(sha256=lambda x: Sha(x))
    m.canonical_pipeline_state_bytes = lambda x: lift(x)
    m.sorted = lambda x, **k: list(x) if any(isinstance(y, Sym) for y in list(x)) else sorted(x, **k)
    return m


def world(loops=None):
    m = trainer_world(loops).module(MOD)
    return install(m)


class Acc:
    __pyvc_heap__ = False

    def __init__(self, n, i=0, scaler=None, device="cpu"):
        self.num_processes, self.process_index, self.scaler = n, i, scaler
        self.device = types.SimpleNamespace(type=device)
        self.is_main_process = i == 0

    def print(self, *a):
        pass


# ---------------------------------------------------------------- the per-rank entries
def entries(S):
    m = world()
    cls = m.BaseTrainer

    def kinds(n):
        k = {"supported": flag, "slot": small_int(n), "cursor_kind": none_or_value, "stream_coordination": none_or_value,
             "vq_runtime": dictionary(or_none=True), "sampler": dictionary(or_none=True)}
        return k

    SHAPES = {"stream": "file_stream_v1", "map": "map_sampler_v1"}

    def h(n, count, shapes, classify):
        def go():
            c = ctx()
            x = object.__new__(cls)
            x.accelerator = Acc(n)
            es = [Entry(f"e{i}", kinds(n)) for i in range(count)]
            for e, shape in zip(es, shapes or ()):
                if shape.startswith("vq "):
                    shape = shape[3:]
                    c.add(z3.Not(e.has["stream_coordination"]))
                else:
                    c.add(z3.Not(e.has["vq_runtime"]))
                if shape in SHAPES:
                    c.add(z3.And(e.has["cursor_kind"], e.val["cursor_kind"] == word(SHAPES[shape])))
                elif shape == "none":
                    c.add(z3.Not(z3.Or(e.has["cursor_kind"], e.has["sampler"])))
                if count == 3:
                    c.add(z3.Not(e.has["stream_coordination"]))
            try:
                r = x._validate_rank_resume_states(list(es), classify_legacy=True) if classify else x._validate_rank_resume_states(list(es))
            except (Refused, RuntimeError, TypeError, ValueError, KeyError, AttributeError):
                claim("entries that do not fit are refused", True)
                return
            LEG = {"supported", "data_stream_signature", "sampler", "rng"}
            legacy = z3.And(*[z3.And(e.rest == V.nil, *[hh == z3.BoolVal(k in LEG) for k, hh in e.has.items()], e.val["supported"] == V.bool_(True)) for e in es])
            if classify:
                claim("the result says which format it is", z3.BoolVal(isinstance(r, tuple) and len(r) == 2 and isinstance(r[1], bool)))
                r, old_ = r
                if old_:
                    claim("only entries of the old map format are taken for it", legacy)
                    claim("entries of the old format are returned as they are", len(r) == count and all(a is b for a, b in zip(r, es)))
                    return
            if ctx().decide(legacy):
                return
            claim("one entry for each rank", len(r) == n and count == n and all(any(a is b for b in es) for a in r) and len({id(a) for a in r}) == n)
            for i, e in enumerate(r):
                claim(f"the entries are in rank order", z3.And(e.has["slot"], e.val["slot"] == V.int_(i), e.has["rank"], e.val["rank"] == V.int_(i)))
                claim(f"every entry is intact", z3.And(e.has["local_digest"], e.val["local_digest"] == V.digest(e.term(without=("local_digest",)))))
                claim("a position of a known kind, or none", z3.Or(
                    z3.And(e.has["supported"], e.val["supported"] == V.bool_(True), e.has["cursor_kind"],
                           z3.Or(e.val["cursor_kind"] == word("file_stream_v1"), e.val["cursor_kind"] == word("map_sampler_v1"))),
                    z3.And(z3.Not(z3.And(e.has["supported"], e.val["supported"] == V.bool_(True))), z3.Or(z3.Not(e.has["cursor_kind"]), e.val["cursor_kind"] == V.nil))))
            for a, b in zip(r, r[1:]):
                f = lambda e, k: z3.If(e.has[k], e.val[k], V.nil)
                for k, what in (("supported", "whether the run can be resumed"), ("cursor_kind", "the kind of data position"), ("data_stream_signature", "the data and its settings")):
                    claim(f"the ranks agree on {what}", f(a, k) == f(b, k))
                stream = f(a, "cursor_kind") == word("file_stream_v1")
                shared = lambda e: z3.If(f(e, "stream_coordination") != V.nil, V.cons(V.nil, f(e, "stream_coordination")), f(e, "stream"))
                claim("the ranks agree on the shared stream position", z3.Implies(stream, shared(a) == shared(b)))
                sa, sb = a.seen.get("sampler"), b.seen.get("sampler")
                if isinstance(sa, Entry) and isinstance(sb, Entry):
                    claim("the ranks agree on the sampler's position", z3.Implies(z3.Not(stream), sa.term(without=("rank",)) == sb.term(without=("rank",))))
                va, vb = a.seen.get("vq_runtime"), b.seen.get("vq_runtime")
                if isinstance(va, Entry) or isinstance(vb, Entry):
                    claim("the ranks agree on having quantizer states", isinstance(va, Entry) and isinstance(vb, Entry))
                    for k in ("version", "schema", "autocast_mode"):
                        claim(f"the ranks agree on the quantizers' {k}", f(va, k) == f(vb, k))
        return go
    runs = [(1, 1, None, True), (1, 1, None, False), (1, 2, ["stream"] * 2, True), (2, 1, ["stream"], True), (2, 3, ["stream"] * 3, True), (3, 3, ["stream"] * 3, True)]
    runs += [(2, 2, [a, b], True) for a, b in (("stream", "stream"), ("map", "map"), ("stream", "map"), ("map", "stream"), ("none", "none"), ("stream", "none"), ("vq stream", "vq stream"))]
    for n, count, shapes, classify in runs:
        S.run(f"_validate_rank_resume_states[{n} ranks, {count} entries{': ' + ', '.join(shapes) if shapes else ''}, classify={classify}]", h(n, count, shapes, classify))


# ---------------------------------------------------------------- loading a saved state
REFUSALS = (Refused, RuntimeError, FileNotFoundError, TypeError, ValueError, KeyError)


class Part:
    """An optimizer, schedule, scaler, module or data position: it holds what it was last given."""
    __pyvc_heap__ = False

    def __init__(self, state=None, groups=0, refuses=True):
        self.now = state if state is not None else Val(fresh("built"))
        self.loads, self.refuses = [], refuses
        self.param_groups = [{"lr": Val(fresh("rate")), "params": [0]} for _ in range(groups)]
        self.epoch = self.committed_epoch = NAT.fresh("epoch_of_position")

    def state_dict(self):
        return self.now

    def load_state_dict(self, v):
        if self.refuses:
            may_refuse("load_state_dict")
        self.now = v
        self.loads.append(v)
        for i, g in enumerate(self.param_groups):
            g["lr"] = Val(RATE(lift(v), z3.IntVal(i)))
        self.epoch = self.committed_epoch = SymInt(EPOCH(lift(v)))

    signature_state = None


RATE = z3.Function("rate_in", V, I, V)
EPOCH = z3.Function("epoch_in", V, I)
ISFILE = z3.Function("is_file", I, V, B)
CONTENT = z3.Function("content", I, V, V)
MATCH = z3.Function("matches", V, B, B)


def trainer(m, cls, n, i, kind, nmodels, nopts, scaler=False, gas=1, device="cpu", vq=False, refuses=True):
    """A trainer whose every setting is an arbitrary value."""
    x = object.__new__(cls)
    P = lambda groups=0: Part(groups=groups, refuses=refuses)
    x.accelerator = Acc(n, i, P() if scaler else None, device)
    x.use_cpu = device == "cpu"
    names = ("main", "extra")
    x.models = {k: P() for k in ("net", "second")[:nmodels]}
    x.model_name = "net"
    x.optimizers = {k: P(2) for k in names[:nopts]}
    x.optim_type, x.optim_args, x.weight_decay = Val(fresh("optim_type")), Val(fresh("optim_args")), Val(fresh("weight_decay"))
    x.lr_scheduler_type, x.lr_scheduler_args, x.iterations = Val(fresh("schedule_type")), {}, NAT.fresh("iterations")
    x._optimizer_config = {"type": x.optim_type, "args": Val(fresh("optimizer_config"))}
    x._data_stream_signature = Val(fresh("signature"))
    x._exact_resume_reason = None
    x._resume_stream = P() if kind == "stream" else None
    x._resume_sampler = P() if kind == "map" else None

    class State:
        __pyvc_heap__ = True
    x.state = State()
    x.state.iteration, x.state.epoch, x.state.rows = (NAT.fresh(k) for k in ("iteration", "epoch", "rows"))
    x._pending_scheduler_states = x._pending_runtime_lrs = x._pending_resume_state = x._pending_resume_version = None
    x._last_state_save_iteration, x._resume_states_for_save = None, None
    x._canonical_resume_value = lambda v: Val(CANON(lift(v)))
    x._vq_runtime_modules = lambda: []
    x._validate_v1_vq_compatibility = lambda mods, it: may_refuse("old quantizers")
    x.ckpt_dir_ = None

    class Identity:
        slice_start, slice_stop = NAT.fresh("slice_start"), NAT.fresh("slice_stop")
    x.train_dataset = types.SimpleNamespace(runtime_context=types.SimpleNamespace(rank_local_identity=Identity))
    x._model_ckpt_path = lambda name, it: Path(name, it)
    return x


class Path:
    def __init__(self, name, it):
        self.name, self.it = name, int_term(it)

    def __format__(self, s):
        return "<path>"


def files(m):
    """Model files: present or not, of arbitrary content."""
    m.os = types.SimpleNamespace(path=types.SimpleNamespace(isfile=lambda p: SymBool(ISFILE(p.it, word(p.name)))))
    metas = {}

    def load(p):
        may_refuse("unreadable")
        e = Entry(f"meta_{p.name}")
        metas[p.name] = (p, e)
        return Val(CONTENT(p.it, word(p.name))), None, e
    m.load_torch_ckpt = load
    return metas


def loading(S):
    """_load_state_checkpoint accepts an arbitrary file only if it fits the run, and takes everything over from it."""
    m = world()
    cls = m.BaseTrainer

    def h(n, me, nmodels, nopts, scaler, resume_kind, others):
        def go():
            c = ctx()
            x = trainer(m, cls, n, me, "stream", nmodels, nopts, scaler)
            metas = files(m)
            N = NAT.fresh("iteration_in_name")
            m.get_iteration_from_ckpt_filename = lambda f: None if c.decide(c.fresh(B, "no_iteration")) else N
            def supported(t, name):
                c.add(V.is_bool_(t))
                return flag(t, name)
            rank = {"supported": supported, "vq_runtime": dictionary(or_none=True)}
            given, checked = [], []

            def ranks(t, name):
                k = n if c.decide(c.fresh(B, "right_count")) else n + 1
                given.append([Entry(f"rank{i}", rank) for i in range(k)])
                return given[-1]

            def validate(states, *, classify_legacy=False):
                claim("all saved entries are checked", bool(given) and states is given[-1] and len(states) == n)
                may_refuse("entries")
                legacy = c.decide(c.fresh(B, "legacy"))
                checked.append(([Entry(f"checked{i}", rank) for i in range(n)], legacy))
                return checked[-1] if classify_legacy else checked[-1][0]

            def matches(saved, *, legacy_map_state=False):
                claim("the entry's own format decides how its data are compared", bool(checked) and legacy_map_state is checked[-1][1])
                return SymBool(MATCH(lift(saved), z3.BoolVal(legacy_map_state)))
            x._validate_rank_resume_states, x._data_stream_signature_matches = validate, matches
            opts = sorted(x.optimizers)

            def parts(t, name):
                return {k: Val(fresh(f"{name}.{k}")) for k in (opts if c.decide(c.fresh(B, "same_names")) else others)}
            meta = dictionary()
            state = Entry("state", {"resume": dictionary({"ranks": ranks, "version": lambda t, nm: Val(t)}), "metadata": meta, "optimizers": parts, "schedulers": parts, "scaler": none_or_value})
            m.torch = types.SimpleNamespace(load=lambda f, **k: state)
            before = {k: p.now for k, p in x.models.items()}
            try:
                x._load_state_checkpoint("file")
            except REFUSALS:
                claim("refused", True)
                return
            f = lambda e, k: z3.And(e.has[k])
            claim("only the current format is loaded", z3.And(state.has["format_version"], state.val["format_version"] == V.int_(2)))
            claim("the optimizer settings are the saved ones", z3.And(state.has["optimizer_config"], state.val["optimizer_config"] == lift(x._optimizer_config)))
            claim("the schedule settings are the saved ones", z3.And(state.has["scheduler_config"], state.val["scheduler_config"] == lift(
                {"type": x.lr_scheduler_type, "args": x._canonical_resume_value(x.lr_scheduler_args), "iterations": x.iterations})))
            r = state.seen.get("resume")
            claim("the number of ranks is the saved one", isinstance(r, Entry) and z3.And(r.has["world_size"], r.val["world_size"] == V.int_(n)))
            claim("the entries were checked", len(checked) == 1)
            mine, legacy = checked[0][0][me], checked[0][1]
            claim("only a resumable entry of this rank is used", z3.And(mine.has["supported"], mine.val["supported"] == V.bool_(True)))
            claim("the data are the saved ones", MATCH(z3.If(mine.has["data_stream_signature"], mine.val["data_stream_signature"], V.nil), z3.BoolVal(legacy)))
            e = state.seen.get("metadata")
            it = lambda d: z3.And(d.has["iteration"], PARSE(d.val["iteration"]) == N.t)
            claim("the state is of the iteration in its name", isinstance(e, Entry) and it(e))
            claim("the run continues at the saved iteration", int_term(x.state.iteration) == N.t)
            claim("the saved epoch and rows are taken over", z3.And(*[
                int_term(getattr(x.state, k)) == z3.If(e.has[k], PARSE(e.val[k]), 0) for k in ("epoch", "rows")]))
            for k, p in x.models.items():
                claim("every model is read from its own file of that iteration", z3.And(ISFILE(N.t, word(k)), lift(p.now) == CONTENT(N.t, word(k)), z3.BoolVal(k in metas), it(metas[k][1])))
            got = state.seen.get("optimizers")
            claim("every optimizer is restored", isinstance(got, dict) and sorted(got) == opts and all(x.optimizers[k].now is got[k] for k in opts))
            pend = x._pending_scheduler_states
            claim("the schedules are handed on", pend is state.seen.get("schedulers") and pend is not None)
            claim("the learning rates are handed on", sorted(x._pending_runtime_lrs) == opts and z3.And(*[
                lift(v) == RATE(lift(got[k]), z3.IntVal(i)) for k in opts for i, v in enumerate(x._pending_runtime_lrs[k])], *[z3.BoolVal(len(x._pending_runtime_lrs[k]) == 2) for k in opts]))
            if scaler:
                sc = state.seen.get("scaler")
                claim("the gradient scaler is restored", z3.BoolVal((sc is None) == (not x.accelerator.scaler.loads) and (sc is None or x.accelerator.scaler.now is sc)))
            claim("this rank's own entry is handed on", x._pending_resume_state is mine)
            v = r.val["version"]
            claim("its version is handed on", z3.And(lift(x._pending_resume_version) == v, r.has["version"], z3.Or(v == V.int_(1), v == V.int_(2))))
            q = mine.seen.get("vq_runtime")
            claim("a current state has quantizer states", z3.Implies(v == V.int_(2), z3.BoolVal(isinstance(q, Entry))))
            claim("the loaded state counts as saved", int_term(x._last_state_save_iteration) == N.t)
        return go
    for n, me, nm, no, sc, others in ((1, 0, 1, 1, False, []), (2, 1, 1, 1, True, ["extra"]), (1, 0, 2, 2, False, ["main"])):
        S.run(f"_load_state_checkpoint[rank {me} of {n}, {nm} models, {no} optimizers, scaler={sc}]", h(n, me, nm, no, sc, None, others))


def schedules(S):
    m = world()
    cls = m.BaseTrainer

    def h(nopts, resuming):
        def go():
            c = ctx()
            x = trainer(m, cls, 1, 0, "stream", 1, nopts)
            saved = {k: Val(fresh(f"saved_{k}")) for k in x.optimizers}
            rates = {k: [Val(fresh("saved_rate")) for _ in p.param_groups] for k, p in x.optimizers.items()}
            names = list(x.optimizers) if c.decide(c.fresh(B, "same_names")) else list(x.optimizers)[1:] + ["other"]
            if resuming:
                x._pending_scheduler_states = {k: saved.get(k) or Val(fresh("saved")) for k in names} if names == list(x.optimizers) else {k: Val(fresh("saved")) for k in names}
                saved = x._pending_scheduler_states
                x._pending_runtime_lrs = rates
            seen = []

            def build(opt, kind, its, last_it=None, **kw):
                claim("a schedule is built from the settings", kind is x.lr_scheduler_type and its is x.iterations and kw == x.lr_scheduler_args and last_it == -1)
                for g in opt.param_groups:
                    g["lr"] = Val(fresh("set_by_schedule"))
                seen.append((opt, Part()))
                return seen[-1][1]
            m.build_lr_scheduler = build
            try:
                x._setup_scheduler()
            except REFUSALS:
                claim("refused", True)
                return
            claim("every optimizer has its own schedule", list(x.schedulers) == list(x.optimizers) and all(x.schedulers[k] is p and x.optimizers[k] is o for k, (o, p) in zip(x.optimizers, seen)))
            if resuming:
                claim("a schedule for every optimizer was saved", sorted(saved) == sorted(x.optimizers))
                claim("every schedule is restored", all(x.schedulers[k].now is saved[k] for k in x.optimizers))
                claim("every learning rate is the saved one", all(g["lr"] is v for k, p in x.optimizers.items() for g, v in zip(p.param_groups, rates[k])))
                claim("nothing is left pending", x._pending_scheduler_states is None and x._pending_runtime_lrs is None)
        return go
    for no in (1, 2):
        for resuming in (True, False):
            S.run(f"_setup_scheduler[{no} optimizers, resuming={resuming}]", h(no, resuming))


def continuing(S):
    m = world()
    cls = m.BaseTrainer

    def h(kind, version, tunes):
        def go():
            c = ctx()
            x = trainer(m, cls, 2, 1, kind, 1, 1)
            e = Entry("saved", {"cursor_kind": none_or_value, "pipeline_tuning": none_or_value, "vq_runtime": dictionary(or_none=True)})
            x._pending_resume_state, x._pending_resume_version = e, version
            log = []

            def quantizers(manifest):
                claim("the quantizers are restored from this rank's entry", manifest is e.seen.get("vq_runtime"))
                may_refuse("quantizers")
                log.append("vq")
            x._restore_vq_runtime_collectively = quantizers

            def generators(st):
                may_refuse("generators")
                log.append(("rng", st))
            x._restore_rng_state = generators
            if tunes:
                def tuning(st):
                    log.append(("tuning", st))
                x.train_dataset.restore_pipeline_tuning_state_dict = tuning
            epoch0 = x.state.epoch
            try:
                x._restore_continuation_state()
            except REFUSALS:
                claim("refused", True)
                return
            except AttributeError as ex:
                if "'NoneType' object has no attribute" not in str(ex):
                    raise
                claim("refused: the run has no position of that kind", True)
                return
            claim("the quantizers of a current state are restored", (version != 2) or "vq" in log)
            claim("the random generators are restored last, to the saved state", bool(log) and isinstance(log[-1], tuple) and log[-1][0] == "rng"
                  and z3.And(e.has["rng"], lift(log[-1][1]) == e.val["rng"]))
            pos, key, word_ = (x._resume_stream, "stream", "file_stream_v1") if kind == "stream" else (x._resume_sampler, "sampler", "map_sampler_v1")
            claim("the data position is the saved one", len(pos.loads) == 1 and z3.And(e.has[key], lift(pos.now) == e.val[key]))
            saved_kind = z3.If(e.has["cursor_kind"], e.val["cursor_kind"], V.nil)
            claim("the position is of the run's own kind", saved_kind == word(word_) if kind == "stream" else z3.Or(saved_kind == word(word_), saved_kind == V.nil))
            claim("the epoch is the position's", int_term(x.state.epoch) == EPOCH(lift(pos.now)))
            if kind == "stream":
                ident = x.train_dataset.runtime_context.rank_local_identity
                claim("the rank reads the same share of each batch", z3.And(e.has["slice"], e.val["slice"] == lift([ident.slice_start, ident.slice_stop])))
            else:
                claim("the sampler is in the saved epoch", int_term(epoch0) == int_term(x.state.epoch))
            if tunes and e.seen.get("pipeline_tuning") is not None:
                claim("the pipeline's tuning is restored", any(isinstance(v, tuple) and v[0] == "tuning" and v[1] is e.seen["pipeline_tuning"] for v in log))
            claim("nothing is left pending", x._pending_resume_state is None and x._pending_resume_version is None)
        return go
    for kind in ("stream", "map"):
        for version, tunes in ((2, True), (2, False), (1, False)):
            S.run(f"_restore_continuation_state[{kind}, version {version}, tuning={tunes}]", h(kind, version, tunes))


# ---------------------------------------------------------------- save, then resume
class Raw:
    """The state of a generator, as array, list, tensor or bytes."""
    __pyvc_heap__ = False

    def __init__(self, t, form):
        self.t, self.form = t, form

    def lifted(self):
        return V.cons(word(self.form), self.t)

    def _need(self, *forms):
        if self.form not in forms:
            raise Unsupported(f"generator state handled as {self.form}")

    def astype(self, d, copy=True):
        self._need("words")
        if str(d) not in ("<u4", "uint32"):
            raise Unsupported(f"words as {d}")
        return self

    def tobytes(self):
        self._need("words")
        return Raw(self.t, "word bytes")

    def copy(self):
        return self

    clone = cpu = numpy = copy

    def tolist(self):
        self._need("tensor")
        return Raw(self.t, "list")

    def __eq__(self, o):
        return SymBool(self.lifted() == lift(o))

    __hash__ = None

    def __getattr__(self, k):
        raise Unsupported(f"generator state .{k}")


class Generators:
    """The process's random generators."""

    def __init__(self):
        self.python, self.cpu, self.cuda = fresh("python"), fresh("torch"), fresh("cuda")
        self.numpy = [Val(fresh("kind")), Raw(fresh("words"), "words"), Val(fresh("position")), Val(fresh("has_gauss")), Val(fresh("gauss"))]

    def all(self):
        return {"Python": self.python, "numpy": lift(list(self.numpy)), "torch": self.cpu, "CUDA": self.cuda}


def generators(m, g):
    """Stand-ins for random, numpy.random and torch's generators; g.now is the process they belong to."""
    m.random = types.SimpleNamespace(getstate=lambda: Val(g.now.python), setstate=lambda v: setattr(g.now, "python", lift(v)))

    def np_set(v):
        v = list(v)
        if len(v) != 5 or not isinstance(v[1], Raw) or v[1].form != "words":
            raise Unsupported("numpy generator state")
        g.now.numpy = v

    def from_bytes(form, dtype):
        def frombuffer(b, dtype=None):
            want = {"words": "word bytes", "tensor": "bytes"}[form]
            if not isinstance(b, Raw) or b.form != want or dtype not in (None, "<u4", U8):
                raise Unsupported("frombuffer")
            return Raw(b.t, form)
        return frombuffer
    U8 = object()
    m.np = types.SimpleNamespace(random=types.SimpleNamespace(get_state=lambda: tuple(g.now.numpy), set_state=np_set), frombuffer=from_bytes("words", "<u4"))

    def set_cpu(v):
        v._need("tensor")
        g.now.cpu = v.t

    def set_cuda(v, dev=None):
        v._need("tensor")
        g.now.cuda = v.t
    m.torch = types.SimpleNamespace(get_rng_state=lambda: Raw(g.now.cpu, "tensor"), set_rng_state=set_cpu, frombuffer=from_bytes("tensor", None), uint8=U8,
                                    Tensor=type("Tensor", (), {}), cuda=types.SimpleNamespace(get_rng_state=lambda d=None: Raw(g.now.cuda, "tensor"), set_rng_state=set_cuda))

    def to_bytes(v=b""):
        if isinstance(v, Raw):
            v._need("list", "bytes")
            return Raw(v.t, "bytes")
        return bytes(v)
    m.bytes = m.bytearray = to_bytes


def roundtrip(S):
    m = world()
    cls = m.BaseTrainer

    def h(n, kind, device, scaler, coordinated, tunes, nmodels, nopts):
        def go():
            c = ctx()
            g = Ghost()
            shared = fresh("shared_position")
            manifest = {"version": Val(fresh("v")), "schema": Val(fresh("schema")), "autocast_mode": Val(fresh("mode"))}
            manifests = [{**manifest, "rank": i, "file": Val(fresh("sidecar"))} for i in range(n)]
            signature = Val(fresh("signature"))
            first = None
            xs, gens, ranks = [], [], []

            def settle(x, i):
                x._data_stream_signature = signature
                if first is not None:
                    for k in ("optim_type", "optim_args", "weight_decay", "lr_scheduler_type", "iterations", "_optimizer_config"):
                        setattr(x, k, getattr(first, k))

                def restored(v):
                    x.quantizers = v
                x._restore_vq_runtime_collectively = restored
                if tunes:
                    x.tuning = Val(fresh("tuning"))
                    x.train_dataset.pipeline_tuning_state_dict = lambda: x.tuning
                    x.train_dataset.restore_pipeline_tuning_state_dict = lambda v: setattr(x, "tuning", v)
                pos = x._resume_stream or x._resume_sampler

                def committed(p=pos):
                    return SymInt(EPOCH(lift(p.now)))
                if coordinated:
                    pos.coordination_state_dict = lambda: Val(z3.Function("shared_part", V, V)(lift(pos.now)))
                class Slice:
                    slice_start, slice_stop = 3 * i, 3 * i + 3
                x.train_dataset.runtime_context.rank_local_identity = Slice
                return pos
            for i in range(n):
                x = trainer(m, cls, n, i, kind, nmodels, nopts, scaler, device=device, refuses=False)
                pos = settle(x, i)
                if kind == "map":
                    pos.now = {"position": Val(shared), "rank": i}
                elif coordinated:
                    c.add(z3.Function("shared_part", V, V)(lift(pos.now)) == shared)
                    c.add(shared != V.nil)
                else:
                    pos.now = Val(shared)
                if first is not None:
                    for k in ("models", "optimizers", "state"):
                        setattr(x, k, getattr(first, k))
                else:
                    x.schedulers = {k: Part(refuses=False) for k in x.optimizers}
                    for k, p in x.optimizers.items():
                        p.param_groups[0]["lr"], p.param_groups[1]["lr"] = (Val(RATE(lift(p.now), z3.IntVal(j))) for j in range(2))
                    c.add(x.state.epoch.t == EPOCH(lift(pos.now)))
                    first = x
                c.add(x.state.epoch.t == EPOCH(lift(pos.now)))
                g.now = Generators()
                generators(m, g)
                gens.append(g.now)
                xs.append(x)
                ranks.append(x._local_resume_state(vq_runtime=manifests[i]))
            first._resume_states_for_save = ranks
            saved = first._build_training_state()
            for me in range(n):
                y = trainer(m, cls, n, me, kind, nmodels, nopts, scaler, device=device, refuses=False)
                settle(y, me)
                y.iterations = first.iterations
                g.now = Generators()
                generators(m, g)
                m.torch.load = lambda f, **k: saved
                m.os = types.SimpleNamespace(path=types.SimpleNamespace(isfile=lambda p: True))
                m.get_iteration_from_ckpt_filename = lambda f: first.state.iteration
                m.load_torch_ckpt = lambda p: (first.models[p.name].now, None, {"iteration": first.state.iteration})

                def build(opt, *a, **k):
                    for gr in opt.param_groups:
                        gr["lr"] = Val(fresh("set_by_schedule"))
                    return Part(refuses=False)
                m.build_lr_scheduler = build
                try:
                    y._load_state_checkpoint("file")
                    y._setup_scheduler()
                    y._restore_continuation_state()
                except REFUSALS as ex:
                    claim(f"a saved state is not refused", False)
                    return
                x = xs[me]
                for what in ("models", "optimizers", "schedulers"):
                    a, b = getattr(first, what), getattr(y, what)
                    claim(f"the {what} are those of the saved run", sorted(a) == sorted(b) and z3.And(*[lift(a[k].now) == lift(b[k].now) for k in a]))
                claim("the learning rates are those of the saved run", z3.And(*[lift(g1["lr"]) == lift(g2["lr"]) for k in first.optimizers
                                                                           for g1, g2 in zip(first.optimizers[k].param_groups, y.optimizers[k].param_groups)]))
                if scaler:
                    claim("the gradient scaler is that of the saved run", lift(first.accelerator.scaler.now) == lift(y.accelerator.scaler.now))
                claim("the counters are those of the saved run", z3.And(*[int_term(getattr(first.state, k)) == int_term(getattr(y.state, k)) for k in ("iteration", "rows", "epoch")]))
                p, q = (t._resume_stream or t._resume_sampler for t in (x, y))
                claim("the data position is that of the saved rank", lift(p.now) == lift(q.now))
                claim("the quantizers are those of the saved rank", lift(y.quantizers) == lift(manifests[me]))
                if tunes:
                    claim("the pipeline tuning is that of the saved rank", lift(y.tuning) == lift(x.tuning))
                for k, t in gens[me].all().items():
                    if k != "CUDA" or device == "cuda":
                        claim(f"the {k} generator is that of the saved rank", g.now.all()[k] == t)
        return go
    for n, kind, device, scaler, co, tunes, nm, no in ((1, "stream", "cpu", False, False, False, 1, 1), (1, "map", "cpu", False, False, False, 2, 2), (2, "stream", "cuda", True, True, True, 1, 1),
                                                       (2, "map", "cuda", True, False, False, 1, 1), (2, "stream", "cpu", False, False, True, 1, 2), (3, "map", "cpu", False, False, False, 1, 1)):
        S.run(f"save and resume[{n} ranks, {kind}, {device}, scaler={scaler}, coordinated={co}, tuning={tunes}, {nm} models, {no} optimizers]", h(n, kind, device, scaler, co, tunes, nm, no))


# ---------------------------------------------------------------- which state, when, and beside whose generator
def newest(S):
    m = world()
    cls = m.BaseTrainer

    def h():
        c = ctx()
        x = trainer(m, cls, 1, 0, "stream", 1, 1)
        x.rundir = "run"
        log = []
        has = {k: c.fresh(B, f"finds_{k}") for k in ("state", "legacy")}

        def find(d, prefix):
            k = "state" if str(prefix) == "state_" else "legacy"
            claim("states are looked for where they are saved", str(d) == ("run/ckpts" if k == "state" else "run"))
            return k if c.decide(has[k]) else None
        import os
        m.find_latest_ckpt = find
        m.os = types.SimpleNamespace(path=types.SimpleNamespace(isdir=lambda p: c.decide(c.fresh(B, "isdir")), join=os.path.join), listdir=lambda p: ["ckpt_x"] if c.decide(c.fresh(B, "models")) else [])
        x._load_state_checkpoint = lambda f: log.append(("state", f))
        x._load_legacy_checkpoint = lambda f: log.append(("legacy", f))
        x._load_pretrained_weights = lambda: log.append(("pretrained",))
        x._load_checkpoint()
        claim("a saved state is resumed from, and nothing else is loaded", z3.Implies(has["state"], z3.BoolVal(log == [("state", "state")])))
        claim("without a saved state none is loaded", z3.Implies(z3.Not(has["state"]), z3.BoolVal(len(log) == 1 and log[0][0] != "state")))
    S.run("_load_checkpoint", h)


def start(S):
    m = world()
    cls = m.BaseTrainer

    def h(resuming):
        def go():
            c = ctx()
            x = trainer(m, cls, 1, 0, "stream", 1, 1)
            x.batch_size, x.gradient_accumulation_steps = 4, 1
            log = []
            it0 = x.state.iteration
            x.iterations = it0 + 1
            m.time = types.SimpleNamespace(time=lambda: 0.0)
            m.torch = types.SimpleNamespace(compiler=types.SimpleNamespace(cudagraph_mark_step_begin=lambda: None))

            class Loader:
                def __iter__(self):
                    log.append("iterator")
                    return iter(())
            x.train_loader = Loader()

            class Profiler:
                def region(self, name):
                    import contextlib
                    return contextlib.nullcontext()

                def mark_iteration(self):
                    pass

                def step(self, i):
                    pass
            m.NULL_PROFILER = x.profiler = Profiler()
            x.log_interval = x.show_interval = x.val_interval = NAT.fresh("interval")
            c.add(x.log_interval.t >= 1)
            x.val_loader, x._last_state_save_iteration, x._checkpoint_attempt_failed = None, it0, False
            x.models = {"net": types.SimpleNamespace(train=lambda: log.append("train mode"))}

            def restore():
                log.append("restore")
                if c.decide(c.fresh(B, "refused")):
                    log.append("refused")
                    raise Refused()
            x._restore_continuation_state = restore
            x._fetch_batch = lambda: log.append("fetch")
            x._run_train_step = lambda d: (log.append("step"), ({}, {}))[1]
            x._gather_train_metrics = lambda *a: ({}, {})
            x._log_metrics = x._show_progress = x._save_checkpoint = lambda *a, **k: None
            x._run_synchronized_operation = lambda what, cb, **k: cb()
            x._discard_pending_step_validity = x._flush_async_checkpoint_collectively = x._shutdown_resources = lambda: None
            x._drain_pending_step_validity = lambda *, include_current: None
            x._is_save_iteration = lambda i: False
            m.add_dict_to = lambda a, b: None
            try:
                x.run()
            except Refused:
                pass
            claim("what was saved is restored before the first batch is asked for", "restore" in log and all(log.index(k) > log.index("restore") for k in log if k in ("iterator", "fetch", "step")))
            claim("a refused state stops the run before a step", "refused" not in log or not {"iterator", "fetch", "step"} & set(log))
            if "refused" not in log:
                claim("the run goes on with the next iteration", log.count("step") == 1 and int_term(x.state.iteration) == it0.t + 1)
                claim("the models are trained", "train mode" in log and log.index("train mode") < log.index("step"))
                claim("restored once", log.count("restore") == 1)
        return go
    S.run("run[from the start to the first step]", h(True))


def loaders(S):
    w = World()
    m = w.module("utils.training_utils")
    made = []

    class Generator:
        def __init__(self):
            made.append(self)

        def manual_seed(self, s):
            self.seed = s
            return self

    class Loader:
        def __init__(self, dataset, *a, **kw):
            self.dataset, self.a, self.kw = dataset, a, kw
    real = m.torch
    m.DataLoader = Loader
    m.torch = types.SimpleNamespace(Generator=Generator)

    def h(batches, given):
        def go():
            import torch.utils.data as tud
            made.clear()
            base = tud.IterableDataset if batches else tud.Dataset

            class Data(base):
                yields_batches = batches
                is_internal_shuffleable = True
                __iter__ = lambda self: iter(())
                runtime_context = types.SimpleNamespace(seed=7, rank=0, mode="train")
            own = Generator()
            made.clear()
            kw = {"generator": own} if given else {}
            r = m.build_data_loader(Data(), 4, shuffle=ctx().decide(ctx().fresh(B, "shuffle")), num_workers=0, **kw)
            claim("a loader draws from a generator of its own, never from the global one", isinstance(r, Loader) and r.kw.get("generator") is not None and r.kw["generator"] in ([own] if given else made))
            claim("batches are read in this process", r.kw.get("num_workers") == 0)
        return go
    for batches in (True, False):
        for given in (True, False):
            S.run(f"build_data_loader[{'batches' if batches else 'samples'}, own generator given={given}]", h(batches, given))
    m.torch = real


# ---------------------------------------------------------------- what the data are compared by
SIZE, MTIME, DIGEST = (z3.Function(k, I, I) for k in ("size_of", "mtime_of", "length_of"))
ABS = z3.Function("absolute", I, I)
FILE, FOLDER = (z3.Function(k, I, B) for k in ("a_file", "a_folder"))
FILES = z3.Function("files_in", I, I, I)             # folder, its step in the walk -> number of files
NTH = z3.Function("file_path", I, I, I, I)           # folder, step, place in name order -> path


class P:
    """A path."""
    __pyvc_type__ = str
    __pyvc_heap__ = False

    def __init__(self, t):
        self.t = t

    @staticmethod
    def __pyvc_T__():
        t = TInt()
        t.wrap, t.unwrap = lambda terms: P(terms[0]), lambda v: [v.t]
        return t

    def __eq__(self, o):
        return SymBool(self.t == o.t) if isinstance(o, P) else NotImplemented

    __hash__ = None

    def __format__(self, s):
        return "<path>"

    def __getattr__(self, k):
        raise Unsupported(f"path.{k}")


class Seq(LazySeq):
    def __init__(self, n, f):
        self.n, self.f = n, f

    def length(self):
        return SymInt(self.n)

    def at(self, i):
        return self.f(i)

    def __iter__(self):
        raise Unsupported("unrolled listing")


class Bag(Seq):
    """A list that grows in a loop: what it holds already, and what this iteration adds."""
    __pyvc_heap__ = False

    def __init__(self, name, n=None, f=None):
        self.name, self.added, self.at_head = name, [], True
        super().__init__(n if n is not None else NAT.fresh(f"in_{name}").t, f or (lambda i: P(z3.Function(f"of_{name}", I, I)(i))))

    def append(self, x):
        self.added.append(x)

    def extend(self, xs):
        self.added.append(xs)


def identity(S):
    cur = {}

    def fixed(L):
        return ()

    def walk_inv(L):
        b = L.candidates
        if isinstance(b, list):
            yield "a folder's files start empty", z3.BoolVal(b == [])
            return
        if not isinstance(b, Bag):
            raise Unsupported("the candidates are collected otherwise")
        if not b.added:
            return
        xs = b.added[0]
        if len(b.added) != 1 or not isinstance(xs, LazySeq):
            raise Unsupported("the files of a folder are collected otherwise")
        j = ctx().fresh(I, "place")
        i = z3.simplify(L.i.t - 1)
        n = FILES(cur["root"].t, i)
        ctx().add(z3.And(j >= 0, j < n))
        got = xs.at(j)
        yield "all files of the folder are taken, in name order", z3.And(int_term(xs.length()) == n, z3.BoolVal(isinstance(got, P)), got.t == NTH(cur["root"].t, i, j))

    def file_inv(L):
        b = L.identities
        if isinstance(b, list):
            yield "the identities start empty", z3.BoolVal(b == [])
            return
        if not isinstance(b, Bag):
            raise Unsupported("the identities are collected otherwise")
        if b.at_head:
            b.at_head = False
            return
        i = z3.simplify(L.i.t - 1)
        f = seq_at(L.src, i)
        r = b.added
        ok = len(r) == 1 and isinstance(r[0], (list, tuple)) and len(r[0]) == 4 and isinstance(r[0][0], P)
        yield "one identity for each file", z3.BoolVal(ok)
        if ok:
            p, size, mtime, digest = r[0]
            known = isinstance(digest, Digest)
            yield "the identity names the file", p.t == f.t
            yield "a file is known by its size, time and whole content", z3.Implies(FILE(f.t), z3.BoolVal(known) if not known else z3.And(
                int_term(size) == SIZE(f.t), int_term(mtime) == MTIME(f.t), digest.f == f.t, digest.upto == DIGEST(f.t)))
            yield "what is no file is said to be none", z3.Implies(z3.Not(FILE(f.t)), z3.BoolVal(size is None and mtime is None and digest is None))

    def read_inv(L):
        d, st = L.digest, L.stream
        yield "the digest is of what was read so far", z3.And(d.upto == st.pos, z3.BoolVal(d.f is None) if d.f is None else d.f == st.f, st.pos >= 0, st.pos <= DIGEST(st.f))

    class Digest:
        def __init__(self, f, upto):
            self.f, self.upto = f, upto

    class Sha:
        __pyvc_heap__ = True

        def __init__(self):
            self.f, self.upto = None, z3.IntVal(0)

        def update(self, b):
            if not isinstance(b, Bytes):
                raise Unsupported("a digest of something else")
            claim("the digest takes the content in order, from its start", z3.And(b.a == self.upto, z3.BoolVal(self.f is None or self.f.eq(b.f))))
            self.f, self.upto = b.f, b.b

        def hexdigest(self):
            return Digest(self.f if self.f is not None else z3.IntVal(-1), self.upto)

    class Bytes:
        def __init__(self, f, a, b):
            self.f, self.a, self.b = f, a, b

        def __len__(self):
            raise Unsupported("length of a chunk")

        def __bool__(self):
            return ctx().decide(self.b > self.a)

    class Stream:
        __pyvc_heap__ = True

        def __init__(self, f):
            self.f, self.pos = f.t, z3.IntVal(0)

        def read(self, n=None):
            a, L = self.pos, DIGEST(self.f)
            k = ctx().fresh(I, "read")
            ctx().add(z3.And(k >= 0, k <= L - a, z3.Implies(a < L, k >= 1)))
            if n is None or n == -1:
                k = L - a
            self.pos = z3.simplify(a + k)
            return Bytes(self.f, a, a + k)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

    def read_havoc(L):
        d, st = L.digest, L.stream
        if d.f is None:
            d.f = st.f
        return [("attr", d, "upto", lambda v: ctx().fresh(I, "upto")), ("attr", st, "pos", lambda v: ctx().fresh(I, "pos"))]
    N = Q + "_training_file_identity"
    bag = lambda name: (lambda v: v if isinstance(v, Bag) and not v.added else Bag(name))
    keep = lambda v: v
    loops = {N + "#0": LoopSpec(inv=fixed, types={"identities": bag("identities"), **{k: skip for k in ("path", "candidates", "root", "dirs", "files", "candidate", "stat", "digest", "stream", "chunk", "filename")}}),
             N + "#1": LoopSpec(inv=walk_inv, types={"candidates": lambda v: Bag("files"), "root": skip, "dirs": skip, "files": skip}),
             N + "#2": LoopSpec(inv=file_inv, types={"identities": lambda v: Bag("identities"), **{k: skip for k in ("stat", "digest", "stream", "chunk")}}),
             N + "#3": LoopSpec(inv=read_inv, havoc=read_havoc, types={"chunk": skip})}
    m = world(loops)
    cls = m.BaseTrainer
    m.hashlib = types.SimpleNamespace(sha256=Sha)

    class Folder:
        def __init__(self, root, step):
            self.root, self.step = root, step

    class Dirs:
        def sort(self, **k):
            cur["sorted"] = True

    class Names(Seq):
        def __init__(self, folder, in_order=False):
            self.folder, self.in_order = folder, in_order
            super().__init__(FILES(folder.root.t, folder.step), lambda i: Name(self, i))

    class Name:
        def __init__(self, names, i):
            self.names, self.i = names, i

    def walk(root):
        cur["root"] = root

        def step(i):
            f = Folder(root, i)
            return f, Dirs(), Names(f)
        n = NAT.fresh("folders").t
        return Seq(n, step)

    def join(folder, name):
        if not (isinstance(name, Name) and name.names.folder is folder):
            raise Unsupported("a path joined otherwise")
        if not name.names.in_order:
            raise Unsupported("files in the order of the listing")
        return P(NTH(folder.root.t, folder.step, name.i))

    def h():
        x = object.__new__(cls)
        n = NAT.fresh("configured")
        ctx().add(n.t >= 1)
        conf = z3.Function("configured", I, I)
        x.train_datas = Seq(n.t, lambda i: P(conf(i)))
        m.sorted = lambda v, **k: Names(v.folder, True) if isinstance(v, Names) else sorted(v, **k)
        m.os = types.SimpleNamespace(walk=walk, fspath=lambda p: p, stat=lambda p: types.SimpleNamespace(st_size=SymInt(SIZE(p.t)), st_mtime_ns=SymInt(MTIME(p.t))),
                                     path=types.SimpleNamespace(abspath=lambda p: P(ABS(p.t)), isfile=lambda p: SymBool(FILE(p.t)), isdir=lambda p: SymBool(FOLDER(p.t)), join=join))
        m.open = lambda p, mode: Stream(p)
        ctx().add(z3.ForAll([z3.Int("q")], DIGEST(z3.Int("q")) >= 0))
        r = x._training_file_identity()
        claim("all identities are returned", isinstance(r, (Bag, list)))
    S.run("_training_file_identity", h)


def signature(S):
    m = world()
    cls = m.BaseTrainer
    SETTINGS = ["batch_size", "batch_size_per_process", "dataset_type", "dataset_args", "data_pipelines", "num_worker", "dataloader_args", "gradient_accumulation_steps"]

    def h_map():
        xs, sigs = [], []
        for _ in range(2):
            x = object.__new__(cls)
            x._resume_stream, x._exact_resume_reason = None, None
            for k in SETTINGS:
                setattr(x, k, Val(fresh(k)))
            x.no_shuffle = ctx().decide(ctx().fresh(B, "no_shuffle"))
            x.accelerator = types.SimpleNamespace(num_processes=NAT.fresh("ranks"))
            x.train_datas = [P(ctx().fresh(I, "path"))]
            ident = x.ident = Val(fresh("identity"))
            x._training_file_identity = lambda ident=ident: ident
            x._canonical_resume_value = lambda v: v
            m.os = types.SimpleNamespace(fspath=lambda p: p, path=types.SimpleNamespace(abspath=lambda p: Val(V.atom(ABS(p.t)))))
            xs.append(x)
            sigs.append(x._build_data_stream_signature())
        a, b = xs
        same = lift(sigs[0]) == lift(sigs[1])
        for k in SETTINGS:
            claim(f"another {k} is another data stream", z3.Implies(same, lift(getattr(a, k)) == lift(getattr(b, k))))
        claim("another number of ranks is another data stream", z3.Implies(same, a.accelerator.num_processes.t == b.accelerator.num_processes.t))
        claim("shuffling or not is another data stream", z3.Implies(same, z3.BoolVal(a.no_shuffle == b.no_shuffle)))
        claim("other file contents are another data stream", z3.Implies(same, lift(a.ident) == lift(b.ident)))
        claim("the sampler's algorithm is part of it", "map_rng_algorithm" in sigs[0])
    S.run("_build_data_stream_signature[map]", h_map)

    def h_stream():
        sigs, raws, gas = [], [], []
        for _ in range(2):
            x = object.__new__(cls)
            raw = {"planner": Val(fresh("planner")), "files": Val(fresh("files"))}
            raws.append(dict(raw))
            x._resume_stream = types.SimpleNamespace(signature_state=lambda raw=raw: raw)
            x.gradient_accumulation_steps = NAT.fresh("gas")
            gas.append(x.gradient_accumulation_steps)
            x._canonical_resume_value = lambda v: v
            sigs.append(x._build_data_stream_signature())
        same = lift(sigs[0]) == lift(sigs[1])
        claim("the stream's own signature is part of it", z3.Implies(same, lift(raws[0]) == lift(raws[1])))
        claim("another number of micro-steps is another data stream", z3.Implies(same, gas[0].t == gas[1].t))
    S.run("_build_data_stream_signature[stream]", h_stream)

    def h_matches():
        c = ctx()
        x = object.__new__(cls)
        stream = c.decide(c.fresh(B, "streamed"))
        ids = [["p", 1, 2, Val(fresh("hash"))] for _ in range(2)]
        x._data_stream_signature = {"planner": Val(fresh("planner"))} if stream else {"batch_size": Val(fresh("batch")), "map_rng_algorithm": "a", "file_identity": ids}
        legacy = c.decide(c.fresh(B, "legacy"))
        saved = c.decide(c.fresh(B, "saved_is_dict"))
        sv = dictionary()(fresh("saved"), "saved") if not saved else {k: Val(fresh(k)) for k in (["planner"] if stream else ["batch_size", "file_identity"])}
        r = x._data_stream_signature_matches(sv, legacy_map_state=legacy)
        if not legacy:
            claim("only the same signature matches", SymBool(lift(sv) == lift(x._data_stream_signature)).t == to_bool_term(r))
        else:
            inlist = lambda v: z3.Or(*[lift(v) == lift(k) for k in m._LEGACY_MAP_CONTENT_ALLOWLIST])
            claim("a state of the old format matches only with the listed files", z3.Implies(to_bool_term(r), z3.Or(lift(sv) == lift(x._data_stream_signature), z3.BoolVal(not stream) if stream else z3.And(*[
                inlist(i[3]) for i in ids]))))
    S.run("_data_stream_signature_matches", h_matches)


def canonical(S):
    """_canonical_resume_value by structural induction: its recursive calls by contract, containers of up to three entries."""
    m = world()
    cls = m.BaseTrainer
    body = cls.__dict__["_canonical_resume_value"].__func__

    def h():
        c = ctx()
        cls._canonical_resume_value = staticmethod(lambda v: Val(CANON(lift(v))))
        try:
            n = next(k for k in range(4) if k == 3 or c.decide(c.fresh(B, f"size_{k}")))
            items = [Val(fresh("item")) for _ in range(n)]
            which = next(k for k in ("none", "bool", "int", "float", "str", "list", "tuple", "dict", "object") if k == "object" or c.decide(c.fresh(B, k)))
            if which in ("none", "bool", "int", "float", "str"):
                v = {"none": None, "bool": SymBool(c.fresh(B, "b")), "int": SymInt(c.fresh(I, "i")), "float": 1.5, "str": "x"}[which]
                claim("a plain value is kept", body(v) is v)
            elif which in ("list", "tuple"):
                r = body(items if which == "list" else tuple(items))
                claim("a sequence keeps every entry, in order", isinstance(r, list) and len(r) == n and z3.And(*[lift(a) == CANON(lift(b)) for a, b in zip(r, items)], z3.BoolVal(True)))
            elif which == "dict":
                keys = ["q", "a", "m"][:n]
                r = body(dict(zip(keys, items)))
                claim("a dictionary keeps every entry, by key", isinstance(r, dict) and list(r) == sorted(keys) and z3.And(*[lift(r[k]) == CANON(lift(b)) for k, b in zip(keys, items)], z3.BoolVal(True)))
            else:
                try:
                    body(Other())
                    claim("what has no canonical form is refused", False)
                except TypeError:
                    claim("what has no canonical form is refused", True)
        finally:
            cls._canonical_resume_value = staticmethod(body)

    class Other:
        pass
    S.run("_canonical_resume_value", h)


def prove(S):
    entries(S)
    loading(S)
    schedules(S)
    continuing(S)
    roundtrip(S)
    newest(S)
    start(S)
    loaders(S)
    identity(S)
    signature(S)
    canonical(S)
    from specs import r21_vq
    r21_vq.prove(S)


if __name__ == "__main__":
    from specs.common import main
    main(prove)
