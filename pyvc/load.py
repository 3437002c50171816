"""Load modules of the working tree with the verifier's instrumentation.

What the instrumentation changes (and nothing else):
  * a loop that has an invariant in the sidecar becomes a cut point;
  * comprehensions and `in` go through a helper that is the plain construct
    on ordinary values;
  * the builtins listed in shims.SHIMS are shadowed by equivalents that accept
    symbolic values;
  * every `except` clause first lets the verifier's own control-flow exceptions
    pass;
  * a module that is not part of the repository is imported natively.
"""
import ast
import json
import builtins
import gc
import importlib
import os
import sys
import types

import z3

from .engine import ctx, PathEnd, Unsupported
from .values import (
    Sym, SymBool, SymInt, SymReal, SymVal, SymList, SymRange, LazySeq, FilterSeq, Undefined, T,
    INT, BOOL, REAL, int_term, is_symseq, sym_len, seq_at, to_bool_term, concrete_int, DequeKind,
)
from . import shims

REPO = os.environ.get("PYVC_REPO", "/repo")


NONE = object()     # what a type callable returns for the value None (None itself: nobody may look)


def loop_headers(fn):
    """The loops of a function in the order in which they are numbered, without those of functions defined in it."""
    out = []

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(c, (ast.For, ast.While)):
                out.append(ast.unparse(c).splitlines()[0])
            walk(c)
    for b in fn.body:
        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        walk(ast.Module([b], []))
    return out


def align(old, new):
    """Which loop of the function as the contracts were written for is each of its loops now?  None: the numbering as it is.

    Contracts name loops by number.  When loops were added, moved or taken out, a loop is recognised by its header; one that cannot
    be told has no contract (and is refused if it would need one), never another loop's."""
    if old is None or old == new:
        return None
    if len(old) == len(new) and not set(old) & set(new):
        return None                                   # all headers rewritten, same number: same places
    out = [None] * len(new)
    for h in set(new) & set(old):
        a, b = [i for i, x in enumerate(old) if x == h], [i for i, x in enumerate(new) if x == h]
        if len(a) == len(b):
            for i, j in zip(a, b):
                out[j] = i
    left = [i for i in range(len(old)) if i not in out]
    if len(old) == len(new):
        for j in range(len(new)):
            if out[j] is None:
                out[j] = left.pop(0)
    return out


def baseline(repo):
    """The loops of every function of every module of a tree, as written to loops.json by tools/gen_loops.py."""
    table, twice = {}, set()
    for d, dirs, files in os.walk(repo):
        dirs[:] = [x for x in dirs if not x.startswith(".") and x not in ("tests", "build")]
        for f in files:
            if f.endswith(".py"):
                path = os.path.join(d, f)
                mod = os.path.relpath(path, repo)[:-3].replace(os.sep, ".")
                mod = mod[:-len(".__init__")] if mod.endswith(".__init__") else mod

                def walk(n, qual):
                    for c in ast.iter_child_nodes(n):
                        if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                            q = qual + [c.name]
                            if not isinstance(c, ast.ClassDef):
                                k = f"{mod}:{'.'.join(q)}"
                                twice.add(k) if k in table else table.__setitem__(k, loop_headers(c))
                            walk(c, q)
                        else:
                            walk(c, qual)
                try:
                    walk(ast.parse(open(path, encoding="utf-8").read()), [])
                except SyntaxError:
                    pass
    return {k: v for k, v in sorted(table.items()) if v and k not in twice}


_here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "loops.json")
BASELINE = json.load(open(_here)) if os.path.exists(_here) else {}


class LoopSpec:
    """Invariant of one loop.

    inv(L) -> iterable of (label, formula); L gives the locals as attributes,
    plus L.i (index, for loops over a sequence), L.src (the sequence),
    L.old (namespace filled by init at loop entry) and L.done(m) (measure m over
    the elements already consumed).
    types: local name -> T | callable(L)->value, for locals the loop rebinds.
    havoc(L): the heap effects of an arbitrary number of iterations, as a list of
      ("attr", obj, name, T-or-callable) or ("list", symlist) entries.
    variant(L): a natural-number measure (or a tuple, lexicographic) that each iteration decreases.
    init(L, old): record entry values used by the invariant.
    """

    def __init__(self, inv, types=None, havoc=None, variant=None, init=None, ignore=()):
        self.inv, self.types, self.havoc = inv, types or {}, havoc or (lambda L: [])
        self.variant, self.init = variant, init
        self.ignore = set(ignore)


class Old:
    pass


class Locals:
    def __init__(self, d, loop):
        self.__dict__["_d"] = d
        self.__dict__["_loop"] = loop

    def __getattr__(self, n):
        loop = self.__dict__["_loop"]
        if n == "i":
            return SymInt(loop.i)
        if n == "src":
            return loop.src
        if n == "old":
            return loop.old
        if n == "done":
            return loop.done
        d = self.__dict__["_d"]
        if n in d:
            return d[n]
        raise Unsupported(f"the invariant of {loop.where} mentions local {n!r}, which does not exist")


def _variant(v):
    return [int_term(x) for x in (v if isinstance(v, tuple) else (v,))]


def _native_mutable(x):
    return isinstance(x, (list, dict, set, bytearray)) or type(x).__name__ == "deque"


def heap_snapshot(roots, repo_classes):
    """Identity-level picture of the reachable heap (repository objects + containers)."""
    seen, out, keep = set(), {}, []
    stack = list(roots)
    while stack:
        x = stack.pop()
        if id(x) in seen or isinstance(x, (int, float, str, bytes, bool, type(None), Sym, type,
                                           types.FunctionType, types.ModuleType)):
            continue
        seen.add(id(x))
        keep.append(x)
        if isinstance(x, SymList):
            out[id(x)] = ("symlist", x, (x.version, x.n, tuple(x.arrs), x.lo))
        elif isinstance(x, (list, tuple, set, frozenset)) or type(x).__name__ == "deque":
            items = list(x)
            if not isinstance(x, (tuple, frozenset)):
                out[id(x)] = ("container", x, [_ident(i) for i in items])
            stack.extend(items)
        elif isinstance(x, dict):
            out[id(x)] = ("container", x, [(_ident(k), _ident(v)) for k, v in x.items()])
            stack.extend(x.values())
        elif type(x).__module__ in repo_classes or getattr(type(x), "__pyvc_heap__", False):
            fields = obj_fields(x)
            out[id(x)] = ("obj", x, {k: _ident(v) for k, v in fields.items()})
            stack.extend(fields.values())
        elif isinstance(x, types.CellType):
            try:
                stack.append(x.cell_contents)
            except ValueError:
                pass
    return out, keep


def obj_fields(x):
    d = {}
    for k in type(x).__mro__:
        for s in getattr(k, "__slots__", ()) or ():
            if isinstance(getattr(k, "__slots__"), str):
                s = getattr(k, "__slots__")
            try:
                d[s] = object.__getattribute__(x, s)
            except AttributeError:
                pass
    d.update(getattr(x, "__dict__", {}))
    return d


def _ident(v):
    if isinstance(v, Sym):
        return ("sym", v.t.get_id(), v.t)
    if isinstance(v, (int, str, float, bool, type(None), bytes)):
        return ("const", v)
    return ("id", id(v))


def _same(a, b):
    if a == b:
        return True
    if a[0] == "sym" and b[0] == "sym":
        return z3.eq(a[2], b[2])
    return False


class LoopRT:
    """Runtime of one cut loop: entry check, havoc, one arbitrary iteration."""

    def __init__(self, spec, where, world, src=None, has_src=False):
        self.spec, self.where, self.world = spec, where, world
        self.src = src
        self.has_src = has_src
        self.i = z3.IntVal(0)
        self.n = int_term(sym_len(src)) if has_src else None
        self.old = Old()
        self.visits = 0
        self.frame_attrs = set()
        self.frame_ids = set()
        self._v0 = None

    def done(self, name):
        """Measure `name` over the elements consumed so far."""
        s = self.src
        if not isinstance(s, SymList):
            raise Unsupported("done() needs a measured sequence")
        cuts = ctx().ghost.setdefault(("cuts", s._key()), [])
        return SymInt(s._prefix_measures(z3.simplify(self.i), cuts)[name])

    def _check(self, loc, when):
        sess = ctx().session
        for label, f in self.spec.inv(Locals(loc, self)):
            sess.prove(f"{self.where}: invariant '{label}' {when}", f)

    def entry(self, loc):
        if self.spec.init:
            self.spec.init(Locals(loc, self), self.old)
        self._check(loc, "on entry")
        if self.has_src and isinstance(self.src, SymList):
            self.src = self.src.snapshot()

    def havoc(self, names, mutated, values, loc):
        c = ctx()
        mutated = set(mutated)
        L = Locals(loc, self)
        out = []
        if self.has_src:
            self.i = c.fresh(z3.IntSort(), "iter")
            c.add(z3.And(self.i >= 0, self.i <= self.n))
        # heap first, so that types given as callables can look at it
        for ent in self.spec.havoc(L):
            if ent[0] == "attr":
                _, obj, name, t = ent
                v = t.fresh(name) if isinstance(t, T) else t(getattr(obj, name, None))
                object.__setattr__(obj, name, v)
                self.frame_attrs.add((id(obj), name))
            elif ent[0] == "list":
                ent[1].havoc("hl")
                self.frame_ids.add(id(ent[1]))
            elif ent[0] == "map":
                ent[1].havoc()
                self.frame_attrs.update((id(ent[1]), k) for k in obj_fields(ent[1]))
            elif ent[0] == "any":
                self.frame_ids.add(id(ent[1]))
        for n, v in zip(names, values):
            t = self.spec.types.get(n)
            if n in mutated and isinstance(v, SymList):
                # changed in place: keep the identity, forget the contents
                if id(v) not in self.frame_ids:
                    v.havoc(n)
                    self.frame_ids.add(id(v))
                out.append(v)
                continue
            if n in mutated and t is None and not _native_mutable(v):
                out.append(v)
                continue
            if n in mutated and _native_mutable(v):
                self._not_aliased(n, v, loc)
            if t is None:
                out.append(self._auto(n, v))
            elif isinstance(t, T):
                out.append(t.fresh(n))
            else:
                x = t(v)
                out.append(Undefined(n) if x is None else None if x is NONE else x)    # a don't-care may not be looked at
            if out[-1] is not v and getattr(type(out[-1]), "__pyvc_heap__", False):
                # an object made by the sidecar for this loop: its own state is in the frame
                x = out[-1]
                for k, y in obj_fields(x).items():
                    self.frame_attrs.add((id(x), k))
                    if isinstance(y, SymList):
                        self.frame_ids.add(id(y))
                self._keep_out = getattr(self, "_keep_out", []) + [x]
            if out[-1] is not v and (isinstance(out[-1], SymList) or _native_mutable(out[-1])):
                # a container made by the sidecar for this loop, and what it directly holds
                mine = [out[-1]]
                if isinstance(out[-1], (list, dict)):
                    vals = out[-1].values() if isinstance(out[-1], dict) else out[-1]
                    old = [id(y) for y in (v.values() if isinstance(v, dict) else v if isinstance(v, list) else ())]
                    mine += [x for x in vals if (isinstance(x, SymList) or _native_mutable(x)) and id(x) not in old]
                self.frame_ids.update(id(x) for x in mine)
                self._keep_out = getattr(self, "_keep_out", []) + mine
        return out

    def _not_aliased(self, n, v, loc):
        """A native container replaced by a symbolic one may have no second name."""
        others = [x for k, x in loc.items() if k != n]
        if any(x is v for x in others):
            raise Unsupported(f"{self.where}: the list {n!r} has two names")
        snap, _ = heap_snapshot(others, self.world.repo_module_names)
        if id(v) in snap:
            raise Unsupported(f"{self.where}: the list {n!r} is also stored elsewhere")

    def _auto(self, n, v):
        if isinstance(v, (bool, SymBool)):
            return BOOL.fresh(n)
        if isinstance(v, (int, SymInt)):
            return INT.fresh(n)
        if isinstance(v, (float, SymReal)):
            return REAL.fresh(n)
        if isinstance(v, SymVal):
            return SymVal(ctx().fresh(v.t.sort(), n), v.pytype)
        return Undefined(n)

    def head(self, loc):
        self.visits += 1
        c = ctx()
        if self.visits == 1:
            for _, f in self.spec.inv(Locals(loc, self)):
                c.add(to_bool_term(f))
            if self.spec.variant:
                self._v0 = _variant(self.spec.variant(Locals(loc, self)))
            self._snap, self._keep = heap_snapshot(loc.values(), self.world.repo_module_names)
            return True
        self._check(loc, "preserved")
        if self.spec.variant:
            v1 = _variant(self.spec.variant(Locals(loc, self)))
            less = z3.BoolVal(False)
            for a, b in reversed(list(zip(v1, self._v0))):   # lexicographic
                less = z3.Or(z3.And(b >= 0, a < b), z3.And(a == b, less))
            c.session.prove(f"{self.where}: variant decreases", less)
        self._frame_check()
        c.completed = True
        c.end_path()

    def _frame_check(self):
        for oid, (kind, x, old) in self._snap.items():
            if oid in self.frame_ids:
                continue
            if kind == "symlist":
                if (x.version, x.n, tuple(x.arrs), x.lo) != old and not (
                        x.version == old[0]):
                    raise Unsupported(f"{self.where}: a sequence outside the loop frame is mutated")
            elif kind == "container":
                items = (list(x) if not isinstance(x, dict)
                         else [(k, v) for k, v in x.items()])
                new = ([_ident(i) for i in items] if not isinstance(x, dict)
                       else [(_ident(k), _ident(v)) for k, v in items])
                if len(new) != len(old) or not all(
                        (_same(a, b) if not isinstance(x, dict) else
                         _same(a[0], b[0]) and _same(a[1], b[1])) for a, b in zip(new, old)):
                    raise Unsupported(f"{self.where}: a container outside the loop frame is mutated: {_brief(x)}")
            else:
                for k, v in obj_fields(x).items():
                    if (oid, k) in self.frame_attrs or k in self.spec.ignore:
                        continue
                    if k not in old or not _same(_ident(v), old[k]):
                        raise Unsupported(
                            f"{self.where}: attribute {k!r} is outside the loop frame but modified")

    # -- sequence loops ---------------------------------------------------
    def has_next(self):
        return ctx().decide(self.i < self.n)

    def next(self):
        c = ctx()
        i = self.i
        x = seq_at(self.src, i)
        self.i = z3.simplify(i + 1)
        if isinstance(self.src, SymList) and self.src.measures:
            s = self.src
            cuts = c.ghost.setdefault(("cuts", s._key()), [])
            a = s._prefix_measures(z3.simplify(i), cuts)
            b = s._prefix_measures(self.i, cuts)
            terms = s.terms_at(i)
            for m in s.measures.values():
                c.add(b[m.name] == a[m.name] + m.f(*terms))
        return x


class _Stop(Exception):
    pass


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname, loop_keys, used, spec_types=lambda k: ()):
        self.spec_types = spec_types
        self.mod = modname
        self.stack = []
        self.loop_keys = loop_keys
        self.used = used
        self.tmp = 0
        self.funcs = []

    def _qual(self):
        return ".".join(f[0] for f in self.stack)

    def visit_ClassDef(self, node):
        self.stack.append([node.name, 0])
        node.body = [self.visit(b) for b in node.body]
        node.decorator_list = [self.visit(b) for b in node.decorator_list]
        self.stack.pop()
        return node

    def _visit_func(self, node):
        self.stack.append([node.name, 0])
        self.stack[-1].append(align(BASELINE.get(f"{self.mod}:{self._qual()}"), loop_headers(node)))
        self.funcs.append(node)
        node.body = self._stmts(node.body)
        self.funcs.pop()
        self.stack.pop()
        # defaults / decorators evaluate outside
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        return node

    visit_FunctionDef = _visit_func
    visit_AsyncFunctionDef = _visit_func

    def _stmts(self, body):
        out = []
        for b in body:
            r = self.visit(b)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    def visit_If(self, node):
        node.test = self.visit(node.test)
        node.body = self._stmts(node.body)
        node.orelse = self._stmts(node.orelse)
        return node

    def visit_With(self, node):
        node.items = [self.visit(i) for i in node.items]
        node.body = self._stmts(node.body)
        return node

    def visit_Try(self, node):
        node.body = self._stmts(node.body)
        for h in node.handlers:
            h.body = self._stmts(h.body)
        node.orelse = self._stmts(node.orelse)
        node.finalbody = self._stmts(node.finalbody)
        guard = ast.ExceptHandler(
            type=ast.Name("__pyvc_ctl__", ast.Load()), name=None, body=[ast.Raise()])
        if node.handlers:
            node.handlers.insert(0, guard)
        return node

    # -- comprehensions ---------------------------------------------------
    def _comp(self, node, kind):
        walrus = any(isinstance(n, ast.NamedExpr) for n in ast.walk(node))
        if len(node.generators) != 1 or walrus or node.generators[0].is_async:
            self.generic_visit(node)
            return node
        g = node.generators[0]
        args = self._target_args(g.target)
        if args is None:
            self.generic_visit(node)
            return node
        lam_args, unpack = args

        def lam(e):
            if unpack is None:
                return ast.Lambda(args=lam_args, body=e)
            # lambda __x: (lambda a, b: e)(*__flat(__x))
            inner = ast.Lambda(args=unpack[0], body=e)
            call = ast.Call(inner, [ast.Starred(ast.Call(
                ast.Name("__pyvc_unpack__", ast.Load()),
                [ast.Name("__x", ast.Load()), ast.Constant(unpack[1])], []), ast.Load())], [])
            return ast.Lambda(args=lam_args, body=call)
        if kind == "dict":
            elt = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load())
        else:
            elt = self.visit(node.elt)
        conds = [self.visit(c) for c in g.ifs]
        cond = ast.Constant(None)
        if conds:
            cond = lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
        # the source is evaluated eagerly in the enclosing scope, as Python does
        return ast.Call(ast.Name("__pyvc_comp__", ast.Load()),
                        [ast.Constant(kind), lam(elt), self.visit(g.iter), cond], [])

    def _target_args(self, t):
        def mk(names):
            return ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], vararg=None,
                                 kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        if isinstance(t, ast.Name):
            return mk([t.id]), None
        if isinstance(t, (ast.Tuple, ast.List)):
            names, shape = [], []

            def flat(x):
                if isinstance(x, ast.Name):
                    n = x.id
                    if n in names:
                        n = f"__dup{len(names)}"
                    names.append(n)
                    return "n"
                if isinstance(x, (ast.Tuple, ast.List)):
                    return "(" + "".join(flat(y) for y in x.elts) + ")"
                raise _Stop()
            try:
                sh = flat(t)
            except _Stop:
                return None
            return mk(["__x"]), (mk(names), sh)
        return None

    def visit_ListComp(self, node):
        return self._comp(node, "list")

    def visit_SetComp(self, node):
        return self._comp(node, "set")

    def visit_GeneratorExp(self, node):
        return self._comp(node, "gen")

    def visit_DictComp(self, node):
        return self._comp(node, "dict")

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            where = node.comparators[0]
            if isinstance(where, ast.Set):      # membership in a display needs no hashing
                where = ast.Tuple(where.elts, ast.Load())
            call = ast.Call(ast.Name("__pyvc_in__", ast.Load()), [node.left, where], [])
            if isinstance(node.ops[0], ast.NotIn):
                return ast.UnaryOp(ast.Not(), call)
            return call
        return node

    def visit_Call(self, node):
        if (isinstance(node.func, ast.Name) and node.func.id in ("any", "all") and len(node.args) == 1
                and isinstance(node.args[0], ast.GeneratorExp) and len(node.args[0].generators) > 1):
            # any(E for a in A for b in B) is any(any(E for b in B) for a in A)
            g = node.args[0]
            inner = ast.Call(ast.Name(node.func.id, ast.Load()), [ast.GeneratorExp(g.elt, g.generators[1:])], [])
            node.args[0] = ast.GeneratorExp(inner, g.generators[:1])
        self.generic_visit(node)
        if (isinstance(node.func, ast.Attribute) and node.func.attr == "join"
                and len(node.args) == 1 and not node.keywords):
            return ast.Call(ast.Name("__pyvc_join__", ast.Load()), [node.func.value, node.args[0]], [])
        return node

    # -- loops --------------------------------------------------------------
    def _assigned(self, stmts):
        names = set()

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_FunctionDef(s, n):
                names.add(n.name)

            def visit_ExceptHandler(s, n):
                if n.name:
                    names.add(n.name)
                s.generic_visit(n)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                for w in ast.walk(n):
                    if isinstance(w, ast.NamedExpr):
                        names.add(w.target.id)
            visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp

            def visit_Import(s, n):
                for a in n.names:
                    names.add((a.asname or a.name).split(".")[0])
            visit_ImportFrom = visit_Import
        for st in stmts:
            V().visit(st)
        return sorted(names)

    def _mutated_lists(self, stmts):
        """Names of locals on which a mutating list method / subscript store is used."""
        names = set()

        def root(x):
            while isinstance(x, ast.Subscript):
                x = x.value
            return x
        for st in stmts:
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                        root(n.func.value), ast.Name) and n.func.attr in {
                            "append", "extend", "pop", "popleft", "appendleft", "clear", "insert",
                            "remove", "add", "discard", "update", "setdefault"}:
                    names.add(root(n.func.value).id)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(
                        root(n.value), ast.Name):
                    names.add(root(n.value).id)
        return names

    @staticmethod
    def _bound(fn):
        """(names local to the function, names it declares nonlocal/global)."""
        a = fn.args
        local = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        outer = set()

        def go(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.Nonlocal, ast.Global)):
                    outer.update(c.names)
                elif isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    local.add(c.id)
                elif isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    local.add(c.name)
                    continue
                elif isinstance(c, ast.ExceptHandler) and c.name:
                    local.add(c.name)
                elif isinstance(c, (ast.Import, ast.ImportFrom)):
                    local.update((x.asname or x.name).split(".")[0] for x in c.names)
                elif isinstance(c, ast.Lambda):
                    continue
                go(c)
        go(fn)
        return local - outer, outer

    def _scoped(self, names, node):
        """Names the loop rebinds: cells changed by nested functions count, names of an outer scope are left to the heap frame."""
        if not self.funcs:
            return names
        fn = self.funcs[-1]
        nested = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not fn]
        calls = any(isinstance(n, ast.Call) for n in ast.walk(node))
        if calls:
            local, _ = self._bound(fn)
            for f in nested:
                names |= self._bound(f)[1] & local
        if len(self.funcs) > 1:
            local, outer = self._bound(fn)
            siblings = {n.name for f in self.funcs[:-1] for n in ast.walk(f)
                        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and self._bound(n)[1]}
            if any(isinstance(n, ast.Name) and n.id in siblings - {fn.name} for n in ast.walk(node)):
                raise Unsupported(f"{self.mod}:{self._qual()}: a loop of a nested function calls another one that rebinds shared names")
            names = {n for n in names if n in local or n in outer}
        return names

    def _loop(self, node):
        frame = next((f for f in reversed(self.stack)), None)
        qual = self._qual()
        key = None
        if frame is not None:
            idx = frame[1]
            frame[1] += 1
            if len(frame) > 2 and frame[2] is not None:
                idx = frame[2][idx]
            key = f"{self.mod}:{qual}#{idx}"
        is_for = isinstance(node, ast.For)
        spec = self.loop_keys(self.mod, qual, idx, node) if frame is not None and idx is not None else None
        orig_body = node.body
        assigned = self._assigned(node.body + ([ast.Assign([node.target], node.iter)] if is_for else [node]))
        if not is_for:
            assigned = self._assigned(node.body + [ast.Expr(node.test)])
        mutated = self._mutated_lists(orig_body)
        if self.funcs:          # module globals are not the loop's to rebind
            mutated &= set().union(*[self._bound(f)[0] for f in self.funcs])
        # an iterator advanced by next() is a local the loop changes
        assigned = set(assigned) | {n.args[0].id for st in orig_body for n in ast.walk(st) if isinstance(n, ast.Call) and isinstance(
            n.func, ast.Name) and n.func.id == "next" and n.args and isinstance(n.args[0], ast.Name)}
        if spec is None:
            if is_for:
                node.iter = self.visit(node.iter)
                node.target = self.visit(node.target)
            else:
                node.test = self.visit(node.test)
            node.body = self._stmts(node.body)
            node.orelse = self._stmts(node.orelse)
            return node
        self.used.add(spec)
        # locals the specification replaces although the loop only passes them on (containers changed by a callee)
        loaded = {n.id for st in [node] for n in ast.walk(st) if isinstance(n, ast.Name)}
        known = set().union(*[self._bound(f)[0] for f in self.funcs]) if self.funcs else set()
        mutated = mutated | (set(self.spec_types(spec)) & loaded & known)
        names = sorted(self._scoped(set(assigned) | mutated, node))
        mutated = mutated & set(names)
        self.tmp += 1
        L = f"__pyvc_L{self.tmp}"

        def name(n, c=None):
            return ast.Name(n, c or ast.Load())

        def call(attr, *args):
            return ast.Call(ast.Attribute(name(L), attr, ast.Load()), list(args), [])
        loc = ast.Call(name("locals"), [], [])
        pre = []
        src = self.visit(node.iter) if is_for else ast.Constant(None)
        pre.append(ast.Assign([name(L, ast.Store())], ast.Call(
            name("__pyvc_loop__"), [ast.Constant(key), ast.Constant(spec), src,
                                    ast.Constant(is_for)], [])))
        pre.append(ast.Expr(call("entry", loc)))
        if names:
            # values of names that may be unbound: look them up in locals()
            hv = call("havoc", ast.Constant(tuple(names)), ast.Constant(tuple(sorted(mutated - set(assigned)))),
                      ast.Call(name("__pyvc_pick__"), [ast.Constant(tuple(names)), loc], []), loc)
            pre.append(ast.Assign(
                [ast.Tuple([name(n, ast.Store()) for n in names], ast.Store())], hv))
        else:
            pre.append(ast.Expr(call("havoc", ast.Constant(()), ast.Constant(()), ast.Constant(()), loc)))
        body = self._stmts(node.body)
        if is_for:
            test = ast.BoolOp(ast.And(), [call("head", loc), call("has_next")])
            body = [ast.Assign([self.visit(node.target)], call("next"))] + body
        else:
            test = ast.BoolOp(ast.And(), [call("head", loc), self.visit(node.test)])
        loop = ast.While(test=test, body=body, orelse=self._stmts(node.orelse))
        return pre + [loop]

    visit_For = _loop
    visit_While = _loop


def _unpack(x, shape):
    out = []

    def go(v, s, i):
        if s[i] == "n":
            out.append(v)
            return i + 1
        i += 1
        it = list(v)
        j = 0
        while s[i] != ")":
            i = go(it[j], s, i)
            j += 1
        if j != len(it):
            raise ValueError("unpack mismatch")
        return i + 1
    go(x, shape, 0)
    return out


class World:
    """One instrumented copy of the repository's modules."""

    def __init__(self, loops=None, repo=None, stubs=None, instrument=None):
        self.repo = repo or REPO
        self.loops = loops or {}
        self.used = set()
        self.modules = {}
        self.stub_modules = dict(stubs or {})
        self.instrument = instrument  # None: every repository module
        self.repo_module_names = set()
        self.sources = {}
        self.seen_loops = {}

    def _loop_key(self, mod, qual, idx, node):
        k = f"{mod}:{qual}#{idx}"
        self.seen_loops.setdefault(f"{mod}:{qual}", []).append(
            ast.unparse(node).splitlines()[0])
        return k if k in self.loops else None

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py"), True
        if os.path.exists(p + ".py"):
            return p + ".py", False
        if os.path.isdir(p) and any(f.endswith((".py", ".so")) for f in os.listdir(p)):
            return None, True
        return None, None

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stub_modules:
            m = self.stub_modules[name]
            self.modules[name] = m
            return m
        path, pkg = self.path(name)
        if path is None:
            m = types.ModuleType("pyvc_ns_" + name)
            self.modules[name] = m
            return m
        src = open(path, encoding="utf-8").read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        rw = Rewriter(name, self._loop_key, self.used, lambda k: self.loops[k].types)
        stores = self_stores(tree)
        tree.body = rw._stmts(tree.body)
        ast.fix_missing_locations(tree)
        m = types.ModuleType("pyvc_" + name)
        m.__file__ = path
        m.__package__ = "pyvc_" + (name if pkg else name.rpartition(".")[0])
        self.repo_module_names.add(m.__name__)
        sys.modules[m.__name__] = m
        self.modules[name] = m
        d = m.__dict__
        b = dict(builtins.__dict__)
        b["__import__"] = self._importer(name, pkg)
        d["__builtins__"] = b
        for k, v in shims.SHIMS.items():
            d[k] = v
        d["__pyvc_stores__"] = stores
        d["__pyvc_ctl__"] = (PathEnd, Unsupported)
        d["__pyvc_comp__"] = shims.s_comp
        d["__pyvc_in__"] = shims.s_in
        d["__pyvc_unpack__"] = _unpack
        d["__pyvc_join__"] = shims.s_join
        d["__pyvc_pick__"] = lambda names, loc: [loc.get(n) for n in names]
        d["__pyvc_loop__"] = self._make_loop
        exec(compile(tree, path, "exec", dont_inherit=True), d)
        if "deque" in d and getattr(d["deque"], "__module__", "") == "collections":
            d["deque"] = shims.S_deque
        return m

    def _make_loop(self, key, spec_key, src, is_for):
        spec = self.loops[spec_key]
        if is_for and not is_symseq(src):
            # a concrete source: still cut, over a view of it
            if isinstance(src, (list, tuple)):
                from .values import type_of
                # no element, no type to view them by: a loop of no step
                src = SymList.of(type_of(src[0]), src, (), type(src)) if src else SymRange(0, 0, 1)
            elif isinstance(src, range):
                src = SymRange(src.start, src.stop, src.step)
            else:
                raise Unsupported(f"{key}: cannot cut a loop over {type(src).__name__}")
        return LoopRT(spec, key, self, src, is_for)

    def _importer(self, modname, is_pkg):
        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level:
                base = modname.split(".") if is_pkg else modname.split(".")[:-1]
                if level > 1:
                    base = base[:-(level - 1)]
                full = ".".join(base + ([name] if name else []))
            else:
                full = name
            top = full.split(".")[0]
            if top in self.stub_modules or full in self.stub_modules or self.path(full)[1] is not None:
                m = self.module(full)
                if fromlist:
                    for f in fromlist:
                        if not hasattr(m, f):
                            sub = f"{full}.{f}"
                            if self.path(sub)[1] is not None or sub in self.stub_modules:
                                setattr(m, f, self.module(sub))
                    return m
                return self.module(top)
            return importlib.__import__(name, globals, locals, fromlist, level)
        return imp


def self_stores(tree):
    """Class qualname -> the attributes its methods store on self."""
    out = {}

    def go(node, qual):
        for b in ast.iter_child_nodes(node):
            if isinstance(b, ast.ClassDef):
                q = f"{qual}.{b.name}" if qual else b.name
                out[q] = {n.attr for n in ast.walk(b) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                          and isinstance(n.value, ast.Name) and n.value.id == "self"}
                go(b, q)
    go(tree, "")
    return out


def _brief(x):
    try:
        return f"{type(x).__name__} {str(x)[:120]}"
    except Exception:
        return type(x).__name__
