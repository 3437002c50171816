"""Path enumeration, obligations and the solver interface."""
import itertools
import subprocess
import tempfile
import time
import os

import z3

CVC5 = "/opt/veriftools/bin/cvc5"


class PathEnd(BaseException):
    """The current path is finished (loop back edge, infeasible, or dead)."""


class Unsupported(Exception):
    """The code left the fragment the verifier decides."""


class Ctx:
    current = None

    def __init__(self, session, prefix, nested=None):
        self.session = session
        self.prefix = prefix
        self.trace = []
        self.pos = 0
        self.pending = []
        self.solver = z3.Solver()
        self.solver.set("timeout", session.branch_timeout_ms)
        # infeasibility is looked for without the quantified facts first; a path
        # that is not shown infeasible is explored, which is always sound
        self.full = z3.Solver()
        self.full.set("timeout", session.deep_branch_timeout_ms)
        self.quantified = False
        self.pc = []
        self.counter = itertools.count()
        self.dead = False
        self.ghost = {}
        self.inputs = {}
        self.completed = False
        self.binders = []
        self.branch_pc = []
        self.facts = []

    # -- names -----------------------------------------------------------
    def fresh(self, sort, hint="v"):
        name = f"{hint}!{next(self.counter)}"
        if self.binders:
            # below a quantifier a fresh constant depends on the bound variables
            f = z3.Function(name, *[b.sort() for b in self.binders], sort)
            return f(*self.binders)
        return z3.Const(name, sort)

    # -- path condition --------------------------------------------------
    def add(self, term, _branch=False):
        if term is True:
            return
        if term is False:
            term = z3.BoolVal(False)
        self.pc.append(term)
        if has_quantifier(term):
            self.quantified = True
        else:
            self.solver.add(term)
        self.full.add(term)
        if self.binders:
            if _branch:
                self.branch_pc.append(term)
            else:
                self.facts.append((list(self.branch_pc), term))

    def feasible(self, term=None):
        t0 = time.time()
        if term is None:
            r = self.solver.check()
        else:
            r = self.solver.check(term)
        if r != z3.unsat and self.quantified and self.session.deep_branch_timeout_ms:
            r = self.full.check(*([] if term is None else [term]))
        self.session.branch_time += time.time() - t0
        self.session.branch_queries += 1
        return r != z3.unsat

    def decide(self, term):
        term = z3.simplify(term)
        if z3.is_true(term):
            return True
        if z3.is_false(term):
            return False
        if self.dead:
            raise PathEnd()
        if self.pos < len(self.prefix):
            choice = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(choice)
            self.add(term if choice else z3.Not(term), True)
            return choice
        if time.time() > self.session.deadline:
            raise Unsupported("path exploration budget exhausted (time)")
        can_t = self.feasible(term)
        can_f = self.feasible(z3.Not(term)) if can_t else True
        if can_t and can_f:
            self.pending.append(self.trace + [False])
            choice = True
        else:
            choice = can_t
        self.pos += 1
        self.trace.append(choice)
        if len(self.trace) > self.session.max_decisions:
            raise Unsupported("path too long: a loop without a usable invariant?")
        self.add(term if choice else z3.Not(term), True)
        return choice

    def end_path(self):
        self.dead = True
        raise PathEnd()


def has_quantifier(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def ctx():
    c = Ctx.current
    if c is None:
        raise RuntimeError("no active verification context")
    return c


class Obligation:
    __slots__ = ("func", "label", "status", "seconds", "backend", "model", "path", "smt")

    def __init__(self, func, label):
        self.func = func
        self.label = label
        self.status = None
        self.seconds = 0.0
        self.backend = ""
        self.model = None
        self.path = None
        self.smt = None


class Session:
    """Collects the obligations of one property."""

    def __init__(self, timeout_ms=20000, branch_timeout_ms=3000, deep_branch_timeout_ms=100, func_budget_s=180,
                 max_paths=4000, max_decisions=600, crosscheck=False):
        self.timeout_ms = timeout_ms
        self.branch_timeout_ms = branch_timeout_ms
        self.deep_branch_timeout_ms = deep_branch_timeout_ms
        self.func_budget_s = func_budget_s
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.obligations = []
        self.functions = {}
        self.assumed = []
        self.problems = []
        self.branch_time = 0.0
        self.branch_queries = 0
        self.solver_time = 0.0
        self.deadline = float("inf")
        self.crosscheck = crosscheck
        self.crosschecked = 0

    def assume_note(self, text):
        if text not in self.assumed:
            self.assumed.append(text)

    # -- proving ---------------------------------------------------------
    def prove(self, label, formula):
        c = ctx()
        if c.dead:
            return True
        from .values import to_bool_term
        term = to_bool_term(formula)
        ob = Obligation(self.cur, label)
        ob.path = list(c.trace)
        t0 = time.time()
        simp = z3.simplify(term)
        if z3.is_true(simp):
            ob.status, ob.backend = "proved", "simplifier"
        else:
            s = z3.Solver()
            nfail = sum(o.status != "proved" for o in self.obligations)
            budget = self.timeout_ms if nfail < 3 else min(self.timeout_ms, 4000)
            # short z3 attempt, then cvc5, then z3 with the full budget
            s.set("timeout", min(budget, 4000))
            for a in c.pc:
                s.add(a)
            s.add(z3.Not(term))
            r = s.check()
            first = None
            if r == z3.unknown:
                first = run_cvc5(s.to_smt2(), budget / 1000.0)
                if first not in ("sat", "unsat") and budget > 4000:
                    s.set("timeout", budget)
                    r = s.check()
            ob.backend = "z3"
            if r == z3.unsat:
                ob.status = "proved"
                if self.crosscheck:
                    if run_cvc5(s.to_smt2(), 20) == "sat":
                        ob.status = "unknown"
                        ob.backend = "z3/cvc5 disagree"
                    self.crosschecked += 1
            elif r == z3.sat:
                ob.status = "refuted"
                m = s.model()
                ob.model = {n: str(m.eval(t, model_completion=True)) for n, t in c.inputs.items()}
                ob.model["__raw__"] = str(m)[:4000]
            else:
                got = first
                if got == "unsat":
                    ob.status, ob.backend = "proved", "cvc5"
                elif got == "sat":
                    ob.status, ob.backend = "refuted", "cvc5"
                else:
                    ob.status = "unknown"
                    ob.smt = s.to_smt2()[:20000]
        ob.seconds = time.time() - t0
        self.solver_time += ob.seconds
        self.obligations.append(ob)
        if ob.status == "proved":
            c.add(term)
        return ob.status == "proved"

    # -- exploring -------------------------------------------------------
    def run(self, func, harness, min_paths=1):
        """Enumerate the paths of harness(); obligations are filed under func."""
        self.cur = func
        t0 = time.time()
        self.deadline = t0 + self.func_budget_s
        work = [[]]
        npaths = completed = 0
        n_before = len(self.obligations)
        error = None
        while work:
            prefix = work.pop()
            npaths += 1
            if npaths > self.max_paths:
                error = "path budget exhausted"
                break
            c = Ctx(self, prefix)
            Ctx.current = c
            try:
                harness()
                if not c.dead:
                    completed += 1
            except PathEnd:
                completed += 1 if c.completed else 0
            except Unsupported as e:
                error = f"unsupported: {e}"
            except RecursionError as e:
                error = f"recursion limit: {e}"
            except Exception as e:  # the harness lets no exception escape
                import traceback
                tb = traceback.format_exc(limit=-6)
                feasible = True
                try:
                    feasible = c.feasible()
                except Exception:
                    pass
                if feasible:
                    error = f"{type(e).__name__}: {e}\n{tb}"
            finally:
                Ctx.current = None
            work.extend(c.pending)
            if error:
                break
            if sum(o.status != "proved" for o in self.obligations[n_before:]) >= 3:
                break    # enough failed obligations to report
        n = len(self.obligations) - n_before
        clean = all(o.status == "proved" for o in self.obligations[n_before:])
        if not error and clean and completed < min_paths:
            error = f"vacuous: only {completed} completed path(s)"
        if not error and n == 0:
            error = "vacuous: no obligations generated"
        rec = self.functions.setdefault(
            func, {"paths": 0, "obligations": 0, "proved": 0, "seconds": 0.0})
        rec["paths"] += npaths
        rec["obligations"] += n
        rec["proved"] += sum(o.status == "proved" for o in self.obligations[n_before:])
        rec["seconds"] = round(rec["seconds"] + time.time() - t0, 3)
        if error:
            self.problems.append((func, error))
        return error is None

    @property
    def failed(self):
        return [o for o in self.obligations if o.status != "proved"]


def run_cvc5(smt2, timeout_s):
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + smt2)
            path = f.name
        try:
            exe = CVC5 if os.path.exists(CVC5) else "cvc5"
            r = subprocess.run(
                [exe, f"--tlimit={int(timeout_s * 1000)}", path],
                capture_output=True, text=True, timeout=timeout_s + 5)
            out = r.stdout.strip().splitlines()
            return out[0].strip() if out else "unknown"
        finally:
            os.unlink(path)
    except Exception:
        return "unknown"


def merged_bool(fn, binders, rng):
    """Evaluate a pure boolean function below a quantifier and merge its paths.

    Returns the merged term; definitional facts met on the way (about terms
    that depend on the bound variables) are asserted in the outer context,
    universally closed over `binders` within `rng`.
    """
    from .values import to_bool_term
    outer = ctx()
    results, facts = [], []
    work = [[]]
    while work:
        c = _nested(outer, work.pop(), binders, rng)
        Ctx.current = c
        try:
            v = fn()
            results.append((list(c.branch_pc), to_bool_term(v)))
            facts.extend(c.facts)
        finally:
            Ctx.current = outer
        work.extend(c.pending)
        if len(results) > 200:
            raise Unsupported("quantifier body has too many paths")
    _assert_facts(outer, facts, binders, rng)
    return z3.Or([z3.And(list(p) + [v]) for p, v in results])


def probe(fn, binders, rng):
    """Evaluate fn() at an arbitrary point of `rng`; it may not branch."""
    outer = ctx()
    c = _nested(outer, [], binders, rng)
    Ctx.current = c
    try:
        v = fn()
    finally:
        Ctx.current = outer
    if c.pending:
        raise Unsupported("branching element expression in a symbolic comprehension")
    _assert_facts(outer, c.facts, binders, rng)
    return v


def _nested(outer, prefix, binders, rng):
    c = Ctx(outer.session, prefix)
    c.counter = outer.counter
    c.ghost = outer.ghost
    for a in outer.pc:
        c.add(a)
    c.add(rng)
    c.binders = list(outer.binders) + list(binders)
    c.branch_pc = []
    c.facts = []
    return c


def _assert_facts(outer, facts, binders, rng):
    for branch, f in facts:
        outer.add(z3.ForAll(list(binders), z3.Implies(z3.And([rng] + branch), f)))
