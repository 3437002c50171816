"""Bookkeeping of the executable-contract (bounded) layer."""
import random
import sys
import time
import traceback
import types


class Stop(Exception):
    """Enough violations were found."""


class Violation(Exception):
    def __init__(self, what, /, **inputs):
        super().__init__(what)
        self.what, self.inputs = what, inputs


class Harness:
    def __init__(self, pid, tier, seed, scratch, repo):
        self.pid, self.tier, self.seed, self.scratch, self.repo = pid, tier, seed, scratch, repo
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.violations, self.counts, self.bounds, self.skipped = [], {}, {}, []
        self.t0 = time.time()
        self.quick = tier == "quick"

    def scale(self, quick, thorough=None):
        return quick if self.quick else (thorough if thorough is not None else quick * 10)

    def bound(self, name, text):
        self.bounds[name] = text

    def violation(self, key, what, /, **inputs):
        if any(v["key"] == key for v in self.violations):
            return
        self.violations.append({"key": key, "what": what,
                                "input": {k: _show(v) for k, v in inputs.items()}})
        if len(self.violations) >= 8:
            raise Stop()

    def case(self, name, fn, /, **inputs):
        """One execution of an executable contract; fn raises Violation / AssertionError."""
        self.counts[name] = self.counts.get(name, 0) + 1
        try:
            fn()
            return True
        except (Stop, KeyboardInterrupt):
            raise
        except Violation as e:
            self.violation(f"{name}:{e.what}"[:80], f"{name}: {e.what}", **{**inputs, **e.inputs})
        except Exception as e:
            if _incomplete(e):
                self.skipped.append(f"{name}: the code now asks a stand-in for {e}"[:300])
                return True
            # raised by the code under test on a valid input, or a harness gap?
            tb = traceback.extract_tb(sys.exc_info()[2])
            in_repo = [f for f in tb if f.filename.startswith(self.repo)]
            last_harness = max([i for i, f in enumerate(tb) if "/bounded/" in f.filename], default=-1)
            if isinstance(e, AssertionError) and tb and "/bounded/" in tb[-1].filename:
                self.violation(f"{name}:{e}"[:80], f"{name}: {e}", **inputs)
            elif in_repo and tb.index(in_repo[-1]) > last_harness:
                self.violation(f"{name}:raised {type(e).__name__}", f"{name}: the code raised "
                               f"{type(e).__name__}: {e} on a valid input",
                               trace=traceback.format_exc()[-2000:], **inputs)
            else:
                raise
        return False


def partial(obj):
    """Marks an object built without its constructor: it has only the attributes the harness gave it."""
    obj._vp_partial = True
    return obj


def _incomplete(e):
    """Did changed code ask one of the harness's own stand-ins for an attribute it does not have? Then the case says nothing about the code."""
    for _ in range(5):
        if isinstance(e, AttributeError):
            o = getattr(e, "obj", None)
            return (getattr(o, "__dict__", {}).get("_vp_partial", False) is True or isinstance(o, types.SimpleNamespace)
                    or (type(o) is not object and o is not None and not isinstance(o, type)
                        and all(c.__module__.startswith("bounded") for c in type(o).__mro__ if c is not object)))
        e = e.__cause__
        if e is None:
            return False
    return False


def _show(v):
    r = repr(v)
    return r if len(r) < 3000 else r[:3000] + "..."


def require(cond, what, /, **inputs):
    if not cond:
        raise Violation(what, **inputs)
