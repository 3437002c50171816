"""Shared pieces of the specifications."""
import sys
from pyvc.engine import Session


def main(prove):
    S = Session()
    only = sys.argv[1:]
    prove(S)
    for f, d in S.functions.items():
        print(f, d)
    for o in S.failed:
        print("FAILED", o.func, "|", o.label, o.status, o.backend, {k: v for k, v in (o.model or {}).items() if k != "__raw__"})
    for p in S.problems:
        print("PROBLEM", *p)
    print(f"obligations {len(S.obligations)} failed {len(S.failed)} problems {len(S.problems)} "
          f"solver {S.solver_time:.1f}s branch {S.branch_time:.1f}s/{S.branch_queries}")
    for o in sorted(S.obligations, key=lambda o: -o.seconds)[:5]:
        if o.seconds > 1:
            print("  slow", round(o.seconds, 2), o.func, o.label, o.backend)


def trainer_world(loops=None):
    """A world in which trainer.base loads without building the data and model packages (their names are dummies)."""
    import types
    from pyvc.load import World

    class Dummy(types.ModuleType):
        def __getattr__(self, k):
            if k.startswith("__"):
                raise AttributeError(k)
            return type(k, (), {})
    stubs = {n: Dummy(n) for n in ("dataset", "model", "model.vq", "trainer.profiler", "utils.cuda_utils", "utils.compile_utils")}
    return World(loops=loops or {}, stubs=stubs)
