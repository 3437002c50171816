"""pyvc: a small deductive verifier for Python.

The functions under contract are taken from the working tree on every run,
their AST is mechanically instrumented (loops that carry an invariant become
cut points, a few builtins become symbolic-aware) and the instrumented code is
executed by CPython itself over symbolic values.  Every feasible path up to the
cut points is enumerated, and each contract clause / invariant becomes an
obligation `path condition => clause`, discharged by z3 (cvc5 as second opinion).
"""
