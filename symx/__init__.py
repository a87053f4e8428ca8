"""symx: a small symbolic-execution engine for the Python sources of /repo.

The sources are AST-instrumented at import time (instr.py), executed with
proxy values that carry z3 terms (core.py, strs.py), and every assertion of a
harness is decided by z3 over the path condition (core.Engine.check).
"""
