"""symx: solver-based checking of the real highway_env code.

The real functions of /repo are executed natively by CPython on symbolic values (z3 terms kept in a polynomial
normal form); every data dependent branch forks the execution, every assertion of a harness becomes an SMT query.
"""
