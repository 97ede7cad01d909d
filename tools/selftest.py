"""setup_cmd: the executor can be imported, z3 answers, and the proxies agree with Python on a few operations."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import core

st = core.Stats()
core.CTX = ctx = core.SymCtx([], st)
x = core.SymInt(ctx.new("x", "int", "int", -50, 50))
for d in (7, -7):
    ctx.check(((x // d) * d + x % d) == x, "divmod")
    ctx.check(abs(x % d) < abs(d), "mod-range")
ctx.check((x + 1) > x, "order")
ctx.finish_model()
assert not ctx.violations and st.queries > 0, ctx.violations
core.CTX = None
print("symbolic executor ready (%d queries)" % st.queries)
