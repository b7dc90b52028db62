#!/opt/venv/bin/python
"""All payment properties judged on one set of scenarios (for tools/mutate.py only; not a registered check)."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.core import Ctx
from harness.engines import payment
payment.CLAUSES['C01'] = sorted(set(c for v in payment.CLAUSES.values() for c in v) | {'sent-id', 'sent-other'})
one = payment.boundary
payment.boundary = lambda ctx, prop: [s for p in ('C01', 'C02', 'C03', 'C17', 'C20', 'C24') for i, s in enumerate(one(ctx, p)) if p == 'C01' or i % 2 == 0]
ctx = Ctx('C01', 'quick', 1)
payment.run(ctx)
sys.exit(ctx.finish())
