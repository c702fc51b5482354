"""Shared by the checks of whole runs: Runs.tla, RunsMC.tla, RunsTrace.tla."""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB, qdng
from vlib.runs import Runner
from vlib.rungen import Gen, MIXES

TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


MC = """SPECIFICATION Spec
CONSTANTS MaxRuns = %d
 Mix = "%s"
 Full = %s
INVARIANTS Marks %s
CHECK_DEADLOCK FALSE
"""


def run(ctx, quick, thorough, mix, depth, seen, invariants):
    def mc():
        ctx.model_check("RunsMC", MC % (ctx.scale(*depth), mix, ctx.scale("FALSE", "TRUE" if mix == "filters" else "FALSE"), invariants),
                        workers=4, timeout=800, seen=seen.split())
    with ThreadPoolExecutor(2) as ex:
        job = ex.submit(mc)
        b = Builder("o0")
        exe, wfio = qdng(b), b.program("wfio", ["wfio.cpp"], LIB)
        job.result()
    r = Runner(ctx, exe, wfio)
    n = ctx.scale(quick, thorough)
    seeds = [ctx.rng.getrandbits(60) for _ in range(n)]
    plans = []
    for x in seeds:
        rng = random.Random(x)
        plans.append(Gen(rng, MIXES[ctx.prop]).session(rng.choice([3, 5, 8])))

    def rec(i):
        return r.record(plans[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("RunsTrace", sessions, rec, lambda i: {"driver": "runs", "plan": plans[i]}, cfg=TRACE)
    ctx.assumptions = ["level systems whose evolution over a step of pi/2 is exact in integers, compared within 1e-3",
                       "values beyond 200 are followed but not compared"]
