"""C21 eigenstate runs: Eigen.tla, EigenMC.tla, EigenTrace.tla."""
import random
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB, qdng
from vlib.runs import Runner
from vlib.eigengen import EigenGen

TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION Spec
CONSTANTS MaxRuns = %d
 Full = %s
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INVS = "Solves Orthogonal Ordered Complete Resumes Kept"


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        job = ex.submit(lambda: ctx.model_check("EigenMC", MC % (ctx.scale(2, 3), ctx.scale("FALSE", "TRUE"), INVS), workers=4, timeout=800))
        b = Builder("o0")
        exe, wfio = qdng(b), b.program("wfio", ["wfio.cpp"], LIB)
        job.result()
    r = Runner(ctx, exe, wfio)
    n = ctx.scale(500, 6000)
    seeds = [ctx.rng.getrandbits(60) for _ in range(n)]
    plans = []
    for x in seeds:
        rng = random.Random(x)
        plans.append(EigenGen(rng).session(rng.choice([3, 5, 8])))

    def rec(i):
        ev = r.record(plans[i])
        for e in ev:
            if e["e"] == "Run":
                e["p"] = e.pop("ps")[0]
                e["files"] = [f for f in e["files"] if f["f"][:1] != "S"]
                e["names"] = [f for f in e["names"] if f[:1] != "S"]
                for k in ("cfg", "tabs"):
                    e.pop(k)
        return ev
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("EigenTrace", sessions, rec, lambda i: {"driver": "eigen", "plan": plans[i]}, cfg=TRACE)
    ctx.assumptions = ["level systems with integer eigenvalues and known eigenstates; initial wave functions with a part in every state asked for",
                       "wave functions compared by overlap (0.99), energies within 0.03"]
