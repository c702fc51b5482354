"""C06 simulation clock: QDClock.tla, QDClockMC.tla, QDClockTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder

MC = """SPECIFICATION Spec
CONSTANTS Dts = {0, 1, 2}
 Ns = {%s}
 Bound = %d
INVARIANT Reversible
PROPERTIES SyncAgrees OneAtATime
CONSTRAINT Small
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def script(rng):
    unit = rng.choice(["1", "0.1", "0.01", "0.3", "0.7", "2.5", "1e-3", "0.024188", "41.341", "3.3333333333"])
    lines = ["open " + unit]
    have, nxt = [], 1
    for _ in range(rng.randint(15, 60)):
        x = rng.random()
        i = rng.choice(have) if have else 1
        j = rng.choice(have) if have else 1
        if x < 0.10 or not have:
            k = rng.random()
            if k < 0.6:
                lines.append("new %d %d %d" % (nxt, rng.choice([0, 1, 5, 100, 5000]), rng.choice([1, 1, 1, 2, 3, 5, 10, 0, -1, -2])))
            elif k < 0.7:
                lines.append("new0 %d" % nxt)
            elif have:
                lines.append("copy %d %d" % (nxt, rng.choice(have)))
            else:
                continue
            have.append(nxt)
            nxt += 1
        elif x < 0.17:
            lines.append("global")
            if 0 not in have:
                have.append(0)
        elif x < 0.19:
            lines.append("destroy")
            if 0 in have:
                have.remove(0)
        elif x < 0.25:
            lines.append("dt %d %d" % (i, rng.choice([1, 1, 2, 3, 7, 10, -1, 0])))
        elif x < 0.30:
            lines.append("steps %d %d" % (i, rng.choice([0, 1, 7, 1000, 20000])))
        elif x < 0.42:
            lines.append("step %d %d" % (i, rng.choice([0, 1, 3, 6, 7, 12, 99, 1001, 4999, 20000, -1, -3])))
        elif x < 0.46:
            lines.append("begin %d" % i)
        elif x < 0.52:
            lines.append("end %d" % i)
        elif x < 0.66:
            lines += ["inc %d" % i] * rng.choice([1, 1, 1, 3, 7])
        elif x < 0.74:
            lines += ["dec %d" % i] * rng.choice([1, 1, 2])
        elif x < 0.82:
            lines.append("assign %d %d" % (i, j))
        else:
            lines.append("sync %d %d" % (i, j))
    return lines


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "QDClockMC", MC % (("3", 2) if ctx.quick else ("1, 3", 4)), workers=4, timeout=800)
        exe = Builder("o0").program("qdclock", ["qdclock.cpp"], ["tools"])
        mc.result()
    n = ctx.scale(400, 5000)
    scripts = [script(ctx.rng) for _ in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("QDClockTrace", sessions, rec, lambda i: {"driver": "qdclock", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["step numbers and time steps are in the range where a double holds step*dt to 1e-12"]
