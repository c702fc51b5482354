"""C08 files read back what was written: FileWF.tla, FileWFMC.tla, FileWFTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB
from checks.files import script

MC = """SPECIFICATION Spec
CONSTANTS Names = {"a","b"}
 Cnts = {0,1,2}
 MaxSteps = %d
 Kinds = {"none"}
INVARIANTS Back Accepts Absent
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(lambda: ctx.model_check("FileWFMC", MC % ctx.scale(5, 6), workers=5, timeout=800))
        exe = Builder("o0").program("filewf", ["filewf.cpp"], LIB)
        mc.result()
    n = ctx.scale(1800, 12000)
    scripts = [script(ctx.rng, ctx.rng.choice([20, 40, 80]), False) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("FileWFTrace", sessions, rec, lambda i: {"driver": "filewf", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["small integer contents (exact comparison without compression, tolerance bound with it)",
                       "the members of a binary sequence share one meta file, so differently shaped members of one sequence are not compared"]
