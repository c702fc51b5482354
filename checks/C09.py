"""C09 damaged or unsuitable files are refused: FileWF.tla, FileWFMC.tla, FileWFTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB
from checks.files import script
from checks.C08 import TRACE

MC = """SPECIFICATION Spec
CONSTANTS Names = {"a"%s}
 Cnts = {0,1}
 MaxSteps = %d
 Kinds = {"cut","gone","foreign","data","magic"}
INVARIANTS Cut Absent
CHECK_DEADLOCK FALSE
"""


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(lambda: ctx.model_check("FileWFMC", MC % (ctx.scale("", ',"b"'), ctx.scale(5, 6)), workers=5, timeout=800))
        exe = Builder("o0").program("filewf", ["filewf.cpp"], LIB)
        mc.result()
    n = ctx.scale(2500, 16000)
    scripts = [script(ctx.rng, ctx.rng.choice([20, 40, 80]), True) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("FileWFTrace", sessions, rec, lambda i: {"driver": "filewf", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["damage the format cannot reveal (a flipped bit in uncompressed content, in a parameter value) only has to leave the process sane",
                       "memory is limited to 3 GB, so a size taken from a damaged header shows as a crash or an error"]
