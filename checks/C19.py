"""C19 the logger: Log.tla, LogMC.tla, LogTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB

MC = """SPECIFICATION Spec
CONSTANT MaxOps = %d
INVARIANTS Exactly Indented Selected
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def script(rng, n):
    out = []

    def text(m=6):
        return "".join(rng.choice("abcdefgh") if rng.random() < 0.75 else "/" for _ in range(rng.randint(1, m)))
    for _ in range(n):
        x = rng.random()
        if x < 0.42:
            out.append("write %d %s %d" % (rng.random() < 0.35, text(), rng.random() < 0.5))
        elif x < 0.46:
            out.append("touch %d" % (rng.random() < 0.5))
        elif x < 0.53:
            w = rng.choice([3, 4, 8, 9, 30]) if rng.random() < 0.9 else 100
            out.append("header %s %s %d" % (rng.choice(["chapter", "section", "sub"]), "".join(rng.choice("ABC") for _ in range(w)), rng.random() < 0.5))
        elif x < 0.63:
            out.append("flush")
        elif x < 0.66:
            out.append("indent %d" % rng.choice([0, 1, 2, 3, -1]))
        elif x < 0.71:
            out.append("inc")
        elif x < 0.76:
            out.append("dec")
        elif x < 0.81:
            out.append("debug %d" % (rng.random() < 0.6))
        elif x < 0.84:
            out.append("quiet %d" % (rng.random() < 0.4))
        elif x < 0.86:
            out.append("width %d" % rng.choice([10, 20, 31, 80]))
        elif x < 0.91:
            out.append("file %s" % rng.choice(["f1", "f1", "f2", "missing"]))
        elif x < 0.935:
            out.append("close")
        elif x < 0.955:
            out.append("console")
        elif x < 0.985:
            out.append("redirect %s" % rng.choice(["r1", "r2", "con"]))
        else:
            out.append("restart")
    out.append("flush")
    return out


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "LogMC", MC % ctx.scale(4, 5), workers=6, timeout=800)
        exe = Builder("o0").program("logger", ["logger.cpp"], LIB)
        mc.result()
    n = ctx.scale(1500, 15000)
    scripts = [script(ctx.rng, ctx.rng.choice([10, 20, 40])) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("LogTrace", sessions, rec, lambda i: {"driver": "logger", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["indentation inside a line that is continued and on blank lines is left open", "one thread writes"]
