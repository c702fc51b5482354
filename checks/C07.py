"""C07 arrays on disk: TmpFile.tla, TmpFileMC.tla, TmpFileTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB

MC = """SPECIFICATION Spec
CONSTANTS
  MaxSize = %d
  MaxToks = %d
INVARIANTS Own There Remembers
PROPERTIES Steady Apart
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Own There
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def script(rng, n):
    out, a, nid, v = [], {}, 0, 100
    gp, env = "-", "-"
    big = rng.random() < 0.3
    sizes = [0, 1, 2, 3, 5] if not big else [1, 3, 300, 1024, 1500, 4097]
    while len(out) < n:
        x = rng.random()
        if not a or (x < 0.06 and len(a) < 4):
            nid += 1
            out.append("new %d" % nid)
            a[nid] = None
            continue
        if x < 0.1:
            gp, env = rng.choice(["-", "a", "b", "missing"]), rng.choice(["-", "a", "b", "missing"])
            if gp == "missing" and rng.random() < 0.7:
                gp = "a"
            out.append("conf %s %s" % (gp, env))
            continue
        i = rng.choice(list(a))
        o = a[i]          # [size, map, pos known]
        if x < 0.17 or o is None and x < 0.5:
            m = int(rng.random() < 0.4)
            k = rng.choice(sizes)
            d = gp if gp != "-" else env if env != "-" else "cwd"
            out.append("open %d %d %d" % (i, k, m))
            a[i] = [k, m, 0 if k == 0 else None] if d != "missing" and not (m and k == 0) else None
            continue
        if o is None:
            y = rng.random()
            if y < 0.6:
                out.append(rng.choice(["flush %d", "close %d 1 0", "resize %d 3", "close %d 0 0"]) % i)
            elif y < 0.85:
                out.append(rng.choice(["seek %d 0", "read %d 1", "write %d 5"]) % i)
            else:
                out.append("destroy %d" % i)
                del a[i]
            continue
        limited = rng.random() < 0.06
        if x < 0.27:
            k = rng.choice(sizes + [max(0, o[0] - 1), o[0] + 1, o[0]])
            if o[1] and not k:
                k = 1
            if limited:
                out.append("limit %d" % (rng.randint(0, k + 1) * 8))
                out.append("resize %d %d" % (i, k))
                out.append("destroy %d" % i)
                del a[i]
                continue
            out.append("resize %d %d" % (i, k))
            o[0] = k
        elif x < 0.31:
            out.append("close %d %s" % (i, rng.choice(["1 0", "1 1", "0 0"])))
            a[i] = None
        elif x < 0.33:
            out.append("destroy %d" % i)
            del a[i]
        elif x < 0.36:
            out.append("flush %d" % i)
        elif x < 0.5:
            p = rng.randint(0, o[0] + (0 if o[1] else 2))
            out.append("seek %d %d" % (i, p))
            o[2] = p
        elif x < 0.68 and o[2] is not None:
            k = rng.randint(0, min(8, max(0, o[0] - o[2])))
            if k == 0 and o[2] > o[0]:
                continue
            if rng.random() < 0.05:
                k = max(0, o[0] - o[2]) + rng.randint(1, 3)
                out.append("read %d %d" % (i, k))
                a[i] = None
            else:
                out.append("read %d %d" % (i, k))
                o[2] += k
        elif x < 0.84 and o[2] is not None:
            k = rng.randint(0, 6)
            if o[1]:
                k = min(k, max(0, o[0] - o[2]))
            w = [rng.randint(1, 9999) for _ in range(k)]
            if limited:
                out.append("limit %d" % (rng.randint(0, o[2] + k + 1) * 8))
                out.append("write %d %s" % (i, " ".join(map(str, w))))
                out.append("destroy %d" % i)
                del a[i]
                continue
            out.append("write %d %s" % (i, " ".join(map(str, w))))
            o[2] += k
            if k:
                o[0] = max(o[0], o[2])
        elif o[1] and o[0]:
            if rng.random() < 0.5:
                out.append("poke %d %d %d" % (i, rng.randint(1, o[0]), rng.randint(1, 9999)))
            elif o[0] < 40 or rng.random() < 0.2:
                out.append("peek %d" % i)
        elif not o[1] and rng.random() < 0.5 and o[0]:
            p = rng.randint(0, o[0] - 1)
            k = min(o[0] - p, 30)
            out += ["seek %d %d" % (i, p), "read %d %d" % (i, k)]
            o[2] = p + k
    for i in list(a):
        out.append("destroy %d" % i)
    return out


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "TmpFileMC", MC % ctx.scale((1, 2), (2, 2)), workers=6, timeout=800)
        exe = Builder("o0").program("tmpfile", ["tmpfile.cpp"], LIB)
        mc.result()
    n = ctx.scale(800, 8000)
    scripts = [script(ctx.rng, ctx.rng.choice([15, 30, 60])) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("TmpFileTrace", sessions, rec, lambda i: {"driver": "tmpfile", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["a mapped array is not enlarged by writing past its end", "after opening with a size, the position is set before reading or writing"]
