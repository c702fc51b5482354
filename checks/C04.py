"""C04 named operators and wave functions: Registry.tla, RegistryMC.tla, RegistryTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, ALL

MC = """SPECIFICATION Spec
CONSTANTS MaxRefs = %d
 Keys = {%s}
VIEW View
INVARIANTS Reachable Counted Initialised
PROPERTIES Lasting Kept Spared
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Reachable Counted Initialised
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def script(rng, n):
    """The mirror only keeps the script from handing over references it does not have."""
    out, cnt, ops, wfs, owned = [], {}, {}, {}, {}
    nid, anon = 0, 0
    K = ["a", "b", "c", "psi", "__Fake#0", "__Fake#1", "__WFLevel#0"]
    okey = lambda: rng.choice(list(ops) if ops and rng.random() < 0.75 else K)
    wkey = lambda: rng.choice(list(wfs) if wfs and rng.random() < 0.75 else K)

    def fresh(d, name):
        """a key as it is made up: anything not in use (kept apart from the listed ones)"""
        nonlocal anon
        anon += 1
        return "?%s%d" % (name, anon)

    def release(x, k=1):
        cnt[x] -= k
        if cnt[x] <= 0:
            del cnt[x]

    def ofree(o):
        return cnt.get(o, 0) > sum(1 for v in ops.values() if v[0] == o)
    while len(out) < n:
        O = [x for x in cnt if x in owned and owned[x] == "o"]
        W = [x for x in cnt if x in owned and owned[x] == "w"]
        x = rng.random()
        if x < 0.1 or not O:
            nid += 1
            owned[nid], cnt[nid] = "o", 1
            out.append("op %d" % nid)
        elif x < 0.16 or not W:
            nid += 1
            owned[nid], cnt[nid] = "w", 1
            out.append("wf %d %d" % (nid, rng.choice([1, 2, 2, 3, 6])))
        elif x < 0.2:
            i = rng.choice(list(cnt))
            if cnt[i] < 4:
                cnt[i] += 1
                out.append("hold %d" % i)
        elif x < 0.25:
            c = [i for i in O if ofree(i)] + [i for i in W if cnt[i] > sum(1 for v in wfs.values() if v[0] == i)]
            if c:
                i = rng.choice(c)
                out.append("drop %d" % i)
                release(i)
        elif x < 0.39:
            k = rng.choice((K if not anon else K[:4]) + ["-", "-"])
            c = [i for i in O if ofree(i)]
            o = rng.choice(c) if c and rng.random() < 0.95 else 0
            p = int(rng.random() < 0.4)
            if o and k != "-" and k not in ops:
                ops[k] = (o, p)
            elif o and k == "-":
                ops[fresh(ops, "o")] = (o, p)
            out.append("addop %s %d %d" % (k, o, p))
        elif x < 0.44:
            out.append("setlabel %s %s" % (name(okey()), rng.choice(["x", "x", "y", "-"])))
        elif x < 0.5:
            out.append("getlabels %s %d" % (rng.choice(["x", "x", "y", "-"]), rng.choice([0, 1, 2, 8])))
        elif x < 0.54:
            out.append("checklabel %d %s" % (rng.choice(O), rng.choice(["x", "x", "y", "-"])))
        elif x < 0.6:
            out.append("lookop %s" % name(okey()))
        elif x < 0.68:
            out.append("initkey %s %d" % (name(okey()), rng.choice(W)))
        elif x < 0.74:
            o = rng.choice(O)
            listed = any(v[0] == o for v in ops.values())
            if listed or ofree(o):
                if not listed:
                    ops[fresh(ops, "i")] = (o, 0)
                out.append("initptr %d %d" % (o, rng.choice(W)))
        elif x < 0.77:
            a = int(rng.random() < 0.3)
            out.append("clearops %d" % a)
            for k in [k for k in ops if a or not ops[k][1]]:
                release(ops.pop(k)[0])
        elif x < 0.8:
            if any(k[0] == "?" for k in ops):
                continue
            keep = [k for k in list(ops) + ["b"] if rng.random() < 0.6]
            out.append("restore " + " ".join(keep))
            for k in [k for k in ops if k not in keep]:
                release(ops.pop(k)[0])
        elif x < 0.86:
            k = rng.choice((K if not anon else K[:4]) + ["-", "-"])
            w = rng.choice(W) if rng.random() < 0.95 else 0
            p = int(rng.random() < 0.3)
            if w and k != "-" and k not in wfs:
                wfs[k] = (w, p)
                cnt[w] += 1
            elif w and k == "-":
                wfs[fresh(wfs, "w")] = (w, p)
                cnt[w] += 1
            out.append("addwf %s %d %d" % (k, w, p))
        elif x < 0.91:
            k, w = wkey(), rng.choice(W)
            if k[0] == "?" or (k not in wfs and anon and k[0] == "_"):
                continue
            if k in wfs:
                cnt[w] += 1
                release(wfs[k][0])
                wfs[k] = (w, wfs[k][1])
            else:
                wfs[k] = (w, 1)
                cnt[w] += 1
            out.append("setwf %s %d" % (k, w))
        elif x < 0.94:
            out.append("lookwf %s %d" % (name(wkey()), rng.randint(0, 1)))
        elif x < 0.97:
            out.append("copywf %s" % name(wkey()))
        else:
            out.append("clearwfs")
            for k in [k for k in wfs if not wfs[k][1]]:
                release(wfs.pop(k)[0])
    return out


def name(k):
    return "nowhere" if k[0] == "?" else k


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "RegistryMC", MC % ((2, '"a"') if ctx.quick else (2, '"a", "b"')), workers=4, timeout=800)
        exe = Builder("o0").program("registry", ["registry.cpp"], ALL)
        mc.result()
    n = ctx.scale(2500, 20000)
    scripts = [script(ctx.rng, ctx.rng.choice([15, 30, 60])) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("RegistryTrace", sessions, rec, lambda i: {"driver": "registry", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["who adds an operator under several names holds a reference for each"]
