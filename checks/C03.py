"""C03 ownership: Collector.tla, CollectorMC.tla, CollectorTrace.tla."""
from vlib.build import Builder, LIB
from concurrent.futures import ThreadPoolExecutor

MC = """SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 MaxCnt = 2
INVARIANTS Once Partition Positive
PROPERTY Local
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANTS Once Partition Positive
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def nodes(rng):
    lines = ["open n"]
    nxt, ids, dead = 1, [], set()
    for _ in range(rng.randint(5, 40)):
        x = rng.random()
        if x < 0.35 or not ids:
            lo, hi = max(1, nxt - 6), nxt + 3
            kids = [rng.randint(lo, hi) for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
            lines.append("node %d %d %s" % (nxt, rng.random() < 0.15, " ".join(map(str, kids))))
            ids.append(nxt)
            nxt += 1
        elif x < 0.55:
            i = rng.choice(ids[-8:])
            lines.append("regk %d" % i)
        elif x < 0.95:
            i = rng.choice(ids[-8:]) if rng.random() < 0.9 else rng.choice([0, 900, 901])
            lines.append("del %d" % i)
        elif x < 0.97:
            lines.append("delall")
            ids = ids[-1:]
        else:
            lines.append("reg 0")
    lines.append("delall")
    return lines


class Model:
    """Which objects are alive: only so that the script never touches a dead one."""

    def __init__(self):
        self.c, self.k = {}, {}

    def make(self, x, ks=()):
        self.c[x], self.k[x] = 1, list(ks)

    def rel(self, x):
        if x in self.c:
            self.c[x] -= 1
            if not self.c[x]:
                del self.c[x]
                for y in self.k[x]:
                    self.rel(y)


def fix_nodes(lines):
    """Registrations name live objects only (a registered dead address would be a misuse)."""
    m, out = Model(), []
    for l in lines:
        w = l.split()
        if w[0] == "node":
            m.make(int(w[1]), [] if w[2] in ("1", "True") else map(int, w[3:]))
            l = l.replace("True", "1").replace("False", "0")
        elif w[0] == "regk":
            i = int(w[1])
            if i not in m.c:
                continue
            m.c[i] += 1
            l = "reg %d" % i
        elif w[0] == "del":
            m.rel(int(w[1]))
        elif w[0] == "delall":
            m.c.clear()
        out.append(l)
    return out


def wfs(rng):
    lines, m, nxt = ["open w"], Model(), 1
    top = {}
    for _ in range(rng.randint(5, 30)):
        live = [t for t in top if t in m.c]
        x = rng.random()
        if x < 0.3 or not live:
            sz = rng.choice([1, 2, 5])
            lines.append("wf %d %d" % (nxt, sz))
            m.make(nxt)
            top[nxt] = ("l", sz)
            nxt += 1
        elif x < 0.45:
            sz = top[rng.choice(live)][1]
            ks = [t for t in live if top[t] == ("l", sz)]
            rng.shuffle(ks)
            ks = ks[:rng.randint(1, 4)]
            if not ks:
                continue
            lines.append("ms %d %s" % (nxt, " ".join(map(str, ks))))
            m.make(nxt, ks)
            for k in ks:
                if rng.random() < 0.7:
                    top[k] = ("owned", 0)
                else:   # a second holder of the state
                    lines.append("reg %d" % k)
                    m.c[k] += 1
                    top[k] = ("shared", 0)
            top[nxt] = ("m", sz)
            nxt += 1
        elif x < 0.55:
            s = rng.choice([t for t in live])
            if top[s][0] in ("owned", "shared"):
                continue
            n = len(m.k[s])
            lines.append("copy %d %d" % (s, nxt))
            for j in range(n):
                m.make(nxt + 1 + j)
                top[nxt + 1 + j] = ("owned", 0)
            m.make(nxt, range(nxt + 1, nxt + 1 + n))
            top[nxt] = top[s]
            nxt += 1 + n
        elif x < 0.65:
            s = rng.choice(live)
            lines.append("reg %d" % s)
            m.c[s] += 1
        elif x < 0.75:
            a, b = rng.choice(live), rng.choice(live)
            if top[a] == top[b] and top[a][0] == "l":
                lines.append("math %d %d" % (a, b))
        elif x < 0.97:
            # states are released by their container only, unless they have a second holder
            ok = [t for t in live if top[t][0] in "lm" or (top[t][0] == "shared" and m.c[t] > 1)]
            if ok:
                s = rng.choice(ok)
                lines.append("del %d" % s)
                m.rel(s)
        else:
            lines.append("del %d" % rng.choice([0, 999]))
    lines.append("delall")
    return lines


def ops(rng):
    lines, m = ["open o"], Model()
    nxt, typ = 1, {}

    def mk(t, ks=(), own=()):
        nonlocal nxt
        lines.append("op %d %s %s" % (nxt, t, " ".join(map(str, ks))))
        m.make(nxt, own)
        typ[nxt] = t
        nxt += 1
        return nxt - 1
    used = {}
    for _ in range(rng.randint(4, 14)):
        simple = [t for t in m.c if typ[t] in ("mat", "scalar", "sum", "prod")]
        x = rng.random()
        if x < 0.3 or not simple:
            mk(rng.choice(["mat", "mat", "scalar", "proj"]))
        elif x < 0.5:
            ks = [rng.choice(simple) for _ in range(rng.randint(1, 3))]
            i = mk(rng.choice(["sum", "prod", "multi"]), ks)
            for k in ks:
                used.setdefault(k, set()).add(i)
        elif x < 0.65:
            ks = [k for k in simple if typ[k] == "mat" and m.c[k] == 1 and k not in used]
            if ks:
                k = rng.choice(ks)
                i = mk(rng.choice(["cheby", "sil", "arnoldi", "rk4"]), [k])
                used.setdefault(k, set()).add(i)
        elif x < 0.85:
            o = rng.choice(sorted(m.c))
            lines.append("use %d" % o)
        elif x < 0.92:
            o = rng.choice(sorted(m.c))
            lines.append("opcopy %d %d" % (o, nxt))
            m.make(nxt)
            typ[nxt] = "blank"
            lines.append("del %d" % nxt)
            m.rel(nxt)
            nxt += 1
        else:
            ok = [t for t in m.c if not any(u in m.c for u in used.get(t, ()))]
            if ok:
                o = rng.choice(ok)
                lines.append("del %d" % o)
                m.rel(o)
    order = sorted(m.c, reverse=True)
    if rng.random() < 0.5:
        lines.append("delall")
    else:
        lines += ["del %d" % o for o in order]
    lines.append("balance")
    return lines


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "CollectorMC", MC, workers=4)
        exe = Builder("o0").program("collector", ["collector.cpp"], LIB)
        mc.result()
    n = ctx.scale(600, 6000)
    scripts = [fix_nodes(nodes(ctx.rng)) if i % 3 == 0 else wfs(ctx.rng) if i % 3 == 1 else ops(ctx.rng) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("CollectorTrace", sessions, rec, lambda i: {"driver": "collector", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["an address is registered again only while its object is alive",
                       "states of a multistate wave function are released by it, or by a second registered holder"]
