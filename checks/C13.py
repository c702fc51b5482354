"""C13 operator algebra: OpAlgebra.tla (+MC), OpAlgebraTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB

MC = """SPECIFICATION Spec
CONSTANTS Max = %d
 Kinds = {%s}
 Zs = {%s}
 AnyFlip = %s
INVARIANTS Linear Adjoint Evaluates
PROPERTIES Independent SameMap
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""
LIM = 2000000


class Mirror:
    """Knows the compositions, which calls are defined and bounds of all values."""

    def __init__(self, rng):
        self.rng, self.out, self.nd, self.wf = rng, [], {}, {}
        self.grid = rng.random() < 0.4
        self.s = rng.choice([1, 2, 2, 3])
        self.w = 1
        if self.grid:
            self.dims = rng.choice([[(2, 0, 1)], [(3, -1, 2)], [(4, -2, 1)], [(2, 0, 1), (2, 1, 3)], [(3, -1, 1), (2, 0, 2)], [(2, 0, 1), (3, -1, 1)],
                                    [(2, 0, 1), (2, 1, 1), (2, -1, 1)]])
            self.n = 1
            for a, _, c in self.dims:
                self.n *= a
                self.w *= c
            self.out.append("space grid %d %s" % (self.s, " ".join("%d %d %d" % d for d in self.dims)))
        else:
            self.n = rng.choice([1, 2, 3, 4])
            self.out.append("space level %d %d" % (self.s, self.n))
        self.steps = rng.randint(1, 4)
        self.out.append("clock %d" % self.steps)
        self.now = 0
        self.id, self.wid = 0, 0
        for u in "aaaabbb":
            self.newwf(u)

    def size(self, u):
        return self.n * (self.s if u == "b" else 1)

    def nums(self, k, m):
        return [self.rng.randint(-m, m) for _ in range(k)]

    def newwf(self, u):
        self.wid += 1
        v = self.nums(2 * self.size(u), 2)
        self.out.append("wf %d %d %s" % (self.wid, u == "b", " ".join(map(str, v))))
        self.wf[self.wid] = [u, 4]

    def fill(self, i):
        m = self.rng.choice([1, 2])
        self.out.append("fill %d %s" % (i, " ".join(map(str, self.nums(2 * self.size(self.wf[i][0]), m)))))
        self.wf[i][1] = 2 * m

    # --- compositions
    def kids(self, i):
        o = self.nd[i]
        return o["ch"] + sorted({x for r in o["mx"] for x in r if x})

    def below(self, i):
        r = {i}
        for j in self.kids(i):
            r |= self.below(j)
        return r

    def ready(self, i):
        return all(self.nd[j]["ini"] and (self.nd[j]["k"] != "dip" or self.nd[j]["clk"]) and
                   (self.nd[j]["k"] not in ("sum", "prod", "gsum") or self.nd[j]["ch"]) for j in self.below(i))

    def norm(self, i):
        o = self.nd[i]
        k = o["k"]
        if k in ("sum", "gsum"):
            return sum(self.norm(j) for j in o["ch"])
        if k == "prod":
            r = 1
            for j in o["ch"]:
                r *= max(1, self.norm(j))
            return r
        if k in ("ms", "odms"):
            def row(f):
                return max(sum(max(1, self.norm(x)) if x else 1 for x in [f(a, b) for b in range(self.s)]) for a in range(self.s))
            return max(row(lambda a, b: o["mx"][a][b]), row(lambda a, b: o["mx"][b][a]))
        return o["norm"]

    def depth(self, i):
        return 1 + max([0] + [self.depth(j) for j in self.kids(i)])

    def new(self, k, u, norm=1, **kw):
        self.id += 1
        self.nd[self.id] = dict(k=k, u=u, norm=norm, ch=[], mx=[], nm={}, sym=True, ini=False, clk=False, fed=False, old=False)
        self.nd[self.id].update(kw)
        return self.id

    def leaf(self):
        rng = self.rng
        kinds = (["gpos", "gpos", "gpos"] if self.grid else ["mat", "mat", "dip"]) + ["scal", "scal", "proj"]
        k = rng.choice(kinds)
        u = rng.choice("ab") if k in ("scal", "proj") else "a"
        if k == "scal":
            a, b = rng.randint(-3, 3), rng.choice([0, 1, -2])
            i = self.new(k, u, abs(a) + abs(b))
            self.out.append("new %d scal %s %d %d" % (i, u, a, b))
        elif k in ("mat", "dip"):
            t = self.nums(self.n * (self.n + 1) // 2, 2)
            f = 1
            extra = []
            if k == "dip":
                lz = self.nums(self.steps, 2)
                sc = rng.choice([1, 1, 2, -1])
                extra = [sc] + lz
                f = 4
            i = self.new(k, u, 2 * self.n * f)
            self.out.append("new %d %s a %s" % (i, k, " ".join(map(str, t + extra))))
        elif k == "gpos":
            dim = rng.choice([-1] + list(range(len(self.dims))))
            sc = rng.choice([0, 0, 2, -1])
            i = self.new(k, u, max(1, abs(sc)) * sum(abs(b) + a * c for a, b, c in self.dims))
            self.out.append("new %d gpos a %d %d" % (i, dim, sc))
        else:
            i = self.new(k, u, 0)
            self.out.append("new %d proj %s %d %d" % (i, u, rng.randint(0, 1), rng.choice([0, 0, 1])))
            self.nd[i]["norm"] = 1
            for _ in range(rng.randint(0, 2)):
                self.vec(i)
        return i

    def vec(self, i):
        c = [j for j in self.wf if self.wf[j][0] == self.nd[i]["u"] and self.wf[j][1] <= 4]
        if c:
            j = self.rng.choice(c)
            self.out.append("vec %d %d" % (i, j))
            self.nd[i]["norm"] += self.w * self.size(self.nd[i]["u"]) * self.wf[j][1] ** 2

    def fits(self, i, x):
        """x may become an operand of i"""
        return i not in self.below(x) and self.depth(x) < 4

    def compose(self):
        rng = self.rng
        k = rng.choice(["sum", "prod", "ms", "ms"] + (["gsum", "odms"] if self.grid else []))
        if k in ("ms", "odms"):
            sym, one = rng.random() < 0.7, rng.randint(0, 1)
            i = self.new(k, "b", mx=[[0] * self.s for _ in range(self.s)], sym=sym)
            self.out.append("new %d %s b %d %d %d" % (i, k, not sym, one, rng.randint(0, 1)))
            for _ in range(rng.randint(0 if one else 1, self.s * self.s)):
                c = [x for x in self.nd if self.nd[x]["u"] == "a" and self.fits(i, x) and (k == "ms" or self.nd[x]["k"] in ("gpos", "gsum"))]
                if not c:
                    break
                a, b = rng.randrange(self.s), rng.randrange(self.s)
                if rng.random() < 0.05:
                    a, b = rng.choice([(-1, 0), (0, -1), (5000, 0), (0, 7000)])
                x = rng.choice(c)
                self.out.append("put %d %d %d %d" % (i, a, b, x))
                o = self.nd[i]
                if 0 <= a < self.s and 0 <= b < self.s and not o["mx"][a][b]:
                    o["mx"][a][b] = x
                    if a != b and o["mx"][b][a]:
                        o["sym"] = False
                    self.changed(i)
        else:
            u = rng.choice("aab") if k != "gsum" else "a"
            i = self.new(k, u)
            self.out.append("new %d %s %s" % (i, k, u))
            for _ in range(rng.randint(1, 4)):
                self.add(i)
        return i

    def add(self, i):
        o, rng = self.nd[i], self.rng
        c = [x for x in self.nd if self.nd[x]["u"] == o["u"] and self.fits(i, x)]
        if o["k"] == "gsum":
            c = [x for x in c if self.nd[x]["k"] in ("gpos", "gsum") and self.ready(x)]
            if o["ini"]:
                return
        if not c or len(o["ch"]) > 5:
            return
        x = rng.choice(c)
        n = rng.randint(1, 4) if o["k"] != "gsum" and rng.random() < 0.4 else 0
        if rng.random() < 0.04:
            self.out.append("add %d 0 %d" % (i, n))
            return
        self.out.append("add %d %d %d" % (i, x, n))
        if n and n in o["nm"]:
            return
        if n:
            o["nm"][n] = len(o["ch"])
        o["ch"].append(x)
        self.changed(i)

    def changed(self, i):
        """compositions ask an operand for its time dependence when it is added"""
        for q in self.nd:
            if q != i and i in self.below(q):
                self.nd[q]["old"] = True

    def init(self, i):
        c = [j for j in self.wf if self.wf[j][0] == self.nd[i]["u"]]
        if any(self.nd[j]["k"] == "gsum" and not self.nd[j]["ch"] for j in self.below(i)):
            return False
        self.out.append("init %d %d" % (i, self.rng.choice(c)))
        for j in self.below(i):
            o = self.nd[j]
            if o["k"] in ("ms", "odms") and o["sym"] and not o["ini"]:
                for a in range(self.s):
                    for b in range(self.s):
                        o["mx"][a][b] = o["mx"][a][b] or o["mx"][b][a]
            o["ini"] = True
        return True

    def make_ready(self, i):
        if any(self.nd[j]["k"] in ("sum", "prod", "gsum") and not self.nd[j]["ch"] for j in self.below(i)):
            return False
        if not all(self.nd[j]["ini"] for j in self.below(i)):
            # an initialised matrix of operators does not initialise later elements
            if any(self.nd[j]["k"] in ("ms", "odms") and self.nd[j]["ini"] and not all(self.nd[q]["ini"] for q in self.below(j)) for j in self.below(i)):
                return False
            if not self.init(i):
                return False
        if any(self.nd[j]["k"] == "dip" and not self.nd[j]["clk"] for j in self.below(i)):
            self.out.append("clk %d" % i)
            for j in self.below(i):
                self.nd[j]["clk"] = True
        return self.ready(i)

    def copy(self, i, j):
        """node i becomes a copy of j; ids as the driver gives them"""
        first = self.id + 1
        nxt = [first]

        def adopt(frm, to):
            old = self.nd[frm]
            n = dict(old, ch=[], mx=[], nm=dict(old["nm"]))
            for x in old["ch"]:
                t = nxt[0]
                nxt[0] += 1
                n["ch"].append(t)
                adopt(x, t)
            if old["mx"]:
                seen = {}
                n["mx"] = [[0] * self.s for _ in range(self.s)]
                for a in range(self.s):
                    for b in range(self.s):
                        e = old["mx"][a][b]
                        if not e:
                            continue
                        # only mirrored elements stay one object
                        key = (min(a, b), max(a, b), e)
                        if key not in seen:
                            t = nxt[0]
                            nxt[0] += 1
                            seen[key] = t
                            adopt(e, t)
                        n["mx"][a][b] = seen[key]
            new[to] = n
        new = {}
        adopt(j, i)
        self.nd.update(new)
        self.changed(i)
        self.id = nxt[0] - 1
        return first

    def step(self):
        rng, o = self.rng, self.out
        x = rng.random()
        if x < 0.10 and len(self.nd) < 30:
            return self.leaf()
        if x < 0.22 and len(self.nd) < 30:
            return self.compose()
        if not self.nd:
            return
        i = rng.choice(list(self.nd)) if rng.random() < 0.5 else max(self.nd, key=lambda q: (self.depth(q), rng.random()))
        n = self.nd[i]
        lists = [q for q in self.nd if self.nd[q]["k"] in ("sum", "prod", "gsum")]
        if x < 0.27 and lists:
            return self.add(rng.choice([q for q in lists]))
        if x < 0.30 and lists:
            q = rng.choice(lists)
            by = rng.randint(1, 5) if self.nd[q]["k"] != "gsum" and rng.random() < 0.5 else 0
            o.append("get %d %d %d" % (q, rng.randint(-1, 4), by))
            return
        if x < 0.32:
            c = [q for q in lists if self.nd[q]["k"] != "gsum" and self.nd[q]["ch"]]
            if c:
                q = rng.choice(c)
                p = rng.randint(-1, len(self.nd[q]["ch"]))
                c = [y for y in self.nd if self.nd[y]["u"] == self.nd[q]["u"] and self.fits(q, y)]
                if c:
                    y = rng.choice(c)
                    o.append("set %d %d %d" % (q, p, y))
                    if 0 <= p < len(self.nd[q]["ch"]):
                        self.nd[q]["ch"][p] = y
                        self.changed(q)
                        self.nd[q]["old"] = True
            return
        if x < 0.34:
            c = [q for q in self.nd if self.nd[q]["k"] == "proj" and not self.nd[q]["fed"]]
            if c:
                self.vec(rng.choice(c))
            return
        if x < 0.37:
            c = [q for q in self.nd if self.nd[q]["k"] == "mat"]
            if c:
                q = rng.choice(c)
                o.append("elem %d %d %d %d" % (q, rng.randrange(self.n), rng.randrange(self.n), rng.randint(-2, 2)))
            return
        if x < 0.43:
            o.append("conj %d %d" % (i, rng.randint(0, 1)))
            return
        if x < 0.46 and self.steps > 1:
            self.now = rng.randrange(self.steps)
            o.append("time %d %s" % (self.now, " ".join(str(q) for q in self.nd if self.ready(q))))
            return
        if x < 0.49:
            if not any(self.nd[q]["old"] for q in self.below(i)):
                o.append("tdep %d" % i)
            return
        if x < 0.53:
            if self.make_ready(i) and not any(self.nd[q]["k"] in ("ms", "odms") and n["k"] not in ("ms", "odms") for q in self.below(i)):
                o.append("valid %d %d" % (i, rng.choice([0] + list(self.wf))))
            return
        if x < 0.545:
            if n["k"] in ("mat", "dip", "gpos", "ms", "odms"):
                c = [q for q in self.wf if self.wf[q][0] != n["u"]]
                if not any(self.nd[q]["k"] == "gsum" for q in self.below(i)):
                    o.append("init %d %d" % (i, rng.choice(c)))
            return
        if x < 0.57:
            return self.fill(rng.choice(list(self.wf)))
        if x < 0.65 and len(self.nd) < 40:
            if any(self.nd[q]["k"] == "gsum" and not self.nd[q]["ch"] for q in self.below(i)):
                return
            via = rng.randint(0, 1)
            c = [q for q in self.nd if self.nd[q]["k"] == n["k"] and self.nd[q]["u"] == n["u"] and q not in self.below(i) and i not in self.below(q)
                 and not (n["k"] == "gsum" and self.nd[q]["ini"])]
            if rng.random() < 0.12:
                wrong = [q for q in self.nd if self.nd[q]["k"] != n["k"] and {self.nd[q]["k"], n["k"]} not in ({"mat", "dip"}, {"ms", "odms"}, {"gpos", "gsum"}, {"sum", "prod"})]
                if wrong:
                    o.append("assign %d %d %d %d" % (rng.choice(wrong), i, self.id + 1, via))
                return
            if c and rng.random() < 0.4:
                d = rng.choice(c)
                # a grid sum adds the potentials up when it is initialised
                if any(d in self.below(q) and (self.nd[q]["k"] == "gsum" or self.depth(q) + self.depth(i) > 6) for q in self.nd):
                    return
                o.append("assign %d %d %d %d" % (d, i, self.copy(d, i), via))
            else:
                d = self.id + 1
                self.id += 1
                o.append("copy %d %d %d %d" % (d, i, self.copy(d, i), via))
            return
        # use it
        if not self.make_ready(i):
            return
        f = max(1, self.norm(i))
        c = [q for q in self.wf if self.wf[q][0] == n["u"]]
        s = min(rng.sample(c, 2), key=lambda q: self.wf[q][1])
        d = rng.choice([q for q in c if q != s])
        if self.wf[s][1] * f > LIM:
            self.fill(s)
            if self.wf[s][1] * f > LIM:
                return
        ms, md = self.wf[s][1], self.wf[d][1]
        call = rng.choice(["apply", "apply", "in", "in", "add2", "add2", "parent", "mel", "mel", "expec"])
        N = self.w * self.size(n["u"])
        if call == "mel":
            if N * md * ms * f < 5e7:
                o.append("mel %d %d %d" % (i, d, s))
        elif call == "expec":
            if N * ms * ms * f < 5e7:
                o.append("expec %d %d" % (i, s))
        elif call == "in":
            o.append("in %d %d" % (i, s))
            self.wf[s][1] = ms * f
        else:
            if call == "add2" and md + ms * f > LIM:
                return
            o.append("%s %d %d %d" % (call, i, d, s))
            self.wf[d][1] = ms * f + (md if call == "add2" else 0)


def script(rng, n):
    m = Mirror(rng)
    m.leaf()
    m.leaf()
    while len(m.out) < n:
        m.step()
    return m.out


def run(ctx):
    sets = [(3, '"dip","scal","ms"', "0", "FALSE"), (3, '"dip","proj","sum","prod"', "0", "FALSE")] if ctx.quick else \
           [(3, '"dip","scal","ms","prod","sum"', "0", "TRUE"), (3, '"dip","proj","sum","prod","scal"', "0, 1", "TRUE"), (4, '"dip","prod","sum"', "0", "FALSE")]
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(lambda: [ctx.model_check("OpAlgebraMC", MC % a, workers=6, timeout=800) for a in sets])
        exe = Builder("o0").program("opalgebra", ["opalgebra.cpp"], LIB)
        n = ctx.scale(500, 5000)
        scripts = [script(ctx.rng, ctx.rng.choice([30, 60, 90])) for i in range(n)]

        def rec(i):
            return ctx.run_driver(exe, scripts[i], env={"OMP_NUM_THREADS": "13"[i % 2]})
        sessions = ctx.run_sessions(rec, n)
        mc.result()
    ctx.conform("OpAlgebraTrace", sessions, rec, lambda i: {"driver": "opalgebra", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["complex integer contents and elements, so that every result is exact",
                       "an operator is used with wave functions of the kind it was initialised with, source and destination differ"]
