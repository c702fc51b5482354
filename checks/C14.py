"""C14 propagators: Propagator.tla (+MC), PropagatorTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB

MC = """SPECIFICATION Spec
CONSTANTS Max = %d
 Scale = %d
INVARIANTS Group Back Unitary Period
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


# A field of one sign: the energy range the dipole operator states leaves out its energies.
FINDING = ["open 1 100 1 6 level 0 2", "part 1 mat 0 0 1 1 0 0 1 2 2", "wf 1 1 0 0 0",
           "prop 1 cheby 0 0 1 1 1 2", "init 1 1", "apply 1 1"]


def classify(events, k):
    part = [e for e in events if e["e"] == "Part"]
    if len(part) == 1 and events[k]["e"] == "Apply" and (part[0]["k"], part[0]["m"], part[0]["lz"]) == ([1, 1], [0, 0], [2]):
        return "C14-dipole-range"


class Gen:
    def __init__(self, rng):
        self.rng, self.out = rng, []
        self.grid = rng.random() < 0.6
        self.sc = rng.choice([1, 1, 1, 2, 3, 4, 64])
        self.rk = self.sc == 64
        self.dt = rng.choice([100, 100, 50, 25, 300, 1000])
        self.steps = rng.randint(1, 4)
        if self.grid:
            self.s = rng.choice([0, 0, 0, 2, 2, 3])
            self.dims = rng.choice([[2], [4], [4], [6], [2, 3], [4, 2], [3, 2]] if self.s < 3 else [[2], [4], [2, 3]])
            self.n = 1
            for d in self.dims:
                self.n *= d
            sp = "grid %d %s" % (self.s, " ".join("%d %d %d" % (d, rng.randint(-2, 2), rng.choice([1, 2, 4])) for d in self.dims))
        else:
            self.s = rng.choice([0, 0, 2, 3])
            self.n = rng.choice([1, 2, 3, 4] if not self.s else [1, 2, 3])
            sp = "level %d %d" % (self.s, self.n)
        self.N = self.n * max(1, self.s)
        self.out.append("open %d %d %d %d %s" % (self.sc, self.dt, self.steps, 3 if self.rk else 6, sp))
        self.now = 0
        self.parts, self.props, self.wfs = {}, {}, 0
        self.pairings = []
        for _ in range(1 if self.sc > 1 else rng.randint(1, 2)):
            self.pairings.append(self.pairing())
        for i in range(rng.randint(1, 3)):
            self.wf()
        for q in range(len(self.pairings)):
            for _ in range(rng.randint(1, 3)):
                self.part(q)
        self.dyn = any(p["lz"] for p in self.parts.values())

    # --- pairings: (kind, involution, dimension)
    def pairing(self):
        rng = self.rng
        if self.grid:
            even = [d for d in range(len(self.dims)) if self.dims[d] % 2 == 0]
            k = rng.choice(["shift", "shift", "across"] if self.s else ["shift", "shift", "id", "id"])
        else:
            k = rng.choice(["within", "within", "across"] if self.s else ["within"])
        p = list(range(self.N))
        d = -1
        if k == "shift":
            d = rng.choice(even)
            st = 1
            for q in range(d):
                st *= self.dims[q]
            for a in range(self.N):
                x = a // st % self.dims[d]
                p[a] = a + ((x + self.dims[d] // 2) % self.dims[d] - x) * st
        elif k == "across":
            order = list(range(self.s))
            rng.shuffle(order)
            A, B = order[:2]
            for i in range(self.n):
                if rng.random() < 0.85:
                    p[A * self.n + i], p[B * self.n + i] = B * self.n + i, A * self.n + i
        elif k == "within":
            for A in range(max(1, self.s)):
                r = list(range(self.n))
                rng.shuffle(r)
                for q in range(0, self.n - 1, 2):
                    if rng.random() < 0.8:
                        a, b = A * self.n + r[q], A * self.n + r[q + 1]
                        p[a], p[b] = b, a
        return (k, p, d)

    def part(self, q):
        rng = self.rng
        kind, p, d = self.pairings[q]
        i = len(self.parts) + 1
        even = rng.random() < 0.5 and self.sc == 1
        f = 2 if even else 1
        if kind == "shift" and (rng.random() < 0.6 or not any(x["q"] == q and x["form"] == "kin" for x in self.parts.values())):
            c = rng.choice([2, 4, 4]) if not self.rk else 2
            k, m, lz, form, a = [c // 2] * self.N, [-(c // 2)] * self.N, [], "kin", d
            od = bool(self.s) and self.sc != 64 and rng.random() < 0.6
            cc = c + (0 if not self.s else (200 if rng.random() < 0.5 else 100) if od else 0)
            even = c == 4
            emax = c * (self.dims[d] // 2) ** 2
        else:
            k, m = [0] * self.N, [0] * self.N
            zero = rng.random() < 0.15
            for x in range(self.N):
                if p[x] >= x:
                    k[x] = k[p[x]] = 0 if zero else f * rng.choice([-1, 0, 1, 1, 2] if not even else [-1, 0, 1])
                    if kind == "shift":        # commutes with the kinetic energy only when constant
                        k[x] = k[p[x]] = k[x // self.n * self.n]
                    if p[x] != x and kind != "shift":
                        m[x] = m[p[x]] = f * rng.choice([-1, 0, 1, 2] if not even else [-1, 1])
            if kind == "across" and rng.random() < 0.1:
                m = [0] * self.N
            form, a, od = ("mat" if not self.grid else "pot"), 0, False
            lz = []
            if self.sc == 1 and rng.random() < 0.3:
                lz = [rng.randint(-2, 2) for _ in range(self.steps)]
            elif self.s and ((self.grid and rng.random() < 0.5) or (kind == "within" and rng.random() < 0.4)):
                form, od = "odms", True
            cc = rng.randint(0, 3)
            emax = 4 * max(1, max([abs(x) for x in lz] or [1]))
        self.parts[i] = dict(q=q, form=form, k=k, m=m, p=p, lz=lz, even=even, emax=emax, od=od or not self.s)
        self.out.append("part %d %s %d %d %s" % (i, form, a, cc, " ".join(map(str, k + m + [x + 1 for x in p] + lz))))
        return i

    def wf(self, i=0):
        rng = self.rng
        if not i:
            self.wfs += 1
            i = self.wfs
        p = rng.choice(self.pairings)[1]
        x = rng.random()
        v = [(rng.randint(-2, 2), rng.randint(-2, 2)) for _ in range(self.N)]
        if x < 0.1:
            v = [(0, 0)] * self.N
        elif x < 0.3:     # supported by one component or pair, often an eigenvector
            a, sg = rng.randrange(self.N), rng.choice([-1, 0, 1])
            w = [(0, 0)] * self.N
            w[a] = (1, 0)
            if p[a] != a:
                w[p[a]] = (sg, 0)
            v = w
        self.out.append("wf %d %s" % (i, " ".join("%d %d" % z for z in v)))

    def ranged(self, h):
        """The operator's own energy range covers its energies (see FINDING)."""
        o = self.parts[h]
        if not o["lz"]:
            return True
        if self.s:
            return False
        e = [o["k"][x] + s * o["m"][x] for x in range(self.N) for s in ((1, -1) if o["p"][x] != x else (1,))]
        true = [-a * b for a in e for b in o["lz"]]
        lo = 0 if self.grid else min(e) * min(o["lz"])
        return lo <= min(true) and max(true) <= max(e) * max(o["lz"])

    def prop(self):
        rng = self.rng
        i = len(self.props) + 1
        q = rng.randrange(len(self.pairings))
        mine = [h for h in self.parts if self.parts[h]["q"] == q]
        P = self.parts
        kinds = ["sil", "arnoldi"]
        if all(self.ranged(h) for h in mine):
            kinds += ["cheby"] * 2
        if all(P[h]["od"] for h in mine):
            kinds += ["gspo", "gspo"]
        small = [h for h in mine if P[h]["emax"] <= 4]
        if self.rk and small:
            kinds += ["rk4"] * 4
        kind = rng.choice(kinds)
        order, flags = 0, rng.randint(0, 1)
        if kind in ("cheby", "sil", "arnoldi", "rk4"):
            if kind == "rk4":
                mine = small[:1] if any(P[h]["form"] == "kin" for h in small) else small
            ids = rng.sample(mine, rng.randint(1, len(mine)))
            if not self.s and self.grid and not any(P[h]["lz"] or P[h]["form"] == "kin" for h in ids) and rng.random() < 0.5:
                flags |= 2
            if kind in ("sil", "arnoldi"):
                order = rng.choice([0, self.N + 3]) if self.N <= 16 else self.N + 3
            steps = [(h, 2) for h in ids]
        else:
            # parts of one pairing, or outer parts whose half steps are whole quarter turns
            if self.sc == 1 and rng.random() < 0.6:
                outer = [h for h in P if P[h]["even"] and P[h]["od"]]
                first = [h for h in P if P[h]["od"]]
                a = rng.choice(first)
                outer = [h for h in outer if h != a]
                ids = [a] + rng.sample(outer, min(len(outer), rng.randint(0, 2)))
            else:
                ids = rng.sample(mine, rng.randint(1, min(3, len(mine))))
            steps = [(h, 1) for h in ids[:0:-1]] + [(ids[0], 2)] + [(h, 1) for h in ids[1:]]
        self.props[i] = dict(kind=kind, q={P[h]["q"] for h in ids}, ready=False, clk=flags & 1)
        self.out.append("prop %d %s %d %d %d %s %s" % (i, kind, order, flags, len(ids), " ".join(map(str, ids)), " ".join("%d %d" % s for s in steps)))

    def any(self):
        return self.rng.randint(1, self.wfs)

    def step(self):
        rng, o = self.rng, self.out
        if not self.props or (len(self.props) < 6 and rng.random() < 0.2):
            return self.prop()
        u = rng.choice(list(self.props))
        p = self.props[u]
        x = rng.random()
        if not p["ready"]:
            if x < 0.1:
                o.append("valid %d %d" % (u, self.any()))
            elif x < 0.2 and p["clk"]:
                o.append("dir %d %d %d" % (u, rng.choice([-1, 1]), rng.randint(0, 1)))
            else:
                o.append("init %d %d" % (u, self.any()))
                p["ready"] = p["clk"] = True
            return
        if x < 0.03:
            o.append("init %d %d" % (u, self.any()))
        elif x < 0.06:
            o.append("valid %d %d" % (u, self.any()))
        elif x < 0.16:
            o.append("dir %d %d %d" % (u, rng.choice([-1, -1, 1]), rng.randint(0, 1)))
        elif x < 0.20 and self.dyn:
            t = rng.randrange(self.steps)
            o.append("time %d %s" % (t, " ".join(str(v) for v in self.props if self.props[v]["ready"] and rng.random() < 0.5)))
        elif x < 0.25 and len(self.props) < 9:
            i = len(self.props) + 1
            self.props[i] = dict(p, ready=False)
            o.append("copy %d %d %d" % (i, u, rng.randint(0, 1)))
        elif x < 0.31:
            self.wf(self.any() if self.wfs > 3 or rng.random() < 0.7 else 0)
        elif x < 0.45 and self.wfs > 1:
            a, b = rng.sample(range(1, self.wfs + 1), 2)
            o.append("applyto %d %d %d" % (u, a, b))
        else:
            k = rng.choice([1, 1, self.sc, self.sc])
            i = self.any()
            for _ in range(k):
                o.append("apply %d %d" % (u, i))


def script(rng, n):
    g = Gen(rng)
    n += 130 if g.rk else 0
    for _ in range(4 * n):
        if len(g.out) < n:
            g.step()
    return g.out


def run(ctx):
    sets = [(1, 1)] if ctx.quick else [(2, 1), (2, 2), (3, 4)]
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(lambda: [ctx.model_check("PropagatorMC", MC % a, workers=6, timeout=800) for a in sets])
        exe = Builder("o0").program("propagator", ["propagator.cpp"], LIB)
        n = ctx.scale(240, 4000)
        scripts = [script(ctx.rng, ctx.rng.choice([30, 60])) for i in range(n - 1)] + [FINDING]

        def rec(i):
            return ctx.run_driver(exe, scripts[i], env={"OMP_NUM_THREADS": "13"[i % 2]})
        sessions = ctx.run_sessions(rec, n)
        mc.result()
    ctx.conform("PropagatorTrace", sessions, rec, lambda i: {"driver": "propagator", "script": scripts[i]}, cfg=TRACE, classify=classify)
    ctx.assumptions = ["energies are multiples of a quarter turn per 1, 2, 3, 4 or 64 steps and all parts of a Hamiltonian couple the same pairs, so that the exact result is known",
                       "contents within 1e-6 (1e-3 when the Runge-Kutta propagator takes part)", "propagation in real time"]
