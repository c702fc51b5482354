"""C20 vector space of wave functions: WaveSpace.tla, WaveStore.tla (storage refinement), WaveSpaceTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB

MC = """SPECIFICATION %s
CONSTANTS Ids = {%s}
 MIds = {%s}
 Bufs = {%s}
 Vals = {1}
 Relink = TRUE
VIEW View
INVARIANTS Linked Apart
PROPERTIES Refines
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""
LIM = 2500


class Mirror:
    """What the generator has to know: shapes, who is set, bounds of the contents."""

    def __init__(self, rng):
        self.rng, self.lf, self.ml, self.out = rng, {}, {}, []
        self.nid, self.mid, self.fresh = 0, 100, 1000
        g = rng.random() < 0.5
        if g:
            dims = rng.choice([[(2, 1)], [(3, 2)], [(4, 1)], [(2, 1), (2, 3)], [(3, 1), (2, 1)], [(2, 1), (2, 1), (2, 2)], [(5, 1)], [(7, 2)]])
            self.kind = "grid", dims
        else:
            self.kind = "level", rng.choice([1, 2, 3, 4, 5, 7])
        self.other = ("level", rng.choice([1, 2, 3, 4, 6])) if rng.random() < 0.7 else ("grid", [(rng.choice([2, 3]), 1)])

    def leafs(self, i):
        return self.ml.get(i) or [i]

    def n(self, i):
        return sum(self.lf[x]["n"] for x in self.leafs(i))

    def g(self, i):
        return self.lf[self.leafs(i)[0]]["kind"][0] == "grid"

    def mag(self, i):
        return max(self.lf[x]["mag"] for x in self.leafs(i))

    def ok(self, i):
        return all(self.lf[x]["set"] and not self.lf[x]["gone"] for x in self.leafs(i))

    def here(self, i):
        return not any(self.lf[x]["gone"] for x in self.leafs(i))

    def ks(self, i):
        return self.lf[self.leafs(i)[0]]["ks"]

    def setto(self, i, mag, isset=True):
        for x in self.leafs(i):
            self.lf[x].update(mag=mag, set=isset)

    def new(self, kind):
        self.nid += 1
        i = self.nid
        n = kind[1] if kind[0] == "level" else 1
        if kind[0] == "level":
            self.out.append("level %d %d" % (i, n))
        else:
            for a, _ in kind[1]:
                n *= a
            self.out.append("grid %d %s" % (i, " ".join("%d %d" % d for d in kind[1])))
        self.lf[i] = dict(n=n, kind=kind, mag=0, set=False, ks=False, omag=0, oset=False, gone=False, own=0)
        return i

    def fill(self, i):
        m = self.rng.choice([1, 3, 9])
        self.out.append("fill %d %s" % (i, " ".join(str(self.rng.randint(-m, m)) for _ in range(2 * self.n(i)))))
        self.setto(i, 2 * m)

    def ids(self, f=lambda i: True):
        return [i for i in list(self.lf) + list(self.ml) if f(i)]

    def copyof(self, j, i, isset, mag):
        """a new object i like j (ids of new states as the driver gives them)"""
        base = lambda s: dict(n=s["n"], kind=s["kind"], mag=mag, set=isset, ks=False, omag=0, oset=False, gone=False, own=0)
        if j in self.ml:
            sub = []
            for x in self.ml[j]:
                self.lf[self.fresh] = dict(base(self.lf[x]), own=i)
                sub.append(self.fresh)
                self.fresh += 1
            self.ml[i] = sub
        else:
            self.lf[i] = base(self.lf[j])

    def turn(self, i, b):
        for x in self.leafs(i):
            s = self.lf[x]
            if s["ks"] != b:
                s.update(ks=b, mag=s["omag"], omag=s["mag"], set=s["oset"], oset=s["set"])

    def shape(self, i):
        return len(self.leafs(i)), self.n(i)

    def step(self):
        rng, o = self.rng, self.out
        x = rng.random()
        whole = self.ids(self.here)
        ready = self.ids(self.ok)
        free = [i for i in self.lf if not self.lf[i]["own"]]
        if x < 0.06 or len(whole) < 2:
            if len(self.lf) < 14:
                self.fill(self.new(self.kind if rng.random() < 0.85 else self.other))
            return
        i = rng.choice(whole)
        if x < 0.12:
            return self.fill(i)
        if x < 0.16 and ready:
            i = rng.choice(ready)
            k = rng.randint(1, self.n(i))
            o.append("elem %d %d %d %d" % (i, k, rng.randint(-5, 5), rng.randint(-5, 5)))
            return self.setto(i, max(10, self.mag(i)))
        if x < 0.22 and len(self.ml) < 4 and len(self.lf) < 16:
            a = rng.choice(free) if free else None
            if a is None:
                return
            c = [y for y in free if self.lf[y]["kind"] == self.lf[a]["kind"] and self.here(y) and not self.lf[y]["ks"]]
            if not c:
                return
            rng.shuffle(c)
            st = c[:rng.randint(1, 3)]
            while rng.random() < 0.3 and len(st) < 4:
                st.insert(rng.randint(0, len(st)), 0)
            while st[-1] == 0:
                st.pop()
            req = rng.choice([0, len(st), len(st), len(st) + 1])
            self.mid += 1
            o.append("build %d %d %d %s" % (self.mid, rng.randint(0, 1), req, " ".join(map(str, st))))
            st += [0] * (req - len(st))
            ref = next(y for y in st if y)
            self.ml[self.mid] = []
            for k, y in enumerate(st):
                if not y:
                    self.lf[self.fresh] = dict(n=self.lf[ref]["n"], kind=self.lf[ref]["kind"], mag=0, set=True, ks=False, omag=0,
                                               oset=False, gone=False, own=self.mid)
                    y = self.fresh
                    self.fresh += 1
                self.lf[y]["own"] = self.mid
                self.ml[self.mid].append(y)
            return
        if x < 0.27 and len(self.lf) < 16:
            if i in self.ml:
                self.mid += 1
                new = self.mid
            else:
                self.nid += 1
                new = self.nid
            o.append("like %d %d" % (new, i))
            return self.copyof(i, new, False, 0)
        if x < 0.32:
            free = [y for y in whole if y in self.ml or not self.lf[y]["own"]]
            if free and len(whole) > 3:
                i = rng.choice(free)
                o.append("delete %d" % i)
                for y in self.leafs(i):
                    del self.lf[y]
                self.ml.pop(i, None)
            return
        if x < 0.39:
            c = [y for y in whole if y in self.ml or not self.lf[y]["own"]]
            if not c:
                return
            i = rng.choice(c)
            b = rng.random() < (0.3 if self.ks(i) else 0.7)
            o.append("switch %d %d" % (i, b))
            self.turn(i, b)
            if not self.ok(i) and rng.random() < 0.8:
                self.fill(i)
            return
        if x < 0.43:
            c = [y for y in self.ids() if y in self.ml or not self.lf[y]["own"]]
            gone = [y for y in c if not self.here(y)]
            if gone and rng.random() < 0.7:
                i = rng.choice(gone)
                o.append("reacquire %d" % i)
                for y in self.leafs(i):
                    self.lf[y]["gone"] = False
                return self.fill(i)
            c = [y for y in c if self.here(y)]
            if c and len(whole) > 3:
                i = rng.choice(c)
                o.append("retire %d" % i)
                for y in self.leafs(i):
                    self.lf[y].update(gone=True, set=False, oset=False)
            return
        if len(ready) < 2:
            return self.fill(i)
        if x < 0.52:
            i, j = rng.choice(whole), rng.choice(ready)
            if rng.random() < 0.8:
                c = [y for y in whole if self.shape(y) == self.shape(j) and self.g(y) == self.g(j)]
                i = rng.choice(c)
            ok = (i in self.ml) == (j in self.ml) and len(self.leafs(i)) == len(self.leafs(j)) and self.g(i) == self.g(j)
            member = i not in self.ml and self.lf[i]["own"]
            if ok and any(self.lf[a]["n"] != self.lf[b]["n"] for a, b in zip(self.leafs(i), self.leafs(j))) and (member or i in self.ml):
                return
            if ok and member and self.ks(i) != self.ks(j):
                return
            if ok and i != j and self.g(i) and member and self.lf[i]["kind"] != self.lf[j]["kind"]:
                return
            o.append("assign %d %d %d" % (i, j, rng.randint(0, 1)))
            if ok:
                if self.g(i) or i in self.ml:
                    self.turn(i, self.ks(j))
                for a, b in zip(self.leafs(i), self.leafs(j)):
                    if self.lf[a]["n"] != self.lf[b]["n"]:
                        self.lf[a].update(oset=False, n=self.lf[b]["n"])
                    self.lf[a].update(mag=self.lf[b]["mag"], set=True, kind=self.lf[b]["kind"])
            return
        if x < 0.55 and self.ml:
            i = rng.choice(list(self.ml))
            if not self.here(i):
                return
            c = [y for y in ready if y in self.lf and self.lf[y]["n"] == self.lf[self.ml[i][0]]["n"]]
            if c:
                j, k = rng.choice(c), rng.randint(1, len(self.ml[i]))
                o.append("stridecopy %d %d %d" % (i, j, k))
                self.lf[self.ml[i][k - 1]].update(set=True, mag=self.lf[j]["mag"])
            return
        i = rng.choice(ready)
        if x < 0.65:
            k = rng.random()
            if k < 0.5:
                j = rng.choice(ready)
                if rng.random() < 0.8:
                    j = rng.choice([y for y in ready if self.shape(y) == self.shape(i)])
                if (i in self.ml) != (j in self.ml) and self.shape(i) == self.shape(j):
                    return
                if self.shape(i) != self.shape(j) or self.mag(i) * self.mag(j) * 2 * self.n(i) < 10**7:
                    o.append("dot %d %d" % (i, j))
            elif k < 0.7:
                if self.mag(i) ** 2 * 2 * self.n(i) < 10**7:
                    o.append("norm %d" % i)
            elif k < 0.85:
                if self.mag(i) ** 2 * 2 * self.n(i) < 10**6:
                    o.append("normalize %d" % i)
            elif i in self.lf and self.g(i):
                o.append("integral %d" % i)
            return
        if x < 0.72 and len(self.lf) < 16:
            j = rng.choice([y for y in ready if self.shape(y) == self.shape(i)]) if rng.random() < 0.85 else rng.choice(ready)
            how = rng.randint(0, 2)
            m = self.mag(i) + self.mag(j) if how == 0 else 2 * self.mag(i) * self.mag(j)
            if m > LIM or self.ks(i):
                return
            ok = self.shape(i) == self.shape(j)
            if i in self.ml:
                self.mid += 1
                new = self.mid
            else:
                self.nid += 1
                new = self.nid
            o.append("made %d %d %d %d" % (new, how, i, j))
            if ok:
                self.copyof(i, new, True, m)
            return
        # element wise operations
        same = [y for y in ready if self.shape(y) == self.shape(i)]
        b, c = rng.choice(same), rng.choice(same)
        n = rng.choice(list(range(0, 12)) + list(range(20, 56)))
        if n < 4 and rng.random() < 0.1:
            b = rng.choice(ready)
            if self.shape(b) != self.shape(i):
                o.append("kern %d %d %d 0 1 0" % (n, i, b))
                return
        if n == 25:
            o.append("kern 28 %d 0 0 1 0" % b)
        M, A, B, C = LIM, self.mag(i), self.mag(b), self.mag(c)
        dr, di = rng.randint(-3, 3), rng.randint(-3, 3)
        r = [rng.randint(-3, 3) for _ in range(self.n(i))]
        D, R = abs(dr) + abs(di) + 0, 3
        new = {"a+b": A + B, "ab": 2 * A * B, "a": A, "ad": A * D * 2, "d": D, "b": B, "a+bd": A + 2 * B * D, "b+c": B + C, "1": 1, "a+brd": A + 2 * B * R * D,
               "brd": 2 * B * R * D, "abd": 4 * A * B * D, "ard": 2 * A * R * D, "abrd": 4 * A * B * R * D, "bcd": 4 * B * C * D,
               "br": B * R, "ar": A * R, "a+br": A + B * R, "bc": 2 * B * C}
        kind = {0: "a+b", 1: "a+b", 2: "ab", 3: "ab", 4: "a", 5: "a", 6: "ad", 7: "ad", 8: "d", 9: "d", 10: "b", 11: "b", 20: "a+b", 21: "a+bd", 22: "a+bd",
                23: "b+c", 24: "1", 25: "1", 26: "a", 27: "b", 28: "a", 29: "b", 30: "a+br", 31: "a+brd", 32: "a+bd", 33: "a+bd", 34: "ab", 35: "br",
                36: "brd", 37: "abd", 38: "ar", 39: "ard", 40: "ard", 41: "ad", 42: "ad", 43: "abrd", 44: "abd", 45: "ard", 46: "brd", 47: "bcd",
                48: "abd", 49: "bc", 50: "bcd", 51: "br", 52: "brd", 53: "ad", 54: "ad", 55: "ad"}[n]
        m = new[kind]
        if n in (53, 54):
            m = 2 * B * D
        if m > M:
            return
        useb = n in (0, 1, 2, 3, 10, 11, 20, 21, 22, 23, 25, 27, 29, 30, 31, 32, 33, 34, 35, 36, 37, 43, 44, 46, 47, 48, 49, 50, 51, 52, 53, 54)
        usec = n in (23, 47, 49, 50)
        o.append("kern %d %d %d %d %d %d %s" % (n, i, b if useb else 0, c if usec else 0, dr, di, " ".join(map(str, r))))
        self.setto(i, m)


def script(rng, n):
    m = Mirror(rng)
    for _ in range(3):
        m.fill(m.new(m.kind))
    while len(m.out) < n:
        m.step()
    return m.out


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        def models():
            for a in [("Spec", "1,2,3", "11", "1,2,3,4,5,6"), ("Spec2", "1,2,3,4", "11,12", "1,2,3,4,5,6,7,8,9,10")] if ctx.quick else \
                     [("Spec", "1,2,3", "11,12", "1,2,3,4,5,6,7"), ("Spec2", "1,2,3,4", "11,12", "1,2,3,4,5,6,7,8,9,10")]:
                ctx.model_check("WaveStore", MC % a, workers=6, timeout=800)
        mc = ex.submit(models)
        exe = Builder("o0").program("wavespace", ["wavespace.cpp"], LIB)
        mc.result()
    n = ctx.scale(800, 6000)
    scripts = [script(ctx.rng, ctx.rng.choice([20, 40, 60])) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i], env={"OMP_NUM_THREADS": "13"[i % 2]})
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("WaveSpaceTrace", sessions, rec, lambda i: {"driver": "wavespace", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["complex integer contents, so that every sum and product is exact",
                       "single states of a multistate wave function are not switched to the other representation on their own"]
