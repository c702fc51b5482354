"""C15 laser fields on the clock: Field.tla, FieldMC.tla, FieldTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, LIB

MC = """SPECIFICATION Spec
CONSTANT MaxSteps = %d
INVARIANTS Covered Meaning Grows Parseval CopyActs Apart
PROPERTY Stays
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


class Gen:
    def __init__(self, rng):
        self.rng, self.out = rng, []
        self.grid = rng.random() < 0.55
        self.n = rng.choice([2, 2, 3] if self.grid else [1, 2, 2, 3])
        self.unit = rng.random() < 0.3
        self.cks, self.las, self.ops, self.files = {}, set(), {}, set()
        self.next = 10

    def say(self, *t):
        self.out.append(" ".join(str(x) for x in t))

    def samples(self, n=None):
        n = n or self.rng.choice([1, 2, 3, 4, 4, 4, 5, 6])
        return [self.rng.randint(-2, 2) for _ in range(n)]

    def clock(self):
        i = self.rng.choice([1, 2, 3])
        if i in self.cks and any(o[0] == "rk4" for o in self.ops.values()):
            return      # a propagator works with the step width it was clocked with
        self.cks[i] = self.rng.choice([1, 2, 3, 4, 4, 4, 5])
        self.say("clk", i, self.cks[i], 1 if self.rng.random() < 0.9 else 2)
        # the lasers at it stay at it

    def tick(self):
        i = self.rng.choice(list(self.cks))
        v = self.rng.randint(0, self.cks[i] - 1) if self.rng.random() < 0.85 else self.rng.choice([-1, -3, self.cks[i], self.cks[i] + 1, 9])
        self.say("step", i, v)

    def laser(self, i=None):
        i = i or self.rng.choice([1, 2, 3])
        self.say("las", i, 1 if self.rng.random() < 0.9 else 2, *self.samples())
        self.las.add(i)

    def anylaser(self):
        return self.rng.choice(sorted(self.las))

    def file(self):
        f = self.rng.choice("AABC") if self.rng.random() < 0.96 else "none"
        return f

    def leaf(self, small=False):
        rng = self.rng
        i, self.next = self.next, self.next + 1
        k = rng.choice(["gp", "gd", "gd", "gr", "gr"] if self.grid else ["hm", "md", "md"])
        b = 1 if small else 2
        if self.grid:
            m = [rng.randint(-b, b) * (2 if k == "gr" else 1) for _ in range(self.n)]
        else:
            m = [[0] * self.n for _ in range(self.n)]
            for a in range(self.n):
                for c in range(a + 1):
                    m[a][c] = m[c][a] = rng.randint(-b, b)
            m = sum(m, [])
        nl = {"gp": 0, "hm": 0, "gd": 1, "md": 1, "gr": 2}[k]
        fs = [self.file() for _ in range(nl)]
        sc = rng.choice([2, -1]) if k == "md" and rng.random() < 0.15 and not small else 0
        self.say("op", i, k, sc, nl, *fs, *m)
        if all(f in self.files for f in fs):
            self.ops[i] = (k, 1, set(), 0)
            for q in range(nl):
                self.las.add(i * 10 + q)
            return i
        return None

    def pick(self, f):
        c = [i for i, o in self.ops.items() if f(*o)]
        if c and self.rng.random() < 0.7:
            return self.rng.choice(c)
        return None

    def compose(self):
        rng = self.rng
        k = rng.choice(["sum", "sum", "prod", "ms", "rk4"] + (["gsum", "gsum"] if self.grid else []))
        leaf = lambda small=False: (None if small else self.pick(lambda k, u, *b: k in ("hm", "md", "gp", "gd", "gr"))) or self.leaf(small)
        if k == "rk4":
            if self.unit:
                return  # steps are multiples of 1/24 only with a whole step width
            ch = [leaf(True) for _ in range(rng.choice([1, 1, 2]))]
            if None in ch:
                return
            if len(ch) > 1:
                i, self.next = self.next, self.next + 1
                s = rng.choice(["sum", "gsum"] if self.grid else ["sum"])
                self.say("op", i, s, *ch)
                self.ops[i] = (s, 1, set(ch), 1)
                ch = [i]
            u = 1
        elif k == "prod" or k == "gsum":
            ch, u = [leaf() for _ in range(rng.choice([1, 2, 2, 3 if k == "gsum" else 2]))], 1
            if k == "gsum" and rng.random() < 0.2:
                ch.append(self.pick(lambda k, u, *b: k == "gsum"))
        elif k == "sum":
            u = 1
            ch = [self.pick(lambda k, u, *b: u == 1 and k != "rk4") or leaf() for _ in range(rng.choice([1, 2, 2, 3]))]
            if rng.random() < 0.3:
                two = [i for i, o in self.ops.items() if o[1] == 2 and o[0] != "rk4"]
                if two:
                    ch, u = [rng.choice(two) for _ in range(2)], 2
        else:
            u = 2
            ch = [(self.pick(lambda k, u, *b: u == 1 and k != "rk4") or leaf()) if rng.random() < 0.7 else 0 for _ in range(4)]
        if None in ch:
            return
        depth = 1 + max([0] + [self.ops[c][3] for c in ch if c])
        if depth > 3 or not any(ch):
            return
        i, self.next = self.next, self.next + 1
        self.say("op", i, k, *ch)
        self.ops[i] = (k, u, set(c for c in ch if c), depth)
        self.clockit(i)

    def clockit(self, i):
        if self.cks and self.rng.random() < 0.9:
            self.say("oclk", i, self.rng.choice(list(self.cks)))

    def size(self, i):
        return self.n * self.ops[i][1]

    def apply(self):
        if not self.ops:
            return
        rng = self.rng
        i = rng.choice(list(self.ops)[-6:])
        k = self.ops[i][0]
        m = rng.choice("di") if k == "rk4" else rng.choice("dddiaaem")
        v = [rng.randint(-2, 2) for _ in range(4 * self.size(i))]
        self.say("apply", i, m, *v)

    def step(self):
        rng = self.rng
        x = rng.random()
        if x < 0.03:
            self.clock()
        elif x < 0.2:
            self.tick()
        elif x < 0.23:
            self.laser()
        elif x < 0.26:
            l, f = self.anylaser(), rng.choice("ABC")
            self.say("save", l, f)
            self.files.add(f)
        elif x < 0.28:
            self.say("read", self.anylaser(), self.file())
        elif x < 0.32:
            self.say("lclk", self.anylaser(), rng.choice(list(self.cks)))
        elif x < 0.38:
            self.say(rng.choice(["get", "get", "pot", "energy"]), self.anylaser())
        elif x < 0.43:
            self.say("set", self.anylaser(), rng.randint(-2, 2))
        elif x < 0.45:
            self.say("fill", self.anylaser(), *self.samples())
        elif x < 0.46:
            self.say("scale", self.anylaser(), rng.choice([1, -1, 2]))
        elif x < 0.48:
            self.say("lcopy", self.anylaser(), self.anylaser())
        elif x < 0.50:
            l = self.anylaser()
            self.say("lclk", l, rng.choice(list(self.cks)))
            self.say("spec", l)
        elif x < 0.56:
            i = self.leaf()
            if i:
                self.clockit(i)
        elif x < 0.64:
            self.compose()
        elif x < 0.70:
            if self.ops:
                i = rng.choice(list(self.ops))
                if self.ops[i][0] != "rk4":
                    self.clockit(i)
        elif x < 0.73:
            c = [i for i in self.ops if self.ops[i][0] != "rk4"]
            if c:
                j = rng.choice(c)
                i, self.next = self.next, self.next + 1
                self.say("copy", i, j, rng.randint(0, 1), self.size(j))
                self.ops[i] = self.ops[j]
                if self.ops[j][0] in ("md", "gd", "gr"):
                    for q in range(2 if self.ops[j][0] == "gr" else 1):
                        self.las.add(i * 10 + q)
        else:
            self.apply()

    def script(self, n):
        self.say("open", "grid" if self.grid else "level", self.n, int(self.unit))
        self.cks[1] = 4
        self.say("clk", 1, 4, 1)
        for f in "AB":
            self.say("las", 1, 1, *self.samples(self.rng.choice([4, 4, 5, 6])))
            self.las.add(1)
            self.say("save", 1, f)
            self.files.add(f)
        while len(self.out) < n:
            self.step()
        return self.out


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(lambda: ctx.model_check("FieldMC", MC % ctx.scale(5, 6), workers=5, timeout=800))
        exe = Builder("o0").program("field", ["field.cpp"], LIB)
        mc.result()
    n = ctx.scale(2000, 20000)
    scripts = [Gen(ctx.rng).script(ctx.rng.choice([20, 40, 80])) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("FieldTrace", sessions, rec, lambda i: {"driver": "field", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["results exact in integers (small samples and matrices), compared within 1e-5 of 1/24"]
