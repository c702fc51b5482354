"""C18 simplified input: Simple.tla, SimpleMC.tla, SimpleTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, ALL

MC = """SPECIFICATION Spec
CONSTANT MaxLen = %d
CONSTANT Pieces = {"el", "for", "none", "end", "att", "lit", "set", "more", "com"}
INVARIANTS Marks Complete1 Nested Copies Halves
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""
STR = "abcXYZ019 -.,/_+:;#%~<>^&\t"


class Prog:
    """A random program as a list of lines of tokens (texts)."""

    def __init__(self, rng):
        self.rng = rng
        self.vars = []      # (name, kind) known to be set
        self.size = rng.choice([4, 8, 14])
        self.out = []

    def name(self):
        r = self.rng
        return r.choice(["a", "b", "x1", "m0.0", "T", "propa", "force", "for_", "wf-2", "A:b", "fo", "forx"])

    def word(self):
        r = self.rng
        return r.choice(["a", "7", "1.5", "-3", "x_1", "e-9", "a.b", "for1", "0", "12"])

    def string(self):
        r = self.rng
        if r.random() < 0.03:
            return '"' + "".join(r.choice("abcd/ ") for _ in range(r.choice([1022, 1024, 1500]))) + '"'
        if r.random() < 0.4:
            return '"%s"' % r.choice(["1", "2.5", "-4", "10", "0.25", "007", "12.50"])
        return '"' + "".join(r.choice(STR) for _ in range(r.randint(1, 8))) + '"'

    def value(self, to=None):
        r = self.rng
        out = []
        # no variable refers to itself, so that values stay short
        order = ["j", "i", "v", "w", "z1"]
        known = [v for v in self.vars if to is None or order.index(v) < order.index(to)]
        for i in range(r.choice([1, 1, 1, 2, 3])):
            if i:
                out.append("~")
            x = r.random()
            if x < 0.3:
                out.append(self.word())
            elif x < 0.55 or not known:
                out.append(self.string())
            else:
                v = r.choice(known) if r.random() < 0.97 else "nope"
                out.append("$(%s)" % v)
                if r.random() < 0.4:
                    out.append(r.choice(["%.2f", "%f", "%5.1f", "%d", "%03d", "%5d", "%s", "%6s", "%.2s", "%.1f", "%.0f", "%07.3f",
                                         "%.4d", "%1.s", "%.f", "%12f", "%0d"]))
        return out

    def loop(self):
        r = self.rng
        b = r.choice(["0", "1", "2", "-1", "0.5", "0.0", "10", "1.", ".5", "999999", "1000001"])
        k = r.choice([0, 1, 2, 3, 4, -1, -3])
        s = r.choice(["1", "2", "0.1", "0.3", "0.25", "-1", "-0.1", "-2", "0.7"])
        d = r.random()
        if d < 0.3:
            e = r.choice(["3", "2", "0", "1.5", "-2", "1000003"])
            return [b, e] if abs(float(e) - float(b)) < 30 else [b, b]
        e = "%.10g" % (float(b) + k * float(s) + r.choice([0, 0, 0, 0.05]))
        if "e" in e:
            e = b
        return [b, e, s]

    def body(self, depth, kind):
        r = self.rng
        n = r.randint(0, 4)
        names = set()
        for _ in range(n):
            x = r.random()
            self.size -= 1
            if self.size < 0:
                return
            if kind == "el" and x < 0.4:
                a = self.name()
                if a in names:
                    continue
                names.add(a)
                self.out.append([a, "="] + self.value())
            elif x < 0.6:
                v = r.choice(["v", "w", "z1", "i"])
                self.out.append(["$" + v, "="] + self.value(v))
                self.vars.append(v)
            elif x < 0.85 or depth > 2:
                self.element(depth)
            else:
                self.forloop(depth)
        if r.random() < 0.2:
            self.out.append(["#" + "".join(r.choice(STR + "{}=\"$(") for _ in range(r.randint(0, 8)))])

    def element(self, depth):
        self.out.append([self.name(), "{"])
        self.body(depth + 1, "el")
        self.out.append(["}"])

    def forloop(self, depth):
        v = self.rng.choice(["i", "j", "v"])
        self.out.append(["for", "$" + v, "="] + self.loop() + ["{"])
        self.vars.append(v)
        self.body(depth + 1, "for")
        self.out.append(["}"])

    def make(self):
        r = self.rng
        for _ in range(r.choice([1, 1, 1, 2])):
            while r.random() < 0.3:
                v = r.choice(["v", "w", "z1"])
                self.out.append(["$" + v, "="] + self.value(v))
                self.vars.append(v)
            if r.random() < 0.15:
                self.forloop(0)
            else:
                self.element(0)
        if r.random() < 0.25:
            self.damage()
        return self.text()

    def damage(self):
        r = self.rng
        k = r.randrange(len(self.out))
        line = self.out[k]
        if not line:
            return
        if line[0].startswith("#"):
            return
        x = r.random()
        if x < 0.4:
            del line[r.randrange(len(line))]
        elif x < 0.75:
            line.insert(r.randint(0, len(line)), r.choice(["}", "{", "=", "~", "(", ";", ",", "/", '"', "%5", "%d", "$", "for", "$(v)", "$v", "x", "$(", "@", "!"]))
        elif x < 0.85 and "for" in line and len(line) > 5:
            line[3 + r.randrange(len(line) - 4)] = r.choice(["0x", "abc", "1x", "--1", "1:2", "-", ".", "0"])
        elif x < 0.92:
            del self.out[k]
        else:
            self.out.insert(k, list(r.choice(self.out)))

    def text(self):
        r = self.rng
        t = ""
        style = r.random()
        for line in [x for x in self.out if x]:
            for i, w in enumerate(line):
                if i and (w == "{" or line[i - 1] in ("{", "}", "=", "~") or w in ("=", "~", "}")):
                    t += r.choice(["", " "])
                elif i:
                    t += r.choice([" ", "\t", "  ", " \n "]) if w[0] not in "#" else " "
                t += w
            if line[0].startswith("#"):
                t += "\n"
            else:
                t += "\n" if style < 0.6 else r.choice([" ", "\n", "\r\n", "\n\n", "\t"])
        if r.random() < 0.3:
            t = t.rstrip("\n")
        return t


def hexa(t):
    return t.encode("latin-1").hex()


def script(rng, n):
    known, out = [], []
    for _ in range(n):
        x = rng.random()
        if known and x < 0.25:
            t = rng.choice(known)
        else:
            t = Prog(rng).make()
            known.append(t)
        y = rng.random()
        if y < 0.80:
            out.append("parse " + hexa(t))
        elif y < 0.9:
            out.append("convert %s %s" % (hexa(t), rng.choice(["out", "out", "out2", "missing/out"])))
        elif y < 0.93:
            out.append("absent")
        else:
            long = "".join(rng.choice("# ab{}\n/><") for _ in range(rng.choice([0, 3, 1020, 1021, 1022, 1023, 1024, 1025, 3000])))
            kind = rng.randrange(5)
            out.append("type " + hexa([t, "# " + long.replace("\n", " ") + "\n" + t, "\n <qdng>" + "<!-- %s -->" % ("x" * len(long)) + "</qdng>",
                                       long, "<q>%s</q>" % ("{" * len(long))][kind]))
    return out


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "SimpleMC", MC % ctx.scale(5, 6), workers=6, timeout=800, seen="rejected inserted looped skipped erroneous halves".split())
        exe = Builder("o0").program("simple", ["simple.cpp"], ALL)
        mc.result()
    n = ctx.scale(600, 8000)
    scripts = [script(ctx.rng, ctx.rng.choice([5, 10, 15])) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("SimpleTrace", sessions, rec, lambda i: {"driver": "simple", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["numbers are plain decimals of up to nine digits", "comments stand between definitions",
                       "rounding of ties and zero-padded texts are left open"]
