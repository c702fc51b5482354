"""C10 interactive sessions: Cmd.tla, CmdMC.tla, CmdTrace.tla."""
import json
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder, ALL

MC = """SPECIFICATION Spec
CONSTANTS MaxSteps = %d
 Kinds = {}
INVARIANTS Live Clean Spoken
PROPERTY Stays
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def node(k, key="", file="", las="", ch=()):
    return {"k": k, "key": key, "file": file, "las": las, "ch": list(ch)}


def xml(d, tag="op"):
    k = d["k"]
    key = ' key="%s"' % d["key"] if d["key"] else ""
    if k == "ref":
        return '<%s ref="%s"/>' % (tag, d["key"])
    if k == "H":
        return '<%s name="HermitianMatrix" file="%s"%s/>' % (tag, d["file"][:-3], key)
    if k == "D":
        return '<%s name="MatDipole" file="%s" laser="%s"%s/>' % (tag, d["file"][:-3], d["las"][:-3], key)
    if k == "X":
        return '<%s name="Nonsense"%s/>' % (tag, key)
    if k == "B":
        return '<%s name="HermitianMatrix"' % tag
    name = {"S": "Sum", "P": "Product", "U": "RK4"}[k]
    if k == "U":
        return '<%s name="%s"%s>%s</%s>' % (tag, name, key, xml(d["ch"][0], "hamiltonian"), tag)
    if not d["ch"]:
        return '<%s name="%s"%s/>' % (tag, name, key)
    return '<%s name="%s"%s>%s</%s>' % (tag, name, key, "".join(xml(c, "o%d" % i) for i, c in enumerate(d["ch"])), tag)


class Gen:
    def __init__(self, rng):
        self.rng, self.out = rng, []
        self.dim = rng.choice([2, 2, 3])
        self.keys = {"h1": 0, "h2": 0, "d": 0, "d2": 0, "s": 0, "u": 0, "u2": 0}
        self.files = []

    def say(self, toks, q):
        self.out.append(" ".join(str(t) for t in toks) + " " + json.dumps(q, separators=(",", ":")).replace(" ", "~"))

    def wf(self, mul=1, n=None):
        """payload token, abstract"""
        rng = self.rng
        n = n or (self.dim if rng.random() < 0.9 else rng.choice([1, 2, 3]))
        x = [rng.randint(-2, 2) * mul for _ in range(2 * n)]
        tok, q = "w," + ",".join(map(str, x)), {"k": "w", "v": [[x[2 * i], x[2 * i + 1]] for i in range(n)]}
        y = rng.random()
        if y < 0.01:
            return "garbage", {"k": "bad"}
        if y < 0.02:
            return "!%d,%s" % (rng.choice([0, 200, 500, 900, 990]), tok), {"k": "bad"}
        return tok, q

    def op(self, kind=None):
        """an operator definition"""
        rng = self.rng
        f = lambda: rng.choice(["A.op", "A.op", "B.op"]) if rng.random() < 0.95 else rng.choice(["no.op", "L.op"])
        k = kind or rng.choice("HHDDDSSSPPUXB" if rng.random() < 0.3 else "HDSPRR")
        key = rng.choice([""] * 3 + [a for a in self.keys if a[0].upper() == k])
        if k == "H":
            return node("H", key, f())
        if k == "D":
            return node("D", key, f(), rng.choice(["L.op", "L.op", "K.op"]) if rng.random() < 0.95 else rng.choice(["no.op", "A.op"]))
        if k == "R":
            return node("ref", rng.choice(list(self.keys)))
        if k in "XB":
            return node(k)
        if k == "U":
            while True:
                c = self.op(rng.choice("HDSPR"))
                if c["k"] != "B" and not (c["k"] == "ref" and c["key"][0] == "u"):
                    return node("U", key, ch=[c])
        ch = []
        for _ in range(rng.choice([0, 1, 2, 2, 2, 3]) if rng.random() < 0.3 else 2):
            c = self.op(rng.choice("HDRRR" if rng.random() < 0.8 else "XSP"))
            if not (c["k"] == "ref" and (c["key"][0] in "us")):
                ch.append(c)
        if not ch and k == "P":      # the identity, or refused: not decided here
            ch.append(node("H", "", f()))
        return node(k, key, ch=ch)

    def choose(self, refs=True):
        """how to name the operator: tokens and abstract"""
        rng = self.rng
        y = rng.random()
        if refs and y < 0.7:
            k = rng.choice(list(self.keys)) if y > 0.03 else "nix"
            return ["r", k], {"how": "r", "key": k}
        if y > 0.985:
            return ["-", "-"], {"how": "-"}
        d = self.op()
        return ["x", xml(d).replace(" ", "~")], {"how": "x", "x": d}

    def path(self, names):
        """tokens name, abstract with directory that may not be there"""
        n = self.rng.choice(names)
        if self.rng.random() < 0.03:
            return "nodir/" + n, "nodir"
        return n, ""

    def writeop(self, n=None, cls=None):
        rng = self.rng
        n, d = (n, "") if n else self.path(["A", "B", "L", "K"])
        las = n[-1] in "LK"
        cls = cls or ("Laser" if las else rng.choice(["HermitianMatrix", "OHermitianMatrix"]))
        y = rng.random()
        if y < 0.02:
            cls = rng.choice(["Nonsense", "Sum"])
        if las:
            x = [rng.randint(-2, 2) for _ in range(rng.choice([3, 4, 6]))]
            tok, w = "l,1," + ",".join(map(str, x)), {"k": "l", "d": x}
        else:
            m = self.dim if rng.random() < 0.93 else rng.choice([1, 2, 3])
            a = [[rng.randint(-2, 2) for _ in range(m)] for _ in range(m)]
            x = [a[min(i, j)][max(i, j)] for i in range(m) for j in range(m)]
            tok, w = "m,%d," % m + ",".join(map(str, x)), {"k": "m", "d": x}
        if y > 0.985:
            tok, w = rng.choice([("garbage", {"k": "bad"}), ("!%d,%s" % (rng.choice([0, 300, 800]), tok), {"k": "bad"})])
        elif y > 0.975:
            cls = "HermitianMatrix" if las else "Laser"
        self.say(["writeop", n, cls, rng.choice(["-", "-", "gzip"]), tok],
                 {"c": "writeop", "file": n + ".op", "cls": cls, "dir": d, "w": w})

    def step(self):
        rng, x = self.rng, self.rng.random()
        if x < 0.05:
            self.say(["get"], {"c": "get"})
        elif x < 0.10:
            l = [[rng.choice(["a", "bb", "c_1"]), rng.choice(["1", "xy", "-2.5"])] for _ in range(rng.choice([1, 1, 2]))]
            l = [p for i, p in enumerate(l) if p[0] not in [r[0] for r in l[:i]]]
            bad = rng.random() < 0.15
            t = ";".join("%s~=~%s" % (a, b) for a, b in l) + (";q[foo]=1" if bad else "")
            self.say(["set", t], {"c": "set", "bad": bad, "set": l})
        elif x < 0.12:
            self.say(["clear"], {"c": "clear"})
        elif x < 0.125:
            self.say(["quit"], {"c": "quit"})
        elif x < 0.19:
            n, d = self.path(["w1", "w2"])
            t, w = self.wf()
            if rng.random() < 0.02:
                n = "-"
            self.say(["writewf", n, rng.choice(["-", "-", "zip"]), t], {"c": "writewf", "file": n, "dir": d, "w": w})
        elif x < 0.25:
            n = rng.choice(["w1", "w2", "w2", "A.op", "no", "-"])
            self.say(["readwf", n], {"c": "readwf", "file": n})
        elif x < 0.32:
            self.writeop()
        elif x < 0.36:
            n = rng.choice(["A.op", "B.op", "L.op", "w1", "no", "-"])
            cls = rng.choice(["HermitianMatrix"] * 4 + ["Nonsense", "-"])
            self.say(["readop", n, cls], {"c": "readop", "file": n, "cls": cls})
        elif x < 0.46:
            t, q = self.choose(False)
            q["c"] = "loadop"
            self.say(["loadop"] + t, q)
        elif x < 0.55:
            d = self.op("U" if rng.random() < 0.9 else None)
            dt, nt = rng.choice([1, 1, 1, 2, 0]), rng.choice([2, 3, 3, 4, 7])
            if d["k"] != "U" or rng.random() < 0.02:
                dt = 1
            miss = rng.random() < 0.03
            q = {"c": "loadu", "how": "x", "x": d, "dt": -1 if miss else dt, "nt": nt}
            self.say(["loadu", "x", xml(d).replace(" ", "~"), "-" if miss else dt, nt], q)
        elif x < 0.78:
            t, q = self.choose()
            w, q["w"] = self.wf(rng.choice([1, 24]))
            y = rng.random()
            ts = "-" if y < 0.5 else rng.choice([0, 1, 2, 3, 4, 8, -1])
            q.update(c="apply", t="-" if ts == "-" else "t", ts=0 if ts == "-" else ts)
            self.say(["apply"] + t + [ts, w], q)
        elif x < 0.86:
            t, q = self.choose()
            w, q["w"] = self.wf()
            q["c"] = "expec"
            self.say(["expec"] + t + [w], q)
        elif x < 0.92:
            t, q = self.choose()
            w, q["w"] = self.wf()
            w2, q["w2"] = self.wf()
            q["c"] = "matel"
            self.say(["matel"] + t + [w, w2], q)
        elif x < 0.97:
            l = [["p", rng.choice(["1", "z"])]] if rng.random() < 0.5 else []
            defs, bad = [], ""
            for _ in range(rng.choice([0, 1, 1, 2])):
                d = self.op()
                if d["k"] not in "BX":
                    defs.append(d)
            y = rng.random()
            if y < 0.15:
                bad = rng.choice(["xml", "root", "def", "tail"])
            if rng.random() < 0.1:
                defs.append(node("X"))
            attrs = "".join(' %s="%s"' % tuple(a) for a in l)
            body = "".join(xml(d, "opdef") for d in defs) + ("<huh/>" if bad == "def" else "")
            t = "<qdng%s><opdefs>%s</opdefs>%s</qdng>" % (attrs, body, "<huh/>" if bad == "tail" else "")
            if not body:
                t = "<qdng%s><opdefs/>%s</qdng>" % (attrs, "<huh/>" if bad == "tail" else "")
            if bad == "xml":
                t = t[:-4]
            if bad == "root":
                t = rng.choice(["<qdng%s/>" % attrs, "<huh%s/>" % attrs])
            self.say(["prog", t.replace(" ", "~")], {"c": "prog", "bad": bad, "set": l, "defs": defs})
        elif x < 0.985:
            self.say(rng.choice([["noise", 0], ["noise", 7], ["code"]]), {"c": "noise"})
        elif x < 0.987:
            self.say(["cutmsg", rng.choice([1, 3, 4, 6])], {"c": "cutmsg"})

    def script(self, n):
        for f in "ABLK":
            if self.rng.random() < 0.9:
                self.writeop(f)
        while len(self.out) < n:
            self.step()
        return self.out


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(lambda: ctx.model_check("CmdMC", MC % ctx.scale(4, 5), workers=5, timeout=800))
        exe = Builder("o0").program("cmd", ["cmd.cpp"], ALL)
        mc.result()
    n = ctx.scale(1500, 12000)
    scripts = [Gen(ctx.rng).script(ctx.rng.choice([15, 30, 60])) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("CmdTrace", sessions, rec, lambda i: {"driver": "cmd", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["the conversation goes over C++ streams (the named pipes only carry it)",
                       "operators whose results are exact in integers: matrices, dipole couplings, sums, products, RK4 with integer steps"]
