"""Sessions of eigenstate runs: abstract programs for Eigen.tla together with the input that denotes them."""
from .rungen import Gen
from .runs import DT

CFG = {"cl": "", "env": "", "root": "", "cwd": "", "home": ""}


class EigenGen(Gen):
    def __init__(self, rng):
        Gen.__init__(self, rng, {})
        self.ns, self.n = 1, rng.choice([2, 3, 3, 4, 5, 6])
        self.N = self.n
        self.tag = 0

    def ham(self, lo, hi):
        rng, N = self.rng, self.N
        left, bl, m = list(range(N)), [], self.zero()
        while left:
            i = left.pop(rng.randrange(len(left)))
            a = rng.randint(lo, hi)
            if left and rng.random() < 0.6:
                j = left.pop(rng.randrange(len(left)))
                d = min(a - lo, hi - a)
                b = rng.choice([-1, 1]) * rng.randint(0, max(0, d)) if d else 0
                m[i * N + j] = m[j * N + i] = b
                bl.append([i + 1, j + 1])
                m[j * N + j] = a
            else:
                bl.append([i + 1])
            m[i * N + i] = a
        return {"m": m, "bl": bl}

    def levels(self, H, v):
        """the energies w has parts in"""
        N, r = self.N, set()
        w = [complex(v[2 * i], v[2 * i + 1]) for i in range(N)]
        parts = {}
        for b in H["bl"]:
            i = b[0] - 1
            if len(b) == 1:
                vs = [(H["m"][i * N + i], {i: 1})]
            else:
                j = b[1] - 1
                a, c = H["m"][i * N + i], H["m"][i * N + j]
                vs = [(a + c, {i: 1, j: 1}), (a - c, {i: 1, j: -1})]
            for e, u in vs:
                z = sum(u[k] * w[k] for k in u)
                if z:
                    r.add(e)
        return sorted(r)

    def wave(self):
        rng = self.rng
        f = "in/" + self.new("w")
        v = [0] * (2 * self.N)
        real = rng.random() < 0.5
        while not any(v):
            v = [0 if real and k % 2 else rng.choice([0, 1, -1, 2, 3, 1]) for k in range(2 * self.N)]
        self.out.append({"do": "wf", "f": f, "v": v, "ns": 1})
        self.wfs.append((f, v))
        return f

    def prop(self, name, H, at=""):
        return '<propagator name="%s"%s>%s</propagator>' % (name, at, self.opxml("hamiltonian", [{"m": H["m"], "las": ""}]))

    def emit(self, p, xml):
        base = {"m": "imag", "bad": "", "H": self.H, "wf": "", "nef": 0, "start": 0, "steps": 1, "diag": True, "conv": "", "full": True,
                "dir": "", "fname": "ef", "ename": "energy.dat", "prop": "Cheby", "read": "", "wc": 1, "tag": 0}
        base.update(p)
        self.tag += 1
        base["tag"] = self.tag
        self.out.append({"do": "run", "ps": [base], "cfg": CFG, "conf": {"home": "", "cwd": ""},
                         "xml": "<qdng>%s</qdng>" % xml})

    def imag(self, last):
        rng = self.rng
        if last and rng.random() < 0.75:
            p = dict(last)
        else:
            f, v = rng.choice(self.wfs)
            p = {"m": "imag", "wf": f, "v": v, "H": self.H, "dir": rng.choice(["A", "A", "B", ""]), "fname": rng.choice(["ef", "ef", "x"]),
                 "diag": rng.random() < 0.5}
        L = self.levels(p["H"], p["v"])
        had = last["nef"] if last else 0
        p["bad"] = ""
        p["nef"] = rng.randint(1, len(L))
        p["start"] = 0
        if last and rng.random() < 0.75:
            p["start"] = rng.choice([had, rng.randint(0, had), had + 1 if rng.random() < 0.1 else had])
            p["nef"] = max(p["nef"], p["start"] if rng.random() < 0.9 else 1)
            if p["start"] <= len(L):
                p["nef"] = min(p["nef"], len(L)) if rng.random() < 0.95 else p["nef"]
        if rng.random() < 0.15:
            p["diag"] = not p["diag"]
        p["full"] = rng.random() < 0.8
        dt = rng.choice(["0.5", "1", "1.5"])
        if p["full"]:
            steps, conv = rng.choice([150, 200]), rng.choice(["1e-8", "1e-10", "1e-9"])
            if rng.random() < 0.3:
                conv = ""
        else:
            steps, conv = rng.choice([2, 3, 4]), "1e-10"
        p["conv"], p["steps"] = "", steps
        p["ename"] = rng.choice(["energy.dat", "energy.dat", "e.energies"])
        x = rng.random()
        prop, wf = self.prop("Cheby", p["H"]), '<wf file="%s"/>' % p["wf"]
        at = 'method="imag"' if rng.random() < 0.7 else ""
        if x < 0.01:
            p["bad"], prop = "noprop", ""
        elif x < 0.02:
            p["bad"], wf = "nowf", ""
        elif x < 0.03:
            p["bad"], at = "method", 'method="guess"'
        elif x < 0.04:
            p["nef"] = 0
        elif x < 0.05:
            p["start"] = -1
        elif x < 0.06:
            p["steps"] = 0
        elif x < 0.07:
            p["conv"], conv = "large", "2"
        elif x < 0.08:
            p["start"] = p["nef"] + 1
        elif x < 0.09:
            p["bad"], dt = "dt", None
        elif x < 0.1:
            p["bad"] = "empty"
        at += (' dt="%s"' % dt if dt else "") + ' Nef="%d" steps="%d"' % (p["nef"], p["steps"])
        if conv:
            at += ' conv="%s"' % conv
        if p["start"]:
            at += ' start="%d"' % p["start"]
        if not p["diag"] or rng.random() < 0.5:
            at += ' diag="%s"' % ("true" if p["diag"] else "false")
        if p["dir"]:
            at += ' dir="%s"' % (p["dir"] + rng.choice(["", "/"]))
        if p["fname"] != "ef":
            at += ' fname="%s"' % p["fname"]
        if p["ename"] != "energy.dat":
            at += ' ename="%s"' % p["ename"]
        q = {k: p[k] for k in p if k != "v"}
        self.emit(q, "<eigen %s/>" % at if p["bad"] == "empty" else "<eigen %s>%s%s</eigen>" % (at, prop, wf))
        if p["bad"] or p["nef"] < 1 or p["start"] < 0 or p["start"] > p["nef"] or p["steps"] < 1 or p["conv"]:
            return last
        return p

    def block(self, p, f):
        self.out.append({"do": "block", "f": f})
        return f

    def lanczos(self):
        rng = self.rng
        f, v = rng.choice(self.wfs)
        H = self.H
        p = {"m": "lanczos", "wf": f, "prop": "Arnoldi", "dir": rng.choice(["L", "A", ""]), "fname": rng.choice(["ef", "y"]), "diag": True}
        at = ""
        if rng.random() < 0.05:
            p["prop"] = "Cheby"
            prop = self.prop("Cheby", H)
        else:
            prop = self.prop("Arnoldi", H, ' order="%d" conv="1e-60"' % rng.choice([8, 12, 20]))
        if p["dir"]:
            at += ' dir="%s"' % p["dir"]
        if p["fname"] != "ef":
            at += ' fname="%s"' % p["fname"]
        self.emit(p, '<eigen method="lanczos" dt="1"%s>%s<wf file="%s"/></eigen>' % (at, prop, f))

    def ac(self, series):
        rng = self.rng
        f, v = rng.choice(self.wfs)
        H = self.H
        p = {"m": "ac", "wf": f, "dir": rng.choice(["C", "A", "D"]), "fname": rng.choice(["ef", "z"]), "diag": rng.random() < 0.4,
             "steps": rng.choice([8, 16, 16, 24])}
        at = ""
        if series and rng.random() < 0.6:
            x = rng.choice(series)
            p["read"] = x["dir"]
            p["H"] = H = x["H"]
            at += ' read="%s"' % (x["dir"] + rng.choice(["", "/", "/WF"]))
            if rng.random() < 0.5:
                p["steps"] = x["steps"] + 1
        elif rng.random() < 0.03:
            p["read"] = "S9"
            at += ' read="S9/"'
        if p["diag"]:
            at += ' diag="true"'
        if p["fname"] != "ef":
            at += ' fname="%s"' % p["fname"]
        p["prop"] = rng.choice(["Cheby", "Arnoldi"])
        self.emit(p, '<eigen method="ac" dt="%s" steps="%d" win="false" dir="%s"%s>%s<wf file="%s"/></eigen>' % (
            DT, p["steps"], p["dir"], at, self.prop(p["prop"], H), f))

    def propa(self, series):
        rng = self.rng
        f, v = rng.choice(self.wfs)
        p = {"m": "propa", "wf": f, "dir": self.new("S"), "steps": rng.choice([7, 15]), "wc": 1}
        series.append({"dir": p["dir"], "H": self.H, "steps": p["steps"]})
        self.emit(p, '<propa dt="%s" steps="%d" wcycle="1" dir="%s">%s<wf file="%s"/></propa>' % (DT, p["steps"], p["dir"], self.prop("Cheby", self.H), f))

    def session(self, n):
        rng = self.rng
        narrow = rng.random() < 0.4
        self.H = self.ham(-2, 1) if narrow else self.ham(rng.choice([-4, 0, 1]), 6)
        for _ in range(2):
            self.wave()
        last, series, blocks = None, [], []
        for _ in range(n):
            x = rng.random()
            if blocks and x < 0.7:
                f = blocks.pop()
                self.out.append({"do": "remove", "f": f})
            elif last and x < 0.12:
                d = last["dir"] + "/" if last["dir"] else ""
                k = last["nef"] + rng.choice([0, 0, 1, -1])
                blocks.append(d + last["fname"] + "_%d" % max(0, k) if rng.random() < 0.85 else d + last["ename"])
                self.out.append({"do": "block", "f": blocks[-1]})
            elif last and x < 0.16:
                d = last["dir"] + "/" if last["dir"] else ""
                self.out.append({"do": "remove", "f": d + last["fname"] + "_%d" % rng.randrange(last["nef"])})
            if rng.random() < 0.1:
                self.H = self.ham(-2, 1) if narrow else self.ham(-1, 5)
                last = last if rng.random() < 0.2 else None
            y = rng.random()
            if y < (0.35 if narrow else 0.75):
                last = self.imag(last)
            elif y < (0.5 if narrow else 1.0):
                self.lanczos()
            elif y < 0.68 and narrow:
                self.propa(series)
            elif narrow:
                self.ac(series)
        return self.out
