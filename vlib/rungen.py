"""Sessions of qdng runs: abstract programs for Runs.tla together with the input that denotes them."""
from .runs import DT


class Gen:
    def __init__(self, rng, mix):
        self.rng, self.mix, self.out = rng, mix, []
        self.ns = rng.choice([1, 1, 2])
        self.n = rng.choice([2, 3] if self.ns > 1 else [2, 3, 3, 4])
        self.N = self.n * self.ns
        self.count = 0
        self.wfs, self.lasers, self.series = [], {}, []
        self.keys = {}

    def new(self, p):
        self.count += 1
        return "%s%d" % (p, self.count)

    # ---- inputs -----------------------------------------------------------
    def mat(self, m):
        f = "in/" + self.new("k")
        self.out.append({"do": "mat", "f": f, "v": m, "n": self.n})
        return f

    def laser(self, n, w=1, nonzero=False):
        v = [1, -1, 2, -2, 3] if nonzero else [0, 1, -1, 2, -2]
        name = self.new("l")
        d = [self.rng.choice(v) for _ in range(n)]
        self.lasers[name] = len(d)
        self.out.append({"do": "laser", "n": name, "d": d, "w": w})
        return name

    def wave(self):
        rng = self.rng
        f = "in/" + self.new("w")
        v = [0] * (2 * self.N)
        if rng.random() < 0.4:
            v[rng.randrange(2 * self.N)] = rng.choice([1, 1, -1, 2])
        else:
            while not any(v):
                v = [rng.choice([0, 0, 1, -1, 2]) for _ in v]
        self.out.append({"do": "wf", "f": f, "v": v, "ns": self.ns})
        self.wfs.append(f)
        return f

    # ---- operators ----------------------------------------------------------
    def sub(self, m, i, j):
        n, N = self.n, self.N
        return [m[(i * n + a) * N + j * n + b] for a in range(n) for b in range(n)]

    def single(self, tag, terms, attrs):
        """terms of one state's matrix: [(matrix, laser)]"""
        x = [("HermitianMatrix", "") if not l else ("MatDipole", ' laser="in/%s"' % l) for (_, l) in terms]
        if len(terms) == 1:
            return '<%s name="%s" file="%s"%s%s/>' % (tag, x[0][0], self.mat(terms[0][0]), x[0][1], attrs)
        return '<%s name="Sum"%s>%s</%s>' % (tag, attrs, "".join('<%s name="%s" file="%s"%s/>' % ("ABCDEF"[k], x[k][0], self.mat(t[0]), x[k][1])
                                                               for k, t in enumerate(terms)), tag)

    def opxml(self, tag, terms, attrs=""):
        terms = [(t["m"], t["las"]) for t in terms]
        if self.ns == 1:
            return self.single(tag, terms, attrs)
        s = ""
        for i in range(self.ns):
            for j in range(i, self.ns):
                part = [(self.sub(m, i, j), l) for (m, l) in terms]
                some = [t for t in part if any(t[0])]
                if i == j and not some:
                    some = [t for t in part if not t[1]][:1] or [([0] * len(part[0][0]), "")]
                if some:
                    s += self.single("m%d.%d" % (i, j), some, "")
        return '<%s name="Multistate"%s>%s</%s>' % (tag, attrs, s, tag)

    def name(self, terms):
        if self.ns > 1:
            return "OMultistate"
        return "OSum" if len(terms) > 1 else "OMatDipole" if terms[0]["las"] else "OHermitianMatrix"

    def zero(self):
        return [0] * (self.N * self.N)

    def anymat(self):
        rng, N, n = self.rng, self.N, self.n
        m = self.zero()
        for _ in range(rng.choice([1, 2, 3, 4])):
            i, j = rng.randrange(N), rng.randrange(N)
            if i // n != j // n:
                # between states the blocks have to be symmetric
                k = i % n
                l = j % n
                v = rng.choice([1, -1, 2])
                for (a, b) in ((k, l), (l, k)):
                    for (p, q) in ((i // n, j // n), (j // n, i // n)):
                        m[(p * n + a) * N + q * n + b] = v
            else:
                m[i * N + j] = m[j * N + i] = rng.choice([1, -1, 2])
        return m

    def perm(self):
        """signed exchanges of levels, now and then doubled"""
        rng, N, n = self.rng, self.N, self.n
        m = self.zero()
        two = 2 if rng.random() < 0.1 else 1
        left = list(range(N))
        while left:
            i = left.pop(0)
            c = [j for j in left if j // n == i // n or j % n == i % n]
            if c and rng.random() < 0.5:
                j = rng.choice(c)
                left.remove(j)
                m[i * N + j] = m[j * N + i] = rng.choice([1, -1]) * two
            else:
                m[i * N + i] = rng.choice([1, 1, -1]) * two
        return m

    def hamiltonian(self, steps, w=1, static=False):
        rng, N, n = self.rng, self.N, self.n
        left, bl = list(range(N)), []
        while left:
            i = left.pop(0)
            c = [j for j in left if j // n == i // n or j % n == i % n]
            if c and rng.random() < 0.6:
                j = rng.choice(c)
                left.remove(j)
                bl.append([i + 1, j + 1])
            else:
                bl.append([i + 1])

        def term(las):
            m = self.zero()
            for b in bl:
                a = rng.choice([0, 1, -1, 2])
                for i in b:
                    m[(i - 1) * N + i - 1] = a
                if len(b) == 2:
                    x = rng.choice([0, 1, 1, -1, 2])
                    m[(b[0] - 1) * N + b[1] - 1] = m[(b[1] - 1) * N + b[0] - 1] = x
            return {"m": m, "las": las}
        op = [term("")]
        if not static and self.ns == 1 and rng.random() < 0.45:
            op.append(term(self.laser(steps + rng.choice([0, 0, 1, 3]) if rng.random() < 0.96 else max(1, steps - 1), w if rng.random() < 0.97 else 3 - w)))
        return {"op": op, "bl": bl}

    def propagator(self, H):
        rng = self.rng
        timed = len(H["op"]) > 1
        if self.ns == 1 and (timed or rng.random() < 0.4):
            k = ["HermitianMatrix", "MatDipole"]
            return '<propagator name="GSPO">%s</propagator>' % "".join(
                '<%s name="%s" file="%s"%s/>' % ("AB"[i], k[1 if t["las"] else 0], self.mat(t["m"]), ' laser="in/%s"' % t["las"] if t["las"] else "")
                for i, t in enumerate(H["op"]))
        p = rng.choice(["Cheby", "Cheby", "Arnoldi", "SIL"])
        return '<propagator name="%s">%s</propagator>' % (p, self.opxml("hamiltonian", H["op"]))

    # ---- filters --------------------------------------------------------------
    def filters(self, tag, steps, w=1, kind=""):
        """a chain and its section; operators' fields cover the steps"""
        rng = self.rng
        fl, xml = [], ""
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            a = rng.choice(["expeconly"] * 5 + ["expec", "apply", "normalize"] + (["rho"] * 2 if self.ns > 1 else []))
            f = {"a": a, "op": [], "hdr": "", "val": "real", "int": False, "ms": [0, 0]}
            at = ""
            if a == "rho":
                f["ms"] = [rng.randrange(self.ns), rng.randrange(self.ns)]
                if kind == "init" and rng.random() < 0.05:
                    f["ms"][1] = self.ns
                at += ' ms="%d,%d"' % tuple(f["ms"])
            if a in ("expeconly", "expec", "rho"):
                if rng.random() < 0.5:
                    f["val"] = rng.choice(["real", "imag", "complex", "abs"])
                    at += ' value="%s"' % f["val"]
                if rng.random() < 0.25:
                    f["int"] = True
                    at += ' int="true"'
                if rng.random() < 0.6:
                    f["hdr"] = self.new("h")
                    at += ' header="%s"' % f["hdr"]
            if a in ("normalize", "rho"):
                f["hdr"] = f["hdr"] or "rho"
                xml += "<%s%s/>" % (a, at)
            else:
                ref = [k for k in self.keys if a == "expeconly"]
                if ref and rng.random() < 0.5:
                    k = rng.choice(ref)
                    f["op"] = self.keys[k]
                    xml += '<%s ref="%s"%s/>' % (a, k, at)
                else:
                    f["op"] = [{"m": self.anymat() if a == "expeconly" else self.perm(), "las": ""}]
                    if rng.random() < 0.2 and steps < 12:
                        # a field that acts on the wave function never ends: zero has no norm
                        las = self.laser(steps + rng.choice([0, 0, 1, 2]) if a == "expeconly" else 12, w, nonzero=True)
                        if a == "expeconly" and rng.random() < 0.5:
                            f["op"].append({"m": self.anymat(), "las": las})
                        elif self.ns == 1:
                            f["op"][0]["las"] = las
                    if a == "expeconly" and rng.random() < 0.3 and not any(t["las"] for t in f["op"]):
                        k = self.new("key")
                        self.keys[k] = f["op"]
                        at += ' key="%s"' % k
                    xml += self.opxml(a, f["op"], at)
                f["hdr"] = f["hdr"] or self.name(f["op"])
            fl.append(f)
        ren = {"init": False, "pre": True, "post": True, "": False}[kind]
        at = ""
        if rng.random() < 0.4:
            ren = rng.random() < 0.5
            at += ' renorm="%s"' % ("true" if ren else "false")
        file = {"init": "expec_init.dat", "pre": "expec_pre.dat", "post": "expec_post.dat", "": "expec.dat"}[kind]
        return {"on": True, "fl": fl, "ren": ren, "file": file}, '<%s%s>%s</%s>' % (tag, at, xml, tag)

    NOF = {"on": False, "fl": [], "ren": False, "file": ""}

    # ---- programs ---------------------------------------------------------------
    def propa(self, wf=None, like=None, start=0):
        rng = self.rng
        steps = rng.choice([1, 2, 3, 4, 5, 6, 8])
        wc = rng.choice([1, 1, 2, 2, 3, 4])
        p = {"p": "propa", "bad": "", "dir": rng.choice(["A", "B", "C", "", "A/N"]), "fname": rng.choice(["WF", "WF", "X"]), "steps": steps, "wcycle": wc,
             "start": start, "sg": 1 if rng.random() < 0.85 else -1, "wf": wf or rng.choice(self.wfs)}
        if like:
            for k in ("steps", "wcycle", "sg", "fname"):
                p[k] = like[0][k]
            steps, wc = p["steps"], p["wcycle"]
            if rng.random() < 0.5:
                p["dir"] = like[0]["dir"]
            p["H"], prop = like[0]["H"], like[1]
        else:
            p["H"] = self.hamiltonian(steps, p["sg"])
            prop = self.propagator(p["H"])
        at = ""
        rep = {"norm": True, "energy": True, "proj": 0, "file": ""}
        if rng.random() < 0.15:
            rep["norm"] = False
            at += ' norm="false"'
        if rng.random() < 0.3:
            rep["energy"] = False
            at += ' energy="false"'
        if rng.random() < 0.5:
            rep["proj"] = rng.choice([1, 2])
            at += ' proj0="true"' + (' proj0Abs="true"' if rep["proj"] == 2 else "")
        if rng.random() < 0.4:
            rep["file"] = self.new("norm")
            at += ' nfile="%s"' % rep["file"]
        if rng.random() < 0.2:
            at += ' scinorm="true"'
        p["rep"] = rep
        p["init"] = p["pre"] = p["post"] = self.NOF
        sec = ""
        if like and rng.random() < 0.7:
            for k in ("pre", "post"):
                p[k] = like[0][k]
            sec = like[2]
            fx = ""
        else:
            fx = ""
            if start == 0 and rng.random() < self.mix["init"]:
                p["init"], x = self.filters("filterinit", steps, p["sg"], "init")
                fx += x
            for k in ("pre", "post"):
                if rng.random() < self.mix[k]:
                    p[k], x = self.filters("filter" + k, steps, p["sg"], k)
                    sec += x
        wfx = '<wf file="%s"/>' % p["wf"]
        miss = rng.random()
        if miss < 0.01:
            p["bad"], prop = "noprop", ""
        elif miss < 0.02:
            p["bad"], wfx = "nowf", ""
        elif miss < 0.03:
            p["bad"], prop = "op", '<propagator name="Nothing"/>'
        elif miss < 0.035:
            p["steps"] = 0
        elif miss < 0.045:
            p["wcycle"] = rng.choice([0, -1])
        elif miss < 0.055:
            p["wf"] = "in/none"
            wfx = '<wf file="in/none"/>'
        elif miss < 0.065:
            p["bad"] = "empty"
        if p["fname"] != "WF":
            at += ' fname="%s"' % p["fname"]
        if p["dir"] or rng.random() < 0.1:
            at += ' dir="%s"' % p["dir"]
        if start:
            at += ' start="%d"' % start
        if p["wcycle"] != 10:
            at += ' wcycle="%d"' % p["wcycle"]
        head = 'propa dt="%s%s" steps="%d"%s' % ("-" if p["sg"] < 0 else "", DT, p["steps"], at)
        if p["bad"] == "empty":
            return p, "<%s/>" % head, None
        secs = [prop, wfx, fx + sec]
        rng.shuffle(secs)
        xml = "<%s>%s</propa>" % (head, "".join(secs))
        keyless = 'key="' not in sec and 'ref="' not in sec
        return p, xml, (p, prop, sec) if keyless and not p["bad"] else None

    def filter(self, ser=None):
        rng = self.rng
        path = ser["dir"] if ser else rng.choice(["A", "B", "C", "Q"])
        wc, steps = (ser["wcycle"] * ser["sg"], ser["steps"]) if ser else (1, 8)
        p = {"p": "filter", "bad": "", "dir": rng.choice(["F", "G", "A", ""]), "path": "" if path == "." else path, "f": self.NOF}
        xml = ""
        if rng.random() < 0.93:
            p["f"], xml = self.filters("filterdef", steps, wc)
        at = ""
        if rng.random() < 0.5 and p["f"]["on"]:
            p["f"] = dict(p["f"], file=self.new("tab") + ".dat")
            at += ' fname="%s"' % p["f"]["file"]
        if p["dir"]:
            at += ' dir="%s"' % p["dir"]
        pa = ' path="%s"' % path
        if rng.random() < 0.02:
            p["bad"], pa = "path", ""
        if not xml:
            p["bad"] = p["bad"] or ("" if rng.random() < 0.5 else "empty")
            if p["bad"] == "empty":
                return p, "<filter%s%s/>" % (pa, at)
            xml = "<nothing/>"
        return p, "<filter%s%s>%s</filter>" % (pa, at, xml)

    def side(self, n, w, us, first, last):
        """a ket or a bra with us propagators"""
        rng = self.rng
        ops, xml = [], ""
        for i in range(us + 1):
            if i:
                ops.append({"u": True, "op": []})
                xml += "<U/>"
            k = rng.choice([1, 1, 1, 2]) if (0 < i < us or (i == 0 and first) or (i == us and last)) else 0
            for _ in range(k):
                op = [{"m": self.anymat(), "las": ""}]
                if self.ns == 1 and rng.random() < 0.25:
                    op[0]["las"] = self.laser(n + rng.choice([0, 1, 4]), w, nonzero=True)
                ops.append({"u": False, "op": op})
                xml += self.opxml(rng.choice(["probe", "op", "mu"]), op)
        return ops, xml

    def cfunc(self):
        rng = self.rng
        wc = rng.choice([1, 1, 2, 3])
        steps = wc * rng.choice([1, 2, 3, 4, 5] if wc < 3 else [1, 2, 3]) + (rng.randrange(wc) if rng.random() < 0.3 else 0)
        sg = 1 if rng.random() < 0.9 else -1
        p = {"p": "cfunc", "bad": "", "dir": rng.choice(["A", "B", "Q", ""]), "fname": rng.choice(["Cfun", "Cfun", "G"]), "steps": steps, "wcycle": wc,
             "sint": rng.choice([0, 0, 0, 1, 2]), "sg": sg, "wf": rng.choice(self.wfs), "read": "", "write": rng.choice(["", "", "W", "A"])}
        at = ""
        ser = None
        c = [x for x in self.series if x["full"] >= 1]
        if rng.random() < 0.3:
            ser = rng.choice(c) if c and rng.random() < 0.95 else None
            p["read"] = ser["dir"] if ser else "Q"
            at += ' read="%s"' % p["read"]
        n, w = (ser["steps"], ser["sg"]) if ser else (steps, sg)
        p["H"] = self.hamiltonian(n, w)
        prop = self.propagator(p["H"])
        first = ser is None and rng.random() < 0.4 or rng.random() < 0.02
        kind = rng.choice([(1, 0), (1, 1), (2, 0), (2, 1), (1, 2), (1, 2)])
        if rng.random() < 0.03:
            kind = rng.choice([(3, 0), (2, 2), (1, 3)])
        p["ket"], kx = self.side(n, w, kind[0], first, rng.random() < 0.98)
        p["bra"], bx = self.side(n, w, kind[1], ser is None and rng.random() < 0.4, rng.random() < 0.02) if kind[1] else ([], "")
        ket, bra, wf = "<ket>%s</ket>" % kx, "<bra>%s</bra>" % bx if bx else "", '<wf file="%s"/>' % p["wf"]
        if ser and rng.random() < 0.5:
            wf = ""
        miss = rng.random()
        if miss < 0.01:
            p["bad"], prop = "noprop", ""
        elif miss < 0.02 and not p["read"]:
            p["bad"], wf = "nowf", ""
        elif miss < 0.03:
            p["bad"], ket = "noket", rng.choice(["", "<ket/>"])
        elif miss < 0.04:
            p["wcycle"] = rng.choice([0, -2])
        elif miss < 0.05:
            p["steps"] = 0
        elif miss < 0.06:
            p["wf"] = "in/none"
            wf = '<wf file="in/none"/>'
        if p["fname"] != "Cfun":
            at += ' fname="%s"' % p["fname"]
        if p["dir"]:
            at += ' dir="%s"' % p["dir"]
        if p["write"]:
            at += ' write="%s"' % p["write"]
        if p["sint"]:
            at += ' stepsint="%d"' % p["sint"]
        if p["wcycle"] != 1 or rng.random() < 0.5:
            at += ' wcycle="%d"' % p["wcycle"]
        secs = [prop, ket, bra, wf]
        rng.shuffle(secs)
        return p, '<cfunc dt="%s%s" steps="%d"%s>%s</cfunc>' % ("-" if sg < 0 else "", DT, p["steps"], at, "".join(secs))

    def run(self):
        rng = self.rng
        cfg = {k: "" for k in ("cl", "env", "root", "cwd", "home")}
        if rng.random() < self.mix["cfg"]:
            for k in cfg:
                if rng.random() < 0.35:
                    cfg[k] = rng.choice(["A", "B", "C", "D", "D/N"])
        eff = next((cfg[k] for k in ("cl", "env", "root", "cwd", "home") if cfg[k]), None)
        ps, xml, made = [], "", []
        self.keys = {}
        glob = ""
        gkeys = {}
        if rng.random() < self.mix["defs"]:
            for _ in range(rng.choice([1, 2])):
                k = self.new("g")
                gkeys[k] = [{"m": self.anymat(), "las": ""}]
                glob += self.opxml("opdef", gkeys[k], ' key="%s"' % k)
            glob = "<opdefs>%s</opdefs>" % glob
        for _ in range(rng.choice(self.mix["progs"])):
            self.keys = dict(gkeys)
            c = [x for x in self.series if x["full"] >= 1]
            if rng.random() < self.mix.get("cfunc", 0):
                p, x = self.cfunc()
            elif c and rng.random() < self.mix["filter"]:
                p, x = self.filter(rng.choice(self.series[-3:]) if rng.random() < 0.95 else None)
            else:
                like = [x for x in c if x["like"]]
                if like and rng.random() < self.mix["restart"]:
                    ser = rng.choice(like[-3:])
                    k = rng.randrange(ser["full"])
                    p, x, l = self.propa(wf="%s_%d" % (ser["base"], k), like=ser["like"], start=k + 1)
                else:
                    wf = None
                    if c and rng.random() < 0.3:
                        ser = rng.choice(c)
                        wf = "%s_%d" % (ser["base"], rng.randrange(ser["full"] + 1))
                    p, x, l = self.propa(wf=wf)
                if not p["bad"] and p["steps"] and p["wcycle"] > 0:
                    d = eff if eff is not None else p["dir"]
                    self.series.append({"dir": d or ".", "base": (d + "/" if d else "") + p["fname"], "wcycle": p["wcycle"], "steps": p["steps"],
                                        "full": p["steps"] // p["wcycle"], "like": l, "sg": p["sg"]})
            ps.append(p)
            xml += x
        root = rng.choice(["qdng", "multi"])
        ra = ' dir="%s"' % cfg["root"] if cfg["root"] else ""
        conf = {k: "dir = %s\n" % cfg[k] if cfg[k] else "" for k in ("cwd", "home")}
        self.out.append({"do": "run", "ps": ps, "cfg": cfg, "conf": conf, "nohome": not cfg["home"] and rng.random() < 0.1, "xml": "<%s%s>%s%s</%s>\n" % (root, ra, glob, xml, root)})

    def session(self, runs):
        for _ in range(2):
            self.wave()
        for _ in range(runs):
            self.run()
            if self.rng.random() < 0.2:
                self.wave()
        return self.out


MIXES = {
    "C11": dict(init=0.15, pre=0.15, post=0.15, cfg=0.05, defs=0.1, progs=[1, 1, 2], filter=0.1, restart=0.6),
    "C12": dict(init=0.5, pre=0.6, post=0.7, cfg=0.05, defs=0.3, progs=[1, 1, 2], filter=0.2, restart=0.15),
    "C22": dict(init=0.1, pre=0.1, post=0.2, cfg=0.1, defs=0.3, progs=[1, 2, 2], filter=0.65, restart=0.3),
    "C23": dict(init=0.1, pre=0.1, post=0.1, cfg=0.1, defs=0.1, progs=[1, 2, 2], filter=0.15, restart=0.2, cfunc=0.7),
    "C24": dict(cfunc=0.1, init=0.1, pre=0.15, post=0.2, cfg=0.7, defs=0.4, progs=[2, 3, 3, 4], filter=0.4, restart=0.3),
}
