"""Sessions over wave function files, shared by C08 and C09."""


class Mirror:
    def __init__(self, rng, damage):
        self.rng, self.damage, self.out, self.nid = rng, damage, [], 0
        self.wf, self.fo, self.hist, self.paths, self.shape = {}, {}, {}, {}, {}
        self.gf = ""

    def o(self, s):
        self.out.append(s)

    def leafspec(self, kind=None):
        rng = self.rng
        if (kind or rng.choice("LLG")) == "L":
            return ("L", (rng.choice([1, 2, 3, 4, 5, 6]),))
        dims = rng.choice([[2], [3], [4], [2, 2], [2, 3]])
        return ("G", tuple((n, a, a + rng.randint(1, 4)) for n in dims for a in [rng.randint(-3, 3)]))

    def size(self, sp):
        n = 1
        for d in sp[1]:
            n *= d if sp[0] == "L" else d[0]
        return n

    def leaf(self, sp, zero=False):
        self.nid += 1
        rng, n = self.rng, self.size(sp)
        m = 0 if zero else rng.choice([1, 3, 9])
        c = " ".join(str(rng.randint(-m, m)) for _ in range(2 * n))
        tag = rng.choice(["-", "-", "a", "bc", "x7"])
        if sp[0] == "L":
            self.o("level %d %s %d %s" % (self.nid, tag, n, c))
        else:
            self.o("gridwf %d %s %d %s %s" % (self.nid, tag, len(sp[1]), " ".join("%d %d %d" % d for d in sp[1]), c))
        return self.nid

    def make(self, sp, zero=False):
        """a wave function of shape sp: a leaf, or ("M", (leafs))"""
        if sp[0] == "M":
            subs = [self.leaf(s, zero) for s in sp[1]]
            self.nid += 1
            self.o("multi %d %s" % (self.nid, " ".join(map(str, subs))))
        else:
            self.leaf(sp, zero)
        self.wf[self.nid] = sp
        return self.nid

    def anyspec(self):
        rng = self.rng
        if rng.random() < 0.65:
            return self.leafspec()
        s = self.leafspec()
        k = rng.randint(1, 4)
        return ("M", tuple(s for _ in range(k)) if rng.random() < 0.85 else tuple(self.leafspec(s[0]) for _ in range(1)))

    def key(self, f):
        x = self.fo[f]
        return (x["name"], x["cnt"] if x["seq"] else None)

    def names(self, f):
        fmt = self.fo[f]["fmt"]
        return ["b1", "b2", "b_x"] if fmt == "binary" else ["s1", "s2", "s_x"]

    def setname(self, f, n, base=""):
        self.fo[f]["name"] = n
        self.o("name %d %s %s" % (f, n, base))

    def write(self, f, i):
        x, sp = self.fo[f], self.wf[i]
        num = "_%d" % x["cnt"] if x["seq"] else ""
        nm = x["name"]
        if x["fmt"] == "binary":
            if sp[0] == "M":
                new = [nm + ".meta"] + ["%s-%d%s" % (nm, k, e) for k in range(len(sp[1])) for e in (num + ".wf", ".meta")]
            else:
                new = [nm + ".meta", nm + num + ".wf"]
        else:
            new = [nm + num + ".wf"]
        self.o("write %d %d" % (f, i))
        for p in new:
            self.paths[p] = sp
        self.hist[self.key(f)] = sp
        self.hit.discard(self.key(f)) if hasattr(self, "hit") else None
        if x["seq"]:
            x["cnt"] += x["inc"]

    def newfile(self):
        f = len(self.fo) + 1
        fmt = self.rng.choice(["", "stream", "binary", "binary"])
        eff = fmt or self.gf
        self.fo[f] = dict(name="", fmt=eff, seq=False, cnt=0, inc=1, comp="none")
        n = self.rng.choice(self.names(f))
        self.fo[f]["name"] = n
        self.o("file %d %s" % (f, n))
        if fmt:
            self.o("out %d %s" % (f, fmt))
        return f

    def step(self):
        rng, x = self.rng, self.rng.random()
        if len(self.fo) < 2 or (x < 0.02 and len(self.fo) < 4):
            return self.newfile()
        f = rng.choice(list(self.fo))
        o = self.fo[f]
        if x < 0.10 or not self.wf:
            return self.make(self.anyspec())
        if x < 0.34:
            i = rng.choice(list(self.wf))
            same = [y for y in self.wf if self.wf[y] == self.shape.get(o["name"])]
            if o["name"] in self.shape and rng.random() < 0.7:
                i = rng.choice(same) if same else self.make(self.shape[o["name"]])
            if o["comp"] == "none" or self.wf[i][0] != "G" or True:
                self.shape[o["name"]] = self.wf[i]
                self.write(f, i)
            return
        if x < 0.62:
            if rng.random() < 0.9:
                known = [k for k in self.hist if k[0] in self.names(f)]
                if known:
                    n, c = rng.choice(known)
                    if n != o["name"]:
                        self.setname(f, n)
                    if (c is not None) != o["seq"]:
                        o["seq"] = c is not None
                        if o["seq"]:
                            o["inc"] = rng.choice([1, 1, 2])
                        self.o("seq %d %d" % (f, o["inc"]) if o["seq"] else "stop %d" % f)
                    if o["seq"] and o["cnt"] != c:
                        o["cnt"] = c
                        self.o("count %d %d" % (f, c))
            elif rng.random() < 0.5 and not o["seq"]:
                known = [k for k in self.hist if k[0] in self.names(f) and k[1] is not None]
                if known:
                    n, c = rng.choice(known)
                    keep = o["name"]
                    self.setname(f, "%s_%d" % (n, c), n)
                    self.nid += 1
                    self.o("load %d %d" % (f, self.nid))
                    self.setname(f, keep)
                    return
            sp = self.hist.get(self.key(f))
            if rng.random() < 0.45:
                self.nid += 1
                self.o("load %d %d" % (f, self.nid))
            else:
                y = rng.random()
                if sp is None or y < 0.1:
                    sp = self.anyspec()
                elif y < 0.2 and sp[0] != "M":
                    sp = self.leafspec(sp[0])
                elif y < 0.25 and sp[0] == "M":
                    sp = ("M", sp[1] + sp[1][:1])
                if y > 0.9 and sp[0] != "M":
                    self.nid += 1
                    self.o("empty %d %s" % (self.nid, sp[0]))
                    i = self.nid
                else:
                    i = self.make(sp, zero=True)
                self.wf.pop(i, None)
                self.o("read %d %d" % (f, i))
            if o["seq"]:
                # a refused read does not count
                o["cnt"] = rng.randint(0, 4)
                self.o("count %d %d" % (f, o["cnt"]))
            return
        if x < 0.68:
            return self.setname(f, rng.choice(self.names(f)))
        if x < 0.75:
            m = rng.choice(["none", "none", "zlib", "bzip"])
            o["comp"] = m
            tol = rng.choice(["", " 0", " 1", " 10", " 40"])
            return self.o("comp %d %s%s" % (f, m, tol))
        if x < 0.87:
            y = rng.random()
            if y < 0.3:
                o.update(seq=True, inc=rng.choice([1, 1, 2, 3, -1]))
                return self.o("seq %d %d" % (f, o["inc"]))
            if y < 0.4:
                o["seq"] = True
                return self.o("seq0 %d" % f)
            if y < 0.5:
                o["seq"] = False
                return self.o("stop %d" % f)
            if y < 0.7:
                o["cnt"] = rng.randint(0, 5)
                return self.o("count %d %d" % (f, o["cnt"]))
            if y < 0.8:
                o["cnt"] = 0
                return self.o("reset %d" % f)
            o["inc"] = -1 if y < 0.9 else 1
            return self.o("%s %d" % ("rev" if y < 0.9 else "fwd", f))
        if x < 0.91:
            i = rng.choice(list(self.wf))
            sp = self.wf[i]
            if sp[0] == "M":
                k = rng.randrange(len(sp[1]))
                return self.o("touch %d %d %d %d" % (i, 100 * k + rng.randrange(self.size(sp[1][k])), rng.randint(-9, 9), rng.randint(-9, 9)))
            return self.o("touch %d %d %d %d" % (i, rng.randrange(self.size(sp)), rng.randint(-9, 9), rng.randint(-9, 9)))
        if x < 0.925:
            i = rng.choice(list(self.wf))
            self.o("full %d %d %d" % (f, i, rng.choice([0, 5, 10])))
            for k in [k for k in self.hist if k[0] == o["name"]]:
                del self.hist[k]
            for p in [p for p in self.paths if p.startswith(o["name"])]:
                del self.paths[p]
            return
        if x < 0.94:
            return self.operator()
        if not self.damage:
            return self.o("ls")

    def operator(self):
        rng = self.rng
        self.nid += 1
        cut = "-%d" % rng.randint(0, 999) if self.damage and rng.random() < 0.7 else str(self.nid)
        fmt = rng.choice(["stream", "binary"])
        comp = rng.choice(["none", "none", "zlib", "bzip"])
        if cut[0] == "-" and fmt == "binary":
            comp = "none"
        if rng.random() < 0.6:
            sp = self.leafspec("G")
            self.o("gop %s %s %s %d %s %s" % (cut, fmt, comp, len(sp[1]), " ".join("%d %d %d" % d for d in sp[1]),
                                             " ".join(str(rng.randint(-9, 9)) for _ in range(self.size(sp)))))
        else:
            n = rng.randint(1, 4)
            self.o("mop %s %s %s %d %s" % (cut, fmt, comp, n, " ".join(str(rng.randint(-9, 9)) for _ in range(n * n))))

    def hurt(self):
        """damage one file, then read what it belongs to"""
        rng = self.rng
        if not self.paths:
            return
        p = rng.choice(list(self.paths))
        y = rng.random()
        if y < 0.35:
            self.o("trunc %s %s" % (p, rng.choice([str(rng.randint(0, 999)), "-%d" % rng.randint(1, 20)])))
        elif y < 0.80:
            at = "@%d" % rng.choice([rng.randint(0, 40), rng.randint(0, 160), rng.randint(0, 300)]) if rng.random() < 0.6 else str(rng.randint(0, 999))
            self.o("xor %s %s %d" % (p, at, rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255, rng.randint(1, 255)])))
        elif y < 0.9:
            self.o("fill %s %s" % (p, rng.choice(["-", "garbage", "QDngPrtoBuf"])))
        elif y < 0.96:
            self.o("rm %s" % p)
        else:
            self.o("append %s tail" % p)
        # read the owner in all ways
        for k in [k for k in self.hist if p.startswith(k[0])][:2]:
            sp = self.hist[k]
            f = next((f for f in self.fo if (self.fo[f]["fmt"] == "binary") == (k[0][0] == "b")), None)
            if f is None:
                continue
            o = self.fo[f]
            self.setname(f, k[0])
            o["seq"] = k[1] is not None
            self.o("seq %d 1" % f if o["seq"] else "stop %d" % f)
            if o["seq"]:
                o["inc"] = 1
            for how in rng.sample(["load", "read"], rng.randint(1, 2)):
                if o["seq"]:
                    o["cnt"] = k[1]
                    self.o("count %d %d" % (f, k[1]))
                if how == "load":
                    self.nid += 1
                    self.o("load %d %d" % (f, self.nid))
                else:
                    i = self.make(sp, zero=True)
                    self.wf.pop(i)
                    self.o("read %d %d" % (f, i))
            if o["seq"]:
                o["cnt"] = 0
                self.o("count %d 0" % f)
        # the file may be written again
        if rng.random() < 0.5:
            for k in [k for k in self.hist if p.startswith(k[0])]:
                del self.hist[k]


def script(rng, n, damage):
    m = Mirror(rng, damage)
    if rng.random() < 0.25:
        m.gf = rng.choice(["binary", "stream"])
        m.o("gp wf_format %s" % m.gf)
    while len(m.out) < n:
        if damage and m.hist and rng.random() < 0.25:
            m.hurt()
        else:
            m.step()
    return m.out
