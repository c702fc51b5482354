"""Runs of qdng in a scratch directory, recorded as events of RunsTrace.tla."""
import json, math, os, shutil, struct, subprocess, tempfile

DT = "1.5707963267948966"


def scaled(s):
    """A printed number times 1000: [re] or [re, im]."""
    out = []
    for p in (s[:-1] if s.endswith("i") and "," in s else s).split(","):
        try:
            x = float(p)
        except ValueError:
            return [999999999, 999999999, 999999999]
        out.append(int(round(1000 * x)) if math.isfinite(x) and abs(x) < 1e6 else 999999999)
    return out


def report(lines, i):
    """The report table starting with its header in line i."""
    head, rows = lines[i].split(), []
    for x in lines[i + 1:]:
        if x.lstrip().startswith("Warning"):
            continue
        c = x.split()
        if not c or not c[0].lstrip("-").isdigit():
            break
        rows.append([scaled(y) for y in c])
    return {"kind": "rep", "head": head, "rows": rows}


def content(path):
    if path.endswith(".cf"):
        b = open(path, "rb").read()
        if len(b) % 16:
            return {"kind": "bad"}
        return {"kind": "cf", "v": [int(round(1000 * x)) if math.isfinite(x) and abs(x) < 1e6 else 999999999 for x in struct.unpack("<%dd" % (len(b) // 8), b)]}
    try:
        text = open(path).read()
    except (UnicodeDecodeError, OSError):
        return {"kind": "bad"}
    if path.endswith("Propagation.meta"):
        d = dict((p.strip() for p in x.split("=", 1)) for x in text.splitlines() if "=" in x)
        try:
            return {"kind": "meta", "cls": d["CLASS"], "nt": int(d["Nt"]), "wc": int(d["Wcycle"]), "base": d["WFBaseName"],
                    "dt": scaled(d["dt"])[0]}
        except (KeyError, ValueError):
            return {"kind": "bad"}
    if path.endswith(".meta"):
        d = dict((p.strip() for p in x.split("=", 1)) for x in text.splitlines() if "=" in x)
        try:
            if d["CLASS"] in ("Cfun", "Cfunc"):
                return {"kind": "cfm", "nt": int(d["Nt"]), "dim": int(d["dim"]), "dt": scaled(d["dt"])[0]}
        except (KeyError, ValueError):
            pass
        return {"kind": "bad"}
    lines = text.splitlines()
    if os.path.basename(path) == "spectrum.dat":
        return {"kind": "spec"}
    if path.endswith(".energies") or os.path.basename(path) == "energy.dat":
        return {"kind": "en", "rows": [[scaled(y) for y in x.split()[:2]] + [[int(round(float(y) * 1000 / 219474.63))] for y in x.split()[2:]]
                                      for x in lines]}
    if not lines:
        return {"kind": "rep" if "norm" in os.path.basename(path) else "exp", "head": [], "rows": []}
    if lines[0].lstrip().startswith("Step"):
        return report(lines, 0)
    return {"kind": "exp", "head": lines[0].split(), "rows": [[scaled(y) for y in x.split()] for x in lines[1:]]}


class Runner:
    def __init__(self, ctx, qdng, wfio):
        self.ctx, self.qdng, self.wfio = ctx, qdng, wfio

    def waves(self, d, lines):
        sp, op = os.path.join(d, ".ws"), os.path.join(d, ".we")
        with open(sp, "w") as f:
            f.write("\n".join(lines) + "\n")
        subprocess.run([self.wfio, sp, op], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        return open(op).read().splitlines()

    def outputs(self, d):
        r = []
        for base, dirs, files in os.walk(d):
            dirs[:] = [x for x in dirs if not x.startswith(".") and x != "in"]
            r += [os.path.relpath(os.path.join(base, f), d) for f in files if not f.startswith(".")]
        return sorted(r)

    def record(self, session):
        d = tempfile.mkdtemp(prefix="r-", dir=self.ctx.work)
        ev = [{"e": "Open"}]
        try:
            os.mkdir(os.path.join(d, "in"))
            os.mkdir(os.path.join(d, ".home"))
            for c in session:
                if c["do"] == "mat":
                    with open(os.path.join(d, c["f"] + ".op"), "wb") as f:
                        f.write(struct.pack("<%dd" % len(c["v"]), *c["v"]))
                    with open(os.path.join(d, c["f"] + ".meta"), "w") as f:
                        f.write("size=%d\n" % c["n"])
                elif c["do"] in ("block", "remove"):
                    for p in (c["f"], c["f"] + ".wf", c["f"] + ".meta"):
                        p = os.path.join(d, p)
                        if os.path.isdir(p):
                            os.rmdir(p)
                        elif os.path.exists(p):
                            os.unlink(p)
                    if c["do"] == "block":
                        os.makedirs(os.path.join(d, c["f"] if "." in c["f"] else c["f"] + ".wf"))
                    ev.append({"e": c["do"].capitalize(), "f": c["f"]})
                elif c["do"] == "laser":
                    with open(os.path.join(d, "in", c["n"] + ".op"), "wb") as f:
                        f.write(struct.pack("<%dd" % len(c["d"]), *c["d"]))
                    with open(os.path.join(d, "in", c["n"] + ".meta"), "w") as f:
                        f.write("CLASS=Laser\nNt=%d\ndt=%s\n" % (len(c["d"]), repr(float(DT) * c["w"])))
                    ev.append({"e": "Laser", "n": c["n"], "d": c["d"], "w": c["w"]})
                elif c["do"] == "wf":
                    n = len(c["v"]) // (2 * c["ns"])
                    self.waves(d, ["%s %s %s%d %s" % ("multi" if c["ns"] > 1 else "level", c["f"], "%d " % c["ns"] if c["ns"] > 1 else "",
                                                      n, " ".join(map(str, c["v"])))])
                    ev.append({"e": "Wf", "f": c["f"], "v": c["v"], "ns": c["ns"]})
                else:
                    ev.append(self.run(d, c))
            return ev
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, d, c):
        cfg = c["cfg"]
        for f in self.outputs(d):
            os.utime(os.path.join(d, f), (1, 1))
        for p, t in ((".home/.qdconfig", c["conf"]["home"]), (".qdconfig", c["conf"]["cwd"])):
            p = os.path.join(d, p)
            if t:
                open(p, "w").write(t)
            elif os.path.exists(p):
                os.unlink(p)
        with open(os.path.join(d, ".input"), "w") as f:
            f.write(c["xml"])
        env = {"PATH": os.environ.get("PATH", ""), "LC_ALL": "C", "OMP_NUM_THREADS": "1", "HOME": os.path.join(d, ".home"), "TMPDIR": d}
        if c.get("nohome"):
            del env["HOME"]
        if cfg["env"]:
            env["QD_DIR"] = cfg["env"]
        args = [self.qdng] + (["-d", cfg["cl"]] if cfg["cl"] else []) + [".input"]
        with open(os.path.join(d, ".out"), "wb") as so:
            try:
                rc = subprocess.run(args, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=so, stderr=so, timeout=30).returncode
            except subprocess.TimeoutExpired:
                rc = 77
        lines = open(os.path.join(d, ".out"), errors="replace").read().splitlines()
        told = any("problematic error" in x for x in lines)
        normal = any("Normal termination" in x for x in lines)
        # a status goes with its message
        rc = 0 if rc == 0 and normal and not told else 1 if rc == 1 and told and not normal else 2000 + rc
        names = self.outputs(d)
        touched = [f for f in names if os.stat(os.path.join(d, f)).st_mtime != 1]
        waves = [f[:-3] for f in touched if f.endswith(".wf")]
        got = self.waves(d, ["dump " + w for w in waves]) if waves else []
        files = [{"f": w, "c": json.loads(x)} for w, x in zip(waves, got)]
        files += [{"f": w, "c": {"kind": "bad"}} for w in waves[len(got):]]
        files += [{"f": f, "c": content(os.path.join(d, f))} for f in touched if not f.endswith(".wf")]
        e = {"e": "Run", "ps": c["ps"], "cfg": cfg, "rc": rc, "files": files, "names": [f[:-3] if f.endswith(".wf") else f for f in names],
             "tabs": [report(lines, i) for i, x in enumerate(lines) if x.lstrip().startswith("Step\tTime")]}
        if rc > 1:
            e["tail"] = "\n".join(lines[-15:])
        return e
