"""Scaffolding of a check: scratch, drivers, conformance, evidence, verdict."""
import json, os, shutil, signal, subprocess, sys, tempfile, time, traceback, zlib, random
from concurrent.futures import ThreadPoolExecutor
from . import tlc, build

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.quick = tier == "quick"
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        for f in os.listdir(EVID):
            if f.startswith("replay-%s-" % prop):
                os.unlink(os.path.join(EVID, f))
        self.work = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.rng = random.Random(zlib.crc32(("%s/%d" % (prop, seed)).encode()))
        self.violations = []
        self.known_seen = {}
        self.level = "model_checking"
        self.assumptions = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.known = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]
                      if k["property"] == prop] if os.path.exists(os.path.join(VERIF, "known_findings.json")) else []

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- model checking of the design -------------------------------------
    def model_check(self, module, cfg, **kw):
        r = tlc.model_check(module, cfg, self.work, **kw)
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        m = self.cov.setdefault("models", [])
        m.append({"module": module, "distinct_states": r["distinct"], "generated": r["generated"],
                  "actions": {k: v[1] for k, v in r["coverage"].items()}})
        self.log("TLC", module, "distinct", r["distinct"], "generated", r["generated"])
        return r

    # ---- drivers -------------------------------------------------------------
    def run_driver(self, exe, script, env=None, timeout=60, args=(), files=None, keep=False):
        """Run one session in a scratch directory of its own; returns its events."""
        d = tempfile.mkdtemp(prefix="s-", dir=self.work)
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "LANG", "HOME", "VERIF_SEED")}
        e.update({"OMP_NUM_THREADS": "1", "LC_ALL": "C", "HOME": d, "TMPDIR": d,
                  "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99",
                  "UBSAN_OPTIONS": "halt_on_error=0:print_stacktrace=0"})
        e.update(env or {})
        try:
            if files:
                for name, content in files.items():
                    p = os.path.join(d, name)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(content if isinstance(content, bytes) else content.encode())
            sp, op = os.path.join(d, ".script"), os.path.join(d, ".events")
            with open(sp, "w") as f:
                f.write(script if isinstance(script, str) else "\n".join(script) + "\n")
            why = None
            with open(os.path.join(d, ".out"), "wb") as so:
                try:
                    p = subprocess.run([exe, sp, op] + list(args), cwd=d, env=e, stdin=subprocess.DEVNULL,
                                       stdout=so, stderr=so, timeout=timeout)
                    if p.returncode < 0:
                        why = "signal %d" % -p.returncode
                    elif p.returncode != 0:
                        why = "exit %d" % p.returncode
                except subprocess.TimeoutExpired:
                    why = "timeout"
            ev = []
            if os.path.exists(op):
                for line in open(op, errors="replace"):
                    try:
                        ev.append(json.loads(line))
                    except ValueError:
                        pass
            if why:
                tail = open(os.path.join(d, ".out"), errors="replace").read()[-1500:]
                ev.append({"e": "Crash", "why": why, "tail": tail})
            return ev
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)

    def run_sessions(self, fn, n, jobs=8):
        with ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(fn, range(n)))

    # ---- conformance ---------------------------------------------------------
    def conform(self, module, sessions, rerun, describe, cfg=None, label=None, classify=None, nontrivial=None,
                jobs=6, max_events=6000):
        """Validate recorded sessions against a trace specification.

        sessions: lists of events;  rerun(i) records session i again;
        describe(i) gives the replayable description of session i.
        classify(session, event index) may name a listed known finding.
        """
        label = label or module
        clean = [[{k: v for k, v in e.items() if k != "tail"} for e in s] for s in sessions]
        if any(not s for s in clean):
            raise tlc.TLCError("a session recorded nothing")
        r = tlc.validate(module, clean, self.work, cfg=cfg, jobs=jobs, max_events=max_events)
        self.cov["traces_validated_against_impl"] += r["sessions"]
        c = self.cov.setdefault("conformance", {}).setdefault(label, {"traces": 0, "events": 0, "tlc_states": 0,
                                                                   "event_kinds": {}})
        c["traces"] += r["sessions"]
        c["events"] += r["events"]
        c["tlc_states"] += r["states"]
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["events"]
        for s in clean:
            for e in s:
                c["event_kinds"][e["e"]] = c["event_kinds"].get(e["e"], 0) + 1
        if clean and len(self.cov["samples"]) < 4:
            i = min(range(len(clean)), key=lambda k: (abs(len(clean[k]) - 12), k))
            self.cov["samples"].append({"trace_of": label, "events": clean[i][:25]})
        self.log("TLC validated", label, ":", r["sessions"], "traces", r["events"], "events;", len(r["bad"]), "rejected")
        for (i, k, inv) in r["bad"]:
            if len(self.violations) >= 3:
                break
            again = rerun(i)
            ag = [{kk: v for kk, v in e.items() if kk != "tail"} for e in again]
            r2 = tlc.validate(module, [ag], self.work, cfg=cfg, jobs=1)
            if not r2["bad"]:
                # not repeatable: no verdict may rest on it
                self.cov.setdefault("unrepeatable_rejections", []).append(describe(i))
                self.log("rejection of session", i, "did not repeat")
                continue
            k2 = r2["bad"][0][1]
            kf = classify(ag, k2) if classify else None
            if kf:
                self.known_seen.setdefault(kf, describe(i))
                continue
            self.violation({"spec": module, "session": describe(i), "rejected_event_index": k2,
                            "rejected_event": again[k2] if k2 < len(again) else None,
                            "invariant": inv, "events": again[:k2 + 1][-60:]})
        return r

    def violation(self, obj):
        n = len(self.violations)
        path = os.path.join(EVID, "replay-%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump(obj, f, indent=1, default=str)
        self.violations.append(path)
        self.log("rejected:", json.dumps(obj.get("rejected_event", obj), default=str)[:1500])

    def finish(self):
        for k in self.known:
            # a listed finding is announced when this run met it
            if k["id"] in self.known_seen:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0


def main(argv):
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import importlib
    sys.path.insert(0, VERIF)
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module("checks." + prop)
        mod.run(ctx)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        if ctx.violations:
            # what was established before the failure still stands
            return ctx.finish()
        shutil.rmtree(ctx.work, ignore_errors=True)
        return 3
