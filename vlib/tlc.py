"""Running TLC: exhaustive model checking, simulation, trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar"


class TLCError(Exception):
    """TLC itself failed: an error of the check, never a verdict on the code."""


def _classpath():
    # the wrapper script knows where CommunityModules live
    cps = [JAR]
    d = os.path.dirname(JAR)
    for f in sorted(os.listdir(d)):
        if f.endswith(".jar") and f != os.path.basename(JAR):
            cps.append(os.path.join(d, f))
    return ":".join(cps)


def run_tlc(module, cfg, work, env=None, workers=1, args=(), timeout=600, heap="2g", fast=True):
    """One TLC run of specs/<module>.tla with the text `cfg`; returns (rc, output)."""
    os.makedirs(work, exist_ok=True)
    d = tempfile.mkdtemp(prefix="tlc-", dir=work)
    for f in os.listdir(SPECS):
        if f.endswith(".tla"):
            os.symlink(os.path.join(SPECS, f), os.path.join(d, f))
    cfgp = os.path.join(d, module + "_run.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    cmd = ["java", "-Djava.io.tmpdir=" + d, "-Xmx" + heap, "-Xss16m"]
    cmd += ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if fast else ["-XX:+UseParallelGC"]
    cmd += ["-cp", _classpath(), "tlc2.TLC", "-config", os.path.basename(cfgp),
            "-workers", str(workers), "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE"]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        raise TLCError("TLC timed out on %s: %s" % (module, (ex.stdout or b"")[-2000:]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _num(s):
    return int(s.replace(",", ""))


def parse_stats(out):
    m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", out)
    if not m:
        return None
    return {"generated": _num(m[-1][0]), "distinct": _num(m[-1][1])}


def coverage(out):
    """Action -> (distinct, generated) from -coverage output."""
    res = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: ([\d,]+):([\d,]+)", out, re.M):
        res[m.group(1)] = (_num(m.group(2)), _num(m.group(3)))
    return res


def model_check(module, cfg, work, workers=4, timeout=600, heap="4g", deadlock=False, require_actions=True, ignore=(), seen=None):
    """Exhaustive check. Returns dict(ok, generated, distinct, coverage, output)."""
    # TLC's coverage unfolds recursive operators: models of such give marks instead (seen)
    args = [] if seen else ["-coverage", "1"]
    if not deadlock:
        args.append("-deadlock")
    rc, out = run_tlc(module, cfg, work, workers=workers, args=args, timeout=timeout, heap=heap, fast=False)
    st = parse_stats(out)
    ok = "Model checking completed. No error has been found." in out
    if not ok:
        raise TLCError("model checking of %s failed:\n%s" % (module, out[-6000:]))
    cov = coverage(out)
    if seen:
        marks = re.findall(r'<<"SEEN", "(\w+)">>', out)
        if set(seen) - set(marks):
            raise TLCError("vacuous model %s: never seen: %s" % (module, sorted(set(seen) - set(marks))))
        cov = {m: (0, marks.count(m)) for m in seen}
    if require_actions:
        dead = [a for a, (d, g) in cov.items() if g == 0 and a not in ignore]
        if dead:
            raise TLCError("vacuous model %s: actions never taken: %s" % (module, dead))
    return {"ok": ok, "generated": st["generated"], "distinct": st["distinct"], "coverage": cov}


def simulate(module, cfg, work, num, depth, seed, timeout=300, env=None):
    """tlc -simulate; returns the lines TLC printed that start with @@ (JSON behaviours)."""
    rc, out = run_tlc(module, cfg, work, args=["-simulate", "num=%d" % num, "-depth", str(depth),
                                               "-seed", str(seed), "-deadlock"], timeout=timeout, env=env)
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@@'):
            line = json.loads(line)
        if line.startswith("@@"):
            res.append(line[2:])
    if not res:
        raise TLCError("simulation of %s gave nothing:\n%s" % (module, out[-4000:]))
    return res


TRACE_CFG = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def validate_chunk(module, events, work, cfg=None, timeout=600, heap="2g"):
    """Validate one list of events (dicts).  Returns the number of events accepted."""
    os.makedirs(work, exist_ok=True)
    fd, path = tempfile.mkstemp(suffix=".ndjson", dir=work)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    try:
        rc, out = run_tlc(module, cfg or TRACE_CFG, work, env={"TRACE": path}, timeout=timeout, heap=heap)
    finally:
        os.unlink(path)
    m = re.findall(r'"TRACE_REACHED", (\d+), (\d+)', out)
    inv = re.findall(r"Error: (?:Invariant|Action property|Temporal properties?) (\w*) ?(?:is|were) violated", out)
    if inv:
        # the state that violates is the last one of the printed error trace
        n = len(re.findall(r"^State \d+:", out, re.M))
        return {"accepted": max(0, n - 2), "invariant": inv[0], "out": out[-3000:]}
    if not m and events and re.search(r"Error: (?:TLC threw an unexpected exception|Evaluating|The exception)", out):
        # the event at this point does not even have the form the specification reads
        ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
        if ls:
            i = out.find("Error:")
            return {"accepted": int(ls[-1]) - 1, "invariant": "form: " + out[i:i + 400], "out": out[-3000:]}
    if not m:
        raise TLCError("trace validation of %s failed:\n%s" % (module, out[max(0, out.find("Error:")):][:1500] + "\n...\n" + out[-2500:]))
    if int(m[-1][1]) != len(events):
        raise TLCError("TLC read %s of %d events" % (m[-1][1], len(events)))
    fatal = re.search(r"Error: (?!Postcondition|.*[Pp]ostcondition|The postcondition|.*POSTCONDITION)(.*)", out)
    acc = int(m[-1][0])
    if fatal and acc < len(events):
        raise TLCError("TLC error in %s at event %d: %s\n%s" % (module, acc + 1, events[acc] if acc < len(events) else "", out[-5000:]))
    return {"accepted": acc, "invariant": None, "out": "", "states": (parse_stats(out) or {}).get("generated", 0)}


def validate(module, sessions, work, cfg=None, jobs=6, max_events=6000, timeout=600, max_bad=5):
    """sessions: list of lists of events, each starting with a session-opening event.

    Returns dict(sessions, events, states, bad=[(session index, event index, invariant)]).
    A rejected session is skipped and the rest is validated, so one rejection
    hides no other.
    """
    chunks, cur, n = [], [], 0
    target = max(50, min(max_events, sum(map(len, sessions)) // jobs + 1))
    for i, s in enumerate(sessions):
        cur.append(i)
        n += len(s)
        if n >= target:
            chunks.append(cur)
            cur, n = [], 0
    if cur:
        chunks.append(cur)

    def work_chunk(ch):
        bad, states = [], 0
        todo = list(ch)
        while todo:
            events = [e for i in todo for e in sessions[i]]
            r = validate_chunk(module, events, work, cfg=cfg, timeout=timeout)
            states += r.get("states", 0)
            if r["accepted"] >= len(events) and not r["invariant"]:
                break
            k, pos = r["accepted"], 0
            for j, i in enumerate(todo):
                if k < pos + len(sessions[i]):
                    bad.append((i, k - pos, r["invariant"]))
                    todo = todo[j + 1:]
                    break
                pos += len(sessions[i])
            else:
                raise TLCError("cannot locate the rejected event")
            if len(bad) >= max_bad:
                break
        return bad, states

    bad, states = [], 0
    with ThreadPoolExecutor(jobs) as ex:
        for b, s in ex.map(work_chunk, chunks):
            bad += b
            states += s
    return {"sessions": len(sessions), "events": sum(map(len, sessions)), "states": states, "bad": sorted(bad)}
