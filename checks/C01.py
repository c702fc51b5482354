"""C01 wave function buffer: WFBuffer.tla, WFBufferImpl.tla, WFBufferTrace.tla."""
from vlib.build import Builder, LIB

IMPL_CFG = """SPECIFICATION Spec
CONSTANTS N = %d
 Vals = {1, 2}
 Lims = {%s}
 Fits = {%s}
 Unset = 0
INVARIANTS NoLoss Limit NeverStuck GetRight
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""
TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANT Unset = 0
INVARIANTS LimitKept HeldInMemory
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def script(rng, thorough):
    elems = rng.choice([1, 1, 2, 3, 5])
    multi = rng.choice([0, 0, 0, 2, 3])
    wb = elems * 16 * (multi or 1)
    fit = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    maxb = wb * fit + rng.choice([0, 0, 0, rng.randrange(wb)])
    mode = rng.random()
    tracked = 0 if mode < 0.15 else 1      # sessions that reload from files are not tracked by object
    lines = ["open %d %d %d %d" % (elems, maxb, multi, tracked)]
    npos = rng.randint(3, 9)
    ver = [1]

    def v():
        ver[0] += 1
        return ver[0]
    if rng.random() < 0.06:
        lines[0] = "open %d %d %d %d" % (elems, max(1, wb - rng.randint(1, wb - 1)), multi, 1)
        return lines + ["init"]
    lim = rng.choice([None, 0, 0, 1, 1, 2, 3])
    if lim is not None:
        lines.append("autolock %d" % lim)
    eff = max(1, 2 if lim is None else lim)
    start = rng.random()
    size = 0
    if start < 0.35:
        lines.append("set 0 %d" % v())
        size = 1
    elif start < 0.7:
        lines.append("init")
        size = 1
    else:
        size = rng.randint(1, npos)
        lines += ["resize %d" % size, "init"]
    locks = set()
    room = fit - eff - 1            # explicit locks that are safe
    wild = rng.random() < 0.25      # may run into a refusal
    saved = 0
    n = rng.randint(25, 60) if thorough else rng.randint(15, 45)
    for _ in range(n):
        x = rng.random()
        i = rng.randrange(min(npos, size + 2))
        if size == 0:
            lines.append("init" if x < 0.5 else "set 0 %d" % v())
            size = 1
        elif x < 0.24:
            lines.append("set %d %d" % (i, v()))
            size = max(size, i + 1)
        elif x < 0.32 and size < npos:
            lines.append("add %d" % v())
            size += 1
        elif x < 0.62:
            j = rng.randrange(size) if rng.random() < 0.97 else size + rng.randrange(3)
            lines.append("%s %d %d" % (rng.choice(["get", "get", "idx"]), j, v() if rng.random() < 0.35 else 0))
        elif x < 0.70:
            lines.append("write %d %d" % (rng.randrange(size), v()))
        elif x < 0.79:
            j = rng.randrange(size)
            if j in locks or wild or len(locks) < room:
                if rng.random() < 0.7:
                    lines.append("get %d 0" % j)
                lines.append("lock %d" % j)
                locks.add(j)
        elif x < 0.86:
            j = rng.choice(sorted(locks)) if locks and rng.random() < 0.8 else rng.randrange(size)
            lines.append("unlock %d" % j)
            locks.discard(j)
        elif x < 0.90:
            k = rng.choice([0, 1, size - 1, size + 1, npos]) if rng.random() < 0.8 else size
            lines.append("resize %d" % k)
            if k < size:
                locks.clear()
            size = k
        elif x < 0.92:
            lines.append("clear")
            locks.clear()
            size = 0
            if rng.random() < 0.5:
                lines.append("autolock %d" % rng.choice([0, 1, 2, 3]))
                lines.append("size")
        elif x < 0.94:
            lines.append("size")
        elif not tracked and not multi and size > 0:
            if saved and rng.random() < 0.5:
                b = rng.randrange(saved)
                k = rng.choice([1, 1, 2, 3])
                m = rng.choice([-1, -1, 1, 2, saved])
                lines.append("load %d %d %d" % (b, k, m))
                avail = (saved - 1 - b) // k + 1
                size = avail if m < 0 else min(m, avail)
                locks.clear()
            elif all(True for _ in ()):
                # a series needs every position written
                for j in range(size):
                    lines.append("set %d %d" % (j, v()))
                lines.append("save")
                saved = max(saved, size)
                lines.append("size")
                if saved != size:
                    break
    # a last look at everything
    for j in range(size):
        lines.append("get %d 0" % j)
    return lines


def long_script(rng):
    """Many positions, nearly all of them on disk."""
    fit = rng.randint(3, 40)
    n = rng.randint(270, 420)
    lines = ["open 1 %d 0 1" % (16 * fit), "autolock %d" % rng.choice([1, 2, 3])]
    lines += ["set %d %d" % (i, 1000 + i) for i in range(n)]
    lines += ["get %d %d" % (rng.randrange(n), 5000 + k if rng.random() < 0.3 else 0) for k in range(60)]
    lines += ["get %d 0" % i for i in range(n - 1, -1, -1)]
    return lines + ["resize %d" % rng.randint(1, 20), "size"]


def run(ctx):
    ctx.model_check("WFBufferImpl", IMPL_CFG % ((3, "0, 2", "1, 2") if ctx.quick else (4, "0, 1, 2, 3", "1, 2, 3, 4")),
                    workers=8, timeout=800, heap="12g")
    exe = Builder("o0").program("wfbuffer", ["wfbuffer.cpp"], LIB)
    n = ctx.scale(700, 6000)
    scripts = [script(ctx.rng, not ctx.quick) for _ in range(n)]
    scripts += [long_script(ctx.rng) for _ in range(ctx.scale(6, 60))]
    n = len(scripts)

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.log("recorded", n, "sessions")
    ctx.conform("WFBufferTrace", sessions, rec, lambda i: {"driver": "wfbuffer", "script": scripts[i]}, cfg=TRACE_CFG)
    ctx.assumptions = ["position 0 is written or Init is called before other positions spill (documented use)",
                       "files in the temporary directory are not touched by others"]
