"""C02 aligned memory pool: Memory.tla, MemoryMC.tla, MemoryTrace.tla."""
from vlib.build import Builder
from concurrent.futures import ThreadPoolExecutor

MC = """SPECIFICATION Spec
CONSTANTS Ids = {1, 2, 3}
 Sizes = {1, 2, 3, 5}
 Maxes = {0, 3, 6, 9}
 Blocks = {1, 2, 4}
INVARIANTS Accounting Decided
PROPERTIES GrowsBelowLimit HighIsPeak
CONSTRAINT Small
"""
TRACE = """SPECIFICATION TraceSpec
INVARIANT Accounting
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""
UN = ["", "K", "M", "G", "T"]


def script(rng, blk):
    mx = rng.choice([5, 40, 100, 333, 1000]) * blk + rng.randrange(blk) if blk > 1 else rng.choice([1, 50, 333, 1000, 4096, 10000])
    lines = ["open %d" % mx]
    ids, nxt, used = [], 1, 0
    for _ in range(rng.randint(10, 60)):
        x = rng.random()
        if x < 0.45:
            r = rng.random()
            if r < 0.5:
                n = rng.randint(1, max(1, mx // 4))
            elif r < 0.75:
                n = rng.choice([blk, blk + 1, max(1, blk - 1), 2 * blk, 3])
            else:
                n = rng.choice([mx, mx + 1, max(1, mx - 1), max(1, mx // 2), 3 * mx])
            lines.append("alloc %d %d" % (nxt, n))
            ids.append(nxt)
            nxt += 1
        elif x < 0.72:
            i = rng.choice(ids) if ids and rng.random() < 0.9 else 900 + rng.randrange(4)
            lines.append("free %d" % i)
            if i in ids:
                ids.remove(i)
        elif x < 0.78:
            lines.append("cleanup")
        elif x < 0.86:
            u = rng.randrange(3)
            m = rng.randint(0, 9) if u else rng.randint(0, 2 * mx)
            suf = rng.choice(["", "B"]) if True else ""
            lines.append("reconf %d%s%s %d" % (m, UN[u], suf, m * 1024 ** u))
        elif x < 0.90 and len(ids) > 1:
            lines.append("copy %d %d" % tuple(rng.sample(ids, 2)))
        elif x < 0.95:
            r = rng.random()
            if r < 0.7:
                # sizes that fit 64 bits
                s = "%d%s%s" % (rng.choice([0, 1, 2, 7, 99, 1023, 1024, 1025, 4096, 100000, 1234567]), rng.choice(UN), rng.choice(["", "B"]))
            else:
                s = rng.choice(["", "B", "K", "KB", "M", "1.5G", "x", "12x", "-1", "1KK", "1BK", "K1", "1k", "1BB", "0x10", "T"])
            lines.append("read " + s)
        else:
            u = rng.randrange(5)
            v = max(0, 1024 ** u * rng.choice([0, 1, 1, 2, 5, 100, 1023, 1024]) + rng.choice([0, 1, -1, 1024 ** max(0, u - 1) * rng.randint(0, 1023)]))
            lines.append("format %d" % v)
    return lines


def run(ctx):
    with ThreadPoolExecutor(3) as ex:
        mc = ex.submit(ctx.model_check, "MemoryMC", MC, workers=4)
        exes = [Builder(v).program("memory", ["memory.cpp"], ["tools"]) for v in ("o0", "ndebug")]
        mc.result()
    n = ctx.scale(600, 6000)
    scripts = [(exes[i % 3 == 2], script(ctx.rng, 4096 if i % 3 == 2 else 1)) for i in range(n)]

    def rec(i):
        return ctx.run_driver(*scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("MemoryTrace", sessions, rec, lambda i: {"driver": "memory", "variant": "ndebug" if i % 3 == 2 else "o0", "script": scripts[i][1]}, cfg=TRACE)
    ctx.assumptions = ["blocks are freed at most once (documented use of the pool)", "sizes fit 64 bits"]
