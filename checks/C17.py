"""C17 command line options: Getopt.tla, GetoptMC.tla, GetoptTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder

MC = """SPECIFICATION Spec
CONSTANTS Texts = {"x", "-", "--", "-f", "-p", "-q", "-fq", "-qz", "-fpv", "-u", "-h"}
 MaxArgs = %d
INVARIANTS InOrder OnlyDeclared PlainKept EndMark AcceptRight LastWins
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def enc(s):
    return "".join(c if c.isalnum() or c in "-_." else "%%%02x" % ord(c) for c in s) or "%"


def value(rng):
    return rng.choice(["1", "42", "-5", "0", "007", "x", "a b", "file.qdi", "-", "--", "-x", "1.5", "a=b", "/tmp/x y", "e", "123456789",
                       "".join(rng.choice("abcdfp-=1 ") for _ in range(rng.randint(1, 6)))])


def script(rng):
    letters = rng.sample("abcdefgijklmnopqrstuvwxyzABCXYZ0189", rng.randint(1, 7))
    flags = [c for c in letters if rng.random() < 0.45]
    pars = [c for c in letters if c not in flags]
    lines = ["open"]
    for c in letters:
        if c in flags:
            lines.append("flag " + c)
        else:
            lines.append("par %s %d %s" % (c, rng.random() < 0.3, enc(rng.choice(["", "1", "17", "dflt", "a b", "-3"]))))
    unknown = [c for c in "DEFGHQRSTUVW34567" if c not in letters]
    args = []
    for _ in range(rng.choice([0, 1, 2, 3, 4, 6, 9])):
        x = rng.random()
        if x < 0.3:
            args.append(rng.choice(["file", "in.qdi", "a=1", "b", "x y", "-", "", "12"]))
        elif x < 0.34:
            args.append("--")
        elif x < 0.40:
            args.append("-" + rng.choice(unknown))
        elif x < 0.43:
            args.append("-h")
        else:
            s = "-"
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                k = rng.random()
                if k < 0.45 and flags:
                    s += rng.choice(flags)
                elif k < 0.5:
                    s += rng.choice(unknown)
                elif pars:
                    s += rng.choice(pars)
                    if rng.random() < 0.4:
                        s += value(rng)
                    break
            if s == "-":
                continue
            if s == "--":
                continue
            args.append(s)
            if s[-1] in pars and rng.random() < 0.9:
                args.append(value(rng))
    # long options ("--x...") do not exist
    args = [a for a in args if not (a.startswith("--") and a != "--")]
    lines.append("args " + " ".join(enc(a) for a in args))
    asks = []
    for c in letters + ["h", rng.choice(unknown)]:
        asks += ["given " + c, "%s %s" % (rng.choice(["str", "str", "int", "dbl", "chr"]), c)]
        if rng.random() < 0.5:
            asks.append("given " + c)
    asks += ["non %d %d" % (k, rng.randint(0, 1)) for k in range(len(args) + 1)]
    asks += ["check"] * rng.randint(1, 2)
    rng.shuffle(asks)
    return lines + asks


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "GetoptMC", MC % (4 if ctx.quick else 5), workers=4, timeout=800)
        exe = Builder("o0").program("getopt", ["getopt.cpp"], ["tools"])
        mc.result()
    n = ctx.scale(900, 12000)
    scripts = [sum((script(ctx.rng) for _ in range(4)), []) for i in range(n // 4)]
    n = len(scripts)

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("GetoptTrace", sessions, rec, lambda i: {"driver": "getopt", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["each letter is declared once, option letters are letters and digits", "POSIXLY_CORRECT is not set (arguments are permuted)"]
