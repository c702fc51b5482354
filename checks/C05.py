"""C05 parameter containers: Params.tla, ParamsMC.tla, ParamsTrace.tla."""
from concurrent.futures import ThreadPoolExecutor
from vlib.build import Builder

MC = """SPECIFICATION Spec
CONSTANTS Names = {%s}
 Vals = {%s}
 MaxLine = %d
 Alphabet = {"a", "=", "[", "]", "#", " ", "int"}
INVARIANT RoundTrip
PROPERTIES MergeRight Independent
CHECK_DEADLOCK FALSE
"""
TRACE = """SPECIFICATION TraceSpec
POSTCONDITION TraceReport
CHECK_DEADLOCK FALSE
"""


def enc(s):
    return "".join(c if c.isalnum() or c in "-_." else "%%%02x" % ord(c) for c in s) or "%"


TYPES = ["", "int", "uint", "sizet", "double", "bool", "string"]


def text(rng, val):
    k = rng.random()
    if k < 0.2:
        return str(rng.choice([0, 1, -1, 42, 999999999, -999999999, rng.randint(-10**6, 10**6)]))
    if k < 0.3:
        return rng.choice(["true", "false", "True", "yes", "truefalse", ""])
    if k < 0.4:
        return ",".join(str(rng.randint(-99, 99)) for _ in range(rng.randint(1, 6)))
    if k < 0.5:
        return rng.choice(["a,b", "a,,b", ",", "a,", ",a", "true,false,x", "1,2,", "x y,z"])
    al = "abcXYZ019._-/:;(){}<>\"'\\&*+!?$~|^@"
    mid = al + (" \t=[]#" if val else " #")
    n = rng.choice([1, 1, 2, 3, 5, 8, 20])
    s = "".join(rng.choice(mid) for _ in range(n)).strip(" \t")
    if not val:
        s = s.lstrip("#") or "k"
        s = s.strip(" \t") or "k"
        while s.startswith("#"):
            s = "k" + s[1:]
    return s


DBL = ["0", "1", "0.1", "-0.1", "4.4", "1e-300", "1e300", "0.333333333333333314829616256247", "123456.789", "1234567", "12345678.5",
       "3.14159265358979312", "-2.5e-5", "1e5", "1e6", "1e7", "100000", "999999.5", "0.0009765625", "6.02214076e23", "1e22", "1e23",
       "41.34137333656136", "1822.888486", "219474.6313705", "4.9406564584124654e-324", "1.7976931348623157e308", "1e15", "123456789012345678"]


def dbl(rng):
    return rng.choice(DBL) if rng.random() < 0.6 else repr(rng.uniform(-1, 1) * 10 ** rng.randint(-12, 12))


def line(rng, names):
    k = rng.random()
    b = lambda: rng.choice(["", " ", "  ", "\t", " \t "])
    if k < 0.06:
        return rng.choice(["", " ", "   ", "no delimiter", "# comment", "#a = b", "  # x = [y]", "# a[foo] = 3", " = 5", "  = 5", "[int] = 5", "=", "\t\t=\tx"])
    n = rng.choice(names) if rng.random() < 0.8 else text(rng, False)
    v = text(rng, True)
    if rng.random() < 0.1:
        v = rng.choice(["   ", "  ", "\t\t", ""])
    t = ""
    if rng.random() < 0.4:
        t = "[" + (rng.choice(TYPES) if rng.random() < 0.95 else rng.choice(["foo", "Int", "in", "integer", " int"])) + rng.choice(["]"] * 9 + [""])
    return b() + n + (b() + t if t else "") + b() + "=" + b() + v + b()


def script(rng, long):
    names = list({text(rng, False) for _ in range(rng.randint(2, 7))} | {"a", "ab[" [:2]})
    names = [n for n in names if n and not set(n) & set("=[]") and n == n.strip(" \t") and n[0] != "#"]
    lines = ["open"]
    have = set()
    for _ in range(rng.randint(15, 45)):
        c = rng.randint(1, 4)
        d = rng.choice(sorted(have)) if have else c
        x = rng.random()
        n = enc(rng.choice(names))
        if c not in have or x < 0.04:
            k = rng.random()
            if k < 0.5 or not have:
                lines.append("new %d" % c)
            elif k < 0.7 and d != c:
                lines.append("copy %d %d" % (c, d))
            else:
                lines.append("map %d %s" % (c, " ".join("%s %s" % (enc(m), enc(text(rng, True))) for m in rng.sample(names, rng.randint(0, len(names))))))
            have.add(c)
        elif x < 0.16:
            lines.append("str %d %s %s %s %d" % (c, n, enc(text(rng, True)), enc(rng.choice(TYPES)) if rng.random() < 0.5 else "%", rng.randint(0, 1)))
        elif x < 0.22:
            o = rng.choice(["int", "long", "size"])
            v = rng.choice([0, 1, 7, 2000000000, 65536, 123456789, rng.randint(0, 10**6)])
            lines.append("%s %d %s %d" % (o, c, n, v if o == "size" or rng.random() < 0.6 else -v))
        elif x < 0.24:
            lines.append("bool %d %s %d" % (c, n, rng.randint(0, 1)))
        elif x < 0.31:
            lines.append("dbl %d %s %s" % (c, n, dbl(rng)))
        elif x < 0.34:
            lines.append("ints %d %s %s" % (c, n, " ".join(str(rng.randint(-10**5, 10**5)) for _ in range(rng.randint(1, 7)))))
        elif x < 0.36:
            lines.append("sizes %d %s %s" % (c, n, " ".join(str(rng.randint(0, 10**8)) for _ in range(rng.randint(1, 7)))))
        elif x < 0.38:
            lines.append("bools %d %s %s" % (c, n, " ".join(str(rng.randint(0, 1)) for _ in range(rng.randint(1, 7)))))
        elif x < 0.42:
            lines.append("dbls %d %s %s" % (c, n, " ".join(dbl(rng) for _ in range(rng.randint(1, 6)))))
        elif x < 0.48:
            lines.append("%s %d %d" % (rng.choice(["add", "add", "assign"]), c, d))
        elif x < 0.49:
            lines.append("clear %d" % c)
        elif x < 0.58:
            lines.append("readback %d %d %d %d" % (c, rng.randint(1, 4), rng.randint(0, 3), rng.randint(0, 1)))
            have.add(int(lines[-1].split()[2]))
        elif x < 0.66:
            ls = [line(rng, names) for _ in range(rng.randint(0, 6))]
            mark = rng.choice(["", "", "END", "--"])
            if mark and rng.random() < 0.8:
                ls.insert(rng.randint(0, len(ls)), mark)
            if long and rng.random() < 0.7:
                ls.insert(rng.randint(0, len(ls)), "long = " + "ab" * rng.choice([1020, 1021, 1022, 1500]))
                long = False
            lines.append(("parse %d %d %s %s" % (c, rng.randint(0, 2), enc(mark), " ".join(map(enc, ls)))).strip())
        else:
            o = rng.choice(["gstr", "gint", "gdbl", "gbool", "gstrs", "gints", "gbools", "gdbls", "has", "type", "list"])
            if rng.random() < 0.1:
                n = enc("absent")
            lines.append("%s %d %s %d %d" % (o, c, n, rng.randint(0, 3) if o == "gint" else rng.randint(0, 1), rng.randint(0, 1)))
    return lines


def run(ctx):
    with ThreadPoolExecutor(2) as ex:
        mc = ex.submit(ctx.model_check, "ParamsMC", MC % (('"a", "b c"', '"", "x"', 4) if ctx.quick else ('"a", "b c"', '"", "x", "=["', 6)), workers=4, timeout=800)
        exe = Builder("o0").program("params", ["params.cpp"], ["tools"])
        mc.result()
    n = ctx.scale(500, 6000)
    scripts = [script(ctx.rng, i % 40 == 0) for i in range(n)]

    def rec(i):
        return ctx.run_driver(exe, scripts[i])
    sessions = ctx.run_sessions(rec, n)
    ctx.conform("ParamsTrace", sessions, rec, lambda i: {"driver": "params", "script": scripts[i]}, cfg=TRACE)
    ctx.assumptions = ["names without the delimiters = [ ] and not starting with #, values without line ends, arrays with at least one element",
                       "numbers are read from entries that hold a number; integers of up to nine digits are compared"]
