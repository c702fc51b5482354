-------------------------------- MODULE Cmd --------------------------------
(* The interactive session: a client sends commands, the server answers each of them and keeps a state, the global
   parameters, the files in its directory, and the operators it has been given.  Outcomes(s, q) is the set of what
   may come of command q in state s: the answers, the state afterwards, and whether the conversation is lost.

   A command which fails is answered once with an error and leaves nothing behind; the next one is served as if it
   had not been there.  Only what the client sends after a command and the server cannot make sense of (bad) may end
   the session, since nobody knows where the next command starts.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- answers
Ok == [k |-> "ok", d |-> FALSE, m |-> <<>>, r |-> <<>>]
Coming == [Ok EXCEPT !.d = TRUE]
Err == [k |-> "err", m |-> TRUE, d |-> FALSE]
Result(r) == [Ok EXCEPT !.r = r]
\* what the driver logs for a number that is too large
Far(x) == IF x < 100000000 /\ x > -100000000 THEN x ELSE 99999999
Wf(d) == [k |-> "wf", d |-> [i \in 1..Len(d) |-> Far(d[i])]]
Op(d) == [k |-> "op", d |-> d]
\* some wave function of that many numbers, or an error
SomeWf(n) == [k |-> "some", n |-> n]
SomeResult(n) == [k |-> "somer", n |-> n]
OneMatches(o, a) ==
  CASE o.k = "some" -> (a.k = "wf" /\ Len(a.d) = o.n) \/ a = Err
    [] o.k = "somer" -> (a.k = "ok" /\ Len(a.r) = o.n) \/ a = Err
    [] OTHER -> o = a
Matches(os, as) == Len(os) = Len(as) /\ \A i \in 1..Len(os) : OneMatches(os[i], as[i])

\* ---- state: gp parameters, fs files, ob operators by number, ops key -> operator, ck clocks by number, n counter
Fresh == [gp |-> <<>>, fs |-> <<>>, ob |-> <<>>, ops |-> <<>>, ck |-> <<>>, n |-> 0]
With(f, k, v) == (k :> v) @@ f
Only(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
RECURSIVE Below(_, _)
Below(ob, i) == {i} \cup UNION {Below(ob, ob[i].ch[j]) : j \in 1..Len(ob[i].ch)}

\* ---- loading an operator definition [k, key, file, las, ch]
Blank(k) == [k |-> k, m |-> <<>>, lz |-> <<>>, ch |-> <<>>, clk |-> 0, ini |-> FALSE]
IsFile(s, f, c) == f \in DOMAIN s.fs /\ s.fs[f].c = c
NoLoad(s) == [ok |-> FALSE, s |-> s, i |-> 0]
\* registered under its key; without one it cannot be asked for
Register(s, d, o) ==
  IF d.key \in DOMAIN s.ops THEN NoLoad(s)
  ELSE [ok |-> TRUE, i |-> s.n + 1,
        s |-> [s EXCEPT !.n = @ + 1, !.ob = With(@, s.n + 1, o), !.ops = IF d.key = "" THEN @ ELSE With(@, d.key, s.n + 1)]]
RECURSIVE Load(_, _), LoadAll(_, _, _)
Load(s, d) ==
  CASE d.k = "ref" -> IF d.key \in DOMAIN s.ops THEN [ok |-> TRUE, s |-> s, i |-> s.ops[d.key]] ELSE NoLoad(s)
    [] d.k = "H" -> IF IsFile(s, d.file, "m") THEN Register(s, d, [Blank("H") EXCEPT !.m = s.fs[d.file].d]) ELSE NoLoad(s)
    [] d.k = "D" -> IF IsFile(s, d.file, "m") /\ IsFile(s, d.las, "l")
                    THEN Register(s, d, [Blank("D") EXCEPT !.m = s.fs[d.file].d, !.lz = s.fs[d.las].d, !.clk = 0])
                    ELSE NoLoad(s)
    [] d.k \in {"S", "P", "U"} ->
         LET a == LoadAll(s, d.ch, <<>>) IN
         IF ~a.ok THEN NoLoad(s) ELSE Register(a.s, d, [Blank(d.k) EXCEPT !.ch = a.l])
    [] OTHER -> NoLoad(s)
LoadAll(s, ds, l) ==
  IF Len(l) = Len(ds) THEN [ok |-> TRUE, s |-> s, l |-> l]
  ELSE LET a == Load(s, ds[Len(l) + 1]) IN IF ~a.ok THEN [ok |-> FALSE, s |-> s, l |-> l] ELSE LoadAll(a.s, ds, Append(l, a.i))
\* nothing of a definition stays when it fails
Get(s, q) ==
  IF q.how = "r" THEN Load(s, [k |-> "ref", key |-> q.key])
  ELSE IF q.how = "x" THEN LET a == Load(s, q.x) IN IF a.ok THEN a ELSE NoLoad(s)
  ELSE NoLoad(s)

\* ---- what an operator does: complex integer vectors, scaled by the caller
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
VAdd(v, w) == TLCEval([i \in 1..Len(v) |-> CAdd(v[i], w[i])])
VMul(z, v) == TLCEval([i \in 1..Len(v) |-> CMul(z, v[i])])
RECURSIVE SumTo(_, _)
SumTo(q, i) == IF i = 0 THEN <<0, 0>> ELSE CAdd(SumTo(q, i - 1), q[i])
MatVec(m, v) == TLCEval([a \in 1..Len(v) |-> SumTo([b \in 1..Len(v) |-> CMul(<<m[(a - 1) * Len(v) + b], 0>>, v[b])], Len(v))])
Step(s, c) == s.ck[c].step
Field(s, o) == IF Step(s, o.clk) < Len(o.lz) THEN o.lz[Step(s, o.clk) + 1] ELSE 0
RECURSIVE Act(_, _, _)
Act(s, i, v) ==
  LET o == s.ob[i] n == Len(o.ch) IN
  CASE o.k = "H" -> MatVec(o.m, v)
    [] o.k = "D" -> VMul(<<-Field(s, o), 0>>, MatVec(o.m, v))
    [] o.k = "S" -> LET RECURSIVE Upto(_)
                        Upto(q) == IF q = 1 THEN Act(s, o.ch[1], v) ELSE VAdd(Upto(q - 1), Act(s, o.ch[q], v))
                    IN Upto(n)
    [] o.k = "P" -> LET RECURSIVE From(_, _)
                        From(q, x) == IF q = 0 THEN x ELSE From(q - 1, Act(s, o.ch[q], x))
                    IN From(n, v)
\* 24 * (1 + z + z^2/2 + z^3/6 + z^4/24) v with z = -i dt H
RK4(s, o, v) ==
  LET dt == s.ck[o.clk].dt
      Z(x) == VMul(<<0, -dt>>, Act(s, o.ch[1], x))
      a == Z(v) b == Z(a) c == Z(b) d == Z(c)
  IN VAdd(VMul(<<24, 0>>, VAdd(v, a)), VAdd(VMul(<<12, 0>>, b), VAdd(VMul(<<4, 0>>, c), d)))
\* 24 times the result, as a list of numbers
Out(s, i, v) == LET w == IF s.ob[i].k = "U" THEN RK4(s, s.ob[i], v) ELSE VMul(<<24, 0>>, Act(s, i, v)) IN
                [j \in 1..2 * Len(w) |-> w[(j + 1) \div 2][IF j % 2 = 1 THEN 1 ELSE 2]]
\* can it be applied to n components?
Ready(s, i, n) ==
  \A j \in Below(s.ob, i) : LET o == s.ob[j] IN
    CASE o.k = "H" -> Len(o.m) = n * n
      [] o.k = "D" -> Len(o.m) = n * n /\ o.clk # 0
      [] o.k = "U" -> o.clk > 0 /\ s.ck[o.clk].dt # 0
      [] o.k = "S" -> o.ch # <<>>
      [] OTHER -> TRUE
\* a clock nobody can tell
Loose(s, i) == \E j \in Below(s.ob, i) : s.ob[j].clk < 0 /\ s.ob[j].k # "H"
\* a propagator hands its clock down when it is used the first time
SetClock(s, i, c) == [s EXCEPT !.ob = [j \in DOMAIN @ |-> IF j \in Below(s.ob, i) THEN [@[j] EXCEPT !.clk = c] ELSE @[j]]]
Use(s, i) == IF s.ob[i].k = "U" /\ ~s.ob[i].ini THEN [SetClock(s, i, s.ob[i].clk) EXCEPT !.ob[i].ini = TRUE] ELSE s

Dot(v, w) == SumTo([i \in 1..Len(v) |-> CMul(<<v[i][1], -v[i][2]>>, w[i])], Len(v))

\* ---- commands.  A payload is [k: "w" (v), "m" (n, d), "l" (dt, d), "bad"]
O(a, s, over) == [a |-> a, s |-> s, over |-> over]
One(a, s) == {O(<<a>>, s, FALSE)}
Fail(s) == One(Err, s)
\* the client's data made no sense: the session may be over
Lost(a, s) == {O(a, s, TRUE), O(a, s, FALSE)}
Put(s, f, e) == [s EXCEPT !.fs = With(@, f, e)]
CanWrite(f) == f # "nodir"
Apply(s, q) ==
  LET g == Get(s, q) IN
  IF ~g.ok THEN Fail(s)
  ELSE LET o == g.s.ob[g.i]
           t == q.t IN
  IF t # "-" /\ o.clk = 0 THEN Fail(g.s)
  ELSE IF t # "-" /\ o.clk < 0 /\ q.w.k # "w" THEN Fail(g.s) \cup Lost(<<Coming, Err>>, g.s)
  ELSE IF t # "-" /\ o.clk < 0 THEN {O(<<Err>>, g.s, FALSE), O(<<Coming, SomeWf(2 * Len(q.w.v))>>, g.s, FALSE)}
  ELSE IF t # "-" /\ (q.ts < 0 \/ q.ts > g.s.ck[o.clk].nt) THEN Fail(g.s)
  ELSE LET s1 == IF t = "-" THEN g.s ELSE [g.s EXCEPT !.ck[o.clk].step = q.ts] IN
  IF q.w.k # "w" THEN Lost(<<Coming, Err>>, s1)
  ELSE IF ~Ready(s1, g.i, Len(q.w.v)) THEN {O(<<Coming, Err>>, s1, FALSE)}
  ELSE LET s2 == Use(s1, g.i) IN
       IF Loose(s2, g.i) THEN {O(<<Coming, SomeWf(2 * Len(q.w.v))>>, s2, FALSE)}
       ELSE {O(<<Coming, Wf(Out(s2, g.i, q.w.v))>>, s2, FALSE)}
Expec(s, q) ==
  LET g == Get(s, q) IN
  IF ~g.ok THEN Fail(s)
  ELSE IF q.w.k # "w" THEN Lost(<<Ok, Err>>, g.s)
  ELSE IF ~Ready(g.s, g.i, Len(q.w.v)) THEN {O(<<Ok, Err>>, g.s, FALSE)}
  ELSE LET s2 == Use(g.s, g.i) IN
       IF g.s.ob[g.i].k = "U" \/ Loose(g.s, g.i) THEN {O(<<Ok, SomeResult(1)>>, s2, FALSE)}
       ELSE {O(<<Ok, Result(<<Dot(q.w.v, Act(g.s, g.i, q.w.v))[1]>>)>>, s2, FALSE)}
Matel(s, q) ==
  IF q.w.k # "w" \/ q.w2.k # "w" THEN Lost(<<Err>>, s)
  ELSE LET g == Get(s, q) IN
  IF ~g.ok THEN Fail(s)
  ELSE IF ~Ready(g.s, g.i, Len(q.w.v)) THEN Fail(g.s)
  ELSE LET s2 == Use(g.s, g.i) IN
       IF Len(q.w2.v) # Len(q.w.v) THEN Fail(s2)
       ELSE IF g.s.ob[g.i].k = "U" \/ Loose(g.s, g.i) THEN One(SomeResult(2), s2)
       ELSE One(Result(Dot(q.w.v, Act(g.s, g.i, q.w2.v))), s2)
\* the lasers below i go with a clock of that step and length
Fits(s, i, dt, nt) == \A j \in Below(s.ob, i) : s.ob[j].k = "D" => dt = 1 /\ nt =< Len(s.ob[j].lz)
Unknown(s, i) == [s EXCEPT !.ob = [j \in DOMAIN @ |-> IF j \in i THEN [@[j] EXCEPT !.clk = -1] ELSE @[j]]]
LoadU(s, q) ==
  LET g == Get(s, q) IN
  IF q.how # "x" \/ q.dt < 0 \/ ~g.ok THEN Fail(s)
  ELSE IF g.s.ob[g.i].k # "U" THEN Fail(s)
  ELSE IF ~Fits(g.s, g.i, q.dt, q.nt) THEN {O(<<Err>>, Unknown(s, Below(g.s.ob, g.i)), FALSE)}
  ELSE LET c == g.s.n + 1 IN
       One(Ok, SetClock([g.s EXCEPT !.n = c, !.ck = With(@, c, [step |-> 0, nt |-> q.nt, dt |-> q.dt])], g.i, c))
RECURSIVE Defs(_, _)
Defs(s, ds) == IF ds = <<>> THEN [ok |-> TRUE, s |-> s]
               ELSE LET g == Load(s, ds[1]) IN IF g.ok THEN Defs(g.s, Tail(ds)) ELSE [ok |-> FALSE, s |-> s]
Merge(s, l) == [s EXCEPT !.gp = [k \in {l[i][1] : i \in 1..Len(l)} |-> l[CHOOSE i \in 1..Len(l) : l[i][1] = k][2]] @@ @]
\* a program: parameters, definitions, and whether the rest makes sense (no: the parameters may have been taken)
Prog(s, q) ==
  IF q.bad = "xml" THEN Fail(s)
  ELSE LET m == Merge(s, q.set) d == Defs(m, q.defs) IN
  IF q.bad = "root" THEN {O(<<Err>>, s, FALSE), O(<<Err>>, m, FALSE)}
  ELSE IF d.ok /\ q.bad = "" THEN One(Ok, d.s)
  ELSE {O(<<Err>>, m, FALSE), O(<<Err>>, s, FALSE)}

Outcomes(s, q) ==
  CASE q.c = "get" -> One([k |-> "params"], s)
    [] q.c = "set" -> IF q.bad THEN Fail(s) ELSE One(Ok, Merge(s, q.set))
    [] q.c = "clear" -> One(Ok, [s EXCEPT !.ob = <<>>, !.ops = <<>>, !.ck = <<>>])
    [] q.c = "quit" -> {O(<<>>, s, TRUE)}
    [] q.c = "readwf" -> IF q.file = "-" THEN Fail(s)
                         ELSE IF IsFile(s, q.file, "w") THEN {O(<<Coming, Wf(s.fs[q.file].d)>>, s, FALSE)}
                         ELSE {O(<<Coming, Err>>, s, FALSE), O(<<Err>>, s, FALSE)}
    [] q.c = "writewf" ->
         IF q.file = "-" THEN Fail(s)
         ELSE IF q.w.k # "w" THEN Lost(<<Ok, Err>>, s)
         ELSE IF ~CanWrite(q.dir) THEN {O(<<Ok, Err>>, s, FALSE)}
         ELSE {O(<<Ok, Ok>>, Put(s, q.file, [c |-> "w", d |-> [j \in 1..2 * Len(q.w.v) |-> 24 * q.w.v[(j + 1) \div 2][IF j % 2 = 1 THEN 1 ELSE 2]]]), FALSE)}
    [] q.c = "readop" -> IF q.cls = "HermitianMatrix" /\ IsFile(s, q.file, "m") THEN One(Op(s.fs[q.file].d), s) ELSE Fail(s)
    [] q.c = "writeop" ->
         IF q.file = "-" \/ q.cls \notin {"HermitianMatrix", "OHermitianMatrix", "Laser", "GridPotential"} THEN Fail(s)
         ELSE IF q.w.k # (CASE q.cls = "Laser" -> "l" [] q.cls = "GridPotential" -> "g" [] OTHER -> "m") THEN Lost(<<Ok, Err>>, s)
         ELSE IF ~CanWrite(q.dir) THEN {O(<<Ok, Err>>, s, FALSE)}
         ELSE {O(<<Ok, Ok>>, Put(s, q.file, [c |-> q.w.k, d |-> q.w.d]), FALSE)}
    [] q.c = "loadop" -> LET g == Get(s, q) IN IF g.ok THEN One(Ok, g.s) ELSE Fail(s)
    [] q.c = "loadu" -> LoadU(s, q)
    [] q.c = "apply" -> Apply(s, q)
    [] q.c = "expec" -> Expec(s, q)
    [] q.c = "matel" -> Matel(s, q)
    [] q.c = "prog" -> Prog(s, q)
    [] q.c = "noise" -> Fail(s)
    [] q.c = "cutmsg" -> {O(<<>>, s, TRUE), O(<<Err>>, s, TRUE)}
=============================================================================
