-------------------------------- MODULE Field --------------------------------
(* Clocks, laser fields sampled on them, and operators which couple to the fields.

   A laser has samples d, a step width dt, a factor sc, and at most one clock ck (0: none, -1: nobody can tell, after
   a clock it did not go with was given to a composition it is part of).  Operators own the lasers they were given;
   what an operator does depends only on the steps its lasers' clocks are at when it is applied.

   op kinds: hm, gp static;  md, gd one laser: -m E(t);  gr two lasers: -1/2 m E1(t) E2(t);  sum, prod, gsum, ms of
   others;  rk4 a propagator.  Vectors are complex integers, results are given times 24.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

With(f, k, v) == (k :> v) @@ f
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
VAdd(v, w) == TLCEval([i \in 1..Len(v) |-> CAdd(v[i], w[i])])
VMul(z, v) == TLCEval([i \in 1..Len(v) |-> CMul(z, v[i])])
Zero(n) == [i \in 1..n |-> <<0, 0>>]
RECURSIVE SumTo(_, _), AddTo(_, _), Cat(_)
SumTo(q, i) == IF i = 0 THEN <<0, 0>> ELSE CAdd(SumTo(q, i - 1), q[i])
AddTo(q, i) == IF i = 0 THEN 0 ELSE AddTo(q, i - 1) + q[i]
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Dot(v, w) == SumTo([i \in 1..Len(v) |-> CMul(<<v[i][1], -v[i][2]>>, w[i])], Len(v))

\* state s: ck id -> [dt, nt, st], ls id -> laser, fs name -> [d, dt], op id -> operator, n: where copies get their ids
Fresh == [ck |-> <<>>, ls |-> <<>>, fs |-> <<>>, op |-> <<>>, n |-> 1000]
Laser(d, dt) == [d |-> d, dt |-> dt, sc |-> 1, ck |-> 0]
Has(s, l) == s.ls[l].ck > 0
Now(s, l) == s.ck[s.ls[l].ck].st
\* there is no field outside the samples
At(s, l) == LET x == s.ls[l] t == Now(s, l) IN IF t >= 0 /\ t < Len(x.d) THEN x.d[t + 1] * x.sc ELSE 0
\* a clock goes with a laser that has a sample for each of its steps
Goes(s, l, c) == s.ls[l].dt = s.ck[c].dt /\ s.ck[c].nt =< Len(s.ls[l].d)
LClock(s, l, c) == IF Goes(s, l, c) THEN [s EXCEPT !.ls[l].ck = c] ELSE s
CanSet(s, l) == Has(s, l) /\ Now(s, l) >= 0 /\ Now(s, l) < Len(s.ls[l].d)
LSet(s, l, v) == [s EXCEPT !.ls[l].d[Now(s, l) + 1] = v]
\* without the factor, as the integral over the samples before now
Potential(s, l) == LET t == Now(s, l) n == Len(s.ls[l].d) IN s.ls[l].dt * AddTo(s.ls[l].d, IF t < 0 THEN 0 ELSE IF t < n THEN t ELSE n)
Energy(x) == x.dt * x.sc * x.sc * AddTo([i \in 1..Len(x.d) |-> x.d[i] * x.d[i]], Len(x.d))
\* the spectrum covers the steps of the clock; the rest of the field is gone
CanSpec(s, l) == Has(s, l) /\ s.ck[s.ls[l].ck].nt >= 1 /\ s.ck[s.ls[l].ck].nt =< Len(s.ls[l].d)
Cut(s, l) == [s EXCEPT !.ls[l].d = SubSeq(@, 1, s.ck[s.ls[l].ck].nt)]
I4(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, -1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, 1>>
Bin(d, k) == SumTo([j \in 1..Len(d) |-> CMul(<<d[j], 0>>, I4((4 \div Len(d)) * k * (j - 1)))], Len(d))
Power(d) == IF Len(d) \in {1, 2, 4} THEN [k \in 1..Len(d) \div 2 + 1 |-> LET z == Bin(d, k - 1) IN z[1] * z[1] + z[2] * z[2]] ELSE <<>>

Kids(o) == {o.ch[i] : i \in 1..Len(o.ch)} \ {0}
RECURSIVE Below(_, _)
Below(s, i) == {i} \cup UNION {Below(s, j) : j \in Kids(s.op[i])}
Lasers(s, i) == UNION {{s.op[j].ls[k] : k \in 1..Len(s.op[j].ls)} : j \in Below(s, i)}
Timed(s, i) == \A l \in Lasers(s, i) : Has(s, l)
Loose(s, i) == \E l \in Lasers(s, i) : s.ls[l].ck < 0
\* handed down; an operator's factor takes effect with the clock
FactorTo(s, i) == [s EXCEPT !.ls = [l \in DOMAIN @ |->
   LET own == {j \in Below(s, i) : s.op[j].sc # 0 /\ \E k \in 1..Len(s.op[j].ls) : s.op[j].ls[k] = l}
   IN IF own = {} THEN @[l] ELSE [@[l] EXCEPT !.sc = s.op[CHOOSE j \in own : TRUE].sc]]]
AllGo(s, i, c) == \A l \in Lasers(s, i) : Goes(s, l, c)
\* (a propagator refused a clock has no known step)
OClock(s, i, c) ==
  LET L == Lasers(s, i) B == Below(s, i) IN
  IF c # 0 /\ AllGo(s, i, c) THEN FactorTo([s EXCEPT !.ls = [l \in DOMAIN @ |-> IF l \in L THEN [@[l] EXCEPT !.ck = c] ELSE @[l]],
                                            !.op = [j \in DOMAIN @ |-> IF j \in B THEN [@[j] EXCEPT !.ck = c] ELSE @[j]]], i)
  ELSE [s EXCEPT !.ls = [l \in DOMAIN @ |-> IF l \in L THEN [@[l] EXCEPT !.ck = -1] ELSE @[l]],
                   !.op = [j \in DOMAIN @ |-> IF j \in B /\ @[j].k = "rk4" THEN [@[j] EXCEPT !.ck = -1] ELSE @[j]]]

MatVec(m, v) == TLCEval([a \in 1..Len(v) |-> SumTo([b \in 1..Len(v) |-> CMul(<<m[(a - 1) * Len(v) + b], 0>>, v[b])], Len(v))])
DiagVec(d, v) == TLCEval([a \in 1..Len(v) |-> CMul(<<d[a], 0>>, v[a])])
RECURSIVE Act(_, _, _)
Act(s, i, v) ==
  LET o == s.op[i] n == Len(o.ch) IN
  CASE o.k = "hm" -> MatVec(o.m, v)
    [] o.k = "gp" -> DiagVec(o.m, v)
    [] o.k = "md" -> VMul(<<-At(s, o.ls[1]), 0>>, MatVec(o.m, v))
    [] o.k = "gd" -> VMul(<<-At(s, o.ls[1]), 0>>, DiagVec(o.m, v))
    [] o.k = "gr" -> VMul(<<-At(s, o.ls[1]) * At(s, o.ls[2]), 0>>, DiagVec([a \in 1..Len(o.m) |-> o.m[a] \div 2], v))
    [] o.k \in {"sum", "gsum"} -> LET RECURSIVE Upto(_)
                                      Upto(q) == IF q = 0 THEN Zero(Len(v)) ELSE VAdd(Upto(q - 1), Act(s, o.ch[q], v))
                                  IN Upto(n)
    [] o.k = "prod" -> LET RECURSIVE From(_, _)
                           From(q, x) == IF q = 0 THEN x ELSE From(q - 1, Act(s, o.ch[q], x))
                       IN From(n, v)
    [] o.k = "ms" -> LET h == Len(v) \div 2
                         P(b) == SubSeq(v, (b - 1) * h + 1, b * h)
                         T(a, b) == LET c == o.ch[2 * (a - 1) + b] IN IF c = 0 THEN Zero(h) ELSE Act(s, c, P(b))
                     IN TLCEval(VAdd(T(1, 1), T(1, 2)) \o VAdd(T(2, 1), T(2, 2)))
\* 24 * (1 + z + z^2/2 + z^3/6 + z^4/24) v with z = -i dt H
RK4(s, o, v) ==
  LET dt == s.ck[o.ck].dt
      Z(x) == VMul(<<0, -dt>>, Act(s, o.ch[1], x))
      a == Z(v) b == Z(a) c == Z(b) d == Z(c)
  IN VAdd(VMul(<<24, 0>>, VAdd(v, a)), VAdd(VMul(<<12, 0>>, b), VAdd(VMul(<<4, 0>>, c), d)))
Out(s, i, v) == IF s.op[i].k = "rk4" THEN RK4(s, s.op[i], v) ELSE VMul(<<24, 0>>, Act(s, i, v))
\* a propagator gets its clock before it is used the first time, and hands it down then
First(s, i) == s.op[i].k = "rk4" /\ ~s.op[i].ini
Use(s, i) == IF First(s, i) THEN [OClock(s, i, s.op[i].ck) EXCEPT !.op[i].ini = TRUE] ELSE s
Usable(s, i) == IF s.op[i].k # "rk4" THEN Timed(s, i)
                ELSE s.op[i].ck > 0 /\ (IF s.op[i].ini THEN Timed(s, i) ELSE AllGo(s, i, s.op[i].ck))

\* operators
Op(k, m, ls, ch) == [k |-> k, m |-> m, ls |-> ls, ch |-> ch, ck |-> 0, sc |-> 0, ini |-> FALSE]
\* names of laser files; the lasers are the operator's own
CanLoad(s, fs) == \A k \in 1..Len(fs) : fs[k] \in DOMAIN s.fs
Load(s, i, k, m, sc, ids, fs) ==
  [s EXCEPT !.ls = [l \in {ids[q] : q \in 1..Len(ids)} |-> LET f == s.fs[fs[CHOOSE q \in 1..Len(ids) : ids[q] = l]] IN Laser(f.d, f.dt)] @@ @,
            !.op = With(@, i, [Op(k, m, ids, <<>>) EXCEPT !.sc = sc])]
\* a copy has parts and lasers of its own, at the same clocks; they cannot be named except those of the copy itself
RECURSIVE Copy(_, _, _, _), CopyAll(_, _, _)
Copy(s, i, j, ids) ==
  LET o == s.op[j]
      c == CopyAll(s, o.ch, <<>>)
      own == IF ids # <<>> THEN ids ELSE [q \in 1..Len(o.ls) |-> c.s.n + q]
  IN [c.s EXCEPT !.n = @ + Len(o.ls),
                 !.ls = [l \in {own[q] : q \in 1..Len(own)} |-> c.s.ls[o.ls[CHOOSE q \in 1..Len(own) : own[q] = l]]] @@ @,
                 !.op = With(@, i, [o EXCEPT !.ch = c.l, !.ls = own])]
CopyAll(s, ch, l) ==
  IF Len(l) = Len(ch) THEN [s |-> s, l |-> l]
  ELSE LET j == ch[Len(l) + 1] IN
       IF j = 0 THEN CopyAll(s, ch, Append(l, 0))
       ELSE LET t == [s EXCEPT !.n = @ + 1] IN CopyAll(Copy(t, t.n, j, <<>>), ch, Append(l, t.n))
=============================================================================
