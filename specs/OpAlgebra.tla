------------------------------- MODULE OpAlgebra -------------------------------
(* Composed operators as linear maps.

   A session works in one space: single wave functions (unit "a") with n complex
   components of weight w, and multistate wave functions (unit "b") made of s of
   them.  Every operator is a node; sums, products, multistate matrices and grid
   sums refer to other nodes, so a node can occur in several compositions.
   Act says what linear map a node denotes.  Components are complex integers
   <<re, im>>, so that everything is exact.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES nd,   \* id -> operator
          wf,   \* id -> [u, x] wave function
          sp,   \* the space [n, s, w]
          now   \* time step of the clock
vars == <<nd, wf, sp, now>>

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
Conj(a) == <<a[1], -a[2]>>
Real(x) == <<x, 0>>
RECURSIVE CSum(_, _)
CSum(q, k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(CSum(q, k - 1), q[k])
Sum(q) == CSum(q, Len(q))
VAdd(v, x) == TLCEval([k \in 1..Len(v) |-> CAdd(v[k], x[k])])
VMul(z, v) == TLCEval([k \in 1..Len(v) |-> CMul(z, v[k])])
Zero(n) == [k \in 1..n |-> <<0, 0>>]
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
Dot(v, x) == LET s == Sum([k \in 1..Len(v) |-> CMul(Conj(v[k]), x[k])]) IN <<sp.w * s[1], sp.w * s[2]>>
Part(v, k) == SubSeq(v, (k - 1) * sp.n + 1, k * sp.n)
Size(u) == IF u = "a" THEN sp.n ELSE sp.n * sp.s

\* k kind, u unit, z factor, m real matrix, d diagonal, lz laser, vs vectors, sg sign, inv, ch operands, mx matrix of operands
Blank(k, u) == [k |-> k, u |-> u, z |-> <<1, 0>>, m |-> <<>>, d |-> <<>>, lz |-> <<>>, vs |-> <<>>, sg |-> 1, inv |-> FALSE,
                ch |-> <<>>, mx |-> <<>>, sym |-> TRUE, one |-> FALSE, nm |-> <<>>, cj |-> FALSE, clk |-> FALSE, ini |-> FALSE]
Kids(N, i) == {N[i].ch[k] : k \in 1..Len(N[i].ch)} \cup
              ({N[i].mx[a][b] : a \in 1..Len(N[i].mx), b \in 1..Len(N[i].mx)} \ {0})
RECURSIVE Below(_, _)
Below(N, i) == {i} \cup UNION {Below(N, j) : j \in Kids(N, i)}

MatVec(m, v) == TLCEval([a \in 1..Len(m) |-> Sum([b \in 1..Len(v) |-> CMul(Real(m[a][b]), v[b])])])
RECURSIVE Diag(_, _)
Diag(N, i) ==
  IF N[i].k = "gpos" THEN N[i].d
  ELSE LET RECURSIVE Upto(_)
           Upto(q) == IF q = 0 THEN [k \in 1..sp.n |-> 0]
                      ELSE LET a == Upto(q - 1) b == Diag(N, N[i].ch[q]) IN TLCEval([k \in 1..sp.n |-> a[k] + b[k]])
       IN Upto(Len(N[i].ch))

(* The linear map of node i applied to v.  With par the coupling of a dipole operator
   is left out (ApplyParent).                                                        *)
RECURSIVE Act(_, _, _, _)
Act(N, par, i, v) ==
  LET o == N[i] n == Len(o.ch) IN
  CASE o.k = "scal" -> VMul(IF o.cj THEN Conj(o.z) ELSE o.z, v)
    [] o.k = "mat" -> MatVec(o.m, v)
    [] o.k = "dip" -> IF par THEN MatVec(o.m, v) ELSE VMul(Real(-o.lz[now + 1]), MatVec(o.m, v))
    [] o.k = "gpos" \/ o.k = "gsum" -> LET d == Diag(N, i) IN TLCEval([k \in 1..Len(v) |-> CMul(Real(d[k]), v[k])])
    [] o.k = "sum" -> LET RECURSIVE Upto(_)
                          Upto(q) == IF q = 0 THEN Zero(Len(v)) ELSE VAdd(Upto(q - 1), Act(N, par, o.ch[q], v))
                      IN Upto(n)
    [] o.k = "prod" -> LET RECURSIVE Do(_, _)
                           Do(q, x) == IF q > n THEN x
                                       ELSE Do(q + 1, Act(N, par, IF o.cj THEN o.ch[q] ELSE o.ch[n + 1 - q], x))
                       IN Do(1, v)
    [] o.k = "proj" -> LET RECURSIVE P(_)
                           P(q) == IF q = 0 THEN Zero(Len(v))
                                   ELSE VAdd(P(q - 1), VMul(CMul(Real(o.sg), Dot(o.vs[q], v)), o.vs[q]))
                           p == P(Len(o.vs))
                       IN IF o.inv THEN VAdd(v, VMul(<<-1, 0>>, p)) ELSE p
    [] o.k = "ms" ->
         LET El(a, b) == IF o.cj THEN o.mx[b][a] ELSE o.mx[a][b]
             Term(a, b) == IF El(a, b) # 0 THEN Act(N, par, El(a, b), Part(v, b))
                           ELSE IF a = b /\ o.one THEN Part(v, b) ELSE Zero(sp.n)
             RECURSIVE Row(_, _)
             Row(a, b) == IF b = 0 THEN Zero(sp.n) ELSE VAdd(Row(a, b - 1), Term(a, b))
         IN TLCEval(Cat([a \in 1..sp.s |-> Row(a, sp.s)]))

\* Everything below i gets the flag.
ConjTo(N, i, c) == LET B == Below(N, i) IN TLCEval([j \in DOMAIN N |-> IF j \in B THEN [N[j] EXCEPT !.cj = c] ELSE N[j]])
ClockTo(N, i) == LET B == Below(N, i) IN [j \in DOMAIN N |-> IF j \in B THEN [N[j] EXCEPT !.clk = TRUE] ELSE N[j]]
RECURSIVE TimeDep(_, _)
TimeDep(N, i) == N[i].k = "dip" \/ \E j \in Kids(N, i) : TimeDep(N, j)
\* A matrix given by one triangle only is completed symmetrically.
Complete(m) == [a \in 1..Len(m) |-> [b \in 1..Len(m) |->
                  IF m[a][b] # 0 THEN m[a][b] ELSE m[b][a]]]
\* Without a conflicting pair a matrix of operators counts as symmetric; a pair given in full ends that.
Pair(o, a, b) == a # b /\ o.mx[b][a] # 0
Inited(N, i) == LET B == Below(N, i) IN [j \in DOMAIN N |->
   IF j \in B
   THEN [N[j] EXCEPT !.ini = TRUE, !.mx = IF N[j].k = "ms" /\ N[j].sym /\ ~N[j].ini THEN Complete(N[j].mx) ELSE N[j].mx]
   ELSE N[j]]
Ready(N, i) == \A j \in Below(N, i) : N[j].ini /\ (N[j].k = "dip" => N[j].clk) /\ (N[j].k \in {"sum", "prod", "gsum"} => N[j].ch # <<>>)

More(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
(* A copy is the same composition made of new nodes: t lists <<new, old, operands, matrix>>
   with the ids of the new nodes.                                                          *)
CopyOf(N, t) == More(N, [j \in {t[k].i : k \in 1..Len(t)} |->
                   LET e == t[CHOOSE k \in 1..Len(t) : t[k].i = j]
                   IN [N[e.o] EXCEPT !.ch = e.ch, !.mx = e.mx]])
Faithful(N, t, root, from) ==
  LET e(j) == t[CHOOSE k \in 1..Len(t) : t[k].i = j]
      new == {t[k].i : k \in 1..Len(t)}
  IN /\ t[1].i = root /\ t[1].o = from /\ Cardinality(new) = Len(t)
     /\ \A j \in new :
          LET x == e(j) o == N[x.o] IN
          /\ Len(x.ch) = Len(o.ch) /\ Len(x.mx) = Len(o.mx)
          /\ \A k \in 1..Len(x.ch) : x.ch[k] \in new /\ e(x.ch[k]).o = o.ch[k]
          /\ \A a, b \in 1..Len(x.mx) : IF o.mx[a][b] = 0 THEN x.mx[a][b] = 0
                                        ELSE x.mx[a][b] \in new /\ e(x.mx[a][b]).o = o.mx[a][b]

Put(i, v) == wf' = [wf EXCEPT ![i].x = v] /\ UNCHANGED <<nd, sp, now>>
Apply(o, i, j) == Put(i, Act(nd, FALSE, o, wf[j].x))
ApplyIn(o, i) == Put(i, Act(nd, FALSE, o, wf[i].x))
ApplyAdd(o, i, j) == Put(i, VAdd(wf[i].x, Act(nd, FALSE, o, wf[j].x)))
ApplyParent(o, i, j) == Put(i, Act(nd, TRUE, o, wf[j].x))
Element(o, i, j) == Dot(wf[i].x, Act(nd, FALSE, o, wf[j].x))
================================================================================
