--------------------------------- MODULE Eigen ---------------------------------
(* Eigenstate runs over a working directory.

   A Hamiltonian is an integer matrix that splits into single levels, a, and pairs of levels, a + b X, so that its
   eigenstates are known: e_i, e_i + e_j, e_i - e_j.  What a method finds from a wave function w are its parts in the
   eigenspaces.

   Files: [kind |-> "wf", v] given; [kind |-> "ef", e, v] the state v (up to norm and phase) of energy e;
   [kind |-> "loose", v, tag] a member of an orthonormal set, as seen (v times 1000);
   [kind |-> "list", en]; [kind |-> "series", ...] a propagation; [kind |-> "block"] something in the way.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
With(f, k, v) == (k :> v) @@ f
Abs(x) == IF x < 0 THEN -x ELSE x
Num(k) == ToString(k)
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
RECURSIVE CSum(_, _), AddTo(_, _)
CSum(q, i) == IF i = 0 THEN <<0, 0>> ELSE CAdd(CSum(q, i - 1), q[i])
AddTo(q, i) == IF i = 0 THEN 0 ELSE AddTo(q, i - 1) + q[i]
Dot(v, w) == CSum([i \in 1..Len(v) |-> <<v[i][1] * w[i][1] + v[i][2] * w[i][2], v[i][1] * w[i][2] - v[i][2] * w[i][1]>>], Len(v))
MatVec(m, v) == LET n == Len(v) IN TLCEval([a \in 1..n |-> CSum([b \in 1..n |-> <<m[(a - 1) * n + b] * v[b][1], m[(a - 1) * n + b] * v[b][2]>>], n)])
Times(k, v) == [i \in 1..Len(v) |-> <<k * v[i][1], k * v[i][2]>>]

\* ---- the spectrum ----
El(H, n, i, j) == H.m[(i - 1) * n + j]
Pairs(H, n) == UNION {LET b == H.bl[k] i == b[1] IN
    IF Len(b) = 1 THEN {[e |-> El(H, n, i, i), u |-> [x \in 1..n |-> IF x = i THEN 1 ELSE 0], q |-> 2]}
    ELSE LET j == b[2] IN {[e |-> El(H, n, i, i) + s * El(H, n, i, j), u |-> [x \in 1..n |-> IF x = i THEN 1 ELSE IF x = j THEN s ELSE 0], q |-> 1] : s \in {1, -1}} : k \in 1..Len(H.bl)}
RECURSIVE Add2(_, _)
\* twice the part of w in the eigenspace of energy e
Part(H, w, e) ==
  LET n == Len(w)
      P == {x \in Pairs(H, n) : x.e = e}
      c(x) == CSum([i \in 1..n |-> <<x.u[i] * w[i][1], x.u[i] * w[i][2]>>], n)
  IN TLCEval([i \in 1..n |-> Add2({<<x, <<x.q * x.u[i] * c(x)[1], x.q * x.u[i] * c(x)[2]>>>> : x \in P}, 0)])
Add2(S, z) == IF S = {} THEN <<0, 0>> ELSE LET y == CHOOSE y \in S : TRUE IN CAdd(y[2], Add2(S \ {y}, z))
Has(x, w) == \E i \in 1..Len(w) : x.u[i] # 0 /\ w[i] # <<0, 0>>
Null(v) == \A i \in 1..Len(v) : v[i] = <<0, 0>>
Energies(H, n) == {x.e : x \in Pairs(H, n)}
Found(H, w) == {e \in Energies(H, Len(w)) : ~Null(Part(H, w, e))}
RECURSIVE Up(_)
Up(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : \A f \in S : e =< f IN <<e>> \o Up(S \ {e})
\* all there is to be found, in ascending order
Levels(H, w) == LET u == Up(Found(H, w)) IN TLCEval([k \in 1..Len(u) |-> [e |-> u[k], v |-> Part(H, w, u[k])]])
\* a state which w has no part in, but rounding may bring in: it lies below, and its levels are occupied (one of a pair,
\* or of several with the same energy)
Strange(H, w, n) == LET L == Levels(H, w) IN
  \/ \E x \in Pairs(H, Len(w)) : x.e \notin Found(H, w) /\ (n > Len(L) \/ x.e < L[n].e) /\ \E i \in 1..Len(w) : x.u[i] # 0 /\ w[i] # <<0, 0>>
  \/ \E x, y \in Pairs(H, Len(w)) : x # y /\ x.e = y.e /\ (n > Len(L) \/ x.e < L[n].e) /\ Has(x, w) /\ Has(y, w)
\* the strength of level k times 4, and what the peak finder takes of them in n samples
Weight(L, k) == Dot(L[k].v, L[k].v)[1]
Peaks(L, n) ==
  LET q == [k \in 1..Len(L) |-> Weight(L, k)]
      s1 == AddTo(q, Len(L))
      s2 == AddTo([k \in 1..Len(L) |-> q[k] * q[k]], Len(L))
      d(k) == n * q[k] - s1
      v == n * s2 - s1 * s1
  IN [in |-> {k \in 1..Len(L) : d(k) > 0 /\ d(k) * d(k) > v}, doubt |-> \E k \in 1..Len(L) : d(k) > 0 /\ Abs(d(k) * d(k) - v) * 20 < v]
Slot(e, n) == (((e * n) \div 4) % n)
RECURSIVE BySlot(_, _, _)
BySlot(S, L, n) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A j \in S : Slot(L[k].e, n) =< Slot(L[j].e, n) IN <<L[k]>> \o BySlot(S \ {k}, L, n)
RECURSIVE ByEnergy(_, _)
ByEnergy(S, L) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : \A j \in S : L[k].e =< L[j].e IN <<L[k]>> \o ByEnergy(S \ {k}, L)

\* ---- runs ----
Dirs(p) == IF p.dir = "" THEN "" ELSE p.dir \o "/"
File(p, k) == Dirs(p) \o p.fname \o "_" \o Num(k)
List(p) == Dirs(p) \o p.ename
Is(s, f, k) == f \in DOMAIN s.fs /\ s.fs[f].kind = k
State(s, f) == Is(s, f, "ef") \/ Is(s, f, "loose") \/ Is(s, f, "wf")
Blocked(s, f) == Is(s, f, "block")
\* r: [s, wr, ok, odd]
Put(r, f, x) == [r EXCEPT !.s.fs = With(@, f, x), !.wr = @ \cup {f}]
Fail(r) == [r EXCEPT !.ok = FALSE]
Odd(r) == [r EXCEPT !.odd = TRUE]
RECURSIVE PutAll(_, _, _, _, _)
\* states k..n - 1 of x, the first one is x[1]; a file that cannot be written ends the run
PutAll(r, p, x, k, n) == IF k >= n \/ ~r.ok THEN r ELSE IF Blocked(r.s, File(p, k)) THEN Fail(r)
                         ELSE PutAll(TLCEval(Put(r, File(p, k), x[k + 1])), p, x, k + 1, n)
Ef(x) == [kind |-> "ef", e |-> x.e, v |-> x.v]
PutList(r, p, en) == IF ~r.ok THEN r ELSE IF Blocked(r.s, List(p)) THEN [r EXCEPT !.free = TRUE] ELSE Put(r, List(p), [kind |-> "list", en |-> en])
\* a and b are the same up to norm and phase
Parallel(a, b) == LET d == Dot(a, b) IN d[1] * d[1] + d[2] * d[2] = Dot(a, a)[1] * Dot(b, b)[1]
SameAs(x, y) == x.kind = "ef" /\ x.e = y.e /\ Parallel(x.v, y.v)
\* seen: what the files hold now that are not determined
Mean(m, v) == Dot(v, MatVec(m, v))[1] \div 1000
Imag(r, p, seen) ==
  LET w == r.s.fs[p.wf].v
      L == Levels(p.H, w)
      old == [k \in 1..p.start |-> r.s.fs[File(p, k - 1)]]
      Done == IF p.start = 0 THEN TRUE ELSE \A k \in 1..p.start : k =< Len(L) /\ SameAs(old[k], L[k])
      tags == {IF old[k].kind = "loose" THEN old[k].tag ELSE 0 : k \in 1..p.start}
  IN IF p.nef < 1 \/ p.start < 0 \/ p.start > p.nef \/ p.steps < 1 \/ p.conv = "large" THEN Fail(r)
     ELSE IF \E k \in 1..p.start : ~State(r.s, File(p, k - 1)) THEN Fail(r)
     ELSE IF \E k \in 1..p.start : r.s.fs[File(p, k - 1)].kind = "wf" THEN Odd(r)
     ELSE IF p.nef > Len(L) \/ Strange(p.H, w, p.nef) THEN Odd(r)
     ELSE IF p.full /\ Done
     THEN LET a == PutAll(r, p, [k \in 1..p.nef |-> Ef(L[k])], p.start, p.nef)
              b == IF p.diag THEN PutAll(a, p, [k \in 1..p.nef |-> Ef(L[k])], 0, p.nef) ELSE a
          IN PutList(b, p, [k \in 1..p.nef |-> 1000 * L[k].e])
     ELSE IF Cardinality(tags) > 1 \/ (\E k \in 1..p.start : old[k].kind = "ef") THEN Odd(r)
     ELSE LET x == [k \in 0..(p.nef - 1) |-> [kind |-> "loose", v |-> IF File(p, k) \in DOMAIN seen THEN seen[File(p, k)] ELSE r.s.fs[File(p, k)].v, tag |-> p.tag]]
          IN IF \E k \in 0..(p.nef - 1) : (k >= p.start \/ p.diag) /\ File(p, k) \notin DOMAIN seen THEN [Fail(r) EXCEPT !.odd = \E k \in 0..(p.nef - 1) : Blocked(r.s, File(p, k))]
             ELSE LET y == [k \in 1..p.nef |-> x[k - 1]]
                      a == PutAll(r, p, y, IF p.diag THEN 0 ELSE p.start, p.nef)
                      t == [a EXCEPT !.s.fs = [f \in DOMAIN @ |-> IF \E k \in 0..(p.nef - 1) : File(p, k) = f THEN [@[f] EXCEPT !.tag = p.tag] ELSE @[f]]]
                  IN PutList(IF a.ok THEN t ELSE a, p, [k \in 1..p.nef |-> Mean(p.H.m, y[k].v)])
Whole(r, p, x) == PutList(PutAll(r, p, [k \in 1..Len(x) |-> Ef(x[k])], 0, Len(x)), p, [k \in 1..Len(x) |-> 1000 * x[k].e])
\* from the Krylov space of the wave function, which has all the parts
Lanczos(r, p) == LET L == Levels(p.H, r.s.fs[p.wf].v) IN
  IF p.prop # "Arnoldi" THEN Fail(r)
  ELSE Whole(r, p, L)
\* from the peaks of the autocorrelation in n samples
Samples(r, p, H, w, n) ==
  LET L == Levels(H, w) K == Peaks(L, n) IN
  IF K.doubt \/ n % 8 # 0 \/ (\E k \in 1..Len(L) : L[k].e < -2 \/ L[k].e > 1) THEN Odd(r)
  ELSE LET x == IF p.diag THEN ByEnergy(K.in, L) ELSE BySlot(K.in, L, n) IN
       IF Len(x) = 0 THEN Odd(r) ELSE Put(Whole(r, p, x), Dirs(p) \o "spectrum.dat", [kind |-> "spec"])
Ac(r, p) ==
  IF p.steps < 1 THEN Fail(r)
  ELSE IF p.read = "" THEN (IF p.steps < 2 THEN Odd(r) ELSE Samples(r, p, p.H, r.s.fs[p.wf].v, p.steps))
  ELSE IF ~Is(r.s, p.read, "series") THEN Fail(r)
  ELSE LET x == r.s.fs[p.read] IN
       IF x.H.m # p.H.m \/ x.wc # 1 THEN Odd(r) ELSE Samples(r, p, x.H, x.w, x.steps + 1)
Blank(s) == [s |-> s, wr |-> {}, ok |-> TRUE, odd |-> FALSE, free |-> FALSE]
Run(s, p, seen) ==
  LET r == Blank(s) IN
  IF p.bad # "" \/ ~Is(s, p.wf, "wf") THEN Fail(r)
  ELSE IF p.m = "propa" THEN Put(r, p.dir, [kind |-> "series", H |-> p.H, w |-> s.fs[p.wf].v, steps |-> p.steps, wc |-> p.wc])
  ELSE CASE p.m = "imag" -> Imag(r, p, seen) [] p.m = "lanczos" -> Lanczos(r, p) [] OTHER -> Ac(r, p)
=============================================================================
