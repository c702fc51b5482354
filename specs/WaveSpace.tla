------------------------------- MODULE WaveSpace -------------------------------
(* The vector space of wave functions as its users see it.

   A leaf is a wave function with storage of its own: a level or grid wave
   function with a vector x in the representation it is in and a second vector o
   for the other representation.  A multistate wave function has no content but
   that of its states: seen as a vector it is their concatenation.  Vectors have
   complex integer elements <<re, im>>; Unset stands for any content.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES leaf,    \* id -> [n, w, grid, x, o, ks, gone]
          multi    \* id -> sequence of leaf ids
vars == <<leaf, multi>>

Unset == <<>>
Zero(n) == [i \in 1..n |-> <<0, 0>>]
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
Conj(a) == <<a[1], -a[2]>>
Neg(a) == <<-a[1], -a[2]>>
RECURSIVE CSum(_, _)
CSum(q, k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(CSum(q, k - 1), q[k])
Sum(q) == CSum(q, Len(q))
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

Leafs(i) == IF i \in DOMAIN multi THEN multi[i] ELSE <<i>>
States(i) == Len(Leafs(i))
Set(i) == \A k \in 1..States(i) : leaf[Leafs(i)[k]].x # Unset
X(i) == Cat([k \in 1..States(i) |-> leaf[Leafs(i)[k]].x])
Size(i) == States(i) * leaf[Leafs(i)[1]].n
Ids == DOMAIN multi \cup DOMAIN leaf
Member(i) == \E m \in DOMAIN multi : \E k \in 1..Len(multi[m]) : multi[m][k] = i
SameShape(i, j) == Size(i) = Size(j) /\ States(i) = States(j)
At(s, i) == CHOOSE k \in 1..Len(s) : s[k] = i
In(s, i) == \E k \in 1..Len(s) : s[k] = i

\* Replace the content of wave function i (its states one after the other) by v.
WithX(lf, i, v) ==
  [j \in DOMAIN lf |->
     IF In(Leafs(i), j)
     THEN LET k == At(Leafs(i), j) n == lf[j].n
          IN [lf[j] EXCEPT !.x = IF v = Unset THEN Unset ELSE SubSeq(v, (k - 1) * n + 1, k * n)]
     ELSE lf[j]]
Put(i, v) == leaf' = WithX(leaf, i, v) /\ UNCHANGED multi
Fresh(n, w, g) == [n |-> n, w |-> w, grid |-> g, x |-> Unset, o |-> Unset, ks |-> FALSE, gone |-> FALSE]
\* j -> r for all pairs of the function f
More(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Less(f, S) == [k \in DOMAIN f \ S |-> f[k]]

WInit == leaf = <<>> /\ multi = <<>>
New(i, n, w, g) == i \notin Ids /\ leaf' = More(leaf, (i :> Fresh(n, w, g))) /\ UNCHANGED multi
E1(i, k, v) == Put(i, [X(i) EXCEPT ![k] = v])

(* A multistate wave function made of the given states; the missing ones (0) get
   fresh zero wave functions fr[k] of the kind of the neighbour.                  *)
Build(m, st, fr) ==
  /\ m \notin Ids
  /\ LET n == CHOOSE k \in 1..Len(st) : st[k] # 0
         L == leaf[st[n]]
         add == {k \in 1..Len(st) : st[k] = 0}
     IN /\ leaf' = More(leaf, [j \in {fr[k] : k \in add} |-> [Fresh(L.n, L.w, L.grid) EXCEPT !.x = Zero(L.n)]])
        /\ multi' = More(multi, (m :> [k \in 1..Len(st) |-> IF st[k] = 0 THEN fr[k] ELSE st[k]]))
\* Another one of the same kind; nothing is said about its content.
Like(i, j, sub) ==
  LET L == Leafs(j) IN
  IF j \in DOMAIN multi
  THEN /\ leaf' = More(leaf, [q \in {sub[k] : k \in 1..Len(sub)} |->
                               LET s == leaf[L[At(sub, q)]] IN Fresh(s.n, s.w, s.grid)])
       /\ multi' = More(multi, (i :> sub))
  ELSE New(i, leaf[j].n, leaf[j].w, leaf[j].grid)
\* ... with content v
LikeWith(i, j, sub, v) ==
  LET L == Leafs(j) IN
  IF j \in DOMAIN multi
  THEN /\ leaf' = More(leaf, [q \in {sub[k] : k \in 1..Len(sub)} |->
                               LET s == leaf[L[At(sub, q)]] k == At(sub, q)
                               IN [Fresh(s.n, s.w, s.grid) EXCEPT !.x = SubSeq(v, (k-1)*s.n + 1, k*s.n)]])
       /\ multi' = More(multi, (i :> sub))
  ELSE /\ leaf' = More(leaf, (i :> [Fresh(leaf[j].n, leaf[j].w, leaf[j].grid) EXCEPT !.x = v]))
       /\ UNCHANGED multi

\* The representation: x and o change places, together for all the states.
Swap(L) == [L EXCEPT !.x = L.o, !.o = L.x, !.ks = ~L.ks]
Turned(lf, i, b) == [j \in DOMAIN lf |-> IF In(Leafs(i), j) /\ lf[j].ks # b THEN Swap(lf[j]) ELSE lf[j]]
Switch(i, b) == leaf' = Turned(leaf, i, b) /\ UNCHANGED multi
Ks(i) == leaf[Leafs(i)[1]].ks

(* Assignment takes over the representation of the source (grids, and states of
   multistate wave functions) and a copy of its vector.                           *)
Take(l, s) == IF l.n = s.n THEN [l EXCEPT !.x = s.x, !.w = s.w] ELSE [l EXCEPT !.x = s.x, !.o = Unset, !.n = s.n, !.w = s.w]
Assign(i, j) ==
  LET t == IF leaf[Leafs(i)[1]].grid \/ i \in DOMAIN multi THEN Turned(leaf, i, Ks(j)) ELSE leaf IN
  /\ leaf' = [q \in DOMAIN leaf |-> IF In(Leafs(i), q)
                                    THEN LET s == leaf[Leafs(j)[At(Leafs(i), q)]] IN Take(t[q], [s EXCEPT !.x = t[Leafs(j)[At(Leafs(i), q)]].x])
                                    ELSE t[q]]
  /\ UNCHANGED multi
AssignOk(i, j) ==
  /\ (i \in DOMAIN multi) <=> (j \in DOMAIN multi)
  /\ States(i) = States(j)
  /\ leaf[Leafs(i)[1]].grid = leaf[Leafs(j)[1]].grid

Retire(i) ==
  /\ leaf' = [q \in DOMAIN leaf |-> IF In(Leafs(i), q) THEN [leaf[q] EXCEPT !.x = Unset, !.o = Unset, !.gone = TRUE] ELSE leaf[q]]
  /\ UNCHANGED multi
Reacquire(i) ==
  /\ leaf' = [q \in DOMAIN leaf |-> IF In(Leafs(i), q) THEN [leaf[q] EXCEPT !.gone = FALSE] ELSE leaf[q]]
  /\ UNCHANGED multi
Delete(i) ==
  /\ leaf' = Less(leaf, {Leafs(i)[k] : k \in 1..States(i)})
  /\ multi' = Less(multi, {i})

\* <a|b> with the weight of the volume element
Dot(i, j) ==
  LET W(k) == leaf[Leafs(i)[k]].w
      D(k) == LET a == leaf[Leafs(i)[k]].x b == leaf[Leafs(j)[k]].x
                  s == Sum([q \in 1..Len(a) |-> CMul(Conj(a[q]), b[q])])
              IN <<W(k) * s[1], W(k) * s[2]>>
  IN Sum([k \in 1..States(i) |-> D(k)])
Norm2(i) == Dot(i, i)[1]

(* Element wise operations by name: result for the operand contents a, b, c (the
   vector written to being the first), real array r and number d.                 *)
Real(x) == <<x, 0>>
RECURSIVE IPow(_)
IPow(k) == IF k = 0 THEN <<1, 0>> ELSE IF k < 0 THEN CMul(<<0, -1>>, IPow(k + 1)) ELSE CMul(<<0, 1>>, IPow(k - 1))
MI(x) == CMul(<<0, 1>>, x)
Kernel(op, a, b, c, r, d) ==
  CASE op = "a+b" -> CAdd(a, b)
    [] op = "a-b" -> CAdd(a, Neg(b))
    [] op = "a+bd" -> CAdd(a, CMul(b, d))
    [] op = "b+c" -> CAdd(b, c)
    [] op = "i^b" -> IPow(b[1])
    [] op = "i^r" -> IPow(r[1])
    [] op = "im a" -> Real(a[2])
    [] op = "im b" -> Real(b[2])
    [] op = "re a" -> Real(a[1])
    [] op = "re b" -> Real(b[1])
    [] op = "a+br" -> CAdd(a, CMul(b, r))
    [] op = "a+brd" -> CAdd(a, CMul(CMul(b, r), d))
    [] op = "ab" -> CMul(a, b)
    [] op = "abd" -> CMul(CMul(a, b), d)
    [] op = "br" -> CMul(b, r)
    [] op = "brd" -> CMul(CMul(b, r), d)
    [] op = "ar" -> CMul(a, r)
    [] op = "ard" -> CMul(CMul(a, r), d)
    [] op = "ad" -> CMul(a, d)
    [] op = "bd" -> CMul(b, d)
    [] op = "iabrd" -> MI(CMul(CMul(CMul(a, b), r), d))
    [] op = "iabd" -> MI(CMul(CMul(a, b), d))
    [] op = "iard" -> MI(CMul(CMul(a, r), d))
    [] op = "ibrd" -> MI(CMul(CMul(b, r), d))
    [] op = "b*cd" -> CMul(CMul(Conj(b), c), d)
    [] op = "a*bd" -> CMul(CMul(Conj(a), b), d)
    [] op = "bc" -> CMul(b, c)
    [] op = "bcd" -> CMul(CMul(b, c), d)
    [] op = "d" -> d
    [] op = "b" -> b
Apply(op, i, b, c, r, d) ==
  Put(i, [k \in 1..Size(i) |-> Kernel(op, IF Set(i) THEN X(i)[k] ELSE <<0, 0>>, b[k], c[k], r[k], d)])
================================================================================
