------------------------------ MODULE OpAlgebraMC ------------------------------
(* All compositions of a few nodes: the denoted maps are linear, the flag gives the
   adjoint, copies are independent, and the evaluation with one buffer per node, as the
   operators carry it out, computes the denoted map and touches nothing else.          *)
EXTENDS OpAlgebra
CONSTANTS Max,       \* number of nodes besides copies
          AnyFlip,   \* the flag of every node is switched, not only of the last
          Zs, Kinds  \* parameters of and node kinds in use
VARIABLES org         \* copy -> original as a map, the maps of all nodes before the copy was touched
ovars == <<nd, wf, sp, now, org>>

Leaf(k, z) ==
  CASE k = "scal" -> [Blank("scal", "a") EXCEPT !.z = <<z, 1>>, !.ini = TRUE]
    [] k = "mat" -> [Blank("mat", "a") EXCEPT !.m = IF z = 0 THEN <<<<0, 1>>, <<1, 0>>>> ELSE <<<<1, 0>>, <<0, -2>>>>, !.ini = TRUE]
    [] k = "dip" -> [Blank("dip", "a") EXCEPT !.m = <<<<1, z>>, <<z, 0>>>>, !.lz = <<2, -1>>, !.clk = TRUE, !.ini = TRUE]
    [] k = "proj" -> [Blank("proj", "a") EXCEPT !.vs = <<<<<<1, 0>>, <<z, 1>>>>>>, !.inv = (z = 1), !.ini = TRUE]
MInit == nd = <<>> /\ wf = <<>> /\ sp = [n |-> 2, s |-> 2, w |-> 1] /\ now = 0 /\ org = <<>>
Last == Cardinality(DOMAIN nd)
Id == Last + 1
NewLeaf == \E k \in Kinds \cap {"scal", "mat", "dip", "proj"}, z \in Zs : nd' = More(nd, (Id :> Leaf(k, z)))
NewList == \E k \in Kinds \cap {"sum", "prod"}, a, b \in DOMAIN nd :
             /\ nd[a].u = nd[b].u
             /\ nd' = ConjTo(More(nd, (Id :> [Blank(k, nd[a].u) EXCEPT !.ch = <<a, b>>, !.ini = TRUE])), Id, FALSE)
NewMs == /\ "ms" \in Kinds
         /\ \E a, b, c \in DOMAIN nd \cup {0}, u \in BOOLEAN :
              /\ \A x \in {a, b, c} \ {0} : nd[x].u = "a"
              /\ nd' = ConjTo(Inited(More(nd, (Id :> [Blank("ms", "b") EXCEPT !.mx = <<<<a, b>>, <<0, c>>>>, !.one = u])), Id), Id, FALSE)
Flip == \E i \in IF AnyFlip THEN DOMAIN nd ELSE {Last} : nd' = ConjTo(nd, i, ~nd[i].cj)
Tick == "dip" \in Kinds /\ now' = 1 - now /\ UNCHANGED <<nd, wf, sp, org>>
Grow == /\ Cardinality(DOMAIN nd) < Max /\ org = <<>>
        /\ NewLeaf \/ NewList \/ NewMs
        /\ UNCHANGED <<wf, sp, now, org>>
\* copy of the last node: same ids shifted by Max
CopyLast ==
  /\ org = <<>> /\ Cardinality(DOMAIN nd) = Max
  /\ LET r == Max
         S == Below(nd, r)
         RECURSIVE List(_)
         List(T) == IF T = {} THEN <<>> ELSE LET j == CHOOSE x \in T : \A y \in T : y <= x
                    IN <<[i |-> j + Max, o |-> j, ch |-> [k \in 1..Len(nd[j].ch) |-> nd[j].ch[k] + Max],
                          mx |-> [a \in 1..Len(nd[j].mx) |-> [b \in 1..Len(nd[j].mx) |-> IF nd[j].mx[a][b] = 0 THEN 0 ELSE nd[j].mx[a][b] + Max]]]>>
                       \o List(T \ {j})
     IN /\ Assert(Faithful(nd, List(S), r + Max, r), "copy")
        /\ nd' = CopyOf(nd, List(S))
        /\ org' = <<r>>
  /\ UNCHANGED <<wf, sp, now>>
TouchCopy == /\ Len(org) = 1 /\ org' = <<1, 1>>
             /\ \E i \in {j \in DOMAIN nd : j > Max} :
                   nd' = [nd EXCEPT ![i].cj = ~@, ![i].z = <<5, 5>>]
             /\ UNCHANGED <<wf, sp, now>>
Full == Cardinality(DOMAIN nd) = Max /\ org = <<>>
MNext == \/ Grow \/ Tick \/ CopyLast \/ TouchCopy
         \/ Full /\ Flip /\ UNCHANGED <<wf, sp, now, org>>
Spec == MInit /\ [][MNext]_ovars

Basis(u) == {[k \in 1..Size(u) |-> IF k = j THEN <<1, 0>> ELSE <<0, 0>>] : j \in 1..Size(u)}
Tests(u) == Basis(u) \cup {[k \in 1..Size(u) |-> <<k, 2 - k>>]}
Linear == Full => \A i \in {Last} : \A v, x \in Basis(nd[i].u) :
  Act(nd, FALSE, i, VAdd(VMul(<<1, 2>>, v), VMul(<<0, -1>>, x))) =
  VAdd(VMul(<<1, 2>>, Act(nd, FALSE, i, v)), VMul(<<0, -1>>, Act(nd, FALSE, i, x)))
Adjoint == Full => \A i \in {Last} : \A v, x \in Basis(nd[i].u) :
  Dot(v, Act(ConjTo(nd, i, FALSE), FALSE, i, x)) = Dot(Act(ConjTo(nd, i, TRUE), FALSE, i, v), x)
\* Whatever happens to the copy, the original maps as before.
Original == \A j \in DOMAIN nd : j <= Max => \A v \in Basis(nd[j].u) : Act(nd', FALSE, j, v) = Act(nd, FALSE, j, v)
Independent == [][TouchCopy => Original]_ovars
SameMap == [][CopyLast => \A v \in Tests(nd[Max].u) : Act(nd', FALSE, 2 * Max, v) = Act(nd, FALSE, Max, v)]_ovars

(* Evaluation as carried out: places are <<name, k>>, k a state or 0 for a single wave function. *)
Get(st, u, p) == IF u = "a" THEN st[<<p[1], p[2]>>] ELSE Cat([k \in 1..sp.s |-> st[<<p[1], k>>]])
Set(st, u, p, v) == IF u = "a" THEN More(st, (p :> v))
                    ELSE More(st, [q \in {<<p[1], k>> : k \in 1..sp.s} |-> Part(v, q[2])])
RECURSIVE Ap(_, _, _, _)
RECURSIVE In(_, _, _)
RECURSIVE Ad(_, _, _, _)
Ap(st, i, d, s) ==
  LET o == nd[i] n == Len(o.ch) IN
  CASE o.k \in {"scal", "mat", "dip", "proj"} -> Set(st, "a", d, Act(nd, FALSE, i, Get(st, "a", s)))
    [] o.k = "sum" -> LET RECURSIVE F(_)
                          F(q) == IF q = 1 THEN Ap(st, o.ch[1], d, s) ELSE Ad(F(q - 1), o.ch[q], d, s)
                      IN F(n)
    [] o.k = "prod" -> LET c(q) == IF o.cj THEN o.ch[q] ELSE o.ch[n + 1 - q]
                           RECURSIVE F(_)
                           F(q) == IF q = 1 THEN Ap(st, c(1), d, s) ELSE In(F(q - 1), c(q), d)
                       IN F(n)
    [] o.k = "ms" -> LET El(a, b) == IF o.cj THEN o.mx[b][a] ELSE o.mx[a][b]
                         RECURSIVE F(_, _, _)
                         F(t, a, b) ==
                           IF a > sp.s THEN t
                           ELSE IF b > sp.s THEN F(t, a + 1, 1)
                           ELSE F(IF El(a, b) # 0 THEN Ad(t, El(a, b), <<d[1], a>>, <<s[1], b>>)
                                  ELSE IF a = b /\ o.one
                                       THEN More(t, (<<d[1], a>> :> VAdd(t[<<d[1], a>>], t[<<s[1], a>>])))
                                       ELSE t, a, b + 1)
                     IN F(Set(st, "b", d, Zero(Size("b"))), 1, 1)
In(st, i, p) ==
  LET o == nd[i] n == Len(o.ch) w == <<10 + i, 0>> IN
  CASE o.k = "sum" -> LET RECURSIVE F(_)
                          F(q) == IF q = 1 THEN In(Set(st, o.u, w, Get(st, o.u, p)), o.ch[1], p) ELSE Ad(F(q - 1), o.ch[q], p, w)
                      IN F(n)
    [] o.k = "prod" -> LET c(q) == IF o.cj THEN o.ch[q] ELSE o.ch[n + 1 - q]
                           RECURSIVE F(_)
                           F(q) == IF q = 0 THEN st ELSE In(F(q - 1), c(q), p)
                       IN F(n)
    [] o.k = "ms" -> LET t == Ap(st, i, w, p) IN Set(t, "b", p, Get(t, "b", w))
    [] OTHER -> Ap(Set(st, "a", w, Get(st, "a", p)), i, p, w)
Ad(st, i, d, s) ==
  LET u == nd[i].u b == <<100 + i, 0>> t == Ap(st, i, b, s)
  IN Set(t, u, d, VAdd(Get(t, u, d), Get(t, u, b)))
World(u, v, x) == Set(Set(<<>>, u, <<-1, 0>>, x), u, <<-2, 0>>, v)
Evaluates == Full => \A i \in {Last} : LET u == nd[i].u IN \A v \in Tests(u) :
  LET x == [k \in 1..Size(u) |-> <<7, k>>]
      st == World(u, v, x)
      a == Act(nd, FALSE, i, v)
      r1 == Ap(st, i, <<-1, 0>>, <<-2, 0>>)
      r2 == In(st, i, <<-2, 0>>)
      r3 == Ad(st, i, <<-1, 0>>, <<-2, 0>>)
  IN /\ Get(r1, u, <<-1, 0>>) = a /\ Get(r1, u, <<-2, 0>>) = v
     /\ Get(r2, u, <<-2, 0>>) = a /\ Get(r2, u, <<-1, 0>>) = x
     /\ Get(r3, u, <<-1, 0>>) = VAdd(x, a) /\ Get(r3, u, <<-2, 0>>) = v
================================================================================
