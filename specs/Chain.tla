-------------------------------- MODULE Chain --------------------------------
(* Definitions of operators and wave functions and the objects they denote.  *)
(* An operator denotes a matrix over the space it is used in (s = 0: one     *)
(* state of n components, else s states); a wave function denotes components *)
(* in units of 1/64.  Definitions with a key can be referred to.             *)
EXTENDS Text, FiniteSets
VARIABLES ops,    \* key -> definition
          wfs,    \* key -> value
          files,  \* name -> content
          lost    \* keys of rejected definitions: nothing is said about them
cvars == <<ops, wfs, files, lost>>
U == 64

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
VAdd(v, x) == TLCEval([k \in 1..Len(v) |-> CAdd(v[k], x[k])])
More(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
CInit == ops = <<>> /\ wfs = <<>> /\ files = <<>> /\ lost = {}

----------------------------------------------------------------------------
(* Names of elements *)
Index(t) == IF AllDigits(t) /\ Len(t) <= 9 THEN DigitsVal(t, 0) ELSE -1
RowOf(n) == LET p == Find(n, ".") IN IF p < 2 THEN -1 ELSE Index(SubSeq(n, 2, p - 1))
ColOf(n) == LET p == Find(n, ".") IN IF p < 2 THEN -1 ELSE Index(SubSeq(n, p + 1, Len(n)))
StateOf(n) == IF Len(n) < 3 THEN -1 ELSE Index(SubSeq(n, 3, Len(n)))

----------------------------------------------------------------------------
(* Operators.  Registration: the keys in the order the definitions end.      *)
Reg(ok, o) == [ok |-> ok, o |-> o]
RECURSIVE Register(_, _), RegAll(_, _, _)
RegAll(chs, k, r) == IF k > Len(chs) \/ ~r.ok THEN r ELSE RegAll(chs, k + 1, TLCEval(Register(chs[k], r.o)))
Grid(o, d) == d.k \in {"pot", "gsum"} \/ (d.k = "ref" /\ o[d.ref].k \in {"pot", "gsum"})
Register(d, o) ==
  IF d.k = "ref" THEN Reg(d.ref \in DOMAIN o, o)
  ELSE LET r == RegAll(d.ch, 1, Reg(TRUE, o))
           leaf == d.k \in {"mat", "pot"} => d.file \in DOMAIN files
           parts == /\ d.k \in {"ms", "gsum"} => d.ch # <<>>
                    /\ d.k = "ms" => /\ \A i \in DOMAIN d.ch : RowOf(d.ch[i].name) >= 0 /\ ColOf(d.ch[i].name) >= 0
                                     /\ \A i, j \in DOMAIN d.ch : i # j => <<RowOf(d.ch[i].name), ColOf(d.ch[i].name)>> # <<RowOf(d.ch[j].name), ColOf(d.ch[j].name)>>
                    /\ d.k \in {"sum", "prod"} => \A i, j \in DOMAIN d.ch : i # j => d.ch[i].name # d.ch[j].name
                    /\ d.k = "gsum" => \A i \in DOMAIN d.ch : Grid(r.o, d.ch[i])
       IN IF ~r.ok \/ ~leaf \/ ~parts \/ d.k = "unknown" \/ (d.key # "" /\ d.key \in DOMAIN r.o) THEN Reg(FALSE, r.o)
          ELSE Reg(TRUE, IF d.key = "" THEN r.o ELSE More(r.o, d.key, [d EXCEPT !.name = ""]))

(* The matrix.  Undef where nothing is said. *)
Undef == <<>>
Zero(n) == [a \in 1..n |-> [b \in 1..n |-> <<0, 0>>]]
Unit(n, z) == [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN z ELSE <<0, 0>>]]
MAdd(x, y) == IF x = Undef \/ y = Undef THEN Undef ELSE TLCEval([a \in 1..Len(x) |-> VAdd(x[a], y[a])])
RECURSIVE Row(_, _, _, _, _)
Row(x, y, a, b, k) == IF k = 0 THEN <<0, 0>> ELSE CAdd(Row(x, y, a, b, k - 1), CMul(x[a][k], y[k][b]))
MMul(x, y) == IF x = Undef \/ y = Undef THEN Undef
              ELSE TLCEval([a \in 1..Len(x) |-> [b \in 1..Len(x) |-> Row(x, y, a, b, Len(x))]])
Symmetric(x) == x # Undef /\ \A a, b \in 1..Len(x) : x[a][b] = <<x[b][a][1], -x[b][a][2]>>
States(d) == 1 + MaxIn({RowOf(d.ch[i].name) : i \in DOMAIN d.ch} \cup {ColOf(d.ch[i].name) : i \in DOMAIN d.ch})
Lowest(v) == MinOf({v[k] : k \in 1..Len(v)})
RECURSIVE Matrix(_, _, _, _), FoldM(_, _, _, _, _)
FoldM(o, d, s, n, k) ==     \* sum, or the product with the last factor acting first
  LET m == Matrix(o, d.ch[k], s, n) IN
  IF k = 1 THEN m ELSE IF d.k = "prod" THEN MMul(FoldM(o, d, s, n, k - 1), m) ELSE MAdd(FoldM(o, d, s, n, k - 1), m)
Matrix(o, d, s, n) ==
  LET all == IF s = 0 THEN n ELSE s * n IN
  CASE d.k = "ref" -> IF d.ref \in DOMAIN o THEN Matrix(o, o[d.ref], s, n) ELSE Undef
    [] d.k = "scal" -> Unit(all, d.z)
    [] d.k = "mat" -> LET v == files[d.file] IN
         IF s # 0 \/ Len(v) # n * n THEN Undef
         ELSE LET low == IF d.zero THEN Lowest([k \in 1..n |-> v[(k - 1) * n + k]]) ELSE 0
              IN [a \in 1..n |-> [b \in 1..n |-> <<v[(a - 1) * n + b] - (IF a = b THEN low ELSE 0), 0>>]]
    [] d.k = "pot" -> LET v == files[d.file] IN
         IF s # 0 \/ Len(v) # n THEN Undef
         ELSE LET low == IF d.zero THEN Lowest(v) ELSE 0
              IN [a \in 1..n |-> [b \in 1..n |-> IF a = b THEN <<(v[a] - low + d.off) * d.sc, 0>> ELSE <<0, 0>>]]
    [] d.k \in {"sum", "prod", "gsum"} -> IF d.ch = <<>> THEN Undef ELSE TLCEval(FoldM(o, d, s, n, Len(d.ch)))
    [] d.k = "ms" ->
         IF s # States(d) THEN Undef
         ELSE LET at(a, b) == {i \in DOMAIN d.ch : RowOf(d.ch[i].name) = a - 1 /\ ColOf(d.ch[i].name) = b - 1}
                  pair == \E a, b \in 1..s : a # b /\ at(a, b) # {} /\ at(b, a) # {}
                  fill == ~d.nonh /\ ~pair
                  blk == TLCEval([a \in 1..s |-> [b \in 1..s |->
                           LET c == IF at(a, b) # {} THEN at(a, b) ELSE IF fill /\ a # b THEN at(b, a) ELSE {}
                           IN IF c = {} THEN Unit(n, IF a = b /\ d.one THEN <<1, 0>> ELSE <<0, 0>>)
                              ELSE Matrix(o, d.ch[CHOOSE i \in c : TRUE], 0, n)]])
                  odd == \E a, b \in 1..s : blk[a][b] = Undef \/ (fill /\ a # b /\ ~Symmetric(blk[a][b]))
              IN IF odd THEN Undef
                 ELSE TLCEval([x \in 1..all |-> [y \in 1..all |-> blk[((x - 1) \div n) + 1][((y - 1) \div n) + 1][((x - 1) % n) + 1][((y - 1) % n) + 1]]])
    [] OTHER -> Undef
RECURSIVE KeysOf(_)
KeysOf(d) == (IF d.key = "" THEN {} ELSE {d.key}) \cup UNION {KeysOf(d.ch[i]) : i \in DOMAIN d.ch}
RECURSIVE RefsOf(_)
RefsOf(d) == (IF d.ref = "" THEN {} ELSE {d.ref}) \cup UNION {RefsOf(d.ch[i]) : i \in DOMAIN d.ch}
RECURSIVE Empty(_)   \* a sum or product of nothing can not be used
Empty(d) == (d.k \in {"sum", "prod"} /\ d.ch = <<>>) \/ \E i \in DOMAIN d.ch : Empty(d.ch[i])

----------------------------------------------------------------------------
(* Wave functions *)
WBad == [ok |-> FALSE, un |-> FALSE, s |-> 0, x |-> <<>>]
WVal(s, x) == [ok |-> TRUE, un |-> FALSE, s |-> s, x |-> x]
Div(x, k) == <<x[1] \div k, x[2] \div k>>
Divides(k, x) == \A i \in DOMAIN x : x[i][1] % k = 0 /\ x[i][2] % k = 0
Scale(w, num, den) ==   \* un where the result is not exact
  LET y == TLCEval([i \in DOMAIN w.x |-> <<w.x[i][1] * num, w.x[i][2] * num>>])
  IN IF ~Divides(den, y) THEN [w EXCEPT !.un = TRUE] ELSE [w EXCEPT !.x = TLCEval([i \in DOMAIN y |-> Div(y[i], den)])]
RECURSIVE Sq(_, _)
Sq(x, k) == IF k = 0 THEN 0 ELSE Sq(x, k - 1) + x[k][1] * x[k][1] + x[k][2] * x[k][2]
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF m * m >= n THEN Root(n, lo, m) ELSE Root(n, m, hi)
Small(x) == \A i \in DOMAIN x : x[i][1] \in -4000..4000 /\ x[i][2] \in -4000..4000
Unitary(w) ==
  IF ~Small(w.x) THEN [w EXCEPT !.un = TRUE]
  ELSE LET q == Sq(w.x, Len(w.x)) r == Root(q, 0, 40000)
       IN IF q = 0 \/ r * r # q THEN [w EXCEPT !.un = TRUE] ELSE Scale(w, U, r)
Turn(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
\* normalisation, phase and coefficient of a definition
Attr(d, w) ==
  LET a == IF d.norm THEN Unitary(w) ELSE w
      b == IF d.ph = <<>> THEN a ELSE [a EXCEPT !.x = TLCEval([i \in DOMAIN a.x |-> CMul(Turn(d.ph[1]), a.x[i])])]
  IN IF d.co # <<>> THEN Scale(b, d.co[1], 4)
     ELSE IF d.c2 # <<>> THEN (IF d.c2[1] < 0 THEN WBad ELSE Scale(b, d.c2[1], 4))
     ELSE b
Part(w, k) == LET n == Len(w.x) \div w.s IN SubSeq(w.x, k * n + 1, (k + 1) * n)
Void(n) == [i \in 1..n |-> <<0, 0>>]
RECURSIVE CatV(_, _)
CatV(q, k) == IF k = 0 THEN <<>> ELSE CatV(q, k - 1) \o q[k]
RECURSIVE AddV(_, _)
AddV(q, k) == IF k = 1 THEN q[1] ELSE VAdd(AddV(q, k - 1), q[k])
\* the value with the keys defined inside: <<value, keys>>
RECURSIVE WF(_, _, _), WFAll(_, _, _, _)
WFAll(chs, seq, ks, acc) ==
  IF Len(acc) = Len(chs) THEN <<acc, ks>>
  ELSE LET r == TLCEval(WF(chs[Len(acc) + 1], seq, ks))
       IN WFAll(chs, seq, r[2], TLCEval(Append(acc, r[1])))
WF(d, seq, ks) ==
  LET r == TLCEval(WFAll(d.ch, seq, ks, <<>>))
      c == r[1]
      un == \E i \in DOMAIN c : c[i].un
      bad == \E i \in DOMAIN c : ~c[i].ok
      fn == IF seq < 0 THEN d.file ELSE d.file \o "_" \o ToString(seq)
      v == TLCEval(CASE d.k = "file" -> IF fn = "" \/ fn \notin DOMAIN files THEN WBad ELSE WVal(files[fn].s, files[fn].x)
             [] d.k = "lc" ->
                  IF bad \/ c = <<>> \/ \E i \in DOMAIN c : c[i].s # c[1].s \/ Len(c[i].x) # Len(c[1].x) THEN WBad
                  ELSE [WVal(c[1].s, AddV([i \in DOMAIN c |-> c[i].x], Len(c))) EXCEPT !.un = un]
             [] d.k = "ms" ->
                  IF bad \/ c = <<>> \/ \E i \in DOMAIN c : StateOf(d.ch[i].name) < 0 THEN WBad
                  ELSE LET s == MaxIn({StateOf(d.ch[i].name) + 1 : i \in DOMAIN c} \cup {d.st})
                           n == Len(c[1].x)
                           at(k) == {i \in DOMAIN c : StateOf(d.ch[i].name) = k - 1}
                           odd == \/ \E i \in DOMAIN c : c[i].s # 0 \/ Len(c[i].x) # n
                                  \/ \E k \in 1..s : Cardinality(at(k)) > 1
                       IN IF odd THEN [WVal(0, <<>>) EXCEPT !.un = TRUE]
                          ELSE [WVal(s, CatV([k \in 1..s |-> IF at(k) = {} THEN Void(n) ELSE c[CHOOSE i \in at(k) : TRUE].x], s)) EXCEPT !.un = un]
             [] d.k = "map" ->
                  IF bad \/ c = <<>> \/ d.map = <<>> \/ c[1].s = 0 \/ \E i \in DOMAIN d.map : d.map[i] \notin 0..(c[1].s - 1) THEN WBad
                  ELSE LET m == Len(d.map)
                           w == WVal(IF m = 1 THEN 0 ELSE m, CatV([i \in 1..m |-> Part(c[1], d.map[i])], m))
                           n == Len(c[1].x) \div c[1].s
                           f(i) == IF d.cs = <<>> THEN 4 ELSE d.cs[((i - 1) \div n) + 1]
                           y == [i \in DOMAIN w.x |-> <<w.x[i][1] * f(i), w.x[i][2] * f(i)>>]
                           odd == m > c[1].s \/ (d.cs # <<>> /\ Len(d.cs) # m)
                       IN IF un \/ odd THEN [w EXCEPT !.un = TRUE]
                          ELSE IF ~Divides(4, y) THEN [w EXCEPT !.un = TRUE]
                          ELSE [w EXCEPT !.x = [i \in DOMAIN y |-> Div(y[i], 4)]]
             [] OTHER -> WBad)
      a == IF v.ok THEN (IF v.un THEN (IF d.c2 # <<>> /\ d.co = <<>> /\ d.c2[1] < 0 THEN WBad ELSE v) ELSE Attr(d, v)) ELSE v
      z == IF a.ok /\ d.key # "" /\ d.key \in DOMAIN r[2] THEN WBad ELSE a
  IN <<z, IF z.ok /\ d.key # "" THEN More(r[2], d.key, z) ELSE r[2]>>
File(n, v) == files' = More(files, n, v) /\ UNCHANGED <<ops, wfs, lost>>
\* an operator definition used in a space: the result is m, or an error
DefOp(d, s, n, err, m) ==
  LET r == TLCEval(Register(d, ops))
      x == IF r.ok /\ ~Empty(d) THEN Matrix(r.o, d, s, n) ELSE Undef
  IN IF (KeysOf(d) \cup RefsOf(d)) \cap lost # {}
     THEN lost' = lost \cup (KeysOf(d) \ DOMAIN ops) /\ UNCHANGED <<ops, wfs, files>>
     ELSE IF ~r.ok \/ Empty(d) THEN /\ err # "" /\ lost' = lost \cup (KeysOf(d) \ DOMAIN ops) /\ UNCHANGED <<ops, wfs, files>>
     ELSE /\ x = Undef \/ (err = "" /\ m = x)
          /\ IF err = "" THEN ops' = r.o /\ UNCHANGED lost ELSE lost' = lost \cup KeysOf(d) /\ UNCHANGED ops
          /\ UNCHANGED <<wfs, files>>
\* all: the contents of the listed wave functions after it, as a sequence of <<key, s, x>>
Same(list, ks) == \A i \in DOMAIN list : LET k == list[i].k IN
  k \in DOMAIN ks /\ (ks[k].un \/ (list[i].s = ks[k].s /\ list[i].x = ks[k].x))
DefWF(d, seq, err, s, x, list) ==
  LET r == TLCEval(WF(d, seq, wfs)) w == r[1] IN
  IF KeysOf(d) \cap lost # {} THEN UNCHANGED cvars
  ELSE IF ~w.ok THEN /\ err # "" /\ Same(list, wfs) /\ lost' = lost \cup (KeysOf(d) \ DOMAIN wfs) /\ UNCHANGED <<ops, wfs, files>>
  ELSE /\ w.un \/ (err = "" /\ s = w.s /\ x = w.x)
       /\ IF err = "" THEN wfs' = r[2] /\ Same(list, wfs') /\ UNCHANGED lost
          ELSE lost' = lost \cup KeysOf(d) /\ UNCHANGED wfs
       /\ UNCHANGED <<ops, files>>
==============================================================================
