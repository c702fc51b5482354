--------------------------------- MODULE Runs ---------------------------------
(* Runs of the qdng program over a working directory.

   A run executes the programs of an input in order until one fails.  The state is the files there are (fs: path ->
   record) and the laser fields (las: name -> [d, w], samples at w times the unit step).  The unit step is pi/2, and
   Hamiltonians split into single levels and pairs of levels, so that evolution is exact in complex integers.

   A wave function is [v, q, ns]: components v / q in ns states; q = 0: not known (too large, or no exact norm).
   An operator is a sequence of terms [m, las]: the matrix m, times -E(t) if las names a laser.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

With(f, k, v) == (k :> v) @@ f
Abs(x) == IF x < 0 THEN -x ELSE x
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
RECURSIVE SumTo(_, _), Gcd(_, _)
SumTo(q, i) == IF i = 0 THEN <<0, 0>> ELSE CAdd(SumTo(q, i - 1), q[i])
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Dot(v, w) == SumTo([i \in 1..Len(v) |-> CMul(<<v[i][1], -v[i][2]>>, w[i])], Len(v))
Part(w, k) == LET n == Len(w.v) \div w.ns IN SubSeq(w.v, k * n + 1, (k + 1) * n)
Big == 200
Fit(w) == IF w.q = 0 \/ w.q > Big \/ \E i \in 1..Len(w.v) : Abs(w.v[i][1]) > Big \/ Abs(w.v[i][2]) > Big THEN [w EXCEPT !.q = 0] ELSE w
Lost(w) == w.q = 0
Known(w) == w.q # 0
\* a null vector that was normalised: nothing is promised for a run that meets it
Void(w) == w.q = 0 /\ \A i \in 1..Len(w.v) : w.v[i] = <<0, 0>>
MatVec(m, v) == LET n == Len(v) IN TLCEval([a \in 1..n |-> SumTo([b \in 1..n |-> CMul(<<m[(a - 1) * n + b], 0>>, v[b])], n)])

\* fields and operators at a time step
At(s, l, t) == LET d == s.las[l].d IN IF t >= 0 /\ t < Len(d) THEN d[t + 1] ELSE 0
RECURSIVE AddTo(_, _)
AddTo(q, i) == IF i = 0 THEN 0 ELSE AddTo(q, i - 1) + q[i]
MatAt(s, op, t) == LET c == TLCEval([k \in 1..Len(op) |-> IF op[k].las = "" THEN 1 ELSE -At(s, op[k].las, t)])
                   IN TLCEval([x \in 1..Len(op[1].m) |-> AddTo([k \in 1..Len(op) |-> c[k] * op[k].m[x]], Len(op))])
Goes(s, op, wd, n) == \A k \in 1..Len(op) : op[k].las = "" \/ (s.las[op[k].las].w = wd /\ Len(s.las[op[k].las].d) >= n)
Does(s, op, t, w) == IF Lost(w) THEN w ELSE Fit([w EXCEPT !.v = MatVec(MatAt(s, op, t), @)])

\* exp(-i sg pi/2 H) over blocks of one level, a, or two, a + b X
I4(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, -1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, 1>>
Cos4(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
Sin4(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
Step(s, H, sg, t, w) ==
  IF Lost(w) THEN w ELSE
  LET M == MatAt(s, H.op, t)
      n == Len(w.v)
      New(i) == LET b == CHOOSE b \in {H.bl[k] : k \in 1..Len(H.bl)} : \E x \in 1..Len(b) : b[x] = i
                    a == I4(sg * M[(i - 1) * n + i])
                IN IF Len(b) = 1 THEN CMul(a, w.v[i])
                   ELSE LET j == IF b[1] = i THEN b[2] ELSE b[1]
                            c == M[(i - 1) * n + j]
                        IN CMul(a, CAdd(CMul(<<Cos4(c), 0>>, w.v[i]), CMul(<<0, -Sin4(sg * c)>>, w.v[j])))
  IN Fit([w EXCEPT !.v = TLCEval([i \in 1..n |-> New(i)])])

\* exact ratios [n, d] of complex numbers; d = 0: not known
Ratio(n, d) == IF d = 0 THEN [n |-> <<0, 0>>, d |-> 0]
               ELSE LET g == Gcd(Gcd(Abs(n[1]), Abs(n[2])), d) IN [n |-> <<n[1] \div g, n[2] \div g>>, d |-> d \div g]
None == [n |-> <<0, 0>>, d |-> 0]
RAdd(x, y) == IF x.d = 0 \/ y.d = 0 \/ x.d > 200 \/ y.d > 200 THEN None
              ELSE LET p(k) == x.n[k] * y.d + y.n[k] * x.d IN
                   IF Abs(x.n[1]) > 5000 \/ Abs(x.n[2]) > 5000 \/ Abs(y.n[1]) > 5000 \/ Abs(y.n[2]) > 5000 THEN None
                   ELSE Ratio(<<p(1), p(2)>>, x.d * y.d)
Weight(w) == IF Lost(w) THEN None ELSE Ratio(Dot(w.v, w.v), w.q * w.q)
Mean(s, op, t, w) == IF Lost(w) THEN None ELSE Ratio(Dot(w.v, MatVec(MatAt(s, op, t), w.v)), w.q * w.q)
RECURSIVE Root(_, _)
Root(n, k) == IF k * k >= n THEN k ELSE Root(n, k + 1)
Unit(w) == IF Lost(w) THEN w
           ELSE LET n == Dot(w.v, w.v)[1] r == Root(n, 0) IN
                IF n = 0 \/ r * r # n THEN [w EXCEPT !.q = 0]
                ELSE Fit([w EXCEPT !.q = r])

\* filters: [a, op, hdr, val, int, ms]; a table has a header and rows of cells [z, val, int]
Shown(f) == f.a \in {"expec", "expeconly", "rho"}
RECURSIVE Chain(_, _, _, _, _, _, _)
\* one pass of chain fl over w at step t: the new wave function, the row, and the sums
Chain(s, fl, ren, t, w, sums, k) ==
  IF k > Len(fl) THEN [w |-> w, row |-> <<>>, sums |-> sums]
  ELSE LET f == fl[k]
           raw == IF f.a = "rho" THEN (IF Lost(w) THEN None ELSE Ratio(Dot(Part(w, f.ms[1]), Part(w, f.ms[2])), w.q * w.q))
                  ELSE IF ~Shown(f) THEN None
                  ELSE IF ren THEN (IF Lost(w) \/ Dot(w.v, w.v)[1] = 0 THEN None ELSE Ratio(Dot(w.v, MatVec(MatAt(s, f.op, t), w.v)), Dot(w.v, w.v)[1]))
                  ELSE Mean(s, f.op, t, w)
           z == IF Shown(f) /\ f.int THEN RAdd(sums[k], raw) ELSE raw
           w2 == CASE f.a \in {"expec", "apply"} -> Does(s, f.op, t, w) [] f.a = "normalize" -> Unit(w) [] OTHER -> w
           rest == Chain(s, fl, ren, t, TLCEval(w2), TLCEval([sums EXCEPT ![k] = z]), k + 1)
       IN IF Shown(f) THEN [rest EXCEPT !.row = <<[z |-> z, val |-> f.val, int |-> f.int]>> \o @] ELSE rest
Sums(fl) == [k \in 1..Len(fl) |-> [n |-> <<0, 0>>, d |-> 1]]
RECURSIVE Labels(_, _)
Labels(fl, k) == IF k > Len(fl) THEN <<>> ELSE (IF Shown(fl[k]) THEN <<fl[k].hdr>> ELSE <<>>) \o Labels(fl, k + 1)
Tells(fl) == \E k \in 1..Len(fl) : Shown(fl[k])
HeadOf(fl) == <<"time">> \o Labels(fl, 1)
\* operators of a chain go with the run's clock, and states exist
AllGo(s, fl, wd, n) == \A k \in 1..Len(fl) : Goes(s, fl[k].op, wd, n)
StatesOk(fl, w) == \A k \in 1..Len(fl) : fl[k].a = "rho" => (w.ns > 1 /\ fl[k].ms[1] < w.ns /\ fl[k].ms[2] < w.ns)

\* programs
Table(kind, head, rows, u) == [kind |-> kind, head |-> head, rows |-> rows, u |-> u]
Num(k) == ToString(k)
Wfile(base, k) == base \o "_" \o Num(k)
\* the report of a propagation or a filter run
RepHead(r, ns) == <<"Step", "Time[au]">>
   \o (IF r.norm THEN <<"Population">> \o (IF ns > 1 THEN [k \in 1..ns |-> "Pop_" \o Num(k - 1)] ELSE <<>>) ELSE <<>>)
   \o (IF r.energy THEN <<"Energy[au]">> ELSE <<>>)
   \o (IF r.proj = 1 THEN <<"<Psi0|PsiT>">> ELSE IF r.proj = 2 THEN <<"|<Psi0|PsiT>|^2">> ELSE <<>>)
Cell(z, val) == [z |-> z, val |-> val, int |-> FALSE]
Square(x) == IF x.d = 0 \/ x.d > 40000 THEN None ELSE LET n == x.n[1] * x.n[1] + x.n[2] * x.n[2] IN Ratio(<<n, 0>>, x.d * x.d)
RepRow(s, r, op, t, w, w0) ==
  LET pj == IF Lost(w) \/ Lost(w0) THEN None ELSE Ratio(Dot(w.v, w0.v), w.q * w0.q)
      small == Abs(pj.n[1]) < 20000 /\ Abs(pj.n[2]) < 20000
  IN [t |-> t, cells |->
     (IF r.norm THEN <<Cell(Weight(w), "real")>> \o (IF w.ns > 1 THEN [k \in 1..w.ns |->
           Cell(IF Lost(w) THEN None ELSE Ratio(Dot(Part(w, k - 1), Part(w, k - 1)), w.q * w.q), "real")] ELSE <<>>) ELSE <<>>)
     \o (IF r.energy THEN <<Cell(Mean(s, op, t, w), "real")>> ELSE <<>>)
     \o (IF r.proj = 1 THEN <<Cell(pj, "complex")>> ELSE IF r.proj = 2 THEN <<Cell(IF small THEN Square(pj) ELSE None, "real")>> ELSE <<>>)]

Put(a, name, x) == [a EXCEPT !.s.fs = With(@, name, x), !.wr = @ \cup {name}]
Fail(a) == [a EXCEPT !.ok = FALSE]
Whatever == [kind |-> "any"]
\* a: [s, wr: names written, tabs: tables shown, ok]
RECURSIVE Loop(_, _, _, _, _)
Loop(a, p, D, i, x) ==
  IF i > p.steps THEN [a |-> a, x |-> x]
  ELSE LET s == a.s
           b == IF p.pre.on THEN Chain(s, p.pre.fl, p.pre.ren, i - 1, x.w, x.b, 1) ELSE [w |-> x.w, row |-> <<>>, sums |-> <<>>]
           row == RepRow(s, p.rep, p.H.op, i - 1, b.w, x.w0)
           w2 == Step(s, p.H, p.sg, i - 1, b.w)
           c == IF p.post.on THEN Chain(s, p.post.fl, p.post.ren, i, w2, x.c, 1) ELSE [w |-> w2, row |-> <<>>, sums |-> <<>>]
           y == [x EXCEPT !.w = c.w, !.b = b.sums, !.c = c.sums, !.rep = Append(@, row),
                          !.br = Append(@, [t |-> i - 1, cells |-> b.row]), !.cr = Append(@, [t |-> i, cells |-> c.row])]
           a2 == IF i % p.wcycle = 0 THEN Put(a, Wfile(D \o p.fname, i \div p.wcycle), [kind |-> "wf", w |-> c.w]) ELSE a
       IN Loop(TLCEval([a2 EXCEPT !.odd = @ \/ Void(b.w) \/ Void(c.w)]), p, D, i + 1, TLCEval(y))
\* continuing with start = k takes up the series at its wave function k - 1
Before(p) == IF p.start = 0 THEN 0 ELSE (p.start - 1) * p.wcycle
Dirs(cfg, p) == LET d == IF cfg.cl # "" THEN cfg.cl ELSE IF cfg.env # "" THEN cfg.env ELSE IF cfg.root # "" THEN cfg.root
                         ELSE IF cfg.cwd # "" THEN cfg.cwd ELSE IF cfg.home # "" THEN cfg.home ELSE p.dir
                IN IF d = "" THEN "" ELSE d \o "/"
\* a file holds what was written, or an eigenstate
IsWf(s, f) == f \in DOMAIN s.fs /\ s.fs[f].kind = "wf"
Propa(a0, p, D) ==
  IF p.bad # "" \/ p.steps = 0 \/ p.wcycle < 1 \/ ~IsWf(a0.s, p.wf) THEN Fail(a0)
  ELSE
  LET s == a0.s
      w1 == s.fs[p.wf].w
      initok == ~p.init.on \/ (AllGo(s, p.init.fl, p.sg, p.steps) /\ StatesOk(p.init.fl, w1))
      ini == TLCEval(Chain(s, p.init.fl, p.init.ren, 0, w1, Sums(p.init.fl), 1))
      w == IF p.init.on THEN ini.w ELSE w1
      a1 == IF p.init.on /\ Tells(p.init.fl)
            THEN Put([a0 EXCEPT !.odd = @ \/ (initok /\ Void(w))], D \o p.init.file, IF ~initok THEN Whatever ELSE Table("exp", HeadOf(p.init.fl), <<[t |-> 0, cells |-> ini.row]>>, p.sg))
            ELSE [a0 EXCEPT !.odd = @ \/ (initok /\ Void(w))]
  IN IF ~initok \/ ~Goes(s, p.H.op, p.sg, p.steps) THEN Fail(a1)
     ELSE
     LET a2 == IF p.start = 0 THEN Put(a1, Wfile(D \o p.fname, 0), [kind |-> "wf", w |-> w]) ELSE a1
         r == TLCEval(Loop(a2, p, D, Before(p) + 1, [w |-> w, w0 |-> w, b |-> Sums(p.pre.fl), c |-> Sums(p.post.fl), rep |-> <<>>, br |-> <<>>, cr |-> <<>>]))
         \* the header comes with the first row
         rep == Table("rep", IF r.x.rep = <<>> THEN <<>> ELSE RepHead(p.rep, w.ns), r.x.rep, p.sg)
         a3 == IF p.rep.file = "" THEN [r.a EXCEPT !.tabs = Append(@, rep)] ELSE Put(r.a, D \o p.rep.file, rep)
         a4 == IF p.pre.on /\ Tells(p.pre.fl) THEN Put(a3, D \o p.pre.file, Table("exp", IF r.x.rep = <<>> THEN <<>> ELSE HeadOf(p.pre.fl), r.x.br, p.sg)) ELSE a3
         a5 == IF p.post.on /\ Tells(p.post.fl) THEN Put(a4, D \o p.post.file, Table("exp", IF r.x.rep = <<>> THEN <<>> ELSE HeadOf(p.post.fl), r.x.cr, p.sg)) ELSE a4
     IN Put(a5, D \o "Propagation.meta", [kind |-> "meta", nt |-> p.steps, wc |-> p.wcycle, base |-> p.fname, sg |-> p.sg])

RECURSIVE Each(_, _, _, _, _, _)
\* the recorded wave functions k.. of base, each once and in order
Each(s, p, base, last, k, x) ==
  IF k > last \/ ~IsWf(s, Wfile(base, k)) THEN [x EXCEPT !.ok = k > last]
  ELSE LET w == s.fs[Wfile(base, k)].w
           c == Chain(s, p.f.fl, p.f.ren, k, w, x.sums, 1)
       IN Each(s, p, base, last, k + 1, TLCEval([x EXCEPT !.sums = c.sums, !.rows = Append(@, [t |-> k, cells |-> c.row]),
                                                  !.rep = Append(@, RepRow(s, [norm |-> TRUE, energy |-> FALSE, proj |-> 0], <<>>, k, c.w, w))]))
Filter(a, p, D) ==
  LET s == a.s P == IF p.path = "" THEN "" ELSE p.path \o "/" m == P \o "Propagation.meta" IN
  IF p.bad # "" \/ m \notin DOMAIN s.fs THEN Fail(a)
  ELSE
  LET h == s.fs[m]
      base == P \o h.base
      n == h.nt \div h.wc
      u == h.sg * h.wc
  IN IF ~IsWf(s, Wfile(base, 0)) THEN Fail(a)
     ELSE
     LET w0 == s.fs[Wfile(base, 0)].w
         tells == p.f.on /\ Tells(p.f.fl)
     IN IF p.f.on /\ (~AllGo(s, p.f.fl, u, n) \/ ~StatesOk(p.f.fl, w0)) THEN Fail(IF tells THEN Put(a, D \o p.f.file, Whatever) ELSE a)
        ELSE
        LET fl == IF p.f.on THEN p.f.fl ELSE <<>>
            x == Each(s, [p EXCEPT !.f.fl = fl], base, n, 0, [sums |-> Sums(fl), rows |-> <<>>, rep |-> <<>>, ok |-> TRUE])
            a1 == IF tells THEN Put(a, D \o p.f.file, Table("exp", HeadOf(fl), x.rows, u)) ELSE a
            a2 == [a1 EXCEPT !.tabs = Append(@, Table("rep", RepHead([norm |-> TRUE, energy |-> FALSE, proj |-> 0], w0.ns), x.rep, u))]
        IN [a2 EXCEPT !.ok = x.ok]

\* correlation functions: ket and bra are sequences of [u, op], where u stands for the propagator
RECURSIVE Seg(_, _, _, _, _, _), Go(_, _, _, _, _, _)
\* the operators between the n-th and the next propagator of ops, applied to w at step t
Seg(s, ops, n, t, w, k) ==
  IF k > Len(ops) \/ n < 0 THEN w
  ELSE IF ops[k].u THEN Seg(s, ops, n - 1, t, w, k + 1)
  ELSE Seg(s, ops, n, t, TLCEval(IF n = 0 THEN Does(s, ops[k].op, t, w) ELSE w), k + 1)
Go(s, H, sg, t, n, w) == IF n = 0 THEN w ELSE Go(s, H, sg, t + 1, n - 1, TLCEval(Step(s, H, sg, t, w)))
RECURSIVE Grow(_, _, _, _, _, _)
\* wave functions every wc steps
Grow(s, H, sg, wc, k, q) == IF Len(q) > k THEN q ELSE Grow(s, H, sg, wc, k, TLCEval(Append(q, Go(s, H, sg, (Len(q) - 1) * wc, wc, q[Len(q)]))))
Us(ops) == Cardinality({k \in 1..Len(ops) : ops[k].u})
RECURSIVE Size(_, _, _)
Size(s, base, k) == IF IsWf(s, Wfile(base, k)) THEN Size(s, base, k + 1) ELSE k
In(b, w) == IF Lost(b) \/ Lost(w) THEN None ELSE Ratio(Dot(b.v, w.v), b.q * w.q)
Zero == [n |-> <<0, 0>>, d |-> 1]
Cfunc(a, p, D) ==
  LET s == a.s P == IF p.read = "." THEN "" ELSE p.read \o "/" m == P \o "Propagation.meta" IN
  IF p.bad # "" \/ p.steps = 0 \/ p.wcycle < 1 THEN Fail(a)
  ELSE IF p.read # "" /\ (m \notin DOMAIN s.fs \/ (m \in DOMAIN s.fs /\ ~IsWf(s, Wfile(P \o s.fs[m].base, 0)))) THEN Fail(a)
  ELSE IF p.read = "" /\ ~IsWf(s, p.wf) THEN Fail(a)
  ELSE
  LET h == s.fs[m]
      base == P \o h.base
      size == IF p.read = "" THEN 1 ELSE Size(s, base, 0)
      wc == IF p.read = "" THEN p.wcycle ELSE h.wc
      sg == IF p.read = "" THEN p.sg ELSE h.sg
      steps == IF p.read = "" THEN p.steps ELSE IF size < h.nt \div h.wc THEN size * h.wc ELSE h.nt
      w0 == IF p.read = "" THEN s.fs[p.wf].w ELSE s.fs[Wfile(base, 0)].w
      ops == p.ket \o p.bra
      n == steps \div wc
      last == (steps - 1) \div wc
  IN IF \/ ~Goes(s, p.H.op, sg, steps)
        \/ \E k \in 1..Len(ops) : ~ops[k].u /\ ~Goes(s, ops[k].op, sg, steps)
        \/ p.ket = <<>>
        \/ (p.ket # <<>> /\ p.ket[Len(p.ket)].u)
        \/ (p.bra # <<>> /\ ~p.bra[Len(p.bra)].u)
        \/ (size > 1 /\ (~p.ket[1].u \/ (p.bra # <<>> /\ ~p.bra[1].u)))
     THEN Fail(a)
     ELSE
     LET b0 == Seg(s, p.bra, 0, 0, w0, 1)
         ket == TLCEval(IF size > 1 THEN [k \in 1..size |-> s.fs[Wfile(base, k - 1)].w]
                        ELSE Grow(s, p.H, sg, wc, last, <<Seg(s, p.ket, 0, 0, w0, 1)>>))
         bra == TLCEval(IF p.bra = <<>> THEN ket ELSE Grow(s, p.H, sg, wc, last, <<b0>>))
         wr == size = 1 /\ p.write # ""
         a1 == IF ~wr THEN a
               ELSE Put([a EXCEPT !.s.fs = TLCEval([f \in {Wfile(p.write \o "/WF", k) : k \in 0..last} |->
                                     [kind |-> "wf", w |-> ket[CHOOSE k \in 1..(last + 1) : Wfile(p.write \o "/WF", k - 1) = f]]] @@ @),
                                  !.wr = @ \cup {Wfile(p.write \o "/WF", k) : k \in 0..last}],
                        p.write \o "/Propagation.meta", [kind |-> "meta", nt |-> steps, wc |-> wc, base |-> "WF", sg |-> sg])
         nk == Us(p.ket)
         nb == Us(p.bra)
         one == IF p.bra = <<>> THEN nk = 1 ELSE nk + nb = 2
         two == (nk = 2 /\ nb = (IF p.bra = <<>> THEN 0 ELSE 1)) \/ (nk = 1 /\ nb = 2)
         C1 == [k \in 1..n |-> In(bra[k], Seg(s, p.ket, 1, (k - 1) * wc, ket[k], 1))]
         \* an interaction at i on the ket or the bra side, the probe at j
         A(i) == Grow(s, p.H, sg, wc, n - 1, [x \in 1..i |-> ket[x]] \o <<Seg(s, p.ket, 1, i * wc, ket[i + 1], 1)>>)
         B(i) == Grow(s, p.H, sg, wc, n - 1, [x \in 1..i |-> bra[x]] \o <<Seg(s, p.bra, 1, i * wc, bra[i + 1], 1)>>)
         Row(i) == IF nk = 2 THEN LET q == TLCEval(A(i)) IN [j \in 1..n |-> In(bra[j], Seg(s, p.ket, 2, (j - 1) * wc, q[j], 1))]
                   ELSE LET q == TLCEval(B(i)) IN [j \in 1..n |-> In(q[j], Seg(s, p.ket, 1, (j - 1) * wc, ket[j], 1))]
         rows == TLCEval([i \in 1..n |-> TLCEval(Row(i - 1))])
         \* no more than sint steps between them (one more is as good)
         V(i, j) == IF j < i \/ (p.sint > 0 /\ j - i > p.sint + 1) THEN Zero ELSE IF p.sint > 0 /\ j - i = p.sint + 1 THEN None ELSE rows[i][j]
         C2 == [x \in 1..(n * n) |-> LET r == ((x - 1) \div n) + 1 c == ((x - 1) % n) + 1 IN IF nk = 2 THEN V(r, c) ELSE V(c, r)]
         Told(v, dim) == LET f == D \o p.fname \o "_" \o Num(dim) IN
              Put(Put(a1, f \o ".cf", [kind |-> "cf", v |-> TLCEval(v)]), f \o ".meta", [kind |-> "cfm", nt |-> n, dt |-> sg * wc, dim |-> dim])
         r == IF one THEN Told(C1, 1) ELSE IF two THEN Told(C2, 2) ELSE Fail(a1)
     IN [r EXCEPT !.odd = @ \/ Void(w0)]

Program(a, p, cfg) == LET D == Dirs(cfg, p) IN
  CASE p.p = "propa" -> Propa(a, p, D) [] p.p = "filter" -> Filter(a, p, D)
    [] p.p = "cfunc" -> Cfunc(a, p, D) [] OTHER -> Fail(a)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(a, ps, cfg, k) == IF k > Len(ps) \/ ~a.ok THEN a ELSE RunFrom(TLCEval(Program(a, ps[k], cfg)), ps, cfg, k + 1)
Run(s, ps, cfg) == RunFrom([s |-> s, wr |-> {}, tabs |-> <<>>, ok |-> TRUE, odd |-> FALSE], ps, cfg, 1)
=============================================================================
