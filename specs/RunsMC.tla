-------------------------------- MODULE RunsMC --------------------------------
(* Histories of runs over a small set of programs, with what they promise. *)
EXTENDS Runs
CONSTANTS MaxRuns, Mix, Full
WithFilters == Mix \in {"filters", "config"}
WithConfig == Mix = "config"
VARIABLES s, last, n

D2 == <<1, 2, 2, 1>>
X2 == <<0, 1, 1, 0>>
Y2 == <<2, 1, 1, -1>>
Still(m) == <<[m |-> m, las |-> ""]>>
H1 == [op |-> Still(D2), bl |-> <<<<1, 2>>>>]
H2 == [op |-> <<[m |-> <<1, 0, 0, 2>>, las |-> ""], [m |-> <<1, 0, 0, -1>>, las |-> "l"]>>, bl |-> <<<<1>>, <<2>>>>]
F(a, op, int) == [a |-> a, op |-> op, hdr |-> a, val |-> "real", int |-> int, ms |-> <<0, 0>>]
Off == [on |-> FALSE, fl |-> <<>>, ren |-> FALSE, file |-> ""]
On(fl, ren, file) == [on |-> TRUE, fl |-> fl, ren |-> ren, file |-> file]
Watch == <<F("expeconly", Still(Y2), FALSE), F("expeconly", <<[m |-> X2, las |-> "l"]>>, TRUE)>>
Act == <<F("apply", Still(X2), FALSE), F("expec", Still(<<1, 0, 0, -1>>), FALSE)>>
Chains(file) == {Off} \cup (IF WithFilters THEN {On(Watch, TRUE, file), On(Act, FALSE, file)} ELSE {})
Rep == [norm |-> TRUE, energy |-> TRUE, proj |-> 1, file |-> ""]
Propas == {[p |-> "propa", bad |-> b, dir |-> d, fname |-> "W", steps |-> m, wcycle |-> wc, start |-> k, sg |-> sg, wf |-> w, H |-> H,
            rep |-> [Rep EXCEPT !.file = f], init |-> i, pre |-> x, post |-> y] :
             b \in {"", "no"}, d \in {"A"} \cup (IF Full THEN {"B"} ELSE {}), m \in {0, 3, 4}, wc \in {0, 1, 2}, k \in 0..2, sg \in {1, -1},
             w \in {"in", "A/W_1", "A/W_2"}, H \in {H1, H2}, f \in {"", "n"},
             i \in {Off} \cup (IF WithFilters THEN {On(Watch, FALSE, "init")} ELSE {}), x \in Chains("pre"), y \in Chains("post")}
Bare(p) == ~p.init.on /\ ~p.pre.on /\ ~p.post.on
Sane == {p \in Propas : /\ (p.bad # "" => (p.steps = 3 /\ p.wcycle = 1 /\ p.start = 0)) /\ (p.steps = 0 => p.wcycle = 1) /\ (p.wcycle = 0 => p.steps = 3)
                        /\ (p.rep.file # "" => p.H = H1 /\ p.sg = 1) /\ (p.start > 0 => p.wf = "A/W_" \o ToString(p.start)) /\ (p.init.on => p.start = 0)
                        /\ ((Mix \in {"filters", "config"}) => (p.steps = 3 /\ p.wcycle > 0 /\ p.rep.file = "" /\ p.sg = 1 /\ p.wf # "A/W_2" /\ (Full \/ p.H = H2 \/ Bare(p))))
                        /\ (Mix = "config" => (p.H = H1 /\ p.wcycle = 1 /\ ~p.pre.on /\ (p.init.on <=> p.post.on)))}
Filters == {[p |-> "filter", bad |-> b, dir |-> d, path |-> q, f |-> x] : b \in {"", "no"}, d \in {"A", "F"}, q \in {"A", "B"}, x \in Chains("tab") \cup {On(Watch, FALSE, "tab")}}
\* correlation functions
U == [u |-> TRUE, op |-> <<>>]
O(op) == [u |-> FALSE, op |-> op]
Lx == <<[m |-> X2, las |-> "l"]>>
Starts == {<<>>, <<O(Still(X2))>>, <<O(Lx)>>}
Kets == {a \o <<U>> \o b : a \in Starts, b \in {<<>>, <<O(Still(Y2))>>, <<O(Lx)>>, <<O(Still(Y2)), O(Still(X2))>>, <<O(Still(X2)), U, O(Still(Y2))>>, <<O(Lx), U, O(Lx), O(Still(Y2))>>}}
Bras == {<<>>} \cup {a \o <<U>> : a \in Starts} \cup {<<U, O(Still(Y2)), U>>, <<O(Still(X2)), U, O(Lx), O(Still(X2)), U>>}
Cfuncs == {[p |-> "cfunc", bad |-> b, dir |-> "C", fname |-> "c", steps |-> m, wcycle |-> wc, sint |-> i, sg |-> sg, wf |-> "in", read |-> r, write |-> w,
            H |-> H, ket |-> k, bra |-> a] : b \in {"", "no"}, m \in {4, 5}, wc \in {0, 1, 2}, i \in {0, 1}, sg \in {1, -1}, r \in {"", "A"}, w \in {"", "W"}, H \in {H1, H2}, k \in Kets, a \in Bras}
Corrs == {p \in Cfuncs : /\ (p.bad # "" \/ p.wcycle = 0 => p.steps = 4 /\ p.sint = 0 /\ p.sg = 1 /\ Len(p.ket) = 2 /\ p.bra = <<>>)
                         /\ (p.steps = 5 => p.wcycle = 2 /\ p.sint = 0 /\ p.sg = 1) /\ (p.sint = 1 => p.read = "" /\ p.write = "") /\ (p.read # "" => p.write = "")
                         /\ (p.write # "" => p.H = H2)}
None0 == [cl |-> "", env |-> "", root |-> "", cwd |-> "", home |-> ""]
Cfgs == IF WithConfig THEN {None0} \cup {[c EXCEPT !.cl = x, !.env = y, !.root = z, !.cwd = v, !.home = w] :
                              c \in {None0}, x \in {"", "A"}, y \in {"", "B"}, z \in {"", "C"}, v \in {"", "D"}, w \in {"", "E"}} ELSE {None0}
Start == [fs |-> ("in" :> [kind |-> "wf", w |-> [v |-> <<<<1, 0>>, <<0, 2>>>>, q |-> 1, ns |-> 1]]),
          las |-> ("l" :> [d |-> <<1, -1, 2, 1, 0, 1, 1, 1>>, w |-> 1])]
Nothing == [ps |-> <<>>, cfg |-> None0, from |-> Start, r |-> [s |-> Start, wr |-> {}, tabs |-> <<>>, ok |-> TRUE, odd |-> FALSE]]

Init == n = 0 /\ s = Start /\ last = Nothing /\ \A k \in 1..13 : TLCSet(k, 0)
Do(ps, cfg) == LET r == TLCEval(Run(s, ps, cfg)) IN s' = r.s /\ last' = [ps |-> ps, cfg |-> cfg, from |-> s, r |-> r]
Propagate == \E p \in Sane : Do(<<p>>, None0)
FilterRun == \E p \in Filters : Do(<<p>>, None0)
Two == WithConfig /\ \E p \in {x \in Sane : x.dir = "A" /\ x.start = 0}, q \in {x \in Filters : x.dir = "F" /\ x.path = "A"}, c \in Cfgs : Do(<<p, q>>, c)
Correlate == Mix = "corr" /\ \E p \in Corrs : Do(<<p>>, None0)
Next == n < MaxRuns /\ (IF Mix = "corr" THEN Correlate \/ \E p \in Sane : p.start = 0 /\ p.rep.file = "" /\ p.steps = 4 /\ p.wf = "in" /\ p.wcycle > 0 /\ Do(<<p>>, None0) ELSE Propagate \/ FilterRun \/ Two) /\ n' = n + 1
Spec == Init /\ [][Next]_<<s, last, n>>

One == Len(last.ps) = 1
P == last.ps[1]
IsPropa == One /\ P.p = "propa"
IsFilter == One /\ P.p = "filter"
IsCorr == One /\ P.p = "cfunc"
Good == last.r.ok
Quiet(f) == ~f.on \/ \A k \in 1..Len(f.fl) : f.fl[k].a = "expeconly"
File(f) == last.r.s.fs[f]

\* what has been reached (each worker tells once)
Mark(k, name, c) == IF ~c THEN TRUE ELSE IF TLCGet(k) = 1 THEN TRUE ELSE TLCSet(k, 1) /\ PrintT(<<"SEEN", name>>)
Marks == /\ Mark(1, "continued", IsPropa /\ Good /\ P.start > 0)
         /\ Mark(2, "whole", IsPropa /\ Good /\ P.start = 0)
         /\ Mark(3, "back", IsPropa /\ Good /\ P.sg = -1)
         /\ Mark(11, "one", IsCorr /\ Good /\ "C/c_1.cf" \in last.r.wr)
         /\ Mark(12, "two", IsCorr /\ Good /\ "C/c_2.cf" \in last.r.wr)
         /\ Mark(13, "reread", IsCorr /\ Good /\ P.read # "")
         /\ Mark(4, "filtered", IsFilter /\ Good /\ P.f.on)
         /\ Mark(5, "failed", One /\ ~Good)
         /\ Mark(6, "acted", IsPropa /\ Good /\ ~Quiet(P.post))
         /\ Mark(7, "watched", IsPropa /\ Good /\ ~Bare(P) /\ Quiet(P.init) /\ Quiet(P.pre) /\ Quiet(P.post))
         /\ Mark(8, "both", Len(last.ps) = 2 /\ Good)
         /\ Mark(9, "half", Len(last.ps) = 2 /\ ~Good)
         /\ Mark(10, "driven", IsPropa /\ Good /\ P.H = H2)

\* the recorded wave functions are 0..steps/wcycle, and the last says how to read them
Series == (IsPropa /\ Good) =>
  LET D == Dirs(last.cfg, P) IN
  /\ {f \in last.r.wr : File(f).kind = "wf"} = {Wfile(D \o P.fname, k) : k \in P.start..(P.steps \div P.wcycle)}
  /\ File(D \o "Propagation.meta").wc = P.wcycle /\ File(D \o "Propagation.meta").nt = P.steps
\* as though it had never been interrupted: the rest of the series and of the report come out the same
Restart == (IsPropa /\ Good /\ P.start = 0) => \A k \in 0..(P.steps \div P.wcycle) :
  LET D == Dirs(last.cfg, P)
      q == [P EXCEPT !.start = k + 1, !.wf = Wfile(D \o P.fname, k), !.init = Off, !.rep = [Rep EXCEPT !.proj = 0]]
      a == Run(last.r.s, <<q>>, last.cfg)
      b == Run(last.from, <<[P EXCEPT !.rep = [Rep EXCEPT !.proj = 0]]>>, last.cfg)
  IN k * P.wcycle =< P.steps =>
     /\ a.ok /\ \A j \in (k + 1)..(P.steps \div P.wcycle) : a.s.fs[Wfile(D \o P.fname, j)] = last.r.s.fs[Wfile(D \o P.fname, j)]
     /\ a.tabs[1].rows = SubSeq(b.tabs[1].rows, k * P.wcycle + 1, P.steps)
\* without filters the norm stays, and with a still Hamiltonian the energy
Conserved == (IsPropa /\ Good /\ Bare(P) /\ P.rep.file = "") =>
  LET rows == last.r.tabs[1].rows IN \A k \in 1..Len(rows) :
     /\ rows[k].cells[1].z = rows[1].cells[1].z
     /\ (P.H = H1 => rows[k].cells[2].z = rows[1].cells[2].z)
\* going back brings back
Reversed == (IsPropa /\ Good /\ Bare(P) /\ P.H = H1 /\ P.steps % P.wcycle = 0 /\ P.start = 0) =>
  LET D == Dirs(last.cfg, P) e == P.steps \div P.wcycle
      a == Run(last.r.s, <<[P EXCEPT !.sg = -@, !.wf = Wfile(D \o P.fname, e), !.fname = "V"]>>, last.cfg)
  IN a.ok /\ \A k \in 0..e : a.s.fs[Wfile(D \o "V", k)].w = last.r.s.fs[Wfile(D \o P.fname, e - k)].w
\* looking does not change what is looked at
Looking == (IsPropa /\ Good /\ Quiet(P.init) /\ Quiet(P.pre) /\ Quiet(P.post)) =>
  LET a == Run(last.from, <<[P EXCEPT !.init = Off, !.pre = Off, !.post = Off]>>, last.cfg) IN
  /\ a.ok /\ a.tabs = last.r.tabs
  /\ \A f \in a.wr : a.s.fs[f] = File(f)
\* pre tables start at the first step, post tables one later
Tables == (IsPropa /\ Good) => LET D == Dirs(last.cfg, P) b == Before(P) IN
  /\ (P.pre.on /\ Tells(P.pre.fl)) => \A k \in 1..(P.steps - b) : File(D \o P.pre.file).rows[k].t = b + k - 1
  /\ (P.post.on /\ Tells(P.post.fl)) => (Len(File(D \o P.post.file).rows) = (IF P.steps > b THEN P.steps - b ELSE 0)
                                         /\ \A k \in 1..(P.steps - b) : File(D \o P.post.file).rows[k].t = b + k)
\* a filter run reads every wave function once and leaves them alone
Reads == IsFilter => /\ \A f \in DOMAIN last.from.fs : f \notin last.r.wr => last.r.s.fs[f] = last.from.fs[f]
                     /\ \A f \in last.r.wr : File(f).kind # "wf"
                     /\ (Good => LET m == last.from.fs[P.path \o "/Propagation.meta"] IN Len(last.r.tabs[1].rows) = m.nt \div m.wc + 1)
\* what a filter run tells of a bare propagation is what the propagation's own tables tell at those times
Agrees == (IsFilter /\ Good /\ P.f.on /\ P.f.fl = Watch /\ ~P.f.ren) =>
  LET m == last.from.fs[P.path \o "/Propagation.meta"]
      rows == last.r.s.fs[Dirs(last.cfg, P) \o P.f.file].rows
  IN \A k \in 1..Len(rows) : LET w == last.from.fs[Wfile(P.path \o "/" \o m.base, k - 1)].w IN rows[k].cells[1].z = Mean(last.from, Watch[1].op, 0, w)
\* a failing single program writes nothing but the table it was to fill
Fails == (One /\ ~Good) => \A f \in last.r.wr : (f \in DOMAIN last.from.fs => File(f).kind # "wf") /\ File(f).kind \in {"any", "exp"}
\* running programs together is running them one after the other, as long as they succeed
Together == (Len(last.ps) = 2) =>
  LET a == Run(last.from, <<last.ps[1]>>, last.cfg) b == Run(a.s, <<last.ps[2]>>, last.cfg) IN
  IF a.ok THEN last.r.s = b.s /\ last.r.ok = b.ok /\ last.r.tabs = a.tabs \o b.tabs
  ELSE last.r.s = a.s /\ ~Good
\* everything goes to the directory that comes first
Directed == (Len(last.ps) = 2 /\ last.cfg # None0) =>
  LET c == last.cfg
      d == IF c.cl # "" THEN "A" ELSE IF c.env # "" THEN "B" ELSE IF c.root # "" THEN "C" ELSE IF c.cwd # "" THEN "D" ELSE "E"
  IN \A f \in last.r.wr : \E k \in 1..(Len(last.ps)) : SubSeq(f, 1, 2) = d \o "/"
\* what another correlation program gives from the same place
Gives(q, k) == LET a == Run(last.from, <<q>>, last.cfg) f == "C/c_" \o k \o ".cf" IN IF a.ok THEN a.s.fs[f].v ELSE <<>>
Us0(q) == Cardinality({k \in 1..Len(q) : q[k].u})
Dim == IF "C/c_1.cf" \in last.r.wr THEN "1" ELSE "2"
Mine == File("C/c_" \o Dim \o ".cf").v
Points == File("C/c_" \o Dim \o ".meta").nt
Conj(z) == [z EXCEPT !.n = <<@[1], -@[2]>>]
Told(q, z) == Len(q) = Len(z) /\ \A k \in 1..Len(q) : q[k].d = 0 \/ z[k].d = 0 \/ q[k] = z[k]
\* an operator leaves no trace where it is the identity
I2 == O(Still(<<1, 0, 0, 1>>))
Extra(q) == <<I2>> \o q
Idle == (IsCorr /\ Good /\ P.read = "") => Told(Gives([P EXCEPT !.ket = Extra(@), !.bra = IF @ = <<>> THEN @ ELSE Extra(@)], Dim), Mine)
\* its own ground series or the recorded one of the same propagator
Recorded == (IsCorr /\ Good /\ P.read = "" /\ P.ket[1].u /\ (P.bra = <<>> \/ P.bra[1].u)) =>
  LET a == Run(last.from, <<[P EXCEPT !.write = "R"]>>, last.cfg)
      b == Run(a.s, <<[P EXCEPT !.read = "R", !.write = "", !.wf = "none", !.steps = 1]>>, last.cfg)
  IN P.steps % P.wcycle = 0 => a.ok /\ b.ok /\ Told(b.s.fs["C/c_" \o Dim \o ".cf"].v, Mine)
\* bra and ket exchanged: the complex conjugate (the operators are Hermitian)
Mirror == (IsCorr /\ Good /\ P.read = "" /\ Len(P.bra) = 2 /\ Dim = "1" /\ Len(P.ket) = 3 /\ P.ket[2].u) =>
  Told(Gives([P EXCEPT !.ket = <<P.bra[1], P.bra[2], P.ket[3]>>, !.bra = <<P.ket[1], P.ket[2]>>], "1"), [k \in 1..Len(Mine) |-> Conj(Mine[k])])
\* the interaction on the other side: rows and columns change places
Sides == (IsCorr /\ Good /\ P.read = "" /\ P.sint = 0 /\ Dim = "2" /\ Us0(P.ket) = 2 /\ P.bra = <<>> /\ P.ket[1].u /\ Len(P.ket) = 4 /\ P.ket[3].u) =>
  LET N == Points
      other == Gives([P EXCEPT !.ket = <<U, P.ket[4]>>, !.bra = <<U, P.ket[2], U>>], "2")
  IN Told(other, [x \in 1..(N * N) |-> Conj(Mine[((x - 1) % N) * N + ((x - 1) \div N) + 1])])
\* without an interaction in between, two points are one
Falls == (IsCorr /\ Good /\ P.read = "" /\ Dim = "1" /\ P.bra = <<>>) =>
  LET N == Points k0 == CHOOSE k \in 1..Len(P.ket) : P.ket[k].u
      two == Gives([P EXCEPT !.sint = 0, !.ket = SubSeq(@, 1, k0) \o <<I2, U>> \o SubSeq(@, k0 + 1, Len(@))], "2")
  IN Told(two, [x \in 1..(N * N) |-> IF (x - 1) % N < (x - 1) \div N THEN Zero ELSE Mine[((x - 1) % N) + 1]])
\* a horizon only leaves out what lies beyond it
Horizon == (IsCorr /\ Good /\ P.sint > 0 /\ Dim = "2") =>
  LET all == Gives([P EXCEPT !.sint = 0], "2") IN \A k \in 1..Len(all) : Mine[k] \in {all[k], Zero, None}
\* nothing but the correlation function and the series asked for
Only == IsCorr => \A f \in last.r.wr : \/ (Good /\ f \in {"C/c_" \o Dim \o x : x \in {".cf", ".meta"}})
                                       \/ (P.write # "" /\ f = "W/Propagation.meta") \/ (P.write # "" /\ File(f).kind = "wf")
================================================================================
