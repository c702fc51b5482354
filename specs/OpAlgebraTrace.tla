---------------------------- MODULE OpAlgebraTrace ----------------------------
EXTENDS OpAlgebra, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Pairs(q) == [k \in 1..(Len(q) \div 2) |-> <<q[2*k - 1], q[2*k]>>]
\* All wave functions, read after every call.
Seen == /\ {E.w[k].i : k \in 1..Len(E.w)} = DOMAIN wf'
        /\ \A k \in 1..Len(E.w) : Pairs(E.w[k].x) = wf'[E.w[k].i].x
Same == UNCHANGED vars
Ok == E.r = "" /\ Seen
Refused(c) == E.r = c /\ Seen
Nodes(N) == nd' = N /\ UNCHANGED <<wf, sp, now>>
Fits(o, i) == nd[o].u = wf[i].u /\ Ready(nd, o)

Zeros == [a \in 1..sp.s |-> [b \in 1..sp.s |-> 0]]
Made == LET k == E.k IN
  CASE k = "scal" -> [Blank(k, E.u) EXCEPT !.z = E.zv]
    [] k = "mat" \/ k = "dip" -> [Blank(k, E.u) EXCEPT !.m = E.m, !.lz = E.lz]
    [] k = "gpos" -> [Blank(k, E.u) EXCEPT !.d = E.d]
    [] k = "proj" -> [Blank(k, E.u) EXCEPT !.sg = IF E.pos THEN 1 ELSE -1, !.inv = E.inv]
    [] k = "ms" \/ k = "odms" -> [Blank("ms", E.u) EXCEPT !.mx = Zeros, !.sym = E.sym, !.one = E.one]
    [] OTHER -> Blank(k, E.u)

Added(i, j, n) == LET o == nd[i] p == Len(o.ch)
                      N == [nd EXCEPT ![i].ch = Append(@, j), ![i].nm = IF n = 0 THEN @ ELSE More(@, (n :> p))]
                  IN IF o.k = "gsum" THEN N ELSE ConjTo(N, j, o.cj)
Placed(i, a, b, j) == LET N == [nd EXCEPT ![i].mx = [@ EXCEPT ![a + 1][b + 1] = j],
                                          ![i].sym = @ /\ ~Pair(nd[i], a + 1, b + 1)]
                      IN ConjTo(N, j, nd[i].cj)
RECURSIVE ValidFor(_, _)
ValidFor(o, u) ==
  LET x == nd[o] IN
  CASE x.k \in {"scal", "proj"} -> Size(x.u) = Size(u)
    [] x.k \in {"sum", "prod"} -> \A j \in Kids(nd, o) : ValidFor(j, u)
    [] x.k = "ms" -> u = "b" /\ \A j \in Kids(nd, o) : ValidFor(j, "a")
    [] OTHER -> u = "a"

TOpen == Is("Open") /\ nd' = <<>> /\ wf' = <<>> /\ now' = 0 /\ sp' = [n |-> E.n, s |-> E.s, w |-> E.v]
TNext ==
  \/ Is("Wf") /\ wf' = More(wf, (E.i :> [u |-> E.u, x |-> Pairs(E.v)])) /\ UNCHANGED <<nd, sp, now>>
  \/ Is("Fill") /\ Put(E.i, Pairs(E.v)) /\ Ok
  \/ Is("Time") /\ now' = E.t /\ UNCHANGED <<nd, wf, sp>> /\ Ok
  \/ Is("New") /\ Nodes(More(nd, (E.i :> Made))) /\ Ok
  \/ Is("Add") /\ IF E.j = 0 THEN Same /\ (Refused("EIncompatible") \/ (E.n # 0 /\ E.n \in DOMAIN nd[E.i].nm /\ Refused("EParamProblem")))
                  ELSE IF E.n # 0 /\ E.n \in DOMAIN nd[E.i].nm THEN Same /\ Refused("EParamProblem")
                  ELSE Nodes(Added(E.i, E.j, E.n)) /\ Ok
  \/ Is("Set") /\ IF E.p < 0 \/ E.p >= Len(nd[E.i].ch) THEN Same /\ Refused("EIncompatible")
                  ELSE Nodes(ConjTo([nd EXCEPT ![E.i].ch[E.p + 1] = E.j], E.j, nd[E.i].cj)) /\ Ok
  \/ Is("Get") /\ Same /\ LET o == nd[E.i]
                              p == IF E.n # 0 THEN (IF E.n \in DOMAIN o.nm THEN o.nm[E.n] ELSE -1) ELSE E.p
                          IN IF p < 0 \/ p >= Len(o.ch) THEN Refused("EIncompatible")
                             ELSE E.v = o.ch[p + 1] /\ E.size = Len(o.ch) /\ Ok
  \/ Is("Put") /\ LET o == nd[E.i] IN
       IF E.a < 0 \/ E.b < 0 THEN Same /\ Refused("EParamProblem")
       ELSE IF E.a >= sp.s \/ E.b >= sp.s THEN Same /\ Refused("EOverflow")
       ELSE IF o.mx[E.a + 1][E.b + 1] # 0 THEN Same /\ Refused("EParamProblem")
       ELSE Nodes(Placed(E.i, E.a, E.b, E.j)) /\ Ok
  \/ Is("Vec") /\ Nodes([nd EXCEPT ![E.i].vs = Append(@, wf[E.j].x)]) /\ Ok
  \/ Is("Elem") /\ Nodes([nd EXCEPT ![E.i].m = [@ EXCEPT ![E.a + 1][E.b + 1] = E.v, ![E.b + 1][E.a + 1] = E.v]]) /\ Ok
  \/ Is("Init") /\ IF nd[E.o].u = wf[E.i].u THEN Nodes(Inited(nd, E.o)) /\ Ok
                   ELSE Same /\ nd[E.o].k \in {"mat", "dip", "gpos", "ms"}
                        /\ (Refused("EIncompatible") \/ (nd[E.o].ini /\ Ok))  \* initialised once, the call may do nothing
  \/ Is("Clock") /\ Nodes(ClockTo(nd, E.o)) /\ E.same /\ Ok
  \/ Is("Conj") /\ Nodes(ConjTo(nd, E.o, E.c)) /\ E.v = E.c /\ Ok
  \/ Is("Copy") /\ IF nd[E.j].k # (IF E.i \in DOMAIN nd THEN nd[E.i].k ELSE nd[E.j].k) THEN Same /\ Refused("EIncompatible")
                   ELSE E.self /\ Faithful(nd, E.t, E.i, E.j) /\ Nodes(CopyOf(nd, E.t)) /\ Ok
  \/ Is("Apply") /\ Fits(E.o, E.i) /\ Apply(E.o, E.i, E.j) /\ Ok
  \/ Is("ApplyIn") /\ Fits(E.o, E.i) /\ ApplyIn(E.o, E.i) /\ Ok
  \/ Is("ApplyAdd") /\ Fits(E.o, E.i) /\ ApplyAdd(E.o, E.i, E.j) /\ Ok
  \/ Is("Parent") /\ Fits(E.o, E.i) /\ ApplyParent(E.o, E.i, E.j) /\ Ok
  \/ Is("Element") /\ Fits(E.o, E.j) /\ Same /\ E.v = Element(E.o, E.i, E.j) /\ Ok
  \/ Is("Expec") /\ Fits(E.o, E.i) /\ Same /\ E.v = Element(E.o, E.i, E.i)[1] /\ Ok
  \/ Is("TDep") /\ Same /\ E.v = TimeDep(nd, E.o) /\ Ok
  \/ Is("Valid") /\ Same /\ E.v = (IF E.i = 0 THEN FALSE ELSE ValidFor(E.o, wf[E.i].u)) /\ Ok
TraceInit == l = 1 /\ nd = <<>> /\ wf = <<>> /\ sp = [n |-> 1, s |-> 1, w |-> 1] /\ now = 0
TraceNext == TOpen \/ TNext
TraceSpec == TraceInit /\ [][TraceNext]_<<nd, wf, sp, now, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
================================================================================
