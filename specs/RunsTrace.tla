------------------------------- MODULE RunsTrace -------------------------------
EXTENDS Runs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, given, off
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Pairs(q) == TLCEval([k \in 1..(Len(q) \div 2) |-> <<q[2 * k - 1], q[2 * k]>>])

\* numbers are given times 1000
Near(x, n, d) == d = 0 \/ Abs(n) > 900000 \/ Abs(x * d - 1000 * n) =< d + 1
\* times the step u pi/2
NearT(x, n, d, u) == d = 0 \/ Abs(n * u) > 100000 \/ Abs(x * d * 10 - 15708 * n * u) =< 20 * d + Abs(n * u) \div 5
Num1(c, x, n, u) == IF c.int THEN NearT(x, n, c.z.d, u) ELSE Near(x, n, c.z.d)
CellOk(c, x, u) ==
  LET n == c.z.n IN
  CASE c.val = "real" -> Len(x) = 1 /\ Num1(c, x[1], n[1], u)
    [] c.val = "imag" -> Len(x) = 1 /\ Num1(c, x[1], n[2], u)
    [] c.val = "complex" -> Len(x) = 2 /\ Num1(c, x[1], n[1], u) /\ Num1(c, x[2], n[2], u)
    [] c.val = "abs" -> Len(x) = 1 /\ (IF n[2] = 0 THEN Num1(c, x[1], Abs(n[1]), Abs(u)) ELSE IF n[1] = 0 THEN Num1(c, x[1], Abs(n[2]), Abs(u))
         ELSE LET q == n[1] * n[1] + n[2] * n[2] IN
              c.int \/ c.z.d # 1 \/ Abs(n[1]) > 20 \/ Abs(n[2]) > 20 \/ ((x[1] - 2) * (x[1] - 2) =< 1000000 * q /\ 1000000 * q =< (x[1] + 2) * (x[1] + 2)))
CellsOk(cs, xs, u) == Len(cs) = Len(xs) /\ \A k \in 1..Len(cs) : CellOk(cs[k], xs[k], u)
Later(x, t, u, tol) == Abs(10 * x - 15708 * t * u) =< 10 * tol + Abs(t * u)
TableOk(t, o) ==
  /\ o.kind = t.kind /\ o.head = t.head /\ Len(o.rows) = Len(t.rows)
  /\ \A k \in 1..Len(t.rows) : LET r == t.rows[k] x == o.rows[k] IN
       IF t.kind = "exp" THEN Len(x) >= 1 /\ Later(x[1][1], r.t, t.u, 2) /\ CellsOk(r.cells, Tail(x), t.u)
       ELSE Len(x) >= 2 /\ x[1][1] = 1000 * r.t /\ Later(x[2][1], r.t, t.u, 60) /\ CellsOk(r.cells, Tail(Tail(x)), t.u)
WfOk(w, o) == o.kind = "wf" /\ o.ns = w.ns /\ (Known(w) => LET v == Pairs(o.v) IN
                Len(v) = Len(w.v) /\ \A i \in 1..Len(v) : Near(v[i][1], w.v[i][1], w.q) /\ Near(v[i][2], w.v[i][2], w.q))
MetaOk(m, o) == o.kind = "meta" /\ o.cls = "Propagation" /\ o.nt = m.nt /\ o.wc = m.wc /\ o.base = m.base /\ Later(o.dt, 1, m.sg, 2)
CfOk(x, o) == o.kind = "cf" /\ LET v == Pairs(o.v) IN
                Len(v) = Len(x.v) /\ \A i \in 1..Len(v) : Near(v[i][1], x.v[i].n[1], x.v[i].d) /\ Near(v[i][2], x.v[i].n[2], x.v[i].d)
CfmOk(x, o) == o.kind = "cfm" /\ o.nt = x.nt /\ o.dim = x.dim /\ Later(o.dt, 1, x.dt, 2)
FileOk(x, o) == CASE x.kind = "cf" -> CfOk(x, o) [] x.kind = "cfm" -> CfmOk(x, o) [] x.kind = "wf" -> WfOk(x.w, o) [] x.kind = "meta" -> MetaOk(x, o) [] x.kind \in {"exp", "rep"} -> TableOk(x, o) [] OTHER -> TRUE
Shows(tabs, os) == Len(tabs) = Len(os) /\ \A k \in 1..Len(tabs) : TableOk(tabs[k], os[k])

Given(f) == f \in given
\* (says what is different)
Must(what, ok, x) == IF ok THEN TRUE ELSE PrintT(<<"DIFFERENT", what, x>>) /\ FALSE

TOpen == Is("Open") /\ off' = FALSE /\ s' = [fs |-> <<>>, las |-> <<>>] /\ given' = {}
TNext ==
  \/ Is("Laser") /\ s' = [s EXCEPT !.las = With(@, E.n, [d |-> E.d, w |-> E.w])] /\ UNCHANGED <<given, off>>
  \/ Is("Wf") /\ s' = [s EXCEPT !.fs = With(@, E.f, [kind |-> "wf", w |-> [v |-> Pairs(E.v), q |-> 1, ns |-> E.ns]])] /\ given' = given \cup {E.f} /\ UNCHANGED off
  \/ /\ Is("Run")
     /\ LET r == TLCEval(Run(s, E.ps, E.cfg)) IN
        IF r.odd THEN off' = TRUE /\ UNCHANGED <<s, given>> ELSE
        /\ UNCHANGED off
        /\ Must("status", E.rc = (IF r.ok THEN 0 ELSE 1), r.ok)
        /\ Must("written", {E.files[k].f : k \in 1..Len(E.files)} = r.wr, r.wr)
        /\ Must("names", {E.names[k] : k \in 1..Len(E.names)} = {f \in DOMAIN r.s.fs : ~Given(f)}, DOMAIN r.s.fs)
        /\ \A k \in 1..Len(E.files) : Must(E.files[k].f, FileOk(r.s.fs[E.files[k].f], E.files[k].c), <<r.s.fs[E.files[k].f], E.files[k].c>>)
        /\ Must("shown", Shows(r.tabs, E.tabs), r.tabs)
        /\ s' = r.s /\ UNCHANGED given
TraceInit == l = 1 /\ s = [fs |-> <<>>, las |-> <<>>] /\ given = {} /\ off = FALSE
TraceNext == TOpen \/ (~off /\ TNext) \/ (off /\ l <= Len(Trace) /\ E.e # "Open" /\ l' = l + 1 /\ UNCHANGED <<s, given, off>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<s, given, off, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
================================================================================
