------------------------------- MODULE EigenTrace -------------------------------
EXTENDS Eigen, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, off
E == Trace[l]
Ev(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Two(q) == TLCEval([k \in 1..(Len(q) \div 2) |-> <<q[2 * k - 1], q[2 * k]>>])
Must(what, ok, x) == IF ok THEN TRUE ELSE PrintT(<<"DIFFERENT", what, x>>) /\ FALSE
\* components are given times 1000
Small(v) == \A i \in 1..Len(v) : Abs(v[i][1]) < 1100 /\ Abs(v[i][2]) < 1100
Normed(v) == Small(v) /\ Abs(Dot(v, v)[1] - 1000000) < 5000
\* v is the state u: |<v|u>|^2 = |u|^2
Along(v, u) == LET d == Dot(v, u) IN ((d[1] \div 10) * (d[1] \div 10) + (d[2] \div 10) * (d[2] \div 10)) >= 9900 * Dot(u, u)[1]
Apart(v, w) == LET d == Dot(v, w) IN Abs(d[1]) < 15000 /\ Abs(d[2]) < 15000
WfOk(x, o) == o.kind = "wf" /\ o.ns = 1 /\ LET v == Two(o.v) IN Normed(v) /\ (x.kind = "ef" => Len(v) = Len(x.v) /\ Along(v, x.v))
Tol(p) == IF p.m = "ac" THEN 3 ELSE 30
\* number, energy, the same in wave numbers, above the first, above the one before
Above(o, k) == Abs(o[k][2][1] - o[k][3][1]) =< 2 /\ Abs(o[k][2][1] - o[1][2][1] - o[k][4][1]) =< 3
               /\ (IF k = 1 THEN Len(o[k]) = 4 ELSE Len(o[k]) = 5 /\ Abs(o[k][2][1] - o[k - 1][2][1] - o[k][5][1]) =< 3)
ListOk(p, x, o) == /\ o.kind = "en" /\ Len(o.rows) = Len(x.en)
                   /\ \A k \in 1..Len(x.en) : /\ Len(o.rows[k]) >= 4 /\ o.rows[k][1][1] = 1000 * (k - 1)
                                              /\ Abs(o.rows[k][2][1] - x.en[k]) =< Tol(p)
                                              /\ Above(o.rows, k)
                   \* what was diagonalised comes in order
                   /\ (p.diag /\ p.m = "imag") => \A k \in 2..Len(x.en) : o.rows[k][2][1] >= o.rows[k - 1][2][1] - 1
FileOk(p, x, o) == CASE x.kind \in {"ef", "loose"} -> WfOk(x, o) [] x.kind = "list" -> ListOk(p, x, o) [] OTHER -> TRUE
Known(t, f) == f \in DOMAIN t.fs /\ t.fs[f].kind \notin {"block", "series", "wf"}
TOpen == Ev("Open") /\ off' = FALSE /\ s' = [fs |-> <<>>]
Wfs == {k \in 1..Len(E.files) : E.files[k].c.kind = "wf"}
Seen == [f \in {E.files[k].f : k \in Wfs} |-> Two(E.files[CHOOSE k \in Wfs : E.files[k].f = f].c.v)]
TNext ==
  \/ Ev("Wf") /\ s' = [s EXCEPT !.fs = With(@, E.f, [kind |-> "wf", v |-> Two(E.v)])] /\ UNCHANGED off
  \/ Ev("Block") /\ s' = [s EXCEPT !.fs = With(@, E.f, [kind |-> "block"])] /\ UNCHANGED off
  \/ Ev("Remove") /\ s' = [s EXCEPT !.fs = [f \in DOMAIN @ \ {E.f} |-> @[f]]] /\ UNCHANGED off
  \/ /\ Ev("Run")
     /\ LET seen == TLCEval(Seen) r == TLCEval(Run(s, E.p, seen)) IN
        IF r.odd THEN off' = TRUE /\ UNCHANGED s ELSE
        /\ UNCHANGED off
        /\ Must("status", IF r.free THEN E.rc < 2 ELSE E.rc = (IF r.ok THEN 0 ELSE 1), r.ok)
        /\ Must("written", {E.files[k].f : k \in 1..Len(E.files)} = {f \in r.wr : r.s.fs[f].kind # "series"}, r.wr)
        /\ Must("names", {E.names[k] : k \in 1..Len(E.names)} = {f \in DOMAIN r.s.fs : Known(r.s, f)}, DOMAIN r.s.fs)
        /\ \A k \in 1..Len(E.files) : Must(E.files[k].f, FileOk(E.p, r.s.fs[E.files[k].f], E.files[k].c), <<r.s.fs[E.files[k].f], E.files[k].c>>)
        \* the set is orthonormal
        /\ (r.ok /\ E.p.m = "imag") => \A j \in 0..(E.p.nef - 1), k \in 0..(E.p.nef - 1) : LET a == r.s.fs[File(E.p, j)] b == r.s.fs[File(E.p, k)] IN
             (j < k /\ a.kind = "loose" /\ b.kind = "loose") => Must("orthogonal", Small(a.v) /\ Small(b.v) /\ Apart(a.v, b.v), <<a, b>>)
        /\ s' = r.s
TraceInit == l = 1 /\ s = [fs |-> <<>>] /\ off = FALSE
TraceNext == TOpen \/ (~off /\ TNext) \/ (off /\ l <= Len(Trace) /\ E.e # "Open" /\ l' = l + 1 /\ UNCHANGED <<s, off>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<s, off, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=================================================================================
