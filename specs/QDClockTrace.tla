----------------------------- MODULE QDClockTrace -----------------------------
EXTENDS QDClock, Sequences, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
\* every clock's figures are logged after every call
Seen == /\ {E.c[k].i : k \in 1..Len(E.c)} = DOMAIN clk'
        /\ \A k \in 1..Len(E.c) :
             LET c == E.c[k] m == clk'[c.i]
             IN c.dt = m.dt /\ c.n = m.n /\ c.s = m.s /\ c.t = Time(m) /\ c.exact
Ok == E.r = "" /\ Seen
TOpen == Is("Open") /\ clk' = <<>>
TNext ==
  \/ Is("New") /\ New(E.i, E.n, E.d) /\ Ok
  \/ Is("New0") /\ New(E.i, 0, 0) /\ Ok
  \/ Is("Global") /\ Global /\ Ok /\ E.same
  \/ Is("Destroy") /\ Destroy /\ Ok
  \/ Is("Dt") /\ SetDt(E.i, E.d) /\ Ok
  \/ Is("Steps") /\ SetN(E.i, E.n) /\ Ok
  \/ Is("Step") /\ SetStep(E.i, E.n) /\ Ok
  \/ Is("Begin") /\ Begin(E.i) /\ Ok
  \/ Is("End") /\ End(E.i) /\ Ok
  \/ Is("Inc") /\ Inc(E.i) /\ Ok /\ E.same
  \/ Is("Dec") /\ Dec(E.i) /\ Ok /\ E.same
  \/ Is("Assign") /\ Assign(E.i, E.j) /\ Ok /\ E.same
  \/ Is("Copy") /\ clk' = With(E.i, clk[E.j]) /\ Ok
  \/ Is("Sync") /\ Sync(E.i, E.j) /\ Ok
  \/ Is("Sync") /\ NoSync(E.i, E.j) /\ E.r = "EParamProblem" /\ Seen
TraceInit == l = 1 /\ CInit
TraceNext == TOpen \/ TNext
TraceSpec == TraceInit /\ [][TraceNext]_<<clk, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
