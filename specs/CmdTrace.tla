------------------------------ MODULE CmdTrace ------------------------------
EXTENDS Cmd, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, over
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Errors == {"", "EIOError", "EParamProblem", "EIncompatible", "EMemError", "EMemory", "EOverflow", "Exception"}
Params(a, gp) == /\ Len(a) = 1 /\ a[1].k = "ok" /\ ~a[1].d /\ Len(a[1].m) = Cardinality(DOMAIN gp)
                 /\ \A i \in 1..Len(a[1].m) : a[1].m[i][1] \in DOMAIN gp /\ a[1].m[i][2] = gp[a[1].m[i][1]]
Fit(o, a) == IF Len(o.a) = 1 /\ o.a[1].k = "params" THEN Params(a, o.s.gp) ELSE Matches(o.a, a)
TraceNext ==
  \/ Is("Open") /\ st' = Fresh /\ over' = FALSE
  \/ Is("Cmd") /\ ~over /\ \E o \in Outcomes(st, E.q) : Fit(o, E.a) /\ st' = o.s /\ over' = o.over
  \/ Is("End") /\ E.r \in Errors /\ UNCHANGED <<st, over>>
TraceInit == l = 1 /\ st = Fresh /\ over = FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st, over>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
