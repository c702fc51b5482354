---------------------------- MODULE PropagatorTrace ----------------------------
EXTENDS Propagator, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Pairs(q) == [k \in 1..(Len(q) \div 2) |-> <<q[2*k - 1], q[2*k]>>]
More(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
\* Every wave function after every call: the squared norm always, the contents when exact.
Seen == /\ {E.w[k].i : k \in 1..Len(E.w)} = DOMAIN wf'
        /\ \A k \in 1..Len(E.w) : LET w == wf'[E.w[k].i] IN
             E.w[k].n = Norm2(w) /\ (Clean(w) => Pairs(E.w[k].x) = w.x)
Ok == E.r = "" /\ Seen
Same == UNCHANGED vars

TOpen == Is("Open") /\ pt' = <<>> /\ wf' = <<>> /\ up' = <<>> /\ now' = 0 /\ sc' = E.s
TNext ==
  \/ Is("Part") /\ pt' = More(pt, (E.i :> [k |-> E.k, m |-> E.m, p |-> E.p, lz |-> E.lz])) /\ UNCHANGED <<wf, up, sc, now>>
  \/ Is("Wf") /\ wf' = More(wf, (E.i :> [x |-> Pairs(E.v), pend |-> None])) /\ UNCHANGED <<pt, up, sc, now>>
  \* a propagator of the given order of parts; unusable before Init
  \/ Is("Prop") /\ up' = More(up, (E.i :> [ps |-> E.ps, dir |-> 1, ready |-> FALSE])) /\ UNCHANGED <<pt, wf, sc, now>> /\ Ok
  \/ Is("Init") /\ up' = [up EXCEPT ![E.u].ready = TRUE] /\ UNCHANGED <<pt, wf, sc, now>> /\ Ok
  \/ Is("Copy") /\ up' = More(up, (E.i :> [up[E.u] EXCEPT !.ready = FALSE])) /\ UNCHANGED <<pt, wf, sc, now>> /\ Ok
  \/ Is("Dir") /\ Turned(E.u, E.d) /\ Ok
  \/ Is("Time") /\ now' = E.t /\ UNCHANGED <<pt, wf, up, sc>> /\ Ok
  \/ Is("Apply") /\ Apply(E.u, E.i) /\ Ok
  \/ Is("ApplyTo") /\ ApplyTo(E.u, E.d, E.i) /\ Ok
  \/ Is("Valid") /\ Same /\ E.v = up[E.u].ready /\ Ok
TraceInit == l = 1 /\ pt = <<>> /\ wf = <<>> /\ up = <<>> /\ sc = 1 /\ now = 0
TraceNext == TOpen \/ TNext
TraceSpec == TraceInit /\ [][TraceNext]_<<pt, wf, up, sc, now, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
================================================================================
