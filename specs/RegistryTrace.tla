---------------------------- MODULE RegistryTrace ----------------------------
EXTENDS Registry, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Rng(s) == {s[i] : i \in DOMAIN s}
\* what the call destroyed, initialised, and what the lists say afterwards
Obs == /\ Rng(E.gone) = DOMAIN cnt \ DOMAIN cnt' /\ Len(E.gone) = Cardinality(Rng(E.gone))
       /\ Len(E.inits) = Len(inits') /\ \A i \in 1..Len(E.inits) : E.inits[i] = <<inits'[i].o, inits'[i].n>>
       /\ Rng(E.keys) = DOMAIN ops' /\ Len(E.keys) = Cardinality(DOMAIN ops')
       /\ Rng(E.okeys) = DOMAIN ops' /\ Len(E.okeys) = Cardinality(DOMAIN ops')
       /\ Rng(E.wkeys) = DOMAIN wfs' /\ Len(E.wkeys) = Cardinality(DOMAIN wfs')
Ok == E.r = ""
N == Len(E.inits)
NewO == CHOOSE k \in (Rng(E.keys) \ DOMAIN ops) \cup {"?"} : k # "?" \/ Rng(E.keys) \subseteq DOMAIN ops
NewW == CHOOSE k \in (Rng(E.wkeys) \ DOMAIN wfs) \cup {"?"} : k # "?" \/ Rng(E.wkeys) \subseteq DOMAIN wfs
TOpen == Is("Open") /\ ops' = <<>> /\ wfs' = <<>> /\ cnt' = <<>> /\ fit' = <<>> /\ inits' = <<>>
TNext ==
  \/ Is("Op") /\ MakeOp(E.id)
  \/ Is("Wf") /\ MakeWf(E.id)
  \/ Is("Hold") /\ Hold(E.id)
  \/ Is("Drop") /\ Drop(E.id)
  \/ Is("AddOp") /\ AddOp(E.k, E.id, E.p, Ok, E.key)
  \/ Is("SetLabel") /\ SetLabel(E.k, E.label, Ok)
  \/ Is("GetLabels") /\ Ok /\ E.n = Len(E.got) /\ ~E.over /\ Labelled(E.label, E.max, E.got)
  \/ Is("CheckLabel") /\ Ok /\ HasLabel(E.id, E.label, E.has)
  \/ Is("LookOp") /\ LookOp(E.k, Ok, E.got)
  \/ Is("InitKey") /\ InitKey(E.k, E.n, Ok, N)
  \/ Is("InitPtr") /\ InitPtr(E.id, E.n, Ok, N, NewO)
  \/ Is("ClearOps") /\ Ok /\ ClearOps(E.all)
  \/ Is("Restore") /\ Ok /\ Restore(Rng(E.to))
  \/ Is("AddWf") /\ AddWf(E.k, E.id, E.p, Ok, NewW)
  \/ Is("SetWf") /\ Ok /\ SetWf(E.k, E.id)
  \/ Is("LookWf") /\ LookWf(E.k, Ok, E.got)
  \* a copy is equal to the original, and another
  \/ Is("CopyWf") /\ LookWf(E.k, Ok, E.got) /\ (Ok => E.other)
  \/ Is("ClearWfs") /\ Ok /\ ClearWfs
TraceInit == l = 1 /\ RInit
TraceNext == TOpen \/ (TNext /\ Obs)
TraceSpec == TraceInit /\ [][TraceNext]_<<rvars, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
================================================================================
