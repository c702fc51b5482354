--------------------------- MODULE CollectorTrace ---------------------------
EXTENDS Collector, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Rng(s) == {s[i] : i \in DOMAIN s}
New == SubSeq(gone', Len(gone) + 1, Len(gone'))
\* destroyed in this call, each once; and what the collector reports
Obs == /\ Len(E.gone) = Len(New) /\ Rng(E.gone) = Rng(New)
       /\ E.size = Cardinality(DOMAIN cnt')
       /\ Rng(E.known) = DOMAIN cnt'
\* destructors ran for exactly the destroyed objects (plain memory has none)
Dtor == IF "dtor" \in DOMAIN E THEN Rng(E.dtor) = {x \in Rng(New) : x \notin Rng(E.plain)} /\ Len(E.dtor) = Cardinality(Rng(E.dtor)) ELSE TRUE
TOpen == Is("Open") /\ cnt' = <<>> /\ kids' = <<>> /\ gone' = <<>>
TMake == Is("Make") /\ Make(E.id, E.kids) /\ Obs
TNew == /\ Is("New")   \* objects made by one library call
        /\ LET ids == {E.new[i].id : i \in DOMAIN E.new}
               At(y) == E.new[CHOOSE i \in DOMAIN E.new : E.new[i].id = y] IN
           /\ Cardinality(ids) = Len(E.new) /\ ids \cap DOMAIN kids = {}
           /\ cnt' = [y \in DOMAIN cnt \cup ids |-> IF y \in ids THEN 1 ELSE cnt[y]]
           /\ kids' = [y \in DOMAIN kids \cup ids |-> IF y \in ids THEN At(y).kids ELSE kids[y]]
           /\ UNCHANGED gone
        /\ Obs
TReg == Is("Register") /\ (IF E.id = 0 THEN UNCHANGED cvars ELSE Register(E.id)) /\ Obs
TAdopt == Is("Adopt") /\ Adopt(E.id, E.kids) /\ Obs
TDelete == Is("Delete") /\ Delete(E.id) /\ Obs /\ Dtor
TDeleteAll == /\ Is("DeleteAll") /\ cnt' = <<>> /\ UNCHANGED kids
              /\ Len(E.gone) = Cardinality(DOMAIN cnt) /\ Rng(E.gone) = DOMAIN cnt
              /\ gone' = gone \o E.gone /\ Obs /\ Dtor
\* work done by operators leaves no wave function behind once they are gone
TUse == Is("Use") /\ E.r = "" /\ UNCHANGED cvars /\ Obs
TBalance == Is("Balance") /\ E.now = E.base /\ UNCHANGED cvars
TraceInit == l = 1 /\ CInit
TraceNext == TOpen \/ TMake \/ TNew \/ TReg \/ TAdopt \/ TDelete \/ TDeleteAll \/ TUse \/ TBalance
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
