----------------------------- MODULE MemoryTrace -----------------------------
EXTENDS Memory, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
\* Reported figures and the state of all live blocks after every call.
Figures == /\ E.used = used' /\ E.max = max' /\ E.high = high'
           /\ E.avail = IF max' > used' THEN max' - used' ELSE 0
           /\ E.intact /\ E.aligned /\ E.disjoint
TOpen == /\ Is("Open") /\ blk' = E.blk /\ rec' = E.rec /\ max' = E.max /\ used' = 0 /\ high' = 0
         /\ live' = <<>> /\ cached' = <<>> /\ Figures
TAlloc == Is("Alloc") /\ E.r = "" /\ Alloc(E.id, E.n) /\ Figures
TRefuse == Is("Alloc") /\ E.r = "EMemory" /\ Refuse(E.n) /\ Figures
TFree == Is("Free") /\ E.r = "" /\ Free(E.id) /\ Figures
TCleanup == Is("Cleanup") /\ E.r = "" /\ Cleanup /\ Figures
TReconf == Is("Reconfigure") /\ E.r = "" /\ Reconfigure(E.m) /\ Figures
TCopy == Is("Copy") /\ E.same /\ UNCHANGED mvars
TRead == /\ Is("ReadSize") /\ UNCHANGED mvars
         /\ IF WellFormed(E.s) THEN E.r = "" /\ E.v = SizeOf(E.s) ELSE E.r = "EParamProblem"
TFormat == Is("Format") /\ FormatOK(E.v, E.unit, E.tenths) /\ UNCHANGED mvars
TraceInit == l = 1 /\ MInit(1, FALSE, 0)
TraceNext == TOpen \/ TAlloc \/ TRefuse \/ TFree \/ TCleanup \/ TReconf \/ TCopy \/ TRead \/ TFormat
TraceSpec == TraceInit /\ [][TraceNext]_<<mvars, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
