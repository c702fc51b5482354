--------------------------- MODULE FileWFTrace ---------------------------
EXTENDS FileWF, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l, gf
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Keep == UNCHANGED gf
Errors == {"EIOError", "EParamProblem", "EIncompatible", "EMemError", "EMemory", "EOverflow", "Exception"}
Cnt == E.counter = fo'[E.f].cnt
Done == Cnt /\ E.nm = fo'[E.f].name
TOpen == Is("Open") /\ wf' = <<>> /\ fo' = <<>> /\ disk' = <<>> /\ gf' = ""
Got == Strip(E.w)
SetTo(o) == Set(E.f, o) /\ Cnt
F == fo[E.f]
TNext ==
  \/ Is("New") /\ New(E.i, Got) /\ Linked(E.w)
  \/ Is("Multi") /\ Len(E.l) = Len(E.w.s) /\ Got = [c |-> "WFMultistate", tag |-> "", dim |-> <<>>, x |-> <<>>, d |-> <<>>, ex |-> TRUE,
                                                    s |-> [k \in 1..Len(E.l) |-> wf[E.l[k]]]]
     /\ Linked(E.w) /\ Build(E.i, Got, {E.l[k] : k \in 1..Len(E.l)})
  \/ Is("Empty") /\ New(E.i, [c |-> E.c, tag |-> "", dim |-> <<>>, x |-> <<>>, d |-> <<>>, ex |-> TRUE, s |-> <<>>])
  \/ Is("Touch") /\ New(E.i, Got)
  \/ Is("File") /\ E.r = "" /\ Open(E.f, E.name, gf, "none") /\ Cnt
  \/ Is("Name") /\ SetTo([F EXCEPT !.name = E.name, !.base = E.base])
  \/ Is("Out") /\ SetTo([F EXCEPT !.fmt = E.fmt])
  \/ Is("Comp") /\ SetTo([F EXCEPT !.comp = E.m, !.tol = IF E.tol < 0 THEN @ ELSE E.tol])
  \/ Is("Seq") /\ SetTo([F EXCEPT !.seq = TRUE, !.inc = E.n])
  \/ Is("Seq0") /\ SetTo([F EXCEPT !.seq = TRUE])
  \/ Is("Stop") /\ SetTo([F EXCEPT !.seq = FALSE])
  \/ Is("Count") /\ SetTo([F EXCEPT !.cnt = E.n])
  \/ Is("Reset") /\ SetTo([F EXCEPT !.cnt = 0])
  \/ Is("Rev") /\ SetTo([F EXCEPT !.inc = -1])
  \/ Is("Fwd") /\ SetTo([F EXCEPT !.inc = 1])
  \* writing leaves the wave function alone
  \/ Is("Write") /\ E.r = "" /\ E.same /\ Write(E.f, E.i) /\ Done
  \* a write that cannot be completed is reported (the driver removes what there is of it)
  \/ Is("Full") /\ E.r \in Errors /\ E.same /\ UNCHANGED <<wf, fo>> /\ Done
     /\ disk' = [p \in {q \in DOMAIN disk : \A k \in 1..Len(E.gone) : E.gone[k] # q} |-> disk[p]]
  \/ Is("Read") /\ E.r = "" /\ Linked(E.w) /\ ReadInto(E.f, E.i, Got) /\ Done
  \/ Is("Read") /\ E.r \in Errors /\ RefuseInto(E.f, E.i) /\ Done
  \/ Is("Load") /\ E.r = "" /\ Linked(E.w) /\ Load(E.f, E.i, Got) /\ Done
  \/ Is("Load") /\ E.r \in Errors /\ RefuseLoad(E.f) /\ Done
  \/ Is("Damage") /\ Damage(E.n, E.k)
  \/ Is("Ls") /\ {E.n[k] : k \in 1..Len(E.n)} = DOMAIN disk /\ UNCHANGED <<wf, fo, disk>>
  \/ Is("GOp") /\ ~E.cut /\ E.w = "" /\ E.r = "" /\ E.got = E.want /\ E.grid /\ UNCHANGED <<wf, fo, disk>>
  \/ Is("GOp") /\ E.cut /\ E.w = "" /\ E.r \in Errors /\ UNCHANGED <<wf, fo, disk>>
  \/ Is("End") /\ UNCHANGED <<wf, fo, disk>>
TraceInit == l = 1 /\ gf = "" /\ FInit
TraceNext == TOpen \/ (TNext /\ Keep) \/ (Is("Global") /\ gf' = E.wf_format /\ UNCHANGED <<wf, fo, disk>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<wf, fo, disk, l, gf>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
