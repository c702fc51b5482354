---------------------------- MODULE WFBufferTrace ----------------------------
(* Recorded histories of the real buffer against WFBuffer. *)
EXTENDS WFBuffer, Json, IOUtils, TLC, Integers
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dead, saved, lastadd
tvars == <<bvars, l, dead, saved, lastadd>>
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1

\* Facts logged after every call: objects alive, files, handed out objects with content.
PtrPos == {E.ptr[k].p : k \in 1..Len(E.ptr)}
Seen ==
  /\ IF E.live >= 0 THEN cnt' = E.live ELSE cnt' = Cardinality(PtrPos)   \* objects not tracked in this session
  /\ held' = PtrPos
Observed ==
  /\ E.files <= files'
  /\ \A k \in 1..Len(E.ptr) : val'[E.ptr[k].p] # Unset => E.ptr[k].v = val'[E.ptr[k].p]
Ok == E.r = "" /\ ~dead /\ dead' = FALSE
KeepX == UNCHANGED <<saved, lastadd>>

TOpen == /\ Is("Open") /\ wb' = E.wb /\ max' = E.max /\ size' = 0 /\ val' = <<>> /\ win' = <<>>
         /\ expl' = {} /\ lim' = 2 /\ held' = {} /\ cnt' = 0 /\ files' = 0 /\ blind' = (E.tracked = 0)
         /\ dead' = FALSE /\ saved' = <<>> /\ lastadd' = 0
TInit == Is("Init") /\ Ok /\ Seen /\ Init(E.wb) /\ Observed /\ KeepX
TInitBad == Is("Init") /\ E.r = "EParamProblem" /\ E.wb > max /\ UNCHANGED bvars /\ dead' = dead /\ KeepX
TSet == Is("Set") /\ Ok /\ Seen /\ Set(E.i, E.v) /\ Observed /\ KeepX
TAdd == Is("Add") /\ Ok /\ Seen /\ Set(size, E.v) /\ Observed /\ KeepX
TGet == Is("Get") /\ Ok /\ Seen /\ Get(E.i, E.v) /\ Observed /\ KeepX
TGetOut == Is("Get") /\ E.r = "EIncompatible" /\ ~dead /\ OutOfRange(E.i) /\ dead' = FALSE /\ KeepX
TWrite == Is("Write") /\ Ok /\ Write(E.i, E.v) /\ KeepX
TLock == Is("Lock") /\ Ok /\ Seen /\ Lock(E.i) /\ Observed /\ KeepX
TUnLock == Is("UnLock") /\ Ok /\ Seen /\ UnLock(E.i) /\ Observed /\ KeepX
TAuto == Is("AutoLock") /\ Ok /\ AutoLock(E.n) /\ E.got = E.n /\ KeepX
TResize == Is("Resize") /\ Ok /\ Seen /\ Resize(E.n) /\ Observed /\ E.files <= E.n /\ KeepX
TSize == Is("Size") /\ Ok /\ E.n = size /\ UNCHANGED bvars /\ KeepX
TClear == Is("Clear") /\ Ok /\ Seen /\ Clear /\ Observed /\ KeepX
TSave == Is("Save") /\ Ok /\ Seen /\ Save /\ Observed /\ saved' = [p \in 1..size |-> val[p - 1]] /\ UNCHANGED lastadd
TLoad == Is("Load") /\ Ok /\ Seen /\ Load(saved, E.b, E.k, E.n) /\ Observed /\ KeepX
TDrop == \* the buffer is destroyed
         /\ Is("Destroy") /\ E.files = 0 /\ (E.live >= 0 => E.live = 0) /\ UNCHANGED bvars /\ dead' = TRUE /\ KeepX
\* Refusals end the use of the buffer (its window has moved on).
Oom == E.r = "EMemError" /\ ~dead /\ dead' = TRUE /\ KeepX
TSetNo == (Is("Set") \/ Is("Add") \/ Is("Lock")) /\ Oom /\ Refuse(win, expl \cup (IF E.e = "Lock" THEN {E.i} ELSE {}))
TGetNo == Is("Get") /\ Oom /\ E.i < size /\ Refuse(Access(win, E.i, lim), expl)
\* Saving accesses everything in turn.
RECURSIVE SomeNoChoice(_, _)
SomeNoChoice(w, i) == i < size /\ (NoChoice(Access(w, i, lim), expl) \/ SomeNoChoice(Access(w, i, lim), i + 1))
TSaveNo == Is("Save") /\ Oom /\ SomeNoChoice(win, 0) /\ UNCHANGED bvars

TraceInit == l = 1 /\ BInit(1, 1) /\ dead = TRUE /\ saved = <<>> /\ lastadd = 0
TraceNext == TOpen \/ TInit \/ TInitBad \/ TSet \/ TAdd \/ TGet \/ TGetOut \/ TWrite \/ TLock \/ TUnLock \/ TAuto
   \/ TResize \/ TSize \/ TClear \/ TSave \/ TLoad \/ TDrop \/ TSetNo \/ TGetNo \/ TSaveNo
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
