----------------------------- MODULE TmpFileTrace -----------------------------
EXTENDS TmpFile, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Rng(s) == {s[k] : k \in DOMAIN s}
Ok == E.r = ""
\* what the arrays say, and what is in the directories: [file, directory, bytes]
Obs == /\ \A k \in 1..Len(E.objs) : LET x == E.objs[k] IN x.id \in DOMAIN obj' /\ x.open = obj'[x.id].open /\ x.size = Len(obj'[x.id].data)
       /\ Len(E.objs) = Cardinality(DOMAIN obj')
       /\ Len(E.ls) = Cardinality(DOMAIN files')
       /\ \A k \in 1..Len(E.ls) : LET x == E.ls[k] IN x[1] \in DOMAIN files' /\ files'[x[1]].dir = x[2] /\ files'[x[1]].n * files'[x[1]].sz = x[3]
       /\ E.others
NewFile == LET s == {E.ls[k][1] : k \in 1..Len(E.ls)} \ DOMAIN files IN IF s = {} THEN 0 ELSE CHOOSE t \in s : TRUE
OpenNow(i) == \E k \in 1..Len(E.objs) : E.objs[k].id = i /\ E.objs[k].open
\* a failing operation ends the array, or leaves it open with contents unknown from there on
Fails(i) == IF OpenNow(i) THEN obj[i].open /\ obj' = [obj EXCEPT ![i].pos = Unknown, ![i].data = Blank(Len(@))] /\ UNCHANGED <<files, conf>> ELSE Ends(i)
May(i, c, A) == IF ~Ok /\ (E.lim \/ ~c) THEN Fails(i) ELSE Ok /\ c /\ A
TOpen == Is("Open") /\ obj' = <<>> /\ files' = <<>> /\ conf' = [gp |-> "-", env |-> "-"]
TNext ==
  \/ Is("New") /\ New(E.id)
  \/ Is("Conf") /\ Configure(E.gp, E.env)
  \/ Is("OpenF") /\ (IF Ok THEN Opens(E.id, E.n, E.map) /\ Open(E.id, E.n, E.map, NewFile) /\ E.ptr = E.map
                     ELSE (E.lim \/ ~Opens(E.id, E.n, E.map)) /\ Ends(E.id))
  \/ Is("Resize") /\ (IF ~Ok /\ E.lim THEN Fails(E.id) ELSE Ok /\ E.ptr = obj[E.id].map /\ Resize(E.id, E.n))
  \/ Is("Close") /\ Ok /\ Close(E.id, E.rm)
  \/ Is("Flush") /\ Ok /\ Same
  \/ Is("Destroy") /\ Destroy(E.id)
  \/ Is("Seek") /\ May(E.id, obj[E.id].open, Seek(E.id, E.n))
  \/ Is("Read") /\ May(E.id, Reads(E.id, E.n), Read(E.id, E.v))
  \/ Is("Write") /\ May(E.id, obj[E.id].open, Write(E.id, E.v))
  \/ Is("Poke") /\ Poke(E.id, E.k, E.x)
  \/ Is("Peek") /\ Peek(E.id, E.v)
TraceInit == l = 1 /\ TInit
TraceNext == TOpen \/ (TNext /\ Obs)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
================================================================================
