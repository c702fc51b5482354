-------------------------------- MODULE LogTrace --------------------------------
EXTENDS Log, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Text(t) == TLCEval([k \in 1..Len(t) |-> IF t[k] = 0 THEN NL ELSE It("c", t[k])])
\* seen: a letter, 0, -n for n spaces, 1000 + n for n stars
Code(i) == CASE i.k = "c" -> i.n [] i.k = "nl" -> 0 [] i.k = "st" -> 1000 + i.n [] OTHER -> -i.n
RECURSIVE Fits(_, _, _, _, _)
Fits(q, i, o, j, all) ==
  IF j > Len(o) THEN ~all \/ \A x \in i..Len(q) : q[x].k = "opt"
  ELSE IF i > Len(q) THEN FALSE
  ELSE IF Code(q[i]) = o[j] THEN Fits(q, i + 1, o, j + 1, all)
  ELSE q[i].k = "opt" /\ Fits(q, i + 1, o, j, all)
Now == E.e \in {"Flush", "CloseFile", "Console", "Restart"}
Obs == \A x \in DOMAIN sinks' : Fits(sinks'[x], 1, E.sinks[x], 1, Now /\ (x = cur' \/ x # file'))
TOpen == Is("Open") /\ sinks' = [x \in Streams \cup LogFiles |-> <<>>] /\ cur' = "con" /\ file' = "" /\ lvl' = Default
TNext ==
  \/ Is("Write") /\ Write(E.dbg, Text(E.t))
  \/ Is("Header") /\ Header(E.k, Text(E.t))
  \/ Is("Flush") /\ Same
  \/ Is("SetIndent") /\ SetIndent(E.n)
  \/ Is("IndentInc") /\ IndentInc
  \/ Is("IndentDec") /\ IndentDec
  \/ Is("Debug") /\ E.is = E.b /\ Debug(E.b)
  \/ Is("Quiet") /\ E.is = E.b /\ Quiet(E.b)
  \/ Is("Width") /\ Width(E.n)
  \/ Is("FileOutput") /\ (IF E.r = "" THEN FileOutput(E.f) ELSE E.r = "EIOError" /\ E.f \notin LogFiles /\ (Stays \/ Drops))
  \/ Is("CloseFile") /\ CloseFile
  \/ Is("Console") /\ (IF file = "" THEN Redirect("con") ELSE CloseFile)
  \/ Is("Redirect") /\ Redirect(E.f)
  \/ Is("Restart") /\ Restart
TraceInit == l = 1 /\ LInit
TraceNext == TOpen \/ (TNext /\ Obs)
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
==================================================================================
