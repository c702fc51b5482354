----------------------------- MODULE SimpleTrace -----------------------------
EXTENDS Simple, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, said   \* said: what was answered to each text
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Good(r, out, d) == IF ~d.ok THEN r = "EParamProblem" ELSE d.un \/ (r = "" /\ out = d.out)
TParse ==
  /\ Is("Parse")
  /\ Good(E.r, E.out, TLCEval(Denotes(E.text)))
  \* the answer does not depend on what was translated before, down to the message
  /\ \A s \in said : s.text = E.text => s.r = E.r /\ s.m = E.m
  /\ said' = said \cup {[text |-> E.text, r |-> E.r, m |-> E.m]}
TConvert ==
  /\ Is("Convert") /\ UNCHANGED said
  /\ LET d == TLCEval(Denotes(E.text)) IN
     IF d.un THEN TRUE
     ELSE IF ~d.ok THEN E.r = "EParamProblem" /\ E.kept
     ELSE IF E.writable THEN E.r = "" /\ E.out = d.out ELSE E.r = "EIOError" /\ E.kept
TNext ==
  \/ TParse
  \/ TConvert
  \/ Is("Absent") /\ UNCHANGED said /\ E.r = "EIOError" /\ E.c = "EIOError" /\ E.k = "EIOError" /\ ~E.made
  \/ Is("Type") /\ UNCHANGED said /\ E.r = TypeOf(E.empty, E.first, E.open, E.close)
TOpen == Is("Open") /\ said' = {}
TraceInit == l = 1 /\ said = {}
TraceNext == TOpen \/ TNext
TraceSpec == TraceInit /\ [][TraceNext]_<<l, said>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
