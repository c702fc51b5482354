------------------------------ MODULE GetoptTrace ------------------------------
EXTENDS Getopt, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, decl, p
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Keep == UNCHANGED <<decl, p>>
Flag == [par |-> FALSE, req |-> FALSE, def |-> ""]
None == [opts |-> <<>>, rest |-> <<>>]
TOpen == Is("Open") /\ decl' = "h" :> Flag /\ p' = None
TFlag == Is("Flag") /\ decl' = Give(decl, E.c, Flag) /\ p' = p
TPar == Is("Par") /\ decl' = Give(decl, E.c, [par |-> TRUE, req |-> E.req, def |-> IF E.req THEN "" ELSE E.def]) /\ p' = p
TArgs == Is("Args") /\ p' = Parse(decl, E.args) /\ decl' = decl
TAsk ==
  /\ Keep
  /\ \/ Is("Given") /\ E.v = Given(p, E.c)
     \/ Is("Str") /\ E.v = Value(decl, p, E.c)
     \/ Is("Chr") /\ E.v = (LET v == Value(decl, p, E.c) IN IF v = "" THEN "" ELSE Ch(v, 1))
     \/ Is("Int") /\ (IsInt(Value(decl, p, E.c)) => E.v = IntVal(Value(decl, p, E.c)))
     \/ Is("Dbl") /\ (IsInt(Value(decl, p, E.c)) => E.v = IntVal(Value(decl, p, E.c)))
     \/ Is("Non") /\ E.ok = (E.k < Len(p.rest)) /\ (E.ok => E.v = p.rest[E.k + 1])
     \/ Is("Check") /\ E.v = Accepted(decl, p)
        /\ (~E.v /\ ~Given(p, "h") => E.named \in Missing(decl, p))
TraceInit == l = 1 /\ decl = <<>> /\ p = None
TraceNext == TOpen \/ TFlag \/ TPar \/ TArgs \/ TAsk
TraceSpec == TraceInit /\ [][TraceNext]_<<decl, p, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
