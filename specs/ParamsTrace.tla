------------------------------ MODULE ParamsTrace ------------------------------
EXTENDS Params, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
\* the complete content of the container named in the event, seen after the call: list of [n, v, t]
Listed(q) == [n \in {q[k].n : k \in 1..Len(q)} |->
                LET k == CHOOSE j \in 1..Len(q) : q[j].n = n IN [v |-> q[k].v, t |-> q[k].t]]
Shows(c, q) == Len(q) = Cardinality(DOMAIN pc'[c]) /\ Listed(q) = Plain(pc'[c])
Seen == Shows(E.c, E.all) /\ E.size = Cardinality(DOMAIN pc'[E.c])
Same == UNCHANGED pc
\* "" \o i: decimal text of an integer
Dec(i) == ToString(i)
Mapped(q) == [n \in {q[k].n : k \in 1..Len(q)} |-> q[CHOOSE j \in 1..Len(q) : q[j].n = n].v]
Bools(q) == Join([k \in 1..Len(q) |-> IF q[k] THEN "true" ELSE "false"], ",")
Ints(q) == Join([k \in 1..Len(q) |-> Dec(q[k])], ",")

TOpen == Is("Open") /\ pc' = <<>>
TChange ==
  \/ Is("New") /\ New(E.c) /\ Seen
  \/ Is("Map") /\ FromMap(E.c, Mapped(E.m)) /\ Seen
  \/ Is("SetStr") /\ Put(E.c, E.n, Ent(E.v, E.t, <<>>)) /\ Seen
  \/ Is("SetInt") /\ Put(E.c, E.n, Ent(Dec(E.v), E.t, <<>>)) /\ Seen
  \/ Is("SetBool") /\ Put(E.c, E.n, Ent(IF E.v THEN "true" ELSE "false", "bool", <<>>)) /\ Seen
  \* the text of a floating point number is the container's choice, but it reads back as that number
  \/ Is("SetDbl") /\ Put(E.c, E.n, Ent(E.text, "double", <<E.v>>)) /\ E.back = E.v /\ Seen
  \/ Is("SetInts") /\ Put(E.c, E.n, Ent(Ints(E.v), E.t, <<>>)) /\ Seen
  \/ Is("SetBools") /\ Put(E.c, E.n, Ent(Bools(E.v), "bool", <<>>)) /\ Seen
  \/ Is("SetDbls") /\ Put(E.c, E.n, Ent(E.text, "double", E.v)) /\ E.back = E.v /\ Seen
  \/ Is("Add") /\ Merge(E.c, E.d) /\ Seen /\ E.self
  \/ Is("Assign") /\ Assign(E.c, E.d) /\ Seen /\ E.self
  \/ Is("Copy") /\ Assign(E.c, E.d) /\ Seen
  \/ Is("Clear") /\ Clear(E.c) /\ Seen
  \/ Is("ReadBack") /\ TextOf(E.d, E.lines, E.typed) /\ ReadBack(E.c, E.d, E.typed) /\ Seen /\ E.r = ""
  \/ Is("Parse") /\ Parse(E.c, IF E.mark = "" THEN E.lines ELSE UpTo(E.lines, E.mark, 1)) /\ E.r = "" /\ Seen
  \/ Is("Parse") /\ ~Parsed(IF E.mark = "" THEN E.lines ELSE UpTo(E.lines, E.mark, 1)).ok /\ E.r = "EParamProblem" /\ New(E.c)
\* Reading changes nothing.
V == pc[E.c][E.n].v
TRead ==
  /\ Same
  /\ \/ Is("GetStr") /\ E.has = Has(E.c, E.n) /\ E.v = (IF E.has THEN V ELSE "")
     \/ Is("GetInt") /\ E.has = Has(E.c, E.n) /\ (IF E.has THEN (IsInt(V) => E.v = IntVal(V)) ELSE E.v = 0)
     \/ Is("GetDbl") /\ E.has = Has(E.c, E.n)
        /\ (IF E.has THEN /\ (Len(pc[E.c][E.n].num) = 1 => E.v = pc[E.c][E.n].num[1])
                          /\ (IsInt(V) => E.i = IntVal(V))
                     ELSE E.i = 0)
     \/ Is("GetBool") /\ E.has = Has(E.c, E.n)
        /\ E.v = (IF ~E.has THEN E.def ELSE IF V = "true" THEN TRUE ELSE IF V = "false" THEN FALSE ELSE E.def)
     \/ Is("GetStrs") /\ E.has = Has(E.c, E.n) /\ E.v = (IF E.has THEN Split(V, ",") ELSE <<>>)
     \/ Is("GetInts") /\ E.has = Has(E.c, E.n)
        /\ (IF E.has THEN LET q == Split(V, ",") IN
              (\A k \in 1..Len(q) : IsInt(q[k])) => E.v = [k \in 1..Len(q) |-> IntVal(q[k])]
            ELSE E.v = <<>>)
     \/ Is("GetBools") /\ E.has = Has(E.c, E.n)
        /\ E.v = (IF E.has THEN LET q == Split(V, ",") IN [k \in 1..Len(q) |-> q[k] = "true"] ELSE <<>>)
     \/ Is("GetDbls") /\ E.has = Has(E.c, E.n)
        /\ (IF E.has THEN pc[E.c][E.n].num # <<>> => E.v = pc[E.c][E.n].num ELSE E.v = <<>>)
     \/ Is("Present") /\ E.v = Has(E.c, E.n)
     \/ Is("Type") /\ E.v = Type(E.c, E.n) /\ (Has(E.c, E.n) => E.is = <<pc[E.c][E.n].t>>)
     \/ Is("List") /\ Shows(E.c, E.all)
TraceInit == l = 1 /\ PInit
TraceNext == TOpen \/ TChange \/ TRead
TraceSpec == TraceInit /\ [][TraceNext]_<<pc, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
