---------------------------- MODULE WaveSpaceTrace ----------------------------
EXTENDS WaveSpace, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Pairs(q) == [k \in 1..(Len(q) \div 2) |-> <<q[2*k - 1], q[2*k]>>]
\* Everything there is, read after every call: leafs one by one, multistate ones through their own vector interface.
SeenLeaf(o) == LET m == leaf'[o.i] IN
  /\ o.n = m.n /\ o.ks = m.ks
  /\ m.gone \/ m.x = Unset \/ Pairs(o.x) = m.x
SeenMulti(o) == LET st == multi'[o.i] n == leaf'[st[1]].n IN
  /\ o.st = st
  /\ o.n = n * Len(st) /\ o.strides = Len(st) /\ o.ln = n /\ o.bytes = Len(st) * n * 16
  /\ o.ks = leaf'[st[1]].ks
  /\ \/ \E k \in 1..Len(st) : leaf'[st[k]].gone
     \/ \A k \in 1..Len(st) : leaf'[st[k]].x = Unset \/ Pairs(SubSeq(o.x, (k-1)*2*n + 1, k*2*n)) = leaf'[st[k]].x
Seen == /\ {E.w[k].i : k \in 1..Len(E.w)} = DOMAIN leaf' /\ {E.m[k].i : k \in 1..Len(E.m)} = DOMAIN multi'
        /\ \A k \in 1..Len(E.w) : SeenLeaf(E.w[k])
        /\ \A k \in 1..Len(E.m) : SeenMulti(E.m[k])
Same == UNCHANGED vars
Ok == E.r = "" /\ Seen
Arg(j) == IF j = 0 THEN [k \in 1..Size(E.i) |-> <<0, 0>>] ELSE X(j)
Arr(q) == IF q = <<>> THEN [k \in 1..Size(E.i) |-> <<0, 0>>] ELSE [k \in 1..Len(q) |-> <<q[k], 0>>]

TOpen == Is("Open") /\ leaf' = <<>> /\ multi' = <<>>
TNext ==
  \/ Is("New") /\ New(E.i, E.n, E.v, E.g) /\ Ok
  \/ Is("Fill") /\ Put(E.i, Pairs(E.v)) /\ Ok
  \/ Is("Elem") /\ E1(E.i, E.k, E.v) /\ Ok
  \/ Is("Build") /\ Build(E.i, E.st, E.fr) /\ Ok
  \/ Is("Like") /\ Like(E.i, E.j, E.sub) /\ Ok
  \/ Is("Kern") /\ (IF E.b = 0 THEN TRUE ELSE SameShape(E.i, E.b)) /\ Apply(E.op, E.i, Arg(E.b), Arg(E.c), Arr(E.a), E.d) /\ Ok
  \/ Is("Made") /\ SameShape(E.j, E.k) /\ E.r = ""
     /\ LikeWith(E.i, E.j, E.sub, [q \in 1..Size(E.j) |-> Kernel(E.op, <<0, 0>>, X(E.j)[q], X(E.k)[q], <<0, 0>>, <<1, 0>>)]) /\ Seen
  \/ Is("Assign") /\ AssignOk(E.i, E.j) /\ Assign(E.i, E.j) /\ Ok
  \/ Is("StrideCopy") /\ Put(multi[E.i][E.k], X(E.j)) /\ Ok
  \/ Is("Switch") /\ Switch(E.i, E.ks) /\ Ok
  \/ Is("Retire") /\ Retire(E.i) /\ Ok
  \/ Is("Reacquire") /\ Reacquire(E.i) /\ Ok
  \/ Is("Delete") /\ Delete(E.i) /\ Ok
  \/ Same /\ \/ Is("Kern") /\ E.b # 0 /\ ~SameShape(E.i, E.b) /\ E.r = "EParamProblem" /\ Seen
             \/ Is("Made") /\ ~SameShape(E.j, E.k) /\ E.r = "EParamProblem" /\ Seen
             \/ Is("Assign") /\ ~AssignOk(E.i, E.j) /\ E.r = "EIncompatible" /\ Seen
             \/ Is("Dot") /\ ~SameShape(E.i, E.j) /\ E.r = "EIncompatible" /\ Seen
             \/ Is("Dot") /\ SameShape(E.i, E.j) /\ E.v = Dot(E.i, E.j) /\ Ok
             \/ Is("Norm") /\ E.v = Norm2(E.i) /\ Ok
             \/ Is("Integral") /\ E.v = (LET s == Sum(X(E.i)) w == leaf[E.i].w IN <<s[1]*w, s[2]*w>>) /\ Ok
             \/ Is("Normalize") /\ E.v = Norm2(E.i) /\ Ok
TraceInit == l = 1 /\ WInit
TraceNext == TOpen \/ TNext
TraceSpec == TraceInit /\ [][TraceNext]_<<leaf, multi, l>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
================================================================================
