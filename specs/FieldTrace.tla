----------------------------- MODULE FieldTrace -----------------------------
EXTENDS Field, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
E == Trace[l]
Is(n) == l <= Len(Trace) /\ E.e = n /\ l' = l + 1
Refused == E.r \in {"EParamProblem", "EIncompatible", "EOverflow", "EIOError"}
Far(x) == IF x < 100000000 /\ x > -100000000 THEN x ELSE 99999999
Flat(v) == [j \in 1..2 * Len(v) |-> Far(v[(j + 1) \div 2][IF j % 2 = 1 THEN 1 ELSE 2])]
Vec(x) == [j \in 1..Len(x) \div 2 |-> <<x[2 * j - 1], x[2 * j]>>]
\* the samples of all lasers that can be named
World == \A i \in 1..Len(E.w) : LET x == E.w[i] IN x[1] \in DOMAIN s'.ls /\ s'.ls[x[1]].d = SubSeq(x, 3, Len(x)) /\ s'.ls[x[1]].dt = x[2]
To(x) == s' = x /\ World
Same == s' = s /\ World
Res(v) == E.v = Flat(v)
Applied ==
  LET v == Vec(E.x) u == Use(s, E.o) r == Out(u, E.o, v) IN
  IF s.op[E.o].ck < 0 THEN To(OClock(s, E.o, 0)) \/ Same
  ELSE IF ~Usable(s, E.o) THEN /\ (Refused \/ Loose(s, E.o))
                          /\ (E.m = "i" \/ E.a = E.x)
                          /\ To(IF First(s, E.o) /\ s.op[E.o].ck > 0 THEN OClock(s, E.o, s.op[E.o].ck) ELSE s)
  ELSE /\ E.r = "" /\ To(u)
       /\ CASE E.m = "d" -> Res(r) /\ E.a = E.x
            [] E.m = "i" -> Res(r)
            [] E.m = "a" -> Res(VAdd(VMul(<<24, 0>>, Vec(E.y)), r)) /\ E.a = E.x
            [] E.m = "e" -> E.v = <<Far(Dot(v, r)[1])>> /\ E.a = E.x
            [] E.m = "m" -> LET z == Dot(Vec(E.y), r) IN E.v = <<Far(z[1]), Far(z[2])>> /\ E.a = E.x
TraceNext ==
  \/ Is("Open") /\ s' = Fresh
  \/ Is("Clk") /\ To([s EXCEPT !.ck = With(@, E.i, [dt |-> E.dt, nt |-> E.nt, st |-> 0])])
  \/ Is("Step") /\ To([s EXCEPT !.ck[E.i].st = E.v])
  \/ Is("Las") /\ To([s EXCEPT !.ls = With(@, E.i, Laser(E.d, E.dt))])
  \/ Is("Save") /\ E.r = "" /\ To([s EXCEPT !.fs = With(@, E.f, [d |-> s.ls[E.i].d, dt |-> s.ls[E.i].dt])])
  \/ Is("Read") /\ IF E.f \in DOMAIN s.fs THEN E.r = "" /\ To([s EXCEPT !.ls[E.i].d = s.fs[E.f].d, !.ls[E.i].dt = s.fs[E.f].dt]) ELSE Refused /\ Same
  \/ Is("LClk") /\ (IF Goes(s, E.i, E.c) THEN E.r = "" ELSE Refused) /\ To(LClock(s, E.i, E.c))
  \/ Is("Get") /\ Same /\ (IF Has(s, E.i) THEN E.r = "" /\ E.v = At(s, E.i) ELSE Refused \/ s.ls[E.i].ck < 0)
  \/ Is("Set") /\ IF CanSet(s, E.i) THEN E.r = "" /\ To(LSet(s, E.i, E.v))
                  ELSE IF s.ls[E.i].ck < 0
                  THEN \E t \in 0..Len(s.ls[E.i].d) : To(IF t = 0 THEN s ELSE [s EXCEPT !.ls[E.i].d[t] = E.v])
                  ELSE Refused /\ Same
  \/ Is("Pot") /\ Same /\ (IF Has(s, E.i) THEN E.r = "" /\ E.v = Potential(s, E.i) ELSE Refused \/ s.ls[E.i].ck < 0)
  \/ Is("Energy") /\ Same /\ E.r = "" /\ E.v = Energy(s.ls[E.i])
  \/ Is("Fill") /\ To([s EXCEPT !.ls[E.i].d = E.d])
  \/ Is("Scale") /\ To([s EXCEPT !.ls[E.i].sc = E.v])
  \/ Is("LCopy") /\ To([s EXCEPT !.ls[E.i] = s.ls[E.j]])
  \/ Is("Spec") /\ (IF s.ls[E.i].ck < 0 THEN \E q \in 0..Len(s.ls[E.i].d) : To(IF q = 0 THEN s ELSE [s EXCEPT !.ls[E.i].d = SubSeq(@, 1, q)])
                    ELSE IF CanSpec(s, E.i)
                    THEN E.r = "" /\ To(Cut(s, E.i)) /\ (Power(s'.ls[E.i].d) # <<>> => E.p = Power(s'.ls[E.i].d)) /\ E.n = Len(s'.ls[E.i].d) \div 2 + 1
                    ELSE Refused /\ Same)
  \/ Is("Op") /\ (IF E.k \in {"sum", "prod", "gsum", "ms", "rk4"} THEN E.r = "" /\ To([s EXCEPT !.op = With(@, E.i, Op(E.k, <<>>, <<>>, E.ch))])
                  ELSE IF CanLoad(s, E.fs) THEN E.r = "" /\ To(Load(s, E.i, E.k, E.m, E.sc, E.ids, E.fs))
                  ELSE Refused /\ Same)
  \/ Is("OClk") /\ (IF AllGo(s, E.i, E.c) THEN E.r = "" ELSE Refused) /\ To(OClock(s, E.i, E.c))
  \/ Is("Copy") /\ E.r = "" /\ To(Copy(s, E.i, E.j, E.ids))
  \/ Is("Apply") /\ Applied
TraceInit == l = 1 /\ s = Fresh
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s>>
TraceReport == PrintT(<<"TRACE_REACHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
