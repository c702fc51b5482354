------------------------------ MODULE FieldMC -------------------------------
(* One field on one of two clocks, coupled into a small composition, with a copy of it. *)
EXTENDS Field
CONSTANT MaxSteps
VARIABLES s, n, last
vars == <<s, n, last>>
\* 1 the field, 11 and 12 own lasers of dipoles 1 and 2; 3 = 1 + 2, 4 = static * 3, 5 copy of 3
Start == LET a == [Fresh EXCEPT !.ck = (1 :> [dt |-> 1, nt |-> 2, st |-> 0]) @@ (2 :> [dt |-> 1, nt |-> 3, st |-> 0]),
                                !.fs = ("f" :> [d |-> <<1, -1>>, dt |-> 1]),
                                !.ls = (1 :> Laser(<<1, 2>>, 1))]
             b == Load(a, 1, "md", <<1>>, 0, <<11>>, <<"f">>)
             c == Load(b, 2, "gd", <<2>>, 0, <<12>>, <<"f">>)
         IN [c EXCEPT !.op = (3 :> Op("sum", <<>>, <<>>, <<1, 2>>)) @@ (4 :> Op("prod", <<>>, <<>>, <<1, 3>>)) @@ @]
V == <<<<1, 0>>>>
Init == s = Start /\ n = 0 /\ last = <<"none">>
Go(x, what) == n < MaxSteps /\ n' = n + 1 /\ s' = x /\ last' = what
Tick == \E c \in {1, 2}, v \in {-1, 0, 1, 2} : s.ck[c].st # v /\ Go([s EXCEPT !.ck[c].st = v], <<"tick">>)
ClockOp == \E i \in DOMAIN s.op \cap {1, 3, 4, 5}, c \in {1, 2} : Go(OClock(s, i, c), <<"clock", i, c, AllGo(s, i, c)>>)
SetField == \E i \in {1, 11, 12} : CanSet(s, i) /\ Go(LSet(s, i, 3), <<"set", i>>)
ClockLaser == \E c \in {1, 2} : Go(LClock(s, 1, c), <<"lclock", c>>)
Save == Go([s EXCEPT !.fs = With(@, "f", [d |-> s.ls[1].d, dt |-> s.ls[1].dt])], <<"save">>)
Reload == Go([s EXCEPT !.ls[1].d = s.fs["f"].d], <<"reload">>)
Spectrum == CanSpec(s, 1) /\ Go(Cut(s, 1), <<"spec">>)
CopySum == 5 \notin DOMAIN s.op /\ Go(Copy(s, 5, 3, <<>>), <<"copy">>)
Next == Tick \/ ClockOp \/ SetField \/ ClockLaser \/ Save \/ Reload \/ Spectrum \/ CopySum
Spec == Init /\ [][Next]_vars
\* a clock is never longer than the field it was given to, so every step has its sample
Covered == \A l \in DOMAIN s.ls : Has(s, l) => s.ck[s.ls[l].ck].nt =< Len(s.ls[l].d)
\* what has a clock can be used, and does what its parts do now
Meaning == Timed(s, 3) => /\ Act(s, 3, V) = VAdd(Act(s, 1, V), Act(s, 2, V))
                          /\ (Timed(s, 4) => Act(s, 4, V) = Act(s, 1, Act(s, 3, V)))
                          /\ Act(s, 1, V) = <<<<-At(s, 11), 0>>>> /\ Act(s, 2, V) = <<<<-2 * At(s, 12), 0>>>>
\* the potential grows by the sample of each step passed
Grows == \A l \in {11, 12} : Has(s, l) /\ Now(s, l) >= 0 =>
            Potential(s, l) = AddTo([t \in 1..Now(s, l) |-> IF t =< Len(s.ls[l].d) THEN s.ls[l].d[t] ELSE 0], Now(s, l)) * s.ls[l].dt
\* Parseval on the clock's samples
Parseval == last = <<"spec">> /\ Len(s.ls[1].d) = 2 => AddTo(Power(s.ls[1].d), 2) = 2 * Energy(s.ls[1])
\* a field changes only by Set, Reload and Spectrum on it, in particular not by what happens to a copy
Stays == [][\A l \in DOMAIN s.ls : s'.ls[l].d # s.ls[l].d => last' \in {<<"set", l>>, <<"reload">>, <<"spec">>} /\ (l # 1 => last' = <<"set", l>>)]_vars
\* the copy acts as the original does when it is made
CopyActs == last = <<"copy">> /\ Timed(s, 3) => Timed(s, 5) /\ Act(s, 5, V) = Act(s, 3, V)
Apart == 5 \in DOMAIN s.op => Lasers(s, 5) \cap Lasers(s, 3) = {}
=============================================================================
