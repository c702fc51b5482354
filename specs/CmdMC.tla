------------------------------- MODULE CmdMC -------------------------------
(* All short sessions over a few commands. *)
EXTENDS Cmd
CONSTANTS MaxSteps, Kinds
VARIABLES st, over, last, prev, n
vars == <<st, over, last, prev, n>>
No == [k |-> "none"]
Ref(k) == [k |-> "ref", key |-> k, file |-> "", las |-> "", ch |-> <<>>]
H(k) == [k |-> "H", key |-> k, file |-> "H.op", las |-> "", ch |-> <<>>]
D(k) == [k |-> "D", key |-> k, file |-> "H.op", las |-> "L.op", ch |-> <<>>]
Cp(k, key, ch) == [k |-> k, key |-> key, file |-> "", las |-> "", ch |-> ch]
Defs1 == {H("a"), D("d"), Ref("a"), Cp("S", "s", <<Ref("a"), Ref("d")>>), Cp("S", "s", <<H("b"), Ref("d")>>), Cp("U", "u", <<Ref("d")>>), Cp("P", "", <<H("b"), H("b")>>)}
Wv == [k |-> "w", v |-> <<<<1, 0>>>>]
Reqs ==
  {[c |-> "writeop", file |-> "H.op", cls |-> "HermitianMatrix", dir |-> "", w |-> [k |-> "m", d |-> <<2>>]],
   [c |-> "writeop", file |-> "L.op", cls |-> "Laser", dir |-> "", w |-> [k |-> "l", d |-> <<1, -1>>]],
   [c |-> "writeop", file |-> "H.op", cls |-> "Laser", dir |-> "", w |-> [k |-> "bad"]],
   [c |-> "readop", file |-> "L.op", cls |-> "HermitianMatrix"],
   [c |-> "clear"], [c |-> "quit"], [c |-> "noise"],
   [c |-> "prog", bad |-> "", set |-> <<<<"x", "1">>>>, defs |-> <<H("a"), D("d")>>],
   [c |-> "prog", bad |-> "root", set |-> <<<<"x", "2">>>>, defs |-> <<>>],
   [c |-> "set", bad |-> FALSE, set |-> <<<<"x", "3">>>>], [c |-> "set", bad |-> TRUE, set |-> <<>>]}
  \cup {[c |-> "loadop", how |-> "x", x |-> d] : d \in Defs1}
  \cup {[c |-> "loadu", how |-> "x", x |-> Cp("U", "u", <<Ref("d")>>), dt |-> 1, nt |-> t] : t \in {2, 3}}
  \cup {[c |-> "apply", how |-> "r", key |-> k, t |-> t, ts |-> 1, w |-> Wv] : k \in {"d", "u", "s"}, t \in {"-", "t"}}
  \cup {[c |-> "matel", how |-> "r", key |-> k, w |-> Wv, w2 |-> Wv] : k \in {"a", "s"}}
Init == st = Fresh /\ over = FALSE /\ last = No /\ prev = Fresh /\ n = 0
Do(c) == /\ n < MaxSteps /\ ~over
         /\ \E q \in Reqs : q.c = c /\ \E o \in Outcomes(st, q) :
              st' = o.s /\ over' = o.over /\ last' = [q |-> q, a |-> o.a] /\ prev' = st /\ n' = n + 1
WriteOp == Do("writeop")
ReadOp == Do("readop")
Clear == Do("clear")
Quit == Do("quit")
Noise == Do("noise")
RunProg == Do("prog")
SetGp == Do("set")
LoadOp == Do("loadop")
LoadProp == Do("loadu")
Applying == Do("apply")
Matrix == Do("matel")
Next == WriteOp \/ ReadOp \/ Clear \/ Quit \/ Noise \/ RunProg \/ SetGp \/ LoadOp \/ LoadProp \/ Applying \/ Matrix
Spec == Init /\ [][Next]_vars
View == <<st, over, n, IF n = 0 THEN <<>> ELSE <<last.q.c, last.a>>, [prev EXCEPT !.n = 0]>>
Failed == last # No /\ "a" \in DOMAIN last /\ \E i \in 1..Len(last.a) : last.a[i] = Err
\* every name leads to an operator, every operator to its parts and its clock
Live == /\ \A k \in DOMAIN st.ops : st.ops[k] \in DOMAIN st.ob
        /\ \A i \in DOMAIN st.ob : /\ \A j \in 1..Len(st.ob[i].ch) : st.ob[i].ch[j] \in DOMAIN st.ob
                                   /\ st.ob[i].clk > 0 => st.ob[i].clk \in DOMAIN st.ck
\* a failing definition leaves no name behind, a failing command no file and no parameter
Clean == Failed => /\ st.fs = prev.fs
                   /\ last.q.c \in {"loadop", "loadu", "matel"} => st.ops = prev.ops
                   /\ last.q.c # "prog" => st.gp = prev.gp
\* one last word, and it says whether it worked
Spoken == last # No => /\ last.q.c # "quit" => Len(last.a) >= 1
                       /\ \A i \in 1..Len(last.a) - 1 : last.a[i] # Err
\* what is there is never taken away or changed but by clear
Stays == [][last'.q.c = "clear" \/ (DOMAIN st.ops \subseteq DOMAIN st'.ops /\ \A k \in DOMAIN st.ops : st'.ops[k] = st.ops[k])]_vars
=============================================================================
