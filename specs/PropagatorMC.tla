------------------------------ MODULE PropagatorMC ------------------------------
(* Two parts with the same pairing, two propagators (one with both parts, one with the
   first), any order of steps and directions: what is reached depends only on the net
   number of steps of each part, is undone by the inverse, keeps the norm, and returns
   after a full turn.                                                               *)
EXTENDS Propagator
CONSTANTS Max, Scale
VARIABLES net, x0
K2 == [1..2 -> {0, 1, 2}]
\* components 1, 2 paired; 3 alone
Parts == {[k |-> <<k, k, j>>, m |-> <<m, m, 0>>, p |-> <<2, 1, 3>>, lz |-> <<>>] : k \in {0, 1}, m \in {-1, 0, 2}, j \in {0, 3}}
X == {<<<<1, 0>>, <<0, 0>>, <<0, 2>>>>, <<<<1, 1>>, <<0, -1>>, <<1, 0>>>>, <<<<0, 0>>, <<0, 0>>, <<0, 0>>>>}
Init == /\ \E a, b \in Parts : pt = <<a, b>>
        /\ x0 \in X /\ wf = <<[x |-> x0, pend |-> None]>>
        /\ up = <<[ps |-> <<<<1, 2>>, <<2, 2>>>>, dir |-> 1, ready |-> TRUE],
                  [ps |-> <<<<2, 1>>, <<1, 2>>, <<2, 1>>>>, dir |-> -1, ready |-> TRUE],
                  [ps |-> <<<<1, 2>>>>, dir |-> 1, ready |-> TRUE]>>
        /\ sc = Scale /\ now = 0 /\ net = <<0, 0>>
Did(u) == IF u = 3 THEN <<net[1] + up[u].dir, net[2]>> ELSE <<net[1] + up[u].dir, net[2] + up[u].dir>>
Small(v) == v[1] \in -Max..Max /\ v[2] \in -Max..Max
Step == \E u \in 1..3 : Small(Did(u)) /\ Apply(u, 1) /\ net' = Did(u) /\ UNCHANGED x0
Flip == \E u \in 1..3 : Turned(u, -up[u].dir) /\ UNCHANGED <<net, x0>>
Next == Step \/ Flip
Spec == Init /\ [][Next]_<<pt, wf, up, sc, now, net, x0>>
\* History does not matter: only the net number of steps does.
Net(h, w) == Add(w, h, 2 * net[h], 0)
Group == Clean(wf[1]) => \A h \in 1..2 : LET v == Net(3 - h, Net(h, [x |-> x0, pend |-> None])) IN Clean(v) => v.x = wf[1].x
Back == Clean(Add(Add(wf[1], 1, -2 * net[1], 0), 2, -2 * net[2], 0))
        /\ Add(Add(wf[1], 1, -2 * net[1], 0), 2, -2 * net[2], 0).x = x0
Unitary == Norm2(wf[1]) = Norm2([x |-> x0, pend |-> None])
Period == \A h \in 1..2 : LET w == [x |-> x0, pend |-> None] IN Add(w, h, 8 * sc, 0) = w
================================================================================
