----------------------------- MODULE RegistryMC -----------------------------
EXTENDS Registry, TLC
CONSTANTS MaxRefs, Keys
Ops == {1, 2}
Wfs == {3, 4}
Live(x) == x \in DOMAIN cnt
\* who adds an operator hands over a reference of its own
Free(o) == Live(o) /\ cnt[o] > Owned(o)
Next == \/ \E o \in Ops : MakeOp(o) \/ (Live(o) /\ cnt[o] < MaxRefs /\ Hold(o)) \/ Drop(o)
        \/ \E w \in Wfs : MakeWf(w) \/ Drop(w)
        \/ \E k \in Keys \cup {""}, key \in Keys, o \in Ops \cup {0}, p \in BOOLEAN, ok \in BOOLEAN : (o = 0 \/ Free(o)) /\ AddOp(k, o, p, ok, key)
        \/ \E k \in Keys, ok \in BOOLEAN : SetLabel(k, "x", ok)
        \/ \E k \in Keys, n \in {1, 6}, ok \in BOOLEAN, t \in 0..2 : InitKey(k, n, ok, t)
        \/ \E o \in Ops, key \in Keys, n \in {1, 2}, ok \in BOOLEAN, t \in 0..2 : Live(o) /\ (HoldO(o) # {} \/ Free(o)) /\ InitPtr(o, n, ok, t, key)
        \/ \E b \in BOOLEAN : ClearOps(b)
        \/ \E S \in SUBSET Keys : Restore(S)
        \/ \E k \in Keys \cup {""}, key \in Keys, w \in Wfs, p \in BOOLEAN, ok \in BOOLEAN : Live(w) /\ cnt[w] < MaxRefs /\ AddWf(k, w, p, ok, key)
        \/ \E k \in Keys, w \in Wfs : Live(w) /\ cnt[w] < MaxRefs /\ SetWf(k, w)
        \/ ClearWfs
View == <<ops, wfs, cnt, fit>>
Spec == RInit /\ [][Next]_rvars
\* only the last holder's leaving ends an object
Lasting == [][\A x \in DOMAIN cnt : x \notin DOMAIN cnt' => Cardinality({k \in DOMAIN ops' : ops'[k].o = x}) + Cardinality({k \in DOMAIN wfs' : wfs'[k].w = x}) = 0]_rvars
\* persistent entries outlive Clear
Kept == [][\A k \in DOMAIN wfs : wfs[k].keep => k \in DOMAIN wfs']_rvars
\* nothing is initialised that is already valid
Spared == [][\A i \in 1..Len(inits') : inits'[i].n = fit'[inits'[i].o]]_rvars
=============================================================================
