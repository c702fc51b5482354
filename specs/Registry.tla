------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Named operators and wave functions.  The operator list takes over one   *)
(* reference from who adds an operator, the wave function list takes one   *)
(* of its own.  An operator is initialised for the wave functions it is    *)
(* asked for, and not again as long as it is valid for them.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ops,    \* key -> [o, keep, label, init]
          wfs,    \* key -> [w, keep]
          cnt,    \* live object -> references
          fit,    \* operator -> size of the wave functions it is initialised for (0: none)
          inits   \* initialisations made by the last call: [o, n]
rvars == <<ops, wfs, cnt, fit, inits>>

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(f, S) == [y \in DOMAIN f \ S |-> f[y]]
\* the operator accepts wave functions of up to 5 elements
Bad(n) == n > 5
HoldO(o) == {k \in DOMAIN ops : ops[k].o = o}
HoldW(w) == {k \in DOMAIN wfs : wfs[k].w = w}
Sub(c, d) == LET left == [x \in DOMAIN c |-> c[x] - d[x]] IN [x \in {y \in DOMAIN c : left[y] > 0} |-> left[x]]

RInit == ops = <<>> /\ wfs = <<>> /\ cnt = <<>> /\ fit = <<>> /\ inits = <<>>
Same == UNCHANGED <<ops, wfs, cnt, fit>> /\ inits' = <<>>
MakeOp(o) == o \notin DOMAIN cnt /\ cnt' = Put(cnt, o, 1) /\ fit' = Put(fit, o, 0) /\ inits' = <<>> /\ UNCHANGED <<ops, wfs>>
MakeWf(w) == w \notin DOMAIN cnt /\ cnt' = Put(cnt, w, 1) /\ inits' = <<>> /\ UNCHANGED <<ops, wfs, fit>>
Hold(x) == x \in DOMAIN cnt /\ cnt' = [cnt EXCEPT ![x] = @ + 1] /\ inits' = <<>> /\ UNCHANGED <<ops, wfs, fit>>
\* nobody drops what a list counts on
Owned(x) == Cardinality(HoldO(x)) + Cardinality(HoldW(x))
Drop(x) == x \in DOMAIN cnt /\ cnt[x] > Owned(x) /\ cnt' = Sub(cnt, [y \in DOMAIN cnt |-> IF y = x THEN 1 ELSE 0]) /\ inits' = <<>> /\ UNCHANGED <<ops, wfs, fit>>

\* k: the key asked for ("": one is made up), key: the one given
AddOp(k, o, keep, ok, key) ==
  /\ inits' = <<>> /\ UNCHANGED <<wfs, cnt, fit>>
  /\ IF o = 0 \/ k \in DOMAIN ops THEN ~ok /\ UNCHANGED ops
     ELSE ok /\ key \notin DOMAIN ops /\ key # "" /\ (k # "" => key = k)
          /\ ops' = Put(ops, key, [o |-> o, keep |-> keep, label |-> "", init |-> FALSE])
SetLabel(k, label, ok) == /\ inits' = <<>> /\ UNCHANGED <<wfs, cnt, fit>>
                          /\ ok = (k \in DOMAIN ops)
                          /\ ops' = IF ok THEN [ops EXCEPT ![k].label = label] ELSE ops
With(label) == {k \in DOMAIN ops : ops[k].label = label}
Labelled(label, max, got) ==
  /\ Same /\ LET n == Cardinality(With(label)) IN Len(got) = IF n < max THEN n ELSE max
  /\ \A i \in 1..Len(got) : LET o == got[i] IN Cardinality({j \in 1..Len(got) : got[j] = o}) =< Cardinality(With(label) \cap HoldO(o))
HasLabel(o, label, r) == Same /\ \/ r /\ With(label) \cap HoldO(o) # {}
                                 \/ ~r /\ (HoldO(o) = {} \/ HoldO(o) \ With(label) # {})
LookOp(k, ok, o) == Same /\ ok = (k \in DOMAIN ops) /\ (ok => o = ops[k].o)

\* makes operator o, listed under the keys in K, valid for a wave function of n elements
Ready(o, K, n) == (\A k \in K : ops[k].init) /\ fit[o] = n
InitOp(o, K, n, ok, times) ==
  /\ UNCHANGED <<wfs, cnt>>
  /\ IF Ready(o, K, n) THEN ok /\ times = 0
     ELSE IF Bad(n) THEN ~ok /\ times = 0
     ELSE ok /\ times >= 1 /\ times =< Cardinality(K)
  /\ inits' = [i \in 1..times |-> [o |-> o, n |-> n]]
  /\ fit' = IF times > 0 THEN [fit EXCEPT ![o] = n] ELSE fit
  /\ ops' = IF ok THEN [k \in DOMAIN ops |-> IF k \in K THEN [ops[k] EXCEPT !.init = TRUE] ELSE ops[k]] ELSE ops
InitKey(k, n, ok, times) ==
  IF k \notin DOMAIN ops THEN ~ok /\ times = 0 /\ Same ELSE InitOp(ops[k].o, {k}, n, ok, times)
\* an operator that is not listed gets listed
InitPtr(o, n, ok, times, key) ==
  IF HoldO(o) # {} THEN InitOp(o, HoldO(o), n, ok, times)
  ELSE /\ key \notin DOMAIN ops /\ UNCHANGED <<wfs, cnt>>
       /\ ok = ~Bad(n) /\ times = (IF ok THEN 1 ELSE 0)
       /\ inits' = [i \in 1..times |-> [o |-> o, n |-> n]]
       /\ fit' = IF ok THEN [fit EXCEPT ![o] = n] ELSE fit
       /\ ops' = Put(ops, key, [o |-> o, keep |-> FALSE, label |-> "", init |-> ok])
Release(K) == /\ ops' = Without(ops, K) /\ inits' = <<>> /\ UNCHANGED <<wfs, fit>>
              /\ cnt' = Sub(cnt, [x \in DOMAIN cnt |-> Cardinality(K \cap HoldO(x))])
ClearOps(all) == Release({k \in DOMAIN ops : all \/ ~ops[k].keep})
Restore(keys) == Release(DOMAIN ops \ keys)

Takes(w) == cnt' = [cnt EXCEPT ![w] = @ + 1]
AddWf(k, w, keep, ok, key) ==
  /\ inits' = <<>> /\ UNCHANGED <<ops, fit>>
  /\ IF w = 0 \/ k \in DOMAIN wfs THEN ~ok /\ UNCHANGED <<wfs, cnt>>
     ELSE ok /\ key \notin DOMAIN wfs /\ key # "" /\ (k # "" => key = k) /\ wfs' = Put(wfs, key, [w |-> w, keep |-> keep]) /\ Takes(w)
SetWf(k, w) ==
  /\ inits' = <<>> /\ UNCHANGED <<ops, fit>>
  /\ IF k \notin DOMAIN wfs THEN wfs' = Put(wfs, k, [w |-> w, keep |-> TRUE]) /\ Takes(w)
     ELSE wfs' = [wfs EXCEPT ![k].w = w] /\ LET old == wfs[k].w IN cnt' = Sub(cnt, [x \in DOMAIN cnt |-> (IF x = old THEN 1 ELSE 0) - (IF x = w THEN 1 ELSE 0)])
LookWf(k, ok, w) == Same /\ ok = (k \in DOMAIN wfs) /\ (ok => w = wfs[k].w)
ClearWfs == LET K == {k \in DOMAIN wfs : ~wfs[k].keep} IN
            /\ wfs' = Without(wfs, K) /\ inits' = <<>> /\ UNCHANGED <<ops, fit>>
            /\ cnt' = Sub(cnt, [x \in DOMAIN cnt |-> Cardinality(K \cap HoldW(x))])

\* whatever is listed is there
Reachable == /\ \A k \in DOMAIN ops : ops[k].o \in DOMAIN cnt
             /\ \A k \in DOMAIN wfs : wfs[k].w \in DOMAIN cnt
Counted == \A x \in DOMAIN cnt : cnt[x] >= Owned(x)
Initialised == \A k \in DOMAIN ops : ops[k].init => fit[ops[k].o] # 0
=============================================================================
