---------------------------- MODULE CollectorMC ----------------------------
EXTENDS Collector
CONSTANTS Ids, MaxCnt
Kids == {<<>>} \cup {<<a>> : a \in Ids} \cup {<<a, b>> : a, b \in Ids}
Next == \/ \E x \in Ids, ks \in Kids : Make(x, ks)
        \/ \E x \in Ids : (x \in DOMAIN cnt /\ cnt[x] < MaxCnt /\ Register(x)) \/ Delete(x)
        \/ DeleteAll
Spec == CInit /\ [][Next]_cvars
\* A release never touches an object it neither names nor reaches.
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup UNION {{kids[x][i] : i \in DOMAIN kids[x]} : x \in S \cap DOMAIN kids}, n - 1)
Local == [][\A x \in Ids : Delete(x) => \A y \in DOMAIN cnt \ Reach({x}, 3) : y \in DOMAIN cnt' /\ cnt'[y] = cnt[y]]_cvars
=============================================================================
