------------------------------ MODULE MemoryMC ------------------------------
EXTENDS Memory
CONSTANTS Ids, Sizes, Maxes, Blocks
Init == \E b \in Blocks, m \in Maxes, r \in BOOLEAN : MInit(b, r, m)
Next == \/ \E i \in Ids : Free(i) \/ \E n \in Sizes : Alloc(i, n)
        \/ \E n \in Sizes : Refuse(n)
        \/ Cleanup \/ \E m \in Maxes : Reconfigure(m)
Spec == Init /\ [][Next]_mvars
\* An allocation of any size is decided one way.
Decided == \A n \in Sizes : \A i \in Ids \ DOMAIN live : (ENABLED Alloc(i, n)) # (ENABLED Refuse(n))
Small == \A n \in DOMAIN cached : cached[n] <= 3
=============================================================================
