------------------------------ MODULE QDClockMC ------------------------------
EXTENDS QDClock
CONSTANTS Dts, Ns, Bound
Ids == {0, 1, 2}
Mine == {i \in Ids : Has(i)}
Next == \/ \E i \in {1, 2}, n \in Ns, d \in Dts : ~Has(i) /\ New(i, n, d)
        \/ Global
        \/ Has(0) /\ Destroy
        \/ \E i \in Mine : \/ \E d \in Dts : SetDt(i, d)
                           \/ Begin(i) \/ End(i) \/ Inc(i) \/ Dec(i)
        \/ \E i, j \in Mine : Assign(i, j) \/ Sync(i, j) \/ NoSync(i, j)
Spec == CInit /\ [][Next]_clk
Small == \A i \in DOMAIN clk : Abs(clk[i].s) <= Bound
\* Synchronised clocks show the same time.
SyncAgrees == [][\A i, m \in Mine : Sync(i, m) => Time(clk'[i]) = Time(clk[m])]_clk
Cardinality1(S) == \A a, b \in S : a = b
\* An operation changes one clock only.
OneAtATime == [][Cardinality1({i \in Mine : i \in DOMAIN clk' /\ clk'[i] # clk[i]})]_clk
\* n increments from the start put the clock at time n*dt, and back.
Reversible == \A i \in Mine : (clk[i].s + 1) * clk[i].dt - clk[i].dt = Time(clk[i])
=============================================================================
