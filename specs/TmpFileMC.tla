------------------------------ MODULE TmpFileMC ------------------------------
(* Two arrays, with the last value written at each element kept on the side. *)
EXTENDS TmpFile
CONSTANTS MaxSize, MaxToks
VARIABLES seen    \* array -> [element -> last value]
Ids == {1, 2}
Vals == {7, 8}
Toks == 1..MaxToks
Put1(i, k, x) == seen' = [seen EXCEPT ![i] = [y \in 1..MaxSize |-> IF y = k THEN x ELSE @[y]]]
Nothing == [y \in 1..MaxSize |-> Unknown]
Init == TInit /\ seen = [i \in Ids |-> Nothing]
Keep == UNCHANGED seen
Forget(i, n) == seen' = [seen EXCEPT ![i] = [y \in 1..MaxSize |-> IF y > n THEN Unknown ELSE @[y]]]
Next == \/ \E i \in Ids : New(i) /\ Keep
        \/ \E d \in {"-", "a", "missing"}, e \in {"-", "b"} : conf # [gp |-> d, env |-> e] /\ Cardinality(DOMAIN obj) < 2 /\ Configure(d, e) /\ Keep
        \/ \E i \in DOMAIN obj : \/ \E n \in 0..1, m \in BOOLEAN, t \in Toks : Open(i, n, m, t) /\ Forget(i, 0)
                                 \/ \E n \in 0..MaxSize : Resize(i, n) /\ Forget(i, n)
                                 \/ \E b \in BOOLEAN : Close(i, b) /\ Forget(i, 0)
                                 \/ Destroy(i) /\ Forget(i, 0)
                                 \/ \E p \in 0..(MaxSize - 1) : Seek(i, p) /\ Keep
                                 \/ \E v \in Vals : obj[i].pos \in 0..(MaxSize - 1) /\ Write(i, <<v>>) /\ Put1(i, obj[i].pos + 1, v)
                                 \/ \E v \in Vals : Reads(i, 1) /\ Read(i, <<v>>) /\ Keep
                                 \/ \E k \in 1..MaxSize, v \in Vals : Poke(i, k, v) /\ Put1(i, k, v)
Spec == Init /\ [][Next]_<<obj, files, conf, seen>>
Remembers == \A i \in DOMAIN obj : \A k \in 1..Size(i) : obj[i].data[k] = seen[i][k]
\* every file has an array, or was kept by one that was closed; one that is gone never comes back by itself
Steady == [][\A i \in DOMAIN obj : (i \in DOMAIN obj' /\ obj[i].open /\ obj'[i].open /\ obj[i].file = obj'[i].file) => obj[i].file \in DOMAIN files']_<<obj, files, conf, seen>>
\* an operation on one array leaves the files of the others alone
Apart == [][\A i, j \in DOMAIN obj : (i # j /\ obj[i].open /\ j \in DOMAIN obj' /\ i \in DOMAIN obj' /\ obj'[i] = obj[i]) => files'[obj[i].file] = files[obj[i].file]]_<<obj, files, conf, seen>>
=============================================================================
