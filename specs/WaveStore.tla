------------------------------- MODULE WaveStore -------------------------------
(* How wave functions are kept: buffers of a pool; a leaf points to the buffer in
   use and to the one of the other representation; a multistate wave function
   keeps pointers of its own to the buffers of its states, through which vector
   operations reach them.  WaveSpace is what must come of it.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, MIds, Bufs, Vals, Relink
VARIABLES mem,     \* buffer -> <<value>> or <<>> (arbitrary); free buffers are absent
          lf,      \* id -> [cur, oth, ks]
          ml       \* id -> [st: ids, ptr: buffers]
svars == <<mem, lf, ml>>
More(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Less(f, S) == [k \in DOMAIN f \ S |-> f[k]]
Owned(i) == \E m \in DOMAIN ml : \E k \in 1..Len(ml[m].st) : ml[m].st[k] = i
Free == Bufs \ DOMAIN mem
Pick == CHOOSE b \in Free : TRUE
Pick2 == CHOOSE b \in Free \ {Pick} : TRUE
Lone == {i \in DOMAIN lf : ~Owned(i)}

In(b) == IF b = 0 THEN <<>> ELSE mem[b]
SInit == mem = <<>> /\ lf = <<>> /\ ml = <<>>
SNew(i) == /\ i \notin DOMAIN lf /\ Free # {}
           /\ mem' = More(mem, Pick :> <<>>)
           /\ lf' = More(lf, i :> [cur |-> Pick, oth |-> 0, ks |-> FALSE])
           /\ UNCHANGED ml
SBuild(m, i, j) == /\ m \notin DOMAIN ml /\ i # j /\ {i, j} \subseteq Lone /\ ~lf[i].ks /\ ~lf[j].ks
                   /\ lf[i].cur # 0 /\ lf[j].cur # 0
                   /\ ml' = More(ml, m :> [st |-> <<i, j>>, ptr |-> <<lf[i].cur, lf[j].cur>>])
                   /\ UNCHANGED <<mem, lf>>
SWrite(i, v) == lf[i].cur # 0 /\ mem' = [mem EXCEPT ![lf[i].cur] = <<v>>] /\ UNCHANGED <<lf, ml>>
SWriteM(m, k, v) == ml[m].ptr[k] # 0 /\ mem' = [mem EXCEPT ![ml[m].ptr[k]] = <<v>>] /\ UNCHANGED <<lf, ml>>
\* one leaf, given memory mm
Turn(mm, l, b) == IF l.ks = b THEN <<mm, l>>
                  ELSE IF l.oth # 0 THEN <<mm, [cur |-> l.oth, oth |-> l.cur, ks |-> b]>>
                  ELSE LET f == CHOOSE x \in Bufs \ DOMAIN mm : TRUE
                       IN <<More(mm, f :> <<>>), [cur |-> f, oth |-> l.cur, ks |-> b]>>
Room(n) == Cardinality(Free) >= n
SSwitch(i, b) == /\ i \in Lone /\ lf[i].cur # 0 /\ Room(1)
                 /\ LET t == Turn(mem, lf[i], b) IN mem' = t[1] /\ lf' = [lf EXCEPT ![i] = t[2]]
                 /\ UNCHANGED ml
TurnM(m, b) == LET i == ml[m].st[1] j == ml[m].st[2]
                   t == Turn(mem, lf[i], b) u == Turn(t[1], lf[j], b)
               IN [mem |-> u[1], lf |-> [lf EXCEPT ![i] = t[2], ![j] = u[2]],
                   ml |-> [ml EXCEPT ![m].ptr = <<t[2].cur, u[2].cur>>]]
SSwitchM(m, b) == /\ ml[m].ptr[1] # 0 /\ Room(2)
                  /\ LET t == TurnM(m, b) IN mem' = t.mem /\ lf' = t.lf /\ ml' = t.ml
SAssign(i, j) == /\ i \in Lone /\ lf[i].cur # 0 /\ lf[j].cur # 0 /\ Room(1)
                 /\ LET t == Turn(mem, lf[i], lf[j].ks)
                        jc == IF i = j THEN t[2].cur ELSE lf[j].cur
                    IN mem' = [t[1] EXCEPT ![t[2].cur] = t[1][jc]] /\ lf' = [lf EXCEPT ![i] = t[2]]
                 /\ UNCHANGED ml
SAssignM(m, n) == /\ m # n /\ ml[m].ptr[1] # 0 /\ ml[n].ptr[1] # 0 /\ Room(2)
                  /\ LET t == TurnM(m, lf[ml[n].st[1]].ks)
                         C(k) == t.lf[ml[m].st[k]].cur D(k) == lf[ml[n].st[k]].cur
                     IN /\ mem' = [t.mem EXCEPT ![C(1)] = t.mem[D(1)], ![C(2)] = t.mem[D(2)]]
                        /\ lf' = t.lf /\ ml' = (IF Relink THEN t.ml ELSE ml)
Bf(i) == {lf[i].cur, lf[i].oth} \ {0}
SRetire(m) == /\ ml[m].ptr[1] # 0
              /\ LET i == ml[m].st[1] j == ml[m].st[2]
                 IN /\ mem' = Less(mem, Bf(i) \cup Bf(j))
                    /\ lf' = [lf EXCEPT ![i] = [cur |-> 0, oth |-> 0, ks |-> lf[i].ks], ![j] = [cur |-> 0, oth |-> 0, ks |-> lf[j].ks]]
                    /\ ml' = [ml EXCEPT ![m].ptr = <<0, 0>>]
SReacquire(m) == /\ ml[m].ptr[1] = 0 /\ Room(2)
                 /\ LET i == ml[m].st[1] j == ml[m].st[2]
                    IN /\ mem' = More(mem, (Pick :> <<>>) @@ (Pick2 :> <<>>))
                       /\ lf' = [lf EXCEPT ![i].cur = Pick, ![j].cur = Pick2]
                       /\ ml' = [ml EXCEPT ![m].ptr = <<Pick, Pick2>>]
SDelete(m) == /\ LET S == {ml[m].st[1], ml[m].st[2]}
                 IN mem' = Less(mem, UNION {Bf(i) : i \in S}) /\ lf' = Less(lf, S) /\ ml' = Less(ml, {m})
SNext == \/ \E i \in Ids : SNew(i)
         \/ \E m \in MIds, i, j \in Ids : SBuild(m, i, j)
         \/ \E i \in DOMAIN lf, v \in Vals : SWrite(i, v)
         \/ \E m \in DOMAIN ml, k \in 1..2, v \in Vals : SWriteM(m, k, v)
         \/ \E i \in DOMAIN lf, b \in BOOLEAN : SSwitch(i, b)
         \/ \E m \in DOMAIN ml, b \in BOOLEAN : SSwitchM(m, b)
         \/ \E i, j \in DOMAIN lf : SAssign(i, j)
         \/ \E m, n \in DOMAIN ml : SAssignM(m, n)
         \/ \E m \in DOMAIN ml : SRetire(m) \/ SReacquire(m) \/ SDelete(m)
Spec == SInit /\ [][SNext]_svars
\* from two multistate wave functions, without making or deleting any
Two == /\ mem = [b \in {1, 2, 3, 4} |-> <<>>]
       /\ lf = [i \in {1, 2, 3, 4} |-> [cur |-> i, oth |-> 0, ks |-> FALSE]]
       /\ ml = (11 :> [st |-> <<1, 2>>, ptr |-> <<1, 2>>]) @@ (12 :> [st |-> <<3, 4>>, ptr |-> <<3, 4>>])
Spec2 == Two /\ [][SNext /\ DOMAIN lf' = DOMAIN lf /\ DOMAIN ml' = DOMAIN ml]_svars

\* Buffer names do not matter: what is seen of a state up to renaming.
View == <<[i \in DOMAIN lf |-> <<In(lf[i].cur), In(lf[i].oth), lf[i].ks, lf[i].cur = 0, lf[i].oth = 0>>],
          [m \in DOMAIN ml |-> <<ml[m].st, [k \in 1..2 |-> {<<i, s>> \in (DOMAIN lf) \X {1, 2} : ml[m].ptr[k] # 0
                                    /\ ml[m].ptr[k] = (IF s = 1 THEN lf[i].cur ELSE lf[i].oth)}]>>]>>
\* The pointers of a multistate wave function are those of its states.
Linked == \A m \in DOMAIN ml : \A k \in 1..2 : ml[m].ptr[k] = lf[ml[m].st[k]].cur
\* No buffer is used twice, none is used after it was given back.
Apart == /\ \A i, j \in DOMAIN lf : i # j => Bf(i) \cap Bf(j) = {}
         /\ \A i \in DOMAIN lf : Bf(i) \subseteq DOMAIN mem /\ (lf[i].cur # 0 => lf[i].cur # lf[i].oth)
         /\ DOMAIN mem = UNION {Bf(i) : i \in DOMAIN lf}

aleaf == [i \in DOMAIN lf |-> [n |-> 1, w |-> 1, grid |-> TRUE, x |-> In(lf[i].cur), o |-> In(lf[i].oth), ks |-> lf[i].ks,
                               gone |-> lf[i].cur = 0]]
amulti == [m \in DOMAIN ml |-> ml[m].st]
A == INSTANCE WaveSpace WITH leaf <- aleaf, multi <- amulti
ANext == \/ \E i \in Ids : A!New(i, 1, 1, TRUE)
         \/ \E m \in MIds, i, j \in Ids : i \in DOMAIN aleaf /\ j \in DOMAIN aleaf /\ A!Build(m, <<i, j>>, <<0, 0>>)
         \/ \E i \in A!Ids, v \in Vals : A!States(i) = 1 /\ A!Put(i, <<v>>)
         \/ \E m \in DOMAIN amulti, k \in 1..2, v \in Vals : A!Put(amulti[m][k], <<v>>)
         \/ \E i \in A!Ids, b \in BOOLEAN : A!Switch(i, b)
         \/ \E i, j \in A!Ids : A!AssignOk(i, j) /\ A!Assign(i, j)
         \/ \E m \in DOMAIN amulti : A!Retire(m) \/ A!Reacquire(m) \/ A!Delete(m)
Refines == [][ANext]_<<aleaf, amulti>>
================================================================================
