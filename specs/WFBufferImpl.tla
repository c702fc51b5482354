---------------------------- MODULE WFBufferImpl ----------------------------
(***************************************************************************)
(* How the buffer keeps its promise: content is in memory or in a file per *)
(* position; whenever the limit is reached one unpinned position other     *)
(* than 0 moves to its file.  TLC shows that this refines WFBuffer, so the *)
(* content law and the limit follow from the eviction rule.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Vals, Lims, Fits, Unset
VARIABLES lim, fit, size, mem, disk, win, expl, ghost, obj
vars == <<lim, fit, size, mem, disk, win, expl, ghost, obj>>
\* mem: positions in memory -> content;  disk: positions with a file -> content
\* obj: positions whose handed out object is the one in mem

A == INSTANCE WFBuffer WITH wb <- 1, max <- fit, val <- ghost, held <- obj,
       cnt <- Cardinality(DOMAIN mem), files <- size, blind <- FALSE

Range(s) == {s[k] : k \in 1..Len(s)}
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
MaxOf(a, b) == IF a > b THEN a ELSE b
Acc(w, i) == Take(<<i>> \o w, MaxOf(lim, 1))
Put(f, i, v) == [p \in DOMAIN f \cup {i} |-> IF p = i THEN v ELSE f[p]]
Without(f, S) == [p \in DOMAIN f \ S |-> f[p]]

Init == /\ lim \in Lims /\ fit \in Fits /\ size = 0 /\ mem = <<>> /\ disk = <<>>
        /\ win = <<>> /\ expl = {} /\ ghost = <<>> /\ obj = {}

Cand(m, pin) == {p \in DOMAIN m : p > 0 /\ p \notin pin}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
\* One eviction if the limit is reached; the state is <<mem, disk, obj>>.
Evict(st, pin) ==
  LET c == Cand(st[1], pin) IN
  IF Cardinality(DOMAIN st[1]) >= fit /\ c # {}
  THEN LET v == MaxS(c) IN <<Without(st[1], {v}), Put(st[2], v, st[1][v]), st[3] \ {v}>>
  ELSE st
Fetch(st, i, default) == \* bring i to memory
  IF i \in DOMAIN st[1] THEN st
  ELSE <<Put(st[1], i, IF i \in DOMAIN st[2] THEN st[2][i] ELSE default), st[2], st[3]>>
Store(st, i, v) == <<Put(st[1], i, v), st[2], st[3]>>
Fits1(st) == Cardinality(DOMAIN st[1]) <= fit
Become(st) == mem' = st[1] /\ disk' = st[2] /\ obj' = st[3]
Now == <<mem, disk, obj>>
Grow(n) == [p \in 0..n-1 |-> IF p < size THEN ghost[p] ELSE Unset]
Pin == Range(win) \cup expl

DoInit == /\ 0 \notin DOMAIN mem
          /\ size' = MaxOf(size, 1) /\ ghost' = Grow(size')
          /\ Cardinality(DOMAIN mem) < fit
          /\ Become(<<Put(mem, 0, Unset), disk, obj>>)
          /\ UNCHANGED <<lim, fit, win, expl>>
Set(i, v) == LET s1 == Store(Evict(Now, Pin), i, v)
                 s2 == Evict(s1, Pin) IN
             /\ (0 \in DOMAIN mem \/ i = 0) /\ Fits1(s2)
             /\ Become(s2)
             /\ size' = MaxOf(size, i + 1) /\ ghost' = [Grow(size') EXCEPT ![i] = v]
             /\ UNCHANGED <<lim, fit, win, expl>>
Got(i) == LET pin == Range(Acc(win, i)) \cup expl
              s1 == IF i \in DOMAIN mem THEN Now ELSE Evict(Now, pin)
              s2 == Fetch(s1, i, Unset)
          IN IF i \in DOMAIN mem THEN Now ELSE Evict(s2, pin)
Get(i) == /\ i < size /\ 0 \in DOMAIN mem /\ Fits1(Got(i))
          /\ Become(<<Got(i)[1], Got(i)[2], Got(i)[3] \cup {i}>>)
          /\ win' = Acc(win, i)
          /\ UNCHANGED <<lim, fit, size, expl, ghost>>
Write(i, v) == /\ i \in obj /\ i \in DOMAIN mem
               /\ mem' = [mem EXCEPT ![i] = v] /\ ghost' = [ghost EXCEPT ![i] = v]
               /\ UNCHANGED <<lim, fit, size, disk, win, expl, obj>>
Lock(i) == /\ i < size
           /\ Become(Evict(Now, Pin \cup {i}))
           /\ expl' = expl \cup {i}
           /\ UNCHANGED <<lim, fit, size, win, ghost>>
UnLock(i) == i \in expl /\ expl' = expl \ {i} /\ UNCHANGED <<lim, fit, size, mem, disk, win, ghost, obj>>
Resize(n) == /\ n # size /\ size' = n /\ ghost' = Grow(n)
             /\ Become(<<Without(mem, n..N), Without(disk, n..N), obj \ (n..N)>>)
             /\ IF n < size THEN win' = <<>> /\ expl' = {} ELSE UNCHANGED <<win, expl>>
             /\ UNCHANGED <<lim, fit>>
Clear == /\ size' = 0 /\ ghost' = <<>> /\ Become(<< <<>>, <<>>, {} >>)
         /\ win' = <<>> /\ expl' = {} /\ UNCHANGED <<lim, fit>>
Next == \/ DoInit \/ Clear
        \/ \E i \in 0..N-1 : Get(i) \/ Lock(i) \/ UnLock(i) \/ \E v \in Vals : Set(i, v) \/ Write(i, v)
        \/ \E n \in 0..N : Resize(n)
Spec == Init /\ [][Next]_vars

\* Every step is a step of the abstract buffer.
AStep == \/ A!Init(1) \/ A!Clear
         \/ \E i \in 0..N-1 : \/ \E v \in Vals \cup {Unset} : A!Get(i, v) \/ A!Set(i, v) \/ A!Write(i, v)
                              \/ A!Lock(i) \/ A!UnLock(i)
         \/ \E n \in 0..N : A!Resize(n)
Refines == [][AStep]_<<fit, size, ghost, win, expl, obj, mem>>
NoLoss == \A p \in DOMAIN ghost : ghost[p] # Unset =>
             IF p \in DOMAIN mem THEN mem[p] = ghost[p] ELSE p \in DOMAIN disk /\ disk[p] = ghost[p]
Limit == Cardinality(DOMAIN mem) <= fit
\* Nothing is refused while what is pinned fits.
NeverStuck == \A i \in 0..size-1 :
   (0 \in DOMAIN mem /\ ~Fits1(Got(i))) => Cardinality(Range(Acc(win, i)) \cup expl \cup {0}) > fit
GetRight == \A i \in 0..size-1 : (0 \in DOMAIN mem /\ ghost[i] # Unset) =>
              (i \in DOMAIN Got(i)[1] /\ Got(i)[1][i] = ghost[i])
=============================================================================
