----------------------------- MODULE FileWFMC -----------------------------
(* Reading finds what was last written under a name and index, whatever the history of writes, formats, counters and
   damage; hist is the abstract map the directory has to implement. *)
EXTENDS FileWF
CONSTANTS Names, Cnts, MaxSteps, Kinds
VARIABLES hist, sigs, steps
vars == <<wf, fo, disk, hist, sigs, steps>>
Lf(t, n, a) == [c |-> "WFLevel", tag |-> t, dim |-> <<n>>, x |-> <<>>, d |-> [k \in 1..(2 * n) |-> a], ex |-> TRUE, s |-> <<>>]
Gr(a) == [c |-> "WFGridCartesian", tag |-> "", dim |-> <<2>>, x |-> <<0, 3>>, d |-> [k \in 1..4 |-> a], ex |-> TRUE, s |-> <<>>]
Mu(ss) == [c |-> "WFMultistate", tag |-> "", dim |-> <<>>, x |-> <<>>, d |-> <<>>, ex |-> TRUE, s |-> ss]
Values == {Lf("", 1, 1000), Lf("t", 1, 2000), Lf("", 2, -1000), Gr(3000), Mu(<<Lf("", 1, 1000), Lf("", 1, -5000)>>), Mu(<<Gr(1000)>>)}
Key(o) == <<o.name, IF o.seq THEN o.cnt ELSE -99>>
Sig(o, w) == <<o.name, o.fmt = "binary", w.c, w.dim, w.x, w.tag, [k \in 1..Len(w.s) |-> <<w.s[k].c, w.s[k].dim>>]>>
Clean(nm) == \/ \A s \in sigs : s[1] = nm => ~s[2]
             \/ \A s, t \in sigs : s[1] = nm /\ t[1] = nm => s[2] /\ s = t
Ghost == UNCHANGED <<hist, sigs>>
Paths(o, w) == {p \in DOMAIN Written(<<>>, o, w) : TRUE}
Init == FInit /\ hist = <<>> /\ sigs = {} /\ steps = 0
Next ==
  /\ steps < MaxSteps /\ steps' = steps + 1
  /\ \/ \E f \in 1..2, n \in Names : f \notin DOMAIN fo /\ Open(f, n, "", "none") /\ Ghost
     \/ \E f \in DOMAIN fo :
          \/ \E n \in Names : n # fo[f].name /\ Set(f, [fo[f] EXCEPT !.name = n]) /\ Ghost
          \/ \E x \in {"binary", "stream"} : x # fo[f].fmt /\ Set(f, [fo[f] EXCEPT !.fmt = x]) /\ Ghost
          \/ \E x \in {"none", "zlib"} : x # fo[f].comp /\ Set(f, [fo[f] EXCEPT !.comp = x]) /\ Ghost
          \/ \E x \in {1, 2} : Set(f, [fo[f] EXCEPT !.seq = TRUE, !.inc = x]) /\ Ghost
          \/ fo[f].seq /\ Set(f, [fo[f] EXCEPT !.seq = FALSE]) /\ Ghost
          \/ \E x \in Cnts : x # fo[f].cnt /\ Set(f, [fo[f] EXCEPT !.cnt = x]) /\ Ghost
     \/ \E f \in DOMAIN fo, w \in Values :
          /\ fo[f].cnt \in Cnts
          /\ disk' = Written(disk, fo[f], w) /\ fo' = [fo EXCEPT ![f] = Stepped(@)] /\ UNCHANGED wf
          /\ hist' = With(hist, Key(fo[f]), w) /\ sigs' = sigs \cup {Sig(fo[f], w)}
     \/ \E p \in DOMAIN disk, k \in Kinds :
          Damage(p, k) /\ UNCHANGED sigs /\ hist' = <<>>
Spec == Init /\ [][Next]_vars
Exactly(f, w) ==
  LET l == IF Multi(w) THEN w.s ELSE <<w>> IN
  /\ f.c = w.c /\ Len(f.l) = Len(l)
  /\ \A k \in 1..Len(l) : f.l[k].st = "no" /\ f.l[k].w = l[k]
O(nm, ix) == [name |-> nm, base |-> "", fmt |-> "", comp |-> "none", tol |-> 0, seq |-> ix # -99, cnt |-> ix, inc |-> 1]
\* every name and index written last and not damaged since reads back exactly, through any file object
Back == \A k \in DOMAIN hist : Clean(k[1]) => Exactly(Found(disk, O(k[1], k[2])), hist[k])
\* what reads without a complaint is accepted as itself
Accepts == \A k \in DOMAIN hist : Clean(k[1]) => Whole(Found(disk, O(k[1], k[2])), hist[k])
\* nothing is found where nothing was written
Absent == \A n \in Names, c \in Cnts : (\A s \in sigs : s[1] # n) => MustRefuse(Found(disk, O(n, c)))
\* a file which was cut or replaced is refused
Cut == \A n \in Names, c \in Cnts \cup {-99} :
         LET o == O(n, c) p == Data(o, n) IN
         p \in DOMAIN disk /\ disk[p].dmg \in {"refuse", "foreign"} /\ (\A s \in sigs : s[1] = n => ~s[2]) => MustRefuse(Found(disk, o))
=============================================================================
