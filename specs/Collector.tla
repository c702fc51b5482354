----------------------------- MODULE Collector -----------------------------
(***************************************************************************)
(* Reference counted ownership.  An object's destructor releases the       *)
(* objects it owns, in order, so a release can run through a whole graph.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cnt,    \* known object -> open references
          kids,   \* object -> sequence of owned objects (released by its destructor)
          gone    \* sequence: objects destroyed so far
cvars == <<cnt, kids, gone>>

Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
\* One release of x in table c, with history g.
RECURSIVE Release(_, _, _)
RECURSIVE ReleaseAll(_, _, _)
Release(x, c, g) ==
  IF x \notin DOMAIN c THEN <<c, g>>
  ELSE IF c[x] > 1 THEN <<[c EXCEPT ![x] = @ - 1], g>>
  ELSE ReleaseAll(kids[x], Drop(c, x), Append(g, x))
ReleaseAll(s, c, g) ==
  IF s = <<>> THEN <<c, g>>
  ELSE LET r == Release(Head(s), c, g) IN ReleaseAll(Tail(s), r[1], r[2])

CInit == cnt = <<>> /\ kids = <<>> /\ gone = <<>>
Make(x, ks) == /\ x \notin DOMAIN kids
               /\ cnt' = [y \in DOMAIN cnt \cup {x} |-> IF y = x THEN 1 ELSE cnt[y]]
               /\ kids' = [y \in DOMAIN kids \cup {x} |-> IF y = x THEN ks ELSE kids[y]]
               /\ UNCHANGED gone
Register(x) == /\ x \in DOMAIN cnt /\ cnt' = [cnt EXCEPT ![x] = @ + 1] /\ UNCHANGED <<kids, gone>>
Adopt(x, ks) == x \in DOMAIN cnt /\ kids' = [kids EXCEPT ![x] = ks] /\ UNCHANGED <<cnt, gone>>
Delete(x) == LET r == Release(x, cnt, gone) IN cnt' = r[1] /\ gone' = r[2] /\ UNCHANGED kids
\* Everything goes; the destructors' own releases have nothing left to do.
DeleteAll == /\ cnt' = <<>> /\ UNCHANGED kids
             /\ \E s \in [1..Cardinality(DOMAIN cnt) -> DOMAIN cnt] :
                  (\A i, j \in DOMAIN s : s[i] = s[j] => i = j) /\ gone' = gone \o s

Seen == {gone[i] : i \in DOMAIN gone}
Once == \A i, j \in DOMAIN gone : gone[i] = gone[j] => i = j
Partition == Seen \cap DOMAIN cnt = {} /\ Seen \cup DOMAIN cnt = DOMAIN kids
Positive == \A x \in DOMAIN cnt : cnt[x] > 0
=============================================================================
