------------------------------- MODULE ParamsMC -------------------------------
(* All short histories of two containers; the text form is modelled as a value
   in transit, so that interleavings of writing and changing are covered, and
   the line grammar is checked over all short lines of a small alphabet. *)
EXTENDS Params
CONSTANTS Names, Vals, MaxLine, Alphabet
VARIABLES txt          \* text in transit: lines
vars == <<pc, txt>>
T == {"", "int"}
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
WriteLine(n, e, typed) == n \o (IF typed /\ e.t # "" THEN "[" \o e.t \o "]" ELSE "") \o " = " \o e.v
Write(c, typed) == [i \in 1..Cardinality(DOMAIN pc[c]) |->
                     LET n == SetToSeq(DOMAIN pc[c])[i] IN WriteLine(n, pc[c][n], typed)]
Init == pc = (1 :> <<>>) @@ (2 :> <<>>) /\ txt = <<>>
Next == \/ \E c \in {1, 2}, n \in Names, v \in Vals, t \in T : Put(c, n, Ent(v, t, <<>>)) /\ UNCHANGED txt
        \/ Merge(1, 2) /\ UNCHANGED txt
        \/ Assign(2, 1) /\ UNCHANGED txt
        \/ Clear(1) /\ UNCHANGED txt
        \/ \E ty \in BOOLEAN : txt' = Write(1, ty) /\ UNCHANGED pc
        \/ txt # <<>> /\ Parse(2, txt) /\ UNCHANGED txt
Spec == Init /\ [][Next]_vars
\* Writing and parsing gives an equal container.
RoundTrip == \A c \in {1, 2} : TextOf(c, Write(c, TRUE), TRUE) /\ TextOf(c, Write(c, FALSE), FALSE)
\* Merging takes every entry of the source and keeps the others.
MergeRight == [][Merge(1, 2) => /\ \A n \in DOMAIN pc[2] : pc'[1][n] = pc[2][n]
                                /\ \A n \in DOMAIN pc[1] \ DOMAIN pc[2] : pc'[1][n] = pc[1][n]
                                /\ DOMAIN pc'[1] = DOMAIN pc[1] \cup DOMAIN pc[2]]_vars
Independent == [][\A c \in {1, 2} : pc'[c] # pc[c] => \A d \in {1, 2} \ {c} : pc'[d] = pc[d]]_vars
\* The line grammar: names and values have no blanks around them and names no delimiters.
RECURSIVE Strs(_)
Strs(k) == IF k = 0 THEN {""} ELSE Strs(k - 1) \cup {s \o a : s \in Strs(k - 1), a \in Alphabet}
ASSUME \A s \in Strs(MaxLine) :
  LET r == Line(s) IN
  r.k = "entry" => /\ r.n = Trim(r.n) /\ r.n # "" /\ Find(r.n, "=") = 0 /\ Find(r.n, "[") = 0
                   /\ r.e.v = Trim(r.e.v)
                   \* stable: the entry written again is the same entry
                   /\ (Find(r.n, "]") = 0 => Line(WriteLine(r.n, r.e, TRUE)) = r)
=============================================================================
