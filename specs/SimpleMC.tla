------------------------------ MODULE SimpleMC ------------------------------
(* Every text of a few pieces, read piece by piece. *)
EXTENDS Simple
CONSTANTS MaxLen, Pieces
VARIABLES text, p
Init == text = <<>> /\ p = Start /\ \A n \in 1..6 : TLCSet(n, 0)
\* pieces are short token sequences, so that loops and attributes fit in
PieceToks(x) ==
  CASE x = "el" -> <<Tok("id", "x"), Tok("sec", "")>>
    [] x = "for" -> <<Tok("for", "for"), Tok("def", "i"), Tok("eq", ""), Tok("id", "1"), Tok("id", "2"), Tok("sec", "")>>
    [] x = "none" -> <<Tok("for", "for"), Tok("def", "i"), Tok("eq", ""), Tok("id", "2"), Tok("id", "1"), Tok("sec", "")>>
    [] x = "end" -> <<Tok("end", "")>>
    [] x = "att" -> <<Tok("id", "a"), Tok("eq", ""), Tok("ref", "i")>>
    [] x = "lit" -> <<Tok("id", "b"), Tok("eq", ""), Tok("str", "t")>>
    [] x = "set" -> <<Tok("def", "i"), Tok("eq", ""), Tok("str", "s")>>
    [] x = "more" -> <<Tok("cat", ""), Tok("ref", "i"), Tok("fmt", "%2d")>>
    [] OTHER -> <<Tok("com", "")>>
RECURSIVE PieceToksOf(_)
PieceToksOf(q) == IF q = <<>> THEN <<>> ELSE PieceToks(q[1]) \o PieceToksOf(SubSeq(q, 2, Len(q)))
Step(x) == /\ Len(text) < MaxLen /\ ~p.bad
           /\ text' = Append(text, x)
           /\ p' = ReadAll(p, PieceToks(x), 1)
Next == \E x \in Pieces : Step(x)
Spec == Init /\ [][Next]_<<text, p>>
R == Result(p)
(* Independent of the reader: depth of open blocks after k pieces *)
Opens == {"el", "for", "none"}
RECURSIVE Depth(_)
Depth(k) == IF k = 0 THEN 0 ELSE Depth(k - 1) + (IF text[k] \in Opens THEN 1 ELSE IF text[k] = "end" THEN -1 ELSE 0)
\* the piece which opened the block around position k
Owner(k) == LET c == {j \in 1..(k - 1) : text[j] \in Opens /\ Depth(j) = Depth(k - 1) /\ \A m \in j..(k - 1) : Depth(m) >= Depth(j)}
            IN IF c = {} THEN "top" ELSE text[MaxIn(c)]
Balanced == /\ \A k \in 1..Len(text) : Depth(k) >= 0
            /\ Depth(Len(text)) = 0
Grammatical == /\ \A k \in 1..Len(text) : text[k] \in {"att", "lit"} => Owner(k) = "el"
               /\ \A k \in 1..Len(text) : text[k] = "more" => k > 1 /\ text[k - 1] \in {"att", "lit", "set", "more"}
Complete1 == Complete(p) <=> Balanced /\ Grammatical
\* (kinds of text which must have occurred)
Mark(n, c) == IF c /\ TLCGet(n) = 0 THEN TLCSet(n, 1) /\ PrintT(<<"SEEN", <<"rejected", "inserted", "looped", "skipped", "erroneous", "halves">>[n]>>) ELSE TRUE
Marks == /\ Mark(1, ~Complete(p)) /\ Mark(2, R.ok /\ \E i \in DOMAIN R.out : \E a \in DOMAIN R.out[i].a : R.out[i].a[a][2] = "2")
         /\ Mark(3, R.ok /\ Len(R.out) = 4 /\ \E k \in DOMAIN text : text[k] = "for") /\ Mark(4, R.ok /\ R.out = <<>> /\ \E k \in DOMAIN text : text[k] = "el")
         /\ Mark(5, Complete(p) /\ ~R.ok)
\* the tags are nested
RECURSIVE Nest(_, _, _)
Nest(o, i, st) ==
  IF i > Len(o) THEN st = <<>>
  ELSE IF o[i].t = "open" THEN Nest(o, i + 1, Append(st, o[i].n))
  ELSE st # <<>> /\ st[Len(st)] = o[i].n /\ Nest(o, i + 1, SubSeq(st, 1, Len(st) - 1))
Nested == R.ok => Nest(R.out, 1, <<>>)
\* an element occurs once per value of the loops around it
RECURSIVE Times(_)
Times(k) == IF k = 0 THEN 1 ELSE
  LET around == {j \in 1..(k - 1) : text[j] \in Opens /\ \A m \in j..(k - 1) : Depth(m) >= Depth(j)}
  IN IF \E j \in around : text[j] = "none" THEN 0
     ELSE 2 ^ Cardinality({j \in around : text[j] = "for"})
RECURSIVE Total(_)
Total(k) == IF k = 0 THEN 0 ELSE Total(k - 1) + (IF text[k] = "el" THEN Times(k) ELSE 0)
Copies == R.ok => Cardinality({i \in DOMAIN R.out : R.out[i].t = "open"}) = Total(Len(text))
\* a text of two complete halves denotes what they do one after the other
Halves == \A k \in 1..(Len(text) - 1) :
  LET a == ReadAll(Start, PieceToksOf(SubSeq(text, 1, k)), 1)
      b == ReadAll(Start, PieceToksOf(SubSeq(text, k + 1, Len(text))), 1)
      e == Exec(Env0, Program(a), 1)
      g == Exec(e, Program(b), 1)
  IN Complete(a) /\ Complete(b) => Mark(6, TRUE) /\ (R.ok <=> ~g.err) /\ (R.ok => R.out = g.out)
=============================================================================
