-------------------------------- MODULE Params --------------------------------
(* Parameter containers: maps from names to a text with a type.  Floating point
   entries additionally remember the exact numbers (num, in hexadecimal notation)
   their text stands for; <<>> if the text was not written as numbers. *)
EXTENDS Text, FiniteSets
VARIABLE pc          \* container id -> (name -> [v, t, num])
Types == {"", "int", "uint", "sizet", "double", "bool", "string"}
Ent(v, t, num) == [v |-> v, t |-> t, num |-> num]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
PInit == pc = <<>>
New(c) == pc' = Over(pc, c :> <<>>)
FromMap(c, m) == pc' = Over(pc, c :> [n \in DOMAIN m |-> Ent(m[n], "", <<>>)])
Put(c, n, e) == pc' = [pc EXCEPT ![c] = Over(@, n :> e)]
Merge(c, d) == pc' = [pc EXCEPT ![c] = Over(@, pc[d])]
Assign(c, d) == pc' = Over(pc, c :> pc[d])
Clear(c) == pc' = [pc EXCEPT ![c] = <<>>]
Has(c, n) == n \in DOMAIN pc[c]
Type(c, n) == IF Has(c, n) THEN pc[c][n].t ELSE ""

(* The text form: one "name = value" or "name[type] = value" per line, blanks
   around the parts do not count, lines that start with # or have no = are
   skipped.  Parsing replaces the whole content. *)
Line(s) ==
  LET p == Find(s, "=")
      key == Trim(SubSeq(s, 1, p - 1))
      val == Trim(SubSeq(s, p + 1, Len(s)))
      a == Find(key, "[")
      b == Find(key, "]")
      ty == IF a = 0 THEN "" ELSE SubSeq(key, a + 1, (IF b = 0 THEN Len(key) + 1 ELSE b) - 1)
      name == IF a = 0 THEN key ELSE Trim(SubSeq(key, 1, a - 1))
  IN IF p = 0 \/ key = "" THEN [k |-> "skip"]
     ELSE IF Ch(key, 1) = "#" THEN [k |-> "skip"]
     ELSE IF ty \notin Types THEN [k |-> "bad"]
     ELSE IF name = "" THEN [k |-> "skip"]
     ELSE [k |-> "entry", n |-> name, e |-> Ent(val, ty, <<>>)]
RECURSIVE ParseFrom(_, _, _)
ParseFrom(ls, i, acc) ==
  IF i > Len(ls) THEN [ok |-> TRUE, m |-> acc]
  ELSE LET r == Line(ls[i]) IN
    CASE r.k = "skip" -> ParseFrom(ls, i + 1, acc)
      [] r.k = "bad" -> [ok |-> FALSE, m |-> acc]
      [] OTHER -> ParseFrom(ls, i + 1, Over(acc, r.n :> r.e))
Parsed(ls) == ParseFrom(ls, 1, <<>>)
\* lines up to (not including) the first one that equals the end mark
RECURSIVE UpTo(_, _, _)
UpTo(ls, mark, i) == IF i > Len(ls) \/ ls[i] = mark THEN SubSeq(ls, 1, i - 1) ELSE UpTo(ls, mark, i + 1)

\* What a text form may be: it parses, and to the container written (without types unless asked for).
Plain(m) == [n \in DOMAIN m |-> [v |-> m[n].v, t |-> m[n].t]]
Untyped(m) == [n \in DOMAIN m |-> [v |-> m[n].v, t |-> ""]]
TextOf(c, ls, typed) ==
  LET p == Parsed(ls) IN p.ok /\ Plain(p.m) = (IF typed THEN Plain(pc[c]) ELSE Untyped(pc[c]))
\* Reading it back keeps the numbers.
ReadBack(c, d, typed) == pc' = Over(pc, c :> [n \in DOMAIN pc[d] |-> [pc[d][n] EXCEPT !.t = IF typed THEN @ ELSE ""]])
Parse(c, ls) == LET p == Parsed(ls) IN p.ok /\ pc' = Over(pc, c :> p.m)
=============================================================================
