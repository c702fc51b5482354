--------------------------------- MODULE LogMC ---------------------------------
(* Every text is a letter of its own; where each should be is kept on the side. *)
EXTENDS Log, FiniteSets
CONSTANT MaxOps
VARIABLES n, sent    \* sent: letter -> [to: sink or "", ind]
mvars == <<lvars, n, sent>>
A(k) == It("c", k)
Init == LInit /\ n = 0 /\ sent = <<>>
Keep == UNCHANGED sent
\* a file opened again starts anew
Drop(f) == sent' = [k \in DOMAIN sent |-> IF sent[k].to = f THEN [sent[k] EXCEPT !.to = ""] ELSE sent[k]]
Sent(dbg) == sent' = Append(sent, [to |-> IF Passes(dbg) THEN cur ELSE "", ind |-> lvl.indent])
k == Len(sent) + 1
Next == n < MaxOps /\ n' = n + 1 /\
  \/ \E d \in BOOLEAN, t \in {<<A(k)>>, <<A(k), NL>>, <<NL, A(k)>>} : Write(d, t) /\ Sent(d)
  \/ \E h \in {"chapter", "sub"} : Header(h, <<A(k)>>) /\ Sent(FALSE)
  \/ \E i \in {0, 1, -1} : SetIndent(i) /\ Keep
  \/ (IndentInc \/ IndentDec) /\ Keep
  \/ \E b \in BOOLEAN : (Debug(b) \/ Quiet(b)) /\ Keep
  \/ \E f \in {"f1", "missing"} : IF f \in LogFiles THEN FileOutput(f) /\ Drop(f) ELSE (Stays \/ Drops) /\ Keep
  \/ (CloseFile \/ Restart \/ Redirect("r1") \/ Redirect("con")) /\ Keep
Spec == Init /\ [][Next]_mvars
Letters(x) == SelectSeq(sinks[x], LAMBDA i : i.k = "c")
\* every letter is where it was sent to, once, and in order
Exactly == \A x \in DOMAIN sinks : LET q == Letters(x) IN
   /\ {q[i].n : i \in 1..Len(q)} = {j \in DOMAIN sent : sent[j].to = x}
   /\ \A i \in 2..Len(q) : q[i - 1].n < q[i].n
\* a line that begins with a letter has the indentation the letter was written with (headers have none)
Indented == \A x \in DOMAIN sinks : \A i \in 1..Len(sinks[x]) :
   LET q == sinks[x] IN (q[i].k = "sp" /\ i < Len(q) /\ q[i + 1].k = "c" /\ q[i].n # 1) =>
       (i = 1 \/ q[i - 1] = NL) /\ (q[i].n = Wide * sent[q[i + 1].n].ind \/ q[i].n = (lvl.width - 1) \div 2)
Selected == cur \in Streams \/ cur = file
=================================================================================
