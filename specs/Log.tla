---------------------------------- MODULE Log ----------------------------------
(* The logger.  What is written goes to the sink selected then, if the filters in force then let it pass, with the
   indentation in force then; each text once and in order.

   A text is a sequence of items [k, n]: a letter "c", a new line "nl", n spaces "sp" or stars "st", and n spaces that
   may be there or not, "opt": before what continues a line, and on blank lines.                                     *)
EXTENDS Integers, Sequences
VARIABLES sinks,    \* sink -> items
          cur,      \* the sink selected
          file,     \* the log file open, "" if there is none
          lvl       \* [debug, quiet, indent, width]
lvars == <<sinks, cur, file, lvl>>
It(k, n) == [k |-> k, n |-> n]
NL == It("nl", 0)
Wide == 2
Streams == {"con", "r1", "r2"}
LogFiles == {"f1", "f2"}
Default == [debug |-> FALSE, quiet |-> FALSE, indent |-> 0, width |-> 80]
LInit == sinks = [x \in Streams \cup LogFiles |-> <<>>] /\ cur = "con" /\ file = "" /\ lvl = Default
AtStart(q) == q = <<>> \/ q[Len(q)] = NL
RECURSIVE Laid(_, _, _, _)
\* text t from item k on, after q; fresh: nothing of it was laid out so far
Laid(q, t, k, fresh) ==
  IF k > Len(t) THEN q
  ELSE LET n == lvl.indent * Wide
           pad == IF n = 0 \/ ~(fresh \/ AtStart(q)) THEN <<>> ELSE <<It(IF AtStart(q) /\ t[k] # NL THEN "sp" ELSE "opt", n)>>
       IN Laid(q \o pad \o <<t[k]>>, t, k + 1, FALSE)
Into(x) == sinks' = [sinks EXCEPT ![cur] = x]
Same == UNCHANGED lvars
Passes(dbg) == ~lvl.quiet /\ (dbg => lvl.debug)
Write(dbg, t) == (IF Passes(dbg) THEN Into(Laid(sinks[cur], t, 1, TRUE)) ELSE UNCHANGED sinks) /\ UNCHANGED <<cur, file, lvl>>
Some(k, n) == IF n < 1 THEN <<>> ELSE <<It(k, n)>>
Half(t) == (lvl.width - Len(t)) \div 2
Title(kind, t) == CASE kind = "chapter" -> <<NL, NL>> \o Some("st", lvl.width) \o <<NL>> \o Some("sp", Half(t)) \o t \o <<NL>> \o Some("st", lvl.width) \o <<NL, NL>>
                   [] kind = "section" -> LET n == IF Half(t) < 2 THEN 0 ELSE Half(t) - 2 IN
                                          <<NL>> \o Some("st", n + 1) \o <<It("sp", 1)>> \o t \o <<It("sp", 1)>> \o Some("st", n) \o <<NL, NL>>
                   [] OTHER -> <<It("st", 1), It("sp", 1)>> \o t \o <<NL, NL>>
Header(kind, t) == (IF lvl.quiet THEN UNCHANGED sinks ELSE Into(sinks[cur] \o Title(kind, t))) /\ UNCHANGED <<cur, file, lvl>>
Set(x) == lvl' = x /\ UNCHANGED <<sinks, cur, file>>
SetIndent(n) == Set(IF n < 0 THEN lvl ELSE [lvl EXCEPT !.indent = n])
IndentInc == SetIndent(lvl.indent + 1)
IndentDec == SetIndent(lvl.indent - 1)
Debug(b) == Set([lvl EXCEPT !.debug = b])
Quiet(b) == Set([lvl EXCEPT !.quiet = b])
Width(n) == Set([lvl EXCEPT !.width = n])
FileOutput(f) == f \in LogFiles /\ sinks' = [sinks EXCEPT ![f] = <<>>] /\ cur' = f /\ file' = f /\ UNCHANGED lvl
\* a file that cannot be opened: the sink stays, unless it was the log file, which may be closed
Stays == Same
Drops == file # "" /\ file' = "" /\ cur' = (IF cur = file THEN "con" ELSE cur) /\ UNCHANGED <<sinks, lvl>>
CloseFile == cur' = "con" /\ file' = "" /\ UNCHANGED <<sinks, lvl>>
Redirect(r) == r \in Streams /\ cur' = r /\ UNCHANGED <<sinks, file, lvl>>
Restart == cur' = "con" /\ file' = "" /\ lvl' = Default /\ UNCHANGED sinks
=============================================================================
