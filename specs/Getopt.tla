-------------------------------- MODULE Getopt --------------------------------
(* Short command line options.  decl maps a letter to its declaration; a letter
   with a parameter takes the rest of its argument or else the next argument as
   its value, a letter without one is a flag and can be followed by further
   letters in the same argument.  Everything else is a non-option argument.
   Letters that were not declared, and a parameter letter with nothing left to
   take, are dropped. *)
EXTENDS Text
\* declaration: [par |-> takes a parameter, req |-> required, def |-> default]
\* state of a scan: opts (letter -> value, flags have ""), rest (non-options in order)
Letter(decl, c) == c \in DOMAIN decl
Give(o, c, v) == [x \in DOMAIN o \cup {c} |-> IF x = c THEN v ELSE o[x]]
\* scan the letters of one cluster; tells whether the next argument was taken
RECURSIVE Cluster(_, _, _, _, _)
Cluster(decl, s, hasnext, next, o) ==
  IF s = "" THEN [o |-> o, taken |-> FALSE]
  ELSE LET c == Ch(s, 1) t == SubSeq(s, 2, Len(s)) IN
    IF ~Letter(decl, c) THEN Cluster(decl, t, hasnext, next, o)
    ELSE IF ~decl[c].par THEN Cluster(decl, t, hasnext, next, Give(o, c, ""))
    ELSE IF t # "" THEN [o |-> Give(o, c, t), taken |-> FALSE]
    ELSE IF hasnext THEN [o |-> Give(o, c, next), taken |-> TRUE]
    ELSE [o |-> o, taken |-> FALSE]
RECURSIVE Scan(_, _, _, _)
Scan(decl, args, o, rest) ==
  IF args = <<>> THEN [opts |-> o, rest |-> rest]
  ELSE LET a == args[1] IN
    IF a = "--" THEN [opts |-> o, rest |-> rest \o Tail(args)]
    ELSE IF Len(a) > 1 /\ Ch(a, 1) = "-" THEN
      LET hn == Len(args) > 1
          r == Cluster(decl, SubSeq(a, 2, Len(a)), hn, IF hn THEN args[2] ELSE "", o)
      IN Scan(decl, IF r.taken THEN SubSeq(args, 3, Len(args)) ELSE Tail(args), r.o, rest)
    ELSE Scan(decl, Tail(args), o, Append(rest, a))
Parse(decl, args) == Scan(decl, args, <<>>, <<>>)
Given(p, c) == c \in DOMAIN p.opts
Value(decl, p, c) ==
  IF Given(p, c) /\ p.opts[c] # "" THEN p.opts[c]
  ELSE IF Letter(decl, c) THEN decl[c].def ELSE ""
Missing(decl, p) == {c \in DOMAIN decl : decl[c].par /\ decl[c].req /\ (~Given(p, c) \/ p.opts[c] = "")}
Accepted(decl, p) == ~Given(p, "h") /\ Missing(decl, p) = {}
=============================================================================
