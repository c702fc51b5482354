------------------------------- MODULE GetoptMC -------------------------------
(* All argument vectors over an alphabet of argument texts, grown one argument
   at a time: every argument is attributed exactly once. *)
EXTENDS Getopt, FiniteSets
CONSTANTS Texts, MaxArgs
VARIABLE args
Decl == ("h" :> [par |-> FALSE, req |-> FALSE, def |-> ""]) @@ ("f" :> [par |-> FALSE, req |-> FALSE, def |-> ""])
     @@ ("p" :> [par |-> TRUE, req |-> TRUE, def |-> ""]) @@ ("q" :> [par |-> TRUE, req |-> FALSE, def |-> "dq"])
Init == args = <<>>
More == Len(args) < MaxArgs /\ \E t \in Texts : args' = Append(args, t)
Spec == Init /\ [][More]_args
P == Parse(Decl, args)
\* The non-options are a subsequence of the arguments ...
RECURSIVE IsSub(_, _)
IsSub(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
               ELSE IF a[1] = b[1] THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b))
InOrder == IsSub(P.rest, args)
\* ... and only declared letters become options, flags without value.
OnlyDeclared == \A c \in DOMAIN P.opts : c \in DOMAIN Decl /\ (~Decl[c].par => P.opts[c] = "")
\* A plain argument that follows no open parameter letter is a non-option.
PlainKept == \A k \in 1..Len(args) :
  Ch(args[k], 1) # "-" /\ (\A j \in 1..(k - 1) : Ch(args[j], 1) # "-") => \E i \in 1..Len(P.rest) : P.rest[i] = args[k]
\* After "--" everything is a non-option.
EndMark == (\E k \in 1..Len(args) : args[k] = "--" /\ \A j \in 1..(k - 1) : Ch(args[j], 1) # "-") =>
           LET k == CHOOSE k \in 1..Len(args) : args[k] = "--" /\ \A j \in 1..(k - 1) : Ch(args[j], 1) # "-"
           IN P.rest = SubSeq(args, 1, k - 1) \o SubSeq(args, k + 1, Len(args))
\* Acceptance needs the required value; nothing else than help and it matters.
AcceptRight == Accepted(Decl, P) <=> (~Given(P, "h") /\ Given(P, "p") /\ P.opts["p"] # "")
\* Later occurrences win.
LastWins == Len(args) >= 2 /\ args[Len(args)] = "-qz" /\ (\A k \in 1..Len(args) : args[k] # "--" /\ args[k] \notin {"-p", "-q", "-fq"})
            => Value(Decl, P, "q") = "z"
=============================================================================
