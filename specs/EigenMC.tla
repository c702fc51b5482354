-------------------------------- MODULE EigenMC --------------------------------
(* All sequences of converged runs of small systems, with failures in between. *)
EXTENDS Eigen
CONSTANTS MaxRuns, Full
VARIABLES s, did    \* did: the runs so far: [p, before, r]
H1 == [m |-> <<0, 1, 0, 1, 0, 0, 0, 0, 3>>, bl |-> <<<<1, 2>>, <<3>>>>]
H2 == [m |-> <<2, 0, 0, 0, -1, 0, 0, 0, -1>>, bl |-> <<<<1>>, <<2>>, <<3>>>>]
W1 == <<<<1, 0>>, <<2, 1>>, <<0, 1>>>>
W2 == <<<<1, 0>>, <<1, 0>>, <<-1, 0>>>>
Hs == IF Full THEN {H1, H2} ELSE {H1}
P(m, H, w, nef, start, diag) == [m |-> m, bad |-> "", H |-> H, wf |-> w, nef |-> nef, start |-> start, steps |-> 16, diag |-> diag, conv |-> "", full |-> TRUE,
   dir |-> "", fname |-> "ef", ename |-> "en", prop |-> IF m = "lanczos" THEN "Arnoldi" ELSE "Cheby", read |-> "", wc |-> 1, tag |-> 0]
Progs == {P("imag", h, w, n, k, d) : h \in Hs, w \in {"w1", "w2"}, n \in 1..3, k \in 0..3, d \in BOOLEAN} \cup {P("lanczos", h, "w1", 0, 0, TRUE) : h \in Hs}
         \cup {P("ac", H2, w, 0, 0, d) : w \in {"w1", "w2"}, d \in BOOLEAN}
Start == [fs |-> ("w1" :> [kind |-> "wf", v |-> W1]) @@ ("w2" :> [kind |-> "wf", v |-> W2])]
Init == s = Start /\ did = <<>>
Block == {f \in {"ef_0", "ef_1", "ef_2", "en"} : ~Blocked(s, f)}
Next == /\ Len(did) < MaxRuns
        /\ \/ \E p \in Progs : LET r == TLCEval(Run(s, p, <<>>)) IN ~r.odd /\ s' = r.s /\ did' = Append(did, [p |-> p, before |-> s, r |-> r])
           \/ \E f \in Block : s' = [fs |-> With(s.fs, f, [kind |-> "block"])] /\ did' = Append(did, [p |-> P("block", H1, "w1", 0, 0, FALSE), before |-> s, r |-> Blank(s')])
           \/ \E f \in DOMAIN s.fs \ {"w1", "w2"} : s' = [fs |-> [x \in DOMAIN s.fs \ {f} |-> s.fs[x]]]
                /\ did' = Append(did, [p |-> P("remove", H1, "w1", 0, 0, FALSE), before |-> s, r |-> Blank(s')])
Spec == Init /\ [][Next]_<<s, did>>
Last == did[Len(did)]
Ran == did # <<>> /\ Last.p.m \in {"imag", "lanczos", "ac"}
Fine == Ran /\ Last.r.ok
Efs(t) == {f \in DOMAIN t.fs : t.fs[f].kind = "ef"}
Set == {f \in Last.r.wr : s.fs[f].kind = "ef"}
\* what is found are eigenstates
Solves == Ran => \A f \in Set : ~Null(s.fs[f].v) /\ MatVec(Last.p.H.m, s.fs[f].v) = Times(s.fs[f].e, s.fs[f].v)
Orthogonal == Ran => \A f, g \in Set : f # g => Dot(s.fs[f].v, s.fs[g].v) = <<0, 0>>
\* the list goes with the files and ascends
Files(p, n) == [k \in 1..n |-> s.fs[File(p, k - 1)]]
Ordered == (Fine /\ ~Last.r.free) => LET en == s.fs[List(Last.p)].en IN
   /\ \A k \in 1..Len(en) : en[k] = 1000 * Files(Last.p, Len(en))[k].e
   /\ (Last.p.m # "ac" \/ Last.p.diag) => \A k \in 2..Len(en) : en[k - 1] < en[k]
\* nothing below the last one is missing
Complete == (Fine /\ Last.p.m = "imag") => \A e \in Found(Last.p.H, s.fs[Last.p.wf].v) : e > Files(Last.p, Last.p.nef)[Last.p.nef].e \/ \E k \in 1..Last.p.nef : Files(Last.p, Last.p.nef)[k].e = e
\* a continued run arrives where an uninterrupted one does
Resumes == (Fine /\ Last.p.m = "imag" /\ ~Last.r.free) => LET u == Run(Start, [Last.p EXCEPT !.start = 0], <<>>) IN
   /\ u.ok /\ \A k \in 0..(Last.p.nef - 1) : SameAs(u.s.fs[File(Last.p, k)], s.fs[File(Last.p, k)])
   /\ u.s.fs[List(Last.p)] = s.fs[List(Last.p)]
\* what was there is left alone, except for the states asked for
Kept == Ran => \A f \in DOMAIN Last.before.fs : f \in DOMAIN s.fs /\ (f \notin Last.r.wr => s.fs[f] = Last.before.fs[f])
                /\ ((Last.p.m = "imag" /\ ~Last.p.diag) => \A k \in 0..(Last.p.start - 1) : File(Last.p, k) \notin Last.r.wr)
=================================================================================
