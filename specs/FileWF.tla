------------------------------ MODULE FileWF ------------------------------
(* Wave function files: file objects with a name, an output format, compression and a sequence counter, and the
   directory they work on.  A single wave function in stream format is one file; in binary format it is a raw data
   file and a meta file shared by all members of a sequence.  A multistate wave function is one stream, or one raw
   file per state with meta files.  Damage marks an entry with what a later read may do. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES wf,     \* wave functions by id
          fo,     \* file objects by id
          disk    \* path -> entry

\* A wave function: leaf [c, tag, dim, x, d, ex, s = <<>>] or multistate [c = "WFMultistate", s = leafs, ...]
Multi(w) == w.c = "WFMultistate"
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
With(f, k, v) == (k :> v) @@ f
Without(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]

\* ---- names
Num(o) == IF o.seq THEN "_" \o ToString(o.cnt) ELSE ""
Data(o, nm) == nm \o Num(o) \o ".wf"
Meta(nm) == nm \o ".meta"
StateName(nm, k) == nm \o "-" \o ToString(k - 1)

\* ---- entries
How(o) == [z |-> o.comp # "none", tol |-> o.tol]
StreamE(o, w) == [k |-> "stream", w |-> w, how |-> How(o), dmg |-> "no"]
RawE(o, w) == [k |-> "raw", w |-> w, how |-> How(o), dmg |-> "no"]
MetaE(w) == [k |-> "meta", w |-> [w EXCEPT !.d = <<>>, !.ex = TRUE, !.s = <<>>], n |-> Len(w.s), dmg |-> "no"]

RECURSIVE Put(_, _, _, _, _)
\* directory after a binary multistate wrote its states k..
Put(d, o, nm, ss, k) ==
  IF k > Len(ss) THEN d
  ELSE Put(With(With(d, Data(o, StateName(nm, k)), RawE(o, ss[k])), Meta(StateName(nm, k)), MetaE(ss[k])), o, nm, ss, k + 1)
Written(d, o, w) ==
  IF o.fmt # "binary" THEN With(d, Data(o, o.name), StreamE(o, w))
  ELSE IF Multi(w) THEN With(Put(d, o, o.name, w.s, 1), Meta(o.name), MetaE(w))
  ELSE With(With(d, Data(o, o.name), RawE(o, w)), Meta(o.name), MetaE(w))

\* ---- what reading finds: [st, w, how] with st in
\*   "no": exactly this; "refuse": has to be refused; "same": refused or this content; "content": refused or this shape; "any"
Refuse == [st |-> "refuse", w |-> <<>>, how |-> <<>>]
Whatever == [st |-> "any", w |-> <<>>, how |-> <<>>]
\* a multistate whose own meta file is gone bad can be read by its states
Bare == [st |-> "bare", w |-> <<>>, how |-> <<>>]
SameShape(a, b) == a.c = b.c /\ a.dim = b.dim
\* the meta file of a name, a sequence index at its end may be dropped
MetaOf(d, o, nm) == IF Meta(nm) \in DOMAIN d THEN Meta(nm) ELSE IF o.base # "" /\ Meta(o.base) \in DOMAIN d THEN Meta(o.base) ELSE ""
RawLeaf(d, o, nm) ==
  LET m == MetaOf(d, o, nm) p == Data(o, nm) IN
  IF m = "" \/ p \notin DOMAIN d THEN Refuse
  ELSE IF d[m].dmg = "refuse" THEN Refuse
  ELSE IF d[m].dmg # "no" THEN Whatever
  ELSE IF d[p].k # "raw" \/ Multi(d[m].w) THEN Refuse
  ELSE IF d[p].dmg = "any" THEN Whatever
  ELSE IF ~SameShape(d[m].w, d[p].w) \/ (d[p].how.z /\ d[m].w.x # d[p].w.x)
       THEN (IF Prod(d[m].w.dim) > Prod(d[p].w.dim) /\ d[p].dmg # "same" THEN Refuse ELSE Whatever)
  ELSE IF d[p].dmg = "refuse" THEN Refuse
  ELSE [st |-> d[p].dmg, w |-> [d[m].w EXCEPT !.d = d[p].w.d, !.ex = d[p].w.ex], how |-> d[p].how]
\* a list of findings, one for each state (one for a single wave function)
Found(d, o) ==
  LET p == Data(o, o.name) IN
  IF p \in DOMAIN d /\ d[p].k = "stream" /\ d[p].dmg # "foreign"
  THEN LET e == d[p]
           st == IF e.dmg = "refuse" THEN Refuse ELSE IF e.dmg = "any" THEN Whatever ELSE [st |-> e.dmg, w |-> <<>>, how |-> e.how]
       IN [c |-> e.w.c, l |-> IF Multi(e.w) THEN [k \in 1..Len(e.w.s) |-> IF st.st \in {"refuse", "any"} THEN st ELSE [st EXCEPT !.w = e.w.s[k]]]
                              ELSE <<IF st.st \in {"refuse", "any"} THEN st ELSE [st EXCEPT !.w = e.w]>>]
  ELSE LET m == MetaOf(d, o, o.name) IN
       IF m = "" THEN [c |-> "", l |-> <<Refuse>>]
       \* something which is no raw data may look like the beginning of a stream
       ELSE IF p \in DOMAIN d /\ d[p].dmg # "no" /\ (Multi(d[m].w) \/ Meta(StateName(o.name, 1)) \in DOMAIN d) THEN [c |-> "", l |-> <<Whatever>>]
       ELSE IF d[m].dmg = "refuse" THEN [c |-> "", l |-> <<IF Multi(d[m].w) \/ Meta(StateName(o.name, 1)) \in DOMAIN d THEN Bare ELSE Refuse>>]
       ELSE IF d[m].dmg # "no" THEN [c |-> "", l |-> <<Whatever>>]
       ELSE IF Multi(d[m].w)
       THEN [c |-> "WFMultistate", l |-> [k \in 1..d[m].n |-> RawLeaf(d, o, StateName(o.name, k))]]
       ELSE [c |-> d[m].w.c, l |-> <<RawLeaf(d, o, o.name)>>]

\* ---- content up to the tolerance of the compression (tol in hundredths, contents in thousandths)
RECURSIVE Sum(_, _)
Sum(q, k) == IF k > Len(q) THEN 0 ELSE (IF q[k] < 0 THEN -q[k] ELSE q[k]) \div 1000 + 1 + Sum(q, k + 1)
RECURSIVE Sq(_, _)
Sq(q, k) == IF k > Len(q) THEN 0 ELSE (q[k] \div 1000) * (q[k] \div 1000) + Sq(q, k + 1)
Dist(a, b) == IF a > b THEN a - b ELSE b - a
SameContent(w, how, g) ==
  /\ Len(g.d) = Len(w.d)
  /\ IF ~how.z THEN g.d = w.d /\ g.ex = w.ex
     ELSE IF w.c = "WFLevel"
     THEN LET n == Prod(w.dim) sq == Sq(w.d, 1) IN
          \A k \in 1..Len(w.d) :
            \/ g.d[k] = w.d[k]
            \* below norm / size * tolerance
            \/ g.d[k] = 0 /\ how.tol > 0 /\ LET a == w.d[k] \div 1000 IN a * a * n * n * 10000 =< (sq + 1) * how.tol * how.tol
     ELSE LET b == IF how.tol = 0 THEN 1 ELSE 1 + 15 * how.tol * Sum(w.d, 1) IN
          \A k \in 1..Len(w.d) : Dist(g.d[k], w.d[k]) =< b
\* may a read return leaf g where x was found?
Leaf(x, g) ==
  CASE x.st = "refuse" -> FALSE
    [] x.st \in {"any", "bare"} -> TRUE
    [] x.st = "content" -> g.c = x.w.c /\ g.dim = x.w.dim
    [] x.st = "same" -> g.c = x.w.c /\ g.dim = x.w.dim /\ SameContent(x.w, x.how, g)
    [] OTHER -> g.c = x.w.c /\ g.dim = x.w.dim /\ g.x = x.w.x /\ g.tag = x.w.tag /\ SameContent(x.w, x.how, g)
Whole(f, g) ==
  LET l == IF Multi(g) THEN g.s ELSE <<g>> IN
  \/ Len(f.l) = 1 /\ f.l[1].st \in {"any", "bare"}
  \/ /\ \/ f.c = g.c
        \/ f.c = ""
     /\ Len(l) = Len(f.l) \/ (f.l[1].st = "less" /\ Len(l) < Len(f.l))
     /\ \A k \in 1..Len(l) : Leaf(f.l[k], l[k])
\* has a read to succeed / to be refused?
MustRead(f) == \A k \in 1..Len(f.l) : f.l[k].st = "no"
MustRefuse(f) == \E k \in 1..Len(f.l) : f.l[k].st = "refuse"
\* fits the object which is to take it
Fits(f, w) ==
  /\ f.c = w.c
  /\ Multi(w) => IF f.l[1].st = "less" THEN Len(w.s) < Len(f.l) ELSE Len(w.s) = Len(f.l) /\ \A k \in 1..Len(f.l) : f.l[k].st \in {"no", "same", "content"} => w.s[k].c = f.l[k].w.c
RECURSIVE Linked(_)
Linked(g) == g.linked /\ \A k \in 1..Len(g.s) : Linked(g.s[k])
RECURSIVE Strip(_)
Strip(g) == [c |-> g.c, tag |-> g.tag, dim |-> g.dim, x |-> g.x, d |-> g.d, ex |-> g.ex, s |-> [k \in 1..Len(g.s) |-> Strip(g.s[k])]]

\* ---- actions
FInit == wf = <<>> /\ fo = <<>> /\ disk = <<>>
New(i, w) == wf' = With(wf, i, w) /\ UNCHANGED <<fo, disk>>
\* a multistate takes its states over
Build(i, w, subs) == wf' = With([j \in DOMAIN wf \ subs |-> wf[j]], i, w) /\ UNCHANGED <<fo, disk>>
Open(f, name, fmt, comp) ==
  /\ fo' = With(fo, f, [name |-> name, base |-> "", fmt |-> fmt, comp |-> comp, tol |-> 0, seq |-> FALSE, cnt |-> 0, inc |-> 1])
  /\ UNCHANGED <<wf, disk>>
Set(f, o) == f \in DOMAIN fo /\ fo' = [fo EXCEPT ![f] = o] /\ UNCHANGED <<wf, disk>>
Stepped(o) == IF o.seq THEN [o EXCEPT !.cnt = @ + o.inc] ELSE o
Write(f, i) ==
  /\ f \in DOMAIN fo /\ i \in DOMAIN wf
  /\ disk' = Written(disk, fo[f], wf[i])
  /\ fo' = [fo EXCEPT ![f] = Stepped(IF @.fmt = "" /\ Multi(wf[i]) THEN [@ EXCEPT !.fmt = "stream"] ELSE @)]
  /\ UNCHANGED wf
\* reading into object i (class known) or into a new one returns g
ReadInto(f, i, g) ==
  /\ f \in DOMAIN fo /\ i \in DOMAIN wf
  /\ LET x == Found(disk, fo[f]) IN Whole(x, g) /\ (Fits(x, wf[i]) \/ x.c = "")
  /\ wf' = With(wf, i, g) /\ fo' = [fo EXCEPT ![f] = Stepped(@)] /\ UNCHANGED disk
RefuseInto(f, i) ==
  /\ f \in DOMAIN fo /\ i \in DOMAIN wf
  /\ LET x == Found(disk, fo[f]) IN ~(MustRead(x) /\ Fits(x, wf[i]))
  /\ wf' = Without(wf, i) /\ UNCHANGED <<fo, disk>>
Load(f, i, g) ==
  /\ f \in DOMAIN fo /\ \A k \in 1..Len(Found(disk, fo[f]).l) : Found(disk, fo[f]).l[k].st # "bare"
  /\ Whole(Found(disk, fo[f]), g)
  /\ wf' = With(wf, i, g) /\ fo' = [fo EXCEPT ![f] = Stepped(@)] /\ UNCHANGED disk
RefuseLoad(f) ==
  /\ f \in DOMAIN fo /\ ~MustRead(Found(disk, fo[f]))
  /\ UNCHANGED <<wf, fo, disk>>

\* ---- damage: what region of which entry was hit, and what a read may do afterwards
MustDetect == {"magic", "version", "hlen", "psize", "pcount", "h2", "h2z", "h7", "cut"}
Effect(e, k) ==
  IF k = "none" THEN e.dmg
  ELSE IF e.k = "meta" THEN (IF k = "foreign" THEN "refuse" ELSE "any")
  ELSE IF e.k = "raw"
  THEN CASE k = "foreign" -> "refuse"
         [] e.how.z \/ e.dmg \in {"any", "refuse"} -> "any"
         [] k = "cut" -> IF e.dmg = "same" THEN "any" ELSE "refuse"
         \* the part which belongs to it is read
         [] k = "longer" -> IF e.dmg = "no" THEN "same" ELSE e.dmg
         [] OTHER -> IF e.dmg # "no" THEN "any" ELSE "content"
  ELSE CASE k = "foreign" -> "foreign"
         [] e.dmg = "same" -> "any"
         [] e.dmg # "no" -> IF k = "cut" /\ e.dmg = "refuse" THEN "refuse" ELSE "any"
         [] k \in MustDetect -> "refuse"
         [] k = "longer" -> "same"
         [] k = "data" -> "content"
         \* fewer states announced than there are
         [] k = "pless" -> "less"
         [] OTHER -> "same"
Damage(p, k) ==
  /\ disk' = IF p \notin DOMAIN disk THEN disk
             ELSE IF k = "gone" THEN Without(disk, p)
             ELSE [disk EXCEPT ![p] = [@ EXCEPT !.dmg = Effect(disk[p], k)]]
  /\ UNCHANGED <<wf, fo>>
=============================================================================
