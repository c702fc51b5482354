------------------------------ MODULE WFBuffer ------------------------------
(***************************************************************************)
(* The wave function buffer as its users see it: a growing sequence of     *)
(* positions with content, of which some are held in memory.  The buffer   *)
(* chooses freely which unpinned positions it holds; pinned are the        *)
(* explicitly locked ones and those in the window of the last accesses.    *)
(* One action per public call.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANT Unset            \* content of a position never written

VARIABLES
  wb,     \* bytes of one wave function
  max,    \* configured maximum in bytes
  size,   \* number of positions
  val,    \* position -> content last stored
  win,    \* most recent accesses, latest first
  expl,   \* explicitly locked positions
  lim,    \* how many of the last accesses are pinned
  held,   \* positions whose last handed out object still is the buffer's
  cnt,    \* how many positions are in memory
  files,  \* bound on temporary files
  blind   \* the objects themselves are not observed (only what is read)

bvars == <<wb, max, size, val, win, expl, lim, held, cnt, files, blind>>

Pos == 0 .. size - 1
Range(s) == {s[k] : k \in 1..Len(s)}
MaxOf(a, b) == IF a > b THEN a ELSE b
Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))

\* The window after accessing i: at least the position handed out last is in it.
Access(w, i, n) == Take(<<i>> \o w, MaxOf(n, 1))
Pinned(w, ex) == Range(w) \cup ex

\* Position 0 never leaves memory, so it always takes a share.
NoChoice(w, ex) == Cardinality(Pinned(w, ex) \cup {0}) * wb > max

BInit(b, m) ==
  /\ wb = b /\ max = m /\ size = 0 /\ val = <<>> /\ win = <<>> /\ expl = {}
  /\ lim = 2 /\ held = {} /\ cnt = 0 /\ files = 0 /\ blind = FALSE

Grow(n) == [p \in 0..n-1 |-> IF p < size THEN val[p] ELSE Unset]

\* What every completed call leaves behind.
Sane(b) ==
  /\ blind' = b
  /\ cnt' * wb <= max
  /\ cnt' <= size'
  /\ \A p \in held : (p \in Range(win') \cup expl' /\ p < size' /\ ~b) => p \in held'
  /\ held' \subseteq 0..size'-1

Init(b) ==            \* called with a wave function of b bytes
  /\ b <= max
  /\ IF size = 0 THEN size' = 1 /\ val' = [p \in {0} |-> Unset]
     ELSE UNCHANGED <<size, val>>
  /\ UNCHANGED <<wb, max, win, expl, lim, files>>
  /\ held' \subseteq held
  /\ Sane(blind)

Set(i, v) ==
  /\ size' = MaxOf(size, i + 1)
  /\ val' = [Grow(size') EXCEPT ![i] = v]
  /\ files' = size'
  /\ UNCHANGED <<wb, max, win, expl, lim>>
  /\ held' \subseteq held
  /\ Sane(blind)

Get(i, v) ==
  /\ i < size
  /\ val[i] # Unset => v = val[i]
  /\ win' = Access(win, i, lim)
  /\ i \in held' /\ held' \subseteq held \cup {i}
  /\ files' = size
  /\ UNCHANGED <<wb, max, size, val, expl, lim>>
  /\ Sane(blind)

\* The user changes an object handed out earlier, in place.
Write(i, v) ==
  /\ i \in held
  /\ val' = [val EXCEPT ![i] = v]
  /\ UNCHANGED <<wb, max, size, win, expl, lim, held, cnt, files, blind>>

Lock(i) ==
  /\ i < size
  /\ expl' = expl \cup {i}
  /\ files' = size
  /\ UNCHANGED <<wb, max, size, val, win, lim>>
  /\ held' \subseteq held
  /\ Sane(blind)

UnLock(i) ==
  /\ expl' = expl \ {i}
  /\ UNCHANGED <<wb, max, size, val, win, lim, files>>
  /\ held' \subseteq held
  /\ Sane(blind)

AutoLock(n) ==        \* on a buffer without recent accesses
  /\ win = <<>>
  /\ lim' = n
  /\ UNCHANGED <<wb, max, size, val, win, expl, held, cnt, files, blind>>

Resize(n) ==
  /\ size' = n
  /\ val' = Grow(n)
  /\ IF n < size THEN win' = <<>> /\ expl' = {} ELSE UNCHANGED <<win, expl>>
  /\ files' = IF n < size THEN n ELSE files
  /\ UNCHANGED <<wb, max, lim>>
  /\ held' \subseteq held
  /\ Sane(blind)

Clear ==
  /\ size' = 0 /\ val' = <<>> /\ win' = <<>> /\ expl' = {} /\ held' = {} /\ cnt' = 0 /\ files' = 0
  /\ UNCHANGED <<wb, max, lim, blind>>

\* The content goes to numbered files, read through the access window.
RECURSIVE AccessAll(_, _)
AccessAll(w, i) == IF i >= size THEN w ELSE AccessAll(Access(w, i, lim), i + 1)
Save ==
  /\ win' = AccessAll(win, 0)
  /\ files' = size
  /\ held' \subseteq held
  /\ cnt' * wb <= max /\ cnt' <= size
  /\ blind \/ \A p \in held \cap expl : p \in held'
  /\ UNCHANGED <<wb, max, size, val, expl, lim, blind>>

\* Replace everything by the saved series s[b], s[b+k], ... (at most n of them, all if n < 0).
Picked(s, b, k, n) ==
  LET avail == IF b >= Len(s) THEN 0 ELSE ((Len(s) - 1 - b) \div k) + 1
      m == IF n < 0 \/ n > avail THEN avail ELSE n
  IN [p \in 0..m-1 |-> s[b + p * k + 1]]
Load(s, b, k, n) ==
  /\ b < Len(s)
  /\ val' = Picked(s, b, k, n)
  /\ size' = Cardinality(DOMAIN val')
  /\ win' = <<>> /\ expl' = {} /\ held' = {} /\ files' = size'
  /\ cnt' * wb <= max /\ cnt' <= size'
  /\ UNCHANGED <<wb, max, lim, blind>>

\* Out of memory is an answer only if what is pinned does not fit.
Refuse(w, ex) == NoChoice(w, ex) /\ UNCHANGED bvars
OutOfRange(i) == i >= size /\ UNCHANGED bvars

LimitKept == cnt * wb <= max
HeldInMemory == Cardinality(held) <= cnt
TypeOK == /\ size \in Nat /\ held \subseteq Pos /\ DOMAIN val = Pos /\ Len(win) <= MaxOf(lim, 1)
=============================================================================
