------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Accounting of the aligned memory pool.  Sizes are rounded up to blocks; *)
(* with recycling, freed blocks stay owned until Cleanup and serve later   *)
(* requests of the same rounded size.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Integers
VARIABLES blk, rec, max, used, high, live, cached
mvars == <<blk, rec, max, used, high, live, cached>>
\* live: id -> bytes owned;  cached: bytes -> how many free slots

RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
Sum(f) == SumF(f, DOMAIN f)
RECURSIVE SumC(_, _)
SumC(c, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x * c[x] + SumC(c, S \ {x})
CachedBytes == SumC(cached, DOMAIN cached)

Round(n) == ((n + blk - 1) \div blk) * blk
MaxOf(a, b) == IF a > b THEN a ELSE b
Count(n) == IF n \in DOMAIN cached THEN cached[n] ELSE 0
SetCount(n, c) == [x \in DOMAIN cached \cup {n} |-> IF x = n THEN c ELSE cached[x]]
Avail == IF max > used THEN max - used ELSE 0

MInit(b, r, m) == blk = b /\ rec = r /\ max = m /\ used = 0 /\ high = 0 /\ live = <<>> /\ cached = <<>>

Alloc(id, n) ==
  /\ id \notin DOMAIN live
  /\ LET r == Round(n) IN
     /\ live' = [x \in DOMAIN live \cup {id} |-> IF x = id THEN r ELSE live[x]]
     /\ IF rec /\ Count(r) > 0
        THEN cached' = SetCount(r, Count(r) - 1) /\ UNCHANGED <<used, high>>
        ELSE /\ used + r <= max
             /\ used' = used + r /\ high' = MaxOf(high, used + r) /\ UNCHANGED cached
  /\ UNCHANGED <<blk, rec, max>>

Refuse(n) == /\ ~(rec /\ Count(Round(n)) > 0)
             /\ used + Round(n) > max
             /\ UNCHANGED mvars

Free(id) ==
  IF id \in DOMAIN live
  THEN /\ live' = [x \in DOMAIN live \ {id} |-> live[x]]
       /\ IF rec THEN cached' = SetCount(live[id], Count(live[id]) + 1) /\ UNCHANGED used
          ELSE used' = used - live[id] /\ UNCHANGED cached
       /\ UNCHANGED <<blk, rec, max, high>>
  ELSE UNCHANGED mvars           \* not one of ours: ignored

Cleanup == /\ used' = used - CachedBytes /\ cached' = <<>>
           /\ UNCHANGED <<blk, rec, max, high, live>>
Reconfigure(m) == max' = m /\ UNCHANGED <<blk, rec, used, high, live, cached>>

Accounting == used = Sum(live) + CachedBytes /\ used <= high
\* The limit binds at every allocation: used grows only below it.
GrowsBelowLimit == [][used' > used => used' <= max]_mvars
HighIsPeak == [][high' = MaxOf(high, used')]_mvars

(* Size strings: digits, an optional unit letter, an optional B. *)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
DVal(c) == CHOOSE k \in 0..9 : <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[k + 1] = c
Units == [K |-> 1, M |-> 2, G |-> 3, T |-> 4]
NoB(s) == IF Len(s) > 0 /\ s[Len(s)] = "B" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
UnitOf(s) == IF Len(s) > 0 /\ s[Len(s)] \in DOMAIN Units THEN Units[s[Len(s)]] ELSE 0
NumPart(s) == IF UnitOf(s) > 0 THEN SubSeq(s, 1, Len(s) - 1) ELSE s
WellFormed(s) == LET d == NumPart(NoB(s)) IN Len(d) > 0 /\ \A k \in 1..Len(d) : d[k] \in Digit
RECURSIVE Num(_, _)
Num(d, n) == IF n = 0 THEN 0 ELSE 10 * Num(d, n - 1) + DVal(d[n])
RECURSIVE Base1024(_)
Base1024(n) == IF n = 0 THEN <<>> ELSE <<n % 1024>> \o Base1024(n \div 1024)
RECURSIVE Trim(_)
Trim(s) == IF Len(s) > 0 /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
\* Value as base 1024 digits, least significant first.
SizeOf(s) == LET d == NumPart(NoB(s)) IN
  Trim([k \in 1..UnitOf(NoB(s)) |-> 0] \o Base1024(Num(d, Len(d))))

\* Formatting: the largest unit (up to T) the value exceeds, in tenths, rounded.
IsZeroBelow(d, k) == \A j \in 1..k : j <= Len(d) => d[j] = 0
\* value > 1024^k
Exceeds(d, k) == Len(d) > k + 1 \/ (Len(d) = k + 1 /\ (d[k + 1] > 1 \/ (d[k + 1] = 1 /\ ~IsZeroBelow(d, k))))
FormatUnit(d) == IF Exceeds(d, 4) THEN 4 ELSE IF Exceeds(d, 3) THEN 3 ELSE IF Exceeds(d, 2) THEN 2 ELSE IF Exceeds(d, 1) THEN 1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Top(d, k) == IF Len(d) = k + 2 THEN d[k + 1] + 1024 * d[k + 2] ELSE d[k + 1]
FormatOK(d, unit, tenths) ==
  LET k == FormatUnit(d) IN
  /\ unit = k
  /\ IF k = 0 THEN tenths = 10 * (IF Len(d) = 0 THEN 0 ELSE IF Len(d) = 1 THEN d[1] ELSE d[1] + 1024 * d[2])
     ELSE Abs(1024 * tenths - (10240 * Top(d, k) + 10 * d[k])) <= 523
=============================================================================
