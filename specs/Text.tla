-------------------------------- MODULE Text --------------------------------
(* Strings as sequences of characters. *)
EXTENDS Integers, Sequences, TLC
Ch(s, i) == SubSeq(s, i, i)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxIn(S) == CHOOSE x \in S : \A y \in S : x >= y
\* first position of character c, 0 if there is none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE FindFrom(s, c, i + 1)
Find(s, c) == FindFrom(s, c, 1)
Blank == {" ", "\t"}
RECURSIVE LTrim(_)
LTrim(s) == IF s # "" /\ Ch(s, 1) \in Blank THEN LTrim(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE RTrim(_)
RTrim(s) == IF s # "" /\ Ch(s, Len(s)) \in Blank THEN RTrim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == RTrim(LTrim(s))
RECURSIVE Split(_, _)
Split(s, c) == LET p == Find(s, c) IN
  IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o Split(SubSeq(s, p + 1, Len(s)), c)
RECURSIVE Join(_, _)
Join(q, c) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o c \o Join(Tail(q), c)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Digit(c) == CHOOSE k \in 0..9 : <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>[k + 1] = c
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : Ch(s, i) \in Digits
RECURSIVE DigitsVal(_, _)
DigitsVal(s, acc) == IF s = "" THEN acc ELSE DigitsVal(SubSeq(s, 2, Len(s)), acc * 10 + Digit(Ch(s, 1)))
\* decimal integers of up to nine digits
IsInt(s) == LET t == IF s # "" /\ Ch(s, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s IN AllDigits(t) /\ Len(t) <= 9
IntVal(s) == IF Ch(s, 1) = "-" THEN -DigitsVal(SubSeq(s, 2, Len(s)), 0) ELSE DigitsVal(s, 0)
=============================================================================
