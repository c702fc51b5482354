------------------------------- MODULE Simple -------------------------------
(* The simplified input language: its tokens, its grammar as a push-down     *)
(* reader, and what a complete text denotes - a sequence of XML tags.        *)
EXTENDS Text, FiniteSets

----------------------------------------------------------------------------
(* Tokens *)
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Capitals == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
AlNum == Letters \cup Capitals \cup Digits
IdChars == AlNum \cup {".", "-", "_", ":"}
VarChars == AlNum \cup {"_"}
StrChars == AlNum \cup {"-", ".", ",", "/", "_", "+", ":", ";", "#", "%", " ", "\t", "~", "<", ">", "^", "&"}
White == {" ", "\t", "\r", "\n"}
Tok(k, v) == [k |-> k, v |-> v]
\* the first position from i on which does not hold a character of S
RECURSIVE Past(_, _, _)
Past(s, i, S) == IF i <= Len(s) /\ Ch(s, i) \in S THEN Past(s, i + 1, S) ELSE i
RECURSIVE LineEnd(_, _)
LineEnd(s, i) == IF i > Len(s) \/ Ch(s, i) = "\n" THEN i ELSE LineEnd(s, i + 1)
Least(a, b) == IF a < b THEN a ELSE b
\* the longest format starting at the percent sign i: its end, or i
FmtEnd(s, i) ==
  LET w == Least(Past(s, i + 1, Digits), i + 4)
      p == IF w <= Len(s) /\ Ch(s, w) = "." THEN Least(Past(s, w + 1, Digits), w + 4) ELSE w
  IN IF p <= Len(s) /\ Ch(s, p) \in {"f", "d", "s"} THEN p + 1 ELSE i
\* the token at i: <<token, next position>>
TokenAt(s, i) ==
  LET c == Ch(s, i)
      bad == <<Tok("bad", c), i + 1>>
  IN CASE c = "{" -> <<Tok("sec", ""), i + 1>>
       [] c = "}" -> <<Tok("end", ""), i + 1>>
       [] c = "=" -> <<Tok("eq", ""), i + 1>>
       [] c = "~" -> <<Tok("cat", ""), i + 1>>
       [] c = "#" -> <<Tok("com", ""), LineEnd(s, i)>>
       [] c \in IdChars -> LET e == Past(s, i, IdChars)
                               v == SubSeq(s, i, e - 1)
                           IN <<Tok(IF v = "for" THEN "for" ELSE "id", v), e>>
       [] c = "\"" -> LET e == Past(s, i + 1, StrChars)
                      IN IF e > i + 1 /\ e <= Len(s) /\ Ch(s, e) = "\"" THEN <<Tok("str", SubSeq(s, i + 1, e - 1)), e + 1>> ELSE bad
       [] c = "$" -> LET e == Past(s, i + 1, VarChars)
                         q == Past(s, i + 2, VarChars)
                     IN IF e > i + 1 THEN <<Tok("def", SubSeq(s, i + 1, e - 1)), e>>
                        ELSE IF i < Len(s) /\ Ch(s, i + 1) = "(" /\ q > i + 2 /\ q <= Len(s) /\ Ch(s, q) = ")"
                             THEN <<Tok("ref", SubSeq(s, i + 2, q - 1)), q + 1>> ELSE bad
       [] c = "%" -> IF FmtEnd(s, i) > i THEN <<Tok("fmt", SubSeq(s, i, FmtEnd(s, i) - 1)), FmtEnd(s, i)>> ELSE bad
       [] OTHER -> bad
RECURSIVE Lex(_, _, _)
Lex(s, i, acc) ==
  LET j == Past(s, i, White) IN
  IF j > Len(s) THEN acc
  ELSE LET t == TLCEval(TokenAt(s, j)) IN Lex(s, t[2], TLCEval(Append(acc, t[1])))
Tokens(s) == Lex(s, 1, <<>>)

----------------------------------------------------------------------------
(* Numbers: n in units of 10^-d; n may be zero with a sign *)
RECURSIVE Ten(_)
Ten(d) == IF d <= 0 THEN 1 ELSE 10 * Ten(d - 1)
Abs(n) == IF n < 0 THEN -n ELSE n
NoNum == [ok |-> FALSE, n |-> 0, d |-> 0]
Number(s) ==
  LET neg == s # "" /\ Ch(s, 1) = "-"
      t == IF neg THEN SubSeq(s, 2, Len(s)) ELSE s
      p == Find(t, ".")
      ip == IF p = 0 THEN t ELSE SubSeq(t, 1, p - 1)
      fp == IF p = 0 THEN "" ELSE SubSeq(t, p + 1, Len(t))
      n == DigitsVal(ip \o fp, 0)
  IN IF (ip \o fp) = "" \/ ~AllDigits(ip \o fp) \/ Len(ip \o fp) > 9 THEN NoNum
     ELSE [ok |-> TRUE, n |-> IF neg THEN -n ELSE n, d |-> Len(fp)]
Finer(x, d) == x.n * Ten(d - x.d)
RECURSIVE PadL(_, _, _)
PadL(s, n, c) == IF Len(s) >= n THEN s ELSE PadL(c \o s, n, c)
RECURSIVE PadR(_, _, _)
PadR(s, n, c) == IF Len(s) >= n THEN s ELSE PadR(s \o c, n, c)
RECURSIVE Drop0(_)
Drop0(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN Drop0(SubSeq(s, 1, Len(s) - 1)) ELSE s
Whole(n, d) == ToString(Abs(n) \div Ten(d))
Frac(n, d) == IF d = 0 THEN "" ELSE PadL(ToString(Abs(n) % Ten(d)), d, "0")
Sign(n) == IF n < 0 THEN "-" ELSE ""
\* as a loop variable holds it
Short(n, d) == Sign(n) \o Whole(n, d) \o (IF Drop0(Frac(n, d)) = "" THEN "" ELSE "." \o Drop0(Frac(n, d)))
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
\* The values of the range: begin, begin + step, ... not past end.
Values(b, e, s) ==
  LET d == MaxIn({b.d, e.d, s.d})
      B == Finer(b, d)
      S == Finer(s, d)
      n == FloorDiv(Finer(e, d) - B, S)
  IN IF n < 0 THEN <<>> ELSE [k \in 1..(n + 1) |-> Short(B + (k - 1) * S, d)]

----------------------------------------------------------------------------
(* Inserting a variable; un: no statement about the text *)
Ins(ok, t, un) == [ok |-> ok, t |-> t, un |-> un]
FmtOf(f) ==
  LET body == SubSeq(f, 2, Len(f) - 1)
      p == Find(body, ".")
      w == IF p = 0 THEN body ELSE SubSeq(body, 1, p - 1)
      q == IF p = 0 THEN "" ELSE SubSeq(body, p + 1, Len(body))
  IN [c |-> Ch(f, Len(f)), zero |-> w # "" /\ Ch(w, 1) = "0", w |-> DigitsVal(w, 0), prec |-> p # 0, p |-> DigitsVal(q, 0)]
Wide(sgn, digits, f, zero) ==
  IF zero THEN sgn \o PadL(digits, f.w - Len(sgn), "0") ELSE PadL(sgn \o digits, f.w, " ")
IntPrefix(s) == LET m == IF s # "" /\ Ch(s, 1) = "-" THEN 2 ELSE 1 IN SubSeq(s, 1, Past(s, m, Digits) - 1)
Insert(val, fmt) ==
  IF fmt = "" \/ fmt = "%s" THEN Ins(TRUE, val, FALSE)
  ELSE LET f == FmtOf(fmt)
           num == LTrim(val)      \* numbers may be padded
           x == Number(num)
           i == IntPrefix(num)
  IN CASE f.c = "s" -> Ins(TRUE, PadL(IF f.prec /\ f.p < Len(val) THEN SubSeq(val, 1, f.p) ELSE val, f.w, " "), f.zero)
       [] f.c = "d" ->
            IF i = "" \/ i = "-" THEN IF num # "" /\ Ch(num, 1) = "+" THEN Ins(TRUE, "", TRUE) ELSE Ins(FALSE, "", FALSE)
            ELSE IF Len(i) > 9 THEN Ins(TRUE, "", TRUE)
            ELSE LET n == IntVal(i)
                     dg == IF f.prec /\ f.p = 0 /\ n = 0 THEN "" ELSE PadL(ToString(Abs(n)), IF f.prec THEN f.p ELSE 1, "0")
                 IN Ins(TRUE, Wide(Sign(n), dg, f, f.zero /\ ~f.prec), ~x.ok)
       [] OTHER ->
            IF ~x.ok THEN IF num # "" /\ Ch(num, 1) \in Digits \cup {"-", "+", ".", "i", "n", "I", "N"}
                          THEN Ins(TRUE, "", TRUE)      \* long numbers, exponents
                          ELSE Ins(FALSE, "", FALSE)
            ELSE LET p == IF f.prec THEN f.p ELSE 6
                     cut == x.d > p
                     unit == Ten(x.d - p)
                     tie == cut /\ 2 * (Abs(x.n) % unit) = unit
                     m == IF cut THEN (2 * Abs(x.n) + unit) \div (2 * unit) ELSE Abs(x.n)
                     d == IF cut THEN p ELSE x.d
                     fr == PadR(Frac(m, d), p, "0")
                     t == Whole(m, d) \o (IF p = 0 THEN "" ELSE "." \o fr)
                     neg == Ch(num, 1) = "-"
                 IN Ins(TRUE, Wide(IF neg THEN "-" ELSE "", t, f, f.zero), tie)

----------------------------------------------------------------------------
(* The push-down reader.  Open blocks are frames; a frame collects items.    *)
(* want: what may come next.                                                 *)
Frame(k, n, a) == [k |-> k, n |-> n, a |-> a, items |-> <<>>]
Start == [want |-> "line", name |-> "", acc |-> <<>>, args |-> <<>>, stack |-> <<Frame("top", "", <<>>)>>, bad |-> FALSE]
Bad(p) == [p EXCEPT !.bad = TRUE]
TopOf(p) == p.stack[Len(p.stack)]
AddItem(p, it) == [p EXCEPT !.stack[Len(p.stack)].items = Append(@, it)]
Item(k, n, v, body) == [k |-> k, n |-> n, v |-> v, body |-> body]
\* a complete value: the definition or attribute is done
Done(p) == LET q == AddItem(p, Item(p.args[1], p.name, p.acc, <<>>)) IN [q EXCEPT !.want = "line", !.acc = <<>>, !.args = <<>>, !.name = ""]
Push(p, fr) == [p EXCEPT !.stack = Append(@, fr), !.want = "line", !.args = <<>>, !.name = ""]
Pop(p) ==
  LET n == Len(p.stack)
      f == p.stack[n]
      q == [p EXCEPT !.stack = SubSeq(p.stack, 1, n - 1)]
  IN IF n = 1 THEN Bad(p) ELSE AddItem(q, Item(f.k, f.n, f.a, f.items))
ReadLine(p, t) ==
  CASE t.k = "com" -> p
    [] t.k = "id" -> [p EXCEPT !.want = "head", !.name = t.v]
    [] t.k = "def" -> [p EXCEPT !.want = "eq", !.name = t.v, !.args = <<"set">>]
    [] t.k = "for" -> [p EXCEPT !.want = "loopvar"]
    [] t.k = "end" -> Pop(p)
    [] OTHER -> Bad(p)
Read(p, t) ==
  IF p.bad THEN p
  ELSE CASE p.want = "line" -> ReadLine(p, t)
    [] p.want = "head" ->
         IF t.k = "sec" THEN Push(p, Frame("el", p.name, <<>>))
         ELSE IF t.k = "eq" /\ TopOf(p).k = "el" THEN [p EXCEPT !.want = "val", !.args = <<"att">>]
         ELSE Bad(p)
    [] p.want = "eq" -> IF t.k = "eq" THEN [p EXCEPT !.want = "val"] ELSE Bad(p)
    [] p.want = "val" ->
         IF t.k \in {"id", "str"} THEN [p EXCEPT !.want = "cat", !.acc = Append(@, [v |-> FALSE, t |-> t.v, f |-> ""])]
         ELSE IF t.k = "ref" THEN [p EXCEPT !.want = "fmt", !.acc = Append(@, [v |-> TRUE, t |-> t.v, f |-> ""])]
         ELSE Bad(p)
    [] p.want \in {"cat", "fmt"} ->
         IF p.want = "fmt" /\ t.k = "fmt" THEN [p EXCEPT !.want = "cat", !.acc[Len(p.acc)].f = t.v]
         ELSE IF t.k = "cat" THEN [p EXCEPT !.want = "val"]
         ELSE ReadLine(Done(p), t)
    [] p.want = "loopvar" -> IF t.k = "def" THEN [p EXCEPT !.want = "loopeq", !.name = t.v] ELSE Bad(p)
    [] p.want = "loopeq" -> IF t.k = "eq" THEN [p EXCEPT !.want = "range"] ELSE Bad(p)
    [] OTHER ->
         IF t.k = "id" /\ Len(p.args) < 3 THEN [p EXCEPT !.args = Append(@, t.v)]
         ELSE IF t.k = "sec" /\ Len(p.args) >= 2 /\ \A i \in DOMAIN p.args : Number(p.args[i]).ok
              THEN Push(p, Frame("for", p.name, p.args)) ELSE Bad(p)
RECURSIVE ReadAll(_, _, _)
ReadAll(p, toks, i) == IF i > Len(toks) THEN p ELSE ReadAll(TLCEval(Read(p, toks[i])), toks, i + 1)
\* the end of the text
Finish(p) == IF p.want = "line" THEN p ELSE IF p.want \in {"cat", "fmt"} THEN Done(p) ELSE Bad(p)
Complete(p) == ~Finish(p).bad /\ Len(p.stack) = 1
Program(p) == Finish(p).stack[1].items

----------------------------------------------------------------------------
(* What items denote: env holds the variables, the tags written, and whether *)
(* there was an error or nothing is said about the result.                   *)
Tag(t, n, a) == [t |-> t, n |-> n, a |-> a]
Env0 == [vars |-> <<>>, out |-> <<>>, atts |-> <<>>, err |-> FALSE, un |-> FALSE]
\* variables are a sequence of pairs; the first one of a name counts
RECURSIVE Look(_, _, _)
Look(vs, n, i) == IF i > Len(vs) THEN 0 ELSE IF vs[i][1] = n THEN i ELSE Look(vs, n, i + 1)
SetVar(env, n, t) == LET i == Look(env.vars, n, 1) IN
  IF i = 0 THEN [env EXCEPT !.vars = Append(@, <<n, t>>)] ELSE [env EXCEPT !.vars[i] = <<n, t>>]
RECURSIVE ValueOf(_, _, _, _)
ValueOf(env, acc, i, r) ==
  IF i > Len(acc) \/ ~r.ok THEN r
  ELSE LET part == acc[i]
           k == Look(env.vars, part.t, 1)
           x == IF ~part.v THEN Ins(TRUE, part.t, FALSE)
                ELSE IF k = 0 THEN Ins(FALSE, "", FALSE) ELSE Insert(env.vars[k][2], part.f)
       IN ValueOf(env, acc, i + 1, TLCEval(Ins(x.ok, r.t \o x.t, r.un \/ x.un)))
Value(env, acc) == ValueOf(env, acc, 1, Ins(TRUE, "", FALSE))
RECURSIVE Exec(_, _, _), Loop(_, _, _, _)
Exec(env, items, i) ==
  IF i > Len(items) \/ env.err THEN env
  ELSE LET it == items[i]
           v == TLCEval(Value(env, it.v))
           e1 == [env EXCEPT !.err = ~v.ok, !.un = @ \/ v.un]
           r == TLCEval(CASE it.k = "set" -> SetVar(e1, it.n, v.t)
                  [] it.k = "att" -> [e1 EXCEPT !.atts = Append(@, <<it.n, v.t>>)]
                  [] it.k = "for" ->
                       LET s == IF Len(it.v) = 3 THEN Number(it.v[3]) ELSE [ok |-> TRUE, n |-> 1, d |-> 0]
                       IN IF s.n = 0 THEN [env EXCEPT !.err = TRUE]
                          ELSE Loop(env, it, TLCEval(Values(Number(it.v[1]), Number(it.v[2]), s)), 1)
                  [] OTHER ->
                       LET b == TLCEval(Exec([env EXCEPT !.out = <<>>, !.atts = <<>>], it.body, 1))
                       IN [b EXCEPT !.atts = env.atts,
                                    !.out = env.out \o <<Tag("open", it.n, b.atts)>> \o b.out \o <<Tag("close", it.n, <<>>)>>])
       IN Exec(r, items, i + 1)
Loop(env, it, vals, i) ==
  IF i > Len(vals) \/ env.err THEN env
  ELSE Loop(TLCEval(Exec(SetVar(env, it.n, vals[i]), it.body, 1)), it, vals, i + 1)

Rejected == [ok |-> FALSE, out |-> <<>>, un |-> FALSE]
Result(p) ==
  IF ~Complete(p) THEN Rejected
  ELSE LET e == TLCEval(Exec(Env0, Program(p), 1)) IN IF e.err THEN Rejected ELSE [ok |-> TRUE, out |-> e.out, un |-> e.un]
Denotes(text) == Result(ReadAll(Start, Tokens(text), 1))

(* The kind of a file, by its first visible character and the braces *)
TypeOf(empty, first, open, close) ==
  IF empty THEN "EIOError" ELSE IF first = "<" THEN "xml" ELSE IF open /\ close THEN "simple" ELSE "unknown"
=============================================================================
