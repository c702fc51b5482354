------------------------------- MODULE ChainMC -------------------------------
(* Sessions of a few definitions in every order. *)
EXTENDS Chain
CONSTANT MaxDefs
VARIABLE n
D(k, name, key, ch) == [k |-> k, name |-> name, key |-> key, ref |-> "", file |-> "", z |-> <<1, 0>>, zero |-> FALSE, off |-> 0, sc |-> 1,
                        one |-> FALSE, nonh |-> FALSE, ch |-> ch]
Mat(name, key) == [D("mat", name, key, <<>>) EXCEPT !.file = "M"]
Scal(name, key, z) == [D("scal", name, key, <<>>) EXCEPT !.z = z]
Ref(name, r) == [D("ref", name, "", <<>>) EXCEPT !.ref = r]
Pool == {Mat("a", "A"), Scal("b", "B", <<0, 2>>), D("sum", "s", "S", <<Ref("x", "A"), Ref("y", "B")>>),
         D("prod", "p", "P", <<Mat("x", ""), Scal("y", "Q", <<3, 0>>)>>), D("sum", "s", "Z", <<Mat("x", "A")>>),
         [D("ms", "m", "H", <<Mat("m0.0", "T"), Ref("m1.0", "T")>>) EXCEPT !.one = TRUE],
         D("ms", "m", "", <<Mat("m.0", "")>>), D("ms", "m", "", <<>>), D("unknown", "u", "", <<>>),
         [D("ms", "m", "G", <<Ref("m0.1", "A")>>) EXCEPT !.nonh = TRUE]}
W(k, name, key, ch) == [k |-> k, name |-> name, key |-> key, file |-> "", norm |-> FALSE, ph |-> <<>>, co |-> <<>>, c2 |-> <<>>,
                        st |-> 0, map |-> <<>>, cs |-> <<>>, ch |-> ch]
F(name, key, f) == [W("file", name, key, <<>>) EXCEPT !.file = f]
WPool == {F("w", "u", "f"), [F("w", "v", "g") EXCEPT !.norm = TRUE, !.ph = <<1>>], W("lc", "l", "l", <<F("a", "", "f"), [F("b", "", "g") EXCEPT !.co = <<2>>]>>),
          [W("ms", "m", "m", <<F("wf2", "", "f"), F("wf0", "k", "g")>>) EXCEPT !.st = 2],
          [W("map", "r", "r", <<W("ms", "m", "", <<F("wf0", "", "f"), F("wf1", "", "g")>>)>>) EXCEPT !.map = <<1, 0>>, !.cs = <<4, -8>>],
          [W("map", "r", "e", <<F("a", "", "f")>>) EXCEPT !.map = <<0>>], [F("w", "c", "f") EXCEPT !.c2 = <<-1>>], F("w", "u", "none"), W("lc", "l", "", <<>>)}
Init == /\ CInit /\ n = 0
Files1 == files' = [i \in {"M", "f", "g"} |-> IF i = "M" THEN <<1, 2, 2, 5>> ELSE IF i = "f" THEN [s |-> 0, x |-> <<<<64, 0>>, <<0, 0>>>>]
                                              ELSE [s |-> 0, x |-> <<<<0, 0>>, <<128, 0>>>>]] /\ UNCHANGED <<ops, wfs, lost>>
Prepare == n = 0 /\ n' = 1 /\ Files1
Space(d) == IF d.k = "ms" THEN 2 ELSE 0
Op == /\ n \in 1..MaxDefs /\ n' = n + 1
      /\ \E d \in Pool : LET r == Register(d, ops)
                            x == IF r.ok /\ ~Empty(d) THEN Matrix(r.o, d, Space(d), 2) ELSE Undef
                        IN DefOp(d, Space(d), 2, IF ~r.ok \/ Empty(d) THEN "error" ELSE "", x)
Wf == /\ n \in 1..MaxDefs /\ n' = n + 1
      /\ \E d \in WPool : LET r == WF(d, -1, wfs) w == r[1]
                          IN DefWF(d, -1, IF w.ok THEN "" ELSE "error", w.s, w.x, <<>>)
Next == Prepare \/ Op \/ Wf
Spec == Init /\ [][Next]_<<cvars, n>>
(* What each key denotes, written down by hand: whatever else was defined, and in any order. *)
R(q) == [a \in 1..Len(q) |-> [b \in 1..Len(q) |-> <<q[a][b], 0>>]]
Meaning(k) ==
  CASE k \in {"A", "T"} -> R(<<<<1, 2>>, <<2, 5>>>>)
    [] k = "B" -> <<<<<<0, 2>>, <<0, 0>>>>, <<<<0, 0>>, <<0, 2>>>>>>
    [] k = "S" -> <<<<<<1, 2>>, <<2, 0>>>>, <<<<2, 0>>, <<5, 2>>>>>>
    [] k = "P" -> R(<<<<3, 6>>, <<6, 15>>>>)
    [] k = "Z" -> R(<<<<1, 2>>, <<2, 5>>>>)
    [] k = "Q" -> R(<<<<3, 0>>, <<0, 3>>>>)
    [] k = "H" -> R(<<<<1, 2, 1, 2>>, <<2, 5, 2, 5>>, <<1, 2, 1, 0>>, <<2, 5, 0, 1>>>>)
    [] OTHER -> R(<<<<0, 0, 1, 2>>, <<0, 0, 2, 5>>, <<0, 0, 0, 0>>, <<0, 0, 0, 0>>>>)
C(q) == [i \in 1..Len(q) |-> <<q[i], 0>>]
Content(k) ==
  CASE k = "u" -> [s |-> 0, x |-> C(<<64, 0>>)]
    [] k = "v" -> [s |-> 0, x |-> <<<<0, 0>>, <<0, 64>>>>]
    [] k = "l" -> [s |-> 0, x |-> C(<<64, 64>>)]
    [] k = "k" -> [s |-> 0, x |-> C(<<0, 128>>)]
    [] k = "m" -> [s |-> 3, x |-> C(<<0, 128, 0, 0, 64, 0>>)]
    [] OTHER -> [s |-> 2, x |-> C(<<0, 128, -128, 0>>)]
Means == \A k \in DOMAIN ops : Matrix(ops, ops[k], IF ops[k].k = "ms" THEN 2 ELSE 0, 2) = Meaning(k)
Holds == \A k \in DOMAIN wfs : wfs[k].s = Content(k).s /\ wfs[k].x = Content(k).x /\ ~wfs[k].un
\* a key keeps what it denotes
Stable == [][(\A k \in DOMAIN ops : k \in DOMAIN ops' /\ ops'[k] = ops[k]) /\ (\A k \in DOMAIN wfs : k \in DOMAIN wfs' /\ wfs'[k] = wfs[k])]_<<cvars, n>>
Seen(k, name, c) == IF c /\ TLCGet(k) # 1 THEN TLCSet(k, 1) /\ PrintT(<<"SEEN", name>>) ELSE TRUE
Marks == Seen(1, "summed", "S" \in DOMAIN ops) /\ Seen(2, "filled", "H" \in DOMAIN ops) /\ Seen(3, "rejected", lost # {})
         /\ Seen(4, "mapped", "r" \in DOMAIN wfs) /\ Seen(5, "combined", "l" \in DOMAIN wfs) /\ Seen(6, "normalised", "v" \in DOMAIN wfs)
InitM == Init /\ \A k \in 1..6 : TLCSet(k, 0)
SpecM == InitM /\ [][Next]_<<cvars, n>>
=============================================================================
