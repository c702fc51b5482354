------------------------------- MODULE QDClock -------------------------------
(* Simulation clocks.  A clock holds a step length, a number of steps and the
   current step; all lengths are integer multiples of one unit of time, so that
   time is an exact integer here.  Clock 0 is the global one, it exists on first
   use and starts anew after it has been destroyed. *)
EXTENDS Integers, TLC
VARIABLE clk          \* id -> [dt, n, s]
Fresh == [dt |-> 0, n |-> 0, s |-> 0]
Time(c) == c.s * c.dt
Has(i) == i \in DOMAIN clk
With(i, c) == (i :> c) @@ clk
CInit == clk = <<>>
New(i, n, dt) == clk' = With(i, [dt |-> dt, n |-> n, s |-> 0])
\* asking for the global clock creates it when there is none
Global == clk' = IF Has(0) THEN clk ELSE With(0, Fresh)
Destroy == clk' = [i \in DOMAIN clk \ {0} |-> clk[i]]
SetDt(i, d) == clk' = [clk EXCEPT ![i].dt = d]
SetN(i, n) == clk' = [clk EXCEPT ![i].n = n]
SetStep(i, s) == clk' = [clk EXCEPT ![i].s = s]
Begin(i) == SetStep(i, 0)
End(i) == SetStep(i, clk[i].n - 1)
Inc(i) == SetStep(i, clk[i].s + 1)
Dec(i) == SetStep(i, clk[i].s - 1)
Assign(i, j) == clk' = [clk EXCEPT ![i] = clk[j]]
\* i takes over the time of m, possible only when that is a whole number of its own steps
Abs(x) == IF x < 0 THEN -x ELSE x
CanSync(i, m) == clk[i].dt # 0 /\ Abs(Time(clk[m])) % Abs(clk[i].dt) = 0
Quot(a, b) == (IF (a < 0) = (b < 0) THEN 1 ELSE -1) * (Abs(a) \div Abs(b))
Sync(i, m) == CanSync(i, m) /\ SetStep(i, Quot(Time(clk[m]), clk[i].dt))
NoSync(i, m) == ~CanSync(i, m) /\ UNCHANGED clk
=============================================================================
