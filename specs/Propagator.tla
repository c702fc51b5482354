------------------------------- MODULE Propagator -------------------------------
(* Propagation: every propagator applies exp(-i H dt) (its inverse when backward) of
   the Hamiltonian it was given, whatever its type, for every initial state.

   A Hamiltonian part acts on the n components of a vector as
        (K x)[a] = k[a] x[a] + m[a] x[p[a]],      p an involution, k, m constant on its pairs
   in units of a quarter turn per sc time steps: one time step applies exp(-i (pi/2)(K/sc)).
   The exponential is then known exactly, and maps complex integers to complex integers
   whenever a whole number of quarter turns has passed.  A wave function is therefore kept
   as complex integers x plus the half steps still pending, part by part.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES pt,   \* part id -> [k, m, p, lz] (lz = <<>>: not time dependent)
          wf,   \* wave function id -> [x, pend]; pend: <<part, field value>> -> half steps
          up,   \* propagator id -> [ps: sequence of <<part, half steps>>, dir, ready]
          sc,   \* time steps per quarter turn
          now   \* clock
vars == <<pt, wf, up, sc, now>>

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
\* (-i)^j, cos and sin of j quarter turns
Quarter(j) == CASE j % 4 = 0 -> <<1, 0>> [] j % 4 = 1 -> <<0, -1>> [] j % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, 1>>
Cos(j) == CASE j % 4 = 0 -> 1 [] j % 4 = 2 -> -1 [] OTHER -> 0
Sin(j) == CASE j % 4 = 1 -> 1 [] j % 4 = 3 -> -1 [] OTHER -> 0

\* exp(-i (pi/2) (jk + jm P)) applied to x, where jk, jm are numbers of quarter turns per component
Turn(o, q, x) ==
  TLCEval([a \in 1..Len(x) |->
     LET jk == (q * o.k[a]) \div (2 * sc) jm == (q * o.m[a]) \div (2 * sc)
     IN CMul(Quarter(jk), CAdd(CMul(<<Cos(jm), 0>>, x[a]), CMul(<<0, -Sin(jm)>>, x[o.p[a]])))])
Exact(o, q) == \A a \in 1..Len(o.k) : (q * o.k[a]) % (2 * sc) = 0 /\ (q * o.m[a]) % (2 * sc) = 0
\* A part as it stands at time t.
At(o, t) == IF o.lz = <<>> THEN o ELSE [o EXCEPT !.k = [a \in 1..Len(o.k) |-> -o.lz[t + 1] * o.k[a]],
                                                 !.m = [a \in 1..Len(o.m) |-> -o.lz[t + 1] * o.m[a]]]
None == [h \in {} |-> 0]
Clean(w) == w.pend = None
\* q half steps of part h are applied; pending ones commute with it (same pairing).
Add(w, h, q, t) ==
  LET o == At(pt[h], t)
      key == <<h, IF pt[h].lz = <<>> THEN 0 ELSE t>>
      r == q + (IF key \in DOMAIN w.pend THEN w.pend[key] ELSE 0)
      rest == [j \in DOMAIN w.pend \ {key} |-> w.pend[j]]
  IN IF Exact(o, r) THEN [x |-> Turn(o, r, w.x), pend |-> TLCEval(rest)]
     ELSE [x |-> w.x, pend |-> TLCEval(rest @@ (key :> r))]
RECURSIVE Steps(_, _, _, _, _)
Steps(w, ps, dir, t, i) == IF i > Len(ps) THEN w ELSE Steps(Add(w, ps[i][1], dir * ps[i][2], t), ps, dir, t, i + 1)
Propagated(w, u, t) == Steps(w, up[u].ps, up[u].dir, t, 1)
\* squared norm
RECURSIVE N2(_, _)
N2(x, k) == IF k = 0 THEN 0 ELSE N2(x, k - 1) + x[k][1]*x[k][1] + x[k][2]*x[k][2]
Norm2(w) == N2(w.x, Len(w.x))
Commute(w, u) == \A h \in DOMAIN w.pend : \A i \in 1..Len(up[u].ps) : pt[h[1]].p = pt[up[u].ps[i][1]].p

Apply(u, i) == /\ up[u].ready /\ Commute(wf[i], u)
               /\ wf' = [wf EXCEPT ![i] = Propagated(wf[i], u, now)] /\ UNCHANGED <<pt, up, sc, now>>
ApplyTo(u, d, s) == /\ up[u].ready /\ Commute(wf[s], u)
                    /\ wf' = [wf EXCEPT ![d] = Propagated(wf[s], u, now)] /\ UNCHANGED <<pt, up, sc, now>>
Turned(u, dir) == up' = [up EXCEPT ![u].dir = dir] /\ UNCHANGED <<pt, wf, sc, now>>
================================================================================
