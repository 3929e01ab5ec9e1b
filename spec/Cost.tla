--------------------------------- MODULE Cost --------------------------------
(* What an automaton and searching it may cost (C28).                        *)
EXTENDS Integers, Sequences

\* An automaton for n tokens: at most this many states and transitions.
MostStates(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 2 ELSE 2 * n - 1
MostEdges(n) == IF n < 2 THEN n ELSE IF n = 2 THEN 3 ELSE 3 * n - 4

\* points: measurements [n, states, edges, steps, touched] at growing n. The steps
\* per token must not grow with n: a constant factor is for whatever is not
\* yet at work in the smallest.
Factor == 3
PerToken(p, x) == \A i \in DOMAIN p : i > 1 => x[i] * p[1].n <= Factor * x[1] * p[i].n

\* times: << n, tenths of microseconds per token >>, at two sizes.  Only what is far
\* slower per token, and slow, is not linear.
SlowPerToken == 1500
Far == 8

CostClauses(points, peaks, times) ==
  [states  |-> \A i \in DOMAIN points : points[i].states <= MostStates(points[i].n),
   edges   |-> \A i \in DOMAIN points : points[i].edges <= MostEdges(points[i].n),
   steps   |-> PerToken(points, [i \in DOMAIN points |-> points[i].steps]),
   touched |-> PerToken(points, [i \in DOMAIN points |-> points[i].touched]),
   memory  |-> \A i \in DOMAIN peaks : i > 1 =>
                 peaks[i][2] \div 64 <= (Factor * (peaks[1][2] \div 64)) * (peaks[i][1] \div peaks[1][1]),
   time    |-> \A i \in DOMAIN times :
                 times[i][2] <= SlowPerToken \/ times[i][2] <= Far * times[1][2]]
=============================================================================
