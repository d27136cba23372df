-------------------------------- MODULE Stop --------------------------------
(* When a training run ends.  The losses are a given sequence (in quanta); the run records one  *)
(* loss per step and stops when the allowed number of steps is reached (0: no limit) or when     *)
(* the loss varied by less than the threshold, in total, over its last 20 values.                *)
EXTENDS Rng, Json
CONSTANTS Base, N, Runs
VARIABLES seed, run, hist, done, trace
vars == <<seed, run, hist, done, trace>>
W == 20
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Var(_, _)
Var(h, k) == IF k = 0 THEN 0 ELSE Abs(h[Len(h) - k + 1] - h[Len(h) - k]) + Var(h, k - 1)
Stable(h, thr) == Len(h) >= W /\ Var(h, W - 1) < thr
Full(h, max) == max > 0 /\ Len(h) >= max

\* plateaus of about the length of the window, slow drifts whose variation is about the threshold,
\* oscillations (small net change, large variation), and a tail that is constant for long enough
Seg(s, i, x) ==
  LET k == R(s, i, 6)
      n == Pick(s, i + 1, <<1, 3, 10, 18, 19, 20, 21>>)
  IN CASE k = 0 -> [j \in 1..n |-> x]
       [] k = 1 -> [j \in 1..n |-> x + j]
       [] k = 2 -> [j \in 1..n |-> x - j]
       [] k = 3 -> [j \in 1..n |-> x + (j % 2)]
       [] k = 4 -> [j \in 1..n |-> IF j = 1 THEN x + Rng(s, i + 2, -60, 60) ELSE x]
       [] OTHER -> [j \in 1..n |-> x + 5 * ((j % 3) - 1)]
RECURSIVE Tab(_, _, _)
Tab(s, i, k) == IF k = 0 THEN << Rng(s, 1, -5, 5) >>
                ELSE LET t == Tab(s, i + 5, k - 1) IN t \o Seg(s, i, t[Len(t)])
MkRun(s) == LET t == TLCEval(Tab(s, 10, Rng(s, 2, 1, 5)))
                thr == Pick(s, 3, <<1, 1, 2, 10, 19, 20, 38, 60, 0>>)
                lim == IF thr = 0 THEN 1 + R(s, 4, 45) ELSE Pick(s, 5, <<0, 0, 1, 2, 19, 20, 21, 22, 40, 80, 1000>>)
            IN [tab |-> t \o [j \in 1..25 |-> t[Len(t)]], thr |-> thr, max |-> lim, bar |-> Coin(s, 6, 15), fresh |-> Coin(s, 7, 30)]
Init == /\ \E s \in Seeds(Base, N) : seed = s /\ run = MkRun(s)
        /\ hist = <<>> /\ done = FALSE /\ trace = <<>>
At(n) == run.tab[IF n > Len(run.tab) THEN Len(run.tab) ELSE n]
Step == /\ ~done
        /\ IF Full(hist, run.max) \/ Stable(hist, run.thr)
           THEN done' = TRUE /\ trace' = Append(trace, [run |-> run, hist |-> hist]) /\ UNCHANGED <<seed, run, hist>>
           ELSE hist' = Append(hist, At(Len(hist) + 1)) /\ UNCHANGED <<seed, run, done, trace>>
Again == /\ done /\ Len(trace) < Runs
         /\ seed' = NextSeed(seed) /\ \E s \in {seed'} : run' = MkRun(s)
         /\ hist' = <<>> /\ done' = FALSE /\ UNCHANGED trace
Next == Step \/ Again
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
-----------------------------------------------------------------------------
Bounded == run.max > 0 => Len(hist) <= run.max
\* no run ends early: a shorter record than the limit is a stable one, and no proper prefix was
Earned == done => /\ Full(hist, run.max) \/ Stable(hist, run.thr)
                  /\ Len(hist) > 0
                  /\ \A k \in 1..(Len(hist) - 1) : ~Stable(SubSeq(hist, 1, k), run.thr)
Ends == <>[](done /\ Len(trace) = Runs)
Emit == (done /\ Len(trace) = Runs) => PrintT("@@" \o ToJson([runs |-> trace]))
=============================================================================
