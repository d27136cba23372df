------------------------------ MODULE Stellar ------------------------------
(* Stellar decompositions: a state is written as a core state followed by a Gaussian operation on some of its   *)
(* modes (the core modes); finding the other modes in the vacuum leaves the core modes of a core state in the   *)
(* vacuum.  So the operation must take the vacuum to the state in which the core modes of the original are left *)
(* when its other modes are found in the vacuum, which is computed here in exact rational phase space.          *)
EXTENDS GaussOps

CONSTANTS Base, N, MaxSteps

VARIABLES seed, st, other, struct, rec, left
vars == <<seed, st, other, struct, rec, left>>
Labels(k) == [i \in 1..k |-> i]
Good(x) == OkM(x.W) /\ OkV(x.m)
Fresh(sg, k) == [modes |-> Labels(k), W |-> sg.W, m |-> sg.m, pure |-> sg.pure, prob |-> <<>>, comp |-> FreshComp(k)]
Rest(x, labs) == SelectSeq(x.modes, LAMBDA l : \A i \in 1..Len(labs) : labs[i] # l)
Vac(k) == [kind |-> "Vacuum", k |-> k, par |-> <<>>, W |-> Ident(2 * k), m |-> ZeroV(2 * k), pure |-> TRUE]
Cond(x, oth) == IF oth = <<>> THEN x ELSE Project(x, Vac(Len(oth)), oth)
Subset(s, i, ms, k) == LET sh == Shuffle(Sub(s, i), ms, 0) IN Insert(SubSeq(sh, 1, k), <<>>)
(* a start: one- and two-mode states side by side; other: the modes that will not be core modes *)
StartOf(s) ==
  LET n == Pick(s, 1, <<1, 2, 2, 2, 2, 3, 3, 3, 4>>)
      pure == Coin(s, 2, 45)
      M == IF n = 1 THEN 1 ELSE IF Coin(s, 3, 8) THEN n ELSE IF n = 4 THEN 2 ELSE 1 + R(s, 4, n - 1)
      core == Subset(s, 5, Labels(n), M)
      two == n >= 2
      a == NewState(Sub(s, 7), IF two THEN 2 ELSE 1, pure)
      b == NewState(Sub(s, 8), IF n = 4 THEN 2 ELSE 1, pure)
      x == Fresh(a, IF two THEN 2 ELSE 1)
      y == IF n <= 2 THEN x ELSE IF n = 3 THEN Tensor(x, b, <<3>>) ELSE Tensor(x, b, <<3, 4>>)
  IN  [st |-> [y EXCEPT !.prob = <<>>], oth |-> Rest(y, core)]
(* random operations on the state; struct: those after the first three stay on one side *)
StepOf(s, x, oth, free) ==
  LET n == Len(x.modes)
      k == IF n = 1 THEN 1 ELSE Pick(s, 1, <<1, 2, 2, 2>>)
      side == IF Coin(s, 2, 75) /\ oth # <<>> THEN oth ELSE Rest(x, oth)
      pool == IF free \/ side = <<>> THEN x.modes ELSE side
      kk == IF k > Len(pool) THEN Len(pool) ELSE k
      labs == SubSeq(Shuffle(Sub(s, 3), pool, 0), 1, kk)
      raw == NewOp(Sub(s, 4), kk)
      op == IF x.pure /\ raw.Y # <<>> /\ Coin(s, 5, 70) THEN [kind |-> "Identity", k |-> kk, par |-> <<>>, X |-> Ident(2 * kk), Y |-> <<>>, d |-> ZeroV(2 * kk)] ELSE raw
  IN  IF Coin(s, 6, 12) THEN ApplyOp(x, [kind |-> "Att", k |-> 1, par |-> <<>>, X |-> Scale(Q(3, 5), Ident(2)), Y |-> Scale(Q(16, 25), Ident(2)), d |-> ZeroV(2)], <<pool[1]>>)
      ELSE ApplyOp(x, op, labs)
Record(x, oth) ==
  LET c == TLCEval(Cond(x, oth)) IN
  [modes |-> x.modes, core |-> Rest(x, oth), W |-> x.W, m |-> x.m, pure |-> x.pure, cW |-> c.W, cm |-> c.m, ok |-> Good(c)]
Init == seed \in Seeds(Base, N) /\ st = <<>> /\ other = <<>> /\ struct = FALSE /\ rec = <<>> /\ left = MaxSteps
Begin == \E s \in {seed} : \E r \in {StartOf(s)} :
   /\ st' = r.st /\ other' = r.oth /\ struct' = Coin(s, 9, 50) /\ rec' = (IF Good(r.st) THEN <<Record(r.st, r.oth)>> ELSE <<>>)
   /\ left' = (IF Good(r.st) THEN left - 1 ELSE 0) /\ seed' = NextSeed(s)
Move == \E s \in {seed} : \E x \in {StepOf(s, st, other, ~struct \/ left > MaxSteps - 2)} :
   IF ~Good(x) THEN left' = 0 /\ UNCHANGED <<seed, st, other, struct, rec>>
   ELSE /\ st' = x /\ rec' = Append(rec, Record(x, other)) /\ left' = left - 1 /\ seed' = NextSeed(s) /\ UNCHANGED <<other, struct>>
Next == (st = <<>> /\ left > 0 /\ Begin) \/ (st # <<>> /\ left > 0 /\ Move)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties of the specification *)
Last == rec[Len(rec)]
(* what is left on the core modes is pure when the whole is *)
CondPure == (rec # <<>> /\ Last.pure /\ Last.ok) => Det(Last.cW) \in {One, Bad}
(* an operation on the core modes commutes with what is found on the others: pulling it out is possible *)
Local == (rec # <<>> /\ Last.ok /\ other # <<>>) =>
   LET op == NewOp(Sub(seed, 77), 1)
       c == Rest(st, other)
       lab == c[1 + R(seed, 78, Len(c))]
       a == Cond(ApplyOp(st, op, <<lab>>), other)
       b == ApplyOp(Cond(st, other), op, <<lab>>)
   IN  ~(Good(a) /\ Good(b)) \/ (a.W = b.W /\ a.m = b.m)
Symmetric == \A i, j \in 1..(IF st = <<>> THEN 0 ELSE Len(st.W)) : st.W[i][j] = st.W[j][i]
Emit == left > 0 \/ rec = <<>> \/ PrintT("@@" \o ToJson([recs |-> rec]))
=============================================================================
