------------------------------- MODULE Gauss -------------------------------
(* Random circuits of Gaussian states, gates, channels and measurements over the exact calculus of GaussOps.  *)
EXTENDS GaussOps

CONSTANTS Base, N, MaxModes, MaxSteps

VARIABLES seed, st, prog, last, left
vars == <<seed, st, prog, last, left>>
Good(x) == OkM(x.W) /\ OkV(x.m) /\ OkM(x.comp.X) /\ OkM(x.comp.Y) /\ OkV(x.comp.d) /\ \A i \in 1..Len(x.prob) : x.prob[i].det[2] # 0 /\ x.prob[i].expo[2] # 0
Subset(s, i, ms, k) == LET sh == Shuffle(Sub(s, i), ms, 0) IN Insert(SubSeq(sh, 1, k), <<>>)
MaxLabel == 7
FreeLabels(x) == LET F == {l \in 1..MaxLabel : \A p \in 1..Len(x.modes) : x.modes[p] # l} IN Insert(<<>>, LET RECURSIVE G(_) G(T) == IF T = {} THEN <<>> ELSE LET y == CHOOSE y \in T : TRUE IN <<y>> \o G(T \ {y}) IN G(F))
NoOp == [kind |-> "none"]
Obs(x) == [modes |-> x.modes, W |-> x.W, m |-> x.m, pure |-> x.pure, prob |-> x.prob, comp |-> x.comp, det |-> Det(x.W)]
(* one proposal for the next step: <<record, new state, op for undoing>> or <<>> when not applicable *)
Propose(s, x) ==
  LET n == Len(x.modes)
      act == Pick(s, 1, IF n < 2 /\ MaxModes > 1 THEN <<"state", "op", "op", "op", "op", "undo", "damp">>
                        ELSE <<"state", "op", "op", "op", "op", "op", "op", "op", "op", "op", "op", "undo", "undo", "trace", "trace", "proj", "proj", "hom", "hom", "damp">>)
      s1 == Sub(s, 1)
  IN  CASE act = "state" ->
             LET fr == FreeLabels(x)
                 k == 1 + R(s, 2, IF MaxModes - n > 2 THEN 2 ELSE IF MaxModes > n THEN MaxModes - n ELSE 1)
                 labs == Subset(s, 3, fr, k)
                 sg == NewState(s1, k, Coin(s, 4, 70))
             IN  IF n >= MaxModes THEN <<>> ELSE <<[act |-> act, labs |-> labs, kind |-> sg.kind, par |-> sg.par], Tensor(x, sg, labs), NoOp>>
        [] act = "op" ->
             LET k == IF n = 1 THEN 1 ELSE IF n = 2 THEN Pick(s, 2, <<1, 2, 2>>) ELSE Pick(s, 2, <<1, 2, 2, 2, 3>>)
                 labs == Subset(s, 3, x.modes, k)
                 op == NewOp(s1, k)
                 var == IF op.Y = <<>> THEN Pick(s, 5, <<"", "", "", "", "inverse", "dual">>) ELSE ""
                 o2 == IF var = "" THEN op ELSE InverseOp(op)
             IN  <<[act |-> act, labs |-> labs, kind |-> op.kind, par |-> op.par, var |-> var, X |-> o2.X, Y |-> o2.Y, d |-> o2.d, un |-> op.Y = <<>>], ApplyOp(x, o2, labs), [kind |-> op.kind, labs |-> labs, op |-> op, var |-> var]>>
        [] act = "undo" ->
             IF last.kind = "none" \/ last.kind \in {"GRN", "XY"} THEN <<>>
             ELSE LET o2 == IF last.var = "" THEN InverseOp(last.op) ELSE last.op
                  IN  <<[act |-> act], [ApplyOp(x, o2, last.labs) EXCEPT !.pure = FALSE], NoOp>>
        [] act = "trace" ->
             LET labs == Subset(s, 3, x.modes, 1 + R(s, 2, n - 1)) IN <<[act |-> act, labs |-> labs], [Drop(x, labs, x.W, x.m) EXCEPT !.pure = FALSE], NoOp>>
        [] act = "proj" ->
             LET k == IF n > 2 /\ Coin(s, 2, 40) THEN 2 ELSE 1
                 labs == Subset(s, 3, x.modes, k)
                 sg == NewState(s1, k, Coin(s, 4, 80))
             IN  <<[act |-> act, labs |-> labs, kind |-> sg.kind, par |-> sg.par], Project(x, sg, labs), NoOp>>
        [] act = "hom" ->
             LET lab == x.modes[1 + R(s, 3, n)]
                 an == Sharp(s, 4)
                 v == Pick(s, 5, <<I(0), I(1), I(-1), I(2), Q(1, 2)>>)
             IN  <<[act |-> act, labs |-> <<lab>>, an |-> an, v |-> v], Homodyne(x, lab, an, v), NoOp>>
        [] act = "damp" ->
             LET lab == x.modes[1 + R(s, 3, n)]
                 an == Pick(s, 4, <<<<Q(3, 5), Q(4, 5)>>, <<Q(4, 5), Q(3, 5)>>, <<Q(12, 13), Q(5, 13)>>>>)
             IN  <<[act |-> act, labs |-> <<lab>>, an |-> an], Damp(x, lab, an), NoOp>>
RECURSIVE FirstGood(_, _, _)
FirstGood(s, x, i) ==
  IF i > 6 THEN <<>>
  ELSE LET p == TLCEval(Propose(Sub(s, i), x)) IN IF p # <<>> /\ Good(p[2]) THEN p ELSE FirstGood(s, x, i + 1)

Start(s) == LET k == 1 + R(s, 1, IF MaxModes > 3 THEN 3 ELSE MaxModes)
                labs == Subset(s, 2, Iota(MaxLabel), k)
                sg == NewState(Sub(s, 3), k, Coin(s, 3, 75))
            IN  <<[act |-> "start", labs |-> labs, kind |-> sg.kind, par |-> sg.par],
                  [modes |-> labs, W |-> sg.W, m |-> sg.m, pure |-> sg.pure, prob |-> <<>>, comp |-> FreshComp(k)]>>
Init == /\ seed \in Seeds(Base, N)
        /\ st = [modes |-> <<>>, W |-> <<>>, m |-> <<>>, pure |-> TRUE, prob |-> <<>>, comp |-> <<>>]
        /\ prog = <<>> /\ last = NoOp /\ left = MaxSteps
StartStep == \E s \in {seed} : \E r \in {Start(s)} :
   /\ Good(r[2]) /\ st' = r[2] /\ prog' = << <<r[1], Obs(r[2])>> >> /\ seed' = NextSeed(s) /\ last' = NoOp /\ left' = left - 1
Next == \/ prog = <<>> /\ StartStep
        \/ prog # <<>> /\ left > 0 /\ \E s \in {seed} : \E p \in {FirstGood(s, st, 1)} :
              IF p = <<>> THEN left' = 0 /\ UNCHANGED <<seed, st, prog, last>>
              ELSE /\ st' = p[2] /\ prog' = Append(prog, <<p[1], Obs(p[2])>>) /\ last' = p[3] /\ seed' = NextSeed(s) /\ left' = left - 1
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties of the machine itself *)
Symmetric == \A i, j \in 1..Len(st.W) : st.W[i][j] = st.W[j][i]
PureDet == (prog # <<>> /\ st.pure) => Det(st.W) \in {One, Bad}
Purity == prog = <<>> \/ (prog[Len(prog)][1].act = "undo") \/ LET d == Det(st.W) IN IsBad(d) \/ ~Less(d, One)
CompSymplectic == (prog # <<>> /\ st.comp.un) =>
   LET M == MatMul(st.comp.X, MatMul(Omega(Len(st.modes)), Transp(st.comp.X))) IN ~OkM(M) \/ M = Omega(Len(st.modes))
Emit == left > 0 \/ prog = <<>> \/ PrintT("@@" \o ToJson([prog |-> prog]))
=============================================================================
