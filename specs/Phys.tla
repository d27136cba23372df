-------------------------------- MODULE Phys --------------------------------
(* Which Gaussian objects are physical, decided in exact arithmetic: density operators by their covariance     *)
(* (W + i Omega >= 0), channels by Y + i Omega - i X Omega X^T >= 0, kets by 1 - A A^* > 0.  Objects evolve by  *)
(* physical steps, which must keep them physical (an invariant), and by steps that need not: shrinking the      *)
(* noise, transposing one mode, adding a symmetric matrix, changing the Bargmann triple by hand.                *)
EXTENDS GaussOps

CONSTANTS Base, N, MaxSteps

(* ------------------------------------------------------------------ Hermitian matrices of complex rationals *)
CSub(a, b) == CAdd(a, CNeg(b))
CScl(q, a) == <<Mul(q, a[1]), Mul(q, a[2])>>
CBad(a) == a[1][2] = 0 \/ a[2][2] = 0
CIs0(a) == a[1] = Zero /\ a[2] = Zero
CInvS(a) == LET n == Add(Mul(a[1], a[1]), Mul(a[2], a[2])) IN <<Div(a[1], n), Neg(Div(a[2], n))>>
COkM(M) == \A i \in 1..Len(M) : \A j \in 1..Len(M[i]) : ~CBad(M[i][j])
CIdent(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN C1 ELSE C0]])
CMatSub(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> CSub(A[i][j], B[i][j])])])
CTr(A) == TLCEval([i \in 1..Len(A[1]) |-> [j \in 1..Len(A) |-> A[j][i]]])
CDag(A) == TLCEval([i \in 1..Len(A[1]) |-> TLCEval([j \in 1..Len(A) |-> CConj(A[j][i])])])
CConjM(A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> CConj(A[i][j])])])
CMatVec(A, v) == TLCEval([i \in 1..Len(A) |-> LET r(k) == CMul(A[i][k], v[k])[1] m(k) == CMul(A[i][k], v[k])[2] IN <<SumR(r, Len(v)), SumR(m, Len(v))>>])
OfReal(M) == TLCEval([i \in 1..Len(M) |-> TLCEval([j \in 1..Len(M[1]) |-> Re(M[i][j])])])
Hermitian(G) == \A i, j \in 1..Len(G) : G[i][j] = CConj(G[j][i])
(* the Schur complement of entry p *)
Schur(G, p) == LET d == Inv(G[p][p][1])
                   ix == SelectSeq([i \in 1..Len(G) |-> i], LAMBDA i : i # p)
               IN  TLCEval([a \in 1..Len(ix) |-> TLCEval([b \in 1..Len(ix) |->
                      LET l == G[ix[a]][p] r == G[p][ix[b]] IN
                      IF CIs0(l) \/ CIs0(r) THEN G[ix[a]][ix[b]] ELSE CSub(G[ix[a]][ix[b]], CScl(d, CMul(l, r)))])])
(* "yes", "no" or "big" (out of the integer range) *)
RECURSIVE PSD(_)
PSD(G) == IF G = <<>> THEN "yes"
  ELSE IF ~COkM(G) THEN "big"
  ELSE IF \E i \in 1..Len(G) : G[i][i][1][1] < 0 THEN "no"
  ELSE LET P == {i \in 1..Len(G) : G[i][i][1][1] > 0} IN
       IF P = {} THEN (IF \A i, j \in 1..Len(G) : CIs0(G[i][j]) THEN "yes" ELSE "no")
       ELSE PSD(Schur(G, CHOOSE p \in P : \A r \in P : G[p][p][1][2] <= G[r][r][1][2]))
RECURSIVE PD(_)
PD(G) == IF G = <<>> THEN "yes"
  ELSE IF ~COkM(G) THEN "big"
  ELSE IF \E i \in 1..Len(G) : G[i][i][1][1] <= 0 THEN "no"
  ELSE PD(Schur(G, CHOOSE p \in 1..Len(G) : \A r \in 1..Len(G) : G[p][p][1][2] <= G[r][r][1][2]))
(* Gauss-Jordan: the inverse, or <<>> when singular *)
RECURSIVE GJ(_, _)
GJ(M, c) == LET n == Len(M) IN
  IF c > n THEN TLCEval([i \in 1..n |-> SubSeq(M[i], n + 1, 2 * n)])
  ELSE LET P == {r \in c..n : ~CIs0(M[r][c])} IN
    IF P = {} THEN <<>> ELSE
    LET p == CHOOSE r \in P : TRUE
        d == CInvS(M[p][c])
        row == TLCEval([j \in 1..2 * n |-> CMul(d, M[p][j])])
        sw == [i \in 1..n |-> IF i = c THEN row ELSE IF i = p THEN M[c] ELSE M[i]]
    IN  GJ(TLCEval([i \in 1..n |-> IF i = c THEN row
           ELSE IF CIs0(sw[i][c]) THEN sw[i] ELSE TLCEval([j \in 1..2 * n |-> CSub(sw[i][j], CMul(sw[i][c], row[j]))])]), c + 1)
CInvM(M) == LET n == Len(M) I2 == CIdent(n) IN GJ(TLCEval([i \in 1..n |-> M[i] \o I2[i]]), 1)

(* ------------------------------------------------------------------ states *)
IOm(k) == TLCEval([i \in 1..2 * k |-> [j \in 1..2 * k |-> <<Zero, Omega(k)[i][j]>>]])
CMatAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> CAdd(A[i][j], B[i][j])])])
StatePSD(W) == PSD(CMatAdd(OfReal(W), IOm(Len(W) \div 2)))
StatePD(W) == PD(OfReal(W))
Product(W) == \A i, j \in 1..Len(W) : ((i + 1) \div 2 # (j + 1) \div 2) => W[i][j] = Zero
(* the Bargmann triple: rows 1..n bra, n+1..2n ket *)
H2 == Q(1, 2)
T(k) == TLCEval([r \in 1..2 * k |-> [j \in 1..2 * k |->
   LET mode == IF r <= k THEN r ELSE r - k IN
   IF (j + 1) \div 2 # mode THEN C0 ELSE IF j % 2 = 1 THEN <<H2, Zero>> ELSE IF r <= k THEN <<Zero, H2>> ELSE <<Zero, Neg(H2)>>]])
SwapRows(M) == LET n == Len(M) \div 2 IN [i \in 1..2 * n |-> IF i <= n THEN M[i + n] ELSE M[i - n]]
Triple(W, m) ==
  LET k == Len(W) \div 2
      S == CMatMul(T(k), CMatMul(OfReal(W), CDag(T(k))))
      sq == TLCEval([i \in 1..2 * k |-> [j \in 1..2 * k |-> IF i = j THEN CAdd(S[i][j], <<H2, Zero>>) ELSE S[i][j]]])
      iq == CInvM(sq)
  IN  IF iq = <<>> THEN <<>> ELSE
      LET X == TLCEval(SwapRows(CMatSub(CIdent(2 * k), iq)))
          beta == CMatVec(T(k), [i \in 1..2 * k |-> Re(m[i])])
          bb == CMatVec(iq, beta)
      IN  [A |-> X, b |-> [i \in 1..2 * k |-> CConj(bb[i])]]
Gamma(A) == LET k == Len(A) \div 2 IN [i \in 1..k |-> [j \in 1..k |-> A[i][k + j]]]
XA(A) == SwapRows(A)
HermA(A) == LET k == Len(A) \div 2 IN \A i, j \in 1..k : A[i][j] = CConj(A[k + i][k + j])
Bounded(A) == PD(CMatSub(CIdent(Len(A)), XA(A)))
(* a partial transposition: p of one mode changes sign *)
FlipW(W, p) == LET s(i) == i = 2 * p IN TLCEval([i \in 1..Len(W) |-> [j \in 1..Len(W) |-> IF s(i) # s(j) THEN Neg(W[i][j]) ELSE W[i][j]]])
FlipV(m, p) == [i \in 1..Len(m) |-> IF i = 2 * p THEN Neg(m[i]) ELSE m[i]]
SymNoise(s, n, den) ==
  LET e(i, j) == LET a == IF i < j THEN i ELSE j  b == IF i < j THEN j ELSE i IN
                 IF Coin(s, 400 + 20 * a + b, 40) THEN Q(Rng(s, 20 * a + b, -2, 2), den) ELSE Zero
  IN  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> e(i, j)])])

(* ------------------------------------------------------------------ kets *)
KetA(s, k) ==
  LET z(i, j) == IF Coin(s, 20 * i + j, 25) THEN C0
                 ELSE <<Q(Rng(s, 400 + 20 * i + j, -4, 4), Pick(s, 1, <<3, 4, 5, 5, 8>>)), IF Coin(s, 2, 30) THEN Zero ELSE Q(Rng(s, 800 + 20 * i + j, -4, 4), Pick(s, 3, <<4, 5, 8>>))>>
      t == Pick(s, 5, <<Q(1, 2), I(2), I(3), Q(3, 5), I(10)>>)
      ph == Pick(s, 6, Quarter)
      nil == << <<Re(t), <<Zero, t>> >>, << <<Zero, t>>, Re(Neg(t))>> >>          \* nilpotent: no eigenvalue but zero
      off == << <<C0, CScl(t, ph)>>, <<CScl(t, ph), C0>> >>
      kind == Pick(s, 4, IF k = 2 THEN <<"r", "r", "nil", "off">> ELSE <<"r">>)
  IN  CASE kind = "nil" -> nil [] kind = "off" -> off
        [] OTHER -> TLCEval([i \in 1..k |-> TLCEval([j \in 1..k |-> IF i <= j THEN z(i, j) ELSE z(j, i)])])
KetPD(A) == PD(CMatSub(CIdent(Len(A)), CMatMul(A, CConjM(A))))

(* ------------------------------------------------------------------ channels: X, Y, d on k modes *)
ChanCP(X, Y) ==
  LET k == Len(X) \div 2
      XOX == MatMul(X, MatMul(Omega(k), Transp(X)))
  IN  PSD(TLCEval([i \in 1..2 * k |-> TLCEval([j \in 1..2 * k |-> <<Y[i][j], Sub2(Omega(k)[i][j], XOX[i][j])>>])]))
(* the Choi operator: its ket-bra block, and whether tracing the output out of it converges *)
ChanXi(X, Y) == Scale(H2, MatAdd(MatAdd(Ident(Len(X)), MatMul(X, Transp(X))), Y))
ChanGamma(X, Y) ==
  LET n == Len(X)
      k == n \div 2
      iq == CInvM(OfReal(ChanXi(X, Y)))
      cX == OfReal(X)
      B == IF iq = <<>> THEN <<>> ELSE
           LET u == CMatMul(iq, cX) w == CMatMul(CTr(cX), u) ut == CTr(u) id == CIdent(n) IN
           TLCEval([i \in 1..2 * n |-> [j \in 1..2 * n |->
             IF i <= n THEN IF j <= n THEN CSub(id[i][j], iq[i][j]) ELSE u[i][j - n]
             ELSE IF j <= n THEN ut[i - n][j] ELSE CSub(id[i - n][j - n], w[i - n][j - n])]])
      RL == TLCEval([r \in 1..2 * k |-> [j \in 1..2 * n |->
             IF (j + 1) \div 2 # r THEN C0 ELSE IF j % 2 = 1 THEN C1 ELSE <<Zero, IF r <= k THEN I(-1) ELSE One>>]])
  IN  IF iq = <<>> \/ ~COkM(B) THEN <<>>
      ELSE LET G == CMatMul(RL, CMatMul(B, CDag(RL))) IN TLCEval([i \in 1..2 * k |-> TLCEval([j \in 1..2 * k |-> CScl(H2, G[i][j])])])
YOf(op) == IF op.Y = <<>> THEN ZeroM(2 * op.k) ELSE op.Y
SomeChannel(s, k) ==                            \* not necessarily completely positive
  LET X == CASE R(s, 1, 5) = 0 -> Scale(Pick(s, 2, <<Q(1, 2), I(2), Q(3, 5), I(-1), Zero>>), Ident(2 * k))
             [] R(s, 1, 5) = 1 -> RandomS(s, k)
             [] R(s, 1, 5) = 2 -> [Ident(2 * k) EXCEPT ![2][2] = I(-1)]           \* phase conjugation
             [] OTHER -> TLCEval([i \in 1..2 * k |-> [j \in 1..2 * k |-> I(Pick(s, 200 + 10 * i + j, <<0, 0, 1, -1>>))]])
      Y == CASE R(s, 3, 4) = 0 -> ZeroM(2 * k)
             [] R(s, 3, 4) = 1 -> Scale(Pick(s, 4, <<Q(1, 2), One, Q(3, 4), I(2), Q(16, 25), I(3)>>), Ident(2 * k))
             [] R(s, 3, 4) = 2 -> SymNoise(Sub(s, 7), 2 * k, 2)
             [] OTHER -> MatAdd(Scale(Pick(s, 4, <<I(1), I(2), I(3)>>), Ident(2 * k)), SymNoise(Sub(s, 7), 2 * k, 2))
  IN  [X |-> X, Y |-> Y, d |-> TLCEval([i \in 1..2 * k |-> I(Rng(s, 300 + i, -1, 1))])]

(* ------------------------------------------------------------------ triples changed by hand *)
(* A density matrix: both sides changed together stay Hermitian, one side alone does not; c is a factor of the  *)
(* value that gives unit trace.                                                                                 *)
Bump(s) == <<Pick(s, 1, <<Q(1, 5), Q(-1, 4), Q(1, 2)>>), Pick(s, 2, <<Zero, Q(1, 5), Q(-1, 3)>>)>>
AddTo(A, i, j, z) == [A EXCEPT ![i] = [A[i] EXCEPT ![j] = CAdd(A[i][j], z)]]
AddSym(A, i, j, z) == IF i = j THEN AddTo(A, i, i, z) ELSE AddTo(AddTo(A, i, j, z), j, i, z)
NoChange == [what |-> "none", A |-> <<>>, b |-> <<>>, c |-> C1, positive |-> "big", physical |-> "big"]
And3(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "big" \/ b = "big" THEN "big" ELSE "yes"
YesNo(x) == IF x THEN "yes" ELSE "no"
StateChange(s, t, gamma, bounded) ==
  LET k == Len(t.A) \div 2
      what == Pick(s, 3, <<"none", "A1", "A2", "b1", "b2", "c2", "c-", "ci", "chalf", "off1", "off2", "swap">>)
      i == 1 + R(s, 4, k)
      j == 1 + R(s, 5, k)
      z == Bump(s)
      sw(r) == IF r > k THEN r - k ELSE r + k
      A2 == CASE what = "A1" -> AddTo(t.A, i, i, z)
              [] what = "A2" -> AddSym(AddSym(t.A, i, j, z), k + i, k + j, CConj(z))
              [] what = "off1" -> AddSym(t.A, i, k + j, IF i = j THEN <<Zero, Q(1, 5)>> ELSE z)
              [] what = "off2" -> IF i = j THEN AddSym(t.A, i, k + i, Re(z[1])) ELSE AddSym(AddSym(t.A, i, k + j, z), j, k + i, CConj(z))
              [] what = "swap" -> TLCEval([a \in 1..2 * k |-> [b \in 1..2 * k |-> t.A[sw(a)][sw(b)]]])     \* the complex conjugate of the state
              [] OTHER -> t.A
      b2 == CASE what = "b1" -> [t.b EXCEPT ![i] = CAdd(t.b[i], z)]
              [] what = "b2" -> [t.b EXCEPT ![i] = CAdd(t.b[i], z), ![k + i] = CAdd(t.b[k + i], CConj(z))]
              [] what = "swap" -> TLCEval([a \in 1..2 * k |-> t.b[sw(a)]])
              [] OTHER -> t.b
      c2 == CASE what = "c2" -> Re(I(2)) [] what = "c-" -> Re(I(-1)) [] what = "ci" -> <<Zero, One>> [] what = "chalf" -> Re(Q(1, 2)) [] OTHER -> C1
      herm == HermA(A2) /\ Hermitian(Gamma(A2)) /\ \A a \in 1..k : b2[a] = CConj(b2[k + a])
      g == IF A2 = t.A THEN gamma ELSE PSD(Gamma(A2))
      bd == IF A2 = t.A THEN bounded ELSE Bounded(A2)
      pos == IF ~herm THEN "no" ELSE And3(g, YesNo(c2[2] = Zero /\ c2[1][1] > 0))
  IN  [what |-> what, A |-> A2, b |-> b2, c |-> c2, positive |-> pos, physical |-> And3(pos, And3(bd, YesNo(c2 = C1)))]
(* A channel: what a change of its triple does to the two conditions *)
ChanChange(s, cp) ==
  LET what == Pick(s, 3, <<"none", "none", "c2", "c-", "ci", "b1", "b2", "A1", "A2", "gamma">>) IN
  [what |-> what, i |-> R(s, 4, 8), z |-> Bump(s),
   cp |-> IF what \in {"c-", "ci", "b1", "A1", "gamma"} THEN "no" ELSE cp, tp |-> YesNo(what = "none")]

(* ------------------------------------------------------------------ behaviours *)
VARIABLES seed, kind, st, safe, hist, left
vars == <<seed, kind, st, safe, hist, left>>
Good(x) == OkM(x.W) /\ OkV(x.m)
Labels(k) == [i \in 1..k |-> i]
ObsS(s, x) == LET t == TLCEval(Triple(x.W, x.m))
               ok == t # <<>> /\ COkM(t.A) /\ \A i \in 1..Len(t.b) : ~CBad(t.b[i])
               g == IF ok THEN TLCEval(PSD(Gamma(t.A))) ELSE "big"
               bd == IF ok THEN TLCEval(Bounded(t.A)) ELSE "big" IN
  [W |-> x.W, m |-> x.m, psd |-> StatePSD(x.W), pd |-> StatePD(x.W), det |-> Det(x.W), product |-> Product(x.W),
   flips |-> [p \in 1..Len(x.modes) |-> StatePSD(FlipW(x.W, p))],
   A |-> IF ok THEN t.A ELSE <<>>, b |-> IF ok THEN t.b ELSE <<>>,
   gamma |-> IF ok THEN g ELSE "big", bounded |-> IF ok THEN bd ELSE "big",
   change |-> IF ok THEN StateChange(Sub(s, 91), t, g, bd) ELSE NoChange]
ObsC(s, x) == LET G == TLCEval(ChanGamma(x.X, x.Y))
                  gm == TLCEval(IF G = <<>> THEN "big" ELSE PSD(G)) IN
  [X |-> x.X, Y |-> x.Y, d |-> x.d, cp |-> ChanCP(x.X, x.Y), gamma |-> gm, bounded |-> PD(OfReal(ChanXi(x.X, x.Y))),
   change |-> ChanChange(Sub(s, 92), gm)]
ObsK(x) == [A |-> x.A, b |-> x.b, pd |-> KetPD(x.A)]
Obs(s, kd, x) == CASE kd = "state" -> ObsS(s, x) [] kd = "chan" -> ObsC(s, x) [] kd = "ket" -> ObsK(x)

StartOf(s) ==
  LET kd == Pick(s, 1, <<"state", "state", "state", "chan", "chan", "ket">>)
      k == Pick(s, 2, <<1, 1, 2, 2, 2>>)
      sg == NewState(Sub(s, 3), k, Coin(s, 4, 40))
      prodst == LET a == NewState(Sub(s, 3), 1, FALSE) b == NewState(Sub(s, 5), 1, FALSE) IN
                Tensor([modes |-> <<1>>, W |-> a.W, m |-> a.m, pure |-> a.pure, prob |-> <<>>, comp |-> FreshComp(1)], b, <<2>>)
  IN  CASE kd = "state" -> <<kd, IF k = 2 /\ Coin(s, 6, 60) THEN prodst
                                  ELSE [modes |-> Labels(k), W |-> sg.W, m |-> sg.m, pure |-> sg.pure, prob |-> <<>>, comp |-> FreshComp(k)], TRUE>>
        [] kd = "chan" -> <<kd, [X |-> Ident(2 * k), Y |-> ZeroM(2 * k), d |-> ZeroV(2 * k)], TRUE>>
        [] kd = "ket" -> LET kk == Pick(s, 2, <<1, 2, 2, 3>>) IN
             <<kd, [A |-> KetA(Sub(s, 7), kk), b |-> TLCEval([i \in 1..kk |-> IF Coin(s, 20 + i, 50) THEN C0 ELSE <<Q(Rng(s, 30 + i, -2, 2), 2), Q(Rng(s, 40 + i, -2, 2), 2)>>])], FALSE>>
(* <<new state, still known to be physical>> *)
StepOf(s, kd, x) ==
  CASE kd = "ket" -> <<[A |-> KetA(Sub(s, 7), Len(x.A)), b |-> x.b], FALSE>>
    [] kd = "chan" ->
         LET k == Len(x.X) \div 2
             op == NewOp(Sub(s, 1), IF k = 1 THEN 1 ELSE Pick(s, 2, <<1, 2, 2>>))
             pos == IF op.k = k THEN Shuffle(Sub(s, 3), Labels(k), 0) ELSE <<1 + R(s, 4, k)>>
             c == SomeChannel(Sub(s, 5), k)
             lib == Coin(s, 6, 50)
         IN  IF lib THEN <<[X |-> LeftX(op.X, pos, x.X), Y |-> AddAt(ApplyX(op.X, pos, x.Y), op.Y, pos), d |-> AddV(ApplyV(op.X, pos, x.d), op.d, pos)], TRUE>>
             ELSE IF Coin(s, 8, 50) THEN <<c, FALSE>>
             ELSE <<[X |-> MatMul(c.X, x.X), Y |-> MatAdd(MatMul(c.X, MatMul(x.Y, Transp(c.X))), c.Y), d |-> VecAdd(MatVec(c.X, x.d), c.d)], ChanCP(c.X, c.Y) = "yes">>
    [] kd = "state" ->
         LET n == Len(x.modes)
             act == Pick(s, 1, <<"op", "op", "op", "op", "shrink", "flip", "noise", "less", "neg">>)
             op == NewOp(Sub(s, 1), IF n = 1 THEN 1 ELSE Pick(s, 2, <<1, 2, 2>>))
             labs == IF op.k = n THEN Shuffle(Sub(s, 3), x.modes, 0) ELSE <<x.modes[1 + R(s, 4, n)]>>
             q == Pick(s, 5, <<Q(1, 2), Q(9, 10), Q(3, 4)>>)
             p == 1 + R(s, 6, n)
         IN  CASE act = "op" -> <<ApplyOp(x, op, labs), TRUE>>
               [] act = "shrink" -> <<[x EXCEPT !.W = Scale(q, x.W)], FALSE>>
               [] act = "flip" -> <<[x EXCEPT !.W = FlipW(x.W, p), !.m = FlipV(x.m, p)], Product(x.W)>>
               [] act = "noise" -> <<[x EXCEPT !.W = MatAdd(x.W, SymNoise(Sub(s, 7), 2 * n, Pick(s, 8, <<1, 2, 4>>)))], FALSE>>
               [] act = "less" -> <<[x EXCEPT !.W = MatAdd(x.W, Scale(Neg(Pick(s, 5, <<Q(1, 2), Q(1, 10), One, I(3)>>)), Ident(2 * n)))], FALSE>>
               [] act = "neg" -> <<[x EXCEPT !.W = Scale(Pick(s, 5, <<I(-1), I(-3), I(-2)>>), x.W)], FALSE>>
Fine(kd, x) == CASE kd = "state" -> Good(x) [] kd = "chan" -> OkM(x.X) /\ OkM(x.Y) /\ OkV(x.d) [] kd = "ket" -> TRUE
Verdict(kd, o) == CASE kd = "state" -> o.psd [] kd = "chan" -> o.cp [] kd = "ket" -> o.pd
Init == seed \in Seeds(Base, N) /\ kind = "none" /\ st = <<>> /\ safe = FALSE /\ hist = <<>> /\ left = MaxSteps
Begin == \E s \in {seed} : \E r \in {StartOf(s)} :
   /\ kind' = r[1] /\ st' = r[2] /\ safe' = r[3] /\ hist' = << Obs(s, r[1], r[2]) >> /\ left' = left - 1 /\ seed' = NextSeed(s)
Move == \E s \in {seed} : \E r \in {StepOf(s, kind, st)} :
   IF ~Fine(kind, r[1]) THEN left' = 0 /\ UNCHANGED <<seed, kind, st, safe, hist>>
   ELSE LET o == TLCEval(Obs(s, kind, r[1])) IN
        /\ st' = r[1] /\ hist' = Append(hist, o) /\ left' = left - 1 /\ seed' = NextSeed(s) /\ UNCHANGED kind
        /\ safe' = (r[2] /\ (safe \/ Verdict(kind, hist[Len(hist)]) = "yes"))
Next == (kind = "none" /\ Begin) \/ (kind # "none" /\ left > 0 /\ Move)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties of the specification *)
Last == hist[Len(hist)]
SafePhysical == (hist # <<>> /\ safe) => Verdict(kind, Last) \in {"yes", "big"}
(* the two descriptions of a state agree on which operators are density operators *)
TripleAgrees == (hist # <<>> /\ kind = "state" /\ Last.A # <<>>) =>
   /\ HermA(Last.A) /\ Hermitian(Gamma(Last.A))
   /\ \A i, j \in 1..Len(Last.A) : Last.A[i][j] = Last.A[j][i]
   /\ (Last.psd = "yes" => Last.gamma \in {"yes", "big"} /\ Last.bounded \in {"yes", "big"} /\ Last.pd \in {"yes", "big"})
   /\ (Last.gamma = "yes" /\ Last.bounded = "yes" => Last.psd \in {"yes", "big"})
ChannelAgrees == (hist # <<>> /\ kind = "chan") =>
   /\ (Last.gamma = "yes" /\ Last.bounded = "yes" => Last.cp \in {"yes", "big"})
   /\ (Last.cp = "yes" => Last.gamma \in {"yes", "big"} /\ Last.bounded \in {"yes", "big"})
ChangeSound == (hist # <<>> /\ kind = "state" /\ Last.A # <<>> /\ Last.change.what = "swap") =>          \* a conjugated state is as physical
   (Last.change.positive = Last.gamma \/ "big" \in {Last.change.positive, Last.gamma})
ProductFlips == (hist # <<>> /\ kind = "state" /\ Last.product /\ Last.psd = "yes") => \A p \in 1..Len(Last.flips) : Last.flips[p] \in {"yes", "big"}
SinglePure == (hist # <<>> /\ kind = "state" /\ Last.psd = "yes" /\ Last.det = One /\ ~Last.product) => \E p \in 1..Len(Last.flips) : Last.flips[p] \in {"no", "big"}
Emit == left > 0 \/ hist = <<>> \/ PrintT("@@" \o ToJson([kind |-> kind, hist |-> hist]))
=============================================================================
