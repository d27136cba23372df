------------------------------ MODULE GaussOps ------------------------------
(* Gaussian states and circuits in exact rational phase-space arithmetic.  Units in which the vacuum covariance   *)
(* is the identity: W = cov/(hbar/2), m = means/sqrt(hbar/2) = 2(Re alpha, Im alpha) for a coherent state.          *)
(* Quadratures are stored interleaved x1 p1 x2 p2 ..., the modes being 1..n in increasing order of their labels.    *)
EXTENDS Rat, FiniteSets, Json, Rng

(* ------------------------------------------------------------------ parameters *)
Angles == << <<One, Zero>>, <<Zero, One>>, <<I(-1), Zero>>, <<Zero, I(-1)>>, <<Q(3, 5), Q(4, 5)>>, <<Q(4, 5), Q(-3, 5)>>, <<Q(-3, 5), Q(4, 5)>> >>
Quarter == SubSeq(Angles, 1, 4)
Angle(s, i) == Pick(s, i, Angles)
Sharp(s, i) == IF Coin(s, i + 500, 60) THEN Pick(s, i, Quarter) ELSE Pick(s, i, Angles)
Halves == <<I(0), I(1), I(-1), Q(1, 2), Q(-1, 2), Q(3, 2), I(2)>>
Half(s, i) == Pick(s, i, Halves)
ExpR == <<I(2), Q(1, 2), I(2), Q(3, 2), I(1)>>                  \* e^r
Ch(t) == Mul(Q(1, 2), Add(t, Inv(t)))
Sh(t) == Mul(Q(1, 2), Sub2(t, Inv(t)))

(* ------------------------------------------------------------------ symplectic matrices *)
(* complex numbers are pairs of rationals *)
CMul(a, b) == <<Sub2(Mul(a[1], b[1]), Mul(a[2], b[2])), Add(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
CAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2])>>
CNeg(a) == <<Neg(a[1]), Neg(a[2])>>
CConj(a) == <<a[1], Neg(a[2])>>
C0 == <<Zero, Zero>>
C1 == <<One, Zero>>
Re(x) == <<x, Zero>>
CMatMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
   LET r(k) == CMul(A[i][k], B[k][j])[1]  m(k) == CMul(A[i][k], B[k][j])[2] IN <<SumR(r, Len(B)), SumR(m, Len(B))>>])])
OfUnitary(U) == TLCEval([i \in 1..2 * Len(U) |-> TLCEval([j \in 1..2 * Len(U) |->
   LET u == U[(i + 1) \div 2][(j + 1) \div 2]
   IN  IF i % 2 = j % 2 THEN u[1] ELSE IF i % 2 = 1 THEN Neg(u[2]) ELSE u[2]])])
UBS(th, ph) == << <<Re(th[1]), CNeg(CMul(CConj(ph), Re(th[2])))>>, <<CMul(ph, Re(th[2])), Re(th[1])>> >>
UMZ(a, b, internal) ==                       \* a, b unit complex numbers (cos, sin)
  LET h(z) == <<Mul(Q(1, 2), z[1]), Mul(Q(1, 2), z[2])>>
      mul_i(z) == <<Neg(z[2]), z[1]>>
      core(u, v) == << <<h(CAdd(u, CNeg(v))), h(mul_i(CAdd(u, v)))>>, <<h(mul_i(CAdd(u, v))), h(CAdd(v, CNeg(u)))>> >>
  IN  IF internal THEN core(a, b) ELSE CMatMul(core(b, C1), << <<a, C0>>, <<C0, C1>> >>)
SqM(t, ph) ==                                \* single-mode squeezing
  << <<Sub2(Ch(t), Mul(Sh(t), ph[1])), Neg(Mul(Sh(t), ph[2]))>>, <<Neg(Mul(Sh(t), ph[2])), Add(Ch(t), Mul(Sh(t), ph[1]))>> >>
S2M(t, ph) == LET c == Ch(t) a == Mul(Sh(t), ph[1]) b == Mul(Sh(t), ph[2])
  IN  << <<c, Zero, a, b>>, <<Zero, c, b, Neg(a)>>, <<a, b, c, Zero>>, <<b, Neg(a), Zero, c>> >>
CXM(q) == << <<One, Zero, Zero, Zero>>, <<Zero, One, Zero, Neg(q)>>, <<q, Zero, One, Zero>>, <<Zero, Zero, Zero, One>> >>
CZM(q) == << <<One, Zero, Zero, Zero>>, <<Zero, One, q, Zero>>, <<Zero, Zero, One, Zero>>, <<q, Zero, Zero, One>> >>
PM(q) == << <<One, Zero>>, <<q, One>> >>
(* embed a matrix on modes pos (a sequence of mode positions) into k modes *)
Row(pos, a) == 2 * (pos[(a + 1) \div 2] - 1) + (2 - (a % 2))
Where(pos, i) == LET h == {a \in 1..2 * Len(pos) : Row(pos, a) = i} IN IF h = {} THEN 0 ELSE CHOOSE a \in h : TRUE
Embed(M, pos, k) == TLCEval([i \in 1..2 * k |-> TLCEval([j \in 1..2 * k |->
   LET a == Where(pos, i) b == Where(pos, j)
   IN  IF a > 0 /\ b > 0 THEN M[a][b] ELSE IF a = 0 /\ b = 0 /\ i = j THEN One ELSE Zero])])
Omega(k) == TLCEval([i \in 1..2 * k |-> [j \in 1..2 * k |-> IF i % 2 = 1 /\ j = i + 1 THEN One ELSE IF i % 2 = 0 /\ j = i - 1 THEN I(-1) ELSE Zero]])
InvS(S) == LET k == Len(S) \div 2 IN Scale(I(-1), MatMul(Omega(k), MatMul(Transp(S), Omega(k))))
UPerm(k, perm, ph) == TLCEval([i \in 1..k |-> [j \in 1..k |-> IF perm[i] = j THEN ph[i] ELSE C0]])
UEmbed(U, pos, k) == TLCEval([i \in 1..k |-> [j \in 1..k |->
   LET a == {x \in 1..2 : pos[x] = i}  b == {x \in 1..2 : pos[x] = j}
   IN  IF a # {} /\ b # {} THEN U[CHOOSE x \in a : TRUE][CHOOSE x \in b : TRUE] ELSE IF a = {} /\ i = j THEN C1 ELSE C0]])
RECURSIVE Shuffle(_, _, _)
Shuffle(s, q, i) == IF Len(q) <= 1 THEN q
  ELSE LET k == 1 + R(s, 900 + i, Len(q)) IN <<q[k]>> \o Shuffle(s, SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)), i + 1)
Iota(k) == [i \in 1..k |-> i]
RandomU(s, k) ==
  LET P == UPerm(k, Shuffle(s, Iota(k), 0), [i \in 1..k |-> Pick(s, 20 + i, Quarter)])
  IN  IF k = 1 THEN << <<Angle(s, 31)>> >>
      ELSE LET pr == Shuffle(s, Iota(k), 50) IN CMatMul(UEmbed(UBS(Angle(s, 32), Sharp(s, 33)), <<pr[1], pr[2]>>, k), P)
RandomO(s, k) ==
  LET P == UPerm(k, Shuffle(s, Iota(k), 0), [i \in 1..k |-> IF Coin(s, 20 + i, 30) THEN CNeg(C1) ELSE C1])
  IN  IF k = 1 THEN P
      ELSE LET pr == Shuffle(s, Iota(k), 50) IN CMatMul(UEmbed(UBS(Angle(s, 32), C1), <<pr[1], pr[2]>>, k), P)
RandomS(s, k) ==                             \* an integer or nearly integer symplectic matrix
  LET one(i) == LET u == Sub(s, 10 + i)
                    p == Shuffle(u, Iota(k), 0)
                    kind == IF k = 1 THEN Pick(u, 1, <<"p", "r", "s">>) ELSE Pick(u, 1, <<"p", "r", "cx", "cz", "bs", "s">>)
                IN  CASE kind = "p" -> Embed(PM(Pick(u, 2, <<I(1), I(-1), I(2)>>)), <<p[1]>>, k)
                      [] kind = "r" -> Embed(OfUnitary(<< <<Pick(u, 2, Quarter)>> >>), <<p[1]>>, k)
                      [] kind = "s" -> Embed(SqM(Pick(u, 2, ExpR), Pick(u, 3, Quarter)), <<p[1]>>, k)
                      [] kind = "cx" -> Embed(CXM(Pick(u, 2, <<I(1), I(-1)>>)), <<p[1], p[2]>>, k)
                      [] kind = "cz" -> Embed(CZM(Pick(u, 2, <<I(1), I(-1)>>)), <<p[1], p[2]>>, k)
                      [] kind = "bs" -> Embed(OfUnitary(UBS(Angle(u, 2), C1)), <<p[1], p[2]>>, k)
  IN  MatMul(one(1), MatMul(one(2), one(3)))

(* ------------------------------------------------------------------ states of k modes: W, m *)
NewState(s, k, pure) ==
  LET kinds1 == <<"Vacuum", "Coherent", "Coherent", "SqueezedVacuum", "DisplacedSqueezed", "DisplacedSqueezed", "GKet">> \o (IF pure THEN <<>> ELSE <<"Thermal", "GDM">>)
      kinds2 == <<"Vacuum", "TwoModeSqueezedVacuum", "TwoModeSqueezedVacuum", "GKet">> \o (IF pure THEN <<>> ELSE <<"GDM">>)
      kind == Pick(s, 1, IF k = 1 THEN kinds1 ELSE IF k = 2 THEN kinds2 ELSE <<"Vacuum", "GKet">>)
      alpha == <<Half(s, 2), Half(s, 3)>>
      t == Pick(s, 4, ExpR)
      ph == Sharp(s, 5)
      nbar == Pick(s, 6, <<I(0), Q(1, 2), I(1), Q(1, 3)>>)
      eb == Pick(s, 7, <<I(2), I(3), Q(3, 2), I(5)>>)
      S == RandomS(s, k)
      sq(M) == MatMul(M, Transp(M))
      mm == <<Mul(I(2), alpha[1]), Mul(I(2), alpha[2])>>
      z == ZeroV(2 * k)
      mk(par, W, m, pr) == [kind |-> kind, k |-> k, par |-> par, W |-> W, m |-> m, pure |-> pr]
  IN  CASE kind = "Vacuum" -> mk(<<>>, Ident(2 * k), z, TRUE)
        [] kind = "Coherent" -> mk(alpha, Ident(2), mm, TRUE)
        [] kind = "SqueezedVacuum" -> mk(<<t, ph>>, sq(SqM(t, ph)), z, TRUE)
        [] kind = "DisplacedSqueezed" -> mk(<<alpha[1], alpha[2], t, ph>>, sq(SqM(t, ph)), mm, TRUE)
        [] kind = "TwoModeSqueezedVacuum" -> mk(<<t, ph>>, sq(S2M(t, ph)), z, TRUE)
        [] kind = "GKet" -> mk(<<S>>, sq(S), z, TRUE)
        [] kind = "Thermal" -> mk(<<nbar>>, Scale(Add(Mul(I(2), nbar), One), Ident(2)), z, FALSE)
        [] kind = "GDM" -> mk(<<eb, S>>, Scale(Div(Add(eb, One), Sub2(eb, One)), sq(S)), z, FALSE)

(* ------------------------------------------------------------------ gates and channels on k modes: X, Y, d *)
Op1 == <<"D", "D", "S", "R", "P", "Identity", "Gg", "Int", "Sym", "Att", "Amp", "GRN", "XY", "RInt">>
Op2 == <<"BS", "BS", "BS", "MZ", "MZ", "S2", "CX", "CX", "CZ", "Int", "RInt", "Gg", "Sym", "GRN", "XY">>
Op3 == <<"Int", "RInt", "Gg", "Sym">>
NewOp(s, k) ==
  LET kind == Pick(s, 1, IF k = 1 THEN Op1 ELSE IF k = 2 THEN Op2 ELSE Op3)
      n == 2 * k
      alpha == <<Half(s, 2), Half(s, 3)>>
      t == Pick(s, 4, ExpR)
      th == Angle(s, 5)
      ph == Sharp(s, 6)
      q == Half(s, 7)
      internal == Coin(s, 8, 50)
      U == RandomU(s, k)
      O == RandomO(s, k)
      S == RandomS(s, k)
      root == Pick(s, 9, <<Q(1, 2), Q(3, 5), Q(4, 5), One>>)          \* sqrt of the transmissivity
      gain == Pick(s, 10, <<I(2), Q(5, 4), One, Q(3, 2)>>)            \* sqrt of the gain
      sq(x) == Mul(x, x)
      (* a noise matrix B B^T from a small integer matrix *)
      B == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE I(Pick(s, 100 + 10 * i + j, <<0, 0, 0, 1, -1>>))]])
      Y == MatMul(B, Transp(B))
      (* a deterministic non-symplectic channel with enough noise: X integer, Y = X-dependent multiple of identity *)
      XX == TLCEval([i \in 1..n |-> [j \in 1..n |-> I(Pick(s, 200 + 10 * i + j, <<0, 0, 1, -1>>))]])
      YY == Scale(I(1 + n * n), Ident(n))
      dd == TLCEval([i \in 1..n |-> I(Rng(s, 300 + i, -2, 2))])
      un(par, X) == [kind |-> kind, k |-> k, par |-> par, X |-> X, Y |-> <<>>, d |-> ZeroV(n)]
      chn(par, X, Yx, d) == [kind |-> kind, k |-> k, par |-> par, X |-> X, Y |-> Yx, d |-> d]
  IN  CASE kind = "D" -> [kind |-> kind, k |-> 1, par |-> alpha, X |-> Ident(2), Y |-> <<>>, d |-> <<Mul(I(2), alpha[1]), Mul(I(2), alpha[2])>>]
        [] kind = "S" -> un(<<t, ph>>, SqM(t, ph))
        [] kind = "R" -> un(<<th>>, OfUnitary(<< <<th>> >>))
        [] kind = "P" -> un(<<q>>, PM(q))
        [] kind = "Identity" -> un(<<>>, Ident(n))
        [] kind = "BS" -> un(<<th, ph>>, OfUnitary(UBS(th, ph)))
        [] kind = "MZ" -> un(<<Sharp(s, 5), ph, internal>>, OfUnitary(UMZ(Sharp(s, 5), ph, internal)))
        [] kind = "S2" -> un(<<t, ph>>, S2M(t, ph))
        [] kind = "CX" -> un(<<q>>, CXM(q))
        [] kind = "CZ" -> un(<<q>>, CZM(q))
        [] kind = "Int" -> un(<<U>>, OfUnitary(U))
        [] kind = "RInt" -> un(<<O>>, OfUnitary(O))
        [] kind \in {"Gg", "Sym"} -> un(<<S>>, S)
        [] kind = "Att" -> chn(<<sq(root)>>, Scale(root, Ident(2)), Scale(Sub2(One, sq(root)), Ident(2)), ZeroV(2))
        [] kind = "Amp" -> chn(<<sq(gain)>>, Scale(gain, Ident(2)), Scale(Sub2(sq(gain), One), Ident(2)), ZeroV(2))
        [] kind = "GRN" -> chn(<<Y>>, Ident(n), Y, ZeroV(n))
        [] kind = "XY" -> chn(<<XX, YY, dd>>, XX, YY, dd)

(* ------------------------------------------------------------------ the machine *)
(* state: n modes (present[i]: its label 1..), W, m, pure, prob: the factors of the norm squared, comp: the      *)
(* composite of the gates since the last change of modes, as X, Y, d on all present modes                        *)
Rows2(pos) == [a \in 1..2 * Len(pos) |-> Row(pos, a)]
ApplyX(X, pos, W) ==                            \* X acting on rows and columns pos
  LET n == Len(W)
      left == TLCEval([i \in 1..n |-> LET a == Where(pos, i) IN IF a = 0 THEN W[i]
                 ELSE TLCEval([j \in 1..n |-> LET t(b) == Mul(X[a][b], W[Row(pos, b)][j]) IN SumR(t, Len(X))])])
  IN  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> LET a == Where(pos, j) IN IF a = 0 THEN left[i][j]
                 ELSE LET t(b) == Mul(X[a][b], left[i][Row(pos, b)]) IN SumR(t, Len(X))])])
LeftX(X, pos, M) ==                             \* X acting on the rows pos only
  TLCEval([i \in 1..Len(M) |-> LET a == Where(pos, i) IN IF a = 0 THEN M[i]
     ELSE TLCEval([j \in 1..Len(M[1]) |-> LET t(b) == Mul(X[a][b], M[Row(pos, b)][j]) IN SumR(t, Len(X))])])
ApplyV(X, pos, v) == TLCEval([i \in 1..Len(v) |-> LET a == Where(pos, i) IN IF a = 0 THEN v[i]
     ELSE LET t(b) == Mul(X[a][b], v[Row(pos, b)]) IN SumR(t, Len(X))])
AddAt(W, Y, pos) == IF Y = <<>> THEN W ELSE TLCEval([i \in 1..Len(W) |-> TLCEval([j \in 1..Len(W) |->
     LET a == Where(pos, i) b == Where(pos, j) IN IF a = 0 \/ b = 0 THEN W[i][j] ELSE Add(W[i][j], Y[a][b])])])
AddV(v, d, pos) == TLCEval([i \in 1..Len(v) |-> LET a == Where(pos, i) IN IF a = 0 THEN v[i] ELSE Add(v[i], d[a])])
PosOf(st, labs) == [i \in 1..Len(labs) |-> CHOOSE p \in 1..Len(st.modes) : st.modes[p] = labs[i]]
FreshComp(n) == [X |-> Ident(2 * n), Y |-> ZeroM(2 * n), d |-> ZeroV(2 * n), un |-> TRUE, len |-> 0]
ApplyOp(st, op, labs) ==
  LET pos == PosOf(st, labs)
      c == st.comp
  IN  [st EXCEPT !.W = AddAt(ApplyX(op.X, pos, st.W), op.Y, pos), !.m = AddV(ApplyV(op.X, pos, st.m), op.d, pos),
                 !.pure = st.pure /\ op.Y = <<>>,
                 !.comp = [X |-> LeftX(op.X, pos, c.X), Y |-> AddAt(ApplyX(op.X, pos, c.Y), op.Y, pos), d |-> AddV(ApplyV(op.X, pos, c.d), op.d, pos),
                           un |-> c.un /\ op.Y = <<>>, len |-> c.len + 1]]
InverseOp(op) ==                                 \* the mathematical inverse, possibly not physical
  IF op.Y = <<>> THEN [op EXCEPT !.X = InvS(op.X), !.d = ScaleV(I(-1), MatVec(InvS(op.X), op.d))]
  ELSE LET xi == TLCEval(Inv(op.X[1][1])) IN    \* multiples of the identity only
       [op EXCEPT !.X = Scale(xi, Ident(2 * op.k)), !.Y = Scale(Mul(I(-1), Mul(xi, xi)), op.Y)]
Insert(ms, new) == LET U == {ms[i] : i \in 1..Len(ms)} \union {new[i] : i \in 1..Len(new)}
                       RECURSIVE F(_)
                       F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F(T \ {x})
                   IN  F(U)
(* tensor product with a new state sigma on labels labs (increasing, none present) *)
Tensor(st, sg, labs) ==
  LET all == Insert(st.modes, labs)
      old(i) == LET mode == all[(i + 1) \div 2] IN IF \E p \in 1..Len(st.modes) : st.modes[p] = mode
                THEN 2 * ((CHOOSE p \in 1..Len(st.modes) : st.modes[p] = mode) - 1) + (2 - (i % 2)) ELSE 0
      nw(i) == LET mode == all[(i + 1) \div 2] IN IF \E p \in 1..Len(labs) : labs[p] = mode
                THEN 2 * ((CHOOSE p \in 1..Len(labs) : labs[p] = mode) - 1) + (2 - (i % 2)) ELSE 0
  IN  [st EXCEPT !.modes = all,
         !.W = TLCEval([i \in 1..2 * Len(all) |-> TLCEval([j \in 1..2 * Len(all) |->
                 IF old(i) > 0 /\ old(j) > 0 THEN st.W[old(i)][old(j)] ELSE IF nw(i) > 0 /\ nw(j) > 0 THEN sg.W[nw(i)][nw(j)] ELSE Zero])]),
         !.m = TLCEval([i \in 1..2 * Len(all) |-> IF old(i) > 0 THEN st.m[old(i)] ELSE sg.m[nw(i)]]),
         !.pure = st.pure /\ sg.pure, !.comp = FreshComp(Len(all))]
(* eliminating one quadrature row: conditioning a Gaussian on its value *)
Elim(e, i) ==                                   \* e = [W, m, det, expo], m being the difference to the value
  LET p == e.W[i][i]
      pi == Inv(p)
      row == e.W[i]
      ri == e.m[i]
      f == TLCEval([j \in 1..Len(row) |-> Mul(row[j], pi)])
  IN  [W |-> TLCEval([j \in 1..Len(row) |-> TLCEval([k \in 1..Len(row) |-> IF f[j][1] = 0 /\ f[j][2] = 1 THEN e.W[j][k] ELSE Sub2(e.W[j][k], Mul(f[j], row[k]))])]),
       m |-> TLCEval([j \in 1..Len(row) |-> IF j = i THEN Zero ELSE Sub2(e.m[j], Mul(f[j], ri))]),
       det |-> Mul(e.det, p), expo |-> Add(e.expo, Mul(Mul(ri, ri), pi))]
Drop(st, labs, W, m) ==                          \* forget the modes labs
  LET keep == LET RECURSIVE F(_)
                  F(p) == IF p > Len(st.modes) THEN <<>> ELSE (IF \E q \in 1..Len(labs) : labs[q] = st.modes[p] THEN <<>> ELSE <<p>>) \o F(p + 1)
              IN F(1)
      r == TLCEval([a \in 1..2 * Len(keep) |-> Row(keep, a)])
  IN  [st EXCEPT !.modes = [i \in 1..Len(keep) |-> st.modes[keep[i]]],
         !.W = TLCEval([a \in 1..Len(r) |-> [b \in 1..Len(r) |-> W[r[a]][r[b]]]]), !.m = TLCEval([a \in 1..Len(r) |-> m[r[a]]]),
         !.comp = FreshComp(Len(keep))]
RECURSIVE ElimAll(_, _, _)
ElimAll(e, rows, i) == IF i > Len(rows) THEN e ELSE ElimAll(TLCEval(Elim(e, rows[i])), rows, i + 1)
(* projection on the state sigma on labs: prob^2 = 4^k/det exp(-expo) *)
Project(st, sg, labs) ==
  LET pos == PosOf(st, labs)
      e == ElimAll([W |-> AddAt(st.W, sg.W, pos), m |-> AddV(st.m, ScaleV(I(-1), sg.m), pos), det |-> One, expo |-> Zero], Rows2(pos), 1)
  IN  [Drop(st, labs, e.W, e.m) EXCEPT !.prob = Append(st.prob, [t |-> "proj", k |-> Len(labs), det |-> e.det, expo |-> e.expo]),
                                       !.pure = st.pure /\ sg.pure]
(* homodyne: the quadrature cos x + sin p of one mode has the value v *)
Homodyne(st, lab, an, v) ==
  LET pos == PosOf(st, <<lab>>)
      rot == << <<an[1], an[2]>>, <<Neg(an[2]), an[1]>> >>
      W1 == ApplyX(rot, pos, st.W)
      m1 == ApplyV(rot, pos, st.m)
      e == Elim([W |-> W1, m |-> AddV(m1, <<Neg(v), Zero>>, pos), det |-> One, expo |-> Zero], Row(pos, 1))
  IN  [Drop(st, <<lab>>, e.W, e.m) EXCEPT !.prob = Append(st.prob, [t |-> "hom", k |-> 1, det |-> e.det, expo |-> e.expo])]
VacuumState == [kind |-> "Vacuum", k |-> 1, par |-> <<>>, W |-> Ident(2), m |-> ZeroV(2), pure |-> TRUE]
(* damping t^n: a beam splitter of amplitude t with a vacuum that is found in the vacuum again *)
Damp(st, lab, an) ==
  LET anc == 1000
      a == Tensor(st, VacuumState, <<anc>>)
      b == ApplyOp(a, [kind |-> "BS", k |-> 2, par |-> <<>>, X |-> OfUnitary(UBS(an, C1)), Y |-> <<>>, d |-> ZeroV(4)], <<lab, anc>>)
  IN  Project(b, VacuumState, <<anc>>)
Det(W) == ElimAll([W |-> W, m |-> ZeroV(Len(W)), det |-> One, expo |-> Zero], [i \in 1..Len(W) |-> i], 1).det
=============================================================================
