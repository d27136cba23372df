------------------------------ MODULE Lattice ------------------------------
(* Filling the Fock lattice of exp(1/2 z^T A z + b^T z) by its recurrence.                                              *)
(*    f_0 = 1,    f_{n + e_i} = b_i f_n + SUM_j A_ij n_j f_{n - e_j}                                                    *)
(* with Gaussian-integer A (symmetric) and b, so that every value is exact. The Fock amplitude of the function whose    *)
(* matrix is A / lam2, vector b / sqrt(lam2), vacuum amplitude c is  c f_n lam2^(-|n|/2) / sqrt(n!).                    *)
(* The machine fills one lattice point per step, in any order and from any pivot whose neighbours are filled; whatever  *)
(* the order, a filled point holds the loop hafnian of its multi-index (Confluent). Derivatives are exact too:          *)
(*    d f_n / d b_i = n_i f_{n - e_i},     d f_n / d(A_ij = A_ji) = n_i n_j f_{n - e_i - e_j}  (i # j),                  *)
(*    d f_n / d A_ii = n_i (n_i - 1) / 2 f_{n - 2 e_i}                                                                  *)
(* and TLC checks them against the exact Taylor expansion of the polynomial f_n (TaylorB, TaylorA).                     *)
EXTENDS Rng, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Base, N, Mode      \* Mode = "fill" (all orders), "table" (one record per seed)
VARIABLES seed, prob, tab
vars == <<seed, prob, tab>>

(* ------------------------------------------------------- Gaussian integers *)
Z == <<0, 0>>
One == <<1, 0>>
Pl(x, y) == <<x[1] + y[1], x[2] + y[2]>>
Ti(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
Sc(k, x) == <<k * x[1], k * x[2]>>
Cj(x) == <<x[1], -x[2]>>
Ne(x) == <<-x[1], -x[2]>>
RECURSIVE SumZ(_, _)
SumZ(s, k) == IF k = 0 THEN Z ELSE Pl(SumZ(s, k - 1), s[k])      \* s[1] + ... + s[k]

(* ----------------------------------------------------------- the lattice *)
Low(n, i) == [n EXCEPT ![i] = @ - 1]
RECURSIVE Wt(_, _)
Wt(n, k) == IF k = 0 THEN 0 ELSE Wt(n, k - 1) + n[k]
W(n) == Wt(n, Len(n))
RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Size(Tail(sh))
RECURSIVE Digits(_, _)
Digits(sh, k) == IF sh = <<>> THEN <<>> ELSE LET r == Size(Tail(sh)) IN <<k \div r>> \o Digits(Tail(sh), k % r)
Box(sh) == {Digits(sh, k) : k \in 0..(Size(sh) - 1)}
(* the value of n obtained from its pivot n - e_i, T being a table with the needed neighbours *)
Value(p, T, n, i) ==
  LET q == Low(n, i) D == Len(n)
  IN  Pl(Ti(p.b[i], T[q]), SumZ([j \in 1..D |-> IF q[j] = 0 THEN Z ELSE Sc(q[j], Ti(p.A[i][j], T[Low(q, j)]))], D))
Needs(n, i) == {Low(n, i)} \cup {Low(Low(n, i), j) : j \in {k \in 1..Len(n) : Low(n, i)[k] > 0}}

(* ---------------------------------------------------- the whole table, by weight *)
RECURSIVE Levels(_, _, _, _)
Levels(p, sh, w, T) ==
  LET new == {n \in Box(sh) : W(n) = w}
  IN  IF new = {} THEN T
      ELSE Levels(p, sh, w + 1, TLCEval([n \in DOMAIN T \cup new |->
             IF n \in new THEN Value(p, T, n, CHOOSE i \in 1..Len(n) : n[i] > 0) ELSE T[n]]))
Table(p, sh) == Levels(p, sh, 1, TLCEval([n \in {[i \in 1..Len(sh) |-> 0]} |-> One]))

(* ------------------------------------------------------------ loop hafnian *)
(* idx: the sequence of variables to be matched, each with a partner or with a loop *)
RECURSIVE Haf(_, _)
Haf(p, idx) ==
  IF idx = <<>> THEN One
  ELSE LET h == Head(idx) t == Tail(idx)
       IN  Pl(Ti(p.b[h], Haf(p, t)),
              SumZ([k \in 1..Len(t) |-> Ti(p.A[h][t[k]], Haf(p, SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t))))], Len(t)))
RECURSIVE Unary(_, _)
Unary(n, i) == IF i > Len(n) THEN <<>> ELSE [k \in 1..n[i] |-> i] \o Unary(n, i + 1)
LoopHaf(p, n) == Haf(p, Unary(n, 1))

(* ------------------------------------------------------- directional derivative *)
(* of f_n along the direction d = [A |-> symmetric matrix, b |-> vector] *)
DVal(T, n, d) ==
  LET D == Len(n)
      fb == SumZ([i \in 1..D |-> IF n[i] = 0 THEN Z ELSE Sc(n[i], Ti(d.b[i], T[Low(n, i)]))], D)
      fd == SumZ([i \in 1..D |-> IF n[i] < 2 THEN Z ELSE Sc((n[i] * (n[i] - 1)) \div 2, Ti(d.A[i][i], T[Low(Low(n, i), i)]))], D)
      fo == SumZ([i \in 1..D |-> SumZ([j \in 1..D |-> IF j <= i \/ n[i] = 0 \/ n[j] = 0 THEN Z
                                      ELSE Sc(n[i] * n[j], Ti(d.A[i][j], T[Low(Low(n, i), j)]))], D)], D)
  IN  Pl(fb, Pl(fd, fo))

(* ------------------------------------------------------------- random problems *)
Unit(s, i) == Pick(s, i, <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>)
Small(s, i) == IF Coin(s, i, 25) THEN Z ELSE <<Rng(s, i + 1, -1, 1), Rng(s, i + 2, -1, 1)>>
SymM(s, D) == [i \in 1..D |-> [j \in 1..D |-> LET a == IF i < j THEN i ELSE j c == IF i < j THEN j ELSE i IN Small(s, 100 + 30 * a + 3 * c)]]
(* real problems have real A, b: what a Hermitian density matrix needs is A = [[X, Y], [Y*, X*]], b = [v, v*] *)
HermM(s, M) == LET S == SymM(s, M) Q == SymM(Sub(s, 5), M)
                   Y == [i \in 1..M |-> [j \in 1..M |-> IF i = j THEN <<Q[i][i][1], 0>> ELSE IF i < j THEN Q[i][j] ELSE Cj(Q[j][i])]]
               IN  [i \in 1..(2 * M) |-> [j \in 1..(2 * M) |->
                      IF i <= M /\ j <= M THEN Cj(S[i][j]) ELSE IF i > M /\ j > M THEN S[i - M][j - M]
                      ELSE IF i <= M THEN Y[i][j - M] ELSE Y[j][i - M]]]
Clip(sh, cap) ==    \* reduce the largest dimensions until the weights and the size are manageable
  LET RECURSIVE go(_)
      go(x) == IF W(x) - Len(x) <= cap /\ Size(x) <= 400 THEN x
               ELSE go([x EXCEPT ![CHOOSE i \in 1..Len(x) : \A j \in 1..Len(x) : x[j] <= x[i]] = @ - 1])
  IN  go(sh)
Shape(s, D, cap) == Clip([i \in 1..D |-> IF Coin(s, 400 + i, 12) THEN 1 ELSE IF D = 1 THEN Rng(s, 410 + i, 2, 13) ELSE Rng(s, 410 + i, 2, 7 - D)], cap)
Generic(s) ==
  LET D == Rng(s, 1, 1, 4)
      d2 == Sub(s, 3)
  IN  [kind |-> "generic", A |-> SymM(s, D), b |-> [i \in 1..D |-> Small(s, 20 + 3 * i)], lam2 |-> Pick(s, 2, <<1, 2, 5, 10>>), shape |-> Shape(s, D, 11),
       dirs |-> <<[name |-> "dir", A |-> SymM(d2, D), b |-> [i \in 1..D |-> Small(d2, 20 + 3 * i)]]>>]
(* M modes detected by photon-number resolving detectors: bra and ket variables of every mode *)
Pnr(s) ==
  LET M == Rng(s, 1, 1, 3)
      cut == Clip([i \in 1..M |-> IF Coin(s, 450 + i, 12) THEN 1 ELSE Rng(s, 410 + i, 2, IF M = 1 THEN 6 ELSE 5 - M + (IF Coin(s, 460, 25) THEN 1 ELSE 0))], 5)
      v == [i \in 1..M |-> Small(s, 20 + 3 * i)]
      d2 == Sub(s, 3)
      herm == Coin(s, 4, 60)
      dv == [i \in 1..M |-> Small(d2, 20 + 3 * i)]
  IN  [kind |-> "pnr", M |-> M, A |-> IF herm THEN HermM(s, M) ELSE SymM(s, 2 * M),
       b |-> IF herm THEN [i \in 1..M |-> Cj(v[i])] \o v ELSE v \o [i \in 1..M |-> Small(s, 40 + 3 * i)],
       lam2 |-> Pick(s, 2, <<1, 2, 5, 10>>), shape |-> cut \o cut,
       dirs |-> <<[name |-> "dir", A |-> SymM(d2, 2 * M), b |-> dv \o [i \in 1..M |-> Small(d2, 40 + 3 * i)]]>>]
(* gates with their own Fock amplitudes: A scaled by lam2, b by sqrt(lam2); u is the phase e^(i phi) times 5 or 1 *)
ZeroM(D) == [i \in 1..D |-> [j \in 1..D |-> Z]]
ZeroV(D) == [i \in 1..D |-> Z]
Mat2(a, c, d) == <<<<a, c>>, <<c, d>>>>
Displ(s) ==
  LET al == <<Rng(s, 2, -3, 3), Rng(s, 3, -3, 3)>>
      dir(n, z) == [name |-> n, A |-> ZeroM(2), b |-> <<z, Ne(Cj(z))>>]
  IN  [kind |-> "displacement", par |-> <<al>>, A |-> Mat2(Z, <<4, 0>>, Z), b |-> <<al, Ne(Cj(al))>>, lam2 |-> 4, shape |-> Shape(s, 2, 9),
       dirs |-> <<dir("re", <<2, 0>>), dir("im", <<0, 2>>)>>]
(* tanh r = sg * 3/5 or sg * 4/5, e^(i phi) = ph / q with q = |ph| *)
Phases == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<3, 4>>, <<-4, 3>>, <<5, 0>>>>
Sqz(s) ==
  LET ph == Pick(s, 2, <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>)
      tc == Pick(s, 3, <<<<3, 4>>, <<-3, 4>>, <<4, 3>>, <<0, 5>>>>)
      t == tc[1] c == tc[2]
      th == Sc(5 * t, ph)        \* 25 e^(i phi) tanh r
      Iu == <<0, 1>>
  IN  [kind |-> "squeezer", par |-> <<tc, ph>>, A |-> Mat2(Ne(th), <<5 * c, 0>>, Cj(th)), b |-> ZeroV(2), lam2 |-> 25, shape |-> Shape(s, 2, 7),
       dirs |-> <<[name |-> "r", A |-> Mat2(Ne(Sc(c * c, ph)), <<-(t * c), 0>>, Sc(c * c, Cj(ph))), b |-> ZeroV(2)],
                  [name |-> "phi", A |-> Mat2(Ne(Ti(Iu, th)), Z, Ti(Ne(Iu), Cj(th))), b |-> ZeroV(2)]>>]
SqVac(s) ==
  LET ph == Pick(s, 2, <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>)
      tc == Pick(s, 3, <<<<3, 4>>, <<-3, 4>>, <<4, 3>>, <<0, 5>>>>)
      th == Sc(5 * tc[1], ph)
  IN  [kind |-> "squeezed", par |-> <<tc, ph>>, A |-> <<<<Ne(th)>>>>, b |-> ZeroV(1), lam2 |-> 25, shape |-> <<Rng(s, 5, 1, 9)>>,
       dirs |-> <<[name |-> "r", A |-> <<<<Ne(Sc(tc[2] * tc[2], ph))>>>>, b |-> ZeroV(1)],
                  [name |-> "phi", A |-> <<<<Ne(Ti(<<0, 1>>, th))>>>>, b |-> ZeroV(1)]>>]
(* cos theta = c/5, sin theta = t/5, e^(i phi) = ph / |ph|: variables out0 out1 in0 in1 *)
BlockA(V) == <<<<Z, Z, V[1][1], V[1][2]>>, <<Z, Z, V[2][1], V[2][2]>>, <<V[1][1], V[2][1], Z, Z>>, <<V[1][2], V[2][2], Z, Z>>>>
Beam(s) ==
  LET big == Coin(s, 2, 35)
      ph == IF big THEN Pick(s, 3, <<<<3, 4>>, <<-4, 3>>, <<3, -4>>>>) ELSE Pick(s, 3, <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>)
      k == IF big THEN 5 ELSE 1
      cs == Pick(s, 4, <<<<3, 4>>, <<4, 3>>, <<-3, 4>>, <<3, -4>>, <<5, 0>>, <<0, 5>>>>)
      c == cs[1] t == cs[2]
      Mk(cc, tt, p) == BlockA(<<<<<<k * cc, 0>>, Ne(Sc(tt, Cj(p)))>>, <<Sc(tt, p), <<k * cc, 0>>>>>>)
      ip == Ti(<<0, 1>>, ph)
  IN  [kind |-> "beamsplitter", par |-> <<cs, ph>>, A |-> Mk(c, t, ph), b |-> ZeroV(4), lam2 |-> 5 * k,
       shape |-> Clip([i \in 1..4 |-> IF Coin(s, 400 + i, 12) THEN 1 ELSE Rng(s, 410 + i, 2, 5)], IF big THEN 7 ELSE 10),
       dirs |-> <<[name |-> "theta", A |-> Mk(-t, c, ph), b |-> ZeroV(4)],
                  [name |-> "phi", A |-> BlockA(<<<<Z, Ne(Sc(t, Cj(ip)))>>, <<Sc(t, ip), Z>>>>), b |-> ZeroV(4)]>>]
Problem(s) ==
  LET k == R(s, 0, 10)
  IN  TLCEval(IF k <= 3 THEN Generic(s) ELSE IF k <= 5 THEN Pnr(s) ELSE IF k = 6 THEN Displ(s) ELSE IF k = 7 THEN Sqz(s) ELSE IF k = 8 THEN Beam(s) ELSE SqVac(s))
Tiny(s) == [kind |-> "generic", A |-> SymM(s, 3), b |-> [i \in 1..3 |-> Small(s, 20 + 3 * i)], lam2 |-> 1,
            shape |-> Pick(s, 5, <<<<3, 3, 1>>, <<2, 2, 2>>, <<4, 1, 2>>, <<2, 3, 2>>, <<1, 3, 2>>>>), dirs |-> <<>>]

(* --------------------------------------------------------------- the machine *)
Init == /\ seed \in Seeds(Base, N)
        /\ prob = IF Mode = "fill" THEN Tiny(seed) ELSE Problem(seed)
        /\ tab = IF Mode = "fill" THEN [n \in {[i \in 1..Len(prob.shape) |-> 0]} |-> One] ELSE Table(prob, prob.shape)
Fill(n, i) ==
  /\ n[i] > 0 /\ n \notin DOMAIN tab /\ Needs(n, i) \subseteq DOMAIN tab
  /\ tab' = [m \in DOMAIN tab \cup {n} |-> IF m = n THEN Value(prob, tab, n, i) ELSE tab[m]]
  /\ UNCHANGED <<seed, prob>>
Next == Mode = "fill" /\ \E n \in Box(prob.shape), i \in 1..Len(prob.shape) : Fill(n, i)
Spec == Init /\ [][Next]_vars

(* ----------------------------------------------------------------- invariants *)
Confluent == Mode = "fill" => \A n \in DOMAIN tab : tab[n] = LoopHaf(prob, n)
Complete == (Mode = "fill" /\ ~ENABLED Next) => DOMAIN tab = Box(prob.shape)
Pivots == Mode = "table" => \A n \in DOMAIN tab : \A i \in 1..Len(n) : n[i] > 0 => tab[n] = Value(prob, tab, n, i)
(* a lattice point with more pivots than one is over-determined, and small ones equal the loop hafnian *)
Hafnians == Mode = "table" => \A n \in DOMAIN tab : W(n) <= 4 => tab[n] = LoopHaf(prob, n)
(* exact Taylor expansions of f_n: first-order coefficients are the derivatives used below *)
RECURSIVE Bin(_, _)
Bin(n, k) == IF k = 0 THEN 1 ELSE (Bin(n, k - 1) * (n - k + 1)) \div k
RECURSIVE Fall(_, _)
Fall(n, k) == IF k = 0 THEN 1 ELSE (n - k + 1) * Fall(n, k - 1)
RECURSIVE Fact(_)
Fact(k) == IF k = 0 THEN 1 ELSE k * Fact(k - 1)
Down(n, i, k) == [n EXCEPT ![i] = @ - k]
TaylorB == Mode = "fill" => \A i \in 1..Len(prob.shape) :
  LET q == [prob EXCEPT !.b[i] = Pl(@, One)]
  IN  \A n \in DOMAIN tab : LoopHaf(q, n) = SumZ([k \in 1..(n[i] + 1) |-> Sc(Bin(n[i], k - 1), LoopHaf(prob, Down(n, i, k - 1)))], n[i] + 1)
Min(a, b) == IF a < b THEN a ELSE b
TaylorA == Mode = "fill" => \A i, j \in 1..Len(prob.shape) :
  IF i > j THEN TRUE
  ELSE IF i < j THEN
    LET q == [prob EXCEPT !.A[i][j] = Pl(@, One), !.A[j][i] = Pl(@, One)]
    IN  \A n \in DOMAIN tab : LET K == Min(n[i], n[j]) + 1
          IN LoopHaf(q, n) = SumZ([k \in 1..K |-> Sc((Fall(n[i], k - 1) * Fall(n[j], k - 1)) \div Fact(k - 1), LoopHaf(prob, Down(Down(n, i, k - 1), j, k - 1)))], K)
  ELSE
    LET q == [prob EXCEPT !.A[i][i] = Pl(@, <<2, 0>>)]
    IN  \A n \in DOMAIN tab : LET K == (n[i] \div 2) + 1
          IN LoopHaf(q, n) = SumZ([k \in 1..K |-> Sc(Fall(n[i], 2 * (k - 1)) \div Fact(k - 1), LoopHaf(prob, Down(n, i, 2 * (k - 1))))], K)
(* a gate's unitarity shows in its rows: photon number is conserved by a beam splitter *)
Conserved == (Mode = "table" /\ prob.kind = "beamsplitter") => \A n \in DOMAIN tab : n[1] + n[2] # n[3] + n[4] => tab[n] = Z
(* Hermitian problems have Hermitian tables *)
Flat(x, sh) == [k \in 1..Size(sh) |-> x[Digits(sh, k - 1)]]
Emit == Mode = "table" => PrintT("@@" \o ToJson([prob |-> prob, f |-> Flat(tab, prob.shape),
          d |-> [k \in 1..Len(prob.dirs) |-> Flat([n \in DOMAIN tab |-> DVal(tab, n, prob.dirs[k])], prob.shape)]]))
=============================================================================
