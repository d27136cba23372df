------------------------------ MODULE Measure ------------------------------
(* Measuring the modes of a state one after the other in an orthogonal basis.                               *)
(* A state is a sum of projectors on integer vectors (one vector: a ket), not normalised; its weight is the *)
(* sum of the squared norms.  Measuring the first unmeasured mode with outcome k replaces every vector by   *)
(* its component along basis vector k: the outcome's probability is the ratio of the weights.               *)
EXTENDS Rng, FiniteSets, Json

CONSTANTS Base, N, MaxSize
VARIABLES mid, st, hist, cur, left
vars == <<mid, st, hist, cur, left>>

(* ------------------------------------------------------------------ numbers *)
CM(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CA(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CC(a) == <<a[1], -a[2]>>
Sq(a) == a[1]*a[1] + a[2]*a[2]
RECURSIVE CSum(_, _)
CSum(f(_), n) == IF n = 0 THEN <<0, 0>> ELSE CA(f(n), CSum(f, n - 1))
RECURSIVE Prod(_, _)
Prod(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * Prod(q, i + 1)
Size(dims) == Prod(dims, 1)
Norm(v) == SumTo(LAMBDA i : Sq(v[i]), Len(v))
Weight(vs) == SumTo(LAMBDA j : Norm(vs[j]), Len(vs))
(* component of a vector over dims along u on the first mode *)
Along(v, dims, u) == LET r == Size(Tail(dims)) IN
  TLCEval([k \in 1..r |-> LET f(i) == CM(CC(u[i]), v[(i - 1) * r + k]) IN CSum(f, dims[1])])
RECURSIVE NonZero(_)
NonZero(vs) == IF vs = <<>> THEN <<>> ELSE (IF Norm(vs[1]) = 0 THEN <<>> ELSE <<vs[1]>>) \o NonZero(SubSeq(vs, 2, Len(vs)))

(* ------------------------------------------------------------------ bases (rows, all of squared norm K) *)
Fock(d) == [K |-> 1, b |-> TLCEval([i \in 1..d |-> [k \in 1..d |-> IF i = k THEN <<1, 0>> ELSE <<0, 0>>]])]
Had == [K |-> 2, b |-> << << <<1, 0>>, <<1, 0>> >>, << <<1, 0>>, <<-1, 0>> >> >>]
Circ == [K |-> 2, b |-> << << <<1, 0>>, <<0, 1>> >>, << <<1, 0>>, <<0, -1>> >> >>]
Tilt == [K |-> 5, b |-> << << <<2, 0>>, <<0, 1>> >>, << <<0, 1>>, <<2, 0>> >> >>]
Tri == [K |-> 9, b |-> << << <<1, 0>>, <<2, 0>>, <<0, 2>> >>, << <<2, 0>>, <<1, 0>>, <<0, -2>> >>, << <<2, 0>>, <<-2, 0>>, <<0, 1>> >> >>]
DFT4 == [K |-> 4, b |-> TLCEval([i \in 1..4 |-> [k \in 1..4 |-> CASE ((i - 1) * (k - 1)) % 4 = 0 -> <<1, 0>> [] ((i - 1) * (k - 1)) % 4 = 1 -> <<0, 1>>
                                                 [] ((i - 1) * (k - 1)) % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>]])]
Orthogonal(B) == \A i, j \in 1..Len(B.b) : LET f(k) == CM(CC(B.b[i][k]), B.b[j][k]) IN CSum(f, Len(B.b[1])) = IF i = j THEN <<B.K, 0>> ELSE <<0, 0>>
ASSUME \A B \in {Had, Circ, Tilt, DFT4, Tri} : Orthogonal(B)

(* ------------------------------------------------------------------ random states *)
Idx(dims, k, i) == (k \div Size(SubSeq(dims, i + 1, Len(dims)))) % dims[i]        \* digit i of flat index k (from 0)
Total(dims, k) == SumTo(LAMBDA i : Idx(dims, k, i), Len(dims))
Entry(s, k) == <<Rng(s, 2 * k, -2, 2), Rng(s, 2 * k + 1, -2, 2)>>
Vec(s, dims) ==
  LET kind == R(s, 1, 6)
      n == Size(dims)
      tot == 1 + R(s, 2, 3)
      keep(k) == CASE kind = 0 -> TRUE
                   [] kind = 1 -> Coin(s, 1000 + k, 35)
                   [] kind = 2 -> Total(dims, k) = tot                            \* a fixed number of photons
                   [] kind = 3 -> \A i \in 2..Len(dims) : Idx(dims, k, i) = (Idx(dims, k, 1) * (1 + R(s, 3 + i, 2)) + R(s, 5 + i, 3)) % dims[i]
                   [] kind = 4 -> Idx(dims, k, Len(dims)) = (Total(dims, k) - Idx(dims, k, Len(dims))) % dims[Len(dims)]   \* parity-like
                   [] kind = 5 -> Coin(s, 2000 + Idx(dims, k, 1), 60) /\ Coin(s, 2100 + Idx(dims, k, Len(dims)), 60)
  IN  TLCEval([k \in 1..n |-> IF keep(k - 1) THEN LET e == Entry(s, 100 + k) IN IF e = <<0, 0>> /\ kind > 1 THEN <<1, 0>> ELSE e ELSE <<0, 0>>])
BasisFor(s, d) == CASE d = 2 -> Pick(s, 1, <<Had, Circ, Tilt>>) [] d = 3 -> Tri [] OTHER -> DFT4
GenState(s) ==
  LET nm == Pick(s, 1, <<1, 2, 2, 2, 3, 3, 4>>)
      fock == Coin(s, 2, 60)
      d0 == Pick(s, 3, <<2, 2, 3, 4>>)
      dd == TLCEval([i \in 1..nm |-> IF fock THEN Rng(s, 10 + i, 2, 4) ELSE d0])
      dims == IF Size(dd) <= MaxSize THEN dd ELSE TLCEval([i \in 1..nm |-> 2])
      ket == Coin(s, 4, 50)
      nv == IF ket THEN 1 ELSE Rng(s, 5, 1, 3)
      vs == NonZero(TLCEval([j \in 1..nv |-> Vec(Sub(s, 10 + j), dims)]))
      mx == CHOOSE d \in {dims[i] : i \in 1..nm} : \A i \in 1..nm : dims[i] <= d
  IN  [dims |-> dims, ket |-> ket, vecs |-> vs, fock |-> fock \/ \E i \in 1..nm : dims[i] # dims[1],
       basis |-> IF fock \/ \E i \in 1..nm : dims[i] # dims[1] THEN Fock(mx) ELSE BasisFor(Sub(s, 6), dims[1])]
RECURSIVE FirstState(_, _)
FirstState(s, i) == LET x == TLCEval(GenState(Sub(s, 50 + i))) IN IF x.vecs # <<>> THEN x ELSE FirstState(s, i + 1)

(* ------------------------------------------------------------------ the machine *)
Project(vs, dims, B, k) == NonZero(TLCEval([j \in 1..Len(vs) |-> Along(vs[j], dims, B.b[k])]))
Rest == SubSeq(st.dims, Len(hist) + 1, Len(st.dims))
Outcomes(x, i) == IF x.fock THEN x.dims[i] ELSE Len(x.basis.b)
Init == /\ mid \in Seeds(Base, N) /\ st = FirstState(mid, 1) /\ hist = <<>> /\ cur = st.vecs /\ left = Len(st.dims)
Measure(k) == /\ left > 0
              /\ \E vs \in {Project(cur, Rest, st.basis, k)} : vs # <<>> /\ cur' = vs
              /\ hist' = Append(hist, k - 1) /\ left' = left - 1 /\ UNCHANGED <<mid, st>>
Next == \E k \in 1..4 : left > 0 /\ k <= Outcomes(st, Len(hist) + 1) /\ Measure(k)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ the Born rule, directly *)
RECURSIVE Amp(_, _, _, _)
Amp(v, dims, B, o) == IF o = <<>> THEN v ELSE Amp(TLCEval(Along(v, dims, B.b[o[1] + 1])), Tail(dims), B, Tail(o))
RECURSIVE AllOutcomes(_, _)
AllOutcomes(x, i) == IF i > Len(x.dims) THEN <<<<>>>>
  ELSE LET r == TLCEval(AllOutcomes(x, i + 1)) n == Len(r) IN TLCEval([k \in 1..(n * Outcomes(x, i)) |-> <<(k - 1) \div n>> \o r[((k - 1) % n) + 1]])
Joint(x) == LET os == TLCEval(AllOutcomes(x, 1)) IN
  TLCEval([i \in 1..Len(os) |-> SumTo(LAMBDA j : Sq(Amp(x.vecs[j], x.dims, x.basis, os[i])[1]), Len(x.vecs))])
(* measuring the modes in the opposite order *)
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Swap(v, dims) == LET rd == Rev(dims) IN TLCEval([k \in 1..Len(v) |->
   LET ds == [i \in 1..Len(dims) |-> Idx(rd, k - 1, Len(dims) + 1 - i)]
   IN v[1 + SumTo(LAMBDA i : ds[i] * Size(SubSeq(dims, i + 1, Len(dims))), Len(dims))]])

(* ------------------------------------------------------------------ photon statistics of Gaussian light *)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k < 0 \/ k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
Row1(f(_), cut) == TLCEval([i \in 1..cut |-> f(i - 1)])
Table2(f(_, _), cut) == TLCEval([i \in 1..cut |-> TLCEval([j \in 1..cut |-> f(i - 1, j - 1)])])
(* unnormalised weights below the cutoff; what lies beyond has probability below 10^-4 *)
Geometric == Row1(LAMBDA n : Pow(4, 7 - n) * 128, 8)                               \* tanh^2 r = 1/4
Poisson   == Row1(LAMBDA n : (5040 \div Fact(n)) * Pow(2, 7 - n), 8)              \* mean 1/2
Squeezed  == Row1(LAMBDA n : IF n % 2 = 0 THEN Binom(n, n \div 2) * Pow(16, 5 - n \div 2) ELSE 0, 12)
Pairs     == Table2(LAMBDA n, m : IF n = m THEN Pow(4, 7 - n) * 128 ELSE 0, 8)
PairsLoss == Table2(LAMBDA n, m : IF m > n THEN 0 ELSE Pow(4, 7 - n) * Binom(n, m) * Pow(2, 7 - n), 8)   \* half of the second beam lost
Split     == << <<0, 16>>, <<9, 0>> >>                                              \* one photon, cos = 3/5
HOM       == << <<0, 0, 1>>, <<0, 0, 0>>, <<1, 0, 0>> >>                           \* two photons on a balanced beam splitter
Marginal(T) == TLCEval([i \in 1..Len(T) |-> SumTo(LAMBDA j : T[i][j], Len(T[i]))])
Marginal2(T) == TLCEval([j \in 1..Len(T) |-> SumTo(LAMBDA i : T[i][j], Len(T))])
ASSUME Marginal(Pairs) = Geometric /\ Marginal2(Pairs) = Geometric /\ Marginal(PairsLoss) = Geometric
(* photon pairs and loss: the statistics of the second beam are again geometric, p(m) ~ (1/7)^m, up to the cutoff *)
ASSUME \A m \in 1..3 : LET t == Marginal2(PairsLoss) d == 7 * t[m + 1] - t[m] IN d < t[m] \div 100 /\ -d < t[m] \div 100
ASSUME PrintT("@@" \o ToJson([k |-> "fams", fams |-> <<
  [kind |-> "thermal", modes |-> 1, cut |-> 8, w |-> Geometric], [kind |-> "coherent", modes |-> 1, cut |-> 8, w |-> Poisson],
  [kind |-> "squeezed", modes |-> 1, cut |-> 12, w |-> Squeezed], [kind |-> "pair", modes |-> 2, cut |-> 8, w |-> Pairs],
  [kind |-> "pairloss", modes |-> 2, cut |-> 8, w |-> PairsLoss], [kind |-> "split", modes |-> 2, cut |-> 2, w |-> Split],
  [kind |-> "hom", modes |-> 2, cut |-> 3, w |-> HOM]>>]))

(* ------------------------------------------------------------------ laws *)
(* the weights of the outcomes of the next measurement add up to the weight of the state *)
Complete == left = 0 \/ SumTo(LAMBDA k : Weight(Project(cur, Rest, st.basis, k)), Outcomes(st, Len(hist) + 1)) = st.basis.K * Weight(cur)
(* conditioning step by step gives the joint weight *)
Chain == left > 0 \/ Weight(cur) = SumTo(LAMBDA j : Sq(Amp(st.vecs[j], st.dims, st.basis, hist)[1]), Len(st.vecs))
(* the order of the measurements does not matter *)
Order == left > 0 \/ Weight(cur) = SumTo(LAMBDA j : Sq(Amp(Swap(st.vecs[j], st.dims), Rev(st.dims), st.basis, Rev(hist))[1]), Len(st.vecs))
Total1 == hist # <<>> \/ LET jw == Joint(st) IN SumTo(LAMBDA i : jw[i], Len(jw)) = Pow(st.basis.K, Len(st.dims)) * Weight(st.vecs)
Laws == Complete /\ Chain /\ Order /\ Total1
Emit == /\ hist # <<>> \/ PrintT("@@" \o ToJson([k |-> "state", id |-> mid, dims |-> st.dims, ket |-> st.ket, vecs |-> st.vecs, fock |-> st.fock,
                                                basis |-> st.basis.b, K |-> st.basis.K, joint |-> Joint(st), norm |-> Weight(st.vecs)]))
        /\ hist = <<>> \/ left = 0 \/ PrintT("@@" \o ToJson([k |-> "cond", id |-> mid, hist |-> hist, w |-> Weight(cur), vecs |-> cur, dims |-> Rest]))
=============================================================================
