------------------------------- MODULE Stats -------------------------------
(* What can be read off a state: norms, purities, expectation values, overlaps, reduced states, number          *)
(* distributions, quadrature densities and Wigner functions, all by the trace formula in exact arithmetic.       *)
(* A state is a weighted sum of projectors on vectors given by their Bargmann polynomials: the amplitude at the  *)
(* photon numbers n is x[n] * sqrt(n!), x a Gaussian integer, so that inner products are sums of n! conj(y) x.   *)
(* Operators have entries o[m,n] * sqrt(m! n!).  The state is grown by composition, operators, partial traces,   *)
(* projections, sums and multiples; after every step it is observed.                                            *)
EXTENDS Rng, FiniteSets, Json

CONSTANTS Base, N, MaxSteps
VARIABLES seed, st, rec, left
vars == <<seed, st, rec, left>>

CM(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CA(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CC(a) == <<a[1], -a[2]>>
CS(k, a) == <<k * a[1], k * a[2]>>
Sq(a) == a[1]*a[1] + a[2]*a[2]
Zero == <<0, 0>>
RECURSIVE CSum(_, _)
CSum(f(_), n) == IF n = 0 THEN Zero ELSE CA(f(n), CSum(f, n - 1))
RECURSIVE CPow(_, _)
CPow(a, k) == IF k = 0 THEN <<1, 0>> ELSE CM(a, CPow(a, k - 1))
RECURSIVE Prod(_, _)
Prod(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * Prod(q, i + 1)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE Fact(n) \div (Fact(k) * Fact(n - k))
RECURSIVE IPow(_, _)
IPow(a, k) == IF k = 0 THEN 1 ELSE a * IPow(a, k - 1)

(* ------------------------------------------------------------------ indices *)
Size(dims) == Prod(dims, 1)
Digit(dims, k, i) == (k \div Size(SubSeq(dims, i + 1, Len(dims)))) % dims[i]     \* digit i of the flat index k (from 0)
Digits(dims, k) == [i \in 1..Len(dims) |-> Digit(dims, k, i)]
Inside(dims, dg) == \A i \in 1..Len(dims) : dg[i] < dims[i]
RECURSIVE FlatFrom(_, _, _)
FlatFrom(dims, dg, i) == IF i = 0 THEN 0 ELSE FlatFrom(dims, dg, i - 1) * dims[i] + dg[i]
Flat(dims, dg) == FlatFrom(dims, dg, Len(dims))
At(v, dims, dg) == IF Inside(dims, dg) THEN v[1 + Flat(dims, dg)] ELSE Zero
DFact(dims, k) == Prod([i \in 1..Len(dims) |-> Fact(Digit(dims, k, i))], 1)
PosIn(i, pos) == CHOOSE j \in 1..Len(pos) : pos[j] = i
Others(n, pos) == SelectSeq([i \in 1..n |-> i], LAMBDA i : \A j \in 1..Len(pos) : pos[j] # i)
RECURSIVE Take(_, _)
Take(q, pos) == IF pos = <<>> THEN <<>> ELSE <<q[Head(pos)]>> \o Take(q, Tail(pos))
(* photon numbers t at the positions pos and r at the others *)
Merge(n, pos, t, r) == LET oth == Others(n, pos) IN
  [i \in 1..n |-> IF \E j \in 1..Len(pos) : pos[j] = i THEN t[PosIn(i, pos)] ELSE r[PosIn(i, oth)]]

(* ------------------------------------------------------------------ vectors *)
Norm(v, dims) == SumTo(LAMBDA k : DFact(dims, k - 1) * Sq(v[k]), Len(v))
Inner(y, dy, x, dx) == LET f(k) == LET dg == Digits(dy, k - 1) IN CS(DFact(dy, k - 1), CM(CC(y[k]), At(x, dx, dg))) IN CSum(f, Len(y))
(* <phi| at the positions pos: what remains of the vector on the others *)
Partial(phi, dp, pos, v, dims) ==
  LET n == Len(dims)
      rd == Take(dims, Others(n, pos))
  IN  TLCEval([r \in 1..Size(rd) |->
        LET f(t) == IF phi[t] = Zero THEN Zero ELSE CS(DFact(dp, t - 1), CM(CC(phi[t]), At(v, dims, Merge(n, pos, Digits(dp, t - 1), Digits(rd, r - 1)))))
        IN  CSum(f, Len(phi))])
Basis(dims, k) == TLCEval([i \in 1..Size(dims) |-> IF i = k + 1 THEN <<1, 0>> ELSE Zero])
(* an operator (table out x in) at the positions pos *)
OutDims(dims, pos, do) == [i \in 1..Len(dims) |-> IF \E j \in 1..Len(pos) : pos[j] = i THEN do[PosIn(i, pos)] ELSE dims[i]]
Act(o, do, di, pos, v, dims) ==
  LET n == Len(dims)
      nd == OutDims(dims, pos, do)
      oth == Others(n, pos)
  IN  TLCEval([k \in 1..Size(nd) |->
        LET dg == Digits(nd, k - 1)
            row == 1 + Flat(do, Take(dg, pos))
            r == Take(dg, oth)
            f(t) == IF o[row][t] = Zero THEN Zero ELSE CS(DFact(di, t - 1), CM(o[row][t], At(v, dims, Merge(n, pos, Digits(di, t - 1), r))))
        IN  CSum(f, Size(di))])

(* ------------------------------------------------------------------ states: [modes, dims, mix, ket] *)
Prob(x) == SumTo(LAMBDA k : x.mix[k].w * Norm(x.mix[k].v, x.dims), Len(x.mix))
HS2(x, y) == SumTo(LAMBDA k : SumTo(LAMBDA l : x.mix[k].w * y.mix[l].w * Sq(Inner(x.mix[k].v, x.dims, y.mix[l].v, y.dims)), Len(y.mix)), Len(x.mix))
HS(x) == HS2(x, x)
RECURSIVE Cat(_, _)
Cat(f(_), n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f(n)
NZ(mix, dims) == SelectSeq(mix, LAMBDA e : \E k \in 1..Len(e.v) : e.v[k] # Zero)
(* the other positions are traced out: one term for every basis vector there *)
Reduce(x, keep) ==
  LET n == Len(x.dims)
      out == Others(n, keep)
      od == Take(x.dims, out)
      f(j) == LET e == x.mix[j] IN [k \in 1..Size(od) |->
                LET rd == Take(x.dims, keep) IN
                [w |-> e.w * DFact(od, k - 1), v |-> TLCEval([r \in 1..Size(rd) |-> At(e.v, x.dims, Merge(n, out, Digits(od, k - 1), Digits(rd, r - 1)))])]]
  IN  [modes |-> Take(x.modes, keep), dims |-> Take(x.dims, keep), ket |-> FALSE, mix |-> TLCEval(NZ(Cat(f, Len(x.mix)), <<>>))]
Project(x, phi, dp, pos) ==
  LET oth == Others(Len(x.dims), pos) IN
  [x EXCEPT !.modes = Take(x.modes, oth), !.dims = Take(x.dims, oth),
            !.mix = TLCEval([k \in 1..Len(x.mix) |-> [w |-> x.mix[k].w, v |-> Partial(phi, dp, pos, x.mix[k].v, x.dims)]])]
Apply(x, op, pos) ==
  [x EXCEPT !.dims = OutDims(x.dims, pos, op.do),
            !.mix = TLCEval([k \in 1..Len(x.mix) |-> [w |-> x.mix[k].w, v |-> Act(op.o, op.do, op.di, pos, x.mix[k].v, x.dims)]])]
RECURSIVE InsertAt(_, _, _)
InsertAt(q, i, e) == SubSeq(q, 1, i - 1) \o <<e>> \o SubSeq(q, i, Len(q))
Join(x, y, i) ==        \* y has one mode, which becomes position i
  LET nd == InsertAt(x.dims, i, y.dims[1])
      f(k) == [l \in 1..Len(y.mix) |->
         [w |-> x.mix[k].w * y.mix[l].w,
          v |-> TLCEval([j \in 1..Size(nd) |-> LET dg == Digits(nd, j - 1) IN
                  CM(At(y.mix[l].v, y.dims, <<dg[i]>>), At(x.mix[k].v, x.dims, Take(dg, Others(Len(nd), <<i>>))))])]]
  IN  [modes |-> InsertAt(x.modes, i, y.modes[1]), dims |-> nd, ket |-> x.ket /\ y.ket, mix |-> TLCEval(Cat(f, Len(x.mix)))]
PadTo(v, dims, nd) == TLCEval([k \in 1..Size(nd) |-> At(v, dims, Digits(nd, k - 1))])
MaxD(a, b) == [i \in 1..Len(a) |-> IF a[i] > b[i] THEN a[i] ELSE b[i]]
Add(x, y) ==            \* kets: superposition; otherwise mixture
  LET nd == MaxD(x.dims, y.dims) IN
  IF x.ket THEN [x EXCEPT !.dims = nd, !.mix = <<[w |-> 1, v |-> TLCEval([k \in 1..Size(nd) |-> CA(At(x.mix[1].v, x.dims, Digits(nd, k - 1)), At(y.mix[1].v, y.dims, Digits(nd, k - 1)))])]>>]
  ELSE [x EXCEPT !.dims = nd, !.mix = TLCEval([k \in 1..(Len(x.mix) + Len(y.mix)) |->
          IF k <= Len(x.mix) THEN [w |-> x.mix[k].w, v |-> PadTo(x.mix[k].v, x.dims, nd)]
          ELSE [w |-> y.mix[k - Len(x.mix)].w, v |-> PadTo(y.mix[k - Len(x.mix)].v, y.dims, nd)]])]
Scaled(x, c) == [x EXCEPT !.mix = TLCEval([k \in 1..Len(x.mix) |-> IF x.ket THEN [w |-> 1, v |-> [j \in 1..Len(x.mix[k].v) |-> CM(c, x.mix[k].v[j])]]
                                                                     ELSE [w |-> c[1] * x.mix[k].w, v |-> x.mix[k].v]])]

(* ------------------------------------------------------------------ random objects *)
Entry(s, k) == <<Rng(s, 2 * k, -2, 2), Rng(s, 2 * k + 1, -1, 1)>>
RVec(s, dims) ==
  LET n == Size(dims)
      p == Pick(s, 1, <<25, 45, 100>>)
      a == TLCEval([k \in 1..n |-> IF Coin(s, 100 + k, p) THEN Entry(s, 300 + k) ELSE Zero])
  IN  IF \A k \in 1..n : a[k] = Zero THEN TLCEval([a EXCEPT ![1 + R(s, 2, n)] = <<1, 1>>]) ELSE a
RDims(s, n) == [i \in 1..n |-> IF n = 1 THEN Pick(s, i, <<1, 2, 3, 4>>) ELSE Pick(s, 10 + i, <<1, 2, 2, 3, 3>>)]
RMix(s, dims, ket) == LET m == IF ket THEN 1 ELSE 1 + R(s, 3, 3) IN [k \in 1..m |-> [w |-> IF ket THEN 1 ELSE Pick(s, 20 + k, <<1, 1, 2>>), v |-> RVec(Sub(s, k), dims)]]
RState(s, modes, ket) == LET d == TLCEval(RDims(s, Len(modes))) IN [modes |-> modes, dims |-> d, ket |-> ket, mix |-> TLCEval(RMix(Sub(s, 30), d, ket))]
ROp(s, k) ==
  LET do == TLCEval(RDims(Sub(s, 1), k))
      di == TLCEval(RDims(Sub(s, 2), k))
  IN  [do |-> do, di |-> di, o |-> TLCEval([m \in 1..Size(do) |-> [n \in 1..Size(di) |-> IF Coin(s, 20 * m + n, 35) THEN <<Rng(s, 500 + 20 * m + n, -1, 1), Rng(s, 900 + 20 * m + n, -1, 1)>> ELSE Zero]])]
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SortSet(S \ {m})
RPos(s, n, k) ==       \* k positions out of n
  SortSet(CHOOSE S \in SUBSET (1..n) : Cardinality(S) = k /\ \A T \in SUBSET (1..n) : Cardinality(T) = k => SumTo(LAMBDA i : IF i \in S THEN H(s, 40 + i) ELSE 0, n) >= SumTo(LAMBDA i : IF i \in T THEN H(s, 40 + i) ELSE 0, n))

(* ------------------------------------------------------------------ observations *)
(* n >= m: m! L_m^(n-m)(y) *)
Laguerre(m, k, y) == SumTo(LAMBDA i1 : LET i == i1 - 1 IN (IF i % 2 = 0 THEN 1 ELSE -1) * (Fact(m) \div Fact(i)) * Choose(m + k, m - i) * IPow(y, i), m + 1)
WMN(m, n, z) == IF n >= m THEN CS((IF m % 2 = 0 THEN 1 ELSE -1) * Laguerre(m, n - m, Sq(z)), CPow(z, n - m))
                ELSE CS((IF n % 2 = 0 THEN 1 ELSE -1) * Laguerre(n, m - n, Sq(z)), CPow(CC(z), m - n))
RECURSIVE CProd(_, _)
CProd(f(_), n) == IF n = 0 THEN <<1, 0>> ELSE CM(f(n), CProd(f, n - 1))
(* the Wigner function at 2 alpha = z, without its Gaussian factor *)
Wig(x, z) == SumTo(LAMBDA e : x.mix[e].w * SumTo(LAMBDA a : IF x.mix[e].v[a] = Zero THEN 0 ELSE SumTo(LAMBDA b :
                IF x.mix[e].v[b] = Zero THEN 0 ELSE
                LET g(i) == WMN(Digit(x.dims, a - 1, i), Digit(x.dims, b - 1, i), z[i])
                IN  CM(CM(x.mix[e].v[a], CC(x.mix[e].v[b])), CProd(g, Len(x.dims)))[1], Len(x.mix[e].v)), Len(x.mix[e].v)), Len(x.mix))
RECURSIVE He(_, _)
He(n, t) == IF n = 0 THEN 1 ELSE IF n = 1 THEN t ELSE t * He(n - 1, t) - (n - 1) * He(n - 2, t)
(* the density of the quadrature at angle ph quarter turns at q = t / sqrt 2, without its Gaussian factor *)
Quad(x, t, ph) == SumTo(LAMBDA e : x.mix[e].w * Sq(
     LET f(a) == LET dg == Digits(x.dims, a - 1) IN CS(Prod([i \in 1..Len(dg) |-> He(dg[i], t[i])], 1), CM(x.mix[e].v[a], CPow(<<0, -1>>, (ph * SumTo(LAMBDA i : dg[i], Len(dg))) % 4)))
     IN  CSum(f, Len(x.mix[e].v))), Len(x.mix))
Dist(x) == TLCEval([k \in 1..Size(x.dims) |-> DFact(x.dims, k - 1) * SumTo(LAMBDA e : x.mix[e].w * Sq(x.mix[e].v[k]), Len(x.mix))])
Expect(x, op, pos) == LET f(e) == CS(x.mix[e].w, Inner(x.mix[e].v, x.dims, Act(op.o, op.do, op.di, pos, x.mix[e].v, x.dims), OutDims(x.dims, pos, op.do))) IN CSum(f, Len(x.mix))
Overlap(x, y, pos) ==   \* y (weighted projectors) at the positions pos
  SumTo(LAMBDA k : y.mix[k].w * SumTo(LAMBDA e : x.mix[e].w * Norm(Partial(y.mix[k].v, y.dims, pos, x.mix[e].v, x.dims), Take(x.dims, Others(Len(x.dims), pos))), Len(x.mix)), Len(y.mix))
(* after random rotations of mode i, normally distributed with variance 2 k ln 2, the entry <a|rho|b> is divided by 2 to the power *)
NoiseExp(x, i, k) == [a \in 1..Size(x.dims) |-> [b \in 1..Size(x.dims) |-> LET d == Digit(x.dims, a - 1, i) - Digit(x.dims, b - 1, i) IN k * d * d]]
Observe(s, x) ==
  LET n == Len(x.dims)
      k == Pick(s, 1, <<1, 1, 2, n>>)
      kk == IF k > n THEN n ELSE k
      pos == TLCEval(RPos(Sub(s, 2), n, kk))
      kp == TLCEval(RPos(Sub(s, 3), n, 1 + R(s, 4, n)))
      phi == RState(Sub(s, 5), Take(x.modes, pos), TRUE)
      sig == RState(Sub(s, 6), Take(x.modes, pos), FALSE)
      op == ROp(Sub(s, 7), IF kk > 2 THEN 1 ELSE kk)
      opos == IF kk > 2 THEN <<pos[1]>> ELSE pos
      full == RState(Sub(s, 8), x.modes, TRUE)
      mixd == RState(Sub(s, 14), x.modes, FALSE)
      gram == [i \in 1..Len(x.mix) |-> [j \in 1..Len(mixd.mix) |-> Inner(mixd.mix[j].v, mixd.dims, x.mix[i].v, x.dims)]]
      red == TLCEval(Reduce(x, kp))
      z == TLCEval([i \in 1..n |-> <<Rng(s, 50 + i, -2, 2), Rng(s, 60 + i, -2, 2)>>])
      t == TLCEval([i \in 1..n |-> Rng(s, 70 + i, -2, 2)])
      ph == R(s, 9, 4)
      all == [i \in 1..n |-> i]
      ni == 1 + R(s, 15, n)
      nk == 1 + R(s, 16, 2)
  IN [prob |-> Prob(x), hs |-> HS(x), dist |-> Dist(x),
      ket |-> [x |-> phi, val |-> Overlap(x, phi, pos)],
      dm |-> [x |-> sig, val |-> Overlap(x, sig, pos)],
      op |-> [modes |-> Take(x.modes, opos), x |-> op, val |-> Expect(x, op, opos)],
      full |-> [x |-> full, val |-> Overlap(x, full, all)],
      mixd |-> [x |-> mixd, val |-> Overlap(x, mixd, all), gram |-> gram],
      red |-> [modes |-> red.modes, dims |-> red.dims, prob |-> Prob(red), hs |-> IF Len(red.mix) > 12 THEN -1 ELSE HS(red), dist |-> Dist(red)],
      z |-> z, wig |-> IF n > 2 THEN <<>> ELSE <<Wig(x, z)>>,
      t |-> t, ph |-> ph, quad |-> Quad(x, t, ph),
      noise |-> IF Size(x.dims) > 12 THEN <<>> ELSE <<[mode |-> x.modes[ni], k |-> nk, exps |-> NoiseExp(x, ni, nk)]>>]

(* ------------------------------------------------------------------ steps *)
Start(s) == LET n == Pick(s, 1, <<1, 1, 2, 2, 3>>) IN RState(Sub(s, 1), SubSeq(<<2, 4, 6>>, 1, n), Coin(s, 2, 55))
Free(x) == SortSet({l \in 1..7 : \A i \in 1..Len(x.modes) : x.modes[i] # l})
StepOf(s, x) ==
  LET n == Len(x.dims)
      what == Pick(s, 1, <<"join", "apply", "apply", "reduce", "project", "scale", "add", "add">>)
      w == IF what \in {"reduce", "project"} /\ n = 1 THEN "apply" ELSE IF what = "join" /\ n >= 3 THEN "reduce" ELSE what
      i == 1 + R(s, 2, n)
      lab == Pick(s, 3, Free(x))
      at == 1 + Cardinality({j \in 1..n : x.modes[j] < lab})
      keep == TLCEval(RPos(Sub(s, 4), n, IF n = 1 THEN 1 ELSE 1 + R(s, 5, n - 1)))
      c == IF x.ket THEN Pick(s, 6, << <<0, 1>>, <<-1, 0>>, <<2, 0>>, <<1, -1>> >>) ELSE Pick(s, 7, << <<2, 0>>, <<3, 0>> >>)
      y == CASE w = "join" -> RState(Sub(s, 8), <<lab>>, IF x.ket THEN Coin(s, 9, 80) ELSE Coin(s, 10, 30))
             [] w = "add" -> RState(Sub(s, 11), x.modes, x.ket)
             [] w = "project" -> RState(Sub(s, 12), <<x.modes[i]>>, TRUE)
             [] OTHER -> <<>>
      op == IF w = "apply" THEN ROp(Sub(s, 13), 1) ELSE <<>>
      new == CASE w = "join" -> Join(x, y, at)
               [] w = "add" -> Add(x, y)
               [] w = "project" -> Project(x, y.mix[1].v, y.dims, <<i>>)
               [] w = "apply" -> Apply(x, op, <<i>>)
               [] w = "reduce" -> Reduce(x, keep)
               [] w = "scale" -> Scaled(x, c)
  IN [how |-> [what |-> w, y |-> y, op |-> op, mode |-> x.modes[i], keep |-> Take(x.modes, keep), c |-> c], new |-> new]
Small(x) == Len(x.mix) <= 9 /\ LET p == Prob(x) IN p > 0 /\ p < 2500
Rec(s, how, x) == [how |-> how, x |-> x, obs |-> Observe(s, x)]
Init == seed \in Seeds(Base, N) /\ st = <<>> /\ rec = <<>> /\ left = MaxSteps
Begin == \E s \in {seed} : \E x \in {Start(s)} :
   IF Small(x) THEN st' = x /\ rec' = <<Rec(Sub(s, 60), [what |-> "start"], x)>> /\ left' = left - 1 /\ seed' = NextSeed(s)
   ELSE left' = 0 /\ UNCHANGED <<seed, st, rec>>
Move == \E s \in {seed} : \E r \in {StepOf(s, st)} :
   IF Small(r.new) THEN st' = r.new /\ rec' = Append(rec, Rec(Sub(s, 60), r.how, r.new)) /\ left' = left - 1 /\ seed' = NextSeed(s)
   ELSE left' = left - 1 /\ seed' = NextSeed(s) /\ UNCHANGED <<st, rec>>
Next == left > 0 /\ (IF st = <<>> THEN Begin ELSE Move)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ laws *)
Last == rec[Len(rec)]
SumSeq(q) == SumTo(LAMBDA i : q[i], Len(q))
(* probabilities add up; tracing out modes loses nothing; a state is at most pure *)
Adds == rec # <<>> => SumSeq(Last.obs.dist) = Last.obs.prob /\ Last.obs.red.prob = Last.obs.prob /\ SumSeq(Last.obs.red.dist) = Last.obs.prob
Purity == rec # <<>> => Last.obs.hs <= Last.obs.prob * Last.obs.prob /\ (Last.x.ket => Last.obs.hs = Last.obs.prob * Last.obs.prob)
(* an expectation value on some modes is that of the reduced state *)
Marginal == rec # <<>> => LET x == st
                              s == seed
                              n == Len(x.dims)
                              pos == RPos(Sub(s, 71), n, 1)
                              op == ROp(Sub(s, 72), 1)
                              phi == RState(Sub(s, 73), Take(x.modes, pos), TRUE)
                          IN  Expect(x, op, pos) = Expect(Reduce(x, pos), op, <<1>>) /\ Overlap(x, phi, pos) = Overlap(Reduce(x, pos), phi, <<1>>)
(* the Wigner function at the origin is the parity *)
Parity == (rec # <<>> /\ Len(st.dims) <= 2) => Wig(st, [i \in 1..Len(st.dims) |-> Zero]) =
   SumTo(LAMBDA k : (IF SumTo(LAMBDA i : Digit(st.dims, k - 1, i), Len(st.dims)) % 2 = 0 THEN 1 ELSE -1) * Last.obs.dist[k], Size(st.dims))
Schwarz == rec # <<>> => Last.obs.full.val <= Last.obs.prob * Prob(Last.obs.full.x)
(* the overlap of two mixtures is the weighted sum of the squares of their inner products; two states with   *)
(* orthogonal supports stay so, a common factor scales it                                                     *)
Grams == rec # <<>> => LET o == Last.obs.mixd
                       IN  o.val = SumTo(LAMBDA i : SumTo(LAMBDA j : Last.x.mix[i].w * o.x.mix[j].w * Sq(o.gram[i][j]), Len(o.x.mix)), Len(Last.x.mix))
                           /\ o.val <= Last.obs.prob * Prob(o.x)
Emit == left > 0 \/ rec = <<>> \/ PrintT("@@" \o ToJson([recs |-> rec]))
=============================================================================
