------------------------------- MODULE Ansatz --------------------------------
(* Superpositions of polynomial-times-Gaussian functions and the operations on them, by what they denote.    *)
(*                                                                                                           *)
(* A function is described by an expression.  Its value at a point is a sum of coef * e^q with q and coef    *)
(* Gaussian integers, kept as a sequence of pairs <<q, coef>>; since e is transcendental, two such sums are   *)
(* equal exactly when they have the same coefficients, so every law below is decided exactly.                *)
(*                                                                                                           *)
(* Units: points are 2p with p Gaussian integers; matrices hold halves (entry k stands for k/2).  Then       *)
(*   zAz/2 = sum A_ij p_i p_j / 1   and   bz = 2 sum b_i p_i   are Gaussian integers.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS Base, N, Depth, Batched

(* ------------------------------------------------------------ Gaussian integers that give up when too large *)
Sat == <<1000000007, 0>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Big(u, m) == Abs(u[1]) > m \/ Abs(u[2]) > m
Clip(u) == IF Big(u, 450000000) THEN Sat ELSE u
CAdd(u, v) == IF u = Sat \/ v = Sat THEN Sat ELSE Clip(<<u[1] + v[1], u[2] + v[2]>>)
CMul(u, v) == IF u = Sat \/ v = Sat \/ Big(u, 14000) \/ Big(v, 14000) THEN Sat
              ELSE <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
CNeg(u) == IF u = Sat THEN Sat ELSE <<0 - u[1], 0 - u[2]>>
CConj(u) == IF u = Sat THEN Sat ELSE <<u[1], 0 - u[2]>>
Zero == <<0, 0>>
One == <<1, 0>>
Int2C(k) == <<k, 0>>
RECURSIVE CSumTo(_, _)
CSumTo(f(_), k) == IF k = 0 THEN Zero ELSE CAdd(f(k), CSumTo(f, k - 1))

(* ------------------------------------------------------------ indices *)
RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Size(s) == ProdFrom(s, 1)
Unflat(k, s) == [i \in 1..Len(s) |-> (k \div ProdFrom(s, i + 1)) % s[i]]            \* row-major, zero based
RECURSIVE FlatFrom(_, _, _)
FlatFrom(ix, s, i) == IF i > Len(s) THEN 0 ELSE ix[i] * ProdFrom(s, i + 1) + FlatFrom(ix, s, i + 1)
Flat(ix, s) == FlatFrom(ix, s, 1)
Range(s) == {s[i] : i \in 1..Len(s)}
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Select(s, P(_)) == LET RECURSIVE F(_)
                       F(i) == IF i > Len(s) THEN <<>> ELSE (IF P(s[i]) THEN <<s[i]>> ELSE <<>>) \o F(i + 1)
                   IN F(1)

(* ------------------------------------------------------------ one term  c * poly * exp  at a point *)
(* t = [A, b, c]; n core variables, sh = sizes of the polynomial (derived) variables *)
RECURSIVE G(_, _, _, _, _)
G(t, n, beta, k, m) ==                                     \* the derivative of order k at the origin
  IF \A i \in 1..m : k[i] = 0 THEN One
  ELSE LET i == CHOOSE i \in 1..m : k[i] > 0 /\ \A j \in 1..(i - 1) : k[j] = 0
           l == TLCEval([k EXCEPT ![i] = @ - 1])
       IN  CAdd(CMul(beta[i], G(t, n, beta, l, m)),
                CSumTo(LAMBDA j : IF l[j] = 0 \/ t.A[n + i][n + j] = Zero THEN Zero
                                  ELSE CMul(CMul(<<t.A[n + i][n + j][1] \div 2, t.A[n + i][n + j][2] \div 2>>, Int2C(l[j])),
                                            G(t, n, beta, TLCEval([l EXCEPT ![j] = @ - 1]), m)), m))
Expo(t, n, p) == CAdd(CSumTo(LAMBDA i : CSumTo(LAMBDA j : IF t.A[i][j] = Zero THEN Zero ELSE CMul(t.A[i][j], CMul(p[i], p[j])), n), n),
                      CMul(<<2, 0>>, CSumTo(LAMBDA i : CMul(t.b[i], p[i]), n)))
Coef(t, n, sh, p) ==
  LET m == Len(sh)
      beta == TLCEval([i \in 1..m |-> CAdd(t.b[n + i], CSumTo(LAMBDA j : CMul(t.A[n + i][j], p[j]), n))])
  IN  CSumTo(LAMBDA q : IF t.c[q] = Zero THEN Zero ELSE CMul(t.c[q], G(t, n, beta, TLCEval(Unflat(q - 1, sh)), m)), Size(sh))
TermVal(t, n, sh, p) == <<<<Expo(t, n, p), Coef(t, n, sh, p)>>>>

(* ------------------------------------------------------------ sums of exponentials *)
VMul(u, v) == [k \in 1..(Len(u) * Len(v)) |->
                 LET a == u[1 + ((k - 1) \div Len(v))]  b == v[1 + ((k - 1) % Len(v))]
                 IN <<CAdd(a[1], b[1]), CMul(a[2], b[2])>>]
VScale(s, u) == [k \in 1..Len(u) |-> <<u[k][1], CMul(s, u[k][2])>>]
VShift(q, u) == [k \in 1..Len(u) |-> <<CAdd(q, u[k][1]), u[k][2]>>]
VConj(u) == [k \in 1..Len(u) |-> <<CConj(u[k][1]), CConj(u[k][2])>>]
VHalf(u) == [k \in 1..Len(u) |-> <<u[k][1], IF u[k][2] = Sat THEN Sat ELSE <<u[k][2][1] \div 2, u[k][2][2] \div 2>>>>]
RECURSIVE VSum(_, _)
VSum(f(_), k) == IF k = 0 THEN <<>> ELSE VSum(f, k - 1) \o f(k)
SatV(u) == \E k \in 1..Len(u) : u[k][1] = Sat \/ u[k][2] = Sat
Norm(u) == LET qs == {u[k][1] : k \in 1..Len(u)}
               co(q) == CSumTo(LAMBDA k : IF u[k][1] = q THEN u[k][2] ELSE Zero, Len(u))
           IN  {<<q, co(q)>> : q \in {r \in qs : co(r) # Zero}}

(* ------------------------------------------------------------ expressions *)
(* [op, n, bs, ls, args, d]: n variables, batch shape bs, ls = 1 if it is a superposition, operands, data    *)
TermsOf(x, bi) == LET K == IF x.ls = 1 THEN x.d.k ELSE 1 IN [k \in 1..K |-> x.d.terms[Flat(bi, x.bs) * K + k]]
RECURSIVE Den(_, _, _)
Den(e, bi, p) ==
  LET a == e.args[1]
      b == e.args[2]
  IN
  CASE e.op = "leaf"  -> LET ts == TLCEval(TermsOf(e, bi)) IN VSum(LAMBDA k : TermVal(ts[k], e.n, e.d.sh, p), Len(ts))
    [] e.op = "add"   -> Den(a, bi, p) \o Den(b, bi, p)
    [] e.op = "sub"   -> Den(a, bi, p) \o VScale(<<-1, 0>>, Den(b, bi, p))
    [] e.op = "neg"   -> VScale(<<-1, 0>>, Den(a, bi, p))
    [] e.op \in {"mul", "rmul"} -> VScale(e.d.s, Den(a, bi, p))
    [] e.op = "div"   -> VScale(e.d.s, Den(a, bi, p))                       \* s is the inverse of the unit divided by
    [] e.op = "half"  -> VHalf(Den(a, bi, p))
    [] e.op = "conj"  -> VConj(Den(a, bi, [i \in 1..e.n |-> CConj(p[i])]))
    [] e.op = "and"   -> VMul(Den(a, SubSeq(bi, 1, Len(a.bs)), SubSeq(p, 1, a.n)),
                              Den(b, SubSeq(bi, Len(a.bs) + 1, Len(bi)), SubSeq(p, a.n + 1, e.n)))
    [] e.op = "reorder" -> Den(a, bi, [v \in 1..a.n |-> p[IndexIn(e.d.order, v)]])
    [] e.op = "reorder_batch" -> Den(a, [v \in 1..Len(a.bs) |-> bi[IndexIn(e.d.order, v)]], p)
    [] e.op \in {"simplify", "decompose"} -> Den(a, bi, p)
    [] e.op = "peval" ->                                                     \* d.idx: variables fixed; d.vals[zi]: their values
         LET zb == SubSeq(bi, 1, Len(e.d.zb))
             val == e.d.vals[Flat(zb, e.d.zb) + 1]
             rest == e.d.rest
         IN  Den(a, SubSeq(bi, Len(e.d.zb) + 1, Len(bi)),
                 [v \in 1..a.n |-> IF v \in Range(e.d.idx) THEN val[IndexIn(e.d.idx, v)] ELSE p[IndexIn(rest, v)]])
    [] e.op = "contract" ->                                                  \* b is a kernel: linear in what is contracted
         LET bia == [v \in 1..Len(a.bs) |-> bi[IndexIn(e.d.bout, e.d.ba[v])]]
             bib == [v \in 1..Len(b.bs) |-> bi[IndexIn(e.d.bout, e.d.bb[v])]]
             ts == TLCEval(TermsOf(b, bib))
             pu == TLCEval([v \in 1..b.n |-> IF e.d.lb[v] \in Range(e.d.la) THEN Zero ELSE p[IndexIn(e.d.out, e.d.lb[v])]])
             subst(t, w) == CAdd(<<t.b[w][1] \div 2, t.b[w][2] \div 2>>,
                                 CSumTo(LAMBDA u : IF pu[u] = Zero THEN Zero ELSE CMul(<<t.A[w][u][1] \div 2, t.A[w][u][2] \div 2>>, pu[u]), b.n))
             one(t) == VMul(TermVal(t, b.n, b.d.sh, pu),
                            Den(a, bia, TLCEval([v \in 1..a.n |-> IF e.d.la[v] \in Range(e.d.lb) THEN subst(t, IndexIn(e.d.lb, e.d.la[v]))
                                                          ELSE p[IndexIn(e.d.out, e.d.la[v])]])))
         IN  VSum(LAMBDA k : one(ts[k]), Len(ts))
    [] e.op = "trace" ->                                                     \* a is a loop leaf: bilinear in each traced pair
         LET ts == TLCEval(TermsOf(a, bi))
             out == e.d.rest
             pu == TLCEval([v \in 1..a.n |-> IF v \in Range(out) THEN p[IndexIn(out, v)] ELSE Zero])
             lin(t, w) == CAdd(<<t.b[w][1] \div 2, t.b[w][2] \div 2>>,
                               CSumTo(LAMBDA u : IF pu[u] = Zero THEN Zero ELSE CMul(<<t.A[w][u][1] \div 2, t.A[w][u][2] \div 2>>, pu[u]), a.n))
             one(t) == LET np == Len(e.d.z)
                           al(k) == t.A[e.d.z[k]][e.d.zc[k]][1]              \* 0 or 1 (a half)
                           q == CSumTo(LAMBDA k : CMul(Int2C(4 * (1 + al(k))), CMul(lin(t, e.d.z[k]), lin(t, e.d.zc[k]))), np)
                           f == ProdFrom([k \in 1..np |-> 1 + al(k)], 1)
                       IN  VScale(Int2C(f), VShift(q, TermVal(t, a.n, a.d.sh, pu)))
         IN  VSum(LAMBDA k : one(ts[k]), Len(ts))

(* ------------------------------------------------------------ random leaves *)
Units == <<Zero, Zero, Zero, One, One, <<-1, 0>>, <<0, 1>>, <<1, 1>>, <<0, -1>>>>
Small == <<Zero, One, <<-1, 0>>, <<0, 1>>, <<1, -1>>, <<2, 0>>>>
Shapes == <<<<>>, <<>>, <<>>, <<2>>, <<3>>, <<2, 2>>, <<1>>, <<1, 3>>, <<3, 2>>, <<2, 1, 2>>>>
Dbl(u) == <<2 * u[1], 2 * u[2]>>
Quad(u) == <<4 * u[1], 4 * u[2]>>
(* lin: the variables that are contracted with a partner (linear); loops: pairs that are traced *)
RandTerm(s, n, sh, lin, zs, zcs) ==
  LET m == Len(sh)
      T == n + m
      core(i) == i <= n
      U(i, j) == Pick(s, 100 + 20 * i + j, Units)
      ent(i, j) ==                                        \* i <= j
        IF i > n THEN Dbl(Pick(s, 100 + 20 * i + j, <<Zero, One, <<-1, 0>>, <<0, 1>>>>))
        ELSE IF \E k \in 1..Len(zs) : {i, j} = {zs[k], zcs[k]} THEN Int2C(R(s, 100 + 20 * i + j, 2))
        ELSE IF i \in lin /\ j \in lin THEN Zero
        ELSE IF i \in lin \/ j \in lin THEN (IF j > n THEN Zero ELSE Dbl(U(i, j)))
        ELSE U(i, j)
      A == TLCEval([i \in 1..T |-> TLCEval([j \in 1..T |-> IF i <= j THEN ent(i, j) ELSE ent(j, i)])])
      b == TLCEval([i \in 1..T |-> IF i \in lin THEN Dbl(Pick(s, 700 + i, Units)) ELSE Pick(s, 700 + i, Small)])
      c == TLCEval([q \in 1..Size(sh) |-> Quad(Pick(s, 800 + q, Small))])
  IN  [A |-> A, b |-> b, c |-> IF \A q \in 1..Size(sh) : c[q] = Zero THEN [c EXCEPT ![Size(sh)] = <<4, 0>>] ELSE c]
RandLeafOf(s, n, sh, bs, ls, k, lin, zs, zcs) ==
  LET cnt == Size(bs) * (IF ls = 1 THEN k ELSE 1)
      ts == TLCEval([q \in 1..cnt |-> TLCEval(RandTerm(Sub(s, q), n, sh, lin, zs, zcs))])
      tw == TLCEval([q \in 1..cnt |-> IF ls = 1 /\ q > 1 /\ Coin(s, 40 + q, 35)
                                      THEN [A |-> ts[q - 1].A, b |-> ts[q - 1].b, c |-> ts[q].c] ELSE ts[q]])
  IN  [op |-> "leaf", n |-> n, bs |-> bs, ls |-> ls, args |-> <<>>, d |-> [sh |-> sh, k |-> k, terms |-> tw]]
BShapes == <<<<>>, <<>>, <<2>>, <<1>>, <<3>>, <<2, 2>>, <<1, 2>>>>
RandBs(s) == IF Batched THEN Pick(s, 1, BShapes) ELSE <<>>
RandLeaf(s) == LET n == Pick(s, 2, <<1, 1, 2, 2, 2, 3, 0>>) IN
  RandLeafOf(Sub(s, 1), n, Pick(s, 3, Shapes), RandBs(s), R(s, 4, 2), Rng(s, 5, 1, 3), {}, <<>>, <<>>)
(* a leaf with the same number of variables and the same batch as x (for sums) *)
RandMate(s, x) == RandLeafOf(Sub(s, 1), x.n, Pick(s, 3, Shapes), <<>>, R(s, 4, 2), Rng(s, 5, 1, 2), {}, <<>>, <<>>)

RECURSIVE Shuffle(_, _, _)
Shuffle(s, q, i) == IF Len(q) <= 1 THEN q
  ELSE LET k == 1 + R(s, 900 + i, Len(q)) IN <<q[k]>> \o Shuffle(s, SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)), i + 1)
Ident(n) == [i \in 1..n |-> i]
NTerms(e) == IF e.op = "leaf" THEN (IF e.ls = 1 THEN e.d.k ELSE 1) ELSE e.d.nt
Mk(op, n, bs, ls, args, d, nt) == [op |-> op, n |-> n, bs |-> bs, ls |-> ls, args |-> args, d |-> d @@ [nt |-> nt]]
Null == [z0 |-> 0]
RECURSIVE Val(_)                                             \* every coefficient is a multiple of 2^Val
Val(e) == CASE e.op = "leaf" -> 2
            [] e.op \in {"add", "sub"} -> LET u == Val(e.args[1])  v == Val(e.args[2]) IN IF u < v THEN u ELSE v
            [] e.op \in {"and", "contract"} -> Val(e.args[1]) + Val(e.args[2])
            [] e.op = "half" -> Val(e.args[1]) - 1
            [] OTHER -> Val(e.args[1])

(* ------------------------------------------------------------ the next operation *)
ContractWith(s, a) ==
  LET nc == Rng(s, 10, 1, IF a.n > 2 THEN 2 ELSE a.n)               \* how many pairs
      nu == Rng(s, 11, 0, 2)
      nb == nc + nu
      lab == TLCEval(Shuffle(s, Ident(a.n + nu), 0))                \* labels: those of a, then the fresh ones
      la == [v \in 1..a.n |-> 10 * lab[v]]
      pa == TLCEval(Shuffle(Sub(s, 3), la, 0))
      lb == TLCEval(Shuffle(Sub(s, 4), SubSeq(pa, 1, nc) \o [v \in 1..nu |-> 10 * lab[a.n + v]], 0))
      lin == {v \in 1..nb : lb[v] \in Range(la)}
      bsb == IF Batched THEN (IF Len(a.bs) > 0 /\ Coin(s, 12, 50) THEN <<a.bs[1 + R(s, 13, Len(a.bs))]>> ELSE Pick(s, 14, <<<<>>, <<>>, <<2>>, <<3>>, <<1>>>>)) ELSE <<>>
      b == TLCEval(RandLeafOf(Sub(s, 5), nb, Pick(s, 15, Shapes), bsb, R(s, 16, 2), Rng(s, 17, 1, 2), lin, <<>>, <<>>))
      ba == [v \in 1..Len(a.bs) |-> v]
      same == {v \in 1..Len(a.bs) : Len(bsb) = 1 /\ a.bs[v] = bsb[1]}
      bb == IF Len(bsb) = 0 THEN <<>> ELSE IF same # {} /\ Coin(s, 18, 65) THEN <<CHOOSE v \in same : TRUE>> ELSE <<9>>
      bset == Select(ba \o <<9>>, LAMBDA v : v # 9 \/ bb = <<9>>)
      bout == TLCEval(Shuffle(Sub(s, 6), bset, 0))
      out == TLCEval(Shuffle(Sub(s, 7), Select(la, LAMBDA l : l \notin Range(lb)) \o Select(lb, LAMBDA l : l \notin Range(la)), 0))
      dim(v) == IF v = 9 THEN bsb[1] ELSE a.bs[v]
  IN  Mk("contract", Len(out), [v \in 1..Len(bout) |-> dim(bout[v])], IF a.ls = 1 \/ b.ls = 1 THEN 1 ELSE 0, <<a, b>>,
         [la |-> la, lb |-> lb, out |-> out, ba |-> ba, bb |-> bb, bout |-> bout, flip |-> R(s, 19, 2)], NTerms(a) * NTerms(b))
TraceLeaf(s) ==
  LET np == Rng(s, 10, 1, 2)
      nu == Rng(s, 11, 0, 2)
      pos == TLCEval(Shuffle(Sub(s, 3), Ident(2 * np + nu), 0))
      zs == SubSeq(pos, 1, np)
      zcs == SubSeq(pos, np + 1, 2 * np)
      a == TLCEval(RandLeafOf(Sub(s, 5), 2 * np + nu, Pick(s, 15, Shapes), RandBs(s), R(s, 16, 2), Rng(s, 17, 1, 2), Range(zs) \cup Range(zcs), zs, zcs))
      rest == Select(Ident(2 * np + nu), LAMBDA v : v \notin Range(zs) \cup Range(zcs))
  IN  Mk("trace", nu, a.bs, a.ls, <<a>>, [z |-> zs, zc |-> zcs, rest |-> rest], NTerms(a))
PEval(s, a) ==
  LET ne == Rng(s, 10, 1, a.n - 1)
      idx == LET q == TLCEval(SubSeq(Shuffle(Sub(s, 3), Ident(a.n), 0), 1, ne)) IN Select(Ident(a.n), LAMBDA v : v \in Range(q))
      rest == Select(Ident(a.n), LAMBDA v : v \notin Range(idx))
      mode == IF ~Batched \/ (a.ls = 1 /\ Coin(s, 9, 40)) THEN "call" ELSE Pick(s, 11, <<"call", "eval", "callbatch">>)
      lens == [k \in 1..ne |-> Rng(s, 20 + k, 1, 2)]
      zb == IF mode = "call" THEN <<>> ELSE IF mode = "eval" THEN lens ELSE Pick(s, 12, <<<<2>>, <<1>>, <<2, 2>>, <<3>>>>)
      pt(i) == Pick(s, 200 + i, Small)
      vals == TLCEval([q \in 1..Size(zb) |-> [k \in 1..ne |->
                 IF mode = "eval" THEN pt(10 * k + Unflat(q - 1, zb)[k]) ELSE pt(50 + 7 * q + k)]])
      lists == [k \in 1..ne |-> [j \in 1..lens[k] |-> pt(10 * k + j - 1)]]
  IN  Mk("peval", a.n - ne, zb \o a.bs, a.ls, <<a>>, [idx |-> idx, rest |-> rest, zb |-> zb, vals |-> vals, mode |-> mode, lists |-> lists], NTerms(a))

OpNames == <<"add", "add", "sub", "neg", "mul", "rmul", "div", "half", "conj", "and", "and", "reorder", "reorder_batch", "simplify", "simplify",
             "decompose", "peval", "peval", "contract", "contract", "contract", "contract", "trace", "leaf", "leaf">>
Applicable(op, a) ==
  CASE op \in {"add", "sub"} -> a.bs = <<>>
    [] op = "and" -> a.n <= 2 /\ NTerms(a) <= 4 /\ Size(a.bs) <= 4
    [] op = "reorder" -> a.n >= 1
    [] op = "reorder_batch" -> Len(a.bs) >= 2 /\ a.ls = 0
    [] op = "simplify" -> a.bs = <<>> \/ a.ls = 0
    [] op = "decompose" -> a.n >= 1
    [] op = "peval" -> a.n >= 2 /\ Size(a.bs) <= 4
    [] op = "contract" -> a.n >= 1 /\ NTerms(a) <= 4 /\ Size(a.bs) <= 6
    [] OTHER -> TRUE
Apply(op, s, a, pool) ==
  CASE op = "leaf" -> RandLeaf(s)
    [] op \in {"add", "sub"} ->
         LET sames == Select(pool, LAMBDA x : x.n = a.n /\ x.bs = <<>> /\ NTerms(x) <= 4)
             b == IF Len(sames) > 0 /\ Coin(s, 30, 50) THEN Pick(s, 31, sames) ELSE TLCEval(RandMate(Sub(s, 9), a))
         IN  Mk(op, a.n, <<>>, 1, <<a, b>>, Null, NTerms(a) + NTerms(b))
    [] op = "neg" -> Mk(op, a.n, a.bs, a.ls, <<a>>, Null, NTerms(a))
    [] op \in {"mul", "rmul"} -> Mk(op, a.n, a.bs, a.ls, <<a>>, [s |-> Pick(s, 30, <<<<2, 0>>, <<-1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 0>>>>)], NTerms(a))
    [] op = "div" -> Mk(op, a.n, a.bs, a.ls, <<a>>, [s |-> Pick(s, 30, <<<<0, 1>>, <<-1, 0>>, <<0, -1>>>>)], NTerms(a))
    [] op \in {"half", "conj", "simplify", "decompose"} -> Mk(op, a.n, a.bs, a.ls, <<a>>, Null, NTerms(a))
    [] op = "and" ->
         LET cands == Select(pool, LAMBDA x : x.n + a.n <= 4 /\ NTerms(x) <= 3 /\ Size(x.bs) <= 3)
             b == IF Len(cands) > 0 /\ Coin(s, 30, 50) THEN Pick(s, 31, cands) ELSE TLCEval(RandLeafOf(Sub(s, 9), Rng(s, 32, 0, 2), Pick(s, 33, Shapes), RandBs(s), R(s, 34, 2), Rng(s, 35, 1, 2), {}, <<>>, <<>>))
         IN  Mk(op, a.n + b.n, a.bs \o b.bs, IF a.ls = 1 \/ b.ls = 1 THEN 1 ELSE 0, <<a, b>>, Null, NTerms(a) * NTerms(b))
    [] op = "reorder" -> Mk(op, a.n, a.bs, a.ls, <<a>>, [order |-> TLCEval(Shuffle(Sub(s, 3), Ident(a.n), 0))], NTerms(a))
    [] op = "reorder_batch" -> LET o == TLCEval(Shuffle(Sub(s, 3), Ident(Len(a.bs)), 0)) IN
                               Mk(op, a.n, [v \in 1..Len(o) |-> a.bs[o[v]]], a.ls, <<a>>, [order |-> o], NTerms(a))
    [] op = "peval" -> PEval(s, a)
    [] op = "contract" -> ContractWith(s, a)
    [] op = "trace" -> TraceLeaf(s)

(* ------------------------------------------------------------ observation *)
NPts == 3
Pts(s, n) == [k \in 1..NPts |-> [i \in 1..n |-> IF k = 1 THEN Zero ELSE Pick(s, 300 + 10 * k + i, Small)]]
Limit == 60
Good(u) == ~SatV(u) /\ \A k \in 1..Len(u) : Abs(u[k][1][1]) < Limit /\ Abs(u[k][1][2]) < 1000
Observe(e, pts) == [k \in 1..NPts |-> LET vs == TLCEval([q \in 1..Size(e.bs) |-> Den(e, Unflat(q - 1, e.bs), pts[k])])
                                      IN IF \A q \in 1..Size(e.bs) : Good(vs[q]) THEN [p |-> pts[k], v |-> vs] ELSE [p |-> pts[k], v |-> <<>>]]

VARIABLES seed, t, pool, trail
vars == <<seed, t, pool, trail>>
Init == seed \in Seeds(Base, N) /\ t = 0 /\ pool = <<>> /\ trail = <<>>
IdOf(x) == IF \E i \in 1..Len(pool) : pool[i] = x THEN CHOOSE i \in 1..Len(pool) : pool[i] = x ELSE 0
LeafPub(x) == [op |-> "leaf", n |-> x.n, bs |-> x.bs, ls |-> x.ls, d |-> x.d]
Pub(e, pts) == [op |-> e.op, n |-> e.n, bs |-> e.bs, ls |-> e.ls, d |-> e.d,
                args |-> [i \in 1..Len(e.args) |-> IF IdOf(e.args[i]) > 0 THEN [id |-> IdOf(e.args[i])] ELSE LeafPub(e.args[i])],
                obs |-> Observe(e, pts)]
Step(s) ==
  LET a == IF pool = <<>> THEN TLCEval(RandLeaf(Sub(s, 2))) ELSE Pick(s, 2, pool)
      op0 == IF pool = <<>> THEN "leaf" ELSE Pick(s, 1, OpNames)
      op == IF op0 \notin {"leaf", "trace"} /\ ~Applicable(op0, a) THEN "neg" ELSE op0
      op1 == IF op = "half" /\ Val(a) < 1 THEN "conj" ELSE op
      e == TLCEval(Apply(op1, Sub(s, 4), a, pool))
      pts == TLCEval(Pts(Sub(s, 5), e.n))
  IN  IF NTerms(e) > 8 \/ Size(e.bs) > 12 THEN pool' = pool /\ trail' = trail
      ELSE pool' = Append(pool, e) /\ trail' = Append(trail, Pub(e, pts))
Next == t < Depth /\ t' = t + 1 /\ seed' = NextSeed(seed) /\ \E s \in {seed} : Step(s)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ laws of the specification itself *)
Last == pool[Len(pool)]
P0 == Pts(seed, Last.n)[2]
B0 == [i \in 1..Len(Last.bs) |-> 0]
Law(e, f) == LET u == Den(e, B0, P0)  v == Den(f, B0, P0) IN SatV(u) \/ SatV(v) \/ Norm(u) = Norm(v)
U1(op, x) == Mk(op, x.n, x.bs, x.ls, <<x>>, Null, 1)
Even == pool = <<>> \/ \A k \in 1..Len(trail[Len(trail)].obs) : LET v == trail[Len(trail)].obs[k].v IN
           \A q \in 1..Len(v) : \A j \in 1..Len(v[q]) : Val(Last) = 0 \/ (v[q][j][2][1] % 2 = 0 /\ v[q][j][2][2] % 2 = 0)
Laws == pool = <<>> \/ NTerms(Last) > 4 \/
  /\ Law(U1("conj", U1("conj", Last)), Last)
  /\ Law(U1("neg", U1("neg", Last)), Last)
  /\ LET z == Mk("sub", Last.n, Last.bs, 1, <<Last, Last>>, Null, 2) IN LET u == Den(z, B0, P0) IN SatV(u) \/ Norm(u) = {}
  /\ Last.op = "contract" =>                          \* contraction distributes over sums and commutes with conjugation
       LET x == Last.args[1]
           two == Mk("add", x.n, x.bs, 1, <<x, x>>, Null, 2)
           cc(y) == [y EXCEPT !.d.terms = [k \in 1..Len(y.d.terms) |->
                       [A |-> [i \in 1..Len(y.d.terms[k].A) |-> [j \in 1..Len(y.d.terms[k].A) |-> CConj(y.d.terms[k].A[i][j])]],
                        b |-> [i \in 1..Len(y.d.terms[k].b) |-> CConj(y.d.terms[k].b[i])],
                        c |-> [i \in 1..Len(y.d.terms[k].c) |-> CConj(y.d.terms[k].c[i])]]]]
       IN  /\ Law([Last EXCEPT !.args = <<two, @[2]>>], Mk("mul", Last.n, Last.bs, 1, <<Last>>, [s |-> <<2, 0>>], 1))
           /\ Law([Last EXCEPT !.args = <<U1("conj", @[1]), cc(@[2])>>], U1("conj", Last))
Emit == t < Depth \/ PrintT("@@" \o ToJson(trail))
=============================================================================
