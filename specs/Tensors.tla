------------------------------ MODULE Tensors ------------------------------
(* The operations on arrays that everything else is written in (mrmustard.math), by their index maps.         *)
(* A tensor is a shape and its entries, Gaussian integers, in row-major order.  A behaviour keeps a pool of    *)
(* tensors and applies operations with random parameters to members of it; results go back into the pool.     *)
EXTENDS Rng, FiniteSets, Json

CONSTANTS Base, N, MaxSteps
VARIABLES seed, pool, rec, left
vars == <<seed, pool, rec, left>>

CM(a, b) == <<a[1]*b[1] - a[2]*b[2], a[1]*b[2] + a[2]*b[1]>>
CA(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CC(a) == <<a[1], -a[2]>>
Neg(a) == <<-a[1], -a[2]>>
Zero == <<0, 0>>
One == <<1, 0>>
RECURSIVE CSum(_, _)
CSum(f(_), n) == IF n = 0 THEN Zero ELSE CA(f(n), CSum(f, n - 1))
RECURSIVE CProd(_, _)
CProd(f(_), n) == IF n = 0 THEN One ELSE CM(f(n), CProd(f, n - 1))
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 1 ELSE Head(q) * Size(Tail(q))
Abs(k) == IF k < 0 THEN -k ELSE k
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* ------------------------------------------------------------------ index maps *)
Digits(sh, k) == [i \in 1..Len(sh) |-> (k \div Size(SubSeq(sh, i + 1, Len(sh)))) % sh[i]]
RECURSIVE FlatFrom(_, _, _)
FlatFrom(sh, dg, i) == IF i = 0 THEN 0 ELSE FlatFrom(sh, dg, i - 1) * sh[i] + dg[i]
Flat(sh, dg) == FlatFrom(sh, dg, Len(sh))
At(t, dg) == t.d[1 + Flat(t.sh, dg)]
Make(sh, f(_)) == [sh |-> sh, d |-> TLCEval([k \in 1..Size(sh) |-> f(Digits(sh, k - 1))])]
Map1(t, f(_)) == [sh |-> t.sh, d |-> TLCEval([k \in 1..Len(t.d) |-> f(t.d[k])])]
Map2(t, u, f(_, _)) == [sh |-> t.sh, d |-> TLCEval([k \in 1..Len(t.d) |-> f(t.d[k], u.d[k])])]
Nd(t) == Len(t.sh)
Last2(sh) == SubSeq(sh, Len(sh) - 1, Len(sh))
Front(q, k) == SubSeq(q, 1, k)
Drop(q, k) == SubSeq(q, k + 1, Len(q))
RemoveAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
InsertAt(q, i, e) == SubSeq(q, 1, i - 1) \o <<e>> \o SubSeq(q, i, Len(q))
PosOf(q, e) == CHOOSE i \in 1..Len(q) : q[i] = e
In(q, e) == \E i \in 1..Len(q) : q[i] = e
RECURSIVE Take(_, _)
Take(q, pos) == IF pos = <<>> THEN <<>> ELSE <<q[Head(pos)]>> \o Take(q, Tail(pos))
Rest(n, pos) == SelectSeq([i \in 1..n |-> i], LAMBDA i : ~In(pos, i))
Real(t) == \A k \in 1..Len(t.d) : t.d[k][2] = 0

(* ------------------------------------------------------------------ operations; axes from 1 *)
(* axis i of the result is axis p[i] of t *)
Transpose(t, p) == Make([i \in 1..Nd(t) |-> t.sh[p[i]]], LAMBDA dg : At(t, [j \in 1..Nd(t) |-> dg[PosOf(p, j)]]))
Reshape(t, sh) == [sh |-> sh, d |-> t.d]
(* the permutation that puts old[i] at new[i] and keeps the order of the others *)
MovePerm(n, old, new) ==
  LET others == Rest(n, old)
      free == Rest(n, new)
  IN  [i \in 1..n |-> IF In(new, i) THEN old[PosOf(new, i)] ELSE others[PosOf(free, i)]]
Swap(n, a, b) == [i \in 1..n |-> IF i = a THEN b ELSE IF i = b THEN a ELSE i]
Tile(t, reps) ==
  LET n == Max(Nd(t), Len(reps))
      a == Reshape(t, [i \in 1..n |-> IF i <= n - Nd(t) THEN 1 ELSE t.sh[i - (n - Nd(t))]])
      r == [i \in 1..n |-> IF i <= n - Len(reps) THEN 1 ELSE reps[i - (n - Len(reps))]]
  IN  Make([i \in 1..n |-> a.sh[i] * r[i]], LAMBDA dg : At(a, [i \in 1..n |-> dg[i] % a.sh[i]]))
Pad(t, ps, c) == Make([i \in 1..Nd(t) |-> ps[i][1] + t.sh[i] + ps[i][2]],
   LAMBDA dg : IF \A i \in 1..Nd(t) : dg[i] >= ps[i][1] /\ dg[i] < ps[i][1] + t.sh[i] THEN At(t, [i \in 1..Nd(t) |-> dg[i] - ps[i][1]]) ELSE c)
Diag(t, k) == LET m == t.sh[1] + Abs(k) IN
  Make(<<m, m>>, LAMBDA dg : IF dg[2] - dg[1] = k THEN t.d[1 + Min(dg[1], dg[2])] ELSE Zero)
(* the diagonal of axes a and b becomes the last axis *)
DiagLen(t, off, a, b) == IF off >= 0 THEN Min(t.sh[a], t.sh[b] - off) ELSE Min(t.sh[a] + off, t.sh[b])
Diagonal(t, off, a, b) ==
  LET oth == Rest(Nd(t), <<a, b>>)
      L == DiagLen(t, off, a, b)
  IN  Make(Take(t.sh, oth) \o <<L>>, LAMBDA dg : At(t, [j \in 1..Nd(t) |-> IF j = a THEN dg[Len(dg)] + (IF off < 0 THEN -off ELSE 0)
                                                                   ELSE IF j = b THEN dg[Len(dg)] + (IF off > 0 THEN off ELSE 0) ELSE dg[PosOf(oth, j)]]))
SumOver(t, axes) == LET oth == Rest(Nd(t), axes)
                        ax == Rest(Nd(t), oth)
                        sz == Take(t.sh, ax)
                    IN  Make(Take(t.sh, oth), LAMBDA dg : LET f(k) == LET e == Digits(sz, k - 1) IN At(t, [j \in 1..Nd(t) |-> IF In(ax, j) THEN e[PosOf(ax, j)] ELSE dg[PosOf(oth, j)]]) IN CSum(f, Size(sz)))
ProdOver(t, axes) == LET oth == Rest(Nd(t), axes)
                         ax == Rest(Nd(t), oth)
                         sz == Take(t.sh, ax)
                     IN  Make(Take(t.sh, oth), LAMBDA dg : LET f(k) == LET e == Digits(sz, k - 1) IN At(t, [j \in 1..Nd(t) |-> IF In(ax, j) THEN e[PosOf(ax, j)] ELSE dg[PosOf(oth, j)]]) IN CProd(f, Size(sz)))
All(t) == [i \in 1..Nd(t) |-> i]
Trace(t) == LET L == Diagonal(t, 0, Nd(t) - 1, Nd(t)) IN SumOver(L, <<Nd(L)>>)
(* the entries at the indices ix (a tensor of positions) along the axis *)
Gather(t, ish, ix, ax) == Make(Front(t.sh, ax - 1) \o ish \o Drop(t.sh, ax),
   LAMBDA dg : At(t, [j \in 1..Nd(t) |-> IF j < ax THEN dg[j] ELSE IF j = ax THEN ix[1 + Flat(ish, SubSeq(dg, ax, ax + Len(ish) - 1))] ELSE dg[j + Len(ish) - 1]]))
Broadcast(t, sh) == LET o == Len(sh) - Nd(t) IN Make(sh, LAMBDA dg : At(t, [j \in 1..Nd(t) |-> IF t.sh[j] = 1 THEN 0 ELSE dg[j + o]]))
RECURSIVE Concat(_, _)
Concat(ts, ax) ==
  IF Len(ts) = 1 THEN ts[1]
  ELSE LET u == Concat(Tail(ts), ax)
           t == ts[1]
       IN  Make([i \in 1..Nd(t) |-> IF i = ax THEN t.sh[i] + u.sh[i] ELSE t.sh[i]],
                LAMBDA dg : IF dg[ax] < t.sh[ax] THEN At(t, dg) ELSE At(u, [dg EXCEPT ![ax] = dg[ax] - t.sh[ax]]))
Stack(ts, ax) == Concat([i \in 1..Len(ts) |-> Reshape(ts[i], InsertAt(ts[i].sh, ax, 1))], ax)
(* sum over the axes at of t and au of u; the others of t, then of u *)
TensorDot(t, u, at, au) ==
  LET ot == Rest(Nd(t), at)
      ou == Rest(Nd(u), au)
      sz == Take(t.sh, at)
  IN  Make(Take(t.sh, ot) \o Take(u.sh, ou), LAMBDA dg :
        LET f(k) == LET e == Digits(sz, k - 1) IN
              CM(At(t, [j \in 1..Nd(t) |-> IF In(at, j) THEN e[PosOf(at, j)] ELSE dg[PosOf(ot, j)]]),
                 At(u, [j \in 1..Nd(u) |-> IF In(au, j) THEN e[PosOf(au, j)] ELSE dg[Len(ot) + PosOf(ou, j)]]))
        IN  CSum(f, Size(sz)))
BroadSh(a, b) == LET n == Max(Len(a), Len(b))
                     g(q, i) == IF i <= n - Len(q) THEN 1 ELSE q[i - (n - Len(q))]
                 IN  [i \in 1..n |-> Max(g(a, i), g(b, i))]
BroadOk(a, b) == LET n == Max(Len(a), Len(b))
                     g(q, i) == IF i <= n - Len(q) THEN 1 ELSE q[i - (n - Len(q))]
                 IN  \A i \in 1..n : g(a, i) = g(b, i) \/ g(a, i) = 1 \/ g(b, i) = 1
MatMul(t, u) ==        \* the last two axes multiply, the others are broadcast
  LET bs == BroadSh(Front(t.sh, Nd(t) - 2), Front(u.sh, Nd(u) - 2))
      a == Broadcast(t, bs \o Last2(t.sh))
      b == Broadcast(u, bs \o Last2(u.sh))
      m == Len(bs)
  IN  Make(bs \o <<a.sh[m + 1], b.sh[m + 2]>>, LAMBDA dg :
        LET f(k) == CM(At(a, Front(dg, m + 1) \o <<k - 1>>), At(b, Front(dg, m) \o <<k - 1, dg[m + 2]>>)) IN CSum(f, a.sh[m + 2]))
Kron(t, u) == Make(<<t.sh[1] * u.sh[1], t.sh[2] * u.sh[2]>>, LAMBDA dg :
   CM(At(t, <<dg[1] \div u.sh[1], dg[2] \div u.sh[2]>>), At(u, <<dg[1] % u.sh[1], dg[2] % u.sh[2]>>)))
(* the labels lt, lu of the axes of t and u, and lo of the result *)
Einsum(t, lt, u, lu, lo) ==
  LET dim(l) == IF In(lt, l) THEN t.sh[PosOf(lt, l)] ELSE u.sh[PosOf(lu, l)]
      inner == SelectSeq(lt, LAMBDA l : ~In(lo, l)) \o SelectSeq(lu, LAMBDA l : ~In(lo, l) /\ ~In(lt, l))
      isz == [i \in 1..Len(inner) |-> dim(inner[i])]
  IN  Make([i \in 1..Len(lo) |-> dim(lo[i])], LAMBDA dg :
        LET f(k) == LET e == Digits(isz, k - 1)
                        val(l) == IF In(lo, l) THEN dg[PosOf(lo, l)] ELSE e[PosOf(inner, l)]
                    IN  CM(At(t, [j \in 1..Nd(t) |-> val(lt[j])]), At(u, [j \in 1..Nd(u) |-> val(lu[j])]))
        IN  CSum(f, Size(isz)))
RECURSIVE Det(_)
Minor(M, i, j) == LET n == Len(M) IN [a \in 1..n-1 |-> [b \in 1..n-1 |-> M[IF a < i THEN a ELSE a + 1][IF b < j THEN b ELSE b + 1]]]
Det(M) == IF Len(M) = 0 THEN One ELSE IF Len(M) = 1 THEN M[1][1] ELSE
   LET f(j) == CM(IF j % 2 = 1 THEN One ELSE <<-1, 0>>, CM(M[1][j], Det(Minor(M, 1, j)))) IN CSum(f, Len(M))
Mat(t, b) == LET n == t.sh[Nd(t)] IN [i \in 1..n |-> [j \in 1..n |-> At(t, b \o <<i - 1, j - 1>>)]]
DetT(t) == Make(Front(t.sh, Nd(t) - 2), LAMBDA dg : Det(Mat(t, dg)))
Adj(t) == LET n == t.sh[1] IN Make(<<n, n>>, LAMBDA dg : CM(IF (dg[1] + dg[2]) % 2 = 0 THEN One ELSE <<-1, 0>>, Det(Minor(Mat(t, <<>>), dg[2] + 1, dg[1] + 1))))
(* entries put at (added at) the positions ix, in order *)
RECURSIVE Update(_, _, _, _, _)
Update(t, ix, vals, add, k) ==
  IF k > Len(ix) THEN t
  ELSE Update([t EXCEPT !.d[1 + Flat(t.sh, ix[k])] = IF add THEN CA(@, vals[k]) ELSE vals[k]], ix, vals, add, k + 1)
RECURSIVE SortSeq2(_)
Least(q) == CHOOSE i \in 1..Len(q) : \A j \in 1..Len(q) : q[i][1] <= q[j][1]
SortSeq2(q) == IF q = <<>> THEN <<>> ELSE LET i == Least(q) IN <<q[i]>> \o SortSeq2(RemoveAt(q, i))
Sort(t, ax) == Make(t.sh, LAMBDA dg : SortSeq2([k \in 1..t.sh[ax] |-> At(t, [dg EXCEPT ![ax] = k - 1])])[1 + dg[ax]])
Eye(n) == Make(<<n, n>>, LAMBDA dg : IF dg[1] = dg[2] THEN One ELSE Zero)

(* ------------------------------------------------------------------ random parameters *)
RECURSIVE Shuffle(_, _)
Shuffle(s, q) == IF q = <<>> THEN <<>> ELSE LET i == 1 + R(s, Len(q), Len(q)) IN <<q[i]>> \o Shuffle(s, RemoveAt(q, i))
RPerm(s, n) == Shuffle(s, [i \in 1..n |-> i])
RAxes(s, n, k) == Front(RPerm(s, n), k)
Rnd(s, sh, real) == [sh |-> sh, d |-> TLCEval([k \in 1..Size(sh) |-> <<Rng(s, 10 + 2 * k, -3, 3), IF real THEN 0 ELSE Rng(s, 11 + 2 * k, -2, 2)>>])]
RShape(s, n) == [i \in 1..n |-> Pick(s, i, <<1, 2, 2, 3, 3>>)]
RTensor(s) == LET n == Pick(s, 1, <<0, 1, 1, 2, 2, 2, 3, 3, 4>>) IN Rnd(Sub(s, 1), TLCEval(RShape(Sub(s, 2), n)), Coin(s, 2, 50))
(* the factorisations of a size that a reshape may ask for *)
RSize(s, n) == LET a == Pick(s, 1, <<1, 1, 2, 3>>) IN
   IF n % a = 0 THEN Pick(s, 2, << <<a, n \div a>>, <<n \div a, a>>, <<n>>, <<n \div a, 1, a>> >>) ELSE <<n>>

Op(name, ins, par, out) == [op |-> name, ins |-> ins, par |-> par, out |-> out]
Fix(r) == TLCEval(r)
RealOf(t) == Map1(t, LAMBDA a : <<a[1], 0>>)
Two(s, i) == <<R(s, i, 2), R(s, i + 1, 2)>>

(* the operation number o with random parameters on the tensors t (and u); <<>> where it does not apply *)
Names == <<"transpose", "reverse", "reshape", "moveaxis", "swapaxes", "expand_dims", "tile", "pad", "diag", "diag_part", "diagonal", "trace", "sum", "sumall", "prod", "prodall",
           "conj", "real", "imag", "dagger", "gather", "broadcast_to", "atleast_nd", "sort", "max", "clip", "det", "adj", "concat", "stack", "block", "matmul", "matmul3", "matvec",
           "tensordot", "kron", "outer", "einsum", "einsum", "maximum", "minimum", "mod", "make_complex", "equal", "update_add_tensor", "update_tensor", "all_diagonals", "eye_like",
           "ones_like", "zeros_like", "solve", "expm", "sqrtm", "sqrtmh", "eigvals", "norm2", "allclose", "unitary_to_orthogonal", "map_fn", "pow", "gradient">>
Do(s, o, t) ==
  LET n == Nd(t)
      ax == 1 + R(s, 1, Max(n, 1))
      z == Sub(s, 3)
      k == Pick(s, 2, <<-1, 0, 0, 1>>)
      m == 1 + R(s, 4, 3)
      c == 1 + R(s, 5, 3)
      r == 1 + R(s, 6, 3)
  IN CASE o = "transpose" -> LET p == Fix(RPerm(z, n)) IN Op(o, <<t>>, [perm |-> p], Transpose(t, p))
       [] o = "reverse" -> Op(o, <<t>>, <<>>, Transpose(t, [i \in 1..n |-> n + 1 - i]))
       [] o = "reshape" -> LET sh == Fix(RSize(z, Size(t.sh))) IN Op(o, <<t>>, [shape |-> sh], Reshape(t, sh))
       [] o = "moveaxis" /\ n > 0 -> LET q == 1 + R(s, 7, n)
                                         a == Fix(RAxes(z, n, q))
                                         b == Fix(RAxes(Sub(s, 8), n, q))
                                     IN  Op(o, <<t>>, [old |-> a, new |-> b], Transpose(t, MovePerm(n, a, b)))
       [] o = "swapaxes" /\ n > 0 -> LET b == 1 + R(s, 7, n) IN Op(o, <<t>>, [a |-> ax, b |-> b], Transpose(t, Swap(n, ax, b)))
       [] o = "expand_dims" -> LET a == 1 + R(s, 7, n + 1) IN Op(o, <<t>>, [axis |-> a], Reshape(t, InsertAt(t.sh, a, 1)))
       [] o = "tile" /\ n > 0 /\ Size(t.sh) <= 12 -> LET q == Fix([i \in 1..(n + Pick(s, 7, <<0, 0, 1>>)) |-> Pick(s, 20 + i, <<1, 1, 2, 3>>)]) IN Op(o, <<t>>, [reps |-> q], Tile(t, q))
       [] o = "pad" /\ n > 0 /\ n < 4 -> LET q == Fix([i \in 1..n |-> <<R(s, 20 + i, 2), R(s, 30 + i, 3)>>])
                                            v == Pick(s, 8, <<0, 0, 2>>)
                                        IN  Op(o, <<t>>, [pad |-> q, value |-> v], Pad(t, q, <<v, 0>>))
       [] o = "diag" /\ n = 1 -> Op(o, <<t>>, [k |-> k], Diag(t, k))
       [] o = "diag_part" /\ n >= 2 -> LET kk == IF DiagLen(t, k, n - 1, n) < 1 THEN 0 ELSE k IN Op(o, <<t>>, [k |-> kk], Diagonal(t, kk, n - 1, n))
       [] o = "diagonal" /\ n >= 2 -> LET ab == Fix(RAxes(z, n, 2))
                                          kk == IF DiagLen(t, k, ab[1], ab[2]) < 1 THEN 0 ELSE k
                                      IN  Op(o, <<t>>, [k |-> kk, a |-> ab[1], b |-> ab[2]], Diagonal(t, kk, ab[1], ab[2]))
       [] o = "trace" /\ n >= 2 -> Op(o, <<t>>, <<>>, Trace(t))
       [] o = "sum" /\ n > 0 -> LET a == Fix(RAxes(z, n, 1 + R(s, 7, n))) IN Op(o, <<t>>, [axes |-> a], SumOver(t, a))
       [] o = "sumall" -> Op(o, <<t>>, <<>>, SumOver(t, All(t)))
       [] o = "prod" /\ n > 0 -> Op(o, <<t>>, [axis |-> ax], ProdOver(t, <<ax>>))
       [] o = "prodall" /\ Size(t.sh) <= 6 -> Op(o, <<t>>, <<>>, ProdOver(t, All(t)))
       [] o = "conj" -> Op(o, <<t>>, <<>>, Map1(t, CC))
       [] o = "real" -> Op(o, <<t>>, <<>>, RealOf(t))
       [] o = "imag" -> Op(o, <<t>>, <<>>, Map1(t, LAMBDA a : <<a[2], 0>>))
       [] o = "dagger" /\ n % 2 = 0 -> LET h == n \div 2 IN Op(o, <<t>>, <<>>, Map1(Transpose(t, [i \in 1..n |-> IF i <= h THEN i + h ELSE i - h]), CC))
       [] o = "gather" /\ n > 0 /\ n < 4 -> LET ish == Pick(s, 7, << <<1>>, <<2>>, <<3>>, <<2, 2>> >>)
                                        ix == Fix([i \in 1..Size(ish) |-> R(s, 20 + i, t.sh[ax])])
                                    IN  Op(o, <<t>>, [ish |-> ish, ix |-> ix, axis |-> ax], Gather(t, ish, ix, ax))
       [] o = "broadcast_to" /\ n < 4 -> LET sh == Fix((IF Coin(s, 7, 50) THEN <<2>> ELSE <<>>) \o [i \in 1..n |-> IF t.sh[i] = 1 THEN 1 + R(s, 20 + i, 3) ELSE t.sh[i]]) IN Op(o, <<t>>, [shape |-> sh], Broadcast(t, sh))
       [] o = "atleast_nd" -> LET q == R(s, 7, 5) IN Op(o, <<t>>, [n |-> q], Reshape(t, [i \in 1..Max(0, q - n) |-> 1] \o t.sh))
       [] o = "sort" /\ n > 0 -> LET v == RealOf(t) IN Op(o, <<v>>, [axis |-> ax], Sort(v, ax))
       [] o = "max" -> LET v == RealOf(t) IN Op(o, <<v>>, <<>>, [sh |-> <<>>, d |-> <<CHOOSE e \in {v.d[i] : i \in 1..Len(v.d)} : \A i \in 1..Len(v.d) : v.d[i][1] <= e[1]>>])
       [] o = "clip" -> LET v == RealOf(t) IN Op(o, <<v>>, [lo |-> -1, hi |-> r], Map1(v, LAMBDA e : <<Min(r, Max(-1, e[1])), 0>>))
       [] o = "det" -> LET v == Rnd(z, Pick(s, 7, << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<2, 2, 2>>, <<2, 3, 3>> >>), Coin(s, 8, 50)) IN Op(o, <<v>>, <<>>, DetT(v))
       [] o = "adj" -> LET v == Rnd(z, <<r, r>>, Coin(s, 8, 50)) IN IF Det(Mat(v, <<>>)) = Zero THEN <<>> ELSE Op(o, <<v>>, [det |-> Det(Mat(v, <<>>))], Adj(v))
       [] o = "solve" -> LET v == Rnd(z, <<r, r>>, Coin(s, 8, 50))
                             x == Rnd(Sub(z, 2), Pick(s, 7, << <<r>>, <<r, c>> >>), Coin(s, 8, 50))
                         IN  IF Det(Mat(v, <<>>)) = Zero THEN <<>> ELSE Op(o, <<v, TensorDot(v, x, <<2>>, <<1>>)>>, <<>>, x)
       [] o = "concat" /\ n > 0 -> LET u == Rnd(z, [t.sh EXCEPT ![ax] = r], FALSE)
                                       w == Rnd(Sub(z, 2), [t.sh EXCEPT ![ax] = c], Coin(s, 8, 50))
                                       q == IF Coin(s, 7, 50) THEN <<t, u>> ELSE <<u, t, w>>
                                   IN  Op(o, q, [axis |-> ax], Concat(q, ax))
       [] o = "stack" /\ n < 4 -> LET q == IF Coin(s, 7, 50) THEN <<t, Rnd(z, t.sh, TRUE)>> ELSE <<Rnd(z, t.sh, TRUE), t, Rnd(Sub(z, 2), t.sh, FALSE)>>
                           a == 1 + R(s, 8, n + 1)
                       IN  Op(o, q, [axis |-> a], Stack(q, a))
       [] o = "block" -> LET b == Pick(s, 7, << <<>>, <<>>, <<2>> >>)
                             q == [i \in 1..4 |-> Rnd(Sub(z, i), b \o <<IF i <= 2 THEN r ELSE c, IF i % 2 = 1 THEN m ELSE r>>, Coin(s, 20 + i, 50))]
                             a == Len(b) + 1
                         IN  Op(o, q, <<>>, Concat(<<Concat(<<q[1], q[2]>>, a + 1), Concat(<<q[3], q[4]>>, a + 1)>>, a))
       [] o = "matmul" -> LET q == Pick(s, 7, << << <<>>, <<>> >>, << <<>>, <<>> >>, << <<2>>, <<2>> >>, << <<2>>, <<>> >>, << <<>>, <<3>> >>, << <<2, 1>>, <<3>> >> >>)
                              a == Rnd(z, q[1] \o <<r, c>>, Coin(s, 8, 50))
                              b == Rnd(Sub(z, 2), q[2] \o <<c, m>>, Coin(s, 9, 50))
                          IN  Op(o, <<a, b>>, <<>>, MatMul(a, b))
       [] o = "matmul3" -> LET q == Pick(s, 7, << <<>>, <<>>, <<2>> >>)
                               a == Rnd(z, q \o <<r, c>>, Coin(s, 8, 50))
                               b == Rnd(Sub(z, 2), (IF Coin(s, 9, 50) THEN q ELSE <<>>) \o <<c, m>>, TRUE)
                               d == Rnd(Sub(z, 3), q \o <<m, r>>, TRUE)
                           IN  Op(o, <<a, b, d>>, <<>>, MatMul(MatMul(a, b), d))
       [] o = "matvec" -> LET q == Pick(s, 7, << <<>>, <<>>, <<2>>, <<2, 3>> >>)
                              a == Rnd(z, q \o <<r, c>>, Coin(s, 8, 50))
                              b == Rnd(Sub(z, 2), (IF Coin(s, 9, 60) THEN q ELSE <<>>) \o <<c>>, Coin(s, 10, 50))
                              p == MatMul(a, Reshape(b, b.sh \o <<1>>))
                          IN  IF Len(q) > 0 /\ Len(b.sh) = 1 THEN Op(o, <<a, b>>, <<>>, Reshape(p, Front(p.sh, Nd(p) - 1))) ELSE Op(o, <<a, b>>, <<>>, Reshape(p, Front(p.sh, Nd(p) - 1)))
       [] o = "tensordot" /\ n > 0 /\ n < 4 -> LET q == R(s, 7, Min(n, 2) + 1)
                                           at == Fix(RAxes(z, n, q))
                                           un == q + R(s, 8, 2)
                                           au == Fix(RAxes(Sub(z, 1), un, q))
                                           u == Rnd(Sub(z, 2), Fix([j \in 1..un |-> IF In(au, j) THEN t.sh[at[PosOf(au, j)]] ELSE 2]), Coin(s, 9, 50))
                                       IN  Op(o, <<t, u>>, [at |-> at, au |-> au], TensorDot(t, u, at, au))
       [] o = "kron" -> LET a == Rnd(z, <<r, c>>, Coin(s, 8, 50))
                            b == Rnd(Sub(z, 2), <<m, r>>, Coin(s, 9, 50))
                        IN  Op(o, <<a, b>>, <<>>, Kron(a, b))
       [] o = "outer" /\ n < 3 -> LET u == Rnd(z, RShape(Sub(z, 1), R(s, 7, 3)), TRUE) IN Op(o, <<t, u>>, <<>>, TensorDot(t, u, <<>>, <<>>))
       [] o = "einsum" /\ n > 0 /\ n < 4 -> LET lt == Fix(RPerm(z, n))
                                        un == 1 + R(s, 7, 3)
                                        lu == Fix([j \in 1..un |-> RPerm(Sub(z, 1), 5)[j]])
                                        u == Rnd(Sub(z, 2), Fix([j \in 1..un |-> IF In(lt, lu[j]) THEN t.sh[PosOf(lt, lu[j])] ELSE 2]), Coin(s, 9, 50))
                                        lab == Shuffle(Sub(z, 4), lt \o SelectSeq(lu, LAMBDA l : ~In(lt, l)))
                                        lo == Fix(SelectSeq(lab, LAMBDA l : Coin(s, 40 + l, 55)))
                                    IN  Op(o, <<t, u>>, [lt |-> lt, lu |-> lu, lo |-> lo], Einsum(t, lt, u, lu, lo))
       [] o \in {"maximum", "minimum", "mod", "equal"} ->
            LET v == IF o = "equal" THEN t ELSE RealOf(t)
                u0 == Rnd(z, t.sh, o # "equal")
                u == IF o = "mod" THEN Map1(u0, LAMBDA e : <<1 + Abs(e[1]), 0>>) ELSE IF o = "equal" THEN Map2(t, u0, LAMBDA e, f : IF f[1] > 0 THEN e ELSE f) ELSE u0
                f(e, g) == CASE o = "maximum" -> <<Max(e[1], g[1]), 0>> [] o = "minimum" -> <<Min(e[1], g[1]), 0>> [] o = "mod" -> <<e[1] % g[1], 0>> [] OTHER -> IF e = g THEN One ELSE Zero
            IN  Op(o, <<v, u>>, <<>>, Map2(v, u, f))
       [] o = "make_complex" -> LET v == RealOf(t)
                                    u == Rnd(z, t.sh, TRUE)
                                IN  Op(o, <<v, u>>, <<>>, Map2(v, u, LAMBDA e, f : <<e[1], f[1]>>))
       [] o = "update_add_tensor" /\ n > 0 -> LET ix == Fix([i \in 1..m |-> [j \in 1..n |-> R(s, 20 + 10 * i + j, t.sh[j])]])
                                                  vs == Rnd(z, <<m>>, Real(t))
                                              IN  Op(o, <<t, vs>>, [ix |-> ix], Update(t, ix, vs.d, TRUE, 1))
       [] o = "update_tensor" /\ n > 0 -> LET p == Front(RPerm(z, t.sh[1]), Min(m, t.sh[1]))          \* whole rows, each once
                                              sub == Drop(t.sh, 1)
                                              vs == Rnd(Sub(z, 1), <<Len(p)>> \o sub, Real(t))
                                              ix == Fix([k2 \in 1..Size(vs.sh) |-> LET dg == Digits(vs.sh, k2 - 1) IN [dg EXCEPT ![1] = p[dg[1] + 1] - 1]])
                                          IN  Op(o, <<t, vs>>, [rows |-> p], Update(t, ix, vs.d, FALSE, 1))
       [] o = "all_diagonals" -> LET sh == Fix(RShape(z, Pick(s, 7, <<1, 1, 2>>)))
                                     v == Rnd(Sub(z, 1), sh \o sh, FALSE)
                                     rl == Coin(s, 8, 50)
                                     out == Make(sh, LAMBDA dg : LET e == At(v, dg \o dg) IN IF rl THEN <<e[1], 0>> ELSE e)
                                 IN  Op(o, <<v>>, [real |-> rl], out)
       [] o = "eye_like" /\ n = 2 /\ t.sh[1] = t.sh[2] -> Op(o, <<t>>, <<>>, Eye(t.sh[1]))
       [] o = "ones_like" -> Op(o, <<t>>, <<>>, Map1(t, LAMBDA e : One))
       [] o = "zeros_like" -> Op(o, <<t>>, <<>>, Map1(t, LAMBDA e : Zero))
       [] o = "expm" ->                \* twice the exponential of a strictly upper triangular matrix
            LET v == Make(<<3, 3>>, LAMBDA dg : IF dg[2] > dg[1] THEN <<Rng(z, 3 * dg[1] + dg[2], -2, 2), Rng(z, 20 + 3 * dg[1] + dg[2], -1, 1)>> ELSE Zero)
                v2 == MatMul(v, v)
            IN  Op(o, <<v>>, <<>>, Make(<<3, 3>>, LAMBDA dg : CA(CA(IF dg[1] = dg[2] THEN <<2, 0>> ELSE Zero, CA(At(v, dg), At(v, dg))), At(v2, dg))))
       [] o = "sqrtm" ->               \* M upper triangular with different positive entries on the diagonal: the principal root of M^2
            LET v == Make(<<r, r>>, LAMBDA dg : IF dg[2] = dg[1] THEN <<1 + 2 * dg[1] + R(z, dg[1], 2), 0>> ELSE IF dg[2] > dg[1] THEN <<Rng(z, 30 + 3 * dg[1] + dg[2], -2, 2), Rng(z, 20 + 3 * dg[1] + dg[2], -1, 1)>> ELSE Zero)
            IN  Op(o, <<MatMul(v, v)>>, <<>>, v)
       [] o = "sqrtmh" ->              \* H Hermitian and positive (diagonally dominant): the principal root of H^2
            LET v == Make(<<r, r>>, LAMBDA dg : IF dg[2] = dg[1] THEN <<7 + R(z, dg[1], 4), 0>>
                                                ELSE LET a == Min(dg[1], dg[2])
                                                         b == Max(dg[1], dg[2])
                                                     IN  <<Rng(z, 30 + 3 * a + b, -2, 2), (IF dg[1] < dg[2] THEN 1 ELSE -1) * Rng(z, 20 + 3 * a + b, -1, 1)>>)
            IN  Op(o, <<MatMul(v, v)>>, <<>>, v)
       [] o = "eigvals" ->             \* triangular up to a permutation
            LET v == Make(<<r, r>>, LAMBDA dg : IF dg[2] = dg[1] THEN <<1 + 3 * dg[1] + R(z, dg[1], 2), 0>> ELSE IF dg[2] > dg[1] THEN <<Rng(z, 30 + 3 * dg[1] + dg[2], -2, 2), 0>> ELSE Zero)
                p == Fix(RPerm(Sub(z, 1), r))
            IN  Op(o, <<Make(<<r, r>>, LAMBDA dg : At(v, <<p[dg[1] + 1] - 1, p[dg[2] + 1] - 1>>))>>, <<>>, Diagonal(v, 0, 1, 2))
       [] o = "norm2" /\ n > 0 -> Op(o, <<t>>, <<>>, [sh |-> <<>>, d |-> << <<SumTo(LAMBDA i : t.d[i][1] * t.d[i][1] + t.d[i][2] * t.d[i][2], Len(t.d)), 0>> >>])
       [] o = "allclose" -> LET b == Coin(s, 7, 50)
                                u == IF b THEN t ELSE [t EXCEPT !.d[1 + R(s, 8, Len(t.d))] = CA(@, <<1, 0>>)]
                            IN  Op(o, <<t, u>>, <<>>, [sh |-> <<>>, d |-> <<IF b THEN One ELSE Zero>>])
       [] o = "unitary_to_orthogonal" /\ n = 2 -> LET X == RealOf(t)
                                                      Y == Map1(t, LAMBDA a : <<a[2], 0>>)
                                                  IN  Op(o, <<t>>, <<>>, Concat(<<Concat(<<X, Map1(Y, Neg)>>, 2), Concat(<<Y, X>>, 2)>>, 1))
       [] o = "map_fn" /\ n > 1 -> Op(o, <<t>>, <<>>, SumOver(t, Rest(n, <<1>>)))
       [] o = "pow" -> Op(o, <<t>>, [k |-> r], Map1(t, LAMBDA e : CProd(LAMBDA i : e, r)))
       [] o = "gradient" ->            \* of sum_k c_k (prod over rows of (x . a_k)) at the integer point x: value and gradient
            LET x == Rnd(z, <<c>>, TRUE)
                a == Rnd(Sub(z, 1), <<r, m, c>>, TRUE)
                lin(i, j) == SumTo(LAMBDA l : At(a, <<i - 1, j - 1, l - 1>>)[1] * x.d[l][1], c)
                pr(i, sk) == CProd(LAMBDA j : IF j = sk THEN One ELSE <<lin(i, j), 0>>, m)[1]
                val == SumTo(LAMBDA i : pr(i, 0), r)
                g(l) == SumTo(LAMBDA i : SumTo(LAMBDA j : At(a, <<i - 1, j - 1, l - 1>>)[1] * pr(i, j), m), r)
            IN  Op(o, <<x, a>>, [value |-> val], [sh |-> <<c>>, d |-> TLCEval([l \in 1..c |-> <<g(l), 0>>])])
       [] OTHER -> <<>>

Fits(t) == Size(t.sh) <= 40 /\ Nd(t) <= 5 /\ \A k \in 1..Len(t.d) : Abs(t.d[k][1]) < 300 /\ Abs(t.d[k][2]) < 300
Init == seed \in Seeds(Base, N) /\ pool = <<>> /\ rec = <<>> /\ left = MaxSteps
Begin == \E s \in {seed} : pool' = TLCEval([i \in 1..3 |-> RTensor(Sub(s, i))]) /\ seed' = NextSeed(s) /\ UNCHANGED <<rec, left>>
Move == \E s \in {seed} : \E o \in {Pick(s, 1, Names)} : \E r \in {Do(Sub(s, 1), o, pool[1 + R(s, 2, 3)])} :
   /\ left' = left - 1
   /\ seed' = NextSeed(s)
   /\ IF r = <<>> THEN UNCHANGED <<pool, rec>>
      ELSE /\ rec' = Append(rec, r)
           /\ pool' = IF Fits(r.out) /\ Coin(s, 3, 60) THEN [pool EXCEPT ![1 + R(s, 4, 3)] = r.out] ELSE [pool EXCEPT ![1 + R(s, 4, 3)] = RTensor(Sub(s, 5))]
Next == left > 0 /\ (IF pool = <<>> THEN Begin ELSE Move)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ laws *)
WellFormed == \A i \in 1..Len(pool) : Len(pool[i].d) = Size(pool[i].sh)
Inverses == pool # <<>> => \E s \in {seed} : LET t == pool[1]
                               n == Nd(t)
                               p == RPerm(Sub(s, 9), n)
                               q == [i \in 1..n |-> PosOf(p, i)]
                           IN  Transpose(Transpose(t, p), q) = t /\ Reshape(Reshape(t, <<Size(t.sh)>>), t.sh) = t
(* the total is the same however it is summed; the trace of a product does not depend on the order *)
Totals == pool # <<>> => \E s \in {seed} : LET t == pool[1]
                             n == Nd(t)
                             a == RAxes(Sub(s, 9), n, IF n = 0 THEN 0 ELSE 1)
                             u == SumOver(t, a)
                         IN  SumOver(u, All(u)) = SumOver(t, All(t))
Cyclic == pool # <<>> => \E s \in {seed} : LET a == Rnd(Sub(s, 11), <<2, 3>>, FALSE)
                             b == Rnd(Sub(s, 12), <<3, 2>>, FALSE)
                         IN  Trace(MatMul(a, b)) = Trace(MatMul(b, a))
                             /\ LET m == Rnd(Sub(s, 13), <<3, 3>>, FALSE)
                                    w == Rnd(Sub(s, 14), <<3, 3>>, FALSE)
                                    ad == MatMul(m, Adj(m))
                                    dt == Det(Mat(m, <<>>))
                                IN  /\ Det(Mat(MatMul(m, w), <<>>)) = CM(dt, Det(Mat(w, <<>>)))
                                    /\ ad = Make(<<3, 3>>, LAMBDA dg : IF dg[1] = dg[2] THEN dt ELSE Zero)
                                    /\ Einsum(m, <<1, 2>>, w, <<2, 3>>, <<1, 3>>) = MatMul(m, w)
                                    /\ TensorDot(m, w, <<2>>, <<1>>) = MatMul(m, w)
Emit == left > 0 \/ rec = <<>> \/ PrintT("@@" \o ToJson([recs |-> rec]))
=============================================================================
