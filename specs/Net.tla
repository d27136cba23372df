-------------------------------- MODULE Net -----------------------------------
(* Components of a tensor network with exact (Gaussian-integer) arrays, and what connecting them means. *)
(* A component is [legs, dims, arr]: legs in standard order, one dimension per leg, and the entries in  *)
(* row-major order as pairs <<re, im>>.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

Flip(k)  == IF k % 2 = 0 THEN k + 1 ELSE k - 1
Swap(k)  == IF k < 2 THEN k + 2 ELSE k - 2
IsOut(l) == l[1] % 2 = 0
IsKet(l) == l[1] >= 2
Less(l, m) == l[1] < m[1] \/ (l[1] = m[1] /\ l[2] < m[2])
Rank(w, l) == Cardinality({m \in w : Less(m, l)})
Ordered(w) == [i \in 1..Cardinality(w) |-> CHOOSE l \in w : Rank(w, l) = i - 1]
ToSet(s) == {s[i] : i \in 1..Len(s)}
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Min(x, y) == IF x < y THEN x ELSE y

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Size(s) == ProdFrom(s, 1)
Strides(d) == TLCEval([i \in 1..Len(d) |-> ProdFrom(d, i + 1)])
Digit(d, st, k, i) == (k \div st[i]) % d[i]

CMul(u, v) == <<u[1] * v[1] - u[2] * v[2], u[1] * v[2] + u[2] * v[1]>>
CAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
CConj(u) == <<u[1], 0 - u[2]>>

Out(x) == {l \in ToSet(x.legs) : IsOut(l)}
Comp(legs, dims, arr) == [legs |-> legs, dims |-> dims, arr |-> arr]

(* ------------------------------------------------------------------ contraction *)
Meet(x, y) == {l \in Out(x) : <<Flip(l[1]), l[2]>> \in ToSet(y.legs)}
Joinable(x, y) ==
  LET M == Meet(x, y) IN
  (ToSet(x.legs) \ M) \cap (ToSet(y.legs) \ {<<Flip(l[1]), l[2]>> : l \in M}) = {}

RECURSIVE Dot(_, _, _, _, _, _, _, _)
Dot(x, y, bx, by, cx, cy, cd, k) ==      \* sum over the connected wires
  IF k < 0 THEN <<0, 0>>
  ELSE LET st == Strides(cd)
           ox == bx + SumTo(LAMBDA j : Digit(cd, st, k, j) * cx[j], Len(cd))
           oy == by + SumTo(LAMBDA j : Digit(cd, st, k, j) * cy[j], Len(cd))
       IN  CAdd(CMul(x.arr[ox + 1], y.arr[oy + 1]), Dot(x, y, bx, by, cx, cy, cd, k - 1))

Join(x, y) ==
  LET M   == Meet(x, y)
      Mo  == Ordered(M)
      sx  == TLCEval(Strides(x.dims))
      sy  == TLCEval(Strides(y.dims))
      px(l) == IndexIn(x.legs, l)
      py(l) == IndexIn(y.legs, l)
      fl(l) == <<Flip(l[1]), l[2]>>
      keepX == ToSet(x.legs) \ M
      keepY == ToSet(y.legs) \ {fl(l) : l \in M}
      lg  == TLCEval(Ordered(keepX \cup keepY))
      dm  == TLCEval([i \in 1..Len(lg) |-> IF lg[i] \in keepX THEN x.dims[px(lg[i])] ELSE y.dims[py(lg[i])]])
      st  == TLCEval(Strides(dm))
      rx  == TLCEval([i \in 1..Len(lg) |-> IF lg[i] \in keepX THEN sx[px(lg[i])] ELSE 0])
      ry  == TLCEval([i \in 1..Len(lg) |-> IF lg[i] \in keepX THEN 0 ELSE sy[py(lg[i])]])
      cd  == TLCEval([j \in 1..Len(Mo) |-> Min(x.dims[px(Mo[j])], y.dims[py(fl(Mo[j]))])])
      cx  == TLCEval([j \in 1..Len(Mo) |-> sx[px(Mo[j])]])
      cy  == TLCEval([j \in 1..Len(Mo) |-> sy[py(fl(Mo[j]))]])
      val(k) == LET bx == SumTo(LAMBDA i : Digit(dm, st, k, i) * rx[i], Len(lg))
                    by == SumTo(LAMBDA i : Digit(dm, st, k, i) * ry[i], Len(lg))
                IN Dot(x, y, bx, by, cx, cy, cd, Size(cd) - 1)
  IN  Comp(lg, dm, TLCEval([k \in 1..Size(dm) |-> val(k - 1)]))

(* relabel the legs with f (injective), conjugating the entries if cj *)
Relabel(x, f(_), cj) ==
  LET img == {f(l) : l \in ToSet(x.legs)}
      lg  == TLCEval(Ordered(img))
      src == TLCEval([i \in 1..Len(lg) |-> CHOOSE j \in 1..Len(x.legs) : f(x.legs[j]) = lg[i]])
      dm  == TLCEval([i \in 1..Len(lg) |-> x.dims[src[i]]])
      st  == TLCEval(Strides(dm))
      sx  == TLCEval(Strides(x.dims))
      val(k) == x.arr[1 + SumTo(LAMBDA i : Digit(dm, st, k, i) * sx[src[i]], Len(lg))]
  IN Comp(lg, dm, TLCEval([k \in 1..Size(dm) |-> IF cj THEN CConj(val(k - 1)) ELSE val(k - 1)]))
Adj(x)  == Relabel(x, LAMBDA l : <<Swap(l[1]), l[2]>>, TRUE)
Dual(x) == Relabel(x, LAMBDA l : <<Flip(l[1]), l[2]>>, TRUE)
On(x, p) == Relabel(x, LAMBDA l : <<l[1], p[l[2] + 1]>>, FALSE)   \* p order preserving on the modes of x
Scale(z, x) == [x EXCEPT !.arr = TLCEval([k \in 1..Len(x.arr) |-> CMul(z, x.arr[k])])]

(* ------------------------------------------------------------------ the >> operator *)
HasK(x) == \E i \in 1..Len(x.legs) : IsKet(x.legs[i])
HasB(x) == \E i \in 1..Len(x.legs) : ~IsKet(x.legs[i])
Bad == [legs |-> <<>>, dims |-> <<>>, arr |-> <<>>, bad |-> TRUE]
IsBad(x) == "bad" \in DOMAIN x
J(x, y) == IF IsBad(x) \/ IsBad(y) THEN Bad ELSE IF Joinable(x, y) THEN Join(x, y) ELSE Bad
Shift(x, y) ==
  IF IsBad(x) \/ IsBad(y) \/ x.legs = <<>> \/ y.legs = <<>> THEN Bad ELSE
  LET kx == HasK(x) bx == HasB(x) ky == HasK(y) by == HasB(y) IN
  CASE kx = ky /\ bx = by -> J(x, y)
    [] (kx # bx) /\ ky /\ by -> J(Adj(x), J(x, y))
    [] kx /\ bx /\ (ky # by) -> J(J(x, Adj(y)), y)
    [] OTHER -> Bad
Dm(x) == J(x, Adj(x))

(* trace over the outputs of the modes in ms (both sides), adding the adjoint of a one-sided component *)
Trace(x, ms) ==
  LET y == IF HasK(x) /\ HasB(x) THEN x ELSE J(Adj(x), x)
      tr == {m \in ms : <<0, m>> \in ToSet(y.legs) /\ <<2, m>> \in ToSet(y.legs)}
      tm == TLCEval(Ordered({<<2, m>> : m \in tr}))
      lg == TLCEval(Ordered(ToSet(y.legs) \ {<<c, m>> : c \in {0, 2}, m \in tr}))
      sy == TLCEval(Strides(y.dims))
      ps(l) == IndexIn(y.legs, l)
      dm == TLCEval([i \in 1..Len(lg) |-> y.dims[ps(lg[i])]])
      st == TLCEval(Strides(dm))
      cd == TLCEval([j \in 1..Len(tm) |-> Min(y.dims[ps(tm[j])], y.dims[ps(<<0, tm[j][2]>>)])])
      ct == TLCEval(Strides(cd))
      base(k) == SumTo(LAMBDA i : Digit(dm, st, k, i) * sy[ps(lg[i])], Len(lg))
      off(q) == SumTo(LAMBDA j : Digit(cd, ct, q, j) * (sy[ps(tm[j])] + sy[ps(<<0, tm[j][2]>>)]), Len(tm))
      re(k) == SumTo(LAMBDA q : y.arr[1 + base(k) + off(q - 1)][1], Size(cd))
      im(k) == SumTo(LAMBDA q : y.arr[1 + base(k) + off(q - 1)][2], Size(cd))
  IN IF IsBad(y) THEN Bad ELSE Comp(lg, dm, TLCEval([k \in 1..Size(dm) |-> <<re(k - 1), im(k - 1)>>]))

(* ------------------------------------------------------------------ random components *)
Subset(s, i, atleast) ==      \* a set of modes
  LET m == {x \in 0..2 : Coin(s, i + x, 45)} IN
  IF Cardinality(m) >= atleast THEN m ELSE m \cup {R(s, i + 7, 3)}
One(s, i) == {R(s, i, 3)}
Cr(cs, ms) == {<<c, m>> : c \in cs, m \in ms}
LegSet(s) ==
  LET k == R(s, 1, 12) m == Subset(s, 10, 1) n == Subset(s, 20, 1) o == One(s, 30) q == One(s, 40) IN
  CASE k \in {0, 1} -> Cr({2}, m)
    [] k = 2 -> Cr({0, 2}, o)
    [] k = 3 -> Cr({2}, o) \cup Cr({3}, n)
    [] k = 4 -> Cr({2}, m) \cup Cr({3}, o)
    [] k = 5 -> Cr({2, 3}, IF Cardinality(m) > 2 THEN o ELSE m)
    [] k = 6 -> Cr({0, 1, 2, 3}, o)
    [] k = 7 -> Cr({0, 2}, o) \cup Cr({1, 3}, q)
    [] k = 8 -> Cr({3}, m)
    [] k = 9 -> Cr({1, 3}, o)
    [] k = 10 -> Cr({0, 2}, IF Cardinality(m) > 2 THEN o ELSE m)
    [] OTHER -> LET w == {l \in Cr(0..3, 0..2) : Coin(s, 50 + 3 * l[1] + l[2], 25)} IN IF w = {} THEN Cr({2}, o) ELSE IF Cardinality(w) > 4 THEN Cr({1, 2}, o) ELSE w
RandOn(s, ls) ==
  LET lg == TLCEval(Ordered(ls))
      mx == IF Len(lg) >= 4 THEN 2 ELSE 3
      \* a component is unnatural with dimensions that differ between bra and ket, but they are allowed
      dm == TLCEval([i \in 1..Len(lg) |-> LET d == R(s, IF Coin(s, 70, 60) THEN 100 + lg[i][2] ELSE 110 + i, 5) IN IF d = 0 THEN 1 ELSE IF d < 3 THEN Min(2, mx) ELSE mx])
  IN Comp(lg, dm, TLCEval([k \in 1..Size(dm) |-> IF Coin(s, 1000 + k, 80) THEN <<Rng(s, 3000 + k, -2, 2), Rng(s, 5000 + k, -2, 2)>> ELSE <<0, 0>>]))

RandComp(s) == RandOn(s, LegSet(s))
(* a component whose inputs face (most of) the outputs of x, and maybe with outputs of its own *)
MateLegs(s, x) ==
  LET ou == {l \in Out(x) : Coin(s, 401 + 4 * l[2] + l[1], 85) /\ (Coin(s, 400, 65) \/ IsKet(l) \/ ~HasK(x))}
      fl == {<<Flip(l[1]), l[2]>> : l \in ou}
      both == IF ~Coin(s, 420, 30) THEN fl ELSE fl \cup {<<Swap(l[1]), l[2]>> : l \in fl}
      ext == IF Coin(s, 421, 45) THEN {} ELSE {<<Flip(l[1]), IF Coin(s, 422, 70) THEN l[2] ELSE R(s, 423, 3)>> : l \in both}
  IN both \cup ext
Mate(s, x) == LET ls == MateLegs(s, x) IN IF ls = {} \/ Cardinality(ls) > 6 THEN RandComp(s) ELSE RandOn(s, ls)
Cost(x, y) == Size(x.dims) * Size(y.dims)
RECURSIVE MaxAbs(_, _)
MaxAbs(a, i) == IF i = 0 THEN 0 ELSE LET m == MaxAbs(a, i - 1) v == a[i] n == (IF v[1] < 0 THEN 0 - v[1] ELSE v[1]) + (IF v[2] < 0 THEN 0 - v[2] ELSE v[2]) IN IF n > m THEN n ELSE m
Small(x) == ~IsBad(x) /\ x.legs # <<>> /\ Len(x.legs) <= 5 /\ Size(x.dims) <= 90 /\ MaxAbs(x.arr, Len(x.arr)) < 800

=============================================================================
