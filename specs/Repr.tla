-------------------------------- MODULE Repr --------------------------------
(* A user moving components between the Bargmann and the Fock representation, setting Fock cutoffs, and      *)
(* combining the results.  What a component *is* - its amplitudes - is independent of how it is stored.       *)
(*                                                                                                            *)
(* Amplitudes are stored multiplied by Prod sqrt(n!), which makes those of Gaussian objects integers (they     *)
(* are derivatives of exp(zAz/2 + bz) at zero): amplitude[n] = exp(-E/2) * arr[n] / F^den / Prod sqrt(n!).     *)
(* dims[i] is the number of levels of leg i the table knows, fin[i] whether everything beyond is zero.         *)
EXTENDS Net

CONSTANTS Base, N, Depth, D            \* tables know at most D levels of a leg
VARIABLES seed, t, store, dflt, size, prog
vars == <<seed, t, store, dflt, size, prog>>

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
F == Fact(D - 1)
W == TLCEval([i \in 1..D |-> F \div Fact(i - 1)])          \* F / n!
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
Max(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------------ objects *)
(* rep: "B" or "F".  cut[i]: the Fock cutoff set on leg i, 0 if none.                                          *)
(* kind: "g" one Gaussian term, "p" polynomial or several terms, "u" not determined (B only).                  *)
(* mem: whether an array remembers the Gaussian data it was made from - "yes", "no" or "maybe" (F only).        *)
Obj(c, den, e, fin, rep, kind, cut, mem, orig) ==
  [legs |-> c.legs, dims |-> c.dims, arr |-> c.arr, den |-> den, E |-> e, fin |-> fin, rep |-> rep, kind |-> kind,
   cut |-> cut, mem |-> mem, orig |-> orig]
NoOrig == [dims |-> <<>>, arr |-> <<>>, fin |-> <<>>, den |-> 0]
All(v, n) == TLCEval([i \in 1..n |-> v])
K(x) == Len(x.legs)
FinAll(x) == \A i \in 1..K(x) : x.fin[i]
CompOf(x) == Comp(x.legs, x.dims, x.arr)
LegIdx(x, l) == IndexIn(x.legs, l)

(* the table cut or zero-padded to the levels s *)
Cut(x, s) ==
  LET so == Strides(x.dims) st == Strides(s)
      val(k) == IF \E i \in 1..Len(s) : Digit(s, st, k, i) >= x.dims[i] THEN <<0, 0>>
                ELSE x.arr[1 + SumTo(LAMBDA i : Digit(s, st, k, i) * so[i], Len(s))]
  IN  TLCEval([k \in 1..Size(s) |-> val(k - 1)])
Known(x, s) == \A i \in 1..K(x) : x.fin[i] \/ s[i] <= x.dims[i]
(* entries multiplied by F/n! on the given leg positions *)
Weigh(c, idx) ==
  LET st == TLCEval(Strides(c.dims))
      f(k) == ProdFrom(TLCEval([j \in 1..Len(idx) |-> W[1 + Digit(c.dims, st, k, idx[j])]]), 1)
  IN  Comp(c.legs, c.dims, TLCEval([k \in 1..Len(c.arr) |-> <<c.arr[k][1] * f(k - 1), c.arr[k][2] * f(k - 1)>>]))

(* ------------------------------------------------------------------ conversions *)
(* the levels used when none are asked for: cutoffs that were set, else the size of the array, else the default *)
AutoKnown(x) == x.rep = "F" \/ \A i \in 1..K(x) : x.cut[i] > 0
Auto(x) == [i \in 1..K(x) |-> IF x.cut[i] > 0 THEN x.cut[i] ELSE x.dims[i]]
ToFock(x, s) ==
  [x EXCEPT !.arr = Cut(x, s), !.dims = s, !.fin = All(TRUE, K(x)), !.rep = "F", !.cut = s,
            !.mem = IF x.rep = "B" THEN (IF x.kind = "g" THEN "yes" ELSE "maybe")
                    ELSE IF x.mem = "no" /\ \A i \in 1..K(x) : s[i] >= x.dims[i] THEN "no" ELSE "maybe",
            !.orig = IF x.rep = "B" /\ x.kind = "g" THEN [dims |-> x.dims, arr |-> x.arr, fin |-> x.fin, den |-> x.den] ELSE NoOrig,
            !.kind = "p"]
ToBarg(x) ==
  IF x.rep = "B" THEN x
  ELSE CASE x.mem = "yes" -> [x EXCEPT !.rep = "B", !.kind = "g", !.dims = x.orig.dims, !.arr = x.orig.arr, !.fin = x.orig.fin, !.den = x.orig.den, !.mem = "no", !.orig = NoOrig]
         [] x.mem = "no" -> [x EXCEPT !.rep = "B", !.kind = "p", !.orig = NoOrig]
         [] OTHER -> [x EXCEPT !.rep = "B", !.kind = "u", !.fin = All(FALSE, K(x)), !.mem = "no", !.orig = NoOrig]
Forget(x) == IF x.rep = "F" /\ x.mem = "yes" THEN [x EXCEPT !.mem = "maybe", !.orig = NoOrig] ELSE x

(* ------------------------------------------------------------------ the other operations *)
Moved(x, f(_), cj) ==
  LET c == Relabel(CompOf(x), f, cj)
      src == TLCEval([i \in 1..K(x) |-> CHOOSE j \in 1..K(x) : f(x.legs[j]) = c.legs[i]])
  IN  [x EXCEPT !.legs = c.legs, !.dims = c.dims, !.arr = c.arr, !.fin = TLCEval([i \in 1..K(x) |-> x.fin[src[i]]]), !.cut = TLCEval([i \in 1..K(x) |-> x.cut[src[i]]])]
(* an operation that computes a new array gives it its own size as cutoffs *)
Own(x) == IF x.rep = "F" THEN [x EXCEPT !.cut = x.dims] ELSE x
XAdj(x) == Own(Moved(Forget(x), LAMBDA l : <<Swap(l[1]), l[2]>>, TRUE))
XDual(x) == Own(Moved(Forget(x), LAMBDA l : <<Flip(l[1]), l[2]>>, TRUE))
XScale(x, z) == LET c == Scale(z, CompOf(x)) IN Own([Forget(x) EXCEPT !.arr = c.arr])
CanJoin(x, y) == Joinable(CompOf(x), CompOf(y))
Pairs(x, y) == Ordered(Meet(CompOf(x), CompOf(y)))
(* a connected pair of legs can be summed if one side is finite and the other known as far *)
Summable(x, y) == \A l \in Meet(CompOf(x), CompOf(y)) :
   LET i == LegIdx(x, l) j == LegIdx(y, <<Flip(l[1]), l[2]>>) IN
   (x.fin[i] /\ (y.fin[j] \/ x.dims[i] <= y.dims[j])) \/ (y.fin[j] /\ y.dims[j] <= x.dims[i])
JoinSame(x, y) ==          \* both in one representation
  LET ps == TLCEval(Pairs(x, y))
      yw == Weigh(CompOf(y), TLCEval([q \in 1..Len(ps) |-> LegIdx(y, <<Flip(ps[q][1]), ps[q][2]>>)]))
      c == TLCEval(Join(CompOf(x), yw))
      own(l) == l \in ToSet(x.legs) /\ l \notin ToSet(ps)
      fn == TLCEval([i \in 1..Len(c.legs) |-> IF own(c.legs[i]) THEN x.fin[LegIdx(x, c.legs[i])] ELSE y.fin[LegIdx(y, c.legs[i])]])
      ct == TLCEval([i \in 1..Len(c.legs) |-> IF own(c.legs[i]) THEN x.cut[LegIdx(x, c.legs[i])] ELSE y.cut[LegIdx(y, c.legs[i])]])
  IN  IF x.rep = "F" THEN Obj(c, x.den + y.den + Len(ps), x.E + y.E, fn, "F", "p", c.dims, IF x.mem = "no" /\ y.mem = "no" THEN "no" ELSE "maybe", NoOrig)
      ELSE Obj(c, x.den + y.den + Len(ps), x.E + y.E, fn, "B",
               IF x.kind = "g" /\ y.kind = "g" THEN "g" ELSE IF "u" \in {x.kind, y.kind} THEN "u" ELSE "p", ct, "no", NoOrig)
BadObj == [legs |-> <<>>, bad |-> TRUE]
Lift(x, y, s) ==           \* the connected legs of x enlarged to those of y
  [i \in 1..K(x) |-> IF \E l \in Meet(CompOf(x), CompOf(y)) : x.legs[i] = l THEN Max(s[i], Auto(y)[LegIdx(y, <<Flip(x.legs[i][1]), x.legs[i][2]>>)]) ELSE s[i]]
LiftR(x, y, s) ==
  [i \in 1..K(y) |-> IF \E l \in Meet(CompOf(x), CompOf(y)) : y.legs[i] = <<Flip(l[1]), l[2]>> THEN Max(s[i], Auto(x)[LegIdx(x, <<Flip(y.legs[i][1]), y.legs[i][2]>>)]) ELSE s[i]]
XJoin(x, y, d) ==
  IF ~CanJoin(x, y) THEN BadObj
  ELSE IF x.rep = y.rep THEN (IF Summable(x, y) THEN JoinSame(x, y) ELSE BadObj)
  ELSE IF d = "Bargmann" THEN LET a == ToBarg(x) b == ToBarg(y) IN IF Summable(a, b) THEN JoinSame(a, b) ELSE BadObj
  ELSE IF ~AutoKnown(x) \/ ~AutoKnown(y) THEN BadObj
  ELSE LET sx == TLCEval(Lift(x, y, Auto(x))) sy == TLCEval(LiftR(x, y, Auto(y))) IN
       IF Known(x, sx) /\ Known(y, sy) /\ (\A i \in 1..K(x) : sx[i] <= D) /\ (\A i \in 1..K(y) : sy[i] <= D) THEN JoinSame(ToFock(x, sx), ToFock(y, sy)) ELSE BadObj
XDm(x) == XJoin(Forget(x), XAdj(x), "Bargmann")
XAdd(x, y) ==
  LET n == K(x)
      s == TLCEval([i \in 1..n |-> IF x.fin[i] /\ y.fin[i] THEN Max(x.dims[i], y.dims[i]) ELSE IF x.fin[i] THEN y.dims[i] ELSE IF y.fin[i] THEN x.dims[i] ELSE Min(x.dims[i], y.dims[i])])
      dd == Max(x.den, y.den)
      ax == TLCEval(Cut(x, s)) ay == TLCEval(Cut(y, s))
      fx == Pow(F, dd - x.den) fy == Pow(F, dd - y.den)
  IN  IF x.rep # y.rep \/ x.legs # y.legs \/ x.E # y.E \/ dd - x.den > 3 \/ dd - y.den > 3 THEN BadObj
      ELSE [x EXCEPT !.dims = s, !.den = dd, !.arr = TLCEval([k \in 1..Size(s) |-> <<ax[k][1] * fx + ay[k][1] * fy, ax[k][2] * fx + ay[k][2] * fy>>]),
                     !.fin = TLCEval([i \in 1..n |-> x.fin[i] /\ y.fin[i]]), !.kind = IF "u" \in {x.kind, y.kind} THEN "u" ELSE "p",
                     !.cut = TLCEval([i \in 1..n |-> IF x.cut[i] > 0 /\ y.cut[i] > 0 THEN Max(x.cut[i], y.cut[i]) ELSE 0]),
                     !.mem = IF x.mem = "no" /\ y.mem = "no" THEN "no" ELSE "maybe", !.orig = NoOrig]
(* trace over the outputs of mode m, both sides *)
XTrace(x, m) ==
  LET c == Trace(Weigh(CompOf(x), <<LegIdx(x, <<2, m>>)>>), {m})
      at(i) == LegIdx(x, c.legs[i])
      n == Len(c.legs)
  IN  [Forget(x) EXCEPT !.legs = c.legs, !.dims = c.dims, !.arr = c.arr, !.den = x.den + 1, !.fin = TLCEval([i \in 1..n |-> x.fin[at(i)]]),
                        !.cut = TLCEval([i \in 1..n |-> IF x.rep = "F" THEN x.dims[at(i)] ELSE x.cut[at(i)]]), !.kind = IF x.kind = "g" THEN "g" ELSE x.kind]

(* ------------------------------------------------------------------ three views of one object *)
RECURSIVE CPow(_, _)
CPow(z, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(z, CPow(z, n - 1))
RECURSIVE CProd(_, _)
CProd(f(_), n) == IF n = 0 THEN <<1, 0>> ELSE CMul(f(n), CProd(f, n - 1))
RECURSIVE CSum(_, _)
CSum(f(_), n) == IF n = 0 THEN <<0, 0>> ELSE CAdd(f(n), CSum(f, n - 1))
View(x, w(_, _)) ==        \* numerator of Sum arr[n] Prod w(i, n_i) F/n_i!   (over F^(den + legs))
  LET c == TLCEval(Weigh(CompOf(x), TLCEval([i \in 1..K(x) |-> i])))
      st == TLCEval(Strides(x.dims))
      tab == TLCEval([i \in 1..K(x) |-> TLCEval([n \in 1..x.dims[i] |-> w(i, n - 1)])])
      term(k) == CMul(c.arr[k], CProd(LAMBDA i : tab[i][1 + Digit(x.dims, st, k - 1, i)], K(x)))
  IN  CSum(term, Len(c.arr))
BargAt(x, z) == View(x, LAMBDA i, n : CPow(z[i], n))
RECURSIVE He(_, _)
He(n, m) == IF n = 0 THEN 1 ELSE IF n = 1 THEN m ELSE m * He(n - 1, m) - (n - 1) * He(n - 2, m)
Turn(q) == CASE q % 4 = 0 -> <<1, 0>> [] q % 4 = 1 -> <<0, 1>> [] q % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
Conjugates(l) == l[1] \in {0, 3}         \* bra outputs and ket inputs carry the conjugate wave function
QuadAt(x, m, q) ==         \* at x_i = m_i sqrt(hbar/2), angle q quarter turns
  View(x, LAMBDA i, n : CMul(<<He(n, m[i]), 0>>, Turn(IF Conjugates(x.legs[i]) THEN n * q ELSE 3 * n * q)))

(* ------------------------------------------------------------------ sources *)
RECURSIVE Deriv(_, _, _)
Deriv(A, b, n) ==          \* derivative of exp(zAz/2 + bz) at zero
  IF \A i \in 1..Len(n) : n[i] = 0 THEN <<1, 0>>
  ELSE LET i == CHOOSE j \in 1..Len(n) : n[j] > 0 /\ \A r \in 1..(j - 1) : n[r] = 0
           m == [n EXCEPT ![i] = @ - 1]
           term(j) == IF m[j] = 0 THEN <<0, 0>> ELSE LET v == CMul(A[i][j], Deriv(A, b, [m EXCEPT ![j] = @ - 1])) IN <<m[j] * v[1], m[j] * v[2]>>
       IN  CAdd(CMul(b[i], Deriv(A, b, m)), CSum(term, Len(n)))
GaussTab(A, b, n) == LET d == All(D, n) st == Strides(d) IN TLCEval([k \in 1..Pow(D, n) |-> Deriv(A, b, [i \in 1..n |-> Digit(d, st, k - 1, i)])])
Gauss(legs, A, b, e, cut) == LET n == Len(legs) IN Obj(Comp(legs, All(D, n), GaussTab(A, b, n)), 0, e, All(FALSE, n), "B", "g", cut, "no", NoOrig)
SmallC == << <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>, <<0, 0>>, <<1, 1>>, <<1, -1>> >>
TinyC == << <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, 0>>, <<0, 0>> >>
RandA(s, n) == LET e(i, j) == Pick(s, 10 + 4 * Min(i, j) + Max(i, j), TinyC) IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> e(i, j)])])
Z0 == <<0, 0>>
Norm2(z) == z[1] * z[1] + z[2] * z[2]
ArrObj(s, ls) ==
  LET lg == TLCEval(Ordered(ls))
      dm == TLCEval([i \in 1..Len(lg) |-> Rng(s, 60 + i, IF Coin(s, 59, 20) THEN 1 ELSE 2, IF Len(lg) > 3 THEN 2 ELSE D)])
  IN  Obj(Comp(lg, dm, TLCEval([k \in 1..Size(dm) |-> IF Coin(s, 1000 + k, 75) THEN <<Rng(s, 3000 + k, -2, 2), Rng(s, 5000 + k, -2, 2)>> ELSE Z0])),
          0, 0, All(TRUE, Len(lg)), "F", "p", dm, "no", NoOrig)
Number(m, n, c) == Obj(Comp(<< <<2, m>> >>, <<c>>, TLCEval([k \in 1..c |-> IF k = n + 1 THEN <<1, 0>> ELSE Z0])), 0, 0, <<TRUE>>, "F", "p", <<c>>, "no", NoOrig)
Vac(ms) == LET lg == Ordered({<<2, m>> : m \in ms}) n == Len(lg) IN Obj(Comp(lg, All(1, n), << <<1, 0>> >>), 0, 0, All(TRUE, n), "B", "g", All(1, n), "no", NoOrig)
(* [how, obj, ...]: `how` tells which constructor the library offers for it *)
Source(s) ==
  LET k == R(s, 1, 15)
      m == R(s, 2, 2) m2 == {0, 1}
      a == Pick(s, 3, SmallC)
      ms == IF Coin(s, 4, 60) THEN {m} ELSE m2
      lk == TLCEval(Ordered(Cr({2}, ms)))
      lo == << <<2, m>>, <<3, m>> >>
      ld == << <<0, m>>, <<2, m>> >>
      b2 == TLCEval([i \in 1..2 |-> Pick(s, 40 + i, SmallC)])
      X == << <<Z0, <<1, 0>>>>, <<<<1, 0>>, Z0>> >>
      g(legs) == LET n == Len(legs) A == RandA(s, n) b == SubSeq(b2, 1, n) IN [how |-> "triple", A |-> A, b |-> b, obj |-> Gauss(legs, A, b, 0, All(0, n))]
  IN CASE k \in {0, 1} -> g(lk)
       [] k = 2 -> g(lo)
       [] k = 3 -> g(ld)
       [] k = 4 -> [how |-> "coherent", z |-> a, obj |-> Gauss(<< <<2, m>> >>, << <<Z0>> >>, <<a>>, Norm2(a), <<0>>)]
       [] k = 5 -> [how |-> "dgate", z |-> a, obj |-> Gauss(lo, X, <<a, <<0 - a[1], a[2]>>>>, Norm2(a), <<0, 0>>)]
       [] k = 6 -> LET q == R(s, 5, 4) IN [how |-> "rgate", q |-> q, obj |-> Gauss(lo, << <<Z0, Turn(q)>>, <<Turn(q), Z0>> >>, <<Z0, Z0>>, 0, <<0, 0>>)]
       [] k = 7 -> [how |-> "number", n |-> 0, obj |-> Number(m, 0, Rng(s, 6, 1, D))]
       [] k = 8 -> [how |-> "number", n |-> 1, obj |-> Number(m, 1, Rng(s, 6, 2, D))]
       [] k = 9 -> [how |-> "vacuum", obj |-> Vac(ms)]
       [] k \in {10, 11} -> [how |-> "array", obj |-> ArrObj(s, Cr({2}, ms))]
       [] k = 12 -> [how |-> "array", obj |-> ArrObj(s, Cr({2, 3}, {m}))]
       [] k = 13 -> [how |-> "array", obj |-> ArrObj(s, Cr({0, 2}, {m}))]
       (* a ring of n+1 coherent states of amplitude 1 holds the photon numbers n, 2n+1, 3n+2, ... only *)
       [] OTHER -> LET n == 1 + R(s, 5, 2) IN [how |-> "sauron", n |-> n, obj |->
            Obj(Comp(<< <<2, m>> >>, <<D>>, TLCEval([i \in 1..D |-> IF i % (n + 1) = 0 THEN <<1, 0>> ELSE Z0])), 0, 0, <<FALSE>>, "B", "p", <<0>>, "no", NoOrig)]

(* ------------------------------------------------------------------ the machine *)
Slots == 1..4
Fits(x) == "bad" \notin DOMAIN x /\ x.legs # <<>> /\ K(x) <= 4 /\ Size(x.dims) <= 260 /\ x.den <= 5 /\ x.E <= 8 /\ MaxAbs(x.arr, Len(x.arr)) < 3000
         /\ (x.mem = "yes" => MaxAbs(x.orig.arr, Len(x.orig.arr)) < 3000)
Shape(s, x) == [i \in 1..K(x) |-> Rng(s, 500 + i, 1, IF x.fin[i] THEN D ELSE Min(D, x.dims[i]))]
Ops == <<"new", "fock", "fock", "fock", "fock0", "barg", "barg", "barg", "join", "join", "join", "join", "join", "add", "add", "adj", "dual", "dm", "on", "scale", "setcut", "trace", "trace", "default", "size">>
IsKetState(x) == \A i \in 1..K(x) : x.legs[i][1] = 2
IsDM(x) == LET o == {l[2] : l \in {q \in ToSet(x.legs) : q[1] = 2}} IN ToSet(x.legs) = Cr({0, 2}, o)
OnMap(s) == Pick(s, 30, << <<1, 2>>, <<0, 2>>, <<2, 3>>, <<0, 3>>, <<1, 3>> >>)
OnOK(x, p) == /\ \A l \in ToSet(x.legs) : l[2] <= 1
              /\ \A c \in {l[1] : l \in ToSet(x.legs)} : {l[2] : l \in {q \in ToSet(x.legs) : q[1] = c}} = {l[2] : l \in ToSet(x.legs)}
Rec(op, i, j, arg, o) == [op |-> op, i |-> i, j |-> j, arg |-> arg, obj |-> o]
Step(s, st, df, sz) ==
  LET op0 == Pick(s, 1, Ops)
      i == Pick(s, 2, <<1, 2, 3, 4>>) j == Pick(s, 3, <<1, 2, 3, 4>>) k == Pick(s, 4, <<1, 2, 3, 4>>)
      x == st[i]
      (* partners for binary operations: prefer one that fits *)
      js == {q \in Slots : "bad" \notin DOMAIN XJoin(x, st[q], df)}
      jj == IF js = {} \/ Coin(s, 5, 10) THEN j ELSE CHOOSE q \in js : \A r \in js : (q + j) % 4 <= (r + j) % 4
      as == {q \in Slots : st[q].legs = x.legs /\ st[q].rep = x.rep /\ st[q].E = x.E /\ (q # i \/ Coin(s, 6, 30))}
      ja == IF as = {} THEN j ELSE CHOOSE q \in as : \A r \in as : (q + j) % 4 <= (r + j) % 4
      p == OnMap(s)
      z == <<Rng(s, 31, -2, 2), Rng(s, 32, 1, 2)>>
      sh == TLCEval(Shape(s, x))
      cu == TLCEval([q \in 1..K(x) |-> IF Coin(s, 700 + q, 60) THEN Rng(s, 710 + q, 1, D) ELSE x.cut[q]])
      tm == {l[2] : l \in {q \in ToSet(x.legs) : q[1] = 2 /\ <<0, q[2]>> \in ToSet(x.legs)}}
      m == IF tm = {} THEN 0 ELSE CHOOSE v \in tm : TRUE
      src == TLCEval(Source(Sub(s, 7)))
      res == TLCEval(CASE op0 = "fock" -> ToFock(x, sh)
               [] op0 = "fock0" -> IF AutoKnown(x) /\ Known(x, Auto(x)) THEN ToFock(x, TLCEval(Auto(x))) ELSE BadObj
               [] op0 = "barg" -> ToBarg(x)
               [] op0 = "join" -> XJoin(x, st[jj], df)
               [] op0 = "add" -> XAdd(x, st[ja])
               [] op0 = "adj" -> XAdj(x)
               [] op0 = "dual" -> XDual(x)
               [] op0 = "dm" -> IF IsKetState(x) /\ K(x) <= 2 THEN XDm(x) ELSE BadObj
               [] op0 = "on" -> IF OnOK(x, p) THEN Moved(x, LAMBDA l : <<l[1], p[l[2] + 1]>>, FALSE) ELSE BadObj
               [] op0 = "scale" -> XScale(x, z)
               [] op0 = "trace" -> IF IsKetState(x) /\ K(x) = 2 /\ FinAll(x) THEN XTrace(TLCEval(XDm(x)), x.legs[2][2])
                                    ELSE IF IsDM(x) /\ K(x) = 4 /\ x.fin[LegIdx(x, <<2, m>>)] /\ x.fin[LegIdx(x, <<0, m>>)] THEN XTrace(x, m) ELSE BadObj
               [] OTHER -> BadObj)
      ok == Fits(res)
  IN CASE op0 = "default" -> LET d2 == IF df = "Fock" THEN "Bargmann" ELSE "Fock" IN store' = st /\ dflt' = d2 /\ size' = sz /\ prog' = Append(prog, [op |-> "default", arg |-> d2])
       [] op0 = "size" -> LET n == Rng(s, 33, 2, 7) IN store' = st /\ dflt' = df /\ size' = n /\ prog' = Append(prog, [op |-> "size", arg |-> n])
       [] op0 = "setcut" -> /\ store' = [st EXCEPT ![i] = [@ EXCEPT !.cut = cu]] /\ dflt' = df /\ size' = sz
                            /\ prog' = Append(prog, [op |-> "setcut", i |-> i, arg |-> cu])
       [] ok -> /\ store' = [st EXCEPT ![k] = res] /\ dflt' = df /\ size' = sz
                /\ prog' = Append(prog, [op |-> op0, i |-> i, j |-> IF op0 = "join" THEN jj ELSE ja, k |-> k, shape |-> sh, map |-> p, z |-> z, m |-> IF IsKetState(x) /\ K(x) = 2 THEN x.legs[2][2] ELSE m, obj |-> res])
       [] OTHER -> /\ store' = [st EXCEPT ![k] = src.obj] /\ dflt' = df /\ size' = sz
                   /\ prog' = Append(prog, [op |-> "new", k |-> k, src |-> src])
Init == /\ t = 0 /\ dflt = "Fock" /\ size = 50
        /\ \E s \in Seeds(Base, N) : LET srcs == TLCEval([i \in Slots |-> TLCEval(Source(Sub(s, 900 + i)))]) IN
           /\ seed = s
           /\ store = TLCEval([i \in Slots |-> srcs[i].obj])
           /\ prog = TLCEval([i \in Slots |-> [op |-> "new", k |-> i, src |-> srcs[i]]])
Next == t < Depth /\ t' = t + 1 /\ seed' = NextSeed(seed) /\ \E s \in {seed}, st \in {store}, df \in {dflt}, sz \in {size} : Step(s, st, df, sz)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ laws *)
Tab(x) == [legs |-> x.legs, dims |-> x.dims, arr |-> x.arr, den |-> x.den]
SmallObj(x) == Len(x.arr) <= 64
(* what is stored never exceeds what is known, arrays have the size their cutoffs say unless these were set by hand *)
Shapes == \A i \in Slots : LET x == store[i] IN Len(x.arr) = Size(x.dims) /\ \A q \in 1..K(x) : x.dims[q] \in 1..D /\ (x.rep = "F" => x.fin[q])
(* a conversion changes no amplitude inside the levels it keeps, and coming back forgets nothing a Gaussian had *)
RoundTrip == \A i \in Slots : LET x == store[i] s == TLCEval([q \in 1..K(x) |-> Max(1, x.dims[q] - 1)]) IN
   /\ x.rep = "B" /\ x.kind = "g" => Tab(ToBarg(ToFock(x, s))) = Tab(x)
   /\ ToFock(ToFock(x, s), s).arr = ToFock(x, s).arr
   /\ LET y == ToBarg(ToFock(x, s)) IN \A k \in 1..Size(s) : Cut(y, s)[k] = Cut(x, s)[k]
Mirror == \A i, j \in {1, 2} : LET x == store[i] y == store[j] r == XJoin(x, y, "Bargmann") IN
   (SmallObj(x) /\ SmallObj(y) /\ x.rep = y.rep /\ "bad" \notin DOMAIN r /\ r.legs # <<>>) => Tab(XDual(r)) = Tab(XJoin(XDual(y), XDual(x), "Bargmann"))
(* the Bargmann function at z is the overlap with the coherent bra of z *)
CoherentDual(l, z) == XDual(Gauss(<<l>>, << <<Z0>> >>, <<CConj(z)>>, 0, <<0>>))
EvalIsOverlap == LET x == store[1] IN (K(x) = 1 /\ x.legs[1][1] = 2 /\ FinAll(x)) =>
   LET r == XJoin(ToBarg([x EXCEPT !.mem = "no"]), CoherentDual(x.legs[1], <<1, -1>>), "Bargmann") IN r.arr[1] = BargAt(x, << <<1, -1>> >>) /\ r.den = x.den + 1
Parity == LET x == store[2] IN (FinAll(x) /\ SmallObj(x)) =>
   QuadAt(x, [i \in 1..K(x) |-> i], 2) = QuadAt(x, [i \in 1..K(x) |-> 0 - i], 0)
Laws == Shapes /\ RoundTrip /\ Mirror /\ EvalIsOverlap /\ Parity
Points(x) == TLCEval([i \in 1..K(x) |-> Rng(seed, 800 + i, -2, 2)])
ZPoints(x) == TLCEval([i \in 1..K(x) |-> Pick(seed, 820 + i, SmallC)])
Quarter == R(seed, 830, 4)
Seen(x) == IF ~FinAll(x) THEN [fin |-> FALSE]
           ELSE LET q == Quarter m == Points(x) z == ZPoints(x) IN [fin |-> TRUE, m |-> m, q |-> q, quad |-> QuadAt(x, m, q), z |-> z, barg |-> BargAt(x, z)]
Emit == t < Depth \/ PrintT("@@" \o ToJson([id |-> seed, F |-> F, prog |-> prog, final |-> store, views |-> [i \in Slots |-> Seen(store[i])]]))
=============================================================================
