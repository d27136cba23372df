------------------------------- MODULE Train --------------------------------
(* Training runs over a store of named objects.                                                 *)
(*   store : slots holding bare variables, components or circuits, each a sequence of           *)
(*           components with named parameters (trainable or constant) of one of five kinds:      *)
(*           real and complex arrays, orthogonal, unitary and symplectic matrices                *)
(*   run   : a training run takes some slots, a cost, a number of steps and learning rates, and   *)
(*           yields new objects; the ones it was given stay as they were.                         *)
(* Every cost is a sum of quadratic terms, of overlaps Re tr(A^dagger P) with a matrix parameter, *)
(* and of the infidelity exponent of a chain of Gaussian operations, so that all iterates are      *)
(* exact: dyadic Gaussian rationals for plain gradient descent, and quarter turns or powers of     *)
(* two for the geodesic steps on the matrix groups (rates pi/2 and ln 2).                          *)
EXTENDS Rng, Json, FiniteSets
CONSTANTS Base, N, Depth
VARIABLES seed, store, trace
vars == <<seed, store, trace>>

D == 16384                                  \* fixed point of real and complex parameters
DS == 256                                   \* fixed point of symplectic matrices
Sl == 1..5                                  \* slots

\* ---- Gaussian integers and 2x2 matrices over them
CA(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CS(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CM(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CC(a) == <<a[1], -a[2]>>
MMul(a, b) == TLCEval([i \in 1..2 |-> [j \in 1..2 |-> CA(CM(a[i][1], b[1][j]), CM(a[i][2], b[2][j]))]])
MDag(a) == [i \in 1..2 |-> [j \in 1..2 |-> CC(a[j][i])]]
MSub(a, b) == [i \in 1..2 |-> [j \in 1..2 |-> CS(a[i][j], b[i][j])]]
MAdd(a, b) == [i \in 1..2 |-> [j \in 1..2 |-> CA(a[i][j], b[i][j])]]
Z0 == <<0, 0>>  One == <<1, 0>>
Mat(a, b, c, d) == << <<a, b>>, <<c, d>> >>
MId == Mat(One, Z0, Z0, One)
ReTr(a, p) == LET m == MMul(MDag(a), p) IN m[1][1][1] + m[2][2][1]
Cos4(n) == <<1, 0, -1, 0>>[1 + (n % 4)]
Sin4(n) == <<0, 1, 0, -1>>[1 + (n % 4)]
IPow(n) == <<Cos4(n), Sin4(n)>>

\* ---- the exponential of -(pi/2) Y for the anti-Hermitian Y = K/2, when it is a monomial matrix
\* diagonal: independent phases; off-diagonal: a quarter turn about a real or an imaginary axis
Even(n) == n % 2 = 0
Half(n) == n \div 2
Diag(k) == k[1][2] = Z0 /\ k[2][1] = Z0
Off(k) == k[1][1] = Z0 /\ k[2][2] = Z0
TurnOk(k) == \/ Diag(k) /\ Even(k[1][1][2]) /\ Even(k[2][2][2])
             \/ Off(k) /\ ((k[1][2][2] = 0 /\ Even(k[1][2][1])) \/ (k[1][2][1] = 0 /\ Even(k[1][2][2])))
Turn(k) == IF Diag(k) THEN Mat(IPow(-Half(k[1][1][2])), Z0, Z0, IPow(-Half(k[2][2][2])))
           ELSE IF k[1][2][2] = 0 THEN LET y == -Half(k[1][2][1]) IN Mat(<<Cos4(y), 0>>, <<Sin4(y), 0>>, <<-Sin4(y), 0>>, <<Cos4(y), 0>>)
           ELSE LET y == -Half(k[1][2][2]) IN Mat(<<Cos4(y), 0>>, <<0, Sin4(y)>>, <<0, Sin4(y)>>, <<Cos4(y), 0>>)
\* Riemannian gradient on the unitary (orthogonal) group: P times the anti-Hermitian part of P^dagger A
KOf(p, a) == LET z == MMul(MDag(p), a) IN MSub(z, MDag(z))
\* on the symplectic group: the traceless part T/2 of Z = S^T A; either a squeezing (rate ln 2)
\* or a rotation (rate pi/2); entries of S carry the scale DS
TOf(s, a) == LET z == MMul(MDag(s), a) IN Mat(CS(z[1][1], z[2][2]), CA(z[1][2], z[1][2]), CA(z[2][1], z[2][1]), CS(z[2][2], z[1][1]))
SympOk(t, sm) == IF sm = "ln2" THEN Diag(t) /\ t[1][1][1] % (2 * DS) = 0 /\ t[1][1][1] \div (2 * DS) \in -2..2
                 ELSE Off(t) /\ t[1][2] = <<-t[2][1][1], 0>> /\ t[1][2][1] % (2 * DS) = 0
Pow2(n) == <<1, 2, 4, 8, 16>>[n + 1]
DivOk(m, q) == \A i, j \in 1..2 : m[i][j][1] % q = 0
DivM(m, q) == [i \in 1..2 |-> [j \in 1..2 |-> <<m[i][j][1] \div q, 0>>]]
SympStep(s, t, sm) ==
   IF sm = "ln2" THEN LET h == t[1][1][1] \div (2 * DS)
                          m == MMul(s, IF h >= 0 THEN Mat(One, Z0, Z0, <<Pow2(2 * h), 0>>) ELSE Mat(<<Pow2(-2 * h), 0>>, Z0, Z0, One))
                          q == Pow2(IF h >= 0 THEN h ELSE -h)
                      IN [ok |-> DivOk(m, q), v |-> DivM(m, q)]
   ELSE LET b == -(t[1][2][1] \div (2 * DS))
        IN [ok |-> TRUE, v |-> MMul(s, Mat(<<Cos4(b), 0>>, <<Sin4(b), 0>>, <<-Sin4(b), 0>>, <<Cos4(b), 0>>))]

\* ---- objects
P(n, k, tr, v) == [n |-> n, k |-> k, tr |-> tr, v |-> v]
Group(p) == p.k \in {"o", "u", "s"}
Refs(st, S) == {<<s, c, p>> : s \in S, c \in 1..3, p \in 1..3} \cap
               UNION {UNION {{<<s, c, p>> : p \in 1..Len(st[s].cs[c].ps)} : c \in 1..Len(st[s].cs)} : s \in S}
Par(st, r) == st[r[1]].cs[r[2]].ps[r[3]]
PLen(st, r) == Len(Par(st, r).v)

\* a chain on one mode: displacements add, losses of 3/4 halve and rotations by quarter turns multiply by i^k;
\* its affine map on the vacuum amplitude, as a list of <<ref, 4 x coefficient>>
RECURSIVE ChainParts(_, _, _)
ChainParts(cs, s, c) ==
   IF c = 0 THEN <<>>
   ELSE LET prev == ChainParts(cs, s, c - 1)
            x == cs[c]
        IN  CASE x.t = "Dgate" -> Append(prev, [r |-> <<s, c, 1>>, k |-> <<4, 0>>])
              [] x.t = "Attenuator" -> [i \in 1..Len(prev) |-> [prev[i] EXCEPT !.k = <<@[1] \div 2, @[2] \div 2>>]]
              [] OTHER -> [i \in 1..Len(prev) |-> [prev[i] EXCEPT !.k = CM(@, IPow(x.ps[1].q))]]

\* ---- costs.  q: (w/2) sum_j |sum k p_j - t|^2   m: Re tr(A^dagger P)
\* the residue of a quadratic term at index j (a parameter of length one is broadcast)
At(st, r, j) == LET v == Par(st, r).v IN v[IF Len(v) = 1 THEN 1 ELSE j]
RECURSIVE Lin(_, _, _)
Lin(st, parts, j) == IF parts = <<>> THEN Z0
                     ELSE CA(CM(Head(parts).k, At(st, Head(parts).r, j)), Lin(st, Tail(parts), j))
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE TermLen(_, _)
TermLen(st, parts) == IF parts = <<>> THEN 1 ELSE Max2(PLen(st, Head(parts).r), TermLen(st, Tail(parts)))
Res(st, t, j) == CS(Lin(st, t.parts, j), <<4 * D * t.t[1], 4 * D * t.t[2]>>)        \* scaled 4 D
\* the ascent direction of a term at a parameter (scaled 16 D), elementwise
RECURSIVE SumC(_, _)
SumC(f, n) == IF n = 0 THEN Z0 ELSE CA(f[n], SumC(f, n - 1))
GradQ(st, t, r) ==
   LET L == TermLen(st, t.parts)
       g(j) == LET q == [i \in 1..Len(t.parts) |-> IF t.parts[i].r = r
                             THEN LET x == CM(CC(t.parts[i].k), Res(st, t, j)) IN <<t.w * x[1], t.w * x[2]>> ELSE Z0]
               IN SumC(q, Len(t.parts))
       gs == TLCEval([j \in 1..L |-> g(j)])
       real(x) == IF Par(st, r).k = "r" THEN <<x[1], 0>> ELSE x
   IN  IF \A i \in 1..Len(t.parts) : t.parts[i].r # r THEN [j \in 1..PLen(st, r) |-> Z0]
       ELSE IF PLen(st, r) = 1 THEN << real(SumC(gs, L)) >> ELSE [j \in 1..PLen(st, r) |-> real(gs[j])]
RECURSIVE AddAll(_, _)
AddAll(qs, n) == IF Len(qs) = 1 THEN qs[1] ELSE LET r == AddAll(Tail(qs), n) IN [j \in 1..n |-> CA(qs[1][j], r[j])]
Grad(st, terms, r) ==
   LET qs == SelectSeq(terms, LAMBDA t : t.k = "q")
       n == PLen(st, r)
   IN AddAll(<<[j \in 1..n |-> Z0]>> \o [i \in 1..Len(qs) |-> GradQ(st, qs[i], r)], n)
MTerm(terms, r) == SelectSeq(terms, LAMBDA t : t.k = "m" /\ t.r = r)

\* ---- one step for one parameter: [ok, v]; not ok when the result leaves the exact domain
StepPar(st, terms, r, lr, sm) ==
   LET p == Par(st, r) IN
   IF ~p.tr THEN [ok |-> TRUE, v |-> p.v]
   ELSE IF Group(p) THEN
      LET m == MTerm(terms, r) IN
      IF m = <<>> THEN [ok |-> TRUE, v |-> p.v]
      ELSE IF p.k = "s" THEN LET t == TOf(p.v, m[1].A) IN IF SympOk(t, sm) THEN SympStep(p.v, t, sm) ELSE [ok |-> FALSE, v |-> p.v]
      ELSE LET k == KOf(p.v, m[1].A) IN IF TurnOk(k) THEN [ok |-> TRUE, v |-> MMul(p.v, Turn(k))] ELSE [ok |-> FALSE, v |-> p.v]
   ELSE LET g == TLCEval(Grad(st, terms, r))
            q == 16 * lr
            small == \A j \in 1..Len(p.v), i \in 1..2 : p.v[j][i] - g[j][i] \div q \in -(8 * D)..(8 * D)
        IN [ok |-> small /\ \A j \in 1..Len(p.v) : g[j][1] % q = 0 /\ g[j][2] % q = 0,
            v |-> [j \in 1..Len(p.v) |-> <<p.v[j][1] - g[j][1] \div q, p.v[j][2] - g[j][2] \div q>>]]
\* all parameters of the trained slots move at once
StepAll(st, S, terms, lr, sm) ==
   LET new == TLCEval([r \in Refs(st, S) |-> StepPar(st, terms, r, lr, sm)])
   IN [ok |-> \A r \in Refs(st, S) : new[r].ok,
       st |-> TLCEval([s \in DOMAIN st |-> IF s \notin S THEN st[s]
                 ELSE [st[s] EXCEPT !.cs = [c \in 1..Len(st[s].cs) |->
                        [st[s].cs[c] EXCEPT !.ps = [p \in 1..Len(st[s].cs[c].ps) |->
                            [st[s].cs[c].ps[p] EXCEPT !.v = new[<<s, c, p>>].v]]]]]])]
\* what the cost is worth: residues of the quadratic terms (the reader squares and adds) and overlaps
Loss(st, terms) == [i \in 1..Len(terms) |->
   IF terms[i].k = "q" THEN [w |-> terms[i].w, x |-> [j \in 1..TermLen(st, terms[i].parts) |-> Res(st, terms[i], j)]]
   ELSE [w |-> 0, x |-> << <<ReTr(terms[i].A, Par(st, terms[i].r).v), IF Par(st, terms[i].r).k = "s" THEN DS ELSE 1>> >>]]
RECURSIVE RunN(_, _, _, _, _, _, _)
RunN(st, S, terms, lr, sm, n, hist) ==
   IF n = 0 THEN [st |-> st, hist |-> hist]
   ELSE LET r == StepAll(st, S, terms, lr, sm) IN
        IF ~r.ok THEN [st |-> st, hist |-> hist]
        ELSE RunN(r.st, S, terms, lr, sm, n - 1, Append(hist, Loss(st, terms)))

\* ---- actions
Live == {s \in Sl : store[s].t # "none"}
Log(op) == trace' = Append(trace, [op |-> op, st |-> [s \in Sl |-> store'[s]]])
New(s, item) == store' = [store EXCEPT ![s] = item] /\ Log([k |-> "new", s |-> s])
\* the results go to the slots `out`, in order; every other slot is as before
Put(st, res, sel, out) == [s \in Sl |-> IF \E i \in 1..Len(out) : out[i] = s
                                        THEN res[sel[CHOOSE i \in 1..Len(out) : out[i] = s]] ELSE st[s]]
Train(sel, out, terms, n, lr, sm, cfg) ==
   LET r == RunN(store, {sel[i] : i \in 1..Len(sel)}, terms, lr, sm, n, <<>>)
   IN IF r.hist = <<>> THEN UNCHANGED store /\ Log([k |-> "look"])
      ELSE
      /\ store' = Put(store, r.st, sel, out)
      /\ Log([k |-> "train", sel |-> sel, out |-> out, terms |-> terms, n |-> Len(r.hist), lr |-> lr, sm |-> sm, cfg |-> cfg, hist |-> r.hist])

\* ---- drivers
RV(s, i, len, cx) == [j \in 1..len |-> <<D * Rng(s, i + 2 * j, -3, 3), IF cx THEN D * Rng(s, i + 2 * j + 1, -3, 3) ELSE 0>>]
RLen(s, i) == IF Coin(s, i, 25) THEN 2 ELSE 1
Orths == << MId, Mat(Z0, One, <<-1, 0>>, Z0), Mat(Z0, One, One, Z0), Mat(<<-1, 0>>, Z0, Z0, One), Mat(<<-1, 0>>, Z0, Z0, <<-1, 0>>) >>
Units == << MId, Mat(<<0, 1>>, Z0, Z0, One), Mat(Z0, <<0, 1>>, One, Z0), Mat(Z0, <<0, -1>>, <<0, 1>>, Z0), Mat(<<0, -1>>, Z0, Z0, <<-1, 0>>),
            Mat(Z0, One, <<-1, 0>>, Z0), Mat(One, Z0, Z0, <<0, -1>>) >>
Symps == << Mat(<<DS, 0>>, Z0, Z0, <<DS, 0>>), Mat(<<DS \div 2, 0>>, Z0, Z0, <<2 * DS, 0>>), Mat(Z0, <<DS, 0>>, <<-DS, 0>>, Z0),
            Mat(Z0, <<2 * DS, 0>>, <<-(DS \div 2), 0>>, Z0), Mat(<<-DS, 0>>, Z0, Z0, <<-DS, 0>>), Mat(<<DS, 0>>, <<DS, 0>>, Z0, <<DS, 0>>) >>
MatVal(k, s, i) == Pick(s, i, CASE k = "o" -> Orths [] k = "u" -> Units [] OTHER -> Symps)
\* components: type and its parameters (name, kind)
Types == << [t |-> "Dgate", a |-> << <<"alpha", "c">> >>], [t |-> "Coherent", a |-> << <<"alpha", "c">> >>],
            [t |-> "Rgate", a |-> << <<"theta", "r">> >>], [t |-> "Sgate", a |-> << <<"r", "r">>, <<"phi", "r">> >>],
            [t |-> "BSgate", a |-> << <<"theta", "r">>, <<"phi", "r">> >>], [t |-> "MZgate", a |-> << <<"phi_a", "r">>, <<"phi_b", "r">> >>],
            [t |-> "S2gate", a |-> << <<"r", "r">>, <<"phi", "r">> >>], [t |-> "Pgate", a |-> << <<"shearing", "r">> >>],
            [t |-> "CXgate", a |-> << <<"s", "r">> >>], [t |-> "CZgate", a |-> << <<"s", "r">> >>],
            [t |-> "SqueezedVacuum", a |-> << <<"r", "r">>, <<"phi", "r">> >>],
            [t |-> "DisplacedSqueezed", a |-> << <<"alpha", "c">>, <<"r", "r">>, <<"phi", "r">> >>],
            [t |-> "Interferometer", a |-> << <<"unitary", "u">> >>], [t |-> "RealInterferometer", a |-> << <<"orthogonal", "o">> >>],
            [t |-> "Ggate", a |-> << <<"symplectic", "s">> >>] >>
\* components without parameters, whose other arguments (numbers of modes, excitations) are data
Inert == << [t |-> "Identity", a |-> <<>>], [t |-> "Number", a |-> <<>>], [t |-> "Vacuum", a |-> <<>>], [t |-> "BtoQ", a |-> <<>>], [t |-> "TraceOut", a |-> <<>>] >>
MkComp(ty, s, len, always) ==
   [t |-> ty.t, ps |-> TLCEval([p \in 1..Len(ty.a) |->
        P(ty.a[p][1], ty.a[p][2], always \/ Coin(s, 20 + p, 70),
          IF ty.a[p][2] \in {"o", "u", "s"} THEN MatVal(ty.a[p][2], s, 30 + p) ELSE RV(s, 40 + 10 * p, len, ty.a[p][2] = "c"))])]
\* the links of a one-mode chain; the rotation remembers its number of quarter turns
Link(s, i) == LET x == Sub(s, i) IN
   CASE Coin(x, 1, 60) -> MkComp(Types[1], x, 1, FALSE)
     [] Coin(x, 2, 50) -> [t |-> "Attenuator", ps |-> << [n |-> "transmissivity", k |-> "r", tr |-> FALSE, v |-> << <<D \div 4, 0>> >>] >>]
     [] OTHER -> [t |-> "Rgate", ps |-> << [n |-> "theta", k |-> "q", tr |-> FALSE, v |-> <<>>, q |-> R(x, 3, 4)] >>]
RandItem(s) ==
   LET c == R(s, 1, 100)
       len == RLen(s, 2)
       kind == Pick(s, 3, <<"r", "r", "c", "c", "c", "o", "u", "u", "s", "s">>)
   IN  CASE c < 30 -> [t |-> "var", cs |-> << [t |-> "var", ps |-> << P("x", kind, TRUE,
                              IF kind \in {"r", "c"} THEN RV(s, 10, len, kind = "c") ELSE MatVal(kind, s, 10)) >>] >>]
         [] c < 60 -> [t |-> "comp", cs |-> << MkComp(Pick(s, 4, Types), s, len, FALSE) >>]
         [] c < 75 -> [t |-> "circ", cs |-> TLCEval([i \in 1..(2 + R(s, 5, 2)) |-> MkComp(Pick(Sub(s, i), 4, IF Coin(Sub(s, i), 5, 75) THEN Types ELSE Inert), Sub(s, i), 1, FALSE)])]
         [] OTHER -> [t |-> "chain", cs |-> TLCEval([i \in 1..(2 + R(s, 5, 2)) |-> IF i = 1 THEN MkComp(Types[1], Sub(s, 1), 1, TRUE) ELSE Link(s, i)])]
Numeric(st, S) == {r \in Refs(st, S) : Par(st, r).k \in {"r", "c"}}
Mats(st, S) == {r \in Refs(st, S) : Group(Par(st, r))}
RECURSIVE ToSeq(_)
Less(a, b) == a[1] * 100 + a[2] * 10 + a[3] < b[1] * 100 + b[2] * 10 + b[3]
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x = y \/ Less(x, y) IN <<x>> \o ToSeq(S \ {x})
Ks == << <<4, 0>>, <<4, 0>>, <<-4, 0>>, <<0, 4>>, <<0, -4>>, <<2, 0>>, <<8, 0>>, <<4, 4>> >>
RandT(s, i) == <<Rng(s, i, -2, 2), Rng(s, i + 1, -2, 2)>>
\* a quadratic term over one, two or three parameters, trained or not, of arrays of compatible lengths
RandQ(s, refs) == LET a == Pick(s, 1, refs)
                      ok == SelectSeq(refs, LAMBDA r : PLen(store, r) = 1 \/ PLen(store, a) = 1 \/ PLen(store, r) = PLen(store, a))
                      b == Pick(s, 2, ok)
                      two == b # a /\ Coin(s, 3, 50)
                  IN [k |-> "q", phys |-> 0, w |-> Pick(s, 4, <<1, 1, 2, 4>>), t |-> RandT(s, 5),
                      parts |-> << [r |-> a, k |-> Pick(s, 7, Ks)] >> \o (IF two THEN << [r |-> b, k |-> Pick(s, 8, Ks)] >> ELSE <<>>)]
\* a cost for a matrix parameter: A = P (Hermitian part + chosen rotation), or any matrix
RandH(s, i, cx) == LET o == <<Rng(s, i + 2, -2, 2), IF cx THEN Rng(s, i + 3, -2, 2) ELSE 0>>
                   IN Mat(<<Rng(s, i, -2, 2), 0>>, o, CC(o), <<Rng(s, i + 1, -2, 2), 0>>)
RandY(s, i, k) == LET y == Pick(s, i, <<1, -1, 1, -1, 2, 0, 3>>)
                      z == Pick(s, i + 1, <<1, -1, 0, 2>>)
                  IN CASE k = "o" \/ Coin(s, i + 2, 34) -> Mat(Z0, <<y, 0>>, <<-y, 0>>, Z0)
                       [] Coin(s, i + 3, 50) -> Mat(Z0, <<0, y>>, <<0, y>>, Z0)
                       [] OTHER -> Mat(<<0, y>>, Z0, Z0, <<0, z>>)
\* for a symplectic S (scaled): A = S^-T (T/2 + c), with S^-T = - J S J up to the scale
SInvT(v) == Mat(v[2][2], <<-v[2][1][1], 0>>, <<-v[1][2][1], 0>>, v[1][1])
RandA(s, p, sm) ==
   IF p.k = "s" THEN
      LET h == Pick(s, 1, <<1, -1, 1, -1, 0, 2>>)
          c == Rng(s, 2, -1, 1)
          z == IF sm = "ln2" THEN Mat(<<c + h, 0>>, Z0, Z0, <<c - h, 0>>) ELSE Mat(<<c, 0>>, <<h, 0>>, <<-h, 0>>, <<c, 0>>)
      IN MMul(SInvT(p.v), z)                                                 \* scaled DS
   ELSE MMul(p.v, MAdd(RandH(s, 1, p.k = "u"), RandY(s, 6, p.k)))
RandM(s, r, sm) == LET p == Par(store, r)
                       A == RandA(s, p, sm)
                   IN IF p.k = "s" THEN [k |-> "m", r |-> r, A |-> DivM(A, DS), ok |-> DivOk(A, DS)]
                      ELSE [k |-> "m", r |-> r, A |-> A, ok |-> TRUE]
RandF(s, slot) == [k |-> "q", phys |-> slot, w |-> 2, t |-> RandT(s, 5), parts |-> ChainParts(store[slot].cs, slot, Len(store[slot].cs))]
RECURSIVE PickSlots(_, _, _)
PickSlots(S, s, k) == IF k = 0 \/ S = {} THEN <<>>
                      ELSE LET q == ToSeq({<<x, 0, 0>> : x \in S})
                               x == Pick(s, 60 + k, q)[1]
                           IN <<x>> \o PickSlots(S \ {x}, s, k - 1)
RandTrain(s) ==
   LET sel == PickSlots(Live, s, 1 + R(s, 9, 3))
       S == {sel[i] : i \in 1..Len(sel)}
       sm == Pick(s, 10, <<"ln2", "turn">>)
       nums == ToSeq(Numeric(store, Live))
       own == ToSeq(Numeric(store, S))
       mats == ToSeq(Mats(store, S))
       qs == IF own = <<>> THEN <<>> ELSE [i \in 1..(1 + R(s, 11, 3)) |-> RandQ(Sub(s, i), IF Coin(s, 12 + i, 75) THEN own ELSE nums)]
       ms == SelectSeq([i \in 1..Len(mats) |-> RandM(Sub(s, 10 + i), mats[i], sm)], LAMBDA m : m.ok /\ R(s, 70 + m.r[1] + 3 * m.r[2], 100) < 85)
       fs == SelectSeq([i \in 1..Len(sel) |-> IF store[sel[i]].t = "chain" THEN RandF(Sub(s, 20 + i), sel[i]) ELSE [k |-> "no"]], LAMBDA t : t.k = "q")
       \* results overwrite the originals or go to other slots, so that originals are seen again
       out == IF Coin(s, 16, 50) THEN sel ELSE PickSlots(Sl, Sub(s, 30), Len(sel))
   IN \E terms \in {TLCEval(fs \o ms \o (IF fs # <<>> /\ Coin(s, 17, 50) THEN <<>> ELSE qs))} :
      IF terms = <<>> THEN UNCHANGED store /\ Log([k |-> "look"]) ELSE
         Train(sel, out, terms, 1 + R(s, 18, 3), Pick(s, 19, <<4, 4, 8>>), sm,
               [bar |-> Coin(s, 20, 20), fresh |-> Coin(s, 21, 50), call |-> R(s, 22, 4)])
RandStep(s) == IF Cardinality(Live) < 2 \/ Coin(s, 0, 35) THEN New(1 + R(s, 50, 5), RandItem(Sub(s, 40))) ELSE RandTrain(s)

Init == /\ seed \in Seeds(Base, N)
        /\ store = [s \in Sl |-> [t |-> "none", cs |-> <<>>]]
        /\ trace = <<>>
Next == /\ Len(trace) < Depth
        /\ \E s \in {seed} : RandStep(s)
        /\ seed' = NextSeed(seed)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* matrices stay in their groups, in every reachable store
IsUnit(v) == MMul(MDag(v), v) = MId
IsSymp(v) == v[1][1][1] * v[2][2][1] - v[1][2][1] * v[2][1][1] = DS * DS
InGroup == \A s \in Live : \A r \in Refs(store, {s}) :
   LET p == Par(store, r) IN /\ p.k = "o" => IsUnit(p.v) /\ \A i, j \in 1..2 : p.v[i][j][2] = 0
                             /\ p.k = "u" => IsUnit(p.v)
                             /\ p.k = "s" => IsSymp(p.v)
                             /\ p.k = "r" => \A j \in 1..Len(p.v) : p.v[j][2] = 0
\* only trainable parameters of results differ from what was there; nothing else of a component changes
Skeleton(x) == [t |-> x.t, cs |-> [c \in 1..Len(x.cs) |-> [t |-> x.cs[c].t, ps |-> [p \in 1..Len(x.cs[c].ps) |->
                  [n |-> x.cs[c].ps[p].n, k |-> x.cs[c].ps[p].k, tr |-> x.cs[c].ps[p].tr,
                   v |-> IF x.cs[c].ps[p].tr THEN <<>> ELSE x.cs[c].ps[p].v]]]]]
Frame == [][ (trace' # trace /\ trace'[Len(trace')].op.k = "train") =>
               LET o == trace'[Len(trace')].op IN
               /\ \A s \in Sl : (\A i \in 1..Len(o.out) : o.out[i] # s) => store'[s] = store[s]
               /\ \A i \in 1..Len(o.sel) : Skeleton(store'[o.out[i]]) = Skeleton(store[o.sel[i]]) ]_vars
Emit == Len(trace) = Depth => PrintT("@@" \o ToJson([trace |-> trace]))
=============================================================================
