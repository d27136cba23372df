-------------------------------- MODULE Batch --------------------------------
(* Batched components.  An object is a family of unbatched components indexed by the points of a   *)
(* box (its axes).  Every operation is defined on families by saying which points of the operands    *)
(* each point of the result is computed from: the index maps mapA, mapB give, for every axis of an   *)
(* operand, the axis of the result it is read along.                                                 *)
EXTENDS Rng, FiniteSets, Json
CONSTANTS Base, N, Depth

VARIABLES seed, pool, trace
vars == <<seed, pool, trace>>

\* ---- legs (class, mode): 0 bra-out, 1 bra-in, 2 ket-out, 3 ket-in
Flip(c) == IF c % 2 = 0 THEN c + 1 ELSE c - 1
Swap(c) == (c + 2) % 4
Dual(w) == {<<Flip(l[1]), l[2]>> : l \in w}
Adj(w) == {<<Swap(l[1]), l[2]>> : l \in w}
IsOut(l) == l[1] \in {0, 2}
MeetA(a, b) == {l \in a : IsOut(l) /\ <<Flip(l[1]), l[2]>> \in b}
MeetB(a, b) == {<<Flip(l[1]), l[2]>> : l \in MeetA(a, b)}
Composable(a, b) == (a \ MeetA(a, b)) \cap (b \ MeetB(a, b)) = {}
Compose(a, b) == (a \ MeetA(a, b)) \cup (b \ MeetB(a, b))
HasK(w) == \E l \in w : l[1] \in {2, 3}
HasB(w) == \E l \in w : l[1] \in {0, 1}
Modes(w) == {l[2] : l \in w}
On(cs, ms) == {<<c, m>> : c \in cs, m \in ms}
IsKet(w) == w # {} /\ w = On({2}, Modes(w))
IsDM(w) == w # {} /\ w = On({0, 2}, Modes(w))
IsU(w) == w # {} /\ w = On({2, 3}, Modes(w))
IsCh(w) == w # {} /\ w = On({0, 1, 2, 3}, Modes(w))

\* ---- families
Obj(legs, ax, rep, ty) == [legs |-> legs, ax |-> ax, rep |-> rep, ty |-> ty]
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))
Id(n) == [i \in 1..n |-> i]
Shiftn(n, k) == [i \in 1..n |-> k + i]
Min2(a, b) == IF a < b THEN a ELSE b
\* kron: every pair of points, those of the first operand varying slowest
Kron(p, q) == [ok |-> TRUE, ax |-> p \o q, ma |-> Id(Len(p)), mb |-> Shiftn(Len(q), Len(p))]
\* zip: equal axes are read together; a family with fewer axes is constant along the others
Zip(p, q) == [ok |-> \A i \in 1..Min2(Len(p), Len(q)) : p[i] = q[i],
              ax |-> IF Len(p) >= Len(q) THEN p ELSE q, ma |-> Id(Len(p)), mb |-> Id(Len(q))]
\* labelled: axes with the same label are read together, the output lists all labels in some order
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Labelled(p, q, lp, lq, lo) ==
   LET size(x) == IF \E i \in 1..Len(lp) : lp[i] = x THEN p[IndexIn(lp, x)] ELSE q[IndexIn(lq, x)]
   IN [ok |-> \A i \in 1..Len(lp), j \in 1..Len(lq) : lp[i] = lq[j] => p[i] = q[j],
       ax |-> [k \in 1..Len(lo) |-> size(lo[k])],
       ma |-> [i \in 1..Len(lp) |-> IndexIn(lo, lp[i])], mb |-> [j \in 1..Len(lq) |-> IndexIn(lo, lq[j])]]
\* numpy broadcasting of parameter arrays (aligned at the right, ones stretch)
RECURSIVE Bc(_, _)
Bc(p, q) == IF p = <<>> THEN q ELSE IF q = <<>> THEN p
            ELSE LET a == p[Len(p)] b == q[Len(q)]
                 IN Append(Bc(SubSeq(p, 1, Len(p) - 1), SubSeq(q, 1, Len(q) - 1)), IF a = 1 THEN b ELSE a)
RECURSIVE BcAll(_)
BcAll(ss) == IF ss = <<>> THEN <<>> ELSE Bc(Head(ss), BcAll(Tail(ss)))

\* ---- leaves: name, number of modes, leg classes, number of parameters, representation
Leaves == <<
  <<"Coherent", 1, {2}, 1, "B">>, <<"SqueezedVacuum", 1, {2}, 2, "B">>, <<"DisplacedSqueezed", 1, {2}, 3, "B">>,
  <<"TwoModeSqueezedVacuum", 2, {2}, 2, "B">>, <<"Thermal", 1, {0, 2}, 1, "B">>, <<"Dgate", 1, {2, 3}, 1, "B">>,
  <<"Sgate", 1, {2, 3}, 2, "B">>, <<"Rgate", 1, {2, 3}, 1, "B">>, <<"BSgate", 2, {2, 3}, 2, "B">>, <<"S2gate", 2, {2, 3}, 2, "B">>,
  <<"MZgate", 2, {2, 3}, 2, "B">>, <<"CZgate", 2, {2, 3}, 1, "B">>, <<"CXgate", 2, {2, 3}, 1, "B">>, <<"Pgate", 1, {2, 3}, 1, "B">>,
  <<"Attenuator", 1, {0, 1, 2, 3}, 1, "B">>, <<"Amplifier", 1, {0, 1, 2, 3}, 1, "B">>, <<"FockDamping", 1, {2, 3}, 1, "B">>,
  <<"Attenuator", 1, {0, 1, 2, 3}, 1, "B">>,
  <<"GaussRandNoise", 1, {0, 1, 2, 3}, 0, "B">>, <<"Ggate", 1, {2, 3}, 0, "B">>, <<"Interferometer", 2, {2, 3}, 0, "B">>,
  <<"Number", 1, {2}, 1, "F">>, <<"ketF", 1, {2}, 0, "F">>, <<"ketF", 2, {2}, 0, "F">>, <<"dmF", 1, {0, 2}, 0, "F">>, <<"uF", 1, {2, 3}, 0, "F">>, <<"chF", 1, {0, 1, 2, 3}, 0, "F">>,
  <<"ketB", 1, {2}, 0, "B">>, <<"ketB", 2, {2}, 0, "B">>, <<"ketL", 1, {2}, 0, "B">>, <<"ketL", 2, {2}, 0, "B">>, <<"ketP", 1, {2}, 0, "B">>,
  <<"dmB", 1, {0, 2}, 0, "B">>, <<"dmB", 2, {0, 2}, 0, "B">>, <<"dmL", 1, {0, 2}, 0, "B">> >>
Shapes == << <<>>, <<2>>, <<3>>, <<2, 3>>, <<1>>, <<2, 1>>, <<2, 2>>, <<3, 2>>, <<1, 2>> >>
\* shapes of k parameters that broadcast to sh: each is a suffix, possibly with ones
ParShape(s, i, sh) == LET c == R(s, i, 6)
                      IN IF sh = <<>> \/ c < 2 THEN sh ELSE IF c = 2 THEN <<>>
                         ELSE IF c = 3 THEN SubSeq(sh, 2, Len(sh)) ELSE IF c = 4 THEN [k \in 1..Len(sh) |-> IF k = 1 THEN 1 ELSE sh[k]]
                         ELSE [k \in 1..Len(sh) |-> IF k = Len(sh) THEN 1 ELSE sh[k]]
RandModes(s, n) == IF n = 1 THEN {R(s, 60, 3)} ELSE LET a == R(s, 60, 3) IN {a, (a + 1 + R(s, 61, 2)) % 3}
Leaf(s, cands) ==
   LET l == Leaves[cands[1 + R(s, 50, Len(cands))]]
       sh0 == Shapes[1 + R(s, 51, Len(Shapes))]
       sh == IF Coin(s, 52, 30) THEN <<>> ELSE sh0
       ps == [k \in 1..l[4] |-> ParShape(s, 52 + k, sh)]
       ax == IF l[4] = 0 THEN sh ELSE BcAll(ps)
       ms == RandModes(s, l[2])
   IN [o |-> Obj(On(l[3], ms), ax, l[5], l[1]), op |-> [k |-> "leaf", ty |-> l[1], modes |-> ms, shapes |-> ps, rnd |-> H(s, 59)]]

Log(op, out, ax, ma, mb, legs) == [op |-> op, out |-> out, ax |-> ax, ma |-> ma, mb |-> mb, legs |-> legs]
\* a new object computed point by point
New(op, x, m, legs, rep, ty) == [o |-> Obj(legs, m.ax, rep, ty), l |-> Log(op, "ok", m.ax, m.ma, m.mb, legs)]
Un(x) == [ok |-> TRUE, ax |-> x.ax, ma |-> Id(Len(x.ax)), mb |-> <<>>]
\* a value (array) per point
Val(op, m) == [o |-> <<>>, l |-> Log(op, "ok", m.ax, m.ma, m.mb, {})]

Shift(a, b) ==   \* legs of a >> b, with missing sides completed
   LET needA == (~HasB(a) \/ ~HasK(a)) /\ HasB(b) /\ HasK(b)
       needB == (~HasB(b) \/ ~HasK(b)) /\ HasB(a) /\ HasK(a)
       a2 == IF needA THEN a \cup Adj(a) ELSE a
       b2 == IF needB THEN b \cup Adj(b) ELSE b
       same == (HasK(a) = HasK(b)) /\ (HasB(a) = HasB(b))
   IN IF a = {} \/ b = {} \/ ~(needA \/ needB \/ same) \/ ~Composable(a2, b2) THEN {<<9, 9>>} ELSE Compose(a2, b2)
\* labels for a custom contraction: the axes of b share labels of a of equal size where the seed says so
Letter(i) == i
Labels(s, p, q) ==
   LET lp == Id(Len(p))
       share(j) == {i \in 1..Len(p) : p[i] = q[j] /\ Coin(s, 500 + 7 * j + i, 60)}
       first(j) == IF share(j) = {} THEN 0 ELSE CHOOSE i \in share(j) : \A k \in share(j) : i <= k
       lq == [j \in 1..Len(q) |-> IF first(j) = 0 \/ (\E k \in 1..j-1 : first(k) = first(j)) THEN Len(p) + j ELSE first(j)]
       all == lp \o SelectSeq(lq, LAMBDA x : x > Len(p))
       rot == R(s, 540, IF Len(all) = 0 THEN 1 ELSE Len(all))
       lo0 == [k \in 1..Len(all) |-> all[1 + ((k - 1 + rot) % Len(all))]]
       lo == IF Len(all) > 1 /\ Coin(s, 541, 50) THEN [lo0 EXCEPT ![1] = lo0[2], ![2] = lo0[1]] ELSE lo0
   IN [lp |-> lp, lq |-> lq, lo |-> lo]

Fits(legs, ax, rep) == Prod(ax) <= 18 /\ Cardinality(legs) <= (IF rep = "F" THEN 5 ELSE 6) /\ Len(ax) <= 4
\* the operation chosen by the seed on objects x (index i) and y (index j)
Step1(s, i, x) ==
   LET c == R(s, 70, 100)
       sub == CHOOSE w \in SUBSET Modes(x.legs) : w # {} /\ (Cardinality(w) = 1 \/ Coin(s, 71, 30) \/ TRUE) /\ R(s, 72, Cardinality(Modes(x.legs))) + 1 \in {Cardinality(w)} \cup {99}
       st == IsKet(x.legs) \/ IsDM(x.legs)
       o(k) == [k |-> k, a |-> i]
       un(k, legs, rep, ty) == New(o(k), x, Un(x), legs, rep, ty)
       val(k) == Val(o(k), Un(x))
   IN CASE c < 7 -> un("adjoint", Adj(x.legs), x.rep, "d")
        [] c < 14 -> un("dual", Dual(x.legs), x.rep, "d")
        [] c < 22 /\ IsKet(x.legs) /\ Cardinality(x.legs) <= 2 -> un("dm", x.legs \cup Adj(x.legs), x.rep, "d")
        [] c < 30 /\ x.rep = "B" /\ Cardinality(x.legs) <= 4 -> un("fock", x.legs, "F", "d")
        [] c < 33 /\ x.rep = "F" /\ x.ty # "X" -> un("barg", x.legs, "B", "d")
        [] c < 38 /\ st -> un("normalize", x.legs, x.rep, "d")
        [] c < 42 -> un("scale", x.legs, x.rep, "d")
        [] c < 47 /\ st -> New([k |-> "getitem", a |-> i, modes |-> sub], x, Un(x), On({0, 2}, sub), x.rep, "d")
        [] c < 52 /\ st -> New([k |-> "traceout", a |-> i, modes |-> sub], x, Un(x), (IF IsKet(x.legs) THEN x.legs \cup Adj(x.legs) ELSE x.legs) \ On({0, 2}, sub), x.rep, "d")
        [] c < 56 /\ st -> val("probability")
        [] c < 59 /\ st -> val("purity")
        [] c < 62 /\ st -> val("L2")
        [] c < 66 /\ st -> val("fockdist")
        [] c < 70 /\ st -> val("phasespace")
        [] c < 74 -> val("quadrature")
        [] c < 78 /\ st -> val("quaddist")
        [] c < 82 /\ IsU(x.legs) -> val("symplectic")
        [] c < 82 /\ IsCh(x.legs) -> val("XY")
        [] c < 85 -> val("fockarray")
        [] c < 88 /\ x.rep = "B" -> val("triple")
        [] c < 91 /\ (IsU(x.legs) \/ IsCh(x.legs)) /\ x.rep = "B" -> un("inverse", Dual(x.legs), x.rep, "d")
        [] c < 97 -> val("toquad")
        [] OTHER -> un("on", {<<l[1], l[2] + 4>> : l \in x.legs}, x.rep, "d")
Step2(s, i, j, x, y) ==
   LET c == R(s, 80, 100)
       o(k) == [k |-> k, a |-> i, b |-> j]
       kr == Kron(x.ax, y.ax)
       lb == Labels(s, x.ax, y.ax)
       cu == Labelled(x.ax, y.ax, lb.lp, lb.lq, lb.lo)
       zp == Zip(x.ax, y.ax)
       sh == Shift(x.legs, y.legs)
       bin(op, m, legs) == IF legs = {<<9, 9>>} THEN [o |-> <<>>, l |-> Log(op, "refused", <<>>, <<>>, <<>>, {})]
                           ELSE IF ~m.ok THEN [o |-> <<>>, l |-> Log(op, "unspecified", <<>>, <<>>, <<>>, {})]
                           ELSE New(op, x, m, legs, x.rep, "d")
       ct == IF Composable(x.legs, y.legs) THEN Compose(x.legs, y.legs) ELSE {<<9, 9>>}
       ex == Modes(y.legs) \subseteq Modes(x.legs) /\ (IsKet(x.legs) \/ IsDM(x.legs)) /\ (IsKet(y.legs) \/ IsDM(y.legs) \/ IsU(y.legs))
       mode == R(s, 81, 3)
       m == CASE mode = 0 -> kr [] mode = 1 -> zp [] OTHER -> cu
       om(k) == [k |-> k, a |-> i, b |-> j, mode |-> (CASE mode = 0 -> "kron" [] mode = 1 -> "zip" [] OTHER -> "custom"), lp |-> lb.lp, lq |-> lb.lq, lo |-> lb.lo]
   IN CASE c < 25 /\ ex /\ m.ok -> Val(om("expectation"), m)
        [] c < 35 /\ IsKet(x.legs) /\ (IsKet(y.legs) \/ IsDM(y.legs)) /\ Modes(x.legs) = Modes(y.legs) -> Val(o("fidelity"), kr)
        [] c < 45 /\ x.legs = y.legs /\ x.ax = y.ax -> New(o(IF Coin(s, 82, 50) THEN "add" ELSE "sub"), x, zp, x.legs, x.rep, "d")
        [] c < 75 -> bin(o("shift"), kr, sh)
        [] OTHER -> bin(om("contract"), m, ct)
\* prefer partners that meet
Partner(s, x) == LET good == {j \in 1..Len(pool) : pool[j].rep = x.rep /\ MeetA(x.legs \cup Adj(x.legs), pool[j].legs \cup Adj(pool[j].legs)) # {} /\ Prod(x.ax) * Prod(pool[j].ax) <= 18}
                     same == {j \in 1..Len(pool) : pool[j].rep = x.rep /\ Prod(x.ax) * Prod(pool[j].ax) <= 18 /\ Modes(pool[j].legs) \cap Modes(x.legs) # {}}
                     ch(S) == LET r == R(s, 90, Len(pool)) + 1 IN CHOOSE j \in S : \A k \in S : (j - r) * (j - r) <= (k - r) * (k - r)
                 IN IF good # {} /\ Coin(s, 91, 70) THEN ch(good) ELSE IF same # {} THEN ch(same) ELSE 0
KetIdx == {k \in 1..Len(Leaves) : Leaves[k][3] \in {{2}, {0, 2}}}
Cands(s) == LET want == IF Coin(s, 40, 45) THEN KetIdx ELSE 1..Len(Leaves) IN SelectSeq(Id(Len(Leaves)), LAMBDA k : k \in want)
Do(s) ==
   IF Len(pool) < 3 \/ Coin(s, 1, 22) THEN LET l == Leaf(s, Cands(s)) IN [o |-> l.o, l |-> Log(l.op, "ok", l.o.ax, <<>>, <<>>, l.o.legs)]
   ELSE LET i == IF Coin(s, 2, 50) THEN Len(pool) ELSE 1 + R(s, 3, Len(pool))
            x == pool[i]
            j == Partner(s, x)
            one == Step1(s, i, x)
        IN IF x.legs = {} THEN LET l == Leaf(s, Cands(s)) IN [o |-> l.o, l |-> Log(l.op, "ok", l.o.ax, <<>>, <<>>, l.o.legs)]
           ELSE IF j > 0 /\ Coin(s, 5, 60) THEN Step2(s, i, j, x, pool[j]) ELSE one
Init == seed \in Seeds(Base, N) /\ pool = <<>> /\ trace = <<>>
Apply(r) == IF r.o # <<>> /\ ~Fits(r.o.legs, r.o.ax, r.o.rep) THEN UNCHANGED <<pool, trace>>
            ELSE /\ pool' = IF r.o = <<>> THEN pool ELSE Append(pool, r.o)
                 /\ trace' = Append(trace, [r.l EXCEPT !.op = [r.l.op EXCEPT !.k = @]])
VARIABLE tick
Next == /\ tick < Depth /\ tick' = tick + 1 /\ seed' = NextSeed(seed)
        /\ \E s \in {seed} : \E r \in {TLCEval(Do(s))} : Apply(r)
Spec == Init /\ tick = 0 /\ [][Next]_<<seed, pool, trace, tick>>
-----------------------------------------------------------------------------
\* index maps are well formed: every axis of an operand is read along an axis of the same size, and every
\* axis of the result is read by some operand
MapsOK == \A t \in 1..Len(trace) :
   LET l == trace[t] IN (l.out = "ok" /\ l.op.k # "leaf") =>
      /\ \A k \in 1..Len(l.ma) : l.ma[k] \in 1..Len(l.ax)
      /\ \A k \in 1..Len(l.ax) : (\E q \in 1..Len(l.ma) : l.ma[q] = k) \/ (\E q \in 1..Len(l.mb) : l.mb[q] = k)
\* kron is associative and zip commutes with it on the left, as index maps
Boxes == {<<>>, <<2>>, <<3>>, <<2, 3>>}
Laws == \A p, q, r \in Boxes :
   /\ Kron(Kron(p, q).ax, r).ax = Kron(p, Kron(q, r).ax).ax
   /\ \A k \in 1..Len(q) : Kron(Kron(p, q).ax, r).ma[Kron(p, q).mb[k]] = Kron(p, Kron(q, r).ax).mb[Kron(q, r).ma[k]]
   /\ Zip(p, p).ax = p /\ Zip(p, <<>>).ax = p /\ Zip(<<>>, p).ax = p
   /\ Labelled(p, q, Id(Len(p)), Shiftn(Len(q), Len(p)), Id(Len(p) + Len(q))) = Kron(p, q)
   /\ Labelled(p, p, Id(Len(p)), Id(Len(p)), Id(Len(p))) = Zip(p, p)
   /\ Bc(p, <<>>) = p /\ Bc(p, p) = p /\ Bc(p, q \o p) = q \o p
ASSUME Laws
Emit == tick = Depth => PrintT("@@" \o ToJson([trace |-> trace]))
=============================================================================
