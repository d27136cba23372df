------------------------------ MODULE Circuits ------------------------------
(* Contracting a circuit (a list of components) one pair at a time.                                 *)
(* State: which components have been merged into which, and the component each group has become.    *)
(* A step joins two groups that are directly connected, provided nothing lies in between.           *)
EXTENDS Net

CONSTANTS Base, N, MaxComp, NModes,
          Kinds,       \* TRUE: components are tagged Fock / Bargmann (for the cost model)
          Values,      \* TRUE: carry arrays and check that all orders agree
          Mixed        \* TRUE: one-sided and two-sided components in the same circuit
VARIABLES cid, circ, nodes, path, costs
vars == <<cid, circ, nodes, path, costs>>

(* ------------------------------------------------------------------ circuits *)
Legs(sides, o, i) == UNION {IF sd = "k" THEN Cr({2}, o) \cup Cr({3}, i) ELSE Cr({0}, o) \cup Cr({1}, i) : sd \in sides}

Pickn(s, k, ms, n) == \* at most n elements of ms, at least one if ms is non-empty
  LET c == {m \in ms : Coin(s, k + m, 60)} IN
  IF c = {} THEN (IF ms = {} THEN {} ELSE {CHOOSE m \in ms : TRUE})
  ELSE IF Cardinality(c) > n THEN {CHOOSE m \in c : \A q \in c : m <= q} ELSE c
Two(s, k, ms) == \* two elements if there are two
  IF Cardinality(ms) <= 2 THEN ms ELSE ms \ {CHOOSE m \in ms : Cardinality({q \in ms : q < m}) = R(s, k, Cardinality(ms))}
(* the modes a component takes in and puts out; returns <<ins, outs>> *)
NextIO(s, open, used, nm) ==
  LET closed == (0..(nm - 1)) \ open
      fresh == IF Coin(s, 2, 75) THEN closed \ used ELSE closed          \* sometimes a closed mode is opened again
      k == R(s, 1, 10) IN
  CASE (open = {} \/ k < 2) /\ fresh # {} -> <<{}, Pickn(s, 10, fresh, IF Coin(s, 3, 30) THEN 3 ELSE 2)>>
    [] k = 2 /\ open # {} -> LET p == Pickn(s, 20, open, 1) IN <<p, p>>
    [] k \in 3..6 /\ open # {} -> LET p == Two(s, 30, open) IN <<p, p>>
    [] k = 7 /\ open # {} -> LET p == Pickn(s, 40, open, 2) q == Pickn(s, 50, (fresh \ open) \cup p, 1) IN <<p, q>>
    [] k = 8 /\ open # {} -> <<Pickn(s, 60, open, 1), {}>>
    [] open # {} -> LET p == Pickn(s, 70, open, 2) IN <<p, p>>
    [] OTHER -> <<{}, {0}>>
RECURSIVE GenIO(_, _, _, _, _, _, _)
GenIO(s, k, open, used, n, nm, acc) ==
  IF k > n \/ (k = n /\ open # {}) THEN
       IF open = {} \/ Coin(s, 999, 5) THEN acc
       ELSE IF Cardinality(open) > 1 /\ Coin(s, 998, 50)
            THEN LET m == CHOOSE m \in open : TRUE IN acc \o <<<<{m}, {}>>, <<open \ {m}, {}>>>>
            ELSE Append(acc, <<open, {}>>)
  ELSE LET io == TLCEval(NextIO(Sub(s, k), open, used, nm))
       IN GenIO(s, k + 1, (open \ io[1]) \cup io[2], used \cup io[1] \cup io[2], n, nm, Append(acc, io))
Conserving(x) ==          \* zero the entries that do not conserve the total number (beamsplitter-like)
  LET st == Strides(x.dims)
      tot(k, S) == SumTo(LAMBDA i : IF x.legs[i][1] \in S THEN Digit(x.dims, st, k, i) ELSE 0, Len(x.legs))
  IN [x EXCEPT !.arr = TLCEval([k \in 1..Len(x.arr) |-> IF tot(k - 1, {0, 2}) = tot(k - 1, {1, 3}) THEN x.arr[k] ELSE <<0, 0>>])]
Build(s, j, io, style) ==
  LET sides == IF style = 0 THEN {"k"} ELSE IF style = 1 THEN {"k", "b"} ELSE IF Coin(s, 700 + j, 60) THEN {"k"} ELSE {"k", "b"}
      x == TLCEval(RandOn(Sub(s, 100 + j), Legs(sides, io[2], io[1])))
      bs == sides = {"k"} /\ io[1] = io[2] /\ Cardinality(io[1]) = 2 /\ Coin(s, 740 + j, 60)
      y == IF bs THEN Conserving(x) ELSE x
  IN [legs |-> y.legs, dims |-> IF Values THEN y.dims ELSE TLCEval([i \in 1..Len(y.legs) |-> Rng(Sub(s, 100 + j), 900 + i, 1, 6)]),
      arr |-> IF Values THEN y.arr ELSE <<>>, kind |-> IF Kinds /\ Coin(s, 720 + j, 50) THEN "B" ELSE "F", bs |-> bs]
GenCirc(s) ==
  LET style == IF Mixed THEN 2 ELSE IF Coin(s, 502, 70) THEN 0 ELSE 1
      nm == IF Values /\ style # 0 THEN 2 ELSE NModes
      io == TLCEval(GenIO(s, 1, {}, {}, Rng(s, 501, 3, MaxComp - 1), nm, <<>>))
  IN TLCEval([j \in 1..Len(io) |-> Build(s, j, io[j], style)])

(* ------------------------------------------------------------------ links *)
OutM(x) == {x.legs[i][2] : i \in {k \in 1..Len(x.legs) : IsOut(x.legs[k])}}
InM(x)  == {x.legs[i][2] : i \in {k \in 1..Len(x.legs) : ~IsOut(x.legs[k])}}
LinkModes(c, i, j) == IF i >= j THEN {} ELSE {m \in OutM(c[i]) \cap InM(c[j]) : \A k \in (i + 1)..(j - 1) : m \notin InM(c[k]) /\ m \notin OutM(c[k])}
GroupLinks(c, A, B) == UNION {LinkModes(c, i, j) : i \in A, j \in B}
Labels(nd) == DOMAIN nd
Edge(c, nd, u, v) == u # v /\ GroupLinks(c, nd[u].mem, nd[v].mem) # {}
RECURSIVE Reach(_, _, _, _)
Reach(c, nd, from, seen) ==       \* groups reachable from a set of groups
  LET nx == {w \in Labels(nd) \ seen : \E u \in from : Edge(c, nd, u, w)} IN
  IF nx = {} THEN seen ELSE Reach(c, nd, nx, seen \cup nx)
Bypassed(c, nd, u, v) ==          \* v can be reached from u through a third group
  LET mids == {w \in Labels(nd) \ {u, v} : Edge(c, nd, u, w)} IN
  mids # {} /\ \E w \in mids : v \in Reach(c, nd, {w}, {w})
Abs1(x) == [x EXCEPT !.arr = <<>>]
JoinAbs(x, y) ==                  \* legs and dimensions only
  LET lg == TLCEval(Ordered((ToSet(x.legs) \ Meet(x, y)) \cup (ToSet(y.legs) \ {<<Flip(l[1]), l[2]>> : l \in Meet(x, y)})))
      keepX == ToSet(x.legs) \ Meet(x, y)
  IN Comp(lg, TLCEval([i \in 1..Len(lg) |-> IF lg[i] \in keepX THEN x.dims[IndexIn(x.legs, lg[i])] ELSE y.dims[IndexIn(y.legs, lg[i])]]), <<>>)
(* a circuit step is >> also when an operand has no wires left *)
Shift0(x, y) == IF x.legs = <<>> \/ y.legs = <<>> THEN J(x, y) ELSE Shift(x, y)
Sh(x, y) == IF Values THEN Shift0(x, y) ELSE IF Joinable(x, y) THEN JoinAbs(x, y) ELSE Bad
Ordered0(x, o) == {l \in ToSet(x.legs) : IsOut(l) = o}
MeetModes0(x, y) == OutM(x) \cap InM(y)
Shiftable(x, y) ==
  /\ {l[2] : l \in Ordered0(x, TRUE)} \cap {l[2] : l \in Ordered0(y, TRUE)} \subseteq MeetModes0(x, y)
  /\ {l[2] : l \in Ordered0(y, FALSE)} \cap {l[2] : l \in Ordered0(x, FALSE)} \subseteq MeetModes0(x, y)
MeetModes(x, y) == OutM(x) \cap InM(y)
Valid(c, nd, u, v) ==
  /\ Edge(c, nd, u, v)
  /\ MeetModes(nd[u].comp, nd[v].comp) = GroupLinks(c, nd[u].mem, nd[v].mem)
  /\ ~Bypassed(c, nd, u, v)
  /\ (IF Mixed THEN Shiftable(nd[u].comp, nd[v].comp) ELSE Joinable(nd[u].comp, nd[v].comp))

(* ------------------------------------------------------------------ cost model *)
CostOf(x, y, kx, ky) ==
  LET M == Meet(x, y) m == Cardinality(M)
      nA == Len(x.legs) - m nB == Len(y.legs) - m
      px(l) == x.dims[IndexIn(x.legs, l)]
      py(l) == y.dims[IndexIn(y.legs, l)]
      restA == TLCEval([i \in 1..Len(x.legs) |-> IF x.legs[i] \in M THEN 1 ELSE x.dims[i]])
      restB == TLCEval([i \in 1..Len(y.legs) |-> IF <<Flip(y.legs[i][1]), y.legs[i][2]>> \in M THEN 1 ELSE y.dims[i]])
      con   == TLCEval([i \in 1..Len(x.legs) |-> IF x.legs[i] \in M THEN Min(x.dims[i], py(<<Flip(x.legs[i][1]), x.legs[i][2]>>)) ELSE 1])
  IN IF kx = "B" /\ ky = "B"
     THEN m*m*m + (m+1)*m*nA + (m+1)*m*nB + (m+1)*m + m*m*m
     ELSE Size(restA) * Size(restB) * Size(con) + (IF kx = "B" THEN Size(x.dims) ELSE 0) + (IF ky = "B" THEN Size(y.dims) ELSE 0)

(* ------------------------------------------------------------------ the machine *)
CC(x) == Comp(x.legs, x.dims, x.arr)
Init == /\ cid \in Seeds(Base, N)
        /\ circ = GenCirc(cid)
        /\ nodes = TLCEval([u \in 0..(Len(circ) - 1) |-> [comp |-> CC(circ[u + 1]), mem |-> {u + 1}, kind |-> circ[u + 1].kind]])
        /\ path = <<>> /\ costs = <<>>
Merge(c, nd, u, v) ==
  LET r == TLCEval(Sh(nd[u].comp, nd[v].comp)) IN
  /\ nodes' = TLCEval([w \in Labels(nd) \ {v} |-> IF w = u THEN [comp |-> r, mem |-> nd[u].mem \cup nd[v].mem,
                                                     kind |-> IF nd[u].kind = "B" /\ nd[v].kind = "B" THEN "B" ELSE "F"] ELSE nd[w]])
  /\ costs' = Append(costs, IF Mixed THEN 0 ELSE CostOf(nd[u].comp, nd[v].comp, nd[u].kind, nd[v].kind))
Next == \E c \in {circ}, nd \in {nodes} : \E u \in Labels(nd), v \in Labels(nd) :
          /\ u # v /\ Valid(c, nd, u, v)
          /\ Merge(c, nd, u, v)
          /\ path' = Append(path, <<u, v>>)
          /\ UNCHANGED <<cid, circ>>
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ properties *)
RECURSIVE Fold(_, _, _)
Fold(c, k, acc) == IF k > Len(c) THEN acc ELSE Fold(c, k + 1, TLCEval(IF IsBad(acc) THEN Bad ELSE Sh(acc, CC(c[k]))))
Value(c) == Fold(c, 2, CC(c[1]))
Done == Cardinality(Labels(nodes)) = 1
Final == nodes[CHOOSE u \in Labels(nodes) : TRUE].comp
Confluent == (Done /\ Values /\ Len(circ) > 1) => Final = Value(circ)
Connected(c) == LET nd == [u \in 0..(Len(c) - 1) |-> [mem |-> {u + 1}]] IN
  LET both(S) == S \cup {w \in Labels(nd) : \E u \in S : Edge(c, nd, u, w) \/ Edge(c, nd, w, u)} IN
  both(both(both(both(both(both(both({0}))))))) = Labels(nd)
(* raw wires of the whole circuit (no adjoints added): nothing left dangling *)
RECURSIVE FoldRaw(_, _, _)
FoldRaw(c, k, acc) == IF k > Len(c) \/ IsBad(acc) THEN acc ELSE FoldRaw(c, k + 1, IF Joinable(acc, CC(c[k])) THEN JoinAbs(acc, CC(c[k])) ELSE Bad)
Raw(c) == FoldRaw(c, 2, CC(c[1]))
NeverStuck == (~Done /\ Connected(circ) /\ ~Mixed) => \E u, v \in Labels(nodes) : u # v /\ Valid(circ, nodes, u, v)
(* ------------------------------------------------------------------ Fock shape optimisation *)
AllLegs(c) == UNION {{<<j, i>> : i \in 1..Len(c[j].legs)} : j \in 1..Len(c)}
Peer(c, j, i) ==   \* the leg connected to leg i of component j, as a set of <<component, leg>>
  LET l == c[j].legs[i] f == <<Flip(l[1]), l[2]>> IN
  IF IsOut(l) THEN {<<k, IndexIn(c[k].legs, f)>> : k \in {q \in 1..Len(c) : l[2] \in LinkModes(c, j, q) /\ f \in ToSet(c[q].legs)}}
  ELSE {<<k, IndexIn(c[k].legs, f)>> : k \in {q \in 1..Len(c) : l[2] \in LinkModes(c, q, j) /\ f \in ToSet(c[q].legs)}}
ShapeStep(c, sh, slack) ==
  [j \in 1..Len(c) |-> [i \in 1..Len(c[j].legs) |->
     LET v == sh[j][i] M == Peer(c, j, i)
         mm == IF M = {} THEN v ELSE LET p == CHOOSE p \in M : TRUE IN Min(v, sh[p[1]][p[2]])
     IN IF ~c[j].bs THEN mm
        ELSE LET o == sh[j][3 - 0] IN Min(mm, (IF i <= 2 THEN sh[j][3] + sh[j][4] ELSE sh[j][1] + sh[j][2]) - slack)]]
RECURSIVE ShapeFix(_, _, _)
ShapeFix(c, sh, slack) == LET n == TLCEval(ShapeStep(c, sh, slack)) IN IF n = sh THEN sh ELSE ShapeFix(c, n, slack)
Shapes(c, slack) == ShapeFix(c, TLCEval([j \in 1..Len(c) |-> c[j].dims]), slack)

Emit == /\ path # <<>> \/ PrintT("@@" \o ToJson([k |-> "circ", id |-> cid, circ |-> circ, val |-> IF Values /\ Len(circ) > 1 THEN Value(circ) ELSE Bad,
                   raw |-> Raw(circ), conn |-> Connected(circ), loose |-> Shapes(circ, 0), tight |-> Shapes(circ, 1)]))
        /\ ~Done \/ path = <<>> \/ PrintT("@@" \o ToJson([k |-> "path", id |-> cid, path |-> path, costs |-> costs, last |-> Final.legs]))
Laws == Confluent /\ NeverStuck
=============================================================================
