------------------------------- MODULE Wires -------------------------------
(* Wires of tensor-network components.  A leg is <<class, mode>> with class          *)
(* 0 = bra-out, 1 = bra-in, 2 = ket-out, 3 = ket-in, 4 = classical-out, 5 = classical-in. *)
(* A wire set is a set of legs; its standard order is the lexicographic order.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Classes == 0..5
Quantum == 0..3
IsOut(l) == l[1] \in {0, 2, 4}
IsBra(l) == l[1] \in {0, 1}
IsKet(l) == l[1] \in {2, 3}
IsCl(l)  == l[1] \in {4, 5}
Flip(c)  == IF c % 2 = 0 THEN c + 1 ELSE c - 1                \* out <-> in
Swap(c)  == IF c \in 0..1 THEN c + 2 ELSE IF c \in 2..3 THEN c - 2 ELSE c   \* bra <-> ket

Dual(w)    == {<<Flip(l[1]), l[2]>> : l \in w}
Adjoint(w) == {<<Swap(l[1]), l[2]>> : l \in w}

Less(l, m) == l[1] < m[1] \/ (l[1] = m[1] /\ l[2] < m[2])
Rank(w, l) == Cardinality({m \in w : Less(m, l)})             \* 0-based index in standard order
Ordered(w) == [i \in 1..Cardinality(w) |-> CHOOSE l \in w : Rank(w, l) = i - 1]

Outs(w) == {l \in w : IsOut(l)}
Ins(w)  == {l \in w : ~IsOut(l)}
Modes(w) == {l[2] : l \in w}

(* legs of a (outputs) that meet a leg of b (inputs) *)
MeetA(a, b) == {l \in Outs(a) : <<Flip(l[1]), l[2]>> \in b}
MeetB(a, b) == {l \in Ins(b) : <<Flip(l[1]), l[2]>> \in a}
SurvA(a, b) == a \ MeetA(a, b)
SurvB(a, b) == b \ MeetB(a, b)
Composable(a, b) == SurvA(a, b) \cap SurvB(a, b) = {}
Compose(a, b) == SurvA(a, b) \cup SurvB(a, b)

IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Perm(a, b) ==  \* position, in (survivors of a)(survivors of b), of each leg of the result
  LET comb == Ordered(SurvA(a, b)) \o Ordered(SurvB(a, b))
      res  == Ordered(Compose(a, b))
  IN  [i \in 1..Len(res) |-> IndexIn(comb, res[i]) - 1]

QMeetA(a, b) == {l \in MeetA(a, b) : ~IsCl(l)}
IdxA(a, b) == LET s == Ordered(QMeetA(a, b)) IN [i \in 1..Len(s) |-> Rank(a, s[i])]
IdxB(a, b) == LET s == Ordered(QMeetA(a, b)) IN [i \in 1..Len(s) |-> Rank(b, <<Flip(s[i][1]), s[i][2]>>)]

(* integer labels: a gets 0..|a|-1, b gets |a|.. except that contracted legs share a's label *)
LabA(a, b) == [i \in 1..Cardinality(a) |-> i - 1]
LabOfB(a, b, l) == IF l \in MeetB(a, b) /\ ~IsCl(l) THEN Rank(a, <<Flip(l[1]), l[2]>>) ELSE Cardinality(a) + Rank(b, l)
LabB(a, b) == LET s == Ordered(b) IN [i \in 1..Len(s) |-> LabOfB(a, b, s[i])]
LabOut(a, b) ==
  LET s == Ordered(Compose(a, b)) IN
  [i \in 1..Len(s) |-> IF s[i] \in SurvB(a, b) THEN LabOfB(a, b, s[i]) ELSE Rank(a, s[i])]

(* ------------------------------- state machine ------------------------------- *)
CONSTANTS ModeSet, Cls, Density, Mode       \* Mode \in {"pairs", "triples", "randpairs", "randtriples"}
VARIABLES a, b, c, ph
vars == <<a, b, c, ph>>

Legs == {<<k, m>> : k \in Cls, m \in ModeSet}     \* enumerated eagerly: a filter over it is evaluated once
All == SUBSET Legs
Rnd(x) == {l \in Legs : RandomElement(1..100) <= Density}
\* shapes that occur as components, over random mode sets, to make composable triples likely
RndModes(x) == {m \in ModeSet : RandomElement(1..100) <= Density}
Prod(cs, ms) == {<<k, m>> : k \in cs, m \in ms}
RndLike(x) ==
  LET m == RndModes(x) n == RndModes(x) k == RandomElement(1..8) IN
  CASE k = 1 -> Prod({2}, m)            [] k = 2 -> Prod({0, 2}, m)
    [] k = 3 -> Prod({2}, m) \cup Prod({3}, n)
    [] k = 4 -> Prod({0, 2}, m) \cup Prod({1, 3}, n)
    [] k = 5 -> Prod({3}, m)            [] k = 6 -> Prod({1, 3}, m)
    [] k = 7 -> Prod({2, 3}, m)         [] OTHER -> Rnd(x)

Init == /\ ph = 0
        /\ CASE Mode = "pairs"       -> a \in All /\ b \in All /\ c = {}
             [] Mode = "triples"     -> a \in All /\ b \in All /\ c \in All
             [] OTHER -> a = {} /\ b = {} /\ c = {}
Next == /\ Mode \in {"randpairs", "randtriples"}
        /\ ph < 4000
        /\ ph' = ph + 1
        /\ a' = IF ph % 2 = 0 THEN RndLike(ph) ELSE Rnd(ph)
        /\ b' = IF ph % 3 = 0 THEN Rnd(ph + 1) ELSE RndLike(ph + 1)
        /\ c' = RndLike(ph + 2)
Spec == Init /\ [][Next]_vars

Def(x, y) == Composable(x, y)
Assoc ==
  (Def(a, b) /\ Def(b, c) /\ Def(Compose(a, b), c) /\ Def(a, Compose(b, c))
     /\ MeetA(a, c) = {}   \* a and c are joined only through b
     ) => Compose(Compose(a, b), c) = Compose(a, Compose(b, c))
Involutive == Dual(Dual(a)) = a /\ Adjoint(Adjoint(a)) = a /\ Dual(Adjoint(a)) = Adjoint(Dual(a))
DualReverses == Def(a, b) <=> Def(Dual(b), Dual(a))
DualCompose == Def(a, b) => Dual(Compose(a, b)) = Compose(Dual(b), Dual(a))
AdjCompose == /\ Def(a, b) <=> Def(Adjoint(a), Adjoint(b))
              /\ Def(a, b) => Adjoint(Compose(a, b)) = Compose(Adjoint(a), Adjoint(b))
Counting == Def(a, b) => Cardinality(Compose(a, b)) = Cardinality(a) + Cardinality(b) - 2 * Cardinality(MeetA(a, b))
PermIsPerm == Def(a, b) => {Perm(a, b)[i] : i \in 1..Len(Perm(a, b))} = 0..(Cardinality(Compose(a, b)) - 1)
LabelsMatch == (Def(a, b) /\ \A l \in a \cup b : ~IsCl(l)) =>
   {LabOut(a, b)[i] : i \in 1..Len(LabOut(a, b))} =
     (  ({LabA(a, b)[i] : i \in 1..Len(LabA(a, b))} \cup {LabB(a, b)[i] : i \in 1..Len(LabB(a, b))})
      \ ({LabA(a, b)[i] : i \in 1..Len(LabA(a, b))} \cap {LabB(a, b)[i] : i \in 1..Len(LabB(a, b))}) )
Laws == Assoc /\ Involutive /\ DualReverses /\ DualCompose /\ AdjCompose /\ Counting /\ PermIsPerm /\ LabelsMatch

W(w) == Ordered(w)
Rec(x, y) == IF Def(x, y)
   THEN [a |-> W(x), b |-> W(y), ok |-> TRUE, r |-> W(Compose(x, y)), p |-> Perm(x, y),
         ia |-> IdxA(x, y), ib |-> IdxB(x, y),
         la |-> LabA(x, y), lb |-> LabB(x, y), lo |-> LabOut(x, y), eq |-> x = y]
   ELSE [a |-> W(x), b |-> W(y), ok |-> FALSE, eq |-> x = y]
View(w, P(_)) == LET s == Ordered({l \in w : P(l)}) IN [i \in 1..Len(s) |-> Rank(w, s[i])]
IsIn(l) == ~IsOut(l)
IsQ(l) == ~IsCl(l)
Views(w) == [w |-> W(w), input |-> View(w, IsIn), output |-> View(w, IsOut), ket |-> View(w, IsKet), bra |-> View(w, IsBra),
             quantum |-> View(w, IsQ), classical |-> View(w, IsCl),
             inket |-> View(w, LAMBDA l : IsIn(l) /\ IsKet(l)), outbra |-> View(w, LAMBDA l : IsOut(l) /\ IsBra(l)),
             modes |-> LET ms == Modes(w) IN [m \in 1..3 |-> View(w, LAMBDA l : l[2] = m - 1)],
             dual |-> W(Dual(w)), adjoint |-> W(Adjoint(w))]
Triple == (Def(a, b) /\ Def(b, c) /\ Def(Compose(a, b), c) /\ Def(a, Compose(b, c)) /\ MeetA(a, c) = {})
Emit == CASE Mode \in {"pairs", "randpairs"} -> PrintT("@@" \o ToJson([k |-> "pair", r |-> Rec(a, b)])) /\ (IF Mode = "pairs" /\ b # {} THEN TRUE ELSE PrintT("@@" \o ToJson([k |-> "view", r |-> Views(a)])))
          [] OTHER -> ~Triple \/ PrintT("@@" \o ToJson([k |-> "triple", a |-> W(a), b |-> W(b), c |-> W(c), r |-> W(Compose(Compose(a, b), c))]))
=============================================================================
