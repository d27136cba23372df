------------------------------- MODULE Einsum -------------------------------
(* Einstein sums over integer tensors: the plain sum over all labels that are not asked for, and the machine *)
(* that contracts two operands at a time.  Each behaviour is one network and one contraction path.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng

CONSTANTS Base, N, MaxOps

Range(s) == {s[i] : i \in 1..Len(s)}
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Size(s) == ProdFrom(s, 1)
Unflat(k, s) == [i \in 1..Len(s) |-> (k \div ProdFrom(s, i + 1)) % s[i]]
RECURSIVE FlatFrom(_, _, _)
FlatFrom(ix, s, i) == IF i > Len(s) THEN 0 ELSE ix[i] * ProdFrom(s, i + 1) + FlatFrom(ix, s, i + 1)
Select(s, P(_)) == LET RECURSIVE F(_)
                       F(i) == IF i > Len(s) THEN <<>> ELSE (IF P(s[i]) THEN <<s[i]>> ELSE <<>>) \o F(i + 1)
                   IN F(1)
RECURSIVE Shuffle(_, _, _)
Shuffle(s, q, i) == IF Len(q) <= 1 THEN q
  ELSE LET k == 1 + R(s, 900 + i, Len(q)) IN <<q[k]>> \o Shuffle(s, SubSeq(q, 1, k - 1) \o SubSeq(q, k + 1, Len(q)), i + 1)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE <<Min(S)>> \o SetSeq(S \ {Min(S)})

(* A tensor: labels ls (batch labels are >= 100 and come first), sizes ds, entries in row-major order. *)
IsB(l) == l >= 100
At(x, val(_)) ==                                              \* entry for an assignment of the labels, 0 outside
  LET ix == TLCEval([i \in 1..Len(x.ls) |-> val(x.ls[i])])
  IN  IF \E i \in 1..Len(ix) : ix[i] >= x.ds[i] THEN 0 ELSE x.arr[FlatFrom(ix, x.ds, 1) + 1]
DimOf(l, ops) == Min({ops[k].ds[IndexIn(ops[k].ls, l)] : k \in {j \in 1..Len(ops) : l \in Range(ops[j].ls)}})
Labels(ops) == UNION {Range(ops[k].ls) : k \in 1..Len(ops)}
RECURSIVE ProdOps(_, _, _)
ProdOps(ops, val(_), k) == IF k > Len(ops) THEN 1
  ELSE LET e == At(ops[k], val) IN IF e = 0 THEN 0 ELSE e * ProdOps(ops, val, k + 1)
(* The sum: out = labels of the result (batch first), trunc[l] = size asked for label l (0: none) *)
Sum(ops, out, trunc) ==
  LET eff(l) == IF trunc[l] > 0 THEN trunc[l] ELSE DimOf(l, ops)
      summed == TLCEval(SetSeq(Labels(ops) \ Range(out)))
      od == TLCEval([i \in 1..Len(out) |-> eff(out[i])])
      sd == TLCEval([i \in 1..Len(summed) |-> eff(summed[i])])
      entry(q) == LET oi == TLCEval(Unflat(q - 1, od))
                      one(r) == LET si == TLCEval(Unflat(r - 1, sd))
                                    val(l) == IF l \in Range(out) THEN oi[IndexIn(out, l)] ELSE si[IndexIn(summed, l)]
                                IN  ProdOps(ops, val, 1)
                  IN  SumTo(one, Size(sd))
  IN  [ls |-> out, ds |-> od, arr |-> TLCEval([q \in 1..Size(od) |-> entry(q)])]

(* ------------------------------------------------------------ random networks *)
(* mode: "fock"  all operands arrays or converted with the sizes asked for;                                  *)
(*       "barg"  every label is contracted in Bargmann form (size 0);                                        *)
(*       "mixed" the labels internal to the first group are Bargmann, all others have an explicit size       *)
NewNet(s) ==
  LET k == Pick(s, 1, <<2, 2, 3, 3, 3, 4>>)
      K == IF k > MaxOps THEN MaxOps ELSE k
      mode == Pick(s, 2, <<"fock", "fock", "fockset", "barg", "barg", "mixed">>)
      hyper == mode \in {"fock", "fockset"} /\ Coin(s, 3, 25)     \* labels on three operands, labels summed alone
      nl == Rng(s, 4, 1, K + 2)
      lab == TLCEval(Shuffle(s, [i \in 1..9 |-> i - 1], 0))         \* label names
      (* each label is on one or two operands *)
      on(i) == LET a == 1 + R(s, 20 + i, K)  b == 1 + R(s, 40 + i, K) IN {a, b} \cup (IF hyper /\ Coin(s, 60 + i, 30) THEN {1 + R(s, 70 + i, K)} ELSE {})
      isout(i) == (Cardinality(on(i)) = 1 /\ ~(hyper /\ mode = "fock" /\ Coin(s, 80 + i, 25))) \/ (hyper /\ Cardinality(on(i)) > 1 /\ Coin(s, 90 + i, 20))
      nb == Pick(s, 5, <<0, 0, 1, 1, 2>>)
      bon(i) == {j \in 1..K : Coin(s, 110 + 10 * i + j, 55)}
      bdim(i) == Pick(s, 140 + i, <<1, 2, 2, 3>>)
      blist == Select([i \in 1..nb |-> i], LAMBDA i : bon(i) # {})
      group(i) == mode = "mixed" /\ on(i) \subseteq {1, 2} /\ Cardinality(on(i)) = 2
      trunc == TLCEval([l \in Range(lab) \cup {101, 102} |->
                 IF IsB(l) THEN 0 ELSE LET i == IndexIn(lab, l) IN
                   IF mode = "barg" \/ group(i) THEN 0
                   ELSE IF mode = "fock" THEN (IF Coin(s, 150 + i, 30) THEN Rng(s, 160 + i, 1, 4) ELSE 0)
                   ELSE Rng(s, 160 + i, 1, 3)])
      op(j) == LET cl == TLCEval(Shuffle(Sub(s, j), [i \in 1..Len(Select([x \in 1..nl |-> x], LAMBDA x : j \in on(x))) |->
                                                      lab[Select([x \in 1..nl |-> x], LAMBDA x : j \in on(x))[i]]], 0))
                   bl == TLCEval(Shuffle(Sub(s, 10 + j), [i \in 1..Len(Select(blist, LAMBDA x : j \in bon(x))) |-> 100 + Select(blist, LAMBDA x : j \in bon(x))[i]], 0))
                   ls == bl \o cl
                   ds == TLCEval([i \in 1..Len(ls) |-> IF IsB(ls[i]) THEN bdim(ls[i] - 100) ELSE Rng(s, 200 + 10 * j + i, 1, 3)])
               IN  [ls |-> ls, ds |-> ds, arr |-> TLCEval([q \in 1..Size(ds) |-> Rng(s, 300 + 100 * j + q, -2, 3)])]
      ops == TLCEval([j \in 1..K |-> TLCEval(op(j))])
      bout == TLCEval(Shuffle(Sub(s, 31), [i \in 1..Len(blist) |-> 100 + blist[i]], 0))
      cout == TLCEval(Shuffle(Sub(s, 32), [i \in 1..Len(Select([x \in 1..nl |-> x], isout)) |-> lab[Select([x \in 1..nl |-> x], isout)[i]]], 0))
      kind(j) == CASE mode \in {"fock"} -> "array"
                   [] mode = "fockset" -> Pick(s, 170 + j, <<"array", "poly", "sup">>)
                   [] mode = "barg" -> Pick(s, 170 + j, <<"array", "poly", "sup">>)
                   [] OTHER -> Pick(s, 170 + j, <<"array", "poly", "sup">>)
  IN  [mode |-> mode, ops |-> ops, out |-> bout \o cout, trunc |-> trunc,
       kinds |-> [j \in 1..K |-> kind(j)]]

VARIABLES seed, net, work, path
vars == <<seed, net, work, path>>
Init == /\ seed \in Seeds(Base, N)
        /\ \E n \in {TLCEval(NewNet(seed))} : net = n /\ work = n.ops
        /\ path = <<>>
(* contract operands a and b: keep what the others or the output need *)
Merge(w, a, b, n) ==
  LET rest == UNION {Range(w[k].ls) : k \in (1..Len(w)) \ {a, b}} \cup Range(n.out)
      keep == Select(w[a].ls \o Select(w[b].ls, LAMBDA l : l \notin Range(w[a].ls)), LAMBDA l : l \in rest)
  IN  Sum(<<w[a], w[b]>>, Select(keep, IsB) \o Select(keep, LAMBDA l : ~IsB(l)), n.trunc)
Drop(w, a, b) == LET lo == IF a < b THEN a ELSE b  hi == IF a < b THEN b ELSE a IN
                 SubSeq(w, 1, lo - 1) \o SubSeq(w, lo + 1, hi - 1) \o SubSeq(w, hi + 1, Len(w))
Next == /\ Len(work) > 1
        /\ \E a, b \in 1..Len(work) :
             /\ a # b
             /\ (net.mode = "mixed" /\ path = <<>>) => {a, b} = {1, 2}
             /\ \E m \in {TLCEval(Merge(work, a, b, net))} : work' = Append(Drop(work, a, b), m)
             /\ path' = Append(path, <<a - 1, b - 1>>)
        /\ UNCHANGED <<seed, net>>
Spec == Init /\ [][Next]_vars

Done == Len(work) = 1
(* every path ends in the plain Einstein sum *)
Whole == Sum(net.ops, net.out, net.trunc)
Reord(x, out) == Sum(<<x>>, out, [l \in DOMAIN net.trunc |-> 0])
Confluent == (Done /\ path # <<>>) => LET w == Whole  r == Reord(work[1], net.out) IN
               /\ \A q \in 1..Size(r.ds) : LET ix == Unflat(q - 1, r.ds) IN
                     (\A i \in 1..Len(ix) : ix[i] < w.ds[i]) => r.arr[q] = w.arr[FlatFrom(ix, w.ds, 1) + 1]
               /\ r.ds = w.ds
Emit == ~Done \/ path = <<>> \/ PrintT("@@" \o ToJson([mode |-> net.mode, ops |-> net.ops, kinds |-> net.kinds, out |-> net.out,
            trunc |-> LET c == SetSeq({x \in Labels(net.ops) : ~IsB(x)}) IN [i \in 1..Len(c) |-> <<c[i], net.trunc[c[i]]>>], path |-> path,
            ds |-> Whole.ds, arr |-> Whole.arr, k |-> Len(net.ops)]))
=============================================================================
