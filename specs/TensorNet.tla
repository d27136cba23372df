----------------------------- MODULE TensorNet -----------------------------
(* A user connecting, transforming and tracing components, one operation per step. *)
EXTENDS Net

CONSTANTS Base, N, Depth
VARIABLES seed,      \* seed
          t,      \* step
          cur,    \* the component held by the user
          rec     \* what the last step did: operands, operation, result
vars == <<seed, t, cur, rec>>

Pub(x) == IF IsBad(x) THEN [bad |-> TRUE] ELSE x
Idle == [op |-> "none"]
Init == /\ seed \in Seeds(Base, N) /\ t = 0 /\ rec = Idle
        /\ cur = RandComp(seed)
Perms == <<<<0, 1, 2>>, <<1, 2, 3>>, <<0, 2, 5>>, <<3, 4, 5>>>>
Do(op, cu, y, z) ==
  LET res == CASE op = "shift" -> Shift(cu, y)
               [] op = "rshift" -> Shift(y, cu)
               [] op = "contract" -> J(cu, y)
               [] op = "rcontract" -> J(y, cu)
               [] op = "adjoint" -> Adj(cu)
               [] op = "dual" -> Dual(cu)
               [] op = "dm" -> Dm(cu)
               [] op = "scale" -> Scale(z, cu)
               [] op = "trace" -> Trace(cu, {y.legs[i][2] : i \in 1..Len(y.legs)})
               [] op = "assoc" -> Shift(Shift(cu, y), z)
               [] op = "assocr" -> Shift(cu, Shift(y, z))
  IN TLCEval(res)
Ops == <<"shift", "shift", "shift", "shift", "rshift", "rshift", "contract", "rcontract", "adjoint", "dual", "dm", "scale", "trace", "assoc", "assoc">>
Step(sd, cu) ==
  LET op == Pick(sd, 300, Ops)
      y == TLCEval(IF op = "shift" /\ Coin(sd, 320, 12) THEN Dual(cu) ELSE IF op \in {"shift", "contract", "assoc"} /\ Coin(sd, 321, 70) THEN Mate(Sub(sd, 1), cu) ELSE RandComp(Sub(sd, 1)))
      z == IF op = "scale" THEN <<Rng(sd, 301, -2, 2), Rng(sd, 302, 1, 2)>> ELSE TLCEval(IF Coin(sd, 322, 70) THEN Mate(Sub(sd, 2), y) ELSE RandComp(Sub(sd, 2)))
      op2 == IF op = "dm" /\ ToSet(cu.legs) # Cr({2}, {l[2] : l \in ToSet(cu.legs)}) THEN "adjoint"
             ELSE IF op = "trace" /\ ~({y.legs[i][2] : i \in 1..Len(y.legs)} \subseteq {l[2] : l \in {q \in ToSet(cu.legs) : q[1] = 2}}
                                       /\ {m \in 0..5 : <<0, m>> \in ToSet(cu.legs)} \in {{}, {m \in 0..5 : <<2, m>> \in ToSet(cu.legs)}}
                                       /\ (HasB(cu) => \E l \in ToSet(cu.legs) : l[1] = 0)) THEN "dual"
             ELSE IF op \in {"assoc"} /\ Size(cu.dims) * Size(y.dims) * Size(z.dims) > 3000 THEN "shift"
             ELSE op
      res == Do(op2, cu, y, z)
      r2 == IF op2 = "assoc" THEN Do("assocr", cu, y, z) ELSE Bad
  IN /\ rec' = [op |-> op2, x |-> cu, y |-> y, z |-> z, r |-> Pub(res), r2 |-> Pub(r2)]
     /\ cur' = IF Small(res) /\ ~Coin(sd, 310, 25) THEN res ELSE RandComp(Sub(sd, 3))
Next == t < Depth /\ t' = t + 1 /\ seed' = NextSeed(seed) /\ \E sd \in {seed}, cu \in {cur} : Step(sd, cu)     \* bound, hence evaluated once
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ laws *)
Meets2(x, z) == \E l \in Out(x) : <<Flip(l[1]), l[2]>> \in ToSet(z.legs) \/ <<Flip(Swap(l[1])), l[2]>> \in ToSet(z.legs)
AssocLaw == (rec.op = "assoc" /\ ~IsBad(rec.r) /\ ~IsBad(rec.r2) /\ ~Meets2(rec.x, rec.z)) => rec.r = rec.r2
Inv == rec.op = "none" \/ (Adj(Adj(rec.x)) = rec.x /\ Dual(Dual(rec.x)) = rec.x /\ Adj(Dual(rec.x)) = Dual(Adj(rec.x)))
DualLaw == (rec.op = "shift" /\ ~IsBad(rec.r)) => Shift(Dual(rec.y), Dual(rec.x)) = Dual(rec.r)
AdjLaw == (rec.op = "shift" /\ ~IsBad(rec.r)) => Shift(Adj(rec.x), Adj(rec.y)) = Adj(rec.r)
ScaleLaw == (rec.op = "contract" /\ ~IsBad(rec.r)) => J(Scale(<<1, 2>>, rec.x), rec.y) = Scale(<<1, 2>>, rec.r)
Closed == (rec.op = "shift" /\ ~IsBad(rec.r) /\ Len(rec.r.legs) = 0 /\ HasK(rec.x) /\ HasB(rec.x) /\ rec.x = Adj(rec.x) /\ rec.y = Adj(rec.y))
             => rec.r.arr[1][2] = 0                      \* Hermitian closed networks are real
Laws == AssocLaw /\ Inv /\ DualLaw /\ AdjLaw /\ ScaleLaw /\ Closed
Emit == rec.op = "none" \/ PrintT("@@" \o ToJson(rec))
=============================================================================
