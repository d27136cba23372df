-------------------------------- MODULE Pool --------------------------------
(* A pool of components (and circuits) under arbitrary histories of operations.                  *)
(* Each object has an attribute version per observable attribute: V (representation, name,       *)
(* class, wires), S (stored Fock shape) and P (parameters).  An operation creates a new object   *)
(* and leaves every version alone; only an object's own setter bumps its shape version, and      *)
(* only assigning a variable bumps the parameter versions, of the objects holding that variable. *)
(* Replay: same version => same observation.                                                     *)
EXTENDS Rng, FiniteSets, Json
CONSTANTS Base, N, Depth, MaxPool,
          NCtor,      \* constructors per kind known to the driver
          UnOps,      \* sequence of unary operations [name, from (set of kinds), to (kind), share (BOOLEAN: result holds the operand's parameters)]
          NModes
VARIABLES seed, pool, groups, trace
vars == <<seed, pool, groups, trace>>

Kinds == {"ket", "dm", "uni", "chan", "gen", "circ"}
Obj(k, ms, g, ctor) == [k |-> k, ms |-> ms, g |-> g, V |-> 0, S |-> 0, P |-> 0, ctor |-> ctor]
\* logged step: what was done and the versions of all objects afterwards
Vers(p) == [i \in 1..Len(p) |-> <<p[i].V, p[i].S, p[i].P>>]
Log(op) == Append(trace, [op |-> op, vers |-> Vers(pool'), kinds |-> [i \in 1..Len(pool') |-> pool'[i].k]])

ModeSeqs == <<<<0>>, <<1>>, <<2>>, <<0, 1>>, <<0, 2>>, <<1, 2>>>>
SetOf(q) == {q[i] : i \in 1..Len(q)}

New(s) == LET k == Pick(s, 1, <<"ket", "ket", "uni", "dm", "chan", "uni">>)
              ms == Pick(s, 2, ModeSeqs)
              c == R(s, 3, NCtor)
          IN /\ pool' = Append(pool, Obj(k, ms, groups, c))
             /\ groups' = groups + 1
             /\ trace' = Log([k |-> "new", kind |-> k, ms |-> ms, c |-> c])
\* an operation on operands is: the pool plus one object; nothing else changes
Result(k, ms, share, i) == Append(pool, Obj(k, ms, IF share THEN pool[i].g ELSE groups, -1))
Unary(s, i) == LET ops == SelectSeq(UnOps, LAMBDA o : pool[i].k \in o.from)
                   o == Pick(s, 4, ops)
                   ms == IF o.name = "on" THEN Pick(s, 5, SelectSeq(ModeSeqs \o <<<<0, 1, 2>>>>, LAMBDA q : Len(q) = Len(pool[i].ms))) ELSE pool[i].ms
               IN /\ Len(ops) > 0
                  /\ pool' = Result(IF o.to = "same" THEN pool[i].k ELSE o.to, ms, o.share, i)
                  /\ groups' = groups + 1
                  /\ trace' = Log([k |-> "un", name |-> o.name, i |-> i, r |-> R(s, 6, 1000), ms |-> ms])
States == {"ket", "dm"}
Maps == {"uni", "chan"}
\* pairs for which the operation is meaningful
Fits(name, i, j) ==
   LET a == pool[i] b == pool[j] IN
   CASE name = "shift" -> a.k \in States \cup Maps /\ b.k \in Maps /\ (a.k \in States => SetOf(b.ms) \subseteq SetOf(a.ms))
     [] name = "contract" -> a.k \in Kinds \ {"circ"} /\ b.k \in Maps
     [] name \in {"add", "sub", "eq"} -> a.k = b.k /\ a.ms = b.ms /\ a.k # "circ"
     [] name \in {"expectation", "fidelity", "overlap"} -> a.k \in States /\ b.k \in States /\ a.ms = b.ms
     [] name = "tensor" -> a.k \in States /\ b.k \in States /\ SetOf(a.ms) \cap SetOf(b.ms) = {}
     [] name = "circuit" -> a.k \in States /\ b.k \in Maps
     [] name = "append" -> a.k = "circ" /\ b.k \in Maps
     [] OTHER -> FALSE
BinOps == <<"shift", "shift", "contract", "add", "sub", "eq", "expectation", "fidelity", "overlap", "tensor", "circuit", "append">>
BinKind(name, i, j) ==
   CASE name = "shift" -> IF pool[i].k \in {"dm", "chan"} \/ pool[j].k \in {"dm", "chan"}
                          THEN (IF pool[i].k \in States THEN "dm" ELSE "chan") ELSE pool[i].k
     [] name = "contract" -> "gen"
     [] name \in {"add", "sub"} -> pool[i].k
     [] name = "tensor" -> IF pool[i].k = "dm" \/ pool[j].k = "dm" THEN "dm" ELSE "ket"
     [] name \in {"circuit", "append"} -> "circ"
     [] OTHER -> "none"
Pairs(name) == LET n == Len(pool)
                   all == [x \in 1..n*n |-> <<1 + ((x - 1) \div n), 1 + ((x - 1) % n)>>]
               IN SelectSeq(all, LAMBDA p : Fits(name, p[1], p[2]))
\* tensor result modes / shift result modes
RECURSIVE SortMs(_)
SortMs(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortMs(S \ {m})
Binary(s, name) == LET ps == Pairs(name)
                       p == Pick(s, 8, ps)
                   IN /\ Len(ps) > 0
                      /\ pool' = Result(BinKind(name, p[1], p[2]),
                                        IF name \in {"tensor", "shift"} THEN SortMs(SetOf(pool[p[1]].ms) \cup SetOf(pool[p[2]].ms)) ELSE pool[p[1]].ms, FALSE, p[1])
                      /\ groups' = groups + 1
                      /\ trace' = Log([k |-> "bin", name |-> name, i |-> p[1], j |-> p[2], r |-> R(s, 9, 1000)])
\* the object's own setters
SetShape(s, i) == /\ pool[i].k \notin {"circ", "none"}
                  /\ pool' = [pool EXCEPT ![i].S = @ + 1]
                  /\ UNCHANGED groups
                  /\ trace' = Log([k |-> "shape", i |-> i, r |-> R(s, 10, 1000)])
\* circuits: optimising, or setting the shape of one of its components, changes that circuit only
Tweak(s, i) == /\ pool[i].k = "circ"
               /\ pool' = [pool EXCEPT ![i].V = @ + 1, ![i].S = @ + 1, ![i].P = @ + 1]
               /\ UNCHANGED groups
               /\ trace' = Log([k |-> Pick(s, 11, <<"optimize", "compshape", "path">>), i |-> i, r |-> R(s, 10, 1000)])
\* assigning a variable: every holder's parameters and representation may change, nobody else's.
\* circuits hold light copies, which share parameters with the originals
Holders(i) == {j \in 1..Len(pool) : pool[j].g = pool[i].g \/ pool[j].k = "circ"}
SetVar(s, i) == /\ pool[i].k \notin {"circ", "none"}
                /\ pool' = [j \in 1..Len(pool) |-> IF j \in Holders(i) THEN [pool[j] EXCEPT !.V = @ + 1, !.P = @ + 1] ELSE pool[j]]
                /\ UNCHANGED groups
                /\ trace' = Log([k |-> "var", i |-> i, r |-> R(s, 12, 1000)])
\* preferably a recent object
Target(s) == LET n == Len(pool) IN IF Coin(s, 20, 50) THEN n - R(s, 21, IF n < 3 THEN n ELSE 3) ELSE 1 + R(s, 22, n)
Init == /\ seed \in Seeds(Base, N) /\ pool = <<>> /\ groups = 0 /\ trace = <<>>
Step(s) == LET c == R(s, 30, 100)
               i == IF Len(pool) = 0 THEN 0 ELSE Target(s)
               room == Len(pool) < MaxPool
               name == Pick(s, 7, BinOps)
           IN CASE Len(pool) < 2 \/ (c < 12 /\ room) -> New(s)
                [] c < 42 /\ room /\ ENABLED Unary(s, i) -> Unary(s, i)
                [] c < 72 /\ room /\ ENABLED Binary(s, name) -> Binary(s, name)
                [] c < 86 /\ ENABLED SetShape(s, i) -> SetShape(s, i)
                [] c < 92 /\ ENABLED SetVar(s, i) -> SetVar(s, i)
                [] c < 100 /\ ENABLED Tweak(s, i) -> Tweak(s, i)
                [] room -> New(s)
                [] ENABLED SetShape(s, i) -> SetShape(s, i)
                [] ENABLED Tweak(s, i) -> Tweak(s, i)
                [] OTHER -> UNCHANGED pool /\ UNCHANGED groups /\ trace' = Log([k |-> "observe"])
Next == /\ Len(trace) < Depth
        /\ (\E s \in {seed} : Step(s)) /\ seed' = NextSeed(seed)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* frame condition: operations never change existing objects
Frame == [][Len(pool') > Len(pool) => \A i \in 1..Len(pool) : pool'[i] = pool[i]]_vars
\* setters change one attribute of one object; variables reach only their holders
Local == [][Len(pool') = Len(pool) =>
             \A i, j \in 1..Len(pool) : (pool'[i].S # pool[i].S /\ pool'[j].S # pool[j].S) => i = j]_vars
Emit == Len(trace) = Depth => PrintT("@@" \o ToJson([trace |-> trace]))
=============================================================================
