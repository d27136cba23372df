------------------------------- MODULE Files --------------------------------
(* Saving and loading.                                                                          *)
(*   dir  : for each of two directories, the files it holds: name -> kind and content            *)
(*   live : circuits in memory: a sequence of components in some form, a contraction path and    *)
(*          a revision number that grows with every change made after it was saved               *)
(* A file is a snapshot: whatever happens in memory later, loading it gives the object as it was  *)
(* saved, any number of times, and only a load that removes, or a later save of the same name,    *)
(* touches it.  A refused operation leaves the directories as they were.                          *)
EXTENDS Rng, Json, FiniteSets
CONSTANTS Base, N, Depth
VARIABLES seed, dir, cur, live, paths, trace
vars == <<seed, dir, cur, live, paths, trace>>
Names == <<"a", "b", "a.b", "c d", "a2">>
None == [kind |-> "none", what |-> <<>>]

\* ---- circuits
Classes == << "Coherent", "CoherentB", "Vacuum", "Number", "NumberC", "NumberB", "Thermal", "SqueezedVacuum", "DisplacedSqueezed", "TwoModeSqueezedVacuum",
   "BargmannEigenstate", "QuadratureEigenstate", "Sauron", "GKet", "GDM", "Dgate", "Sgate", "Rgate", "Pgate", "BSgate", "S2gate", "MZgate",
   "MZgateI", "CXgate", "CZgate", "Attenuator", "Amplifier", "FockDamping", "PhaseNoise", "Interferometer", "RealInterferometer", "Ggate",
   "GaussRandNoise", "Identity", "BtoQ", "BtoPS", "BtoChar", "TraceOut", "Ket", "DM", "Channel", "Unitary" >>
\* what the saved object is: as built, a Fock array, a superposition, an adjoint or a dual, the quadrature
\* representation, moved to other modes, with cutoffs set by hand, with batched parameters
Forms == << "plain", "plain", "plain", "plain", "fock", "super", "superfock", "back", "adjoint", "dual", "quad", "on", "cut", "trained" >>
\* data without arrays goes to a plain text file
NoArrays == {"Vacuum", "Identity", "TraceOut"}
Comp(s) == LET c == Pick(s, 1, Classes) IN
           [cls |-> c, m |-> Pick(s, 2, << <<0, 1>>, <<1, 2>>, <<1, 8>>, <<3, 17>>, <<7, 9>> >>), v |-> R(s, 3, 5),
            tr |-> R(s, 4, 4), bd |-> R(s, 5, 4),
            \* a partial trace and phase noise have no representation of their own to turn into another
            form |-> CASE c = "TraceOut" -> Pick(s, 7, <<"plain", "on">>)
                       [] c = "PhaseNoise" -> Pick(s, 7, <<"plain", "on", "trained">>)
                       [] c \in NoArrays -> Pick(s, 7, <<"plain", "plain", "on", "cut", "trained", "fock", "adjoint", "dual">>)
                       [] OTHER -> Pick(s, 7, Forms)]
Plain(cs) == \A i \in 1..Len(cs) : cs[i].cls \in NoArrays /\ cs[i].form \in {"plain", "on", "cut", "trained"}
RandCirc(s) == LET n == Pick(s, 1, <<1, 1, 2, 3>>)
                   text == Coin(s, 3, 12)
               IN [cs |-> [i \in 1..n |-> IF text THEN [Comp(Sub(s, i)) EXCEPT !.cls = Pick(s, 5 + i, <<"Vacuum", "Identity", "TraceOut">>), !.form = "plain"]
                                          ELSE Comp(Sub(s, i))],
                   path |-> R(s, 2, 3), rev |-> 0]
KindOf(c) == IF Plain(c.cs) THEN "json" ELSE "zip"
\* plain records of data and arrays, saved by a class of the user's
RandData(s) == [data |-> Rng(s, 1, -9, 9), arrs |-> R(s, 2, 3), zip |-> Coin(s, 3, 60)]
DataKind(d) == IF d.arrs = 0 THEN "json" ELSE IF d.zip THEN "zip" ELSE "pair"

\* ---- the files that must exist for a name
FilesOf(n, kind) == CASE kind = "none" -> {} [] kind = "json" -> {n \o ".json"} [] kind = "zip" -> {n \o ".zip"} [] OTHER -> {n \o ".json", n \o ".npz"}
Listing(d) == UNION {FilesOf(n, d[n].kind) : n \in DOMAIN d}
Log(op, out) == trace' = Append(trace, [op |-> op, out |-> out, ls |-> [i \in 1..2 |-> Listing(dir'[i])]])

\* ---- actions
\* same name, same kind: replaced; a different kind under a taken name is left out (which of the two files
\* then counts is not promised)
Free(n, kind) == dir[cur][n].kind \in {"none", kind}
NewCirc(c) == /\ live' = Append(live, c) /\ UNCHANGED <<dir, cur, paths>> /\ Log([k |-> "new", c |-> c], "ok")
Save(i, n, sfx) == /\ dir' = [dir EXCEPT ![cur][n] = [kind |-> KindOf(live[i]), what |-> <<"circ", i, live[i].rev>>]]
                   /\ paths' = Append(paths, [d |-> cur, n |-> n, kind |-> KindOf(live[i])])
                   /\ UNCHANGED <<cur, live>>
                   /\ Log([k |-> "save", i |-> i, n |-> n, sfx |-> sfx], "ok")
SaveData(x, n) == /\ dir' = [dir EXCEPT ![cur][n] = [kind |-> DataKind(x), what |-> <<"data", x.data, x.arrs>>]]
                  /\ paths' = Append(paths, [d |-> cur, n |-> n, kind |-> DataKind(x)])
                  /\ UNCHANGED <<cur, live>>
                  /\ Log([k |-> "data", x |-> x, n |-> n], "ok")
\* arrays that share a name with other data are refused before anything is written
SaveBad(n) == UNCHANGED <<dir, cur, live, paths>> /\ Log([k |-> "bad", n |-> n], "refused")
\* the path a save returned leads to whatever file stands there now
Main(kind) == IF kind = "pair" THEN "json" ELSE kind
Live(p) == Main(dir[paths[p].d][paths[p].n].kind) = Main(paths[p].kind)
Load(p, rm) == LET q == paths[p]
                   f == dir[q.d][q.n]
                   ok == Live(p)
               IN /\ dir' = IF ok /\ rm THEN [dir EXCEPT ![q.d][q.n] = None] ELSE dir
                  /\ UNCHANGED <<cur, live, paths>>
                  /\ Log([k |-> "load", p |-> p, rm |-> rm, what |-> f.what], IF ok THEN "ok" ELSE "refused")
\* the active backend is not the one the arrays were saved with
Foreign(p) == LET q == paths[p] IN
              /\ UNCHANGED <<dir, cur, live, paths>>
              /\ Log([k |-> "foreign", p |-> p, what |-> dir[q.d][q.n].what],
                     IF Live(p) /\ dir[q.d][q.n].kind = "json" THEN "ok" ELSE "refused")
\* changes in memory after saving
Mutate(i) == /\ live' = [live EXCEPT ![i].rev = @ + 1] /\ UNCHANGED <<dir, cur, paths>> /\ Log([k |-> "mutate", i |-> i], "ok")
Cd == cur' = 3 - cur /\ UNCHANGED <<dir, live, paths>> /\ Log([k |-> "cd", d |-> 3 - cur], "ok")

RandStep(s) ==
   LET c == R(s, 1, 100)
       i == 1 + R(s, 2, Len(live))
       p == 1 + R(s, 3, Len(paths))
       n == Pick(s, 4, Names)
       x == RandData(Sub(s, 1))
   IN  CASE c < 25 \/ live = <<>> -> NewCirc(RandCirc(Sub(s, 2)))
         [] c < 50 -> IF Free(n, KindOf(live[i])) THEN Save(i, n, Coin(s, 5, 30)) ELSE Mutate(i)
         [] c < 57 -> IF Free(n, DataKind(x)) THEN SaveData(x, n) ELSE SaveBad(n)
         [] c < 60 \/ paths = <<>> -> SaveBad(n)
         [] c < 84 -> Load(p, Coin(s, 6, 30))
         [] c < 88 -> Foreign(p)
         [] c < 95 -> Mutate(i)
         [] OTHER -> Cd

Init == /\ seed \in Seeds(Base, N)
        /\ dir = [d \in 1..2 |-> [n \in {Names[i] : i \in 1..Len(Names)} |-> None]]
        /\ cur = 1 /\ live = <<>> /\ paths = <<>> /\ trace = <<>>
Next == /\ Len(trace) < Depth
        /\ \E s \in {seed} : RandStep(s)
        /\ seed' = NextSeed(seed)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* a file is only ever the result of the last save of its name, and never from the future
Snapshot == \A d \in 1..2 : \A n \in DOMAIN dir[d] :
   LET f == dir[d][n] IN f.kind # "none" => \/ f.what[1] = "data"
                                            \/ f.what[2] <= Len(live) /\ f.what[3] <= live[f.what[2]].rev /\ f.kind = KindOf(live[f.what[2]])
\* no operation touches a file other than the one it names; refused ones and changes in memory touch none
Local == [][ trace' # trace =>
   LET t == trace'[Len(trace')] IN
   /\ (t.out = "refused" \/ t.op.k \in {"new", "mutate", "cd", "foreign"}) => dir' = dir
   /\ Cardinality({<<d, n>> \in (1..2) \X DOMAIN dir[1] : dir'[d][n] # dir[d][n]}) <= 1
   /\ (t.op.k = "load" /\ ~t.op.rm) => dir' = dir ]_vars
\* file names of different objects never collide
NoClash == \A d \in 1..2 : \A n, m \in DOMAIN dir[d] : n # m => FilesOf(n, dir[d][n].kind) \cap FilesOf(m, dir[d][m].kind) = {}
Emit == Len(trace) = Depth => PrintT("@@" \o ToJson([trace |-> trace]))
=============================================================================
