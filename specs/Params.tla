------------------------------- MODULE Params -------------------------------
(* Named parameters, the sets that register them and the components that read them.             *)
(*   par  : the parameter objects (shared by identity between sets, components and users)        *)
(*   set  : registries: two insertion-ordered groups of references, at most one per name         *)
(*   comp : components: a registry plus a representation, which is either live (a function of    *)
(*          the current values) or a snapshot of the values at some earlier step                  *)
EXTENDS Rng, Json
CONSTANTS Base, N, Depth, Alphabet, Jax

VARIABLES seed, par, set, comp, trace
vars == <<seed, par, set, comp, trace>>

Upd == <<"update_euclidean", "update_symplectic", "update_orthogonal", "update_unitary">>
None == "none"
\* values: integers (scalars) or sequences of 2 or 3 integers (batches); the replay maps them injectively
\* to legal values of the parameter at hand
P(kind, name, val, lo, hi, upd) == [kind |-> kind, name |-> name, val |-> val, lo |-> lo, hi |-> hi, upd |-> upd]
IsArr(v) == v.b > 0
Sc(n) == [b |-> 0, v |-> <<n>>]
Ar(q) == [b |-> Len(q), v |-> q]

\* ---- the library's parametrised components: constructor arguments in order and how training updates them
A1(n) == [n |-> n, u |-> "update_euclidean", d |-> <<None, None>>]
AB(n, lo, hi) == [n |-> n, u |-> "update_euclidean", d |-> <<lo, hi>>]
Classes == <<
  [c |-> "Dgate", m |-> 1, a |-> <<AB("alpha", "0", None)>>],
  [c |-> "Sgate", m |-> 1, a |-> <<AB("r", "0", None), A1("phi")>>],
  [c |-> "Rgate", m |-> 1, a |-> <<AB("theta", "0", None)>>],
  [c |-> "Pgate", m |-> 1, a |-> <<A1("shearing")>>],
  [c |-> "BSgate", m |-> 2, a |-> <<A1("theta"), A1("phi")>>],
  [c |-> "S2gate", m |-> 2, a |-> <<AB("r", "0", None), A1("phi")>>],
  [c |-> "MZgate", m |-> 2, a |-> <<A1("phi_a"), A1("phi_b")>>],
  [c |-> "CXgate", m |-> 2, a |-> <<A1("s")>>],
  [c |-> "CZgate", m |-> 2, a |-> <<A1("s")>>],
  [c |-> "Attenuator", m |-> 1, a |-> <<AB("transmissivity", "0", "1")>>],
  [c |-> "Amplifier", m |-> 1, a |-> <<AB("gain", "1", None)>>],
  [c |-> "FockDamping", m |-> 1, a |-> <<AB("damping", "0", None)>>],
  [c |-> "PhaseNoise", m |-> 1, a |-> <<AB("phase_stdev", "0", None)>>],
  [c |-> "Coherent", m |-> 1, a |-> <<AB("alpha", "0", None)>>],
  [c |-> "SqueezedVacuum", m |-> 1, a |-> <<A1("r"), A1("phi")>>],
  [c |-> "DisplacedSqueezed", m |-> 1, a |-> <<AB("alpha", "0", None), A1("r"), A1("phi")>>],
  [c |-> "TwoModeSqueezedVacuum", m |-> 2, a |-> <<A1("r"), A1("phi")>>],
  [c |-> "Thermal", m |-> 1, a |-> <<AB("nbar", "0", None)>>],
  [c |-> "BargmannEigenstate", m |-> 1, a |-> <<A1("alpha")>>],
  [c |-> "QuadratureEigenstate", m |-> 1, a |-> <<A1("x"), A1("phi")>>],
  [c |-> "Ggate", m |-> 1, a |-> <<[n |-> "symplectic", u |-> "update_symplectic", d |-> <<None, None>>]>>],
  [c |-> "Interferometer", m |-> 2, a |-> <<[n |-> "unitary", u |-> "update_unitary", d |-> <<None, None>>]>>],
  [c |-> "RealInterferometer", m |-> 2, a |-> <<[n |-> "orthogonal", u |-> "update_orthogonal", d |-> <<None, None>>]>>],
  [c |-> "GaussRandNoise", m |-> 1, a |-> <<[n |-> "Y", u |-> "update_euclidean", d |-> <<None, None>>]>>] >>
Matrix(cls) == cls.c \in {"Ggate", "Interferometer", "RealInterferometer", "GaussRandNoise"}
Cls(name) == Classes[CHOOSE i \in 1..Len(Classes) : Classes[i].c = name]

\* ---- registries
Empty == [c |-> <<>>, v |-> <<>>, n |-> <<>>]
NamesOf(s, ps) == {ps[s.c[i]].name : i \in 1..Len(s.c)} \cup {ps[s.v[i]].name : i \in 1..Len(s.v)}
Ids(s) == s.c \o s.v
Has(s, ps, name) == name \in NamesOf(s, ps)
Put(s, ps, p) == [c |-> IF ps[p].kind = "c" THEN Append(s.c, p) ELSE s.c,
                  v |-> IF ps[p].kind = "v" THEN Append(s.v, p) ELSE s.v,
                  n |-> Append(s.n, ps[p].name)]
RECURSIVE PutAll(_, _, _)
PutAll(s, ps, q) == IF q = <<>> THEN s ELSE PutAll(Put(s, ps, Head(q)), ps, Tail(q))
ByName(s, ps, name) == LET i == CHOOSE i \in 1..Len(Ids(s)) : ps[Ids(s)[i]].name = name IN Ids(s)[i]

\* what an outside observer must see
Obs(ps, ss, cs) ==
  [sets |-> [i \in 1..Len(ss) |-> [c |-> [k \in 1..Len(ss[i].c) |-> ss[i].c[k]], v |-> ss[i].v, n |-> ss[i].n]],
   vals |-> [i \in 1..Len(ps) |-> ps[i].val],
   reps |-> [i \in 1..Len(cs) |-> IF cs[i].live
                THEN LET a == Cls(cs[i].cls).a IN [k \in 1..Len(a) |-> ps[ByName(ss[cs[i].set], ps, a[k].n)].val]
                ELSE cs[i].snap]]
Log(op, out) == trace' = Append(trace, [op |-> op, out |-> out, obs |-> Obs(par', set', comp')])
News(ps, k) == [i \in 1..k |-> ps[Len(ps) - k + i]]

\* ---- actions
NewPar(p) == /\ par' = Append(par, p) /\ UNCHANGED <<set, comp>> /\ Log([k |-> "par", p |-> p], "ok")
\* a variable on a matrix group, from a given element or (v = -1) from a random one
NewMat(u, v, nm) == /\ par' = Append(par, P("v", "m", Sc(v), None, None, u)) /\ UNCHANGED <<set, comp>>
                    /\ Log([k |-> "mat", u |-> u, v |-> v, m |-> nm], "ok")
NewSet == /\ set' = Append(set, Empty) /\ UNCHANGED <<par, comp>> /\ Log([k |-> "set"], "ok")
Add(s, p) == IF Has(set[s], par, par[p].name)
             THEN UNCHANGED <<par, set, comp>> /\ Log([k |-> "add", s |-> s, p |-> p], "refused")
             ELSE /\ set' = [set EXCEPT ![s] = Put(@, par, p)] /\ UNCHANGED <<par, comp>>
                  /\ Log([k |-> "add", s |-> s, p |-> p], "ok")
\* assignment: via the object itself or via any registry that lists it (how is the observer's choice)
AssignTo(p, v, via) == IF par[p].kind = "c"
             THEN UNCHANGED <<par, set, comp>> /\ Log([k |-> "assign", p |-> p, v |-> v, via |-> via], "refused")
             ELSE /\ par' = [par EXCEPT ![p].val = v] /\ UNCHANGED <<set, comp>>
                  /\ Log([k |-> "assign", p |-> p, v |-> v, via |-> via], "ok")
\* a scaled copy of a parameter is a new parameter with the same name, kind, bounds and update rule
Scale(p, k, side) == /\ par' = Append(par, [par[p] EXCEPT !.val = [@ EXCEPT !.v = [i \in 1..Len(@) |-> k * @[i]]]])
                     /\ UNCHANGED <<set, comp>> /\ Log([k |-> "scale", p |-> p, by |-> k, side |-> side], "ok")
\* slicing: scalars are shared, arrays are gathered into new parameters
RECURSIVE SliceQ(_, _, _)
SliceQ(q, idx, ps) == IF q = <<>> THEN [q |-> <<>>, ps |-> ps]
   ELSE LET p == ps[Head(q)]
            new == IsArr(p.val)
            ps2 == IF new THEN Append(ps, [p EXCEPT !.val = Ar([i \in 1..Len(idx) |-> p.val.v[idx[i]]]),
                                                     !.upd = IF p.kind = "c" THEN "" ELSE @]) ELSE ps
            id == IF new THEN Len(ps2) ELSE Head(q)
            r == SliceQ(Tail(q), idx, ps2)
        IN [q |-> <<id>> \o r.q, ps |-> r.ps]
MinLen(s) == LET L == {Len(par[i].val.v) : i \in {j \in 1..Len(par) : IsArr(par[j].val) /\ \E k \in 1..Len(Ids(set[s])) : Ids(set[s])[k] = j}} \cup {3}
             IN CHOOSE x \in L : \A y \in L : x <= y
Slice(s, idx0) == LET idx == [i \in 1..Len(idx0) |-> 1 + ((idx0[i] - 1) % MinLen(s))]
                      c == SliceQ(set[s].c, idx, par)
                     v == SliceQ(set[s].v, idx, c.ps)
                 IN /\ par' = v.ps
                    /\ set' = Append(set, [c |-> c.q, v |-> v.q, n |-> [i \in 1..Len(c.q \o v.q) |-> v.ps[(c.q \o v.q)[i]].name]])
                    /\ UNCHANGED comp
                    /\ Log([k |-> "slice", s |-> s, idx |-> idx], "ok")

\* building a component: each argument is a raw value (a new parameter is made) or an existing parameter object
RECURSIVE Args(_, _, _, _)
Args(a, spec, ps, acc) ==
   IF a = <<>> THEN [ids |-> acc, ps |-> ps]
   ELSE LET g == Head(spec)
        IN IF g.use > 0 THEN Args(Tail(a), Tail(spec), ps, Append(acc, g.use))
           ELSE LET p == P(IF g.tr THEN "v" ELSE "c", Head(a).n, g.val,
                           IF g.bd = <<>> THEN Head(a).d[1] ELSE g.bd[1], IF g.bd = <<>> THEN Head(a).d[2] ELSE g.bd[2],
                           IF g.tr THEN Head(a).u ELSE "")
                IN Args(Tail(a), Tail(spec), Append(ps, p), Append(acc, Len(ps) + 1))
Build(cls, spec) == LET r == Args(cls.a, spec, par, <<>>)
                    IN /\ par' = r.ps
                       /\ set' = Append(set, PutAll(Empty, r.ps, r.ids))
                       /\ comp' = Append(comp, [cls |-> cls.c, set |-> Len(set) + 1, live |-> TRUE, snap |-> <<>>, how |-> "built"])
                       /\ Log([k |-> "build", cls |-> cls.c, m |-> cls.m, args |-> spec], "ok")
CurVals(c) == Obs(par, set, comp).reps[c]
\* a light copy shares registry and representation
On(c) == /\ comp' = Append(comp, [comp[c] EXCEPT !.how = "on"]) /\ UNCHANGED <<par, set>>
         /\ Log([k |-> "on", c |-> c], "ok")
\* adjoint and dual: the same parameter objects, listed in a registry of their own
Derive(c, how) == /\ set' = Append(set, PutAll(Empty, par, Ids(set[comp[c].set])))
                  /\ comp' = Append(comp, [cls |-> comp[c].cls, set |-> Len(set) + 1, live |-> FALSE, snap |-> CurVals(c), how |-> how])
                  /\ UNCHANGED par
                  /\ Log([k |-> "derive", c |-> c, how |-> how], "ok")
\* rebuilt from its dictionary of parameters (also what a representation change does): new, equal parameters
Rebuild(c, how) == LET ids == [k \in 1..Len(Cls(comp[c].cls).a) |-> ByName(set[comp[c].set], par, Cls(comp[c].cls).a[k].n)]
                       ps == par \o [k \in 1..Len(ids) |-> par[ids[k]]]
                       new == [k \in 1..Len(ids) |-> Len(par) + k]
                   IN /\ par' = ps
                      /\ set' = Append(set, PutAll(Empty, ps, new))
                      /\ comp' = Append(comp, [cls |-> comp[c].cls, set |-> Len(set) + 1, live |-> how = "dict", snap |-> CurVals(c), how |-> how])
                      /\ Log([k |-> "rebuild", c |-> c, how |-> how], "ok")
\* flattened to a tree of variables and rebuilt, as the optimizer does: new variables, equal in everything
Roundtrip(c) == LET s == set[comp[c].set]
                    ps == par \o [k \in 1..Len(s.v) |-> par[s.v[k]]]
                IN /\ par' = ps
                   /\ set' = Append(set, [s EXCEPT !.v = [k \in 1..Len(s.v) |-> Len(par) + k]])
                   /\ comp' = Append(comp, [comp[c] EXCEPT !.set = Len(set) + 1, !.how = "tree"])
                   /\ Log([k |-> "tree", c |-> c], "ok")

\* ---- drivers
Names4 == <<"a", "b", "x", "theta">>
RandVal(s, i) == LET n == R(s, i, 100) IN IF n < 70 THEN Sc(R(s, i + 1, 8)) ELSE Ar([k \in 1..3 |-> R(s, i + 1 + k, 8)])
RandBd(s, i) == CASE R(s, i, 3) = 0 -> <<None, None>> [] R(s, i, 3) = 1 -> <<"0", None>> [] OTHER -> <<"-1", "5">>
RandPar(s) == LET name == Pick(s, 11, IF Coin(s, 12, 40) THEN <<"theta", "phi", "r", "alpha">> ELSE Names4)
                  v == Coin(s, 13, 60)
                  bd == RandBd(s, 14)
              IN IF v THEN P("v", name, RandVal(s, 20), bd[1], bd[2], IF Coin(s, 15, 30) THEN Pick(s, 16, Upd) ELSE "update_euclidean")
                 ELSE P("c", name, RandVal(s, 20), None, None, "")
Usable(cls, k) == {p \in 1..Len(par) : par[p].name = cls.a[k].n /\ ~Matrix(cls) /\ par[p].upd \in {"", "update_euclidean"}
                                         /\ (~IsArr(par[p].val) \/ Len(par[p].val.v) = 3)
                                         /\ \A i \in 1..Len(par[p].val.v) : par[p].val.v[i] < 8}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RandArg(s, cls, k, arr) ==
   LET U == Usable(cls, k)
       v == RandVal(s, 30 + 10 * k)
   IN [use |-> IF U # {} /\ Coin(s, 25 + k, 60) THEN (IF Coin(s, 28 + k, 50) THEN MinOf(U) ELSE CHOOSE x \in U : \A y \in U : y <= x) ELSE 0,
       val |-> IF Matrix(cls) \/ cls.c = "PhaseNoise" THEN Sc(v.v[1]) ELSE v,
       tr |-> Coin(s, 40 + k, 60),
       bd |-> IF Matrix(cls) \/ Coin(s, 50 + k, 50) THEN <<>> ELSE RandBd(s, 60 + k)]
\* a component stays meaningful when its arrays have one common length
LegalVal(p, v) == IF par[p].name \in {"m", "symplectic", "unitary", "orthogonal", "Y", "phase_stdev"} THEN Sc(v.v[1]) ELSE v
CompsWith(live) == {c \in 1..Len(comp) : comp[c].live = live}
RandStep(s) ==
   LET c == R(s, 2, 100)
       sid == 1 + R(s, 3, Len(set))
       pid == 1 + R(s, 4, Len(par))
       cid == 1 + R(s, 5, Len(comp))
       cls == Classes[1 + R(s, 6, Len(Classes))]
       freeset == {i \in 1..Len(set) : \A k \in 1..Len(comp) : comp[k].set # i}
       vars0 == {i \in 1..Len(par) : par[i].kind = "v"}
       live == CompsWith(TRUE)
       mat(p) == par[p].name \in {"m", "symplectic", "unitary", "orthogonal", "Y"}
   IN  CASE c < 12 \/ Len(par) = 0 -> NewPar(RandPar(s))
         [] c < 13 -> NewMat(Upd[2 + R(s, 17, 3)], R(s, 18, 4) - 1, 1 + R(s, 19, 2))
         [] c < 15 \/ Len(set) = 0 -> NewSet
         [] c < 32 -> IF mat(pid) \/ freeset = {} THEN NewSet ELSE Add(IF sid \in freeset THEN sid ELSE CHOOSE x \in freeset : \A y \in freeset : x >= y, pid)
         [] c < 55 -> LET q == IF vars0 # {} /\ Coin(s, 15, 85) THEN LET r == R(s, 16, Len(par)) + 1
                                                                     IN CHOOSE x \in vars0 : \A y \in vars0 : (x - r) * (x - r) <= (y - r) * (y - r)
                               ELSE pid
                      IN AssignTo(q, LegalVal(q, RandVal(s, 30)), R(s, 31, 8))
         [] c < 58 -> IF mat(pid) \/ par[pid].name \in {"gain", "phase_stdev"} THEN NewSet ELSE Scale(pid, 1 + R(s, 33, 3), R(s, 34, 2))
         [] c < 64 /\ freeset # {} ->
               Slice(CHOOSE x \in freeset : \A y \in freeset : x >= y,
                     LET k == 1 + R(s, 35, 3) IN [i \in 1..k |-> 1 + R(s, 35 + i, 3)])
         [] c < 82 \/ Len(comp) = 0 -> Build(cls, [k \in 1..Len(cls.a) |-> RandArg(s, cls, k, 0)])
         [] c < 86 -> On(cid)
         [] c < 90 -> IF comp[cid].live /\ comp[cid].cls # "PhaseNoise" THEN Derive(cid, Pick(s, 41, <<"adjoint", "dual">>)) ELSE On(cid)
         [] c < 95 -> IF comp[cid].live /\ ~Matrix(Cls(comp[cid].cls)) /\ comp[cid].cls # "PhaseNoise"
                      THEN Rebuild(cid, Pick(s, 42, <<"dict", "fock", "fock">>)) ELSE On(cid)
         [] OTHER -> IF Jax /\ comp[cid].live /\ comp[cid].cls # "PhaseNoise" THEN Roundtrip(cid) ELSE On(cid)
\* the registries on their own, every history: two names, both kinds, two sets
SmallPars == << P("c", "a", Sc(1), None, None, ""), P("v", "a", Sc(2), None, None, "update_euclidean"),
                P("v", "b", Ar(<<3, 4, 5>>), None, None, "update_euclidean"), P("c", "b", Ar(<<6, 7, 1>>), None, None, "") >>
AllStep == \/ \E s \in 1..2, p \in 1..4 : Add(s, p)
           \/ \E p \in 1..4 : AssignTo(p, par[p].val, 0) /\ par[p].kind = "c"
           \/ \E p \in 2..3 : AssignTo(p, Ar(<<7, 7, 2>>), 1)
           \/ \E i \in {<<1>>, <<3, 2>>} : Slice(1, i)
           \/ Len(set) > 2 /\ Add(Len(set), 1)

Init == /\ seed \in Seeds(Base, N)
        /\ IF Alphabet = "all" THEN par = SmallPars /\ set = <<Empty, Empty>> ELSE par = <<>> /\ set = <<>>
        /\ comp = <<>> /\ trace = <<>>
Next == /\ Len(trace) < Depth
        /\ \/ Alphabet = "all" /\ AllStep /\ UNCHANGED seed
           \/ Alphabet # "all" /\ (\E s \in {seed} : RandStep(s)) /\ seed' = NextSeed(seed)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* every registry lists every parameter once, in the right group, and names are unique
Consistent == \A i \in 1..Len(set) :
   LET s == set[i] IN
   /\ \A k \in 1..Len(s.c) : par[s.c[k]].kind = "c"
   /\ \A k \in 1..Len(s.v) : par[s.v[k]].kind = "v"
   /\ Len(s.n) = Len(s.c) + Len(s.v)
   /\ \A j, k \in 1..Len(s.n) : j # k => s.n[j] # s.n[k]
   /\ {s.n[k] : k \in 1..Len(s.n)} = NamesOf(s, par)
   \* the order of names restricted to a group is the order of the group
   /\ \A j, k \in 1..Len(s.n) : j < k => \A a, b \in 1..Len(s.c) :
         (par[s.c[a]].name = s.n[j] /\ par[s.c[b]].name = s.n[k]) => a < b
   /\ \A j, k \in 1..Len(s.n) : j < k => \A a, b \in 1..Len(s.v) :
         (par[s.v[a]].name = s.n[j] /\ par[s.v[b]].name = s.n[k]) => a < b
\* registries only grow, constants never change, a refused step changes nothing
Grow == [][ /\ \A i \in 1..Len(set) : SubSeq(set'[i].n, 1, Len(set[i].n)) = set[i].n
            /\ \A i \in 1..Len(par) : par'[i].kind = par[i].kind /\ par'[i].name = par[i].name
                                       /\ (par[i].kind = "c" => par'[i] = par[i])
            /\ (trace' # trace /\ trace'[Len(trace')].out = "refused") => par' = par /\ set' = set /\ comp' = comp ]_vars
Emit == Len(trace) = Depth => PrintT("@@" \o ToJson([pars |-> par, comps |-> comp, trace |-> trace,
                                                      init |-> IF Alphabet = "all" THEN 1 ELSE 0]))
=============================================================================
