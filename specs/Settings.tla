------------------------------ MODULE Settings ------------------------------
(* The settings object as a machine: current values, a stack of open contexts (one frame each,  *)
(* remembering the values its named settings had on entry) and the random stream, which is a    *)
(* function of the seed and of the draws made since it was set.                                 *)
EXTENDS Rng, Json
CONSTANTS Base, N, Depth,
          NS,        \* number of settings
          NV,        \* values per setting: 0 (initial) .. NV-1
          SeedI,     \* which setting is SEED (0: none in this instance)
          CacheI,    \* which setting is CACHE_DIR (0: none)
          Kinds,     \* number of kinds of random draws
          Alphabet   \* "random": all actions, chosen by the seed;  "all": every action of the small alphabet

VARIABLES seed, vals, frames, stream, toks, trace
vars == <<seed, vals, frames, stream, toks, trace>>

Names(kw) == {kw[i][1] : i \in 1..Len(kw)}
ValueIn(kw, n) == kw[CHOOSE i \in 1..Len(kw) : kw[i][1] = n][2]
Assign(vs, kw) == [n \in 1..NS |-> IF n \in Names(kw) THEN ValueIn(kw, n) ELSE vs[n]]
\* a seed, whenever it is assigned, restarts the stream
Restart(st, kw) == IF SeedI \in Names(kw) THEN <<ValueIn(kw, SeedI), <<>>>> ELSE st
Saved(vs, kw) == [i \in 1..Len(kw) |-> <<kw[i][1], vs[kw[i][1]]>>]

Log(op, out) == Append(trace, [op |-> op, out |-> out, vals |-> vals', depth |-> Len(frames'), stream |-> stream'])

Set(n, v) == /\ vals' = Assign(vals, <<<<n, v>>>>)
             /\ stream' = Restart(stream, <<<<n, v>>>>)
             /\ UNCHANGED <<frames, toks>>
             /\ trace' = Log([k |-> "set", n |-> n, v |-> v], "ok")
\* SEED = None: some fresh seed, unknown here and never used before
SetNone == /\ toks' = toks + 1
           /\ vals' = [vals EXCEPT ![SeedI] = 100 + toks]
           /\ stream' = <<100 + toks, <<>>>>
           /\ UNCHANGED frames
           /\ trace' = Log([k |-> "none"], "ok")
Enter(kw) == /\ frames' = Append(frames, [saved |-> Saved(vals, kw), all |-> vals])
             /\ vals' = Assign(vals, kw)
             /\ stream' = Restart(stream, kw)
             /\ UNCHANGED toks
             /\ trace' = Log([k |-> "enter", kw |-> kw], "ok")
\* settings(...) called but not entered: an assignment of several settings
Call(kw) == /\ vals' = Assign(vals, kw) /\ stream' = Restart(stream, kw) /\ UNCHANGED <<frames, toks>>
            /\ trace' = Log([k |-> "call", kw |-> kw], "ok")
RECURSIVE Unwind(_, _, _, _)
Unwind(vs, st, fs, k) ==
   IF k = 0 THEN <<vs, st, fs>>
   ELSE LET f == fs[Len(fs)] IN Unwind(Assign(vs, f.saved), Restart(st, f.saved), SubSeq(fs, 1, Len(fs) - 1), k - 1)
Leave(how, k) == /\ Len(frames) >= k /\ k > 0
                 /\ LET u == Unwind(vals, stream, frames, k)
                    IN  vals' = u[1] /\ stream' = u[2] /\ frames' = u[3]
                 /\ UNCHANGED toks
                 /\ trace' = Log([k |-> how, n |-> k], "ok")
\* rejected requests change nothing; those that name SEED may restart its stream when they roll back
Reject(kind, kw) == /\ SeedI \notin Names(kw)
                    /\ UNCHANGED <<vals, frames, stream, toks>>
                    /\ trace' = Log([k |-> kind, kw |-> kw], "error")
Draw(kind) == /\ stream' = <<stream[1], Append(stream[2], kind)>>
              /\ UNCHANGED <<vals, frames, toks>>
              /\ trace' = Log([k |-> "draw", n |-> kind], "ok")
SeededDraw(kind, s) == /\ UNCHANGED <<vals, frames, stream, toks>>
                       /\ trace' = Log([k |-> "sdraw", n |-> kind, v |-> s], "ok")

Init == /\ seed \in Seeds(Base, N)
        /\ vals = [n \in 1..NS |-> 0] /\ frames = <<>> /\ stream = <<0, <<>>>> /\ toks = 0 /\ trace = <<>>

\* distinct settings with values, as keyword arguments
RECURSIVE RandKw(_, _, _)
RandKw(s, i, k) == IF k = 0 THEN <<>>
                   ELSE LET rest == RandKw(s, i + 1, k - 1)
                            n == Rng(s, 40 + i, 1, NS)
                            n2 == IF SeedI > 0 /\ Coin(s, 70 + i, 12) THEN SeedI ELSE n
                        IN IF n2 \in Names(rest) THEN rest ELSE Append(rest, <<n2, R(s, 60 + i, NV)>>)
NoSeed(kw) == SelectSeq(kw, LAMBDA p : p[1] # SeedI /\ p[1] # CacheI)
RandStep(s) ==
   LET kw == RandKw(s, 0, Rng(s, 1, 1, 3))
       c == R(s, 2, 100)
   IN  CASE c < 18 -> Set(kw[1][1], kw[1][2])
         [] c < 43 /\ Len(frames) < 5 -> Enter(kw)
         [] c < 48 -> Call(kw)
         [] c < 62 /\ Len(frames) > 0 -> Leave("exit", 1)
         [] c < 70 /\ Len(frames) > 0 -> Leave("raise", Rng(s, 3, 1, Len(frames)))
         [] c < 74 -> Reject("unknown", NoSeed(kw))
         [] c < 78 -> Reject("callunknown", NoSeed(kw))
         [] c < 81 /\ CacheI > 0 -> Reject("badvalue", <<>>)
         [] c < 86 /\ CacheI > 0 -> Reject("callbad", NoSeed(kw))
         [] c < 88 /\ SeedI > 0 -> SetNone
         [] c < 96 \/ SeedI = 0 -> Draw(R(s, 4, Kinds))
         [] OTHER -> SeededDraw(R(s, 4, Kinds), R(s, 5, 3))
AllStep ==
   \/ \E n \in 1..NS, v \in 1..NV-1 : Set(n, v)
   \/ \E n \in 1..NS, v \in 1..NV-1 : Enter(<<<<n, v>>>>)
   \/ NS > 1 /\ Enter(<<<<1, NV - 1>>, <<2, 1>>>>)
   \/ Len(frames) > 0 /\ Leave("exit", 1)
   \/ Len(frames) > 0 /\ Leave("raise", Len(frames))
   \/ Reject("callunknown", <<<<1, 1>>>>)
   \/ SeedI > 0 /\ Draw(0)

Next == /\ Len(trace) < Depth
        /\ \/ Alphabet = "random" /\ (\E s \in {seed} : RandStep(s)) /\ seed' = NextSeed(seed)
           \/ Alphabet = "all" /\ AllStep /\ UNCHANGED seed
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ \A n \in 1..NS : vals[n] \in 0..NV-1 \cup {100 + k : k \in 0..toks}
          /\ SeedI > 0 => stream[1] = vals[SeedI]          \* the stream always belongs to the current seed
\* the frames stacked up allow undoing everything: leaving all contexts restores each named setting
\* to the value it had when the outermost context naming it was entered, and touches nothing else
FullUnwind == LET u == Unwind(vals, stream, frames, Len(frames))[1]
              IN \A n \in 1..NS :
                   LET naming == {i \in 1..Len(frames) : n \in Names(frames[i].saved)}
                   IN IF naming = {} THEN u[n] = vals[n]
                      ELSE u[n] = frames[CHOOSE i \in naming : \A j \in naming : i <= j].all[n]
\* as an action: leaving one context restores exactly its own names
LeaveOne == [][Len(frames') = Len(frames) - 1 =>
                 \A n \in 1..NS : vals'[n] = IF n \in Names(frames[Len(frames)].saved)
                                             THEN frames[Len(frames)].all[n] ELSE vals[n]]_vars
Emit == Len(trace) = Depth => PrintT("@@" \o ToJson([trace |-> trace]))
=============================================================================
