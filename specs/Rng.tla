-------------------------------- MODULE Rng --------------------------------
(* Pseudo-random choices as pure functions of a seed <<s1, s2>> held in the state, so that every *)
(* behaviour is reproducible and TLC explores exactly one successor per sampled state.           *)
EXTENDS Integers, Sequences, TLC
P1 == 46337
P2 == 46327
Mix(u, p, i) == LET a == (u * 16807 + i * 7919 + 11) % p
                    b == (a * a + 3 * a + i + 1) % p
                IN  (b * 12289 + a + 5) % p
H(s, i) == (Mix(s[1], P1, i % 100000) + Mix(s[2], P2, (i % 100000) + 17)) % 46337
R(s, i, n) == H(s, i + 1) % n                              \* 0 .. n-1
Rng(s, i, lo, hi) == lo + R(s, i, hi - lo + 1)             \* lo .. hi
Pick(s, i, q) == q[1 + R(s, i, Len(q))]                    \* an element of a sequence
Coin(s, i, pct) == R(s, i, 100) < pct
NextSeed(s) == <<(s[1] + 1 + H(s, 90001)) % P1, (s[2] + 1 + H(s, 90002)) % P2>>
Seeds(base, n) == {<<(base * 7919 + 13 * k) % P1, (base * 104729 + 7 * k * k + k) % P2>> : k \in 1..n}
Sub(s, k) == <<(s[1] + 1 + H(s, 80000 + 2 * k)) % P1, (s[2] + 1 + H(s, 80001 + 2 * k)) % P2>>   \* independent sub-stream
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + SumTo(f, n - 1)
=============================================================================
