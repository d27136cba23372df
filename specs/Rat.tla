-------------------------------- MODULE Rat --------------------------------
(* Exact rationals <<numerator, denominator>> in lowest terms.  Bad (0/0) stands for a number too large for    *)
(* TLC's integers; it absorbs everything, so a result without Bad is exact.                                    *)
EXTENDS Integers, Sequences, TLC
LIM == 1000000000
Bad == <<0, 0>>
Zero == <<0, 1>>
One == <<1, 1>>
I(n) == <<n, 1>>
IsBad(a) == a[2] = 0
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fits(a, b) == a = 0 \/ Abs(b) <= LIM \div Abs(a)
Neg(a) == <<-a[1], a[2]>>
Mul(a, b) ==
  IF a[2] = 0 \/ b[2] = 0 THEN Bad
  ELSE IF a[1] = 0 \/ b[1] = 0 THEN Zero
  ELSE IF a = One THEN b ELSE IF b = One THEN a
  ELSE LET g == Gcd(Abs(a[1]), b[2])
           h == Gcd(Abs(b[1]), a[2])
           an == a[1] \div g  bd == b[2] \div g
           bn == b[1] \div h  ad == a[2] \div h
       IN  IF Fits(an, bn) /\ Fits(ad, bd) THEN <<an * bn, ad * bd>> ELSE Bad
Add(a, b) ==
  IF a[2] = 0 \/ b[2] = 0 THEN Bad
  ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[2] = 1 /\ b[2] = 1 THEN (IF Abs(a[1] + b[1]) <= LIM THEN <<a[1] + b[1], 1>> ELSE Bad)
  ELSE LET g == Gcd(a[2], b[2])
           x == b[2] \div g
           y == a[2] \div g
       IN  IF ~(Fits(a[1], x) /\ Fits(b[1], y) /\ Fits(a[2], x)) THEN Bad
           ELSE LET n == a[1] * x + b[1] * y
                    d == a[2] * x
                    f == Gcd(Abs(n), d)
                IN  IF n = 0 THEN Zero ELSE IF Abs(n) > LIM THEN Bad ELSE <<n \div f, d \div f>>
Sub2(a, b) == Add(a, Neg(b))
Inv(a) == IF a[1] = 0 THEN Bad ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Div(a, b) == IF a[2] = 0 \/ b[2] = 0 THEN Bad ELSE Mul(a, Inv(b))
Less(a, b) == LET d == Sub2(a, b) IN d[1] < 0          \* FALSE when out of range
Q(n, d) == LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
RECURSIVE SumR(_, _)
SumR(f(_), n) == IF n = 0 THEN Zero ELSE Add(SumR(f, n - 1), f(n))
(* matrices as sequences of rows *)
Rows(M) == Len(M)
Ident(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN One ELSE Zero]])
ZeroM(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> Zero]])
ZeroV(n) == TLCEval([i \in 1..n |-> Zero])
MatMul(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(B[1]) |->
                  LET t(k) == IF A[i][k][1] = 0 /\ A[i][k][2] = 1 THEN Zero ELSE Mul(A[i][k], B[k][j]) IN SumR(t, Len(B))])])
Transp(A) == TLCEval([i \in 1..Len(A[1]) |-> [j \in 1..Len(A) |-> A[j][i]]])
MatAdd(A, B) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> Add(A[i][j], B[i][j])])])
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> LET t(k) == Mul(A[i][k], v[k]) IN SumR(t, Len(v))])
VecAdd(u, v) == TLCEval([i \in 1..Len(u) |-> Add(u[i], v[i])])
Scale(q, A) == TLCEval([i \in 1..Len(A) |-> TLCEval([j \in 1..Len(A[1]) |-> Mul(q, A[i][j])])])
ScaleV(q, v) == TLCEval([i \in 1..Len(v) |-> Mul(q, v[i])])
OkV(v) == \A i \in 1..Len(v) : v[i][2] # 0
OkM(A) == \A i \in 1..Len(A) : OkV(A[i])
=============================================================================
