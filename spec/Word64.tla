------------------------------- MODULE Word64 -------------------------------
(* Exact 64-bit unsigned numbers as four 16-bit digits, most significant     *)
(* first (TLC's own integers have 32 bits).                                  *)
LOCAL INSTANCE Integers
B == 65536
Zero == <<0, 0, 0, 0>>
One == <<0, 0, 0, 1>>
Top == <<B - 1, B - 1, B - 1, B - 1>>
Num(n) == <<0, 0, n \div B, n % B>>
Leq(x, y) == \/ x = y
             \/ \E j \in 1..4 : x[j] < y[j] /\ \A i \in 1..(j - 1) : x[i] = y[i]
Less(x, y) == x # y /\ Leq(x, y)
\* carries out of each digit
C4(x, y) == IF x[4] + y[4] >= B THEN 1 ELSE 0
C3(x, y) == IF x[3] + y[3] + C4(x, y) >= B THEN 1 ELSE 0
C2(x, y) == IF x[2] + y[2] + C3(x, y) >= B THEN 1 ELSE 0
C1(x, y) == IF x[1] + y[1] + C2(x, y) >= B THEN 1 ELSE 0
Fits(x, y) == C1(x, y) = 0
\* sum modulo 2^64
Plus(x, y) == <<(x[1] + y[1] + C2(x, y)) % B, (x[2] + y[2] + C3(x, y)) % B, (x[3] + y[3] + C4(x, y)) % B, (x[4] + y[4]) % B>>
Not(x) == [j \in 1..4 |-> B - 1 - x[j]]
Minus(x, y) == Plus(Plus(x, Not(y)), One)          \* difference modulo 2^64
=============================================================================
