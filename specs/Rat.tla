-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic: a rational is <<num, den>>, den > 0, reduced. *)
EXTENDS Util
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN (IF a < 0 THEN -a ELSE a) ELSE Gcd(b, a % b)
Norm(n, d) == IF n = 0 THEN <<0, 1>>
              ELSE LET nn == IF d < 0 THEN -n ELSE n
                       dd == IF d < 0 THEN -d ELSE d
                       g  == Gcd(IF nn < 0 THEN -nn ELSE nn, dd)
                   IN <<nn \div g, dd \div g>>
R(n) == <<n, 1>>
Zero == <<0, 1>>
RNeg(a) == <<-a[1], a[2]>>
RAdd(a, b) == IF a[2] = b[2] THEN (IF a[2] = 1 THEN <<a[1] + b[1], 1>> ELSE Norm(a[1] + b[1], a[2]))
              ELSE LET g == Gcd(a[2], b[2])
                   IN Norm(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[2] = 1 /\ b[2] = 1 THEN <<a[1] * b[1], 1>>
              ELSE LET x == Norm(a[1], b[2])  y == Norm(b[1], a[2]) IN <<x[1] * y[1], x[2] * y[2]>>
RInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
Norm1(a, n) == RMul(a, Norm(1, n))     \* a / n
RDiv(a, b) == RMul(a, RInv(b))
RSgn(a) == Sgn(a[1])
RAbs(a) == IF a[1] < 0 THEN RNeg(a) ELSE a
RLe(a, b) == RSgn(RSub(a, b)) <= 0
RLt(a, b) == RSgn(RSub(a, b)) < 0
RHalf(a) == RMul(a, <<1, 2>>)
=============================================================================
