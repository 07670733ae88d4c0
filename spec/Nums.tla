------------------------------- MODULE Nums -------------------------------
(***************************************************************************)
(* Extended rationals <<n, d>> in lowest terms, d > 0, plus special values *)
(* with d = 0.  TLC integers are 32 bits wide: every operation first makes *)
(* sure it cannot overflow, and gives Big when it could, or when one of    *)
(* its arguments is Big.  A clause that compares with Big is vacuous.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, Functions

NaN  == <<0, 0>>     \* no value
PInf == <<1, 0>>
NInf == <<-1, 0>>
Null == <<2, 0>>     \* Python's None
Opq  == <<3, 0>>     \* an observed number that is no rational of small denominator
Big  == <<4, 0>>     \* a number of the specification too large to be computed here
MAXI == 2000000000
MAXD == 20000        \* observed numbers have denominators up to this (harness/common.py)

AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)

IsRat(x) == x[2] > 0
Wild(x) == x = Big \/ x = Opq          \* arithmetic with such a number gives Big
MulOK(a, b) == a = 0 \/ AbsI(b) <= MAXI \div AbsI(a)     \* the product can be computed

\* the quotient of two integers, as a rational or as IEEE division has it
Q(n, d) ==
  IF d = 0 THEN IF n = 0 THEN NaN ELSE IF n > 0 THEN PInf ELSE NInf
  ELSE LET g == Gcd(AbsI(n), AbsI(d))
           s == IF d < 0 THEN -1 ELSE 1
       IN  <<(s * n) \div g, (s * d) \div g>>
I(n) == <<n, 1>>

Neg(x) == IF IsRat(x) THEN <<-x[1], x[2]>>
          ELSE IF x = PInf THEN NInf ELSE IF x = NInf THEN PInf ELSE x

AddQ(x, y) ==
  IF Wild(x) \/ Wild(y) THEN Big
  ELSE IF IsRat(x) /\ IsRat(y)
       THEN LET g == Gcd(x[2], y[2])
                u == y[2] \div g
                v == x[2] \div g
            IN  IF MulOK(x[1], u) /\ MulOK(y[1], v) /\ MulOK(v, y[2])
                THEN IF AbsI(x[1] * u) <= MAXI - AbsI(y[1] * v)
                     THEN Q(x[1] * u + y[1] * v, v * y[2]) ELSE Big
                ELSE Big
       ELSE IF x = NaN \/ y = NaN THEN NaN
       ELSE IF IsRat(x) THEN y
       ELSE IF IsRat(y) THEN x
       ELSE IF x = y THEN x ELSE NaN
SubQ(x, y) == AddQ(x, Neg(y))
MulQ(x, y) ==
  IF Wild(x) \/ Wild(y) THEN Big
  ELSE IF IsRat(x) /\ IsRat(y)
       THEN IF x[1] = 0 \/ y[1] = 0 THEN I(0)
            ELSE LET g == Gcd(AbsI(x[1]), y[2])
                     h == Gcd(AbsI(y[1]), x[2])
                     a == x[1] \div g   b == y[1] \div h
                     c == x[2] \div h   d == y[2] \div g
                 IN  IF MulOK(a, b) /\ MulOK(c, d) THEN <<a * b, c * d>> ELSE Big
       ELSE IF x = NaN \/ y = NaN \/ x[1] = 0 \/ y[1] = 0 THEN NaN
       ELSE IF (x[1] > 0) = (y[1] > 0) THEN PInf ELSE NInf
Inv(x) == IF x[1] < 0 THEN <<-x[2], -x[1]>> ELSE <<x[2], x[1]>>
DivQ(x, y) ==
  IF Wild(x) \/ Wild(y) THEN Big
  ELSE IF IsRat(x) /\ IsRat(y)
       THEN IF y[1] = 0 THEN Q(x[1], 0) ELSE MulQ(x, Inv(y))
       ELSE IF x = NaN \/ y = NaN THEN NaN
       ELSE IF IsRat(x) THEN I(0)
       ELSE IF IsRat(y) THEN IF (x[1] > 0) = (y[1] >= 0) THEN PInf ELSE NInf
       ELSE NaN
AbsQ(x) == IF IsRat(x) THEN <<AbsI(x[1]), x[2]>> ELSE IF x = NInf THEN PInf ELSE x
SqQ(x) == MulQ(x, x)

\* a/b < c/d for positive b, d, by continued fractions
RECURSIVE LtR(_, _, _, _)
LtR(a, b, c, d) ==
  LET p == a \div b   q == c \div d   r == a % b   s == c % d IN
  IF p # q THEN p < q
  ELSE IF s = 0 THEN FALSE
  ELSE IF r = 0 THEN TRUE
  ELSE LtR(d, s, b, r)
\* comparison; NaN, Null compare false; Big must be excluded by the caller
LtQ(x, y) ==
  IF x = NaN \/ y = NaN \/ x = Null \/ y = Null THEN FALSE
  ELSE IF IsRat(x) /\ IsRat(y) THEN LtR(x[1], x[2], y[1], y[2])
  ELSE IF x = y THEN FALSE
  ELSE x = NInf \/ y = PInf
LeQ(x, y) == (x = y /\ x \notin {NaN, Null}) \/ LtQ(x, y)

\* an observed value o agrees with the specified value s (vacuous if s cannot be computed or observed exactly)
Comparable(s) == ~Wild(s) /\ (s[2] > 0 => s[2] <= MAXD /\ AbsI(s[1]) \div s[2] < 1000000)
Agrees(s, o) == ~Comparable(s) \/ s = o

SumSeq(s) == FoldFunction(AddQ, I(0), s)       \* s: sequence (or function) of numbers
SumOver(S, f(_)) == FoldSet(LAMBDA x, acc : AddQ(f(x), acc), I(0), S)
MeanOver(S, f(_)) == DivQ(SumOver(S, f), I(Cardinality(S)))   \* NaN on the empty set
=============================================================================
