------------------------------ MODULE RunVec ------------------------------
(***************************************************************************)
(* Activation vectors.  A vector is [f, c, n]: first value f, set c of the *)
(* positions at which the value changes, length n.  The run-length text    *)
(* <<f, c1, ..., ck, n>> (positions increasing) is its canonical form, and *)
(* the form in which traces carry vectors.                                 *)
(***************************************************************************)
EXTENDS Nums

BadVec == [f |-> 9, c |-> {}, n |-> 0]        \* what is not a vector
WFSeq(s) ==
  /\ Len(s) >= 2
  /\ s[1] \in {0, 1}
  /\ s[Len(s)] >= 1
  /\ \A k \in 2..(Len(s) - 1) : s[k] > (IF k = 2 THEN 0 ELSE s[k - 1]) /\ s[k] < s[Len(s)]
Vec(s) == IF WFSeq(s) THEN [f |-> s[1], c |-> {s[k] : k \in 2..(Len(s) - 1)}, n |-> s[Len(s)]]
          ELSE BadVec
IsVec(v) == v.f \in {0, 1}

At(v, x) == (v.f + Cardinality({p \in v.c : p <= x})) % 2
Zeros(n) == [f |-> 0, c |-> {}, n |-> n]

\* pointwise combination by a boolean function g on {0,1}
PtWise(g(_, _), a, b) ==
  LET P  == a.c \cup b.c
      R(x) == g(At(a, x), At(b, x))
  IN  [f |-> g(a.f, b.f), c |-> {p \in P : R(p) # R(p - 1)}, n |-> a.n]
And1(x, y) == IF x = 1 /\ y = 1 THEN 1 ELSE 0
Or1(x, y)  == IF x = 1 \/ y = 1 THEN 1 ELSE 0
Xor1(x, y) == IF x # y THEN 1 ELSE 0
Sub1(x, y) == IF x = 1 /\ y = 0 THEN 1 ELSE 0
VAnd(a, b) == PtWise(And1, a, b)
VOr(a, b)  == PtWise(Or1, a, b)
VXor(a, b) == PtWise(Xor1, a, b)
VSub(a, b) == PtWise(Sub1, a, b)
VNot(a) == [a EXCEPT !.f = 1 - @]
VOp(op, a, b) == CASE op = "and" -> VAnd(a, b)
                   [] op \in {"or", "add"} -> VOr(a, b)
                   [] op = "xor" -> VXor(a, b)
                   [] op = "sub" -> VSub(a, b)
\* n-ary operations on a sequence of vectors of equal length
VAll(s) == FoldFunction(VAnd, s[1], s)
VAny(s) == FoldFunction(VOr, s[1], s)
VSome(s) == VSub(VAny(s), VAll(s))            \* set in some but not in all
VMulti(op, s) == CASE op = "and" -> VAll(s) [] op = "or" -> VAny(s) [] op = "xor" -> IF Len(s) = 1 THEN s[1] ELSE VSome(s)
VSubset(a, b) == VSub(a, b) = Zeros(a.n)

\* statistics
NOnes(v) == v.f * v.n
            + FoldSet(LAMBDA p, acc : acc + (IF At(v, p) = 1 THEN v.n - p ELSE p - v.n), 0, v.c)
Coverage(v) == Q(NOnes(v), v.n)
Entropy(v) == 2 + Cardinality(v.c)
RelEntropy(v) == Q(Entropy(v), v.n)
Correlation(a, b) == Q(a.n - NOnes(VXor(a, b)), a.n)
=============================================================================
