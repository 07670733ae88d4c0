------------------------------ MODULE RuleMath ------------------------------
(***************************************************************************)
(* The arithmetic of rules: statistics of the targets on activated rows,   *)
(* error measures, aggregation of predictions, threshold tests.            *)
(* An activation is a sequence of 0/1.  Targets are sequences of numbers   *)
(* (Nums; NaN is an unknown target); classes are numbers I(1), I(2), ...   *)
(* in the order of the classes.  Standard deviations and z-scores occur as *)
(* their squares, which are rational.                                      *)
(***************************************************************************)
EXTENDS Nums, SequencesExt

Ones(a) == {k \in DOMAIN a : a[k] = 1}
KnownIn(y) == {k \in DOMAIN y : IsRat(y[k])}
CoverageOf(a) == Q(Cardinality(Ones(a)), Len(a))
OrSeq(a, b) == [k \in DOMAIN a |-> IF a[k] = 1 \/ b[k] = 1 THEN 1 ELSE 0]
AndSeq(a, b) == [k \in DOMAIN a |-> IF a[k] = 1 /\ b[k] = 1 THEN 1 ELSE 0]
OrAll(s) == [k \in DOMAIN s[1] |-> IF \E j \in DOMAIN s : s[j][k] = 1 THEN 1 ELSE 0]

\* ---- regression statistics
MeanAt(S, y) == MeanOver(S, LAMBDA k : y[k])
DevSq(S, y) == LET m == MeanAt(S, y) IN SumOver(S, LAMBDA k : SqQ(SubQ(y[k], m)))
PredReg(a, y) == MeanAt(Ones(a) \cap KnownIn(y), y)
Std2(a, y) ==
  LET n == Cardinality(Ones(a))
      S == Ones(a) \cap KnownIn(y)
  IN  IF n = 0 THEN NaN ELSE IF n = 1 THEN I(0) ELSE IF Cardinality(S) < 2 THEN NaN
      ELSE DivQ(DevSq(S, y), I(Cardinality(S) - 1))
SignOf(p) == IF LtQ(p, I(0)) THEN "-" ELSE "+"
Var(y) == DivQ(DevSq(KnownIn(y), y), I(Cardinality(KnownIn(y))))
Z2(p, a, y, h) ==
  LET n == Cardinality(Ones(a)) IN
  IF n = 0 \/ p = NaN THEN NaN
  ELSE DivQ(DivQ(MulQ(SqQ(SubQ(p, MeanAt(KnownIn(y), y))), I(n)), Var(y)), I(h))

\* ---- classification: the most frequent class among the activated rows, the smallest on ties
Count(S, y, c) == Cardinality({k \in S : y[k] = c})
PredCls(a, y) ==
  LET S == Ones(a)
      C == {y[k] : k \in S}
  IN  IF S = {} THEN NaN
      ELSE LET m == Max({Count(S, y, c) : c \in C})
               T == {c \in C : Count(S, y, c) = m}
           IN  CHOOSE c \in T : \A d \in T : c[1] <= d[1]

\* ---- error measures of a prediction vector p (NaN: no prediction)
Median(y) ==
  LET s == SortSeq(y, LtQ)
      n == Len(y)
  IN  IF n % 2 = 1 THEN s[(n + 1) \div 2] ELSE DivQ(AddQ(s[n \div 2], s[n \div 2 + 1]), I(2))
Judged(p, y) == {k \in DOMAIN y : IsRat(p[k]) /\ IsRat(y[k])}
Mse(p, y) == MeanOver(Judged(p, y), LAMBDA k : SqQ(SubQ(p[k], y[k])))
Mae(p, y) == MeanOver(Judged(p, y), LAMBDA k : AbsQ(SubQ(p[k], y[k])))
Spread(y, c) == MeanOver(DOMAIN y, LAMBDA k : AbsQ(SubQ(y[k], c)))
CritReg(method, p, y) ==
  CASE method = "mse" -> Mse(p, y)
    [] method = "mae" -> Mae(p, y)
    [] method \in {"mse_norm", ""} -> DivQ(Mse(p, y), Var(y))
    [] method = "mae_norm" -> DivQ(Mae(p, y), Spread(y, MeanAt(DOMAIN y, y)))
    [] method = "aae" -> DivQ(Mae(p, y), Spread(y, Median(y)))
\* methods that divide by a spread of the targets are specified for known targets only
CritDefined(method, y) == method \in {"mse", "mae"} \/ KnownIn(y) = DOMAIN y
CritCls(a, p, y) == Q(Cardinality({k \in Ones(a) : y[k] = p}), Cardinality(Ones(a)))

\* ---- one rule's prediction vector, and the aggregation of several.
\* rs: sequence of [act, pred, w, n]; n: how many such rules there are
PredVec(a, p) == [k \in DOMAIN a |-> IF a[k] = 1 /\ p # Null THEN p ELSE NaN]
Usable(w) == IsRat(w) /\ w[1] # 0
Voters(rs, k) == {j \in DOMAIN rs : k \in DOMAIN rs[j].act /\ rs[j].act[k] = 1 /\ Usable(rs[j].w) /\ IsRat(rs[j].pred)}
MeanVote(rs, k) ==
  LET V == Voters(rs, k)
      tot == SumOver(V, LAMBDA j : MulQ(I(rs[j].n), rs[j].w))
  IN  IF V # {} /\ tot = I(0) THEN Big          \* weights of both signs that cancel: no mean
      ELSE DivQ(SumOver(V, LAMBDA j : MulQ(I(rs[j].n), MulQ(rs[j].w, rs[j].pred))), tot)
\* the class of largest total; NaN on ties and without voters
Largest(C, t(_)) ==
  LET B == {c \in C : \A d \in C : ~LtQ(t(c), t(d))} IN
  IF Cardinality(B) = 1 THEN CHOOSE c \in B : TRUE ELSE NaN
ClassesOf(rs, V) == {rs[j].pred : j \in V}
TotalOf(rs, V, c) == SumOver({j \in V : rs[j].pred = c}, LAMBDA j : MulQ(I(rs[j].n), rs[j].w))
VotesOf(rs, V, c) == SumOver({j \in V : rs[j].pred = c}, LAMBDA j : I(rs[j].n))
SumVote(rs, k) == LET V == Voters(rs, k) IN Largest(ClassesOf(rs, V), LAMBDA c : TotalOf(rs, V, c))
MaxVote(rs, k) ==
  LET V == Voters(rs, k)
      T == {j \in V : \A i \in V : ~LtQ(rs[j].w, rs[i].w)}
  IN  Largest(ClassesOf(rs, T), LAMBDA c : VotesOf(rs, T, c))
\* a tie of sums of weights that are no dyadic fractions is up to rounding
RECURSIVE Pow2(_)
Pow2(d) == d = 1 \/ (d % 2 = 0 /\ Pow2(d \div 2))
Fuzzy(rs, k) == \E j \in Voters(rs, k) : ~Pow2(rs[j].w[2])

\* ---- thresholds.  A limit is [at, arg, lim, v, ref]: attribute, function applied to it, kind of limit, and the
\* limit as a number or (ref # "") as the name of another attribute.
Squared(at) == at \in {"std", "zscore"}
Attr(r, at) == CASE at = "coverage" -> r.cov [] at = "prediction" -> r.pred [] at = "std" -> r.std2
                 [] at = "zscore" -> r.z2 [] at = "criterion" -> r.crit [] at = "train_set_size" -> r.tr
                 [] at = "test_set_size" -> r.te [] OTHER -> Null
TruncQ(x) == IF IsRat(x) THEN I(IF x[1] >= 0 THEN x[1] \div x[2] ELSE -((-x[1]) \div x[2])) ELSE x
\* the value to compare, as [sq: is it a (signed) square, v]
Value(t, r) ==
  LET x == Attr(r, t.at)
      s == Squared(t.at)
  IN  CASE t.arg = "abs" -> [sq |-> s, v |-> AbsQ(x)]
        [] t.arg = "sqrt" -> [sq |-> TRUE, v |-> x]
        [] t.arg = "int" -> [sq |-> FALSE, v |-> TruncQ(x)]
        [] t.arg = "log" -> [sq |-> FALSE, v |-> SubQ(x, I(1))]      \* only with the limit 0
        [] t.arg = "exp" -> [sq |-> FALSE, v |-> AddQ(x, I(1))]      \* only with the limit 1
        [] OTHER -> [sq |-> s, v |-> x]
LimitV(t, r) == IF t.ref = "" THEN [sq |-> FALSE, v |-> t.v] ELSE [sq |-> Squared(t.ref), v |-> Attr(r, t.ref)]
SignedSq(x) == IF x.sq THEN x.v ELSE IF LtQ(x.v, I(0)) THEN Neg(SqQ(x.v)) ELSE SqQ(x.v)
\* "no": does not violate; "yes": violates; "maybe": up to rounding, or left open
Test(t, r) ==
  LET x == Value(t, r)
      l == LimitV(t, r)
      a == IF x.sq \/ l.sq THEN SignedSq(x) ELSE x.v
      b == IF x.sq \/ l.sq THEN SignedSq(l) ELSE l.v
      rounded == x.sq \/ l.sq \/ (t.at = "criterion" /\ r.ty = "reg") \/ t.ref = "criterion"
      yes(p) == IF p THEN "yes" ELSE "no"
  IN  IF Attr(r, t.at) = Null THEN "no"
      ELSE IF {a, b} \cap {Big, Opq, Null} # {} THEN "maybe"
      ELSE IF a = NaN \/ b = NaN THEN (IF t.lim = "equal" THEN "maybe" ELSE "no")
      ELSE IF a = b /\ rounded THEN "maybe"
      ELSE CASE t.lim = "min" -> yes(LtQ(a, b))
             [] t.lim = "max" -> yes(LtQ(b, a))
             [] t.lim = "equal" -> yes(a # b)
             [] t.lim = "different" -> yes(a = b)
\* a file that says nothing of the minimal coverage gets one of 5%
Limits(T) ==
  IF ~T.file THEN {}
  ELSE LET S == {T.lims[k] : k \in DOMAIN T.lims} IN
       IF \E t \in S : t.at = "coverage" /\ t.lim = "min" THEN S
       ELSE S \cup {[at |-> "coverage", arg |-> IF \E t \in S : t.at = "coverage" THEN (CHOOSE t \in S : t.at = "coverage").arg ELSE "",
                     lim |-> "min", v |-> Q(1, 20), ref |-> ""]}
=============================================================================
