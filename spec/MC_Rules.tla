----------------------------- MODULE MC_Rules -----------------------------
(***************************************************************************)
(* An operational model of rules and rule sets, following the algorithms   *)
(* of the code: a rule set's activation and stack are caches, updated      *)
(* incrementally by additions and recomputed by others; fitting and        *)
(* evaluating go rule by rule (stopping at the first violated threshold)   *)
(* or column by column of the stack; bad rules are dropped afterwards by   *)
(* emptying and refilling the set; predictions accumulate running sums or  *)
(* a table of totals.  Explored exhaustively over three rules, two rule    *)
(* sets sharing them, two tables and thresholds that come and go.          *)
(*   Conforms: every step satisfies the transition relation of RuleSets.   *)
(***************************************************************************)
EXTENDS RuleSets, Json, IOUtils
CONSTANTS Ty, Depth, Ops, Mutant, Pre
VARIABLES st, hist, ev
Start == <<1, 2>>
vars == <<st, hist, ev>>

\* ---- the data
Row(a, b) == <<a, b>>
Tab(rows) == [kind |-> "array", cols |-> <<>>, nc |-> 2, rows |-> rows]
TABS == <<Tab(<<Row(1, 1), Row(2, 1), Row(2, 2)>>), Tab(<<Row(2, 2), Row(1, 2)>>)>>
YS == IF Ty = "reg" THEN <<<<I(2), I(-2), I(1)>>, <<I(-1), I(3)>>>> ELSE <<<<I(2), I(2), I(1)>>, <<I(1), I(2)>>>>
F(nm, lo, hi) == [nm |-> nm, ix |-> nm - 1, lo |-> lo, hi |-> hi]
CONDS == <<<<F(1, 2, 2)>>, <<F(1, 1, 2), F(2, 1, 1)>>, <<F(2, 2, 2)>>>>
Lim(at, lim, v) == [at |-> at, arg |-> "", lim |-> lim, v |-> v, ref |-> ""]
THS == <<[file |-> TRUE, lims |-> <<Lim("coverage", "min", Q(1, 2)), Lim("criterion", "max", Q(9, 4))>>],
         [file |-> TRUE, lims |-> <<Lim("coverage", "min", I(0)), Lim("coverage", "max", Q(1, 2)), IF Ty = "reg" THEN Lim("prediction", "min", I(0)) ELSE Lim("train_set_size", "min", I(3))>>]>>
Rule0(k) == [ty |-> Ty, fs |-> CONDS[k], imp |-> FALSE, act |-> <<>>, cov |-> Null, pred |-> Null, std2 |-> Null,
             sign |-> "None", z2 |-> Null, crit |-> Null, tr |-> Null, te |-> Null, good |-> TRUE, why |-> ""]
Set0(sfl) == [rules |-> <<>>, act |-> <<>>, cov |-> Null, crit |-> Null, tr |-> Null, te |-> Null, fn |-> <<>>, fi |-> <<>>,
              sfl |-> sfl, hasstk |-> FALSE, stk |-> <<>>, ty |-> "none"]
Blank == [k |-> "", out |-> "ok", w |-> "", a |-> 0, b |-> 0, res |-> 0, x |-> 0, y |-> 0, hz |-> 1, force |-> FALSE,
          keep |-> FALSE, meth |-> "mse", wt |-> [kind |-> "none", at |-> "", ws |-> <<>>], vals |-> <<>>, vals2 |-> <<>>,
          cont |-> "", idx |-> TRUE, val |-> Opq, drop |-> <<>>, hs |-> <<>>, stack |-> FALSE, comp |-> TRUE, at |-> <<>>,
          crit |-> "", rev |-> FALSE, cnt |-> <<>>, exact |-> TRUE, names |-> TRUE, again |-> TRUE, same |-> TRUE,
          cfg |-> [stacked |-> FALSE, local |-> FALSE], two |-> FALSE, id |-> 0, act |-> <<>>, stk |-> <<>>, ms |-> <<>>,
          av |-> <<>>, files |-> TRUE, chk |-> FALSE, map |-> <<>>, txt |-> <<>>, parts |-> <<>>, frame |-> TRUE]

\* ---- a rule: evaluation feature by feature, statistics by running sums
Fs(k) == IF k <= 3 THEN CONDS[k] ELSE st.r[k].fs
AlgAct(k, x) ==
  LET t == TABS[x].rows
      step(v, f) == [j \in DOMAIN t |-> IF v[j] = 1 /\ f.lo <= t[j][f.ix + 1] /\ t[j][f.ix + 1] <= f.hi THEN 1 ELSE 0]
  IN  FoldLeft(step, [j \in DOMAIN t |-> 1], Fs(k))
Sums(a, y) ==       \* [n, s, q]: number, sum and sum of squares of the targets on active rows
  LET F2(acc, j) == IF a[j] = 0 THEN acc ELSE [n |-> acc.n + 1, s |-> AddQ(acc.s, y[j]), q |-> AddQ(acc.q, SqQ(y[j]))]
  IN  FoldLeft(F2, [n |-> 0, s |-> I(0), q |-> I(0)], [j \in DOMAIN y |-> j])
MeanA(a, y) == LET m == Sums(a, y) IN DivQ(m.s, I(m.n))
Std2A(a, y) == LET m == Sums(a, y) IN
  IF m.n = 0 THEN NaN ELSE IF m.n = 1 THEN I(0)
  ELSE DivQ(SubQ(MulQ(I(m.n), m.q), SqQ(m.s)), I(m.n * (m.n - 1)))
Z2A(p, a, y) ==
  LET m == Sums([j \in DOMAIN y |-> 1], y)
      var == SubQ(DivQ(m.q, I(m.n)), SqQ(DivQ(m.s, I(m.n))))
      n == Sums(a, y).n
  IN  IF n = 0 THEN NaN ELSE DivQ(MulQ(I(n), SqQ(SubQ(p, DivQ(m.s, I(m.n))))), var)
\* class totals in the order of the classes; the first largest wins
ClassA(a, y) ==
  LET tot(c) == Cardinality({j \in DOMAIN y : a[j] = 1 /\ y[j] = I(c)})
      step(best, c) == IF tot(c) > (IF best = 0 THEN 0 ELSE tot(best)) THEN c ELSE best
      b == FoldLeft(step, 0, <<1, 2, 3>>)
  IN  IF b = 0 THEN NaN ELSE I(b)
PredA(a, y) == IF Ty = "reg" THEN MeanA(a, y) ELSE ClassA(a, y)
CritA(a, p, y) ==
  LET f(acc, j) == IF a[j] = 0 THEN acc
                   ELSE [n |-> acc.n + 1,
                         s |-> AddQ(acc.s, IF Ty = "reg" THEN SqQ(SubQ(p, y[j])) ELSE IF p = y[j] THEN I(1) ELSE I(0))]
      m == FoldLeft(f, [n |-> 0, s |-> I(0)], [j \in DOMAIN y |-> j])
  IN  IF m.n = 0 THEN NaN ELSE DivQ(m.s, I(m.n))

Mark(r, ats) ==
  LET L == IF st.th = 0 THEN {} ELSE {t \in Limits(THS[st.th]) : t.at \in ats /\ Test(t, r) = "yes"}
  IN  IF ~r.good \/ L = {} THEN r ELSE [r EXCEPT !.good = FALSE, !.why = (CHOOSE t \in L : TRUE).at]
AllAts == {"coverage", "prediction", "std", "zscore", "criterion", "train_set_size", "test_set_size"}
WithAct(r, a) == Mark([r EXCEPT !.act = a, !.cov = CoverageOf(a)], {"coverage"})
TrainAts == IF Ty = "reg" THEN <<"prediction", "std", "sign", "zscore", "train_set_size">> ELSE <<"prediction", "train_set_size">>
SetAt(r, at, a, y, bad) ==
  CASE at = "prediction" -> [r EXCEPT !.pred = IF bad THEN NaN ELSE PredA(a, y)]
    [] at = "std" -> [r EXCEPT !.std2 = IF bad THEN NaN ELSE Std2A(a, y)]
    [] at = "sign" -> [r EXCEPT !.sign = IF bad THEN "nan" ELSE IF LtQ(r.pred, I(0)) THEN "-" ELSE "+"]
    [] at = "zscore" -> [r EXCEPT !.z2 = IF bad THEN NaN ELSE Z2A(r.pred, a, y)]
    [] at = "train_set_size" -> [r EXCEPT !.tr = IF bad THEN NaN ELSE I(Len(y))]
\* rule by rule: attributes after a violation are left NaN
PlainFit(r, k, x, y) ==
  IF r.pred # Null /\ x = 0 THEN r
  ELSE LET r1 == IF x = 0 THEN r ELSE WithAct(r, AlgAct(k, x))
           step(q, at) == LET q2 == SetAt(q, at, q.act, y, ~q.good) IN IF q.good THEN Mark(q2, {at}) ELSE q2
       IN  Mark(FoldLeft(step, r1, TrainAts), AllAts)
\* column by column: every attribute is computed from the stack, then the thresholds are checked
StackFit(r, col, y) ==
  LET step(q, at) == Mark(SetAt(q, at, col, y, FALSE), {at}) IN Mark(FoldLeft(step, r, TrainAts), AllAts)
PlainEval(r, k, x, y, keep) ==
  IF ~r.good THEN [r EXCEPT !.crit = NaN]
  ELSE LET r1 == IF keep /\ x # 0 THEN WithAct(r, AlgAct(k, x)) ELSE r
           a == IF x # 0 THEN AlgAct(k, x) ELSE r.act
       IN  IF ~r1.good THEN [r1 EXCEPT !.crit = NaN]
           ELSE Mark([r1 EXCEPT !.crit = CritA(a, r.pred, y)], AllAts)
StackEval(r, col, y) == Mark([r EXCEPT !.crit = CritA(col, r.pred, y)], AllAts)

\* ---- a rule set: its caches.  Columns of the stack are [nm, act]; nm: the rule
Col(h, a) == [nm |-> h, act |-> a]
OrA(hs, act(_)) ==       \* the OR, one rule after the other
  LET step(acc, h) == IF act(h) = <<>> THEN acc ELSE IF acc = <<>> THEN act(h)
                      ELSE [j \in DOMAIN acc |-> IF acc[j] = 1 \/ act(h)[j] = 1 THEN 1 ELSE 0]
  IN  FoldLeft(step, <<>>, hs)
SetAct(s, a) == [s EXCEPT !.act = a, !.cov = IF a = <<>> THEN Null ELSE CoverageOf(a)]
ComputeAct(s, r) == SetAct(s, OrA(s.rules, LAMBDA h : r[h].act))
StackOf(hs, r) == SelectSeq([j \in DOMAIN hs |-> Col(hs[j], r[hs[j]].act)], LAMBDA c : c.act # <<>>)
ComputeStk(s, r) == LET k == StackOf(s.rules, r) IN [s EXCEPT !.hasstk = k # <<>>, !.stk = k]
NoStk(s) == [s EXCEPT !.hasstk = FALSE, !.stk = <<>>]
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE z \in S : TRUE IN <<x>> \o ListOf(S \ {x})
AddFeats(s, h) ==
  LET fs == Rng(Fs(h)) IN
  [s EXCEPT !.fn = ListOf(Rng(@) \cup {f.nm : f \in fs}), !.fi = ListOf(Rng(@) \cup {f.ix : f \in fs})]
Full(s, r) == \A h \in Rng(s.rules) : r[h].act # <<>>
AllAct(s, r) == IF Full(s, r) THEN ComputeAct(s, r) ELSE s       \* from the start, where there is nothing to update
AllStk(s, r) == IF Full(s, r) THEN ComputeStk(s, r) ELSE s
AddRule(s, r, h, act, stack) ==
  LET s1 == AddFeats([s EXCEPT !.rules = Append(@, h), !.ty = Ty], h)
      has == r[h].act # <<>>
      s2 == IF ~act \/ ~has \/ Mutant = "iadd" THEN s1
            ELSE IF s1.act = <<>> THEN AllAct(s1, r) ELSE SetAct(s1, OrSeq(s1.act, r[h].act))
  IN  IF ~stack \/ ~s.sfl \/ ~has THEN s2
      ELSE IF ~s2.hasstk THEN AllStk(s2, r)
      ELSE [s2 EXCEPT !.hasstk = TRUE, !.stk = Append(@, Col(h, r[h].act))]
AddSet(s, r, o) ==
  LET s1 == FoldLeft(LAMBDA acc, h : AddFeats([acc EXCEPT !.rules = Append(@, h), !.ty = Ty], h), s, o.rules)
      has == o.act # <<>>
      s2 == IF ~has THEN s1 ELSE IF s1.act # <<>> THEN SetAct(s1, OrSeq(s1.act, o.act))
            ELSE IF s.rules = <<>> THEN SetAct(s1, o.act) ELSE AllAct(s1, r)
  IN  IF ~s.sfl \/ ~has THEN s2 ELSE IF ~s2.hasstk THEN AllStk(s2, r) ELSE [s2 EXCEPT !.hasstk = TRUE, !.stk = @ \o StackOf(o.rules, r)]
Refill(s, hs, r) ==      \* empty the set and append the rules again, without updates
  LET e == [s EXCEPT !.rules = <<>>, !.fn = IF Mutant = "drop" THEN @ ELSE <<>>, !.fi = IF Mutant = "drop" THEN @ ELSE <<>>] IN
  FoldLeft(LAMBDA acc, h : AddRule(acc, r, h, FALSE, FALSE), e, hs)
Fresh2(s, r, sfl) == LET s1 == ComputeAct(SetAct(s, <<>>), r) IN IF sfl THEN ComputeStk(NoStk(s1), r) ELSE s1
Make(hs, sfl, r) == LET s1 == Refill(Set0(sfl), hs, r) IN Fresh2(s1, r, sfl)

\* ---- predictions
WOf(r, h, wt) == IF wt = "none" THEN I(1) ELSE Attr(r[h], wt)
\* plain: running sums (regression) or a table of class totals
PlainPred(s, r, x, wt) ==
  LET n == IF x # 0 THEN Len(TABS[x].rows) ELSE Len(r[s.rules[1]].act)
      a(h) == IF x # 0 THEN AlgAct(h, x) ELSE r[h].act
      use(h) == IsRat(WOf(r, h, wt)) /\ WOf(r, h, wt)[1] # 0
      hs == SelectSeq(s.rules, use)
      voting == SelectSeq(hs, LAMBDA h : IsRat(r[h].pred) /\ Ones(a(h)) # {})
      stepR(acc, h) == [j \in 1..n |-> IF a(h)[j] = 1 /\ IsRat(r[h].pred)
                          THEN [p |-> AddQ(acc[j].p, MulQ(WOf(r, h, wt), r[h].pred)), w |-> AddQ(acc[j].w, WOf(r, h, wt))]
                          ELSE acc[j]]
      R == FoldLeft(stepR, [j \in 1..n |-> [p |-> I(0), w |-> I(0)]], hs)
      stepC(acc, h) == [j \in 1..n |-> [c \in 1..3 |-> IF a(h)[j] = 1 /\ r[h].pred = I(c) THEN AddQ(acc[j][c], WOf(r, h, wt)) ELSE acc[j][c]]]
      C == FoldLeft(stepC, [j \in 1..n |-> [c \in 1..3 |-> I(0)]], voting)
      best(t) == {c \in 1..3 : t[c] # I(0) /\ \A d \in 1..3 : ~LtQ(t[c], t[d])}
      take(t) == IF Mutant = "vote" THEN (IF best(t) = {} THEN NaN ELSE I(CHOOSE c \in best(t) : TRUE))
                 ELSE IF Cardinality(best(t)) = 1 THEN I(CHOOSE c \in best(t) : TRUE) ELSE NaN
  IN  IF hs = <<>> \/ (Ty = "cls" /\ voting = <<>>) THEN [out |-> "ValueError", vals |-> <<>>]
      ELSE [out |-> "ok", vals |-> [j \in 1..n |-> IF Ty = "reg" THEN DivQ(R[j].p, R[j].w) ELSE take(C[j])]]
\* stacked: a matrix of predictions and one of weights, aggregated row by row
StackPred(s, r, x, wt) ==
  LET cols == IF x # 0 THEN [j \in DOMAIN s.rules |-> Col(s.rules[j], AlgAct(s.rules[j], x))] ELSE s.stk
      n == Len(cols[1].act)
      on(j) == {k \in DOMAIN cols : cols[k].act[j] = 1 /\ IsRat(r[cols[k].nm].pred) /\ IsRat(WOf(r, cols[k].nm, wt))
                                    /\ WOf(r, cols[k].nm, wt)[1] # 0}
      w(k) == WOf(r, cols[k].nm, wt)
      p(k) == r[cols[k].nm].pred
      mean(j) == DivQ(SumOver(on(j), LAMBDA k : MulQ(w(k), p(k))), SumOver(on(j), w))
      top(j) == {k \in on(j) : \A l \in on(j) : ~LtQ(w(k), w(l))}
      mode(K) == LET cnt(c) == Cardinality({k \in K : p(k) = c})
                     B == {c \in {p(k) : k \in K} : \A k \in K : cnt(p(k)) <= cnt(c)}
                 IN IF Cardinality(B) = 1 THEN CHOOSE c \in B : TRUE ELSE NaN
      none == wt # "none" /\ \A j \in 1..n : on(j) = {}
  IN  IF none THEN [out |-> "ValueError", vals |-> <<>>]
      ELSE [out |-> "ok", vals |-> [j \in 1..n |-> IF Ty = "reg" THEN mean(j) ELSE mode(IF wt = "none" THEN on(j) ELSE top(j))]]
PredictS(s, r, x, wt) == IF st.cf.stacked /\ s.hasstk THEN StackPred(s, r, x, wt) ELSE PlainPred(s, r, x, wt)
CritS(v, y) ==
  LET S == {j \in DOMAIN y : IsRat(v[j])} IN
  IF S = {} THEN NaN
  ELSE DivQ(SumOver(S, LAMBDA j : IF Ty = "reg" THEN SqQ(SubQ(v[j], y[j])) ELSE IF v[j] = y[j] THEN I(1) ELSE I(0)), I(Cardinality(S)))

\* ---- fitting and evaluating a set
FitSet(s, r, x, y) ==    \* new rules, new set, dropped
  IF x = 0 /\ \A h \in Rng(s.rules) : r[h].pred # Null THEN [r |-> r, s |-> s, drop |-> <<>>, out |-> "ok"]
  ELSE LET stacked == st.cf.stacked
           r1 == IF stacked /\ x # 0 THEN [h \in DOMAIN r |-> IF h \in Rng(s.rules) THEN WithAct(r[h], AlgAct(h, x)) ELSE r[h]] ELSE r
           s1 == IF ~stacked THEN s
                 ELSE IF x # 0 THEN ComputeStk(NoStk(ComputeAct(SetAct(s, <<>>), r1)), r1)
                 ELSE IF s.hasstk THEN s ELSE ComputeStk(s, r1)
           col(h) == s1.stk[CHOOSE k \in DOMAIN s1.stk : s1.stk[k].nm = h].act
           r2 == [h \in DOMAIN r |-> IF h \notin Rng(s.rules) THEN r[h]
                                     ELSE IF stacked THEN StackFit(r1[h], col(h), y) ELSE PlainFit(r[h], h, x, y)]
           s2 == IF stacked /\ ~s.sfl THEN NoStk(s1) ELSE s1
           good == SelectSeq(s.rules, LAMBDA h : r2[h].good)
           bad == SelectSeq(s.rules, LAMBDA h : ~r2[h].good)
           s3 == IF bad # <<>> THEN Fresh2(NoStk(Refill(s2, good, r2)), r2, s.sfl)
                 ELSE IF ~stacked \/ x = 0
                 THEN LET s4 == IF s2.act = <<>> \/ x # 0 THEN ComputeAct(SetAct(s2, <<>>), r2) ELSE s2 IN
                      IF s.sfl /\ (~s4.hasstk \/ x # 0) THEN ComputeStk(NoStk(s4), r2) ELSE s4
                 ELSE s2
       IN  [r |-> r2, s |-> [s3 EXCEPT !.tr = I(Len(y))], drop |-> bad, out |-> "ok"]
EvalSet(s, r, x, y, keep, wt) ==
  LET stacked == st.cf.stacked
      kp == keep /\ x # 0
      r1 == IF stacked /\ kp THEN [h \in DOMAIN r |-> IF h \in Rng(s.rules) THEN WithAct(r[h], AlgAct(h, x)) ELSE r[h]] ELSE r
      s1 == IF ~stacked THEN s
            ELSE IF kp THEN ComputeStk(NoStk(ComputeAct(SetAct(s, <<>>), r1)), r1)
            ELSE IF x # 0 \/ s.hasstk THEN s ELSE ComputeAct(ComputeStk(s, r1), r1)
      col(h) == IF x # 0 /\ ~kp THEN AlgAct(h, x) ELSE s1.stk[CHOOSE k \in DOMAIN s1.stk : s1.stk[k].nm = h].act
      r2 == [h \in DOMAIN r |-> IF h \notin Rng(s.rules) THEN r[h]
                                ELSE IF stacked THEN StackEval(r1[h], col(h), y) ELSE PlainEval(r[h], h, x, y, keep)]
      s2 == IF stacked /\ ~s.sfl /\ (kp \/ (x = 0 /\ ~s.hasstk)) THEN NoStk(s1) ELSE s1
      good == SelectSeq(s.rules, LAMBDA h : r2[h].good)
      bad == SelectSeq(s.rules, LAMBDA h : ~r2[h].good)
      s3 == IF bad # <<>> THEN Fresh2(NoStk(SetAct(Refill(s2, good, r2), <<>>)), r2, s.sfl)
            ELSE IF ~stacked
            THEN LET s4 == IF s2.act = <<>> \/ kp THEN ComputeAct(SetAct(s2, <<>>), r2) ELSE s2 IN
                 IF s.sfl /\ (s4.act = <<>> \/ kp) THEN ComputeStk(NoStk(s4), r2) ELSE s4
            ELSE s2
      v == IF s3.rules = <<>> THEN [out |-> "ok", vals |-> <<>>]
           ELSE PredictS(s3, r2, IF keep THEN 0 ELSE x, wt)
      s5 == IF v.out # "ok" THEN s3
            ELSE [s3 EXCEPT !.te = I(Len(y)), !.crit = IF s3.rules = <<>> THEN @ ELSE CritS(v.vals, y)]
  IN  [r |-> r2, s |-> s5, drop |-> IF v.out = "ok" THEN bad ELSE <<>>, out |-> v.out]

\* ---- what is observable
Shown(s) == [s EXCEPT !.stk = [k \in DOMAIN s.stk |-> [ok |-> k \in DOMAIN s.rules /\ s.rules[k] = s.stk[k].nm, act |-> s.stk[k].act]]]
Obs(q) == [q EXCEPT !.s = [h \in DOMAIN q.s |-> Shown(q.s[h])]]
Log(op, e) == hist' = Append(hist, op) /\ ev' = e
NoW == [kind |-> "none", at |-> "", ws |-> <<>>]
WT(w) == IF w = "none" THEN NoW ELSE [kind |-> "attr", at |-> w, ws |-> <<>>]
WithS(a, s) == [st EXCEPT !.s = [@ EXCEPT ![a] = s]]
Can(s, x, y) ==   \* the call is in the domain of the specification
  IF x = 0 THEN \A h \in Rng(s.rules) : Len(st.r[h].act) = Len(YS[y]) ELSE x = y
InOps(k) == k \in Ops
Uniform(s) == \A h \in Rng(s.rules) : Len(st.r[h].act) = Len(st.r[s.rules[1]].act)

FitS == InOps("fit") /\ \E a \in DOMAIN st.s, x \in 0..2, y \in 1..2 :
  LET s == st.s[a] IN
  /\ s.rules # <<>> /\ ~Twice(s.rules) /\ Can(s, x, y)
  /\ x = 0 => LearnDomain(Obs(st), [Blank EXCEPT !.k = "fit", !.w = "s", !.a = a, !.x = x, !.y = y])
  /\ LET q == FitSet(s, st.r, x, YS[y]) IN
     /\ st' = [WithS(a, q.s) EXCEPT !.r = q.r]
     /\ Log([op |-> "fit", w |-> "s", a |-> a, x |-> x, y |-> y, hz |-> 1],
            [Blank EXCEPT !.k = "fit", !.w = "s", !.a = a, !.x = x, !.y = y, !.drop = q.drop])
EvalS == InOps("eval") /\ \E a \in DOMAIN st.s, x \in 0..2, y \in 1..2, keep \in BOOLEAN, wt \in {"none", "coverage"} :
  LET s == st.s[a]
      e == [Blank EXCEPT !.k = "eval", !.w = "s", !.a = a, !.x = x, !.y = y, !.keep = keep, !.wt = WT(wt)] IN
  /\ s.rules # <<>> /\ ~Twice(s.rules) /\ Can(s, x, y) /\ (x = 0 => ~keep) /\ LearnDomain(Obs(st), e) /\ Uniform(s)
  /\ wt # "none" => \A h \in Rng(s.rules) : st.r[h].cov # Null
  /\ LET q == EvalSet(s, st.r, x, YS[y], keep, wt) IN
     /\ st' = [WithS(a, q.s) EXCEPT !.r = q.r]
     /\ Log([op |-> "eval", w |-> "s", a |-> a, x |-> x, y |-> y, keep |-> keep, meth |-> "mse", wt |-> WT(wt)],
            [e EXCEPT !.drop = q.drop, !.out = q.out])
FitR == InOps("fitr") /\ \E h \in DOMAIN st.r, x \in 1..2 :
  /\ st' = [st EXCEPT !.r = [@ EXCEPT ![h] = PlainFit(@, h, x, YS[x])]]
  /\ Log([op |-> "fit", w |-> "r", a |-> h, x |-> x, y |-> x, hz |-> 1],
         [Blank EXCEPT !.k = "fit", !.w = "r", !.a = h, !.x = x, !.y = x])
Iadd == InOps("iadd") /\ \E a \in DOMAIN st.s, h \in DOMAIN st.r, upd \in BOOLEAN :
  LET s == st.s[a] IN
  /\ h \notin Rng(s.rules)
  /\ st.r[h].act # <<>> /\ upd => LensOK(st, s.rules \o <<h>>) /\ ~Stale(Obs(st), a) /\ (s.hasstk => Len(s.stk[1].act) = Len(st.r[h].act))
  /\ st' = WithS(a, AddRule(s, st.r, h, upd, upd))
  /\ IF upd THEN Log([op |-> "iadd", w |-> "r", a |-> a, b |-> h], [Blank EXCEPT !.k = "iadd", !.w = "r", !.a = a, !.b = h])
     ELSE Log([op |-> "app", a |-> a, b |-> h, comp |-> FALSE], [Blank EXCEPT !.k = "app", !.a = a, !.b = h, !.comp = FALSE])
IaddS == InOps("iadds") /\ \E a, b \in DOMAIN st.s :
  LET s == st.s[a]  o == st.s[b] IN
  /\ a # b /\ o.rules # <<>> /\ Rng(s.rules) \cap Rng(o.rules) = {} /\ LensOK(st, s.rules \o o.rules)
  /\ ~Stale(Obs(st), a) /\ ~Stale(Obs(st), b)
  /\ (s.hasstk /\ o.act # <<>>) => Len(s.stk[1].act) = Len(o.act)
  /\ st' = WithS(a, AddSet(s, st.r, o))
  /\ Log([op |-> "iadd", w |-> "s", a |-> a, b |-> b], [Blank EXCEPT !.k = "iadd", !.w = "s", !.a = a, !.b = b])
Assign == InOps("rules") /\ \E a \in DOMAIN st.s, S \in SUBSET DOMAIN st.r :
  LET s == st.s[a]
      hs == ListOf(S) IN
  /\ LensOK(st, hs) /\ hs # s.rules
  /\ LET s1 == Refill([NoStk(SetAct(s, <<>>)) EXCEPT !.ty = IF S = {} THEN @ ELSE Ty], hs, st.r) IN
     st' = WithS(a, Fresh2(s1, st.r, s.sfl))
  /\ Log([op |-> "rules", a |-> a, hs |-> hs], [Blank EXCEPT !.k = "rules", !.a = a, !.hs = hs])
\* default order of the three conditions: number of features, then names, then bounds
Before(rev, g, h) ==
  LET names(k) == [i \in DOMAIN Fs(k) |-> Fs(k)[i].nm]
      bounds(k) == [i \in DOMAIN Fs(k) |-> Fs(k)[i].lo] \o [i \in DOMAIN Fs(k) |-> Fs(k)[i].hi]
      lt(u, v) == u # v /\ LexLe(u, v)
  IN  IF Len(Fs(g)) # Len(Fs(h)) THEN Len(Fs(g)) < Len(Fs(h))
      ELSE IF names(g) # names(h) THEN (IF rev THEN lt(names(h), names(g)) ELSE lt(names(g), names(h)))
      ELSE lt(bounds(g), bounds(h))
Sort == InOps("sort") /\ \E a \in DOMAIN st.s, rev \in BOOLEAN :
  LET s == st.s[a]
      hs == SortSeq(s.rules, LAMBDA g, h : Before(rev, g, h))
      cols == SelectSeq(hs, LAMBDA h : \E k \in DOMAIN s.stk : s.stk[k].nm = h)
      stk == [k \in DOMAIN cols |-> s.stk[CHOOSE j \in DOMAIN s.stk : s.stk[j].nm = cols[k]]] IN
  /\ Len(s.rules) > 1 /\ ~Twice(s.rules)
  /\ st' = WithS(a, [s EXCEPT !.rules = hs, !.stk = IF s.sfl /\ s.hasstk /\ Mutant # "sort" THEN stk ELSE @])
  /\ Log([op |-> "sort", a |-> a, crit |-> "", rev |-> rev], [Blank EXCEPT !.k = "sort", !.a = a, !.rev = rev])
Pred == InOps("pred") /\ \E a \in DOMAIN st.s, x \in 0..2, wt \in {"none", "coverage"} :
  LET s == st.s[a] IN
  /\ s.rules # <<>> /\ ~Twice(s.rules) /\ \A h \in Rng(s.rules) : st.r[h].pred # Null
  /\ x = 0 => Ready(st, s.rules) /\ (s.hasstk => StackRight(Obs(st), a))
  /\ wt # "none" => \A h \in Rng(s.rules) : st.r[h].cov # Null
  /\ LET v == PredictS(s, st.r, x, wt) IN
     /\ UNCHANGED st
     /\ Log([op |-> "pred", w |-> "s", a |-> a, x |-> x, wt |-> WT(wt)],
            [Blank EXCEPT !.k = "pred", !.w = "s", !.a = a, !.x = x, !.wt = WT(wt), !.out = v.out, !.vals = v.vals])
Cfg == InOps("cfg") /\
  LET c == [st.cf EXCEPT !.stacked = ~@] IN
  /\ st' = [st EXCEPT !.cf = c] /\ Log([op |-> "cfg", cfg |-> c], [Blank EXCEPT !.k = "cfg", !.cfg = c])
Th == InOps("th") /\ \E i \in 0..Len(THS) :
  /\ i # st.th /\ st' = [st EXCEPT !.th = i] /\ Log([op |-> "th", id |-> i], [Blank EXCEPT !.k = "th", !.id = i])

\* discarding: the data go, the coverage stays
Del == InOps("del") /\ \E a \in DOMAIN st.s, w \in {"s", "rules", "stk"} :
  LET s == st.s[a] IN
  /\ s.rules # <<>>
  /\ CASE w = "s" -> s.act # <<>> [] w = "stk" -> s.hasstk [] OTHER -> \E h \in Rng(s.rules) : st.r[h].act # <<>>
  /\ st' = CASE w = "s" -> WithS(a, [s EXCEPT !.act = <<>>]) [] w = "stk" -> WithS(a, NoStk(s))
             [] OTHER -> [st EXCEPT !.r = [h \in DOMAIN @ |-> IF h \in Rng(s.rules) THEN [@[h] EXCEPT !.act = <<>>] ELSE @[h]]]
  /\ Log([op |-> "del", w |-> w, a |-> a], [Blank EXCEPT !.k = "del", !.w = w, !.a = a])

\* ---- one rule at a time, and values computed without keeping them
EvalR == InOps("evalr") /\ \E h \in DOMAIN st.r, x \in 0..2, y \in 1..2, keep \in BOOLEAN :
  LET r == st.r[h] IN
  /\ r.pred # Null /\ (x # 0 => x = y) /\ (x = 0 => ~keep)
  /\ ~keep => r.act # <<>> /\ Len(r.act) = Len(YS[y])
  /\ st' = [st EXCEPT !.r = [@ EXCEPT ![h] = PlainEval(@, h, x, YS[y], keep)]]
  /\ Log([op |-> "eval", w |-> "r", a |-> h, x |-> x, y |-> y, keep |-> keep, meth |-> "mse", wt |-> NoW],
         [Blank EXCEPT !.k = "eval", !.w = "r", !.a = h, !.x = x, !.y = y, !.keep = keep])
CalcR == InOps("calcr") /\ \E h \in DOMAIN st.r, x \in 1..2 :
  /\ st' = [st EXCEPT !.r = [@ EXCEPT ![h] = WithAct(@, AlgAct(h, x))]]
  /\ Log([op |-> "calc", w |-> "r", a |-> h, x |-> x], [Blank EXCEPT !.k = "calc", !.w = "r", !.a = h, !.x = x])
CalcS == InOps("calc") /\ \E a \in DOMAIN st.s, x \in 1..2 :
  LET s == st.s[a]
      r1 == [h \in DOMAIN st.r |-> IF h \in Rng(s.rules) THEN WithAct(st.r[h], AlgAct(h, x)) ELSE st.r[h]] IN
  /\ s.rules # <<>> /\ ~Twice(s.rules)
  /\ st' = [WithS(a, IF Mutant = "calc" THEN s ELSE Fresh2(s, r1, s.sfl)) EXCEPT !.r = r1]
  /\ Log([op |-> "calc", w |-> "s", a |-> a, x |-> x], [Blank EXCEPT !.k = "calc", !.w = "s", !.a = a, !.x = x])
PredR == InOps("predr") /\ \E h \in DOMAIN st.r, x \in 0..2 :
  LET r == st.r[h]
      a == IF x # 0 THEN AlgAct(h, x) ELSE r.act IN
  /\ r.pred # Null /\ (x = 0 => r.act # <<>>) /\ UNCHANGED st
  /\ Log([op |-> "pred", w |-> "r", a |-> h, x |-> x],
         [Blank EXCEPT !.k = "pred", !.w = "r", !.a = h, !.x = x, !.cont = "array",
                       !.vals = [j \in DOMAIN a |-> IF a[j] = 1 THEN r.pred ELSE NaN]])
\* one value alone, by the rule's activation or that on a table
One == InOps("one") /\ \E h \in DOMAIN st.r, x \in 0..2, y \in 1..2, at \in {"prediction", "criterion"} \cup (IF Ty = "reg" THEN {"std", "zscore"} ELSE {}) :
  LET r == st.r[h]
      a == IF x # 0 THEN AlgAct(h, x) ELSE r.act IN
  /\ r.pred # Null /\ (x # 0 => x = y) /\ a # <<>> /\ Len(a) = Len(YS[y]) /\ (Ty = "cls" /\ at = "prediction" => x = 0)
  /\ st' = [st EXCEPT !.r = [@ EXCEPT ![h] = Mark(IF at = "criterion" THEN [r EXCEPT !.crit = CritA(IF Mutant = "one" THEN r.act ELSE a, r.pred, YS[y])]
                                                 ELSE SetAt(r, at, a, YS[y], FALSE), {at})]]
  /\ Log([op |-> "one", w |-> "r", a |-> h, x |-> x, y |-> y, crit |-> at, hz |-> 1, meth |-> "mse"],
         [Blank EXCEPT !.k = "one", !.w = "r", !.a = h, !.x = x, !.y = y, !.crit = at])
\* one value of a rule set computed alone, as "one" does of a rule
SetOne == InOps("sone") /\ \E a \in DOMAIN st.s, x \in 1..2, at \in {"criterion", "train_set_size", "test_set_size"}, wt \in {"none", "coverage"}, comp \in BOOLEAN :
  LET s == st.s[a]
      y == YS[x]
      v == PredictS(s, st.r, IF Mutant = "sone" THEN 0 ELSE x, wt)
      ok == at # "criterion" \/ v.out = "ok" IN
  /\ s.rules # <<>> /\ ~Twice(s.rules) /\ \A h \in Rng(s.rules) : st.r[h].pred # Null /\ (wt = "none" \/ st.r[h].cov # Null)
  /\ at # "criterion" => wt = "none" /\ ~comp
  /\ Mutant = "sone" => Uniform(s) /\ Len(st.r[s.rules[1]].act) = Len(y)
  /\ st' = WithS(a, IF ~ok THEN s ELSE CASE at = "criterion" -> [s EXCEPT !.crit = CritS(v.vals, y)]
                                        [] at = "train_set_size" -> [s EXCEPT !.tr = I(Len(y))]
                                        [] OTHER -> [s EXCEPT !.te = I(Len(y))])
  /\ Log([op |-> "sone", w |-> "s", a |-> a, x |-> x, y |-> x, crit |-> at, comp |-> comp, meth |-> "mse", wt |-> WT(wt)],
         [Blank EXCEPT !.k = "sone", !.w = "s", !.a = a, !.x = x, !.y = x, !.crit = at, !.comp = comp, !.wt = WT(wt),
                       !.out = IF ok THEN "ok" ELSE v.out])
Look == InOps("look") /\ \E a \in DOMAIN st.s, x \in 1..2, w \in {"evaluate", "stack"} :
  LET s == st.s[a] IN
  /\ s.rules # <<>> /\ ~Twice(s.rules) /\ UNCHANGED st
  /\ Log([op |-> "look", w |-> w, a |-> a, x |-> x],
         [Blank EXCEPT !.k = "look", !.w = w, !.a = a, !.x = x,
                       !.act = IF w = "stack" THEN <<>> ELSE OrA(s.rules, LAMBDA h : AlgAct(h, x)),
                       !.stk = IF w # "stack" THEN <<>> ELSE [k \in DOMAIN s.rules |-> [ok |-> TRUE, act |-> AlgAct(s.rules[k], x)]]])
\* the tables of values for all rules: column by column of the stack, or of the activations on a table
Ask == InOps("ask") /\ \E a \in DOMAIN st.s, x \in 0..2, y \in 1..2, given \in BOOLEAN :
  LET s == st.s[a]
      col(k) == IF x # 0 THEN AlgAct(s.rules[k], x) ELSE s.stk[k].act
      p(k) == IF given THEN st.r[s.rules[k]].pred ELSE PredA(col(k), YS[y])
      row(k) == [pred |-> PredA(col(k), YS[y]), crit |-> CritA(col(k), p(k), YS[y]), tr |-> I(Len(YS[y])), te |-> I(Len(YS[y])),
                 std2 |-> IF Ty = "reg" THEN Std2A(col(k), YS[y]) ELSE Null, z2 |-> IF Ty = "reg" THEN Z2A(p(k), col(k), YS[y]) ELSE Null,
                 sign |-> IF Ty # "reg" THEN "None" ELSE IF ~IsRat(p(k)) THEN "nan" ELSE IF LtQ(p(k), I(0)) THEN "-" ELSE "+"] IN
  /\ s.rules # <<>> /\ ~Twice(s.rules) /\ (x # 0 => x = y) /\ (x = 0 => s.hasstk /\ StackRight(Obs(st), a) /\ Len(s.stk[1].act) = Len(YS[y]))
  /\ given => \A h \in Rng(s.rules) : st.r[h].pred # Null
  /\ UNCHANGED st
  /\ Log([op |-> "ask", a |-> a, x |-> x, y |-> y, hz |-> 1, meth |-> "mse", given |-> given, raw |-> TRUE],
         [Blank EXCEPT !.k = "ask", !.a = a, !.x = x, !.y = y, !.comp = given, !.ms = [k \in DOMAIN s.rules |-> row(k)]])
\* ---- new rules and rule sets from others
And == InOps("and") /\ 4 \notin DOMAIN st.r /\ \E g, h \in 1..3 :
  LET a == st.r[g]  b == st.r[h]
      both(f) == \E k \in DOMAIN b.fs : b.fs[k].nm = f.nm
      of(q, n) == q.fs[CHOOSE k \in DOMAIN q.fs : q.fs[k].nm = n]
      inn(q, n) == \E k \in DOMAIN q.fs : q.fs[k].nm = n
      meet(f, k) == [f EXCEPT !.lo = IF @ < k.lo THEN k.lo ELSE @, !.hi = IF Mutant = "and" THEN k.hi ELSE IF k.hi < @ THEN k.hi ELSE @]
      one(n) == IF inn(a, n) /\ inn(b, n) THEN meet(of(a, n), of(b, n)) ELSE IF inn(a, n) THEN of(a, n) ELSE of(b, n)
      fs == [k \in 1..Cardinality({n \in {1, 2} : inn(a, n) \/ inn(b, n)}) |->
               one(IF inn(a, 1) \/ inn(b, 1) THEN k ELSE 2)]
      c == [j \in DOMAIN a.act |-> IF a.act[j] = 1 /\ b.act[j] = 1 THEN 1 ELSE 0]
      new == [Rule0(1) EXCEPT !.fs = fs, !.imp = Cd!Imp(fs)] IN
  /\ g < h /\ a.act # <<>> /\ Len(a.act) = Len(b.act)
  /\ st' = [st EXCEPT !.r = @ @@ (4 :> WithAct(new, c))]
  /\ Log([op |-> "and", a |-> g, b |-> h, r |-> 4], [Blank EXCEPT !.k = "and", !.a = g, !.b = h, !.res = 4])
Part == InOps("slice") /\ 13 \notin DOMAIN st.s /\ \E a \in DOMAIN st.s, i \in 0..1, j \in 0..2 :
  LET s == st.s[a]
      at == SelectSeq(<<1, 2, 3, 4>>, LAMBDA k : k > i /\ k <= j /\ k <= Len(s.rules))
      hs == [k \in DOMAIN at |-> s.rules[at[k]]] IN
  /\ LensOK(st, s.rules) /\ s.rules # <<>>
  /\ st' = [st EXCEPT !.s = @ @@ (13 :> Make(hs, FALSE, st.r))]
  /\ Log([op |-> "slice", a |-> a, r |-> 13, sl |-> <<i, j, 1>>], [Blank EXCEPT !.k = "slice", !.a = a, !.res = 13, !.at = at])
Sum == InOps("add") /\ 13 \notin DOMAIN st.s /\
  \/ \E a \in DOMAIN st.s, h \in DOMAIN st.r :
       LET s == st.s[a] IN
       /\ h \notin Rng(s.rules) /\ LensOK(st, s.rules \o <<h>>)
       /\ st' = [st EXCEPT !.s = @ @@ (13 :> Make(s.rules \o <<h>>, s.sfl, st.r))]
       /\ Log([op |-> "add", w |-> "r", a |-> a, b |-> h, r |-> 13], [Blank EXCEPT !.k = "add", !.w = "r", !.a = a, !.b = h, !.res = 13])
  \/ \E a, b \in DOMAIN st.s :
       LET s == st.s[a]  o == st.s[b]
           hs == s.rules \o SelectSeq(o.rules, LAMBDA h : h \notin Rng(s.rules)) IN
       /\ LensOK(st, s.rules \o o.rules) /\ hs # <<>> /\ ~Twice(s.rules) /\ ~Twice(o.rules)
       /\ st' = [st EXCEPT !.s = @ @@ (13 :> Make(hs, s.sfl /\ o.sfl, st.r))]
       /\ Log([op |-> "add", w |-> "s", a |-> a, b |-> b, r |-> 13], [Blank EXCEPT !.k = "add", !.w = "s", !.a = a, !.b = b, !.res = 13])

Init ==
  \E sfl \in BOOLEAN, stacked \in BOOLEAN :
    LET r == [h \in 1..3 |-> Rule0(h)] IN
    /\ st = [r |-> r, s |-> (11 :> Make(Start, sfl, r)) @@ (12 :> Make(<<3>>, FALSE, r)), cf |-> [stacked |-> stacked, local |-> FALSE],
             th |-> 0, own |-> <<>>, tabs |-> TABS, ys |-> YS, ths |-> THS, inf |-> [lo |-> -1, hi |-> -2], cust |-> 0]
    /\ hist = <<[op |-> "begin", ty |-> Ty, stacked |-> stacked, sfl |-> sfl, start |-> Start, tabs |-> TABS, ys |-> YS, ths |-> THS,
                 conds |-> CONDS]>>
    /\ ev = Blank
Next == FitS \/ EvalS \/ FitR \/ Iadd \/ IaddS \/ Assign \/ Sort \/ Pred \/ Cfg \/ Th \/ Del
        \/ EvalR \/ CalcR \/ CalcS \/ PredR \/ One \/ SetOne \/ Look \/ Ask \/ And \/ Part \/ Sum
Spec == Init /\ [][Next]_vars

Conforms == [][Failing(Clauses(Obs(st), ev', Obs(st'))) = {}]_vars
Bound == Len(hist) <= Depth
View == st
\* with Pre, both sets are fitted on the first table before anything else
Guide == Pre => \/ Len(hist) = 1 /\ ev'.k = "fit" /\ ev'.a = 11 /\ ev'.x = 1
                \/ Len(hist) = 2 /\ ev'.k = "fit" /\ ev'.a = 12 /\ ev'.x = 1
                \/ Len(hist) > 2
Emit == IF ~Guide THEN FALSE ELSE IF "HIST" \in DOMAIN IOEnv THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
=============================================================================
