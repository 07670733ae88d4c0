------------------------------ MODULE RuleSets ------------------------------
(***************************************************************************)
(* Rules and rule sets.  A state is                                        *)
(*   r   : handle -> rule [ty, fs, imp, act, cov, pred, std2, sign, z2,    *)
(*         crit, tr, te, good, why]      (act = <<>>: no activation)       *)
(*   s   : handle -> rule set [rules, act, cov, crit, tr, te, fn, fi, sfl, *)
(*         hasstk, stk, ty]                                                *)
(*   cf  : [stacked, local]  the modes                                     *)
(*   th  : number of the thresholds of all rules (0: none), own: handle -> *)
(*         number of the thresholds of that rule                           *)
(*   tabs, ys, ths : the tables, targets and thresholds files              *)
(* Clauses(pre, e, post) is the transition relation, as named conjuncts.   *)
(***************************************************************************)
EXTENDS RuleMath, TLC
Cd == INSTANCE Conditions

Rng(s) == {s[k] : k \in DOMAIN s}
Feats(r) == Rng(r.fs)
Key(r) == {<<x.nm, x.lo, x.hi>> : x \in Feats(r)}
NamesIn(st, hs) == UNION {{x.nm : x \in Feats(st.r[h])} : h \in Rng(hs)}
PosIn(st, hs) == UNION {{x.ix : x \in Feats(st.r[h])} : h \in Rng(hs)}
HasAct(st, h) == st.r[h].act # <<>>
\* all rules have an activation, of one length
LensOK(st, hs) == \A i, j \in DOMAIN hs : HasAct(st, hs[i]) /\ HasAct(st, hs[j]) => Len(st.r[hs[i]].act) = Len(st.r[hs[j]].act)
Ready(st, hs) == \A i \in DOMAIN hs : HasAct(st, hs[i]) /\ Len(st.r[hs[i]].act) = Len(st.r[hs[1]].act)
OrOf(st, hs) == OrAll([i \in DOMAIN hs |-> st.r[hs[i]].act])
Distinct(st, hs) == \A i, j \in DOMAIN hs : i # j => Key(st.r[hs[i]]) # Key(st.r[hs[j]])
ActOn(st, h, x) == Cd!Act(st, st.tabs[x], st.r[h])
Rows(st, x) == Len(st.tabs[x].rows)

\* a rule set is in step with its rules
InStep(st, h) == LET s == st.s[h] IN s.rules = <<>> \/ (Ready(st, s.rules) /\ s.act = OrOf(st, s.rules))
StackRight(st, h) == LET s == st.s[h] IN
  s.hasstk /\ s.stk = [i \in DOMAIN s.rules |-> [ok |-> TRUE, act |-> st.r[s.rules[i]].act]]
StackInStep(st, h) == LET s == st.s[h] IN s.rules = <<>> \/ (Ready(st, s.rules) /\ StackRight(st, h))

\* ---- thresholds that apply to a rule, and the verdict on values v of a rule
ThOf(st, h) == IF h \in DOMAIN st.own /\ st.own[h] # 0 THEN st.own[h] ELSE st.th
LimsOf(st, h) == IF ThOf(st, h) = 0 THEN {} ELSE Limits(st.ths[ThOf(st, h)])
Scope(L, what) == IF what = "all" THEN L ELSE {t \in L : t.at = what}
Yes(L, v) == {t \in L : Test(t, v) = "yes"}
May(L, v) == {t \in L : Test(t, v) # "no"}
\* judging rules by their limits does not fail
Limited(st, hs, ok) == IF \A h \in hs : LimsOf(st, h) = {} THEN {} ELSE {<<"C15.outcome", ok>>}
\* g: was it good; L: limits checked on values v; o: the rule afterwards
Verdict(g, why, L, v, o) ==
  LET yes == Yes(L, v)  may == May(L, v) IN
  {<<"C15.stays", (g /\ may = {}) => o.good>>,
   <<"C15.bad", yes # {} => ~o.good>>,
   <<"C15.absorbing", ~g => ~o.good>>,
   <<"C15.reason", ~o.good => (~g /\ o.why = why) \/ o.why \in {t.at : t \in may}>>}
\* values no later than `last' are known when they are checked (used where checks stop at the first violation)

\* ---- what a fit makes of a rule
FitExp(st, h, x, y, hz) ==
  LET r == st.r[h]
      a == IF x # 0 THEN ActOn(st, h, x) ELSE r.act
      p == IF r.ty = "reg" THEN PredReg(a, y) ELSE PredCls(a, y)
  IN  IF r.ty = "reg"
      THEN [r EXCEPT !.act = a, !.cov = CoverageOf(a), !.pred = p, !.std2 = Std2(a, y), !.sign = SignOf(p),
                     !.z2 = Z2(p, a, y, hz), !.tr = I(Len(y))]
      ELSE [r EXCEPT !.act = a, !.cov = CoverageOf(a), !.pred = p, !.tr = I(Len(y))]
FitP(r) == IF r.ty = "reg" THEN "C10" ELSE "C11"
Same(r, o, F) == \A f \in F : r[f] = o[f]
Learned == {"ty", "fs", "imp", "pred", "std2", "sign", "z2", "tr"}
\* rules of a kind of the user's own may learn from a test set the number of rows (1), and the z-score (2)
Learns(st, r, f) == CASE f = "te" -> st.cust > 0 [] f = "z2" -> st.cust = 2 /\ r.ty = "reg" [] OTHER -> FALSE
\* a value computed for a bad rule, unless forced, may be left out
Val(exp, o, f, lax) == Agrees(exp, o[f]) \/ (lax /\ o[f] = NaN)
FitClauses(pre, e, post, h, force) ==
  LET r == pre.r[h]
      o == post.r[h]
      P == FitP(r)
      v == FitExp(pre, h, e.x, pre.ys[e.y], e.hz)
      lax == ~o.good /\ ~force
      idle == e.x = 0 /\ r.pred # Null /\ o = r        \* fitted already, and no data given
      all == {<<P \o ".activation", o.act = v.act>>, <<P \o ".coverage", o.cov = v.cov>>,
              <<P \o ".prediction", Val(v.pred, o, "pred", lax)>>,
              <<P \o ".size", o.tr = v.tr \/ (lax /\ o.tr = NaN)>>,
              <<"C13.fit", Same(r, o, {"ty", "fs", "imp", "crit", "te"})>>}
             \cup Verdict(r.good, r.why, LimsOf(pre, h), v, o)
             \cup (IF r.ty # "reg" THEN {}
                   ELSE {<<"C10.std", Val(v.std2, o, "std2", lax)>>, <<"C10.zscore", Val(v.z2, o, "z2", lax)>>,
                         <<"C10.sign", o.sign = v.sign \/ ~IsRat(v.pred) \/ (lax /\ o.sign = "nan")>>})
  IN  IF idle THEN {} ELSE all

\* ---- what an evaluation makes of a rule
EvalAct(st, e, h) == IF e.x # 0 THEN ActOn(st, h, e.x) ELSE st.r[h].act
CritExp(st, e, h) ==
  LET r == st.r[h]
      a == EvalAct(st, e, h)
      y == st.ys[e.y]
  IN  IF r.ty = "reg" THEN (IF CritDefined(e.meth, y) THEN CritReg(e.meth, PredVec(a, r.pred), y) ELSE Big)
      ELSE CritCls(a, r.pred, y)
EvalClauses(pre, e, post, h, force) ==
  LET r == pre.r[h]
      o == post.r[h]
      c == CritExp(pre, e, h)
      keep == e.keep /\ e.x # 0
      a == EvalAct(pre, e, h)
      skip == ~r.good /\ ~force             \* a bad rule need not be evaluated at all
      y == pre.ys[e.y]
      lax == ~o.good /\ ~force
      z2 == IF Learns(pre, r, "z2") THEN Z2(r.pred, a, y, 1) ELSE r.z2
      te == IF Learns(pre, r, "te") THEN I(Len(y)) ELSE r.te
      v == [r EXCEPT !.crit = c, !.act = IF keep THEN a ELSE @, !.cov = IF keep THEN CoverageOf(a) ELSE @, !.z2 = z2, !.te = te]
  IN {<<"C12.criterion", Val(c, o, "crit", lax)>>,
      <<"C13.learned", Same(r, o, {f \in Learned \cup {"te"} : ~Learns(pre, r, f)})>>,
      <<"C12.testSize", Learns(pre, r, "te") => Val(te, o, "te", lax)>>,
      <<"C12.zscore", Learns(pre, r, "z2") => Val(z2, o, "z2", lax) \/ (lax /\ o.z2 = r.z2)>>,
      <<"C13.activation", keep \/ Same(r, o, {"act", "cov"})>>,
      <<"C12.kept", keep => (o.act = a /\ o.cov = CoverageOf(a)) \/ (skip /\ Same(r, o, {"act", "cov"}))>>}
     \cup (IF skip THEN Verdict(r.good, r.why, LimsOf(pre, h), v, o) 
           ELSE Verdict(r.good, r.why, LimsOf(pre, h), v, o))

\* ---- predictions of a rule set: its rules with activation (on table x, or stored) and weight
WeightOf(st, e, h) ==
  CASE e.wt.kind = "none" -> I(1)
    [] e.wt.kind = "attr" -> Attr(st.r[h], e.wt.at)
    [] OTHER -> LET S == {k \in DOMAIN e.wt.ws : e.wt.ws[k].h = h} IN
                IF S = {} THEN NaN ELSE e.wt.ws[CHOOSE k \in S : TRUE].w
Members(st, e, hs, x) ==
  [i \in DOMAIN hs |-> [act |-> IF x # 0 THEN ActOn(st, hs[i], x) ELSE st.r[hs[i]].act,
                        pred |-> st.r[hs[i]].pred, w |-> WeightOf(st, e, hs[i]), n |-> 1]]
Mode(st, h) == IF st.cf.stacked /\ st.s[h].hasstk THEN "stacked" ELSE "plain"
RowVote(ty, mode, weighted, ms, k) ==
  IF ty = "reg" THEN MeanVote(ms, k)
  ELSE IF weighted /\ mode = "stacked" THEN MaxVote(ms, k)
  ELSE SumVote(ms, k)
VotesFor(ty, mode, weighted, ms, n) == [k \in 1..n |-> RowVote(ty, mode, weighted, ms, k)]
\* a weight or prediction that is observed only inexactly leaves the votes open
Open(v) == v \in {Opq, Big}
Unsure(ms) == \E j \in DOMAIN ms : Open(ms[j].w) \/ Open(ms[j].pred)
NoWeights(ms) == ~\E j \in DOMAIN ms : Usable(ms[j].w) \/ Open(ms[j].w)                        \* an error is due
NoVoters(ms, n) == ~Unsure(ms) /\ \A k \in 1..n : Voters(ms, k) = {}                         \* an error is allowed
VoteOK(ty, mode, weighted, ms, k, o) ==
  \/ Agrees(RowVote(ty, mode, weighted, ms, k), o)
  \/ ty = "cls" /\ weighted /\ mode = "plain" /\ Fuzzy(ms, k) /\ (o = NaN \/ o \in {ms[j].pred : j \in Voters(ms, k)})
NumRows(st, hs, x) == IF x # 0 THEN Rows(st, x) ELSE Len(st.r[hs[1]].act)
SetPredClauses(P, ty, mode, weighted, ms, n, out, vals, idx) ==
  IF NoWeights(ms) THEN {<<P \o ".noWeights", ~weighted \/ out # "ok">>}
  ELSE {<<P \o ".outcome", out = "ok" \/ NoVoters(ms, n) \/ Unsure(ms)>>}
       \cup (IF out # "ok" THEN {}
             ELSE {<<P \o ".rows", Len(vals) = n>>, <<P \o ".index", idx>>}
                  \cup (IF Len(vals) # n \/ Unsure(ms) THEN {}
                        ELSE {<<P \o ".missing", \A k \in 1..n : Voters(ms, k) = {} => vals[k] = NaN>>,
                              <<P \o ".values", \A k \in 1..n : VoteOK(ty, mode, weighted, ms, k, vals[k])>>}))
\* criterion of a rule set, and whether rounding leaves it open
SetCrit(ty, mode, e, ms, y) ==
  LET n == Len(y)
      p == VotesFor(ty, mode, e.wt.kind # "none", ms, n)
  IN  IF Unsure(ms) \/ \E k \in 1..n : p[k] = Big THEN Big
      \* relative to constant targets the criterion is 0/0 or x/0, up to rounding
      ELSE IF ty = "reg" THEN (IF CritDefined(e.meth, y) /\ (e.meth \in {"mse", "mae"} \/ Cardinality(Rng(y)) > 1)
                               THEN CritReg(e.meth, p, y) ELSE Big)
      ELSE IF e.wt.kind # "none" /\ \E k \in 1..n : Fuzzy(ms, k) THEN Big
      ELSE LET S == {k \in 1..n : IsRat(p[k])} IN Q(Cardinality({k \in S : p[k] = y[k]}), Cardinality(S))

\* ---- clauses on a rule set h whose activation and stack an operation has just brought up to date
UpToDate(post, h, full, fullStk) ==
  LET s == post.s[h] IN
  IF s.rules = <<>> \/ ~Ready(post, s.rules) THEN {}
  ELSE (IF full THEN {<<"C16.activation", s.act = OrOf(post, s.rules)>>} ELSE {})
       \cup (IF fullStk /\ s.sfl /\ Distinct(post, s.rules) THEN {<<"C16.stack", StackRight(post, h)>>} ELSE {})
FeatClauses(P, post, h) ==
  LET s == post.s[h] IN
  {<<P \o ".features", Rng(s.fn) = NamesIn(post, s.rules) /\ Rng(s.fi) = PosIn(post, s.rules)
                       /\ Len(s.fn) = Cardinality(Rng(s.fn)) /\ Len(s.fi) = Cardinality(Rng(s.fi))>>}

\* ---- frame: what a step may touch
TouchedR(pre, e) ==
  IF e.out # "ok" /\ e.k \notin {"fit", "eval", "calc", "bad"} THEN {}
  ELSE CASE e.k = "one" -> IF e.crit = "vector" THEN {} ELSE {e.a}
         [] e.k \in {"fit", "eval", "calc", "bad"} -> IF e.w = "r" THEN {e.a} ELSE Rng(pre.s[e.a].rules)
         [] e.k = "rs" /\ e.map # <<>> -> Rng(e.hs)
         [] e.k = "del" -> IF e.w = "r" THEN {e.a} ELSE IF e.w = "rules" THEN Rng(pre.s[e.a].rules) ELSE {}
         [] OTHER -> {}
TouchedS(pre, e) ==
  IF e.k \in {"fit", "eval", "calc", "bad", "sone"} THEN (IF e.w = "s" THEN {e.a} ELSE {})
  ELSE IF e.k \in {"iadd", "app", "rules", "sort"} \/ (e.k = "del" /\ e.w \in {"s", "stk"}) THEN {e.a} ELSE {}
\* data that do not fit: targets of another length than the table or the activation ("len"), or a table without the columns of a rule
Lacks(r, t) == ~r.imp /\ \E x \in Feats(r) : IF t.kind = "frame" THEN x.nm \notin Rng(t.cols) ELSE x.ix >= t.nc
BadOps(pre, e, post) ==
  IF e.k # "bad" THEN {}
  ELSE LET hs == IF e.w = "r" THEN <<e.a>> ELSE pre.s[e.a].rules
           due == hs # <<>> /\ (\A h \in Rng(hs) : pre.r[h].good) /\ (e.crit = "len" \/ \E h \in Rng(hs) : Lacks(pre.r[h], e.tabs[1]))
           rules(F) == \A h \in Rng(hs) : \A f \in F : pre.r[h][f] = post.r[h][f]
           set(F) == e.w = "r" \/ \A f \in F : pre.s[e.a][f] = post.s[e.a][f]
           ty == pre.r[hs[1]].ty
           props == {"C13"} \cup (CASE e.meth = "fit" -> {IF ty = "reg" THEN "C10" ELSE "C11"}
                                   [] e.meth \in {"eval", "keep"} -> {"C12"} \cup (IF e.w = "s" THEN {"C24"} ELSE {})
                                   [] e.meth = "calc" -> IF e.w = "s" THEN {"C16"} ELSE {}
                                   [] OTHER -> IF e.w = "r" THEN {"C14"} ELSE IF ty = "reg" THEN {"C19"} ELSE {"C20"})
       IN (IF due THEN {<<p \o ".badData", e.out # "ok">> : p \in props} ELSE {})
          \cup (IF hs = <<>> \/ e.out = "ok" THEN {}
                ELSE {<<"C13.refused", e.frame /\ rules({"ty", "fs", "imp"}) /\ set({"rules", "ty", "sfl", "crit", "tr", "te", "fn", "fi"})
                          /\ (e.meth = "fit" \/ rules({f \in {"pred", "std2", "sign", "z2", "tr"} : ~(e.meth \in {"eval", "keep"} /\ Learns(pre, pre.r[hs[1]], f))}))
                          /\ (e.meth # "pred" \/ (rules(DOMAIN pre.r[hs[1]]) /\ set({"act", "cov", "hasstk", "stk"})))
                          /\ (e.crit # "len" \/ ~due \/ (rules(DOMAIN pre.r[hs[1]]) /\ set({"act", "cov", "hasstk", "stk"})))>>})
FrameP(e) == CASE e.k = "save" -> "C22" [] e.k = "ask" -> "C28" [] e.k \in {"iadd", "app", "add", "slice", "get", "rules", "sort", "rs", "has", "count", "text", "bare"} -> "C17"
               [] e.k \in {"and", "in", "corr"} -> "C25" [] e.k = "del" -> "C26" [] OTHER -> "C13"
Frame(pre, e, post) ==
  LET okR == \A h \in DOMAIN pre.r \ TouchedR(pre, e) : h \in DOMAIN post.r /\ post.r[h] = pre.r[h]
      okS == \A h \in DOMAIN pre.s \ TouchedS(pre, e) : h \in DOMAIN post.s /\ post.s[h] = pre.s[h]
  IN {<<FrameP(e) \o ".others", okR /\ okS>>, <<"C13.others", okR /\ okS>>, <<"C13.input", e.same>>,
      <<"C13.mode", post.cf = (IF e.k = "cfg" THEN e.cfg ELSE pre.cf)>>}

\* ---- facts that hold in every state
Always(post, e) ==
  {<<"C16.coverage", \A h \in DOMAIN post.s : post.s[h].act # <<>> => post.s[h].cov = CoverageOf(post.s[h].act)>>,
   <<"C10.coverageOfAct", \A h \in DOMAIN post.r : post.r[h].ty = "reg" /\ HasAct(post, h) => post.r[h].cov = CoverageOf(post.r[h].act)>>,
   <<"C11.coverageOfAct", \A h \in DOMAIN post.r : post.r[h].ty = "cls" /\ HasAct(post, h) => post.r[h].cov = CoverageOf(post.r[h].act)>>,
   <<"C16.noForeignColumns", \A h \in DOMAIN post.s : LET s == post.s[h] IN
        s.hasstk /\ Distinct(post, s.rules) /\ s.rules # <<>> => Len(s.stk) <= Len(s.rules)>>,
   <<"C16.unasked", \A h \in DOMAIN post.s : post.s[h].sfl \/ ~post.s[h].hasstk>>,
   \* availability is reported truthfully
   <<"C26.available", \A k \in DOMAIN e.av : LET t == e.av[k] IN
        CASE t.w = "r" -> t.v = (post.r[t.h].act # <<>>) [] t.w = "s" -> t.v = (post.s[t.h].act # <<>>)
          [] t.w = "k" -> t.v = post.s[t.h].hasstk [] OTHER -> FALSE>>}

\* ---- one value of a rule computed alone, by its activation or that on table e.x
OneOps(pre, e, post) ==
  IF e.k # "one" THEN {}
  ELSE LET r == pre.r[e.a]
           o == post.r[e.a]
           a == IF e.x # 0 THEN ActOn(pre, e.a, e.x) ELSE r.act
           y == pre.ys[e.y]
           P == CASE e.crit = "criterion" -> "C12" [] e.crit = "vector" -> "C14" [] OTHER -> FitP(r)
           F == CASE e.crit = "prediction" -> "pred" [] e.crit = "std" -> "std2" [] e.crit = "zscore" -> "z2" [] e.crit = "criterion" -> "crit"
                  [] e.crit = "train_set_size" -> "tr" [] e.crit = "test_set_size" -> "te" [] OTHER -> "sign"
           v == CASE e.crit = "prediction" -> IF r.ty = "reg" THEN PredReg(a, y) ELSE PredCls(a, y)
                  [] e.crit = "std" -> Std2(a, y)
                  [] e.crit = "zscore" -> Z2(r.pred, a, y, e.hz)
                  [] e.crit = "criterion" -> IF r.ty # "reg" THEN CritCls(a, r.pred, y)
                                             ELSE IF CritDefined(e.meth, y) THEN CritReg(e.meth, PredVec(a, r.pred), y) ELSE Big
                  [] OTHER -> I(Len(y))
       IN IF e.crit \notin {"sign", "train_set_size", "test_set_size"} /\ a = <<>>
          \* the number of activated rows outlives the activation, and suffices for a z-score
          THEN {<<P \o ".noActivation", (IF e.crit = "zscore" THEN Same(r, o, DOMAIN r \ {"z2", "good", "why"}) ELSE o = r) /\ (e.crit = "vector" => e.out # "ok" \/ e.vals = <<<<6, 0>>>>)>>}
          ELSE {<<P \o ".outcome", e.out = "ok">>}
               \cup (IF e.out # "ok" THEN {}
                     ELSE IF e.crit = "vector" THEN {<<"C14.vector", Open(r.pred) \/ e.vals = PredVec(a, r.pred)>>}
                     ELSE {<<P \o ".value", IF e.crit = "sign" THEN ~IsRat(r.pred) \/ o.sign = SignOf(r.pred) ELSE Agrees(v, o[F])>>,
                           <<"C13.alone", Same(r, o, DOMAIN r \ {F, "good", "why"})>>}
                          \cup (IF e.crit \in {"sign", "train_set_size", "test_set_size"} THEN {<<"C15.untested", o.good = r.good \/ ~o.good>>}
                                ELSE Verdict(r.good, r.why, Scope(LimsOf(pre, e.a), e.crit), [r EXCEPT ![F] = v], o)))

\* ---- one value of a rule set computed alone, on table e.x, from its own predictions
SetOneOps(pre, e, post) ==
  IF e.k # "sone" THEN {}
  ELSE LET s == pre.s[e.a]
           o == post.s[e.a]
           y == pre.ys[e.y]
           ms == Members(pre, e, s.rules, e.x)
           free == NoVoters(ms, Len(y)) \/ NoWeights(ms) \/ Unsure(ms)
           F == CASE e.crit = "criterion" -> "crit" [] e.crit = "train_set_size" -> "tr" [] OTHER -> "te"
       IN {<<"C24.outcome", e.out = "ok" \/ (F = "crit" /\ free)>>,
           <<"C24.alone", Same(s, o, {"rules", "ty", "sfl", "tr", "te", "crit", "fn", "fi"} \ {F})>>}
          \cup (IF e.out # "ok" THEN {}
                ELSE {<<"C24.value", IF F = "crit" THEN Agrees(SetCrit(pre.r[s.rules[1]].ty, Mode(pre, e.a), e, ms, y), o.crit)
                                     ELSE o[F] = I(Len(y))>>})

\* ---- operations on one rule
RuleOps(pre, e, post) ==
  CASE e.k = "void" -> {<<"C13.empty", e.out = "ok">>}
    [] e.k = "rule" ->
         {<<"C10.created", e.out = "ok" /\ e.res \in DOMAIN post.r /\ LET o == post.r[e.res] IN
              o.act = <<>> /\ o.good /\ \A f \in {"cov", "pred", "std2", "z2", "crit", "tr", "te"} : o[f] = Null>>,
          <<"C10.unsigned", e.out = "ok" => post.r[e.res].sign = "None">>}
    [] e.k = "fit" /\ e.w = "r" ->
         IF e.x = 0 /\ ~HasAct(pre, e.a)
         THEN {<<FitP(pre.r[e.a]) \o ".noData", e.out # "ok" \/ (pre.r[e.a].pred # Null /\ post.r[e.a] = pre.r[e.a])>>}
         ELSE {<<FitP(pre.r[e.a]) \o ".outcome", e.out = "ok">>} \cup Limited(pre, {e.a}, e.out = "ok")
              \cup (IF e.out # "ok" THEN {} ELSE FitClauses(pre, e, post, e.a, e.force))
    [] e.k = "eval" /\ e.w = "r" ->
         IF ~HasAct(pre, e.a) /\ ~(e.keep /\ e.x # 0) THEN {<<"C13.failed", Same(pre.r[e.a], post.r[e.a], Learned)>>}
         ELSE {<<"C12.outcome", e.out = "ok">>} \cup Limited(pre, {e.a}, e.out = "ok")
              \cup (IF e.out # "ok" THEN {} ELSE EvalClauses(pre, e, post, e.a, e.force))
    [] e.k = "calc" /\ e.w = "r" ->
         LET r == pre.r[e.a]  o == post.r[e.a]  a == ActOn(pre, e.a, e.x) IN
         {<<FitP(r) \o ".outcome", e.out = "ok">>}
         \cup (IF e.out # "ok" THEN {}
               ELSE {<<FitP(r) \o ".activation", o.act = a /\ o.cov = CoverageOf(a)>>,
                     <<"C13.learned", Same(r, o, Learned \cup {"crit", "te"})>>}
                    \cup Verdict(r.good, r.why, Scope(LimsOf(pre, e.a), "coverage"), [r EXCEPT !.cov = CoverageOf(a)], o))
    [] e.k = "pred" /\ e.w = "r" ->
         LET r == pre.r[e.a] IN
         IF e.x = 0 /\ ~HasAct(pre, e.a) THEN {<<"C14.noData", e.out # "ok">>}
         ELSE LET a == IF e.x # 0 THEN ActOn(pre, e.a, e.x) ELSE r.act IN
              {<<"C14.outcome", e.out = "ok">>}
              \cup (IF e.out # "ok" THEN {}
                    ELSE {<<"C14.values", e.vals = PredVec(a, r.pred)>>,
                          <<"C14.container", e.cont = (IF e.x # 0 /\ pre.tabs[e.x].kind = "frame" THEN "series" ELSE "array")>>,
                          <<"C14.index", e.idx>>})
    [] e.k = "and" ->
         LET a == pre.r[e.a]  b == pre.r[e.b] IN
         IF Cd!Conflict(a, b) \/ a.ty # b.ty THEN {<<"C25.conflict", Cd!Conflict(a, b) => e.out # "ok">>}
         ELSE IF a.act = <<>> \/ b.act = <<>> THEN {}
         ELSE IF Len(a.act) # Len(b.act) THEN {<<"C25.lengths", e.out # "ok">>}
         ELSE {<<"C25.outcome", e.out = "ok">>}
              \cup (IF e.out # "ok" THEN {}
                    ELSE LET o == post.r[e.res]  c == AndSeq(a.act, b.act) IN
                         {<<"C25.and", Feats(o) = Cd!AndFeats(a, b) /\ o.act = c /\ o.cov = CoverageOf(c) /\ o.ty = a.ty
                                       /\ o.pred = Null /\ o.imp = Cd!Imp(o.fs)>>}
                         \cup Verdict(TRUE, "", Scope(IF pre.th = 0 THEN {} ELSE Limits(pre.ths[pre.th]), "coverage"),
                                      [o EXCEPT !.cov = CoverageOf(c)], o))
    [] e.k \in {"th", "own"} -> {<<"C15.set", e.out = "ok">>}
    [] e.k = "in" ->
         LET a == pre.r[e.a]  b == pre.r[e.b] IN     \* is b contained in a
         IF a.act = <<>> \/ b.act = <<>> \/ Len(a.act) # Len(b.act) THEN {}
         ELSE {<<"C25.contains", e.out = "ok" /\ e.val = (IF Ones(b.act) \subseteq Ones(a.act) THEN I(1) ELSE I(0))>>}
    [] e.k = "corr" ->
         LET a == pre.r[e.a]  b == pre.r[e.b] IN
         IF a.act = <<>> \/ b.act = <<>> THEN {}
         ELSE IF Len(a.act) # Len(b.act) THEN {<<"C25.lengths", e.out # "ok">>}
         ELSE IF ~IsRat(a.pred) \/ ~IsRat(b.pred) \/ a.pred[1] = 0 \/ b.pred[1] = 0 \/ a.ty # "reg" \/ b.ty # "reg" THEN {}
         ELSE LET agree == Q(Cardinality({k \in DOMAIN a.act : a.act[k] = b.act[k]}), Len(a.act)) IN
              {<<"C25.correlation", e.out = "ok" /\
                   Agrees(IF (a.pred[1] > 0) = (b.pred[1] > 0) THEN agree ELSE Neg(agree), e.val)>>}
    [] OTHER -> {}

\* ---- fitting and evaluating rule sets
Targets(pre, h) == Rng(pre.s[h].rules)
Twice(hs) == Cardinality(Rng(hs)) # Len(hs)           \* some rule occurs twice
LearnDomain(pre, e) ==      \* is the call one the specification speaks about
  LET s == pre.s[e.a] IN
  /\ s.rules # <<>>
  /\ pre.cf.stacked => Distinct(pre, s.rules)
  /\ e.x = 0 => Ready(pre, s.rules) /\ Len(pre.r[s.rules[1]].act) = Len(pre.ys[e.y])
                /\ (s.act = <<>> \/ InStep(pre, e.a)) /\ (~s.hasstk \/ StackRight(pre, e.a))
  /\ e.k = "eval" => \A h \in Rng(s.rules) : pre.r[h].pred # Null
  /\ (e.k = "eval" /\ ~pre.cf.stacked /\ ~(e.keep /\ e.x # 0)) => \A h \in Rng(s.rules) : HasAct(pre, h)
  /\ (e.k = "eval" /\ ~(e.keep /\ e.x # 0)) => LensOK(pre, s.rules)
  /\ ~Twice(s.rules)
Dropping(pre, e, post) ==
  LET old == pre.s[e.a].rules
      s == post.s[e.a]
      good == SelectSeq(old, LAMBDA h : post.r[h].good)
      bad == SelectSeq(old, LAMBDA h : ~post.r[h].good)
      idle == e.k = "fit" /\ e.x = 0 /\ (\A h \in Rng(old) : pre.r[h].pred # Null) /\ s.rules = old /\ e.drop = <<>>
      gone == s.rules # old
  IN IF idle THEN {<<"C18.features", Rng(s.fn) = Rng(pre.s[e.a].fn) /\ Rng(s.fi) = Rng(pre.s[e.a].fi)>>}
     ELSE {<<"C18.kept", s.rules = good>>, <<"C18.returned", e.drop = bad>>}
          \cup FeatClauses("C18", post, e.a)
          \cup (IF gone THEN {<<"C18.activation", s.rules = <<>> \/ ~Ready(post, s.rules) \/ s.act = OrOf(post, s.rules)>>,
                              <<"C18.stack", s.rules = <<>> \/ ~s.sfl \/ ~Ready(post, s.rules) \/ ~Distinct(post, s.rules)
                                             \/ StackRight(post, e.a)>>,
                              <<"C18.empty", s.rules = <<>> => s.act = <<>>>>}
                ELSE {})
SetLearn(pre, e, post) ==
  LET s == pre.s[e.a]
      o == post.s[e.a]
      y == pre.ys[e.y]
      gone == o.rules # s.rules
      full == e.x # 0 /\ (e.k = "fit" \/ e.keep)
      same(f) == o[f] = s[f]
  IN
  IF s.rules = <<>> THEN {<<"C18.nothing", e.out # "ok" \/ (e.drop = <<>> /\ o.rules = <<>>)>>}
  ELSE IF ~LearnDomain(pre, e) THEN {}
  ELSE IF e.k = "fit" THEN
     LET idle == e.x = 0 /\ (\A h \in Targets(pre, e.a) : pre.r[h].pred # Null)
         P == {FitP(pre.r[s.rules[1]]), "C18", "C24"} IN
     {<<p \o ".outcome", e.out = "ok">> : p \in P} \cup Limited(pre, Rng(s.rules), e.out = "ok")
     \cup (IF e.out # "ok" THEN {}
           ELSE UNION {FitClauses(pre, e, post, h, e.force) : h \in Targets(pre, e.a)}
                \cup Dropping(pre, e, post)
                \cup {<<"C24.trainSize", o.tr = I(Len(y)) \/ (idle /\ same("tr"))>>,
                      <<"C24.fitKeeps", same("crit") /\ same("te")>>,
                      <<"C17.flag", same("sfl") /\ same("ty")>>}
                \cup UpToDate(post, e.a, full \/ gone \/ InStep(pre, e.a) \/ (~idle /\ s.act = <<>> /\ s.cov = Null), full \/ gone \/ StackInStep(pre, e.a)))
  ELSE
     LET x == IF e.keep THEN 0 ELSE e.x          \* the data the predictions of the set are made on
         ms == Members(post, e, o.rules, x)
         ty == pre.r[s.rules[1]].ty
         m == Mode(post, e.a)
         \* predicting is part of evaluating; where no rule predicts, an error is allowed
         errOK == o.rules # <<>> /\ (NoVoters(ms, Len(y)) \/ NoWeights(ms))
     IN
     {<<p \o ".outcome", e.out = "ok" \/ errOK \/ Unsure(ms)>> : p \in {"C12", "C18", "C24"}}
     \cup Limited(pre, Rng(s.rules), e.out = "ok" \/ errOK \/ Unsure(ms))
     \cup (IF e.out # "ok" THEN {}
           ELSE UNION {EvalClauses(pre, e, post, h, pre.cf.stacked \/ e.force) : h \in Targets(pre, e.a)}
                \cup Dropping(pre, e, post)
                \cup {<<"C24.testSize", o.te = I(Len(y))>>,
                      <<"C24.criterion", IF o.rules = <<>> THEN TRUE
                                         ELSE Agrees(SetCrit(ty, m, e, ms, y), o.crit)>>,
                      <<"C13.set", same("tr") /\ same("sfl") /\ same("ty")
                                   /\ (full \/ gone \/ s.act = <<>> \/ (same("act") /\ same("cov")))
                                   /\ (full \/ gone \/ ~s.hasstk \/ (same("hasstk") /\ same("stk")))>>}
                \cup UpToDate(post, e.a, full \/ gone \/ InStep(pre, e.a), full \/ gone \/ StackInStep(pre, e.a)))
SetOps(pre, e, post) ==
  CASE e.k \in {"fit", "eval"} /\ e.w = "s" -> SetLearn(pre, e, post)
    [] e.k = "calc" /\ e.w = "s" ->
         LET hs == pre.s[e.a].rules IN
         IF hs = <<>> THEN {}
         ELSE {<<"C16.outcome", e.out = "ok">>}
              \cup (IF e.out # "ok" THEN {}
                    ELSE UNION {LET r == pre.r[h]  o == post.r[h]  a == ActOn(pre, h, e.x) IN
                                {<<"C16.ruleActivation", o.act = a>>, <<"C13.learned", Same(r, o, Learned \cup {"crit", "te"})>>}
                                \cup Verdict(r.good, r.why, Scope(LimsOf(pre, h), "coverage"), [r EXCEPT !.cov = CoverageOf(a)], o)
                                : h \in Rng(hs)}
                         \cup {<<"C17.flag", LET s == pre.s[e.a] o == post.s[e.a] IN
                                  Same(s, o, {"rules", "crit", "tr", "te", "fn", "fi", "sfl", "ty"})>>}
                         \cup UpToDate(post, e.a, TRUE, TRUE))
    [] e.k = "look" ->
         LET hs == pre.s[e.a].rules
             acts == [i \in DOMAIN hs |-> ActOn(pre, hs[i], e.x)] IN
         IF hs = <<>> \/ (e.w = "stack" /\ ~Distinct(pre, hs)) THEN {}
         ELSE {<<"C16.evaluated", e.out = "ok" /\ (IF e.w = "stack" THEN e.stk = [i \in DOMAIN hs |-> [ok |-> TRUE, act |-> acts[i]]]
                                                  ELSE e.act = OrAll(acts))>>}
    [] e.k = "bulk" ->
         LET y == e.vals2
             n == Len(y)
             P == IF e.w = "reg" THEN "C19" ELSE "C20"
             F == IF e.w = "reg" THEN "C10" ELSE "C11"
             mode == IF pre.cf.stacked /\ e.stack THEN "stacked" ELSE "plain" IN
         {<<P \o ".outcome", e.out = "ok">>, <<F \o ".outcome", e.out = "ok">>, <<"C16.outcome", e.out = "ok">>}
         \cup (IF e.out # "ok" THEN {}
               ELSE {<<F \o ".prediction", \A j \in DOMAIN e.ms : e.ms[j].pred = (IF e.w = "reg" THEN PredReg(e.ms[j].act, y) ELSE PredCls(e.ms[j].act, y))>>,
                     <<"C16.activation", e.act = OrAll([j \in DOMAIN e.ms |-> e.ms[j].act])>>}
                    \cup SetPredClauses(P, e.w, mode, e.comp, e.ms, n, e.out, e.vals, e.idx))
    [] e.k = "pred" /\ e.w = "s" ->
         LET s == pre.s[e.a] IN
         IF s.rules = <<>> THEN {<<"C19.empty", e.out # "ok" \/ e.vals = <<>>>>}
         ELSE IF (e.x = 0 /\ ~Ready(pre, s.rules)) \/ (\E h \in Rng(s.rules) : pre.r[h].pred = Null)
                 \/ ((Mode(pre, e.a) = "stacked" \/ e.wt.kind # "none") /\ ~Distinct(pre, s.rules))
                 \/ (e.x = 0 /\ Mode(pre, e.a) = "stacked" /\ ~StackRight(pre, e.a)) 
              THEN {<<p \o ".index", e.out = "ok" => e.idx>> : p \in {IF pre.r[s.rules[1]].ty = "reg" THEN "C19" ELSE "C20"}}
         ELSE LET ty == pre.r[s.rules[1]].ty
                  P == IF ty = "reg" THEN "C19" ELSE "C20"
              IN SetPredClauses(P, ty, Mode(pre, e.a), e.wt.kind # "none", Members(pre, e, s.rules, e.x),
                                NumRows(pre, s.rules, e.x), e.out, e.vals, e.idx)
    [] OTHER -> {}

\* ---- rule sets as collections
Types(st, hs) == {st.r[h].ty : h \in Rng(hs)}
Permutation(a, b) == Len(a) = Len(b) /\ \A x \in Rng(a) \cup Rng(b) :
                       Cardinality({k \in DOMAIN a : a[k] = x}) = Cardinality({k \in DOMAIN b : b[k] = x})
\* the rules of a new set hold no two equal rules, and one rule equal to each of hs
UnionOf(st, res, hs) ==
  /\ Rng(res) \subseteq Rng(hs)
  /\ {Key(st.r[h]) : h \in Rng(res)} = {Key(st.r[h]) : h \in Rng(hs)}
  /\ Cardinality({Key(st.r[h]) : h \in Rng(res)}) = Len(res)
\* lexicographic order of equally long sequences of numbers
RECURSIVE LexLe(_, _)
LexLe(a, b) == a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLe(Tail(a), Tail(b)))
NamesSeq(r) == [k \in DOMAIN r.fs |-> r.fs[k].nm]
BoundsSeq(r) == [k \in DOMAIN r.fs |-> r.fs[k].lo] \o [k \in DOMAIN r.fs |-> r.fs[k].hi]
DefaultLe(rev, a, b) ==
  \/ Len(a.fs) < Len(b.fs)
  \/ /\ Len(a.fs) = Len(b.fs)
     /\ \/ NamesSeq(a) = NamesSeq(b) /\ LexLe(BoundsSeq(a), BoundsSeq(b))
        \/ NamesSeq(a) # NamesSeq(b) /\ (IF rev THEN LexLe(NamesSeq(b), NamesSeq(a)) ELSE LexLe(NamesSeq(a), NamesSeq(b)))
SortAttr(r, at) == CASE at = "nones" -> (IF r.act = <<>> THEN Null ELSE I(Cardinality(Ones(r.act)))) [] OTHER -> Attr(r, at)
AttrLe(rev, at, a, b) == IF rev THEN ~LtQ(SortAttr(a, at), SortAttr(b, at)) ELSE ~LtQ(SortAttr(b, at), SortAttr(a, at))
NewSet(post, e, hs, sfl) ==
  LET o == post.s[e.res] IN
  {<<"C17.flag", o.sfl = sfl /\ o.crit = Null /\ o.tr = Null /\ o.te = Null>>,
   <<"C17.type", Types(post, hs) = {o.ty} \/ hs = <<>>>>}
  \cup FeatClauses("C17", post, e.res)
Stale(st, h) == st.s[h].act # <<>> /\ ~InStep(st, h)
\* a stack kept from other data than the activations of rules hs
OldStack(st, h, hs) == st.s[h].hasstk /\ \E k \in DOMAIN st.s[h].stk : \E g \in Rng(hs) : HasAct(st, g) /\ Len(st.s[h].stk[k].act) # Len(st.r[g].act)
\* two rules that a check for duplicates takes for one, or can not
Twins(st, g, h) == st.r[g].fs = st.r[h].fs /\ st.r[g].pred = st.r[h].pred /\ ~Open(st.r[g].pred) /\ st.r[g].pred # NaN
Strangers(st, g, h) == Key(st.r[g]) # Key(st.r[h]) \/ (st.r[g].pred # st.r[h].pred /\ ~(Open(st.r[g].pred) /\ Open(st.r[h].pred)))
AnyPair(hs, P(_, _)) == \E i, j \in DOMAIN hs : i < j /\ P(hs[i], hs[j])
\* the text of a rule set: all rules, or the first and last n of them
TextOf(parts, n) == IF Len(parts) < 2 * n THEN parts
                    ELSE SubSeq(parts, 1, n) \o <<0>> \o SubSeq(parts, Len(parts) - n + 1, Len(parts))
\* positions declared for all rule sets replace those of the rules
Placed(r, m) == [r EXCEPT !.fs = [k \in DOMAIN r.fs |-> [r.fs[k] EXCEPT !.ix = m[CHOOSE j \in DOMAIN m : m[j][1] = r.fs[k].nm][2]]]]
Grow(pre, e, post, more, update) ==        \* rules appended to the set e.a
  LET s == pre.s[e.a]
      o == post.s[e.a]
      refuse == s.rules # <<>> /\ more # <<>> /\ Types(pre, s.rules) # Types(pre, more)
      free == s.ty # "none" /\ (~(Types(pre, more) \subseteq {s.ty}) \/ (e.w = "s" /\ pre.s[e.b].ty # s.ty))       \* an emptied set of the other type
  IN
  IF refuse THEN {<<"C17.refused", e.out # "ok">>, <<"C17.unchanged", o = s>>}
  ELSE IF e.out # "ok" THEN {<<"C17.outcome", free \/ ~LensOK(pre, s.rules \o more) \/ Stale(pre, e.a) \/ (e.w = "s" /\ Stale(pre, e.b))
                                                     \/ OldStack(pre, e.a, s.rules \o more)>>,
                              <<"C17.unchanged", free /\ LensOK(pre, s.rules \o more) => o = s>>}
  ELSE {<<"C17.appended", o.rules = s.rules \o more>>,
        <<"C17.keeps", Same(s, o, {"crit", "tr", "te", "sfl"})>>,
        <<"C17.type", more = <<>> \/ Types(post, o.rules) = {o.ty}>>}
       \cup FeatClauses("C17", post, e.a)
       \cup (IF ~update THEN {} ELSE 
             LET both == e.w # "s" \/ InStep(pre, e.b)
                 live == IF e.w = "s" THEN pre.s[e.b].act # <<>> ELSE HasAct(pre, e.b)     \* there is something to add
             IN  UpToDate(post, e.a, ((s.act = <<>> /\ live) \/ InStep(pre, e.a)) /\ both,
                                     ((~s.hasstk /\ live) \/ StackInStep(pre, e.a)) /\ both))
CollOps(pre, e, post) ==
  CASE e.k = "rs" ->
         LET bad == Cardinality(Types(pre, e.hs)) > 1
             twin == e.chk /\ AnyPair(e.hs, LAMBDA g, h : Twins(pre, g, h))
             unsure == e.chk /\ AnyPair(e.hs, LAMBDA g, h : ~Strangers(pre, g, h))
             okErr == bad \/ unsure \/ (~LensOK(pre, e.hs)) IN
         {<<"C17.refused", bad => e.out # "ok">>, <<"C17.outcome", ~okErr => e.out = "ok">>,
          <<"C17.duplicates", (twin => e.out # "ok" /\ 0 \notin Rng(e.txt)) /\ (e.chk /\ ~unsure => 1 \notin Rng(e.txt))>>}
         \cup (IF e.map = <<>> \/ e.out # "ok" THEN {}
               ELSE {<<"C17.placed", \A h \in Rng(e.hs) : post.r[h] = Placed(pre.r[h], e.map)>>})
         \cup (IF e.out # "ok" \/ bad THEN {}
               ELSE {<<"C17.built", post.s[e.res].rules = e.hs>>}
                    \cup NewSet(post, e, e.hs, e.stack) \cup UpToDate(post, e.res, e.comp, TRUE))
    [] e.k = "iadd" -> Grow(pre, e, post, IF e.w = "r" THEN <<e.b>> ELSE pre.s[e.b].rules, TRUE)
    [] e.k = "app" -> Grow(pre, e, post, <<e.b>>, e.comp)
    [] e.k = "junk" ->
         {<<"C17.refused", e.out # "ok">>, <<"C17.unchanged", post.s[e.a] = pre.s[e.a]>>}
    [] e.k = "add" ->
         LET hs == pre.s[e.a].rules \o (IF e.w = "r" THEN <<e.b>> ELSE pre.s[e.b].rules)
             bad == Cardinality(Types(pre, hs)) > 1 IN
         {<<"C17.refused", bad => e.out # "ok">>, <<"C17.outcome", ~bad /\ LensOK(pre, hs) => e.out = "ok">>}
         \cup (IF e.out # "ok" \/ bad THEN {}
               ELSE LET o == post.s[e.res] IN
                    {<<"C17.sum", IF e.w = "r" THEN o.rules = hs ELSE UnionOf(post, o.rules, hs)>>}
                    \cup NewSet(post, e, hs, pre.s[e.a].sfl /\ (e.w = "r" \/ pre.s[e.b].sfl)) \cup UpToDate(post, e.res, TRUE, TRUE))
    [] e.k = "slice" ->
         {<<"C17.outcome", LensOK(pre, pre.s[e.a].rules) => e.out = "ok">>}
         \cup (IF e.out # "ok" THEN {}
               ELSE {<<"C17.slice", post.s[e.res].rules = [k \in DOMAIN e.at |-> pre.s[e.a].rules[e.at[k]]]>>}
                    \cup NewSet(post, e, post.s[e.res].rules, post.s[e.res].sfl) \cup UpToDate(post, e.res, TRUE, TRUE))
    [] e.k = "get" ->
         {<<"C17.item", e.out = "ok" /\ e.hs = [k \in DOMAIN e.at |-> pre.s[e.a].rules[e.at[k]]] /\ e.val = I(Len(pre.s[e.a].rules))>>}
    [] e.k = "rules" ->
         LET s == pre.s[e.a]  o == post.s[e.a]
             bad == Cardinality(Types(pre, e.hs)) > 1 IN
         {<<"C17.refused", bad => e.out # "ok" /\ o = s>>, <<"C17.outcome", ~bad /\ LensOK(pre, e.hs) => e.out = "ok">>}
         \cup (IF e.out # "ok" \/ bad THEN {<<"C17.unchanged", o = s>>}
               ELSE {<<"C17.assigned", o.rules = e.hs>>, <<"C17.keeps", Same(s, o, {"crit", "tr", "te", "sfl"})>>,
                     <<"C17.type", e.hs = <<>> \/ Types(post, e.hs) = {o.ty}>>}
                    \cup FeatClauses("C17", post, e.a) \cup UpToDate(post, e.a, TRUE, TRUE))
    [] e.k = "sort" ->
         LET s == pre.s[e.a]  o == post.s[e.a]
             usable == e.crit = "" \/ (\A h \in Rng(s.rules) : IsRat(SortAttr(pre.r[h], e.crit)))
                       \/ Len(s.rules) = 0
         IN IF ~usable THEN {}
            ELSE {<<"C17.outcome", e.out = "ok">>}
                 \cup (IF e.out # "ok" THEN {}
                       ELSE {<<"C17.permuted", Permutation(o.rules, s.rules)>>,
                             <<"C17.sorted", \A i, j \in DOMAIN o.rules : i < j =>
                                  LET a == post.r[o.rules[i]]  b == post.r[o.rules[j]] IN
                                  IF e.crit = "" THEN DefaultLe(e.rev, a, b) ELSE AttrLe(e.rev, e.crit, a, b)>>,
                             <<"C17.keeps", Same(s, o, {"crit", "tr", "te", "sfl", "ty", "act", "cov"}) /\ Rng(s.fn) = Rng(o.fn) /\ Rng(s.fi) = Rng(o.fi)>>}
                            \cup UpToDate(post, e.a, InStep(pre, e.a), StackInStep(pre, e.a)))
    [] e.k = "text" -> {<<"C17.text", e.out = "ok" /\ e.txt = TextOf(e.parts, e.x)>>}
    [] e.k = "bare" ->
         LET feats == UNION {Rng(e.parts[k]) : k \in DOMAIN e.parts}
             uses(i) == Cardinality({k \in DOMAIN e.parts : i \in Rng(e.parts[k])}) IN
         {<<"C17.bare", e.out = "ok" /\ e.frame /\ Rng(e.txt) = feats /\ Len(e.txt) = Cardinality(feats)>>}
         \cup (IF e.out # "ok" THEN {}
               ELSE {<<"C17.counts", {<<e.cnt[k][1], e.cnt[k][2]>> : k \in DOMAIN e.cnt} = {<<i, uses(i)>> : i \in feats}
                        /\ Len(e.cnt) = Cardinality(feats) /\ \A k \in DOMAIN e.cnt : k > 1 => e.cnt[k - 1][2] >= e.cnt[k][2]>>,
                     <<"C16.activation", e.act = OrAll(e.ms)>>})
    [] e.k = "has" ->
         {<<"C17.member", e.out = "ok" /\ e.val = (IF \E h \in Rng(pre.s[e.a].rules) :
                Key(pre.r[h]) = Key(pre.r[e.b]) /\ pre.r[h].pred = pre.r[e.b].pred THEN I(1) ELSE I(0))>>}
    [] e.k = "count" ->
         LET hs == pre.s[e.a].rules
             uses(n) == Cardinality({k \in DOMAIN hs : \E x \in Feats(pre.r[hs[k]]) : x.nm = n}) IN
         {<<"C17.counts", e.out = "ok" /\ {<<e.cnt[k][1], e.cnt[k][2]>> : k \in DOMAIN e.cnt} = {<<n, uses(n)>> : n \in NamesIn(pre, hs)}
              /\ Len(e.cnt) = Cardinality(NamesIn(pre, hs)) /\ \A k \in DOMAIN e.cnt : k > 1 => e.cnt[k - 1][2] >= e.cnt[k][2]>>}
    [] OTHER -> {}

\* ---- discarding stored activations: only those, and nothing known is lost
Discarded(r, o) == o = [r EXCEPT !.act = <<>>]
DelOps(pre, e, post) ==
  IF e.k # "del" THEN {}
  ELSE {<<"C26.outcome", e.out = "ok">>, <<"C26.files", e.files>>}
       \cup (CASE e.w = "r" -> {<<"C26.rule", Discarded(pre.r[e.a], post.r[e.a])>>}
               [] e.w = "rules" -> {<<"C26.rules", \A h \in Rng(pre.s[e.a].rules) : Discarded(pre.r[h], post.r[h])>>}
               [] e.w = "s" -> {<<"C26.set", Discarded(pre.s[e.a], post.s[e.a])>>}
               [] OTHER -> {<<"C26.stack", post.s[e.a] = [pre.s[e.a] EXCEPT !.hasstk = FALSE, !.stk = <<>>]>>})

\* ---- what a rule set computes for all its rules at once: by its stacked activations, or those of the table e.x;
\* e.comp: from the predictions the rules have, else from those of the targets
AskOps(pre, e, post) ==
  IF e.k # "ask" THEN {}
  ELSE LET s == pre.s[e.a]
           hs == s.rules
           y == pre.ys[e.y]
           own == e.x = 0
       IN IF own /\ ~s.hasstk THEN {<<"C28.noStack", e.out # "ok">>}
          ELSE IF (own /\ ~StackRight(pre, e.a)) \/ ~Distinct(pre, hs) \/ (e.comp /\ \E h \in Rng(hs) : Open(pre.r[h].pred)) THEN {}
          ELSE {<<"C28.outcome", e.out = "ok">>, <<"C28.labels", e.out = "ok" => e.names /\ Len(e.ms) = Len(hs)>>}
               \cup (IF e.out # "ok" \/ ~e.names \/ Len(e.ms) # Len(hs) THEN {}
                     ELSE UNION {LET r == pre.r[hs[i]]
                                     o == e.ms[i]
                                     v == FitExp(pre, hs[i], e.x, y, e.hz)
                                     p == IF e.comp THEN r.pred ELSE v.pred
                                     a == v.act
                                     c == IF r.ty # "reg" THEN CritCls(a, p, y)
                                          ELSE IF CritDefined(e.meth, y) THEN CritReg(e.meth, PredVec(a, p), y) ELSE Big
                                 IN {<<"C28.prediction", Agrees(v.pred, o.pred)>>, <<"C28.criterion", Agrees(c, o.crit)>>,
                                     <<"C28.sizes", o.tr = I(Len(y)) /\ o.te = I(Len(y))>>}
                                    \cup (IF r.ty # "reg" THEN {}
                                          ELSE {<<"C28.std", Agrees(v.std2, o.std2)>>,
                                                <<"C28.sign", IsRat(p) => o.sign = SignOf(p)>>,
                                                <<"C28.zscore", Agrees(Z2(p, a, y, e.hz), o.z2)>>})
                                 : i \in DOMAIN hs})

\* ---- saving and loading: e.a is saved, e.res loaded from the file
NoneIsNaN(a, b) == a = b \/ (a = Null /\ b = NaN)
Failed == <<<<7, 0>>>>
\* where no rule votes one mode gives missing values and the other an error
SamePreds(u, v) == u = v \/ (u = Failed /\ Rng(v) = {NaN}) \/ (v = Failed /\ Rng(u) = {NaN})
SaveOps(pre, e, post) ==
  IF e.k # "save" THEN {}
  ELSE IF pre.s[e.a].rules = <<>> THEN {<<"C22.nothing", e.out = "ok" => post.s[e.res].rules = <<>>>>}
  ELSE {<<"C22.outcome", e.out = "ok">>}
       \cup (IF e.out # "ok" THEN {}
             ELSE LET s == pre.s[e.a]  o == post.s[e.res] IN
                  {<<"C22.count", Len(o.rules) = Len(s.rules)>>}
                  \cup (IF Len(o.rules) # Len(s.rules) THEN {}
                        ELSE {<<"C22.conditions", \A k \in DOMAIN s.rules : Feats(post.r[o.rules[k]]) = Feats(pre.r[s.rules[k]])
                                                                         /\ post.r[o.rules[k]].imp = pre.r[s.rules[k]].imp>>,
                              <<"C22.types", o.ty = s.ty /\ \A k \in DOMAIN s.rules : post.r[o.rules[k]].ty = pre.r[s.rules[k]].ty>>,
                              <<"C22.values", \A k \in DOMAIN s.rules : \A f \in {"pred", "cov", "crit", "std2", "z2"} :
                                                 pre.r[s.rules[k]][f] = post.r[o.rules[k]][f]>>,
                              <<"C22.sizes", \A k \in DOMAIN o.rules : \A f \in {"tr", "te"} : IsRat(o[f]) => post.r[o.rules[k]][f] = o[f]>>,
                              <<"C22.exact", e.exact>>, <<"C22.names", e.names>>,
                              <<"C22.ruleset", \A f \in {"cov", "crit", "tr", "te"} : NoneIsNaN(s[f], o[f])>>,
                              <<"C22.features", Rng(o.fn) = NamesIn(pre, s.rules) /\ Rng(o.fi) = PosIn(pre, s.rules)>>,
                              <<"C22.again", e.again>>, <<"C22.frame", e.frame>>, <<"C22.fresh", o.act = <<>> /\ ~o.hasstk>>, <<"C22.predicts", Distinct(pre, s.rules) => SamePreds(e.vals, e.vals2)>>}))

\* ---- both modes side by side: e.o is what the other mode gave, on objects of its own
Kept(post, h) == post.s[h].rules
BothModes(pre, e, post) ==
  IF ~e.two THEN {}
  ELSE LET oth(h) == e.o.r[CHOOSE k \in DOMAIN e.o.r : e.o.r[k].h = h]
           oset(h) == e.o.s[CHOOSE k \in DOMAIN e.o.s : e.o.s[k].h = h]
           clash == \E h \in DOMAIN pre.s : ~Distinct(pre, pre.s[h].rules)
           votes == e.k \in {"pred", "eval"} /\ e.w = "s" /\ e.wt.kind # "none" /\ post.s[e.a].ty = "cls"
           differ == (e.out = "ok") # (e.o.out = "ok")
           hs == post.s[e.a].rules
           ms == Members(post, e, hs, IF e.k = "eval" /\ e.keep THEN 0 ELSE e.x)
           cancel == e.k = "pred" /\ e.w = "s" /\ e.wt.kind # "none" /\ \E k \in DOMAIN e.vals : MeanVote(ms, k) = Big
           \* a rule that was found bad keeps what it had learned by then, which is open; another set may still hold it
           shaky == e.k \in {"pred", "eval", "ask"} /\ e.a \in DOMAIN pre.s
                    /\ \E h \in Rng(pre.s[e.a].rules) : ~pre.r[h].good /\ ~Same(post.r[h], oth(h), Learned \cup {"crit", "te"})
       IN IF clash THEN {}
          ELSE IF differ /\ shaky THEN {}
          ELSE IF differ THEN   \* only where no rule votes: either mode may refuse
               {<<"C21.outcome", e.k \in {"pred", "eval"} /\ e.w = "s" /\ hs # <<>> /\
                    (NoWeights(ms) \/ NoVoters(ms, IF ms[1].act = <<>> THEN 0 ELSE Len(ms[1].act)))>>}
          ELSE IF DOMAIN post.r # {e.o.r[k].h : k \in DOMAIN e.o.r} \/ DOMAIN post.s # {e.o.s[k].h : k \in DOMAIN e.o.s}
               THEN {<<"C21.objects", FALSE>>}
          ELSE {<<"C21.good", \A h \in DOMAIN post.r : post.r[h].good = oth(h).good>>,
                <<"C21.rules", \A h \in {g \in DOMAIN post.r : post.r[g].good /\ oth(g).good} : Same(post.r[h], oth(h), {"ty", "fs", "act", "cov", "pred", "std2", "sign", "z2", "crit", "tr", "te"})>>,
                <<"C21.sets", \A h \in DOMAIN post.s : Same(post.s[h], oset(h), {"rules", "ty", "act", "cov", "tr", "te"})
                                 /\ Rng(post.s[h].fn) = Rng(oset(h).fn) /\ Rng(post.s[h].fi) = Rng(oset(h).fi)>>,
                <<"C21.criterion", e.k # "eval" \/ e.w # "s" \/ e.wt.kind # "none" \/ shaky \/ post.s[e.a].crit = oset(e.a).crit>>,
                <<"C21.dropped", e.drop = e.o.drop>>,
                <<"C21.predictions", votes \/ cancel \/ shaky \/ (e.w = "r" /\ e.k = "pred" /\ ~pre.r[e.a].good) \/ e.out # "ok" \/ e.o.out # "ok" \/ e.vals = e.o.vals>>}

Clauses(pre, e, post) ==
  Frame(pre, e, post) \cup Always(post, e) \cup RuleOps(pre, e, post) \cup SetOps(pre, e, post) \cup CollOps(pre, e, post)
  \cup (IF e.k \in {"fit", "eval", "calc"} /\ e.w = "s" /\ e.out # "ok"
        THEN {<<"C13.refused", Same(pre.s[e.a], post.s[e.a], {"sfl"}) /\ \A h \in Rng(pre.s[e.a].rules) :
                                 Same(pre.r[h], post.r[h], IF e.k = "fit" THEN {"ty", "fs", "imp"}
                                                           ELSE {f \in Learned : ~Learns(pre, pre.r[h], f)})>>} ELSE {})
  \cup BadOps(pre, e, post) \cup AskOps(pre, e, post) \cup OneOps(pre, e, post) \cup SetOneOps(pre, e, post)
  \cup SaveOps(pre, e, post) \cup DelOps(pre, e, post) \cup BothModes(pre, e, post)
Failing(C) == {c[1] : c \in {x \in C : ~x[2]}}
=============================================================================
