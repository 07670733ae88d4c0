----------------------------- MODULE Conditions -----------------------------
(***************************************************************************)
(* Hyperrectangle conditions.  A condition is a sequence of features       *)
(* [nm, ix, lo, hi] (name, position, bounds) and a flag imp.  Names, bounds*)
(* and table values are ranks in fixed ordered tables of names and floating*)
(* point numbers (the harness keeps the tables; order and equality is all  *)
(* the specification needs, so that infinities, neighbouring floats and    *)
(* huge numbers are ordinary values); value 0 of a table is a missing one. *)
(*                                                                         *)
(* A state is [c : handle -> condition, mode : "index" | "name",           *)
(*   xn : seq, default names of positions 0, 1, ...,                       *)
(*   inf : [lo, hi] ranks of the infinities].                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Feats(c) == {c.fs[k] : k \in DOMAIN c.fs}
NamesOf(c) == {x.nm : x \in Feats(c)}
PosOf(c) == {x.ix : x \in Feats(c)}
Key(c) == {<<x.nm, x.lo, x.hi>> : x \in Feats(c)}      \* what equality is about
Imp(fs) == \E k \in DOMAIN fs : fs[k].lo > fs[k].hi
WF(c) ==
  /\ \A j, k \in DOMAIN c.fs : j # k => c.fs[j].nm # c.fs[k].nm /\ c.fs[j].ix # c.fs[k].ix
  /\ c.imp = Imp(c.fs)
Order(mode, a, b) == IF mode = "index" THEN a.ix < b.ix ELSE a.nm < b.nm
Sorted(mode, fs) == SetToSortSeq({fs[k] : k \in DOMAIN fs}, LAMBDA a, b : Order(mode, a, b))
Cond(fs) == [fs |-> fs, imp |-> Imp(fs)]

\* ---- construction: the arguments and when they are refused
\* e.nms, e.ixs, e.los, e.his: given values (<<>> and has* = FALSE: not given), -1: a value of a wrong type
NFeat(e) == IF e.hasi THEN Len(e.ixs) ELSE Len(e.nms)
Dup(s) == Cardinality({s[k] : k \in DOMAIN s}) # Len(s)
Wrong(s) == \E k \in DOMAIN s : s[k] = -1
ArgIx(e) == IF e.hasi THEN e.ixs ELSE [k \in 1..Len(e.nms) |-> k - 1]
ArgNm(st, e) == IF e.hasn THEN e.nms ELSE [k \in 1..Len(e.ixs) |-> st.xn[e.ixs[k] + 1]]
BadNew(e) ==
  \/ ~e.hasi /\ ~e.hasn
  \/ ~e.haslo \/ ~e.hashi
  \/ Len(e.los) # NFeat(e) \/ Len(e.his) # NFeat(e) \/ (e.hasn /\ Len(e.nms) # NFeat(e))
  \/ Wrong(e.nms) \/ Wrong(e.ixs) \/ Wrong(e.los) \/ Wrong(e.his)
  \/ Dup(e.nms) \/ Dup(e.ixs)
NewCond(st, e) ==
  LET fs == [k \in 1..NFeat(e) |-> [nm |-> ArgNm(st, e)[k], ix |-> ArgIx(e)[k], lo |-> e.los[k], hi |-> e.his[k]]]
  IN  Cond(IF e.sort THEN Sorted(st.mode, fs) ELSE fs)

\* ---- assignment to one of the four lists
BadSet(c, e) == Len(e.val) # Len(c.fs) \/ Wrong(e.val) \/ (e.w \in {"nm", "ix"} /\ Dup(e.val))
SetCond(c, e) ==
  Cond([k \in DOMAIN c.fs |->
          CASE e.w = "nm" -> [c.fs[k] EXCEPT !.nm = e.val[k]]
            [] e.w = "ix" -> [c.fs[k] EXCEPT !.ix = e.val[k]]
            [] e.w = "lo" -> [c.fs[k] EXCEPT !.lo = e.val[k]]
            [] e.w = "hi" -> [c.fs[k] EXCEPT !.hi = e.val[k]]])
\* in-place change of one bound, announced by assigning the list again
PokeCond(c, e) ==
  Cond([c.fs EXCEPT ![e.at] = IF e.w = "lo" THEN [@ EXCEPT !.lo = e.val[1]] ELSE [@ EXCEPT !.hi = e.val[1]]])

\* ---- conjunction
Conflict(a, b) ==
  \E x \in Feats(a), y \in Feats(b) : (x.nm = y.nm /\ x.ix # y.ix) \/ (x.nm # y.nm /\ x.ix = y.ix)
Max2(x, y) == IF x < y THEN y ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
AndFeats(a, b) ==
  {x \in Feats(a) : x.nm \notin NamesOf(b)} \cup {y \in Feats(b) : y.nm \notin NamesOf(a)}
  \cup {[nm |-> x.nm, ix |-> x.ix,
         lo |-> Max2(x.lo, (CHOOSE y \in Feats(b) : y.nm = x.nm).lo),
         hi |-> Min2(x.hi, (CHOOSE y \in Feats(b) : y.nm = x.nm).hi)] : x \in {z \in Feats(a) : z.nm \in NamesOf(b)}}

\* ---- evaluation.  A table is [kind, cols, rows]: rows of ranks; cols: names of the columns of a data frame
Within(st, x, v) == v # 0 /\ v # st.inf.lo /\ v # st.inf.hi /\ x.lo <= v /\ v <= x.hi
ColOf(t, x) == IF t.kind = "array" THEN (IF x.ix + 1 <= t.nc THEN {x.ix + 1} ELSE {})
               ELSE {k \in DOMAIN t.cols : t.cols[k] = x.nm}
Missing(t, c) == \E x \in Feats(c) : ColOf(t, x) = {}
ActRow(st, t, c, r) ==
  ~Imp(c.fs) /\ \A x \in Feats(c) : \E k \in ColOf(t, x) : Within(st, x, t.rows[r][k])
Act(st, t, c) == [r \in DOMAIN t.rows |-> IF ActRow(st, t, c, r) THEN 1 ELSE 0]

\* ---- rule sets as sets of keys
Keys(st, hs) == {Key(st.c[hs[k]]) : k \in DOMAIN hs}

\* ---- the transition relation
Expected(pre, e) ==      \* the conditions after the step
  CASE e.k = "new"  -> IF e.out = "ok" /\ ~BadNew(e) THEN (e.res :> NewCond(pre, e)) @@ pre.c ELSE pre.c
    [] e.k = "sort" -> [pre.c EXCEPT ![e.a] = [@ EXCEPT !.fs = Sorted(pre.mode, @)]]
    [] e.k = "set"  -> IF BadSet(pre.c[e.a], e) THEN pre.c ELSE [pre.c EXCEPT ![e.a] = SetCond(@, e)]
    [] e.k = "poke" -> [pre.c EXCEPT ![e.a] = PokeCond(@, e)]
    [] OTHER -> pre.c
Charge(e) == CASE e.via = "rule" \/ e.k \in {"show", "junk"} -> "C27" [] e.k = "and" -> "C07" [] e.k = "cmp" -> "C08" [] e.k = "eval" -> "C06" [] OTHER -> "C09"

Clauses(pre, e, post) ==
  LET ch(nm, t) == {<<Charge(e) \o nm, t>>}
      exp == Expected(pre, e)
      old == DOMAIN pre.c
      kept == \A h \in old : h \in DOMAIN post.c /\ post.c[h] = exp[h]
  IN
  {<<"C09.impossible", \A h \in DOMAIN post.c : post.c[h].imp = Imp(post.c[h].fs)>>}
  \cup {<<"C09.wellFormed", \A h \in DOMAIN post.c : WF(post.c[h])>>}
  \cup {<<Charge(e) \o ".mode", e.k = "mode" \/ post.mode = pre.mode>>}
  \cup (IF e.k = "poke" THEN {<<"C07.isolated", kept>>, <<"C09.isolated", kept>>} ELSE ch(".others", kept))
  \cup
  \* what is done through a rule is done to its condition
  (IF e.via = "rule" /\ e.k = "set"
   THEN {<<"C27.refused", BadSet(pre.c[e.a], e) => e.out # "ok">>, <<"C27.accepted", ~BadSet(pre.c[e.a], e) => e.out = "ok">>}
   ELSE IF e.via = "rule" /\ e.k = "poke" THEN {<<"C27.accepted", e.out = "ok">>, <<"C27.follows", kept>>}
   ELSE IF e.via = "rule" /\ e.k = "eval" /\ ~Missing(e.tab, pre.c[e.a])
   THEN {<<"C27.evaluates", e.out = "ok" /\ e.act = Act(pre, e.tab, pre.c[e.a])>>}
   ELSE IF e.k = "cmp" /\ e.w = "face"
   THEN {<<"C27.identity", e.out = "ok" /\ e.eq = (Key(pre.c[e.a]) = Key(pre.c[e.b])) /\ (e.eq => e.heq)>>} ELSE {})
  \cup
  (CASE e.k = "new" ->
          {<<"C09.refused", BadNew(e) => e.out # "ok">>, <<"C09.accepted", ~BadNew(e) => e.out = "ok">>,
           <<"C09.built", (~BadNew(e) /\ e.out = "ok") => e.res \in DOMAIN post.c /\ post.c[e.res] = exp[e.res]>>}
     [] e.k \in {"sort", "poke", "mode"} -> {<<"C09.outcome", e.out = "ok">>}
     [] e.k = "set" ->
          {<<"C09.refused", BadSet(pre.c[e.a], e) => e.out # "ok">>,
           <<"C09.accepted", ~BadSet(pre.c[e.a], e) => e.out = "ok">>}
     [] e.k = "and" ->
          LET a == pre.c[e.a]  b == pre.c[e.b]  bad == Conflict(a, b) IN
          {<<"C07.refused", bad => e.out # "ok">>, <<"C07.accepted", ~bad => e.out = "ok">>}
          \cup (IF bad \/ e.out # "ok" THEN {}
                ELSE {<<"C07.result", e.res \in DOMAIN post.c /\ Feats(post.c[e.res]) = AndFeats(a, b)
                                       /\ Len(post.c[e.res].fs) = Cardinality(AndFeats(a, b))>>,
                      <<"C07.impossible", post.c[e.res].imp = (\E x \in AndFeats(a, b) : x.lo > x.hi)>>}
                     \cup (IF e.tab.kind = "none" \/ Missing(e.tab, a) \/ Missing(e.tab, b) THEN {}
                           ELSE {<<"C07.activates", e.act =
                                   [r \in DOMAIN e.tab.rows |-> IF ActRow(pre, e.tab, a, r) /\ ActRow(pre, e.tab, b, r)
                                                                THEN 1 ELSE 0]>>}))
     [] e.k = "eval" ->
          LET c == pre.c[e.a]  t == e.tab IN
          {<<"C06.input", e.same>>}
          \cup (IF Missing(t, c)
                THEN {<<"C06.missing", e.out # "ok" \/ (Imp(c.fs) /\ e.act = [r \in DOMAIN t.rows |-> 0])>>}
                ELSE {<<"C06.outcome", e.out = "ok">>, <<"C06.rows", e.out = "ok" => e.act = Act(pre, t, c)>>})
     [] e.k = "show" ->
          LET c == pre.c[e.a]  t == e.tab  miss == t.kind # "none" /\ Missing(t, c) IN
          IF e.out # "ok" THEN {<<"C27.outcome", miss>>}
          ELSE {<<"C27.reads", e.fs = [k \in DOMAIN c.fs |-> <<c.fs[k].nm, c.fs[k].ix, c.fs[k].lo, c.fs[k].hi>>] /\ e.imp = c.imp>>,
                <<"C27.items", e.items = e.fs>>, <<"C27.text", e.look>>}
               \cup (IF t.kind = "none" \/ miss THEN {}
                     ELSE {<<"C27.activation", e.act = Act(pre, t, c) /\ e.len = Len(t.rows) /\ e.hs = <<e.n, e.len, 1>>
                                               /\ e.n = Cardinality({r \in DOMAIN t.rows : ActRow(pre, t, c, r)})>>})
     [] e.k = "junk" -> {<<"C27.unknown", e.out # "ok" /\ e.look>>}
     [] e.k = "cmp" ->
          LET same == IF e.w = "set" THEN Keys(pre, e.hs) = Keys(pre, e.hs2)
                      ELSE Key(pre.c[e.a]) = Key(pre.c[e.b])
          IN {<<"C08.outcome", e.out = "ok">>}
             \cup (IF e.out # "ok" THEN {}
                   ELSE {<<"C08.equal", e.eq = same>>, <<"C08.notEqual", e.ne = ~same>>,
                         <<"C08.hash", same => e.heq>>}
                        \cup (IF e.w = "set" THEN {<<"C08.distinct", e.n = Cardinality(Keys(pre, e.hs))>>}
                              ELSE {<<"C08.distinct", e.n = (IF same THEN 1 ELSE 2)>>, <<"C08.lookup", e.look = same>>}))
     [] OTHER -> {})

Failing(C) == {c[1] : c \in {x \in C : ~x[2]}}
=============================================================================
