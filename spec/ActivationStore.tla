-------------------------- MODULE ActivationStore --------------------------
(***************************************************************************)
(* Activation vectors as a user sees them: handles that denote 0/1 vectors,*)
(* some kept in files, a class-wide configuration, and a file system.      *)
(*                                                                         *)
(* A state is [h, f, cfg]:                                                 *)
(*   h    handle -> [v : vector, p : path (0: in memory), z : 0 plain,     *)
(*                   1 lazily opened and not loaded, 2 lazily opened]      *)
(*   f    path -> [l : is it a vector file of the library, d : directory,  *)
(*                 v : the vector it holds, x : fingerprint of its bytes]  *)
(*   cfg  the class-wide configuration                                     *)
(*                                                                         *)
(* An event e is a public call with its arguments and its outcome.         *)
(* Clauses(pre, e, post) is the transition relation, as a set of named     *)
(* conjuncts <<name, truth>>: a step is allowed iff all of them are true.  *)
(* MC_Act checks them on the operational model below (Step), Trace_Act on  *)
(* executions of the implementation.                                       *)
(***************************************************************************)
EXTENDS RunVec, TLC

Views == {"raw", "bits", "int", "cstr", "carr", "comp", "copyraw"}
Stats == {"ones", "nones", "cov", "ent", "rent", "len", "lenf"}

Ids(s) == {s[k] : k \in DOMAIN s}
Involved(e) == {x \in ({e.a, e.b} \cup Ids(e.hs)) : x # 0}
VecOf(st, i) == st.h[i].v

SameLen(pre, e) ==
  IF e.k = "multi" THEN \A x, y \in Ids(e.hs) : VecOf(pre, x).n = VecOf(pre, y).n
  ELSE VecOf(pre, e.a).n = VecOf(pre, e.b).n

\* ---- what a step must do to the vectors -------------------------------------------------
ResultVec(pre, e) ==
  CASE e.k = "new"   -> Vec(e.v)
    [] e.k = "op"    -> VOp(e.op, VecOf(pre, e.a), VecOf(pre, e.b))
    [] e.k = "multi" -> VMulti(e.op, [x \in DOMAIN e.hs |-> VecOf(pre, e.hs[x])])
    [] e.k = "copy"  -> VecOf(pre, e.a)

Killed(pre, e) ==
  CASE e.k = "del"   -> {e.a}
    [] e.k = "clean" -> {i \in DOMAIN pre.h : /\ pre.h[i].p \in DOMAIN pre.f
                                              /\ pre.f[pre.h[i].p].l = 1
                                              /\ pre.f[pre.h[i].p].d = pre.cfg.td}
    [] OTHER -> {}

\* the value of every old handle after the step
OldValue(pre, e, i) == IF e.k = "clear" /\ e.a = i THEN Zeros(pre.h[i].v.n) ELSE pre.h[i].v

\* which outcomes are allowed
Outcomes(pre, e) ==
  CASE e.k = "new" -> IF e.form \in {"bad-int"} THEN {"ValueError"}
                      ELSE IF e.form \in {"bad-type"} THEN {"TypeError"} ELSE {"ok"}
    [] e.k \in {"op", "rel"} -> IF SameLen(pre, e) THEN {"ok"} ELSE {"ValueError"}
    [] e.k = "multi" -> IF ~SameLen(pre, e) THEN {"ValueError", "MemoryError"}
                        ELSE IF e.mem = "ok" THEN {"ok"} ELSE {"ok", "MemoryError"}
    [] OTHER -> {"ok"}

\* ---- files -------------------------------------------------------------------------------
NewFiles(pre, post) == DOMAIN post.f \ DOMAIN pre.f
Kept(pre, post, except) ==
  \A p \in DOMAIN pre.f \ except : p \in DOMAIN post.f /\ post.f[p] = pre.f[p]
Lazies(pre, e) == {i \in Involved(e) : pre.h[i].z = 1}
\* the only files an observation may add are the loaded copies of lazily opened vectors
OnlyLoads(pre, e, post) ==
  /\ Cardinality(NewFiles(pre, post)) <= Cardinality(Lazies(pre, e))
  /\ \A p \in NewFiles(pre, post) : \E i \in Lazies(pre, e) : post.f[p].v = pre.h[i].v
CleanSet(pre) == {p \in DOMAIN pre.f : pre.f[p].l = 1 /\ pre.f[p].d = pre.cfg.td}

\* ---- invariants of a state -----------------------------------------------------------------
OwnFile(st, i) == st.h[i].p # 0 /\ st.h[i].z = 0
Isolated(st) == \A i, j \in DOMAIN st.h : (i # j /\ OwnFile(st, i) /\ OwnFile(st, j)) => st.h[i].p # st.h[j].p
HoldsItsBits(st) == \A i \in DOMAIN st.h : st.h[i].p # 0 =>
                       st.h[i].p \in DOMAIN st.f /\ st.f[st.h[i].p].v = st.h[i].v

\* ---- the transition relation ---------------------------------------------------------------
Prefixed(pre, e) ==      \* the properties to which a disturbance of other vectors is charged
  CASE e.k \in {"new", "flag"} -> {"C01"}
    [] e.k = "get"  -> IF e.w \in Views THEN {"C01", "C05"} ELSE {"C02", "C05"}
    [] e.k = "prof" -> {"C05"}
    [] e.k \in {"op", "multi"} -> {"C03"}
    [] e.k = "rel" -> {"C03", "C05"}
    [] OTHER -> {"C04"}

Clauses(pre, e, post) ==
  LET outOk == e.out \in Outcomes(pre, e)
      good  == e.out = "ok" /\ outOk
      makes == e.k \in {"new", "op", "multi", "copy"}
      expR  == ResultVec(pre, e)
      old   == (DOMAIN pre.h \ Killed(pre, e)) \cap DOMAIN post.h
      disturbed == {i \in old : post.h[i].v # OldValue(pre, e, i)}
      nf    == NewFiles(pre, post)
      own   == IF e.res # 0 /\ e.res \in DOMAIN post.h THEN post.h[e.res].p ELSE 0
      resz  == IF e.res # 0 /\ e.res \in DOMAIN post.h THEN post.h[e.res].z ELSE 0
      charge(nm, t) == {<<p \o nm, t>> : p \in Prefixed(pre, e)}
      common ==
        charge(".outcome", outOk)
        \cup charge(".othersUnchanged", disturbed = {})
        \cup {<<"C05.config", e.k = "flag" \/ post.cfg = pre.cfg>>}
        \cup {<<"C04.holdsItsBits", \A i \in old : post.h[i].p # 0 =>
                    post.h[i].p \in DOMAIN post.f /\ post.f[post.h[i].p].v = OldValue(pre, e, i)>>}
        \cup {<<"C04.isolated", Isolated(post)>>}
      result ==
        IF makes /\ good /\ e.res # 0
        THEN LET okv == post.h[e.res].v = expR IN
             (CASE e.k = "new" -> {<<"C01.stored", okv>>}
                [] e.k \in {"op", "multi"} -> {<<"C03.result", okv>>}
                [] e.k = "copy" -> {<<"C01.copied", okv>>, <<"C04.copied", okv>>})
             \cup {<<"C04.ownFile", own # 0 /\ resz = 0 =>
                        /\ own \notin DOMAIN pre.f
                        /\ own \in DOMAIN post.f
                        /\ \A i \in DOMAIN pre.h : pre.h[i].p # own
                        /\ post.f[own].v = post.h[e.res].v>>}
             \cup {<<"C04.newOnly", e.k \in {"new", "copy"} => Cardinality(nf \ {own}) <= Cardinality(Lazies(pre, e))>>}
        ELSE IF makes /\ good    \* multi asked for an array
             THEN {<<"C03.array", Vec(e.rv) = expR>>} ELSE {}
      files ==
        CASE e.k = "del" ->
               {<<"C04.deleteOwn", LET x == IF pre.h[e.a].p = 0 THEN {} ELSE {pre.h[e.a].p} IN
                                     DOMAIN post.f = DOMAIN pre.f \ x /\ Kept(pre, post, x)>>}
          [] e.k = "clean" ->
               {<<"C04.clean", DOMAIN post.f = DOMAIN pre.f \ CleanSet(pre) /\ Kept(pre, post, CleanSet(pre))>>}
          [] e.k = "clear" ->
               {<<"C04.clear", Kept(pre, post, {pre.h[e.a].p}) /\ post.h[e.a].v = Zeros(pre.h[e.a].v.n)>>}
          [] OTHER ->
               {<<"C04.filesKept", Kept(pre, post, {})>>}
               \cup (IF e.k \in {"get", "prof", "rel", "flag"}
                     THEN {<<"C05.noFileChange", Kept(pre, post, {}) /\ OnlyLoads(pre, e, post)>>} ELSE {})
      reading ==
        IF ~good THEN {}
        ELSE CASE e.k = "get" ->
               LET v == VecOf(pre, e.a) IN
              (CASE e.w \in Views -> {<<"C01.view", Vec(e.rv) = v>>}
                 [] e.w = "ones"  -> {<<"C02.ones", Vec(e.rv) = v>>}
                 [] e.w = "nones" -> {<<"C02.nones", e.rn = I(NOnes(v))>>}
                 [] e.w = "cov"   -> {<<"C02.coverage", e.rn = Coverage(v)>>}
                 [] e.w = "ent"   -> {<<"C02.entropy", e.rn = I(Entropy(v))>>}
                 [] e.w = "rent"  -> {<<"C02.relEntropy", e.rn = RelEntropy(v)>>}
                 [] e.w \in {"len", "lenf"} -> {<<"C01.length", e.rn = I(v.n)>>, <<"C02.length", e.rn = I(v.n)>>})
             [] e.k = "rel" ->
               LET a == VecOf(pre, e.a)  b == VecOf(pre, e.b) IN
              (CASE e.w = "in"   -> {<<"C03.contains", e.rb = VSubset(a, b)>>}   \* a in b
                 [] e.w = "corr" -> {<<"C03.correlation", e.rn = Correlation(a, b)>>})
             [] e.k = "prof" -> {<<"C05.profile", pre.cfg.fs = 1 \/ e.w = "count" => e.rb>>}
             [] OTHER -> {}
  IN  common \cup result \cup files \cup reading

Failing(C) == {c[1] : c \in {x \in C : ~x[2]}}
=============================================================================
