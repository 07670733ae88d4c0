------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* Rules extracted from a decision tree.                                   *)
(*                                                                         *)
(* A tree is a sequence of nodes [l, r, f, t, v]: children (0: none, then  *)
(* the node is a leaf), position of the feature (from 0), threshold and    *)
(* value(s): the mean of a regression node, the weights of the classes of  *)
(* a classification node.  Node 1 is the root; a row goes left when its    *)
(* value is at most the threshold.  Numbers are ranks in an ordered table: *)
(* only their order matters here.                                          *)
(*                                                                         *)
(* An extraction is an event e: tree N and type ty, ranges mins and maxs,  *)
(* names of the features, leaf (leaves only, or all nodes but the root),   *)
(* the rules extracted ([ty, fs, pred], fs a sequence of [nm, ix, lo, hi]),*)
(* and, for some rows, the activations of the rules, the prediction of the *)
(* rules and that of the tree.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

MaxI(S) == CHOOSE x \in S : \A y \in S : y <= x
MinI(S) == CHOOSE x \in S : \A y \in S : x <= y
Rng(s) == {s[k] : k \in DOMAIN s}
IsLeaf(N, n) == N[n].l = 0

\* the nodes that give rules, in depth-first order
RECURSIVE Order(_, _, _)
Order(N, n, leaf) ==
  IF IsLeaf(N, n) THEN IF leaf THEN <<n>> ELSE <<>>
  ELSE LET one(m) == IF leaf THEN <<>> ELSE <<m>> IN
       one(N[n].l) \o Order(N, N[n].l, leaf) \o one(N[n].r) \o Order(N, N[n].r, leaf)

\* the turns on the path from the root
RECURSIVE Turns(_, _)
Turns(N, n) ==
  LET P == {p \in DOMAIN N : ~IsLeaf(N, p) /\ n \in {N[p].l, N[p].r}} IN
  IF n = 1 \/ P = {} THEN {}
  ELSE LET p == CHOOSE q \in P : TRUE IN
       Turns(N, p) \cup {[f |-> N[p].f, t |-> N[p].t, side |-> IF N[p].l = n THEN "l" ELSE "r"]}

Region(N, n, e) ==
  LET T == Turns(N, n) IN
  {[nm |-> e.names[f + 1], ix |-> f,
    lo |-> MaxI({e.mins[f + 1]} \cup {t.t : t \in {u \in T : u.f = f /\ u.side = "r"}}),
    hi |-> MinI({e.maxs[f + 1]} \cup {t.t : t \in {u \in T : u.f = f /\ u.side = "l"}})] : f \in {t.f : t \in T}}

\* the value of a node, or the position of its most probable class, the first of them
Value(N, n, ty) ==
  IF ty = "reg" THEN N[n].v[1]
  ELSE MinI({k \in DOMAIN N[n].v : \A j \in DOMAIN N[n].v : N[n].v[j] <= N[n].v[k]})

RECURSIVE Reach(_, _, _)
Reach(N, n, row) ==
  IF IsLeaf(N, n) THEN n ELSE Reach(N, IF row[N[n].f + 1] <= N[n].t THEN N[n].l ELSE N[n].r, row)

Inside(e, row) == \A f \in DOMAIN row : e.mins[f] <= row[f] /\ row[f] <= e.maxs[f]
OnThreshold(N, row) == \E n \in DOMAIN N : ~IsLeaf(N, n) /\ row[N[n].f + 1] = N[n].t
Sat(fs, row) == \A k \in DOMAIN fs : fs[k].ix + 1 \in DOMAIN row /\ fs[k].lo <= row[fs[k].ix + 1] /\ row[fs[k].ix + 1] <= fs[k].hi

Failing(C) == {c[1] : c \in {d \in C : ~d[2]}}
Clauses(e) ==
  LET N == e.N
      ord == Order(N, 1, e.leaf)
      all == Len(e.rules) = Len(ord)
      rows == {k \in DOMAIN e.rows : Inside(e, e.rows[k]) /\ ~OnThreshold(N, e.rows[k])}
      right(k) == Len(e.act[k]) = Len(e.rules) /\ Cardinality({j \in DOMAIN e.rules : e.act[k][j] = 1}) = 1
                  /\ \E j \in DOMAIN e.rules : e.act[k][j] = 1 /\ j <= Len(ord) /\ ord[j] = Reach(N, 1, e.rows[k])
  IN  {<<"C23.inputs", e.same>>} \cup
      IF e.out # "ok" THEN {<<"C23.outcome", FALSE>>}
      ELSE {<<"C23.count", all>>,
            <<"C23.type", \A j \in DOMAIN e.rules : e.rules[j].ty = e.ty>>,
            <<"C23.region", all => \A j \in DOMAIN ord : Rng(e.rules[j].fs) = Region(N, ord[j], e)
                                                        /\ Cardinality(Rng(e.rules[j].fs)) = Len(e.rules[j].fs)>>,
            <<"C23.prediction", all => \A j \in DOMAIN ord : e.rules[j].pred = Value(N, ord[j], e.ty)>>,
            <<"C23.unshared", ~e.shared>>,
            <<"C23.activation", \A k \in DOMAIN e.act : Len(e.act[k]) = Len(e.rules)
                                  /\ \A j \in DOMAIN e.rules : e.act[k][j] = IF Sat(e.rules[j].fs, e.rows[k]) THEN 1 ELSE 0>>,
            <<"C23.partition", e.leaf /\ e.act # <<>> => \A k \in rows : right(k)>>,
            <<"C23.tree", \A k \in DOMAIN e.tpred : e.tpred[k] = Value(N, Reach(N, 1, e.rows[k]), e.ty)>>,
            <<"C23.agrees", e.leaf /\ e.rpred # <<>> => \A k \in rows : e.rpred[k] = e.tpred[k]>>}
=============================================================================
