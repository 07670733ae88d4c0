------------------------------ MODULE MC_Tree ------------------------------
(***************************************************************************)
(* Every decision tree with a few splits, grown leaf by leaf, and the walk *)
(* that the code makes over it: depth first, carrying the condition of the *)
(* node, whose features are sorted by name; on a feature already bounded   *)
(* one bound moves, another one is joined.                                 *)
(*   Conforms: the rules of the walk satisfy the clauses of Trees; on every *)
(*   row of the grid exactly one leaf rule holds, that of the leaf reached. *)
(* Ranks: ranges 1..Top, thresholds even, values of rows odd.              *)
(***************************************************************************)
EXTENDS Trees, Json, IOUtils
CONSTANTS Ty, Splits, Feats, Top, Mutant
VARIABLES N, ev
vars == <<N, ev>>

NAMES == <<2, 1, 3>>                                 \* not in the order of the positions
VAL(n) == IF Ty = "reg" THEN <<n>> ELSE <<<<2, 1>>, <<1, 2>>, <<2, 2>>>>[(n % 3) + 1]
Leaf(n) == [l |-> 0, r |-> 0, f |-> 0, t |-> 0, v |-> VAL(n)]
MINS == [f \in 1..Feats |-> 1]
MAXS == [f \in 1..Feats |-> Top]
Base == [names |-> SubSeq(NAMES, 1, Feats), mins |-> MINS, maxs |-> MAXS]

\* ---- the walk
Feat(f, lo, hi) == [nm |-> Base.names[f + 1], ix |-> f, lo |-> lo, hi |-> hi]
Sorted(s) == SortSeq(s, LAMBDA a, b : a.nm < b.nm)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
At(c, f) == {k \in DOMAIN c : c[k].ix = f}
Left(c, f, t) ==
  IF At(c, f) = {} THEN Sorted(c \o <<Feat(f, 1, t)>>)
  ELSE LET k == CHOOSE j \in At(c, f) : TRUE IN [c EXCEPT ![k].hi = Min2(t, @)]
Right(c, f, t) ==
  IF At(c, f) = {} THEN Sorted(c \o <<Feat(f, t, Top)>>)
  ELSE LET k == CHOOSE j \in At(c, f) : TRUE IN
       [c EXCEPT ![k].lo = Max2(t, @), ![k].hi = IF Mutant = "wide" THEN Max2(Top, @) ELSE Min2(Top, @)]
Rule(T, c, n) == [ty |-> Ty, fs |-> c, pred |-> Value(T, n, Ty)]
RECURSIVE Walk(_, _, _, _)
Walk(T, n, c, leaf) ==
  IF IsLeaf(T, n) THEN IF leaf THEN <<Rule(T, c, n)>> ELSE <<>>
  ELSE LET lc == Left(c, T[n].f, T[n].t)
           rc == Right(c, T[n].f, T[n].t)
           one(cc, m) == IF leaf THEN <<>> ELSE <<Rule(T, cc, IF Mutant = "parent" THEN n ELSE m)>> IN
       one(lc, T[n].l) \o Walk(T, T[n].l, lc, leaf) \o one(rc, T[n].r) \o Walk(T, T[n].r, rc, leaf)

Odd == {v \in 1..Top : v % 2 = 1}
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE z \in S : TRUE IN <<x>> \o ListOf(S \ {x})
ROWS == ListOf([1..Feats -> Odd])
Event(T, leaf) ==
  LET R == Walk(T, 1, <<>>, leaf)
      act == [k \in DOMAIN ROWS |-> [j \in DOMAIN R |-> IF Sat(R[j].fs, ROWS[k]) THEN 1 ELSE 0]]
      tp == [k \in DOMAIN ROWS |-> Value(T, Reach(T, 1, ROWS[k]), Ty)]
      on(k) == {R[j].pred : j \in {m \in DOMAIN R : act[k][m] = 1}}
  IN  [k |-> "tree", out |-> "ok", N |-> T, ty |-> Ty, names |-> Base.names, mins |-> MINS, maxs |-> MAXS, leaf |-> leaf, rules |-> R,
       same |-> TRUE, shared |-> FALSE, rows |-> ROWS, act |-> act, tpred |-> tp,
       rpred |-> IF leaf THEN [k \in DOMAIN ROWS |-> IF Cardinality(on(k)) = 1 THEN CHOOSE x \in on(k) : TRUE ELSE 0] ELSE <<>>]

\* ---- growth: a leaf is split by a threshold inside its region
Bound(T, n, f) ==
  LET R == {g \in Region(T, n, Base) : g.ix = f} IN
  IF R = {} THEN [lo |-> 1, hi |-> Top] ELSE LET g == CHOOSE h \in R : TRUE IN [lo |-> g.lo, hi |-> g.hi]
NSplits(T) == Cardinality({n \in DOMAIN T : ~IsLeaf(T, n)})
Init == N = <<Leaf(1)>> /\ ev = [k |-> "none"]
Next ==
  /\ NSplits(N) < Splits
  /\ \E n \in DOMAIN N, f \in 0..(Feats - 1), t \in 1..Top, leaf \in BOOLEAN :
       /\ IsLeaf(N, n) /\ t % 2 = 0
       /\ LET b == Bound(N, n, f) IN b.lo < t /\ t < b.hi
       /\ LET m == Len(N) IN
          N' = Append(Append([N EXCEPT ![n] = [@ EXCEPT !.l = m + 1, !.r = m + 2, !.f = f, !.t = t]], Leaf(m + 1)), Leaf(m + 2))
       /\ ev' = Event(N', leaf)
Spec == Init /\ [][Next]_vars

Conforms == [][Failing(Clauses(ev')) = {}]_vars
View == N
Emit == IF "HIST" \in DOMAIN IOEnv
        THEN PrintT(<<"HIST", ToJson(<<[N |-> N', ty |-> Ty, feats |-> Feats, top |-> Top, leaf |-> ev'.leaf, names |-> Base.names]>>)>>)
        ELSE TRUE
=============================================================================
