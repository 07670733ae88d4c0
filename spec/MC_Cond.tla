------------------------------ MODULE MC_Cond ------------------------------
(***************************************************************************)
(* An operational model of conditions, following the algorithms of the     *)
(* code (four parallel lists, sorted by one of them; the conjunction built *)
(* by cloning, intersecting the common features and appending the others), *)
(* explored exhaustively over few names, positions and bounds.             *)
(*   Conforms: every step satisfies the transition relation of Conditions. *)
(*   Semantics: a conjunction activates on a point exactly when both       *)
(*   conditions do, for every point; equal conditions activate alike.      *)
(***************************************************************************)
EXTENDS Conditions, Json, IOUtils
CONSTANTS MaxH, MaxNew, NNames, NBounds, Small, Depth, Vals, Faces, Mutant
VARIABLES c, mode, face, hist, ev      \* face: bounds a rule holds of its own (the empty function: none)
vars == <<c, mode, face, hist, ev>>

Names == 1..NNames
Poss == 0..(NNames - 1)
Bounds == 1..NBounds
NoTab == [kind |-> "none", cols |-> <<>>, nc |-> 0, rows |-> <<>>]
Blank == [k |-> "", out |-> "ok", a |-> 0, b |-> 0, res |-> 0, w |-> "", hasi |-> TRUE, hasn |-> TRUE, haslo |-> TRUE,
          hashi |-> TRUE, nms |-> <<>>, ixs |-> <<>>, los |-> <<>>, his |-> <<>>, sort |-> TRUE, val |-> <<>>, at |-> 1,
          hs |-> <<>>, hs2 |-> <<>>, tab |-> NoTab, act |-> <<>>, same |-> TRUE, eq |-> FALSE, ne |-> FALSE,
          heq |-> FALSE, n |-> 0, look |-> FALSE, via |-> "", fs |-> <<>>, items |-> <<>>, imp |-> FALSE, len |-> 0]
Fresh == {i \in 1..MaxH : i \notin DOMAIN c}
NewId == CHOOSE i \in Fresh : \A j \in Fresh : i <= j
Log(op, e) == hist' = Append(hist, op) /\ ev' = e
Put(i, x) == c' = (i :> x) @@ c /\ UNCHANGED face

\* the four lists, and sorting them together by one of them
Lists(x) == [nm |-> [k \in DOMAIN x.fs |-> x.fs[k].nm], ix |-> [k \in DOMAIN x.fs |-> x.fs[k].ix],
             lo |-> [k \in DOMAIN x.fs |-> x.fs[k].lo], hi |-> [k \in DOMAIN x.fs |-> x.fs[k].hi]]
Pack(l) == [k \in DOMAIN l.nm |-> [nm |-> l.nm[k], ix |-> l.ix[k], lo |-> l.lo[k], hi |-> l.hi[k]]]
\* position, in the sorted order of the keys, of entry k
Rank(keys, k) == Cardinality({j \in DOMAIN keys : keys[j] < keys[k]}) + 1
PermBy(keys, s) == [p \in DOMAIN s |-> s[CHOOSE k \in DOMAIN keys : Rank(keys, k) = p]]
SortLists(l) ==
  LET keys == IF mode = "index" THEN l.ix ELSE l.nm IN
  [nm |-> PermBy(keys, l.nm), ix |-> PermBy(keys, l.ix), lo |-> PermBy(keys, l.lo),
   hi |-> IF Mutant = "sort" THEN l.hi ELSE PermBy(keys, l.hi)]
Make(l, sorted) == LET m == IF sorted THEN SortLists(l) ELSE l IN
                   [fs |-> Pack(m), imp |-> \E k \in DOMAIN m.lo : m.lo[k] > m.hi[k]]

New ==
  \E n \in 1..NNames : \E nms \in [1..n -> Names], ixs \in [1..n -> Poss], lo, hi \in [1..n -> Bounds], sorted \in BOOLEAN :
    /\ Fresh # {} /\ NewId <= MaxNew
    /\ \A j, k \in 1..n : j # k => nms[j] # nms[k] /\ ixs[j] # ixs[k]
    /\ n = 2 => sorted \/ ixs[1] > ixs[2]
    /\ Small => /\ \A k \in 1..n : <<lo[k], hi[k]>> \in {<<1, 2>>, <<2, 2>>, <<2, 1>>}
                /\ NewId > 1 => sorted /\ (n = 2 => nms[1] < nms[2])
    /\ Put(NewId, Make([nm |-> nms, ix |-> ixs, lo |-> lo, hi |-> hi], sorted)) /\ UNCHANGED mode
    /\ Log([op |-> "new", r |-> NewId, nms |-> nms, ixs |-> ixs, los |-> lo, his |-> hi, sort |-> sorted],
           [Blank EXCEPT !.k = "new", !.res = NewId, !.nms = nms, !.ixs = ixs, !.los = lo, !.his = hi, !.sort = sorted])
\* the bounds are assigned on the condition, or on the rule that carries it
SetBounds ==
  \E i \in DOMAIN c, w \in {"lo", "hi"}, via \in (IF Faces THEN {"", "rule"} ELSE {""}) : \E v \in [DOMAIN c[i].fs -> Vals] :
    LET l == Lists(c[i])
        m == IF w = "lo" THEN [l EXCEPT !.lo = v] ELSE [l EXCEPT !.hi = v]
    IN  /\ IF Mutant = "face" /\ via = "rule"
           THEN face' = (i :> Make(m, FALSE)) @@ face /\ UNCHANGED c
           ELSE c' = [c EXCEPT ![i] = Make(m, FALSE)] /\ UNCHANGED face
        /\ UNCHANGED mode
        /\ Log([op |-> "set", a |-> i, w |-> w, val |-> v, via |-> via],
               [Blank EXCEPT !.k = "set", !.a = i, !.w = w, !.val = v, !.via = via])
\* what the rule shows of its condition: what it holds itself hides what the condition says
Show ==
  \E i \in DOMAIN c :
    LET x == IF i \in DOMAIN face THEN face[i] ELSE c[i]
        tup(y) == [k \in DOMAIN y.fs |-> <<y.fs[k].nm, y.fs[k].ix, y.fs[k].lo, y.fs[k].hi>>]
    IN  /\ Faces /\ UNCHANGED <<c, mode, face>>
        /\ Log([op |-> "show", a |-> i],
               [Blank EXCEPT !.k = "show", !.a = i, !.fs = tup(x), !.imp = x.imp, !.items = tup(x), !.look = TRUE])
Sort ==
  \E i \in DOMAIN c :
    /\ c' = [c EXCEPT ![i] = Make(Lists(c[i]), TRUE)] /\ UNCHANGED <<mode, face>>
    /\ Log([op |-> "sort", a |-> i], [Blank EXCEPT !.k = "sort", !.a = i])
Mode ==
  /\ mode' = (IF mode = "index" THEN "name" ELSE "index") /\ UNCHANGED <<c, face>>
  /\ Log([op |-> "mode", w |-> mode'], [Blank EXCEPT !.k = "mode", !.w = mode'])

\* the algorithm of the conjunction
At(s, x) == CHOOSE k \in DOMAIN s : s[k] = x
AndAlg(x, y) ==
  LET a == SortLists(Lists(x))
      b == Lists(y)
      common == SelectSeq(a.nm, LAMBDA f : \E k \in DOMAIN b.nm : b.nm[k] = f)
      isC(f) == \E k \in DOMAIN common : common[k] = f
      bad1 == \E k \in DOMAIN common : a.ix[At(a.nm, common[k])] # b.ix[At(b.nm, common[k])]
      lo2 == [k \in DOMAIN a.lo |-> IF isC(a.nm[k]) THEN Max2(a.lo[k], b.lo[At(b.nm, a.nm[k])]) ELSE a.lo[k]]
      hi2 == [k \in DOMAIN a.hi |-> IF isC(a.nm[k]) THEN Min2(a.hi[k], b.hi[At(b.nm, a.nm[k])]) ELSE a.hi[k]]
      rest == SelectSeq(Pack(b), LAMBDA z : ~isC(z.nm))
      all == Pack(a) \o rest
      bad2 == \E j, k \in DOMAIN all : j # k /\ all[j].ix = all[k].ix
      lo3 == IF Mutant = "and" THEN a.lo ELSE lo2
      all3 == Pack([a EXCEPT !.lo = lo3, !.hi = hi2]) \o rest
      bad == bad1 \/ bad2
  IN  [bad |-> bad, r |-> IF bad THEN x ELSE Make(Lists([fs |-> all3]), TRUE)]
And ==
  \E i, j \in DOMAIN c :
    LET r == AndAlg(c[i], c[j]) IN
    IF r.bad
    THEN /\ UNCHANGED <<c, mode, face>>
         /\ Log([op |-> "and", a |-> i, b |-> j, r |-> 9], [Blank EXCEPT !.k = "and", !.a = i, !.b = j, !.out = "IndexError"])
    ELSE /\ Fresh # {} /\ Put(NewId, r.r) /\ UNCHANGED mode
         /\ Log([op |-> "and", a |-> i, b |-> j, r |-> NewId], [Blank EXCEPT !.k = "and", !.a = i, !.b = j, !.res = NewId])
Eval ==
  \E i \in DOMAIN c : UNCHANGED <<c, mode, face>>
    /\ Log([op |-> "eval", a |-> i], [Blank EXCEPT !.k = "eval", !.a = i,
             !.tab = [kind |-> "array", cols |-> <<>>, nc |-> NNames, rows |-> <<>>]])
Cmp ==
  \E i, j \in DOMAIN c : LET s == Key(c[i]) = Key(c[j]) IN UNCHANGED <<c, mode, face>>
    /\ Log([op |-> "cmp", a |-> i, b |-> j, w |-> "rule"],
           [Blank EXCEPT !.k = "cmp", !.a = i, !.b = j, !.w = "rule", !.eq = s, !.ne = ~s, !.heq = s,
                         !.n = IF s THEN 1 ELSE 2, !.look = s])

Init == c = <<>> /\ mode = "index" /\ face = <<>> /\ hist = <<>> /\ ev = Blank
Next == New \/ SetBounds \/ Show \/ Sort \/ Mode \/ And \/ Eval \/ Cmp
Spec == Init /\ [][Next]_vars

St == [c |-> c, mode |-> mode, xn |-> [k \in 1..NNames |-> k], inf |-> [lo |-> -1, hi |-> -2]]
Conforms == [][Failing(Clauses(St, ev', St')) = {}]_vars
Points == [Poss -> Bounds]
Holds(x, p) == \A f \in Feats(x) : f.lo <= p[f.ix] /\ p[f.ix] <= f.hi
Semantics ==
  Cardinality(DOMAIN c) = MaxNew => \A i, j \in DOMAIN c :
    LET r == AndAlg(c[i], c[j]) IN
    /\ ~r.bad => \A p \in Points : Holds(r.r, p) = (Holds(c[i], p) /\ Holds(c[j], p))
    /\ ~r.bad => Key(AndAlg(c[j], c[i]).r) = Key(r.r)
    /\ r.bad = AndAlg(c[j], c[i]).bad
    /\ Key(c[i]) = Key(c[j]) /\ PosOf(c[i]) = PosOf(c[j]) /\ ~r.bad => \A p \in Points : Holds(c[i], p) = Holds(c[j], p)
ImpEmpty == \A i \in DOMAIN c : c[i].imp => \A p \in Points : ~Holds(c[i], p)

Bound == Len(hist) <= Depth
View == <<c, mode, face>>
Emit == IF "HIST" \in DOMAIN IOEnv THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
=============================================================================
