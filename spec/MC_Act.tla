------------------------------- MODULE MC_Act -------------------------------
(***************************************************************************)
(* An operational model of the activation store, explored exhaustively:    *)
(* vectors kept in memory or in files whose names are drawn at random (any *)
(* name, so every collision is explored), a directory that can be full,    *)
(* lazily opened vectors, copies, clearing, deleting, cleaning.            *)
(*   - every step satisfies the transition relation of ActivationStore     *)
(*     (Conforms), and the isolation invariants hold in every state;       *)
(*   - with Guarded = FALSE names are taken without looking whether they   *)
(*     are in use: TLC then refutes the same invariants (MC_ActBad.cfg),   *)
(*     so they are not vacuous;                                            *)
(*   - every transition is printed as a history (Emit) for the replay.     *)
(***************************************************************************)
EXTENDS ActivationStore, Json, IOUtils, SequencesExt
CONSTANTS MaxH, Names, Depth, Guarded, Vectors
VARIABLES h, f, cfg, hist, ev
vars == <<h, f, cfg, hist, ev>>

Dirs == {1, 2}
Path(d, n) == 10 * d + n
UserPath(i) == 30 + i
Blank == [k |-> "", out |-> "ok", a |-> 0, b |-> 0, hs |-> <<>>, op |-> "", w |-> "", form |-> "", v |-> <<9, 0>>,
          res |-> 0, rv |-> <<9, 0>>, rn |-> Opq, rb |-> FALSE, mem |-> "ok", lasy |-> FALSE]
Lib(d, v) == [l |-> 1, d |-> d, v |-> v, x |-> 0]
Foreign == [l |-> 0, d |-> 1, v |-> BadVec, x |-> 7]

\* the names available to a new vector file, as the code decides it: a name not in use, or none
FreeNames == {n \in Names : ~Guarded \/ Path(cfg.td, n) \notin DOMAIN f}
Write(fs, p, v) == [q \in DOMAIN fs \cup {p} |-> IF q = p THEN Lib(cfg.td, v) ELSE fs[q]]
\* every way of storing the vector v: [p, f]
Store(fs, v, toFile) ==
  IF ~toFile \/ FreeNames = {} THEN {[p |-> 0, f |-> fs]}
  ELSE {[p |-> Path(cfg.td, n), f |-> Write(fs, Path(cfg.td, n), v)] : n \in FreeNames}
Put(hh, i, rec) == [x \in DOMAIN hh \cup {i} |-> IF x = i THEN rec ELSE hh[x]]
Drop(hh, S) == [x \in DOMAIN hh \ S |-> hh[x]]
Fresh == {i \in 1..MaxH : i \notin DOMAIN h}
NewId == CHOOSE i \in Fresh : \A j \in Fresh : i <= j
Log(op, e) == hist' = Append(hist, op) /\ ev' = e

\* loading the lazily opened vectors among S (their file is copied into the library's directory)
Load(S) ==
  LET L == {i \in S : h[i].z = 1} IN
  IF L = {} THEN {[h |-> h, f |-> f]}
  ELSE IF Cardinality(L) = 1 THEN
       LET i == CHOOSE x \in L : TRUE IN
       {[h |-> [h EXCEPT ![i] = [v |-> @.v, p |-> IF s.p = 0 THEN @.p ELSE s.p, z |-> 2]], f |-> s.f]
          : s \in Store(f, h[i].v, TRUE)}
  ELSE {}                 \* two loads in one step: left to two steps

New ==
  \E s \in Vectors, toFile \in BOOLEAN :
    /\ Fresh # {}
    /\ \E st \in Store(f, Vec(s), toFile) :
         /\ h' = Put(h, NewId, [v |-> Vec(s), p |-> st.p, z |-> 0]) /\ f' = st.f
         /\ Log([op |-> "new", r |-> NewId, v |-> s, file |-> toFile, lasy |-> FALSE],
                [Blank EXCEPT !.k = "new", !.v = s, !.form = "raw", !.res = NewId])
    /\ UNCHANGED cfg
\* the user has saved a vector; it is opened lazily
NewLazy ==
  \E s \in Vectors :
    /\ Fresh # {} /\ UserPath(NewId) \in DOMAIN f
    /\ f[UserPath(NewId)].v = Vec(s)
    /\ h' = Put(h, NewId, [v |-> Vec(s), p |-> UserPath(NewId), z |-> 1])
    /\ Log([op |-> "new", r |-> NewId, v |-> s, file |-> FALSE, lasy |-> TRUE],
           [Blank EXCEPT !.k = "new", !.v = s, !.form = "path", !.res = NewId, !.lasy = TRUE])
    /\ UNCHANGED <<cfg, f>>
Get ==
  \E i \in DOMAIN h : \E st \in Load({i}), w \in {"raw", "nones"} :
    /\ h' = st.h /\ f' = st.f
    /\ Log([op |-> "get", a |-> i, w |-> w],
           [Blank EXCEPT !.k = "get", !.a = i, !.w = w, !.rn = I(NOnes(h[i].v)), !.rv =
              LET v == h[i].v IN <<v.f>> \o SetToSortSeq(v.c, LAMBDA x, y : x < y) \o <<v.n>>])
    /\ UNCHANGED cfg
Bin ==
  \E i, j \in DOMAIN h, op \in {"and", "sub"} : \E st \in Load({i, j}) :
    IF h[i].v.n # h[j].v.n
    THEN /\ h' = st.h /\ f' = st.f /\ UNCHANGED cfg
         /\ Log([op |-> "bin", f |-> op, a |-> i, b |-> j, r |-> 9],
                [Blank EXCEPT !.k = "op", !.op = op, !.a = i, !.b = j, !.out = "ValueError"])
    ELSE /\ Fresh # {} /\ UNCHANGED cfg
         /\ h' = Put(st.h, NewId, [v |-> VOp(op, h[i].v, h[j].v), p |-> 0, z |-> 0]) /\ f' = st.f
         /\ Log([op |-> "bin", f |-> op, a |-> i, b |-> j, r |-> NewId],
                [Blank EXCEPT !.k = "op", !.op = op, !.a = i, !.b = j, !.res = NewId])
Copy ==
  \E i \in DOMAIN h : Fresh # {} /\
    \E st \in Store(f, h[i].v, h[i].p # 0) :
      /\ h' = Put(h, NewId, [v |-> h[i].v, p |-> st.p, z |-> 0]) /\ f' = st.f /\ UNCHANGED cfg
      /\ Log([op |-> "copy", a |-> i, r |-> NewId], [Blank EXCEPT !.k = "copy", !.a = i, !.res = NewId])
\* clearing gives the vector a new value in memory; its file may stay
Clear ==
  \E i \in DOMAIN h :
    /\ h[i].z # 1
    /\ h' = [h EXCEPT ![i] = [v |-> Zeros(@.v.n), p |-> 0, z |-> 0]] /\ UNCHANGED <<f, cfg>>
    /\ Log([op |-> "clear", a |-> i], [Blank EXCEPT !.k = "clear", !.a = i])
Del ==
  \E i \in DOMAIN h :
    /\ h[i].z = 0
    /\ h' = Drop(h, {i}) /\ f' = Drop(f, {h[i].p}) /\ UNCHANGED cfg
    /\ Log([op |-> "del", a |-> i], [Blank EXCEPT !.k = "del", !.a = i])
Clean ==
  LET S == {p \in DOMAIN f : f[p].l = 1 /\ f[p].d = cfg.td} IN
  /\ f' = Drop(f, S) /\ h' = Drop(h, {i \in DOMAIN h : h[i].p \in S}) /\ UNCHANGED cfg
  /\ Log([op |-> "clean"], [Blank EXCEPT !.k = "clean"])
SetDir ==
  /\ cfg' = [cfg EXCEPT !.td = 3 - @] /\ UNCHANGED <<h, f>>
  /\ Log([op |-> "flag", w |-> "DEFAULT_TEMPDIR", val |-> cfg'.td], [Blank EXCEPT !.k = "flag"])

Init ==
  /\ h = <<>> /\ cfg = [td |-> 1, fs |-> 0] /\ hist = <<>> /\ ev = Blank
  /\ \E u \in [1..MaxH -> Vectors] :
       f = [p \in {19} \cup {UserPath(i) : i \in 1..MaxH} |->
              IF p = 19 THEN Foreign ELSE [l |-> 0, d |-> 3, v |-> Vec(u[p - 30]), x |-> p]]
  /\ \A i, j \in 1..MaxH : f[UserPath(i)] .v = f[UserPath(j)].v     \* one user vector suffices
Next == (New \/ NewLazy \/ Get \/ Bin \/ Copy \/ Clear \/ Del \/ Clean \/ SetDir)
Spec == Init /\ [][Next]_vars

St == [h |-> h, f |-> f, cfg |-> cfg]
Conforms == [][Failing(Clauses(St, ev', St')) = {}]_vars
InvIsolated == Isolated(St)
InvBits == \A i \in DOMAIN h : h[i].p # 0 => h[i].p \in DOMAIN f /\ f[h[i].p].v = h[i].v
InvForeign == 19 \in DOMAIN f /\ f[19] = Foreign

Bound == Len(hist) <= Depth
View == <<h, f, cfg>>
SmallVectors == {<<0, 1, 2>>, <<1, 1, 2>>, <<1, 3>>}
Emit == IF "HIST" \in DOMAIN IOEnv THEN PrintT(<<"HIST", ToJson(hist')>>) ELSE TRUE
=============================================================================
