------------------------------ MODULE Trace_Act ------------------------------
(* Executions of the implementation against ActivationStore: one state per   *)
(* recorded event; the state after an event is the observed one, so a        *)
(* deviation is reported once, and everything after it is still judged.      *)
EXTENDS ActivationStore, Json, IOUtils
VARIABLES i, st

Trace == ndJsonDeserialize(IOEnv.TRACE)

FileMap(fl) == [p \in {fl[k][1] : k \in DOMAIN fl} |->
                  LET r == fl[CHOOSE k \in DOMAIN fl : fl[k][1] = p] IN
                  [l |-> r[2], d |-> r[3], v |-> Vec(r[4]), x |-> r[5]]]
OwnOf(e) == {e.chk[k][3] : k \in {x \in DOMAIN e.chk : e.chk[x][1] = e.res}}
HandleMap(pre, e, f) ==
  [h \in {e.chk[k][1] : k \in DOMAIN e.chk} |->
     LET r == e.chk[CHOOSE k \in DOMAIN e.chk : e.chk[k][1] = h] IN
     [v |-> Vec(r[2]), p |-> r[3],
      z |-> IF h \notin DOMAIN pre.h THEN (IF e.k = "new" /\ e.lasy THEN 1 ELSE 0)
            ELSE IF pre.h[h].z = 1 /\ h \in Involved(e) /\ (DOMAIN f \ DOMAIN pre.f) \ OwnOf(e) # {} THEN 2
            ELSE pre.h[h].z]]
Observed(pre, e) == LET f == FileMap(e.fl) IN [h |-> HandleMap(pre, e, f), f |-> f, cfg |-> e.cfg]

Start == [h |-> <<>>, f |-> <<>>, cfg |-> <<>>]
Begin(e) == [h |-> <<>>, f |-> FileMap(e.fl), cfg |-> e.cfg]

Init == i = 1 /\ st = Start
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.k = "begin" THEN st' = Begin(e)
     ELSE IF e.k = "crash" THEN st' = st /\ PrintT(<<"FAIL", i, {"ANY.crash"}>>)
     ELSE IF e.k = "sync" THEN st' = Observed(st, e)
     ELSE /\ st' = Observed(st, e)
          /\ LET bad == Failing(Clauses(st, e, st')) IN
             IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", i, bad>>)
Spec == Init /\ [][Next]_<<i, st>>
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
