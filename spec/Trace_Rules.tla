---------------------------- MODULE Trace_Rules ----------------------------
(* Executions of the implementation against RuleSets (see Trace_Act).        *)
EXTENDS RuleSets, Json, IOUtils
VARIABLES i, st

Trace == ndJsonDeserialize(IOEnv.TRACE)
MapOf(l) == [h \in {l[k].h : k \in DOMAIN l} |-> l[CHOOSE k \in DOMAIN l : l[k].h = h]]
Observed(pre, e) ==
  [pre EXCEPT !.r = MapOf(e.r), !.s = MapOf(e.s), !.cf = e.cf,
              !.tabs = IF e.k = "mut" /\ e.x # 0 THEN [@ EXCEPT ![e.x] = e.tabs[1]] ELSE @,
              !.ys = IF e.k = "mut" /\ e.y # 0 THEN [@ EXCEPT ![e.y] = e.ys[1]] ELSE @,
              !.th = IF e.k = "th" /\ e.out = "ok" THEN e.id ELSE @,
              !.own = IF e.k = "own" /\ e.out = "ok" THEN (e.a :> e.id) @@ @ ELSE @]
Begin(e) == [r |-> <<>>, s |-> <<>>, cf |-> e.cf, th |-> 0, own |-> <<>>, tabs |-> e.tabs, ys |-> e.ys, ths |-> e.ths,
             inf |-> e.inf, cust |-> e.cust]

Init == i = 1 /\ st = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.k = "begin" THEN st' = Begin(e)
     ELSE IF e.k = "crash" THEN st' = st /\ PrintT(<<"FAIL", i, {"ANY.crash"}>>)
     ELSE /\ st' = Observed(st, e)
          /\ LET bad == Failing(Clauses(st, e, st')) IN
             IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", i, bad>>)
Spec == Init /\ [][Next]_<<i, st>>
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
