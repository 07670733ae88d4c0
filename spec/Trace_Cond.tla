----------------------------- MODULE Trace_Cond -----------------------------
(* Executions of the implementation against Conditions (see Trace_Act).      *)
EXTENDS Conditions, Json, IOUtils
VARIABLES i, st

Trace == ndJsonDeserialize(IOEnv.TRACE)
CondMap(l) == [h \in {l[k][1] : k \in DOMAIN l} |->
                 LET r == l[CHOOSE k \in DOMAIN l : l[k][1] = h] IN
                 [fs |-> [j \in DOMAIN r[2] |-> [nm |-> r[2][j][1], ix |-> r[2][j][2], lo |-> r[2][j][3], hi |-> r[2][j][4]]],
                  imp |-> r[3]]]
Observed(pre, e) == [pre EXCEPT !.c = CondMap(e.cs), !.mode = e.mode]
Begin(e) == [c |-> <<>>, mode |-> e.mode, xn |-> e.xn, inf |-> e.inf]

Init == i = 1 /\ st = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.k = "begin" THEN st' = Begin(e)
     ELSE IF e.k = "crash" THEN st' = st /\ PrintT(<<"FAIL", i, {"ANY.crash"}>>)
     ELSE /\ st' = Observed(st, e)
          /\ LET bad == Failing(Clauses(st, e, st')) IN
             IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", i, bad>>)
Spec == Init /\ [][Next]_<<i, st>>
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
