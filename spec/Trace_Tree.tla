----------------------------- MODULE Trace_Tree -----------------------------
(* Extractions made by the implementation against Trees (see Trace_Act).     *)
EXTENDS Trees, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == i = 1
Next ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET e == Trace[i]
         bad == IF e.k = "crash" THEN {"ANY.crash"} ELSE Failing(Clauses(e)) IN
     IF bad = {} THEN TRUE ELSE PrintT(<<"FAIL", i, bad>>)
Spec == Init /\ [][Next]_i
Accepted == PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
