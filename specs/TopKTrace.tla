----------------------------- MODULE TopKTrace ------------------------------
EXTENDS TopK, Json, IOUtils
VARIABLES q, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == q = Zero /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ e.op # "crash"
             /\ Assert(Pre(q,e), <<"driver broke a precondition", l, e.op>>)
             /\ q' = Next0(q,e)
             /\ e.op = "batch" => e.un = 1 /\ CacheOk(q,q',e) = TRUE /\ AggOk(q',e) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<q,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
