----------------------------- MODULE KRedTrace ------------------------------
EXTENDS KRed, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ e.op # "crash"
             /\ e.op # "reset" => /\ Assert(Pre(e), <<"driver broke a precondition", l, e.op>>)
                                  /\ Len(e.o) > 0 /\ e.un = 1 /\ (\A k \in 1..Len(e.o) : Ok(e,e.o[k])) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
