------------------------------ MODULE FilesTrace ------------------------------
EXTENDS Files, Json, IOUtils
VARIABLES l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN (e.op # "crash" /\ EventOK(e)) = TRUE
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
