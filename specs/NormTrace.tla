------------------------------ MODULE NormTrace ------------------------------
EXTENDS Norm, Json, IOUtils
VARIABLES q, acc, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Near(m,o) == Len(o) = Len(m) /\ \A i \in 1..Len(m) : Abs(16*m[i] - o[i]) <= 1
Obs(Q,e) == /\ Near(Q.c1,e.o1) /\ Near(Q.c2,e.o2) /\ Near(Q.c1,e.oe) /\ e.bo = 1 /\ e.yo = 1
            /\ Q.rt = 1 => Near(Q.r1 \o Q.r2, e.raw)
Init == q = Zero /\ acc = Acc0 /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ e.op # "crash"
             /\ IF IsAcc(e)
                THEN /\ acc' = AccNext(acc,e) /\ UNCHANGED q
                     /\ e.rsc = acc'.sc /\ e.rof = acc'.of /\ e.rb1 = acc'.b1 /\ e.rb2 = acc'.b2
                ELSE /\ Assert(Pre(q,e), <<"driver broke a precondition", l, e.op>>)
                     /\ e.op = "load" => e.ret = 1
                     /\ q' = Next0(q,e) /\ UNCHANGED acc
                     /\ e.op # "reset" => Obs(q',e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<q,acc,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
