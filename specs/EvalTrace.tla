------------------------------ MODULE EvalTrace ------------------------------
EXTENDS Eval, Json, IOUtils
VARIABLES q, cm, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == q = [w |-> 1, n |-> <<0,0>>, x |-> <<>>, y |-> <<>>, oep |-> 0, othr |-> 2] /\ cm = <<Z,Z,Z>> /\ l = 1
CmEv(e) == e.op \in {"upd","cnt","cclear","cadd","cset","cred","ceq","cmet"}
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ (/\ e.op # "crash"
               /\ e.op = "data" => e.ok = 1 /\ e.sw = 1
               /\ e.op = "train" => e.ret = 0 /\ Assert(e.kind = 1 \/ (Unique(q,q.x) /\ Unique(q,q.y)), "ties") /\ TrainOK(q,e,e.ev)
               /\ CmEv(e) => LET c == NextCm(cm,e) IN \A i \in 1..3 : \A k \in 1..4 : e.cm[i][k] = c[i][k]
               /\ e.op = "ceq" => e.ret = (IF cm[e.m+1] = cm[e.s+1] THEN 1 ELSE 0)
               /\ e.op = "cmet" => MetOK(cm[e.m+1],e.met) /\ TotOK(cm[e.m+1],e.tot)) = TRUE
           /\ q' = IF e.op = "data" THEN [w |-> e.w, n |-> e.n, x |-> e.x, y |-> e.y, oep |-> 0, othr |-> 2]
                   ELSE IF e.op = "relabel" THEN [q EXCEPT !.y = e.y]
                   ELSE IF e.op = "train" /\ e.kind = 1 THEN [q EXCEPT !.oep = e.ep, !.othr = Thr(q,e)] ELSE q
           /\ cm' = NextCm(cm,e)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<q,cm,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
