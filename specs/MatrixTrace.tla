---------------------------- MODULE MatrixTrace -----------------------------
(* Accepts a recorded execution of the real matrix classes iff every step is
   a Step of Matrix and every observation agrees with the abstract state.    *)
EXTENDS Matrix, Json, IOUtils
VARIABLES st, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
ValOK(model,obs) == model = U \/ model = obs
SlotOK(q,s,o) ==
  LET x == q.m[s] IN
  /\ o.e = B2N(x.buf = 0)
  /\ o.em = B2N(x.em) /\ o.own = B2N(x.own) /\ o.bir = B2N(x.bir)
  /\ o.r = x.r /\ o.c = x.c
  /\ o.af = B2N(x.buf = 0 /\ x.r > 0)
  /\ (Ready(q,s) =>
       /\ o.rnb = RNB(x) /\ o.cnb = CNB(x) /\ o.ss = SS(x) /\ o.bs = BS(x)
       /\ o.ho = B2N(x.em /\ x.ho)
       /\ o.ne = NE(x) /\ o.nenb = RNB(x)*CNB(x)
       /\ Len(o.d) = NE(x)
       /\ \A k \in 1..NE(x) : ValOK(q.heap[x.buf][x.off+k], o.d[k]))
ExtOK(q,o) == \A b \in ExtIds : \A k \in 1..EXTSIZE : ValOK(q.heap[b][k], o.x[b][k])
LiveOK(q,o) == o.live = Cardinality(DOMAIN q.heap) - EXTB
Obs(q,ev) ==
  /\ \A s \in Slots : SlotOK(q,s,ev.obs.m[s])
  /\ ExtOK(q,ev.obs) /\ LiveOK(q,ev.obs)
Init == st = Init0 /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET ev == Trace[l] IN
             /\ ev.op # "crash"
             /\ Assert(Pre(st,ev), <<"driver broke a precondition", l, ev.op>>)
             /\ Ret(st,ev) = ev.ret
             /\ st' = Step(st,ev)
             /\ Obs(st',ev)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<st,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
