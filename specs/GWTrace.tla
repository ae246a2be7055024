------------------------------ MODULE GWTrace --------------------------------
EXTENDS GW, Json, IOUtils
VARIABLES s, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Cfg(e) == [lr |-> e.lr, ty |-> e.ty, b1 |-> e.b1, b2 |-> e.b2, mo |-> e.mo, ne |-> e.ne, l1 |-> e.l1, l1b |-> e.l1b, l2 |-> e.l2, l2b |-> e.l2b,
           mn |-> e.mn, mnb |-> e.mnb, do |-> e.do, nd |-> e.nd, il |-> e.il, ilm |-> e.ilm, r |-> e.r, c |-> e.c]
Tol(m,w,d) == 14 + Abs(d) \div 16 + (IF m > 0 THEN Abs(w) \div 64 ELSE 0)
(* rows are independent of each other: some choice of dropped elements must explain each *)
Fits(c,o,from,f(_),d,dropping) == Len(o) = Len(from) /\ \A i \in 1..c.r : \E dr \in (IF dropping THEN SUBSET {(j-1)*c.r+i : j \in 1..c.c} ELSE {{}}) :
   LET x == f(dr) IN \A j \in 1..c.c : LET q == (j-1)*c.r+i IN Abs(o[q]-x[q]) <= Tol(c.mn,from[q],d[q])
Ok(e) == /\ e.sz = s.c.r*100+s.c.c
         /\ e.ha = (IF s.c.l1 + s.c.l2 > 0 THEN 1 ELSE 0)
         /\ s.amb \/ LET ls == Loss(s.c,s.W) v == PreV(s) r == Step(s,e.wp,e.g) IN
              /\ Abs(e.la - ls) <= 20 + ls \div 32
              /\ Fits(s.c,e.wp,s.W,LAMBDA dr : PreW(s,v,dr),v,s.c.do < 4 /\ s.c.nd = 1)
              /\ e.fr = (IF r.s.first THEN 1 ELSE 0)
              /\ r.s.amb \/ Fits(s.c,e.w,e.wp,LAMBDA dr : PostW(s,e.wp,r.d,dr),r.d,s.c.do < 4)
Init == l = 1 /\ s = State0([r |-> 1, c |-> 1],<<0>>)
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
             /\ e.op # "crash"
             /\ CASE e.op = "reset" -> e.ok = 1 /\ e.fr = 1 /\ s' = State0(Cfg(e),[q \in 1..Len(e.x) |-> S*e.x[q]])
                  [] e.op = "reinit" -> e.ok = 1 /\ e.fr = 1 /\ s' = [State0(s.c,s.W) EXCEPT !.amb = s.amb]
                  [] e.op = "lr" -> e.ok = 1 /\ s' = [s EXCEPT !.c.lr = e.lr]
                  [] e.op = "mom" -> e.ok = 1 /\ s' = [s EXCEPT !.c.mo = e.mo, !.c.ne = e.ne]
                  [] e.op = "step" -> (Ok(e)) = TRUE /\ s' = (IF s.amb THEN s ELSE [Step(s,e.wp,e.g).s EXCEPT !.W = e.w])
Spec == Init /\ [][Next]_<<s,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
