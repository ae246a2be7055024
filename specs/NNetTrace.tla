------------------------------ MODULE NNetTrace ------------------------------
EXTENDS NNet, Json, IOUtils
VARIABLES s, n, m, l, k, ev
Trace == ndJsonDeserialize(IOEnv.TRACE)
Main(v) == v[1] \notin {17,18,20}
Drawn(v) == IF Len(v) > 1 /\ v[1] = 10 THEN SubSeq(v,2,Len(v)) ELSE <<>>
Ini(nn) == B(nn.ini /\ nn.bss >= 1)
(* inspector brackets around the two loss calculations of each report, and exactly one announcement of the network *)
Brackets(z) == LET y == SelectSeq(z,LAMBDA v : v[1] \in {17,18}) IN \A i \in 1..Len(y) : y[i] = <<<<17,0>>,<<18>>,<<17,1>>,<<18>>>>[((i-1) % 4)+1]
Announce(z,ep) == LET y == SelectSeq(z,LAMBDA v : v[1] = 20) IN Len(y) >= 1 /\ y[1] = <<20,3,ep>> /\ \A i \in 2..Len(y) : y[i] = <<20,3,1>>
Enter(e) == e.op = "train" /\ Early2(s,e) = 0
Init == s = [hid |-> 0, xw |-> 0, yw |-> 0, n1 |-> 0, n2 |-> 0, dx |-> 0, dy |-> 0, t |-> Td0] /\ n = Init0 /\ m = M0 /\ l = 1 /\ k = 0 /\ ev = <<>>
Sub == LET e == Trace[l] v == ev[k] x == Drawn(v) IN                        \* one notification inside a call
  /\ k > 0 /\ k <= Len(ev) /\ m.pc # "done"
  /\ (Draw(s,e,m,x) /\ v = Event(s,e,m,x)) = TRUE
  /\ m' = Adv(s,e,m,x) /\ k' = k + 1 /\ UNCHANGED <<s,n,l,ev>>
Finish == LET e == Trace[l] n2 == AfterTrain(n,s,e) IN
  /\ k > 0 /\ k = Len(ev) + 1 /\ m.pc = "done"
  /\ (/\ e.ret = m.ret /\ e.wbad = 0 /\ e.le = m.ret /\ e.same = 1 /\ Brackets(e.ev) /\ Announce(e.ev,e.ep) /\ e.ini = Ini(n2)
      /\ (m.upd = 0 /\ n.hasw) => e.moved = 0
      /\ m.upd > 0 => e.moved = 1) = TRUE
  /\ n' = n2 /\ k' = 0 /\ l' = l + 1 /\ m' = M0 /\ ev' = <<>> /\ s' = [s EXCEPT !.t = TdAfter(s,e)]
Begin == LET e == Trace[l] IN k = 0 /\ Enter(e) /\ k' = 1 /\ m' = M0 /\ ev' = SelectSeq(e.ev,Main) /\ UNCHANGED <<s,n,l>>
Other == LET e == Trace[l] IN
  /\ k = 0 /\ ~Enter(e) /\ e.op # "crash" /\ l' = l + 1 /\ UNCHANGED <<k,m,ev>>
  /\ CASE e.op = "reset" -> s' = [hid |-> e.hid, xw |-> e.xw, yw |-> e.yw, n1 |-> 0, n2 |-> 0, dx |-> 0, dy |-> 0, t |-> Td0] /\ n' = Init0
       [] e.op = "data" -> e.ok = 1 /\ s' = [s EXCEPT !.n1 = e.n1, !.n2 = e.n2, !.dx = e.xw, !.dy = e.yw, !.t = Td0] /\ UNCHANGED n
       [] e.op = "train" -> LET n2 == IF Early(s) = 0 /\ e.imm = 1 THEN DeInit(n) ELSE n IN
            /\ (e.ret = Early2(s,e) /\ e.le = e.ret /\ e.ev = <<>> /\ (n.hasw => e.moved = 0) /\ e.ini = Ini(n2)) = TRUE
            /\ n' = n2 /\ s' = IF Early(s) = 0 THEN [s EXCEPT !.t = TdAfter(s,e)] ELSE s
       [] e.op = "fprop" -> /\ (/\ e.ret = 0 /\ e.rows = e.n /\ e.cols = s.yw /\ e.same = 1
                                /\ SelectSeq(e.ev,Main) = <<<<30,0>> \o [i \in 1..e.n |-> i], <<31,1,e.n>>, <<31,2,e.n>>>>) = TRUE
                            /\ n' = AfterInit(n,e.n,0) /\ UNCHANGED s
       [] e.op = "req" -> n' = [n EXCEPT !.req = TRUE] /\ UNCHANGED s
       [] e.op = "deinit" -> e.ini = 0 /\ n' = DeInit(n) /\ UNCHANGED s
Next == l <= Len(Trace) /\ (Begin \/ Sub \/ Finish \/ Other)
Spec == Init /\ [][Next]_<<s,n,m,l,k,ev>>
(* every event consumed: the last state has l = Len(Trace)+1 *)
Note == TLCSet(7, IF l > TLCGet(7) THEN l ELSE TLCGet(7))
ASSUME TLCSet(7,0)
Accepted == LET d == TLCGet(7) - 1 IN IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
