------------------------------ MODULE SerTrace ------------------------------
EXTENDS Ser, Json, IOUtils
VARIABLES l, net, slot, evs, num
Trace == ndJsonDeserialize(IOEnv.TRACE)
None == [arch |-> -1]
Init == l = 1 /\ net = <<None,None>> /\ slot = <<None,None>> /\ evs = {} /\ num = <<0,0,0,0>>
e == Trace[l]
N == net[e.n + 1]
Sl == slot[e.slot + 1]
Keep == e.w = N.w
SetN(x) == net' = [net EXCEPT ![e.n + 1] = x]
Same == UNCHANGED <<slot, evs, num>>
New == /\ Len(e.w) = NL(e.arch) /\ (\A i \in 1..Len(e.w) : e.w[i] = 0) /\ Len(e.hp) = NL(e.arch) /\ Len(e.dpi) = ND(e.arch) /\ num' = e.num
       /\ SetN([arch |-> e.arch, k |-> e.k, w |-> e.w, dp |-> e.dpi, cl |-> <<e.num[1],e.num[1],e.num[1]>>, tl |-> e.num[3 + e.k], hp |-> e.hp, cfg |-> e.cfg])
       /\ UNCHANGED <<slot, evs>>
Drop == Keep /\ SetN([N EXCEPT !.dp[e.d] = e.pi]) /\ Same
Clamp == Keep /\ SetN([N EXCEPT !.cl = IF e.lo = 0 THEN <<num[1],@[2],@[3]>> ELSE <<num[2],e.li,e.ui>>]) /\ Same
Filled == Len(e.w) = Len(N.w) /\ \A i \in 1..Len(e.w) : e.w[i] # 0
Fprop == LET v == [arch |-> N.arch, k |-> N.k, w |-> e.w, rows |-> e.rows, xs |-> e.xs] IN
   /\ e.ret = 0 /\ Filled /\ \A i \in 1..Len(e.w) : N.w[i] # 0 => e.w[i] = N.w[i]
   /\ e.out # 0 /\ \A r \in evs : r.v = v => r.out = e.out           \* the same weights give the same answers, wherever they came from
   /\ evs' = evs \cup {[v |-> v, out |-> e.out]} /\ SetN([N EXCEPT !.w = e.w]) /\ UNCHANGED <<slot, num>>
Train == e.ret = 0 /\ Filled /\ SetN([N EXCEPT !.w = e.w]) /\ Same
Deinit == Keep /\ UNCHANGED net /\ Same
SetW == LET good == <<e.r,e.c>> = Dims(N.arch,N.k)[e.l] IN
   /\ (e.ok = 1) = good /\ e.w = (IF good THEN [N.w EXCEPT ![e.l] = e.id] ELSE N.w) /\ (~good \/ e.mv = 0 => e.left = e.id)
   /\ SetN([N EXCEPT !.w = e.w]) /\ Same
Save == Keep /\ SaveOK(N,e.o,e,num[2]) /\ slot' = [slot EXCEPT ![e.slot + 1] = Slot(N,e.o)] /\ UNCHANGED <<net, evs, num>>
HarmA == e.done = (IF On(Sl.o,1) /\ Sl.w[e.l] # 0 THEN 1 ELSE 0) /\ slot' = [slot EXCEPT ![e.slot + 1] = IF e.done = 1 THEN Harm(@, e.l, e.kind) ELSE @] /\ UNCHANGED <<net, evs, num>>
LoadA == LET s == Load(N,e.o,Sl) IN
   /\ (e.ok = 1) = s.ok /\ Match(s.n.w,e.w) /\ e.dpi = s.n.dp
   /\ SetN([s.n EXCEPT !.w = e.w]) /\ Same
Names == <<"train_x","train_y","test_x","test_y">>
Data == /\ e.ok = 1 /\ e.ok2 = 1 /\ e.b = e.dw /\ e.k = e.dw /\ Len(e.es) = 4 /\ \A i \in 1..4 : \E j \in 1..4 : e.es[j].n = Names[i] /\ e.es[j].v = e.dw[i] /\ e.es[j].p = ""
        /\ UNCHANGED net /\ Same
Next == /\ l <= Len(Trace)
        /\ CASE e.op = "net" -> New [] e.op = "drop" -> Drop [] e.op = "clamp" -> Clamp [] e.op = "fprop" -> Fprop [] e.op = "train" -> Train [] e.op = "deinit" -> Deinit [] e.op = "setw" -> SetW
             [] e.op = "save" -> Save [] e.op = "harm" -> HarmA [] e.op = "load" -> LoadA [] e.op = "data" -> Data [] OTHER -> FALSE
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l,net,slot,evs,num>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
