-------------------------------- MODULE NNet ---------------------------------
(* Life cycle of one training call: argument checks, initialization, observer  *)
(* and inspector notifications, epochs of batches, loss reports, divergence    *)
(* check, early stop, deinitialization. One step = one notification.           *)
(* c: call options; s: network and data. Samples are numbered 1..n1 (train)    *)
(* and 101..100+n2 (test).                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a,b) == IF a < b THEN a ELSE b
Max(a,b) == IF a > b THEN a ELSE b
Norm(a,n) == IF a = 0 \/ a > n THEN n ELSE a
N(s,d) == IF d = 0 THEN s.n1 ELSE s.n2
(* what the data object is prepared for: f, b the biggest evaluation and training batch, mini/has: whether it can serve smaller ones *)
Td0 == [f |-> 0, b |-> 0, mini |-> FALSE, has |-> FALSE]
Or(a,d) == IF a = 0 THEN d ELSE a
Reuse(s,c) == LET t == s.t f == Or(c.mf,t.f) b == Or(c.bs,t.b) IN
  c.rtd = 0 /\ t.f > 0 /\ f <= t.f /\ (f < t.f => t.has) /\ b <= t.b /\ (b < t.b => t.mini) /\ b <= f
MF(s,c) == IF Reuse(s,c) THEN Or(c.mf,s.t.f) ELSE Norm(c.mf, Max(s.n1,s.n2))
BS(s,c) == IF Reuse(s,c) THEN Or(c.bs,s.t.b) ELSE Norm(c.bs, s.n1)
CB(s,c) == Min(c.cbf,BS(s,c))
Bad(s,c) == BS(s,c) > MF(s,c)
TdAfter(s,c) == IF c.imm = 1 \/ Bad(s,c) THEN Td0 ELSE IF Reuse(s,c) THEN s.t
  ELSE LET f == MF(s,c) b == BS(s,c) IN [f |-> f, b |-> b, mini |-> b < s.n1, has |-> b < s.n1 \/ f < Max(s.n1,s.n2)]
Params(s) == s.hid*(s.xw+1) + s.yw*(s.hid+1)
(* the answer that needs no notification at all *)
Early(s) == IF s.n1 = 0 THEN 1 ELSE IF s.dx # s.xw THEN 2 ELSE IF s.dy # s.yw THEN 3 ELSE 0
Early2(s,c) == IF Early(s) # 0 THEN Early(s) ELSE IF Bad(s,c) THEN 6 ELSE 0
NB(s,c) == s.n1 \div BS(s,c)
NW(s,c,d) == (N(s,d) + MF(s,c) - 1) \div MF(s,c)
Walk(s,c,d,w) == [i \in 1..Min(MF(s,c), N(s,d) - w*MF(s,c)) |-> 100*d + w*MF(s,c) + i]
B(x) == IF x THEN 1 ELSE 0
Bit(m,e) == (m \div (2^e)) % 2 = 1
M0 == [pc |-> "cb", e |-> 0, b |-> 0, d |-> 0, w |-> 0, rep |-> -1, used |-> {}, cur |-> <<>>, ret |-> 0, upd |-> 0, reps |-> 0, oi |-> 0, od |-> 0]
(* the only notification allowed next; x: the samples drawn for a train batch *)
Event(s,c,m,x) == LET w == Walk(s,c,m.d,m.w) IN CASE
     m.pc = "cb" -> <<1>>
  [] m.pc = "obsinit" -> <<2,c.ep>>
  [] m.pc = "start" -> <<3,BS(s,c),MF(s,c),Params(s)>>
  [] m.pc = "rb" -> <<4,m.d,NW(s,c,m.d)>>
  [] m.pc = "rf" -> <<30,0>> \o w
  [] m.pc = "rl1" -> <<31,1,Len(w)>>
  [] m.pc = "rl2" -> <<31,2,Len(w)>>
  [] m.pc = "rr" -> <<5,m.w,0,Len(w),Len(w)>> \o w
  [] m.pc = "re" -> <<6>>
  [] m.pc = "fr" -> <<7,m.rep,1,c.lim,1>>
  [] m.pc = "eb" -> <<8,m.e,NB(s,c)>>
  [] m.pc = "bb" -> <<9,m.b>>
  [] m.pc = "bf" -> <<10>> \o x
  [] m.pc = "bf1" -> <<30,1>> \o m.cur
  [] m.pc = "l1" -> <<31,1,BS(s,c)>>
  [] m.pc = "l2" -> <<31,2,BS(s,c)>>
  [] m.pc = "by" -> <<11>> \o m.cur
  [] m.pc = "g2" -> <<32,2,BS(s,c)>>
  [] m.pc = "g1" -> <<32,1,BS(s,c)>>
  [] m.pc \in {"u2","u1"} -> <<33>>
  [] m.pc = "be" -> <<12>>
  [] m.pc = "ee" -> <<13>>
  [] m.pc = "ecb" -> <<14,m.e>>
  [] m.pc = "cf" -> <<30,0>> \o [i \in 1..CB(s,c) |-> i]                        \* the epoch callback evaluates the network
  [] m.pc = "cf1" -> <<31,1,CB(s,c)>>
  [] m.pc = "cf2" -> <<31,2,CB(s,c)>>
  [] m.pc = "oe" -> <<15>>
  [] m.pc = "od" -> <<16>>
  [] OTHER -> <<0>>
Draw(s,c,m,x) == m.pc = "bf" => /\ Len(x) = BS(s,c) /\ \A i \in 1..Len(x) : x[i] \in 1..s.n1 /\ x[i] \notin m.used
                                /\ \A i,j \in 1..Len(x) : i # j => x[i] # x[j]
DivChk(c,e) == e < c.div
Reports(c,e) == (Bit(c.msk,e) \/ DivChk(c,e)) /\ ~(c.rot = 1 /\ ~DivChk(c,e))
Go(m,pc) == [m EXCEPT !.pc = pc]
Adv(s,c,m,x) == CASE
     m.pc = "cb" -> IF c.inf = 1 THEN [Go(m,"done") EXCEPT !.ret = 7] ELSE Go(m,"obsinit")
  [] m.pc = "obsinit" -> IF c.of = 1 THEN [Go(m,"done") EXCEPT !.ret = 4] ELSE [Go(m,"start") EXCEPT !.oi = 1]
  [] m.pc = "start" -> Go(m,"rb")
  [] m.pc = "rb" -> [Go(m,"rf") EXCEPT !.w = 0]
  [] m.pc = "rf" -> Go(m,"rl1")
  [] m.pc = "rl1" -> Go(m,"rl2")
  [] m.pc = "rl2" -> Go(m,"rr")
  [] m.pc = "rr" -> IF m.w + 1 < NW(s,c,m.d) THEN [Go(m,"rf") EXCEPT !.w = @ + 1] ELSE Go(m,"re")
  [] m.pc = "re" -> IF m.d = 0 THEN [Go(m,"rb") EXCEPT !.d = 1] ELSE [Go(m,"fr") EXCEPT !.d = 0]
  [] m.pc = "fr" -> LET m2 == [m EXCEPT !.reps = @ + 1] IN
                    IF m.rep = -1 THEN Go(m2,"eb") ELSE IF DivChk(c,m.e) /\ c.lim = 1 THEN [Go(m2,"od") EXCEPT !.ret = 5] ELSE Go(m2,"ee")
  [] m.pc = "eb" -> [Go(m,"bb") EXCEPT !.b = 0, !.used = {}]
  [] m.pc = "bb" -> Go(m,"bf")
  [] m.pc = "bf" -> [Go(m,"bf1") EXCEPT !.cur = x, !.used = @ \cup {x[i] : i \in 1..Len(x)}]
  [] m.pc = "bf1" -> Go(m,"l1")
  [] m.pc = "l1" -> Go(m,"l2")
  [] m.pc = "l2" -> Go(m,"by")
  [] m.pc = "by" -> Go(m,"g2")
  [] m.pc = "g2" -> Go(m,"u2")
  [] m.pc = "u2" -> [Go(m,"g1") EXCEPT !.upd = @ + 1]
  [] m.pc = "g1" -> Go(m,"u1")
  [] m.pc = "u1" -> [Go(m,"be") EXCEPT !.upd = @ + 1]
  [] m.pc = "be" -> IF m.b + 1 < NB(s,c) THEN [Go(m,"bb") EXCEPT !.b = @ + 1]
                    ELSE IF Reports(c,m.e) THEN [Go(m,"rb") EXCEPT !.rep = m.e] ELSE Go(m,"ee")
  [] m.pc = "ee" -> Go(m,"ecb")
  [] m.pc = "ecb" /\ c.cbf > 0 -> Go(m,"cf")
  [] m.pc = "cf" -> Go(m,"cf1")
  [] m.pc = "cf1" -> Go(m,"cf2")
  [] m.pc = "ecb" \/ m.pc = "cf2" -> IF m.e = c.stop \/ m.e + 1 = c.ep THEN Go(m, IF c.rot = 1 THEN "od" ELSE "oe") ELSE [Go(m,"eb") EXCEPT !.e = @ + 1]
  [] m.pc = "oe" -> Go(m,"od")
  [] m.pc = "od" -> [Go(m,"done") EXCEPT !.od = @ + 1]
(* what the call leaves behind: initialized sizes *)
Init0 == [ini |-> FALSE, req |-> FALSE, mfs |-> 0, bss |-> 0, hasw |-> FALSE]
AfterInit(n,mf,bs) == IF n.ini /\ ~n.req /\ mf <= n.mfs /\ bs <= n.bss THEN n ELSE [ini |-> TRUE, req |-> FALSE, mfs |-> mf, bss |-> bs, hasw |-> TRUE]
DeInit(n) == [n EXCEPT !.ini = FALSE, !.req = FALSE, !.mfs = 0, !.bss = 0]
AfterTrain(n,s,c) == LET a == AfterInit(n,MF(s,c),BS(s,c)) IN IF c.imm = 1 THEN DeInit(a) ELSE a
(* guarantees of the life cycle, checked in every state of the model *)
EpochsRun(m) == m.e + 1
Safe(s,c,m) == /\ m.od <= m.oi                                               \* an observer that failed to initialize is never deinitialized
               /\ m.pc = "done" => m.od = m.oi                               \* and an initialized one is deinitialized exactly once
               /\ (m.pc = "done" /\ m.ret = 0) => m.upd = 2*NB(s,c)*EpochsRun(m) /\ m.reps >= 1
               /\ (m.pc = "done" /\ m.ret = 5) => c.lim = 1 /\ m.e < c.div
               /\ (m.pc = "done" /\ m.ret \in {4,7}) => m.upd = 0 /\ m.reps = 0
               /\ m.pc \in {"ee","ecb"} => Cardinality(m.used) = NB(s,c)*BS(s,c) /\ s.n1 - Cardinality(m.used) < BS(s,c)   \* an epoch uses every sample once, less than a batch is left out
               /\ (m.pc = "done" /\ m.ret = 0 /\ c.stop < 0) => EpochsRun(m) = c.ep
=============================================================================
