----------------------------- MODULE DropTrace -------------------------------
(* networks with dropout and penalized activations: recorded executions *)
EXTENDS Layers, Json, IOUtils
VARIABLES n, W, cf, st, l
CONSTANT Rel
Trace == ndJsonDeserialize(IOEnv.TRACE)
Close(a,b,t) == Abs(a-b) <= t + Abs(b) \div Rel
ScX(Q) == [r \in 1..Len(Q) |-> [c \in 1..Len(Q[r]) |-> S*Q[r][c]]]
NetC(M) == Vp(TopsD(n.t,n.a,n.b,n.c,n.y,[M |-> M, l1 |-> cf.l1, l2 |-> cf.l2]))
K(e) == Len(XKinds(e.t))
Off(e) == [M |-> NoMask(K(e)), l1 |-> [k \in 1..K(e) |-> 0], l2 |-> [k \in 1..K(e) |-> 0]]
Inp(e) == e.t \in 0..10 /\ e.inw = InwD(e.t,e.a,e.b,e.c) /\ e.incs = Incs(Vp(TopsD(e.t,e.a,e.b,e.c,e.y,Off(e))),e.inw)
EqM(a,b) == Len(a) = Len(b) /\ \A r \in 1..Len(b) : Len(a[r]) = Len(b[r]) /\ \A c \in 1..Len(b[r]) : Close(a[r][c],b[r][c],0)
EqA(A,t) == Len(A) = Len(t.ch) /\ \A i \in 1..Len(t.ch) : EqM(A[i],t.ch[i].A)
(* evaluation: nothing is dropped, nothing is changed *)
FOk(e) == /\ e.ret = 0 /\ e.W2 = W
          /\ EqA(e.A,Fwd(NetC(NoMask(K(n))),ScX(e.X),W,0))
L2Of(e) == Sum(Len(W), LAMBDA k : Sum(Len(W[k]), LAMBDA j : Sum(Len(W[k][j])-1, LAMBDA i : W[k][j][i]*W[k][j][i])))*8*e.l2
LossOk(v,d,t,Y,e) == Close(v,L2Of(e) + (PenLoss(d,t) \div 2) + (Loss2(t.A,Y) \div (2*Len(Y))),2)
Frozen(e,k) == (e.frz \div (2^(k-1))) % 2 = 1
(* masks: only where dropout is on, with the right values, and of the shape of the layer *)
Kept(k) == IF k \in Alpha(n.t) THEN 1 ELSE IF cf.ps[k] = 1 THEN 2 ELSE 4
On(k) == XKinds(n.t)[k] \in {1,3} /\ cf.ps[k] \in {1,2}
MOk(b) == Len(b.M) = K(n) /\ \A k \in 1..K(n) : IF ~On(k) THEN b.M[k] = <<>> ELSE \A r \in 1..Len(b.M[k]) : \A c \in 1..Len(b.M[k][r]) : b.M[k][r][c] \in {0,Kept(k)}
RECURSIVE Shape(_,_)
Shape(d,t) == CASE d.k \in {"fc","id","gate"} -> TRUE [] d.k = "t" -> Shape(d.l,t.ch[1])
   [] d.k = "x" -> (On(d.i) => Len(d.m) = Len(t.A) /\ \A r \in 1..Len(t.A) : Len(d.m[r]) = Len(t.A[r])) /\ Shape(d.l,t.ch[1])
   [] d.k = "v" -> \A i \in 1..Len(d.s) : Shape(d.s[i],t.ch[i])
   [] d.k = "h" -> \A i \in 1..Len(d.s) : Shape(d.s[i].l,t.ch[i])
   [] d.k = "o" -> \A i \in 2..Len(d.s) : Shape(d.s[i].l,t.ch[i])
Tapes(e) == TLCEval([q \in 1..Len(e.B) |-> LET d == NetC(e.B[q].M) IN [d |-> d, t |-> Fwd(d,ScX(e.B[q].X),W,0)]])
BOk(b,s) == Shape(s.d,s.t) /\ EqA(b.A,s.t)
(* no sample is shown twice in an epoch *)
Per(e) == Len(e.B) \div e.ep
CntR(R,r) == Sum(Len(R), LAMBDA q : IF R[q] = r THEN 1 ELSE 0)
XY(x,y) == [q \in 1..Len(x) |-> x[q] \o y[q]]
EpOk(e) == /\ Len(e.B) % e.ep = 0
           /\ \A z \in 1..e.ep : LET rows == Cat(Per(e), LAMBDA q : XY(e.B[(z-1)*Per(e)+q].X,e.B[(z-1)*Per(e)+q].Y)) all == XY(e.X,e.Y) IN
                (e.bs = 0 => Len(rows) = Len(all)) /\ \A q \in 1..Len(rows) : CntR(rows,rows[q]) <= CntR(all,rows[q])
Gs(e,ts) == TLCEval([q \in 1..Len(e.B) |-> Bwd(ts[q].d,ts[q].t,DOut(ts[q].t.A,e.B[q].Y,e.clamp),W,0).g])
GOk(e,k,D,gs) == LET m == Len(gs) P == LET T[q \in 0..m] == IF q = 0 THEN 1 ELSE LET x == T[q-1] IN IF gs[q][k].r = 0 \/ x % gs[q][k].r = 0 THEN x ELSE x*gs[q][k].r IN T[m] IN
   Len(D) = Len(W[k]) /\ \A j \in 1..Len(W[k]) : Len(D[j]) = Len(W[k][j]) /\ \A i \in 1..Len(W[k][j]) :
   IF Frozen(e,k) THEN D[j][i] = 0
   ELSE Close(D[j][i]*P, Sum(m, LAMBDA q : IF gs[q][k].r = 0 THEN 0 ELSE gs[q][k].s[j][i]*(P \div gs[q][k].r) + (IF i < Len(W[k][j]) THEN 64*e.l2*W[k][j][i]*P ELSE 0)), 1+P)
Kinky(e,ts) == Len(e.B) > 1 /\ \E q \in 1..Len(e.B) : Kink(ts[q].d,ts[q].t)
(* a fresh mask for every batch *)
Num(m) == IF m = <<>> THEN 0 ELSE Len(m)*Len(m[1])
Fresh(e) == \A k \in 1..K(n) : ~(On(k) /\ cf.ps[k] = 1 /\ Sum(Len(e.B)-1, LAMBDA q : Num(e.B[q].M[k])) >= 40 /\ \A q \in 1..Len(e.B)-1 : e.B[q].M[k] = e.B[q+1].M[k])
SOk(e) == /\ e.ret = 0 /\ Len(e.loss) >= 2 /\ EpOk(e) /\ Fresh(e) /\ \A q \in 1..Len(e.B) : MOk(e.B[q])
          /\ LET d == NetC(NoMask(K(n))) t == Fwd(d,ScX(e.X),W,0) tt == Fwd(d,ScX(e.XT),W,0) ts == Tapes(e) ky == Kinky(e,ts) IN
               /\ LossOk(e.loss[1],d,t,e.Y,e)
               /\ LossOk(e.loss[2],d,tt,e.YT,e)
               /\ (IF ky THEN BOk(e.B[1],ts[1]) ELSE \A q \in 1..Len(e.B) : BOk(e.B[q],ts[q]))
               /\ Len(e.D) = Len(W) /\ (ky \/ LET gs == Gs(e,ts) IN \A k \in 1..Len(W) : GOk(e,k,e.D[k],gs))
(* how often units are kept *)
Cnt(e,p) == Sum(Len(e.B), LAMBDA q : Sum(K(n), LAMBDA k : IF On(k) /\ cf.ps[k] = p THEN Num(e.B[q].M[k]) ELSE 0))
Kpt(e,p) == Sum(Len(e.B), LAMBDA q : Sum(K(n), LAMBDA k : IF On(k) /\ cf.ps[k] = p THEN Sum(Len(e.B[q].M[k]), LAMBDA r : Sum(Len(e.B[q].M[k][r]), LAMBDA c : IF e.B[q].M[k][r][c] # 0 THEN 1 ELSE 0)) ELSE 0))
St(e) == [p \in 1..2 |-> <<st[p][1]+Kpt(e,p),st[p][2]+Cnt(e,p)>>]
Fair(s) == \A p \in 1..2 : s[p][2] >= 3000 => Abs(2*p*s[p][1]-s[p][2]) <= ((s[p][2]*p) \div 5)
Init == l = 1 /\ n = [t |-> 0] /\ W = <<>> /\ cf = [ps |-> <<>>] /\ st = [p \in 1..2 |-> <<0,0>>]
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
             /\ e.op # "crash"
             /\ CASE e.op = "reset" -> (Inp(e)) = TRUE /\ n' = [t |-> e.t, a |-> e.a, b |-> e.b, c |-> e.c, y |-> e.y] /\ W' = <<>> /\ UNCHANGED <<cf,st>>
                  [] e.op = "cfg" -> (e.has = XKinds(n.t)) = TRUE /\ cf' = [ps |-> e.ps, l1 |-> [k \in 1..K(n) |-> IF XKinds(n.t)[k] >= 2 THEN e.l1[k] ELSE 0], l2 |-> [k \in 1..K(n) |-> IF XKinds(n.t)[k] >= 2 THEN e.l2[k] ELSE 0]] /\ UNCHANGED <<n,W,st>>
                  [] e.op = "weights" -> e.ok = 1 /\ W' = e.W /\ UNCHANGED <<n,cf,st>>
                  [] e.op = "fprop" -> (FOk(e)) = TRUE /\ UNCHANGED <<n,W,cf,st>>
                  [] e.op = "step" -> (SOk(e)) = TRUE /\ st' = TLCEval(St(e)) /\ (Fair(st')) = TRUE /\ UNCHANGED <<n,W,cf>>
Spec == Init /\ [][Next]_<<n,W,cf,st,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
