---------------------------- MODULE LayersTrace ------------------------------
EXTENDS Layers, Json, IOUtils
VARIABLES n, W, l
CONSTANT Rel                                                  \* relative tolerance is 1/Rel
Trace == ndJsonDeserialize(IOEnv.TRACE)
Close(a,b,t) == Abs(a-b) <= t + Abs(b) \div Rel
ScX(X) == [r \in 1..Len(X) |-> [c \in 1..Len(X[r]) |-> S*X[r][c]]]
Inp(e) == e.t \in 0..14 /\ e.inw = Inw(e.t,e.a,e.b,e.c) /\ e.incs = Incs(Net(e.t,e.a,e.b,e.c,e.y),e.inw)
NetOf(e) == Net(e.t,e.a,e.b,e.c,e.y)
EqM(a,b) == Len(a) = Len(b) /\ \A r \in 1..Len(b) : Len(a[r]) = Len(b[r]) /\ \A c \in 1..Len(b[r]) : Close(a[r][c],b[r][c],0)
FOk(e) == /\ e.ret = 0 /\ e.W2 = W
          /\ LET t == Fwd(n,ScX(e.X),W,0) IN Len(e.A) = Len(t.ch) /\ \A i \in 1..Len(t.ch) : EqM(e.A[i],t.ch[i].A)
L2Of(e) == Sum(Len(W), LAMBDA k : Sum(Len(W[k]), LAMBDA j : Sum(Len(W[k][j])-1, LAMBDA i : W[k][j][i]*W[k][j][i])))*8*e.l2
LossOk(v,A,Y,e) == Close(v,L2Of(e) + Loss2(A,Y) \div (2*Len(Y)),1)
Frozen(e,k) == (e.frz \div (2^(k-1))) % 2 = 1
(* batches: all the rows at once, or one by one; every batch is seen once an epoch and the weights hardly move meanwhile, *)
(* unless an activation function is right at its kink (then only the first batch is predictable)                        *)
Batches(e) == IF e.bs = 1 THEN [r \in 1..Len(e.X) |-> <<r>>] ELSE <<[r \in 1..Len(e.X) |-> r]>>
Gs(e) == LET bt == Batches(e) IN TLCEval([q \in 1..Len(bt) |-> LET X == ScX([i \in 1..Len(bt[q]) |-> e.X[bt[q][i]]]) Y == [i \in 1..Len(bt[q]) |-> e.Y[bt[q][i]]] t == Fwd(n,X,W,0) IN
   Bwd(n,t,DOut(t.A,Y,e.clamp),W,0).g])
GOk(e,k,D,gs) == LET m == Len(gs) rr == CHOOSE x \in {gs[q][k].r : q \in 1..m} : \A q \in 1..m : gs[q][k].r <= x IN
   Len(D) = Len(W[k]) /\ \A j \in 1..Len(W[k]) : Len(D[j]) = Len(W[k][j]) /\ \A i \in 1..Len(W[k][j]) :
   IF Frozen(e,k) \/ rr = 0 THEN D[j][i] = 0
   ELSE Close(D[j][i]*rr, e.ep*Sum(m, LAMBDA q : IF gs[q][k].r = 0 THEN 0 ELSE gs[q][k].s[j][i] + (IF i < Len(W[k][j]) THEN 64*e.l2*W[k][j][i]*rr ELSE 0)), 1+rr)
Kinky(e,t) == (e.bs = 1 \/ e.ep > 1) /\ Kink(n,t)
SOk(e) == /\ e.ret = 0 /\ Len(e.loss) >= 2
          /\ LET t == Fwd(n,ScX(e.X),W,0) tt == Fwd(n,ScX(e.XT),W,0) gs == Gs(e) IN
               /\ LossOk(e.loss[1],t.A,e.Y,e)
               /\ LossOk(e.loss[2],tt.A,e.YT,e)
               /\ Len(e.D) = Len(W) /\ (Kinky(e,t) \/ \A k \in 1..Len(W) : GOk(e,k,e.D[k],gs))
Init == l = 1 /\ n = Id /\ W = <<>>
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
             /\ e.op # "crash"
             /\ CASE e.op = "reset" -> (Inp(e)) = TRUE /\ n' = NetOf(e) /\ W' = <<>>
                  [] e.op = "weights" -> e.ok = 1 /\ W' = e.W /\ n' = n
                  [] e.op = "fprop" -> (FOk(e)) = TRUE /\ UNCHANGED <<n,W>>
                  [] e.op = "step" -> (SOk(e)) = TRUE /\ UNCHANGED <<n,W>>
Spec == Init /\ [][Next]_<<n,W,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
