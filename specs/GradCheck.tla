------------------------------ MODULE GradCheck ------------------------------
(* Numeric verification of the gradients of a network: what is compared, when the verdict is "wrong", and that nothing else changes.
   A comparison is <<layer, group (0: outputs of a neuron, 1: a weight), neuron, input (= number of inputs: the bias), size of the true derivative, falsification>>
   size: 0 exactly zero, 1 too small (or too large) to be judged numerically, 2 regular, 3 not a number.
   falsification: 0 none, 1 relative error above the threshold, 2 below it, 3 replaced by zero, 4 opposite sign, 5 not a number, 6 infinite *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Min(a,b) == IF a < b THEN a ELSE b
Max(a,b) == IF a < b THEN b ELSE a
Count(v,max) == IF v[1] = 0 THEN Min(max,v[2]) ELSE Max((max*v[3]) \div 100, Min(max,v[2]))
Cnt(e,y) == Count(e.gs,y.nc)
CntIn(e,y) == Count(e.ss,y.inc)
Layer(e,l) == e.ly[CHOOSE i \in 1..Len(e.ly) : e.ly[i].idx = l]
Ignored(e,l) == \E i \in 1..Len(e.ids) : e.ids[i] = l
Zero(c) == c[5] = 0 /\ c[6] \in 0..4
Zeros(e,k) == Cardinality({i \in 1..k : Zero(e.ck[i]) /\ e.ck[i][1] = e.ck[k][1] /\ e.ck[i][2] = e.ck[k][2]})
MaxZeros(e,c) == LET y == Layer(e,c[1]) IN IF c[2] = 0 THEN (Cnt(e,y)*e.za) \div 100 ELSE (Cnt(e,y)*(CntIn(e,y)+1)*e.zw) \div 100
MustFail(e,k) == LET c == e.ck[k] IN
  \/ c[6] \in {5,6} \/ (c[6] \in {1,3,4} /\ c[5] = 2) \/ (c[5] = 3 /\ c[6] # 3)
  \/ (Zero(c) /\ Zeros(e,k) > MaxZeros(e,c) /\ ~(c[2] = 1 /\ c[1] = 1 /\ e.ig = 1))
MayFail(e,k) == MustFail(e,k) \/ e.ck[k][5] \in {1,3}
Of(e,l,g) == {i \in 1..Len(e.ck) : e.ck[i][1] = l /\ e.ck[i][2] = g}
(* neurons chosen, weights chosen, all different *)
Complete(e,y) == LET a == Of(e,y.idx,0) w == Of(e,y.idx,1) b == {i \in w : e.ck[i][4] = y.inc} v == w \ b n == {e.ck[i][3] : i \in v} IN
  /\ Cardinality(a) = IF Ignored(e,y.idx) \/ y.out = 1 THEN 0 ELSE Cnt(e,y)
  /\ IF Ignored(e,y.idx) \/ y.lr = 0 THEN w = {} ELSE
     /\ Cardinality(n) = Cnt(e,y) /\ Cardinality(b) = Cnt(e,y)
     /\ \A m \in n : Cardinality({i \in v : e.ck[i][3] = m}) = CntIn(e,y)
Sane(e) ==
  /\ \A i \in 1..Len(e.ck) : LET c == e.ck[i] IN
     /\ \E k \in 1..Len(e.ly) : e.ly[k].idx = c[1]
     /\ ~Ignored(e,c[1])
     /\ LET y == Layer(e,c[1]) IN c[3] \in 0..(y.nc-1) /\ IF c[2] = 0 THEN c[4] = 0 /\ y.out = 0 ELSE y.lr = 1 /\ c[4] \in 0..y.inc
  /\ \A i,j \in 1..Len(e.ck) : i # j => <<e.ck[i][1],e.ck[i][2],e.ck[i][3],e.ck[i][4]>> # <<e.ck[j][1],e.ck[j][2],e.ck[j][3],e.ck[j][4]>>
  /\ \A i \in 1..(Len(e.ck)-1) : e.ck[i][2] <= e.ck[i+1][2]
GcOK(e) ==
  /\ e.ag = 0 /\ e.wsame = 1
  /\ Sane(e)
  /\ \A k \in 1..(Len(e.ck)-1) : ~MustFail(e,k)
  /\ IF e.ret = 1 THEN (Len(e.ck) > 0 => ~MustFail(e,Len(e.ck))) /\ \A i \in 1..Len(e.ly) : Complete(e,e.ly[i])
     ELSE e.ret = 0 /\ Len(e.ck) > 0 /\ MayFail(e,Len(e.ck))
(* checking during training leaves the training alone *)
GctOK(e) == e.ag = 0 /\ e.tr = 0 /\ e.eq = 1
=============================================================================
