-------------------------------- MODULE Eval ---------------------------------
(* Quality reports. Data are quarters: x are what the network answers (identity network), y the labels; sets 0 (train), 1 (test), 2.. (extra),
   each n[d+1] rows of w columns, stored row after row, set after set. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Ab(v) == IF v < 0 THEN -v ELSE v
Mn(u,v) == IF u < v THEN u ELSE v
SumTo(k,F(_)) == LET S[i \in 0..k] == IF i = 0 THEN 0 ELSE F(i) + S[i-1] IN S[k]
RECURSIVE Off(_,_)
Off(n,d) == IF d = 0 THEN 0 ELSE n[d] + Off(n,d-1)
At(q,v,d,i,c) == v[(Off(q.n,d) + i - 1)*q.w + c]
Rows(q,d) == q.n[d+1]
Biggest(q) == CHOOSE m \in {q.n[i] : i \in 1..Len(q.n)} : \A i \in 1..Len(q.n) : q.n[i] <= m
(* one-hot: the columns of the greatest answer and of the greatest label agree; binary: answer and label lie on the same side of the threshold *)
Top(q,v,d,i) == CHOOSE c \in 1..q.w : \A k \in 1..q.w : At(q,v,d,i,c) >= At(q,v,d,i,k)
Unique(q,v) == \A d \in 0..(Len(q.n)-1) : \A i \in 1..Rows(q,d) : \A k \in 1..q.w : k # Top(q,v,d,i) => At(q,v,d,i,k) < At(q,v,d,i,Top(q,v,d,i))
Side(v,t) == IF v > t THEN 1 ELSE 0
Total(q,kind,d) == IF kind = 0 THEN Rows(q,d) ELSE Rows(q,d)*q.w
Correct(q,kind,t,d) ==
  IF kind = 0 THEN Cardinality({i \in 1..Rows(q,d) : Top(q,q.x,d,i) = Top(q,q.y,d,i)})
  ELSE Cardinality({p \in (1..Rows(q,d)) \X (1..q.w) : Side(At(q,q.x,d,p[1],p[2]),t) = Side(At(q,q.y,d,p[1],p[2]),t)})
(* quadratic loss times 1024: the sum over the chunks the set is cut into of each chunk's mean *)
RowSq(q,d,i) == SumTo(q.w,LAMBDA c : (At(q,q.x,d,i,c) - At(q,q.y,d,i,c))*(At(q,q.x,d,i,c) - At(q,q.y,d,i,c)))
Chunks(q,d,mf) == (Rows(q,d) + mf - 1) \div mf
Loss(q,d,mf) == SumTo(Chunks(q,d,mf),LAMBDA k : LET a == (k-1)*mf  m == Mn(mf,Rows(q,d)-a) IN (32*SumTo(m,LAMBDA i : RowSq(q,d,a+i))) \div m)
(* sizes a training call settles on *)
Mf(q,e) == IF e.mf = 0 \/ e.mf > Biggest(q) THEN Biggest(q) ELSE e.mf
Bs(q,e) == IF e.bs = 0 \/ e.bs > q.n[1] THEN q.n[1] ELSE e.bs
Thr(q,e) == IF e.thr >= 0 THEN e.thr ELSE IF e.keep = 1 /\ q.oep = e.ep THEN q.othr ELSE 2
RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2*Pow(k-1)
Reported(e,ep) == (e.msk \div Pow(ep)) % 2 = 1 \/ ep < e.div
Rep(q,e,d,mf) == <<<<1,d,Total(q,e.kind,d),Correct(q,e.kind,Thr(q,e),d),mf>>>> \o (IF d > 1 THEN <<<<92,d,mf>>>> ELSE <<>>)
Frag(q,e,ep) == Rep(q,e,0,Mf(q,e)) \o Rep(q,e,1,Mf(q,e)) \o <<<<2,ep,Mf(q,e)>>,<<91,ep,Mf(q,e)>>>>
RECURSIVE CbF(_,_,_)
CbF(q,e,k) == IF k > Len(e.cb) THEN <<>> ELSE LET mf == IF e.mf2 < 0 THEN Mf(q,e) ELSE e.mf2 IN Rep(q,e,e.cb[k],mf) \o <<<<3,e.cb[k],mf>>>> \o CbF(q,e,k+1)
RECURSIVE Epochs(_,_,_)
Epochs(q,e,ep) == IF ep = e.ep THEN <<>> ELSE (IF Reported(e,ep) THEN Frag(q,e,ep) ELSE <<>>) \o CbF(q,e,1) \o Epochs(q,e,ep+1)
Expect(q,e) == <<<<93>>>> \o Frag(q,e,-1) \o Epochs(q,e,0)
(* observed against expected *)
LossOK(q,d,mf,v) == Ab(v - Loss(q,d,mf)) <= Chunks(q,d,mf) + 1
MilOK(q,d,mf,v) == Ab(v*1024 - Loss(q,d,mf)*1000) <= 1024*(Chunks(q,d,mf) + 2)
ErrOK(q,e,d,pc,wr) == LET tot == Total(q,e.kind,d)  bad == tot - Correct(q,e.kind,Thr(q,e),d) IN wr = bad /\ Ab(pc*tot - bad*10000) <= tot
OneOK(q,e,x,o) == CASE
     x[1] = 1 -> Len(o) = 5 /\ o[1] = 1 /\ o[2] = x[2] /\ o[3] = x[3] /\ o[4] = x[4] /\ LossOK(q,x[2],x[5],o[5])
  [] x[1] = 2 -> Len(o) = 5 /\ o[1] = 2 /\ o[2] = x[2] /\ o[3] = 1 /\ LossOK(q,0,x[3],o[4]) /\ LossOK(q,1,x[3],o[5])
  [] x[1] = 3 -> Len(o) = 3 /\ o[1] = 3 /\ o[2] = x[2] /\ LossOK(q,x[2],x[3],o[3])
  [] x[1] = 91 -> /\ Len(o) = 10 /\ o[1] = 9 /\ o[2] = 1 /\ o[3] = x[2] + 1 /\ o[4] = e.ep
                  /\ MilOK(q,0,x[3],o[5]) /\ ErrOK(q,e,0,o[6],o[7]) /\ MilOK(q,1,x[3],o[8]) /\ ErrOK(q,e,1,o[9],o[10])
  [] x[1] = 92 -> Len(o) = 6 /\ o[1] = 9 /\ o[2] = 2 /\ o[3] = x[2] /\ MilOK(q,x[2],x[3],o[4]) /\ ErrOK(q,e,x[2],o[5],o[6])
  [] x[1] = 93 -> o = <<9,3,q.w,q.w,0,q.n[1],q.n[2],Bs(q,e),q.n[1] \div Bs(q,e),Mf(q,e)>>
TrainOK(q,e,ev) == LET x == Expect(q,e) IN Len(ev) = Len(x) /\ \A i \in 1..Len(x) : OneOK(q,e,x[i],ev[i])
(* confusion matrices: <<true positives, false positives, true negatives, false negatives>>; an outcome is 1 (truly positive) + 2 (called positive) *)
Z == <<0,0,0,0>>
Kind(v) == IF v = 3 THEN 1 ELSE IF v = 2 THEN 2 ELSE IF v = 0 THEN 3 ELSE 4
Count(b) == [k \in 1..4 |-> Cardinality({i \in 1..Len(b) : Kind(b[i]) = k})]
Add(a,b) == [k \in 1..4 |-> a[k] + b[k]]
Upd(m,b) == Add(m,Count(b))
RECURSIVE Red(_,_,_)
Red(cm,m,k) == IF k = 0 THEN Z ELSE Add(Red(cm,m,k-1), cm[((m + k - 1) % 3) + 1])
NextCm(cm,e) == CASE e.op = "upd" -> [cm EXCEPT ![e.m+1] = Upd(@,e.o)]
  [] e.op = "cnt" -> [cm EXCEPT ![e.m+1] = <<e.tp,e.fp,e.tn,e.fn>>]
  [] e.op = "cclear" -> [cm EXCEPT ![e.m+1] = Z]
  [] e.op = "cadd" -> [cm EXCEPT ![e.m+1] = Add(@,cm[e.s+1])]
  [] e.op = "cset" -> [cm EXCEPT ![e.m+1] = cm[e.s+1]]
  [] e.op = "cred" -> [cm EXCEPT ![e.m+1] = Red(cm,e.m,e.k)]
  [] OTHER -> cm
Frac(v,a,b) == b = 0 \/ Ab(v - (LET k == (b \div 200000) + 1 IN (10000*(a \div k)) \div (b \div k))) <= 2      \* v/10000 is a/b (undefined: anything)
MetOK(m,v) == LET tp == m[1] fp == m[2] tn == m[3] fn == m[4] IN
  /\ \A i \in 1..3 : Frac(v[i],tp,tp+fn)
  /\ \A i \in 4..5 : Frac(v[i],tn,tn+fp)
  /\ \A i \in 6..7 : Frac(v[i],tp,tp+fp)
  /\ Frac(v[8],tn,tn+fn) /\ Frac(v[9],tp+tn,tp+tn+fp+fn) /\ Frac(v[10],tp,tp+fp+fn) /\ Frac(v[11],2*tp,2*tp+fp+fn)
  /\ Frac(v[12],5*tp,5*tp+fp+4*fn) /\ Frac(v[13],5*tp,5*tp+4*fp+fn)
  /\ LET def == tp+fn > 0 /\ tn+fp > 0 /\ tp+fp > 0 /\ tn+fn > 0
         inf == v[1] + v[4] - 10000  mark == v[6] + v[8] - 10000 IN
     /\ (tp+fn > 0 /\ tn+fp > 0) => Ab(v[14] - inf) <= 4
     /\ (tp+fp > 0 /\ tn+fn > 0) => Ab(v[15] - mark) <= 4
     /\ IF def THEN /\ Ab(v[16]) <= 10001 /\ Ab(v[16]*v[16] - inf*mark) <= 8*(Ab(inf) + Ab(mark) + 10)
                    /\ (Ab(v[16]) > 20 /\ \A i \in 1..4 : m[i] <= 40000) => ((v[16] > 0) <=> (tp*tn > fp*fn))
        ELSE v[16] = 0
TotOK(m,t) == LET tp == m[1] fp == m[2] tn == m[3] fn == m[4] IN t = <<tp,fp,tn,fn,tp+fp,tn+fn,tp+fn,tn+fp,tp+fp+tn+fn,tp,fp,tn,fn>>
=============================================================================
