------------------------------- MODULE EvalGen -------------------------------
(* MODE 0: reports, MODE 1: confusion matrices *)
EXTENDS Eval, Json
CONSTANTS WS, NS, MODE, CS, RANDOM, MAXLEN
VARIABLES q, cm, hist
RE(S) == RandomElement(S)
RECURSIVE RSeq(_,_)
RSeq(k,S) == IF k = 0 THEN <<>> ELSE RSeq(k-1,S) \o <<RE(S)>>
(* rows without ties for the greatest value: one column gets 4, the others less *)
RowOf(w,S) == LET r == TLCEval(RSeq(w,S)) t == TLCEval(RE(1..w)) IN [c \in 1..w |-> IF c = t THEN 4 ELSE r[c]]
RECURSIVE Mat(_,_,_)
Mat(k,w,S) == IF k = 0 THEN <<>> ELSE LET m == Mat(k-1,w,S) IN m \o RowOf(w,S)
All(n) == SumTo(Len(n),LAMBDA i : n[i])
H(e) == hist' = Append(hist,e)
Q0 == [w |-> 1, n |-> <<>>, x |-> <<>>, y |-> <<>>, oep |-> 0, othr |-> 2]
Init == q = Q0 /\ cm = <<Z,Z,Z>> /\ hist = <<>>
Data == \E w \in {RE(WS)}, n1 \in {RE(NS)}, n2 \in {RE(NS)}, n3 \in {RE(NS)}, n4 \in {RE(NS)}, nx \in {RE(0..2)} :
  \E n \in {SubSeq(<<n1,n2,n3,n4>>,1,2+nx)} :
  \E x \in {Mat(All(n),w,{-1,0,1,2,3})}, y \in {Mat(All(n),w,{0,3})} : H([op |-> "data", w |-> w, n |-> n, x |-> x, y |-> y]) /\ q' = [Q0 EXCEPT !.w = w, !.n = n, !.x = x, !.y = y]
Relabel == \E y \in {Mat(All(q.n),q.w,{0,1,3})} : H([op |-> "relabel", y |-> y]) /\ q' = [q EXCEPT !.y = y]
Train == \E kind \in {RE(0..1)}, ep \in {RE(1..3)}, b0 \in {RE(0..q.n[1])}, m0 \in {RE(0..Biggest(q))}, msk \in {RE(0..7)}, div \in {RE({0,0,1,5})}, thr \in {RE(-1..4)}, keep \in {RE(0..1)}, full \in {RE(0..1)}, nc \in {RE(0..2)} :
  \E mm \in {IF b0 = 0 THEN 0 ELSE m0} : \E mf \in {IF mm # 0 /\ mm < (IF b0 = 0 THEN q.n[1] ELSE b0) THEN (IF b0 = 0 THEN q.n[1] ELSE b0) ELSE mm} : \E lim \in {IF mf = 0 THEN Biggest(q) ELSE mf} :
  \E mf2 \in {RE({-1} \cup (IF lim < Biggest(q) \/ b0 \in 1..(q.n[1]-1) THEN 1..lim ELSE {lim}))}, cb \in {RSeq(nc,0..(Len(q.n)-1))} :
   H([op |-> "train", kind |-> kind, ep |-> ep, bs |-> b0, mf |-> mf, msk |-> msk, div |-> div, thr |-> IF kind = 0 THEN -1 ELSE thr, keep |-> keep, full |-> full, mf2 |-> mf2, cb |-> cb]) /\ UNCHANGED q
Cm(e) == H(e) /\ cm' = NextCm(cm,e) /\ UNCHANGED q
CmR == \E k \in {RE(1..12)}, m \in {RE(0..2)}, t \in {RE(0..2)}, c1 \in {RE(CS)}, c2 \in {RE(CS)}, c3 \in {RE(CS)}, c4 \in {RE(CS)}, b \in {RSeq(6,0..3)}, kk \in {RE(1..3)}, len \in {RE(0..6)} :
  Cm(CASE k \in {1,2} -> [op |-> "upd", m |-> m, o |-> SubSeq(b,1,len)]
       [] k \in {3,4} -> [op |-> "cnt", m |-> m, tp |-> c1, fp |-> c2, tn |-> c3, fn |-> c4]
       [] k = 5 -> [op |-> "cclear", m |-> m]
       [] k = 6 -> [op |-> IF \E i \in 1..4 : cm[m+1][i] > 200000 THEN "cclear" ELSE "cadd", m |-> m, s |-> t]
       [] k = 7 -> [op |-> "cset", m |-> m, s |-> t]
       [] k = 8 -> [op |-> IF \E i \in 1..4 : \E z \in 1..3 : cm[z][i] > 200000 THEN "cclear" ELSE "cred", m |-> m, k |-> kk]
       [] k = 9 -> [op |-> "ceq", m |-> m, s |-> t]
       [] OTHER -> [op |-> "cmet", m |-> m])
(* exhaustive exploration of small data: one set pair at a time *)
Small(w,k) == [1..(w*k) -> {0,2,4}]
DataX == q.n = <<>> /\ \E w \in WS, n1 \in NS, n2 \in NS : \E x \in Small(w,n1+n2), y \in Small(w,n1+n2) : q' = [Q0 EXCEPT !.w = w, !.n = <<n1,n2>>, !.x = x, !.y = y] /\ UNCHANGED <<cm,hist>>
CmX == \E k \in 0..3 : (\A i \in 1..4 : cm[1][i] < 3) /\ cm' = [cm EXCEPT ![1] = Upd(@,<<k>>)] /\ UNCHANGED <<q,hist>>
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN (IF MODE = 1 THEN CmR ELSE cm' = cm /\ (\E k \in {RE(1..8)} : IF q.n = <<>> \/ k = 1 THEN Data ELSE IF k = 2 THEN Relabel ELSE Train))
           ELSE IF MODE = 1 THEN CmX ELSE DataX
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
(* laws of the model *)
Swap(p) == [p EXCEPT !.x = p.y, !.y = p.x]
Laws == q.n # <<>> => \A d \in 0..1 : \A kind \in 0..1 : \A t \in 0..4 :
  /\ Correct(q,kind,t,d) \in 0..Total(q,kind,d)
  /\ kind = 1 => Correct(q,kind,t,d) = Correct(Swap(q),kind,t,d)
  /\ q.x = q.y => Correct(q,kind,t,d) = Total(q,kind,d) /\ Loss(q,d,1) = 0
  /\ (Loss(q,d,Rows(q,d)) = 0 => q.x = q.y \/ \A i \in 1..Rows(q,d) : RowSq(q,d,i) = 0)
  /\ (kind = 1 /\ t = 4) => Correct(q,kind,t,d) = Total(q,kind,d)
  /\ \A a \in 1..Rows(q,d) : Loss(q,d,a) >= Loss(q,d,Rows(q,d)) - Chunks(q,d,a)
CmLaws == LET m == cm[1] IN
  /\ Add(m,Z) = m /\ Red(<<m,Z,Z>>,0,3) = m /\ Count(<<>>) = Z
  /\ \A k \in 0..3 : Add(Count(<<k>>),m) = Upd(m,<<k>>)
  /\ TotOK(m,<<m[1],m[2],m[3],m[4],m[1]+m[2],m[3]+m[4],m[1]+m[4],m[3]+m[2],m[1]+m[2]+m[3]+m[4],m[1],m[2],m[3],m[4]>>)
=============================================================================
