-------------------------------- MODULE Norm ---------------------------------
(* Normalization of a data set: statistics are taken from (a leading part of)  *)
(* the train samples, per column or over the whole matrix, and the resulting   *)
(* affine map is applied to every sample of every set; labels and biases stay. *)
(* A run-time normalized set leaves its base data alone and forgets an earlier *)
(* normalization first. Values are integers in units of 1/64.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Min(a,b) == IF a < b THEN a ELSE b
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
RECURSIVE Sqr(_,_,_)
Sqr(v,lo,hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m*m <= v THEN Sqr(v,m,hi) ELSE Sqr(v,lo,m-1)
Isqrt(v) == Sqr(v,0,40000)
Abs(x) == IF x < 0 THEN -x ELSE x
Row(d,w,i) == SubSeq(d, (i-1)*w+1, i*w)
Col(d,w,n,c) == [i \in 1..n |-> d[(i-1)*w+c]]
(* mean and standard deviation (n-1 in the denominator), if they are exact *)
Stats(x) == LET n == Len(x)  s == SumS(x)  qq == SumS([i \in 1..n |-> x[i]*x[i]])  v == n*qq - s*s IN
  IF n < 2 \/ s % n # 0 \/ v % (n*(n-1)) # 0 THEN [ok |-> FALSE, mu |-> 0, sd |-> 0]
  ELSE LET r == Isqrt(v \div (n*(n-1))) IN [ok |-> r*r*n*(n-1) = v, mu |-> s \div n, sd |-> r]
(* the map for one statistic *)
App(st,e,v) == LET sc == e.ns = 1 /\ st.sd # 0  num == IF sc THEN 64*e.T ELSE 1  den == IF sc THEN st.sd ELSE 1 IN
   IF e.nc = 1 THEN [n |-> num*(v - st.mu), d |-> den, o |-> 64*e.C] ELSE [n |-> num*v, d |-> den, o |-> 0]
Val(f) == f.n \div f.d + f.o
Exact(f) == f.n % f.d = 0 /\ Abs(Val(f)) <= 1500
Rows(q,e) == IF e.bs < 0 \/ e.bc = 0 THEN q.n1 ELSE Min(q.n1, e.bs * e.bc)
Src(q,d) == IF q.rt = 1 THEN (IF d = 1 THEN q.r1 ELSE q.r2) ELSE (IF d = 1 THEN q.c1 ELSE q.c2)
St(q,e) == [c \in 1..q.w |-> IF e.cw = 1 THEN Stats(Col(Src(q,1),q.w,Rows(q,e),c)) ELSE Stats(SubSeq(Src(q,1),1,Rows(q,e)*q.w))]
Pre(q,e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "load" -> TRUE
    [] e.op = "resetn" -> q.n1 > 0 /\ q.rt = 1
    [] e.op = "norm" -> /\ q.n1 > 0 /\ (e.bs < 0 \/ e.bs \in 1..q.n1)
         /\ (e.ns + e.nc > 0) => LET st == St(q,e) IN
            /\ \A c \in 1..q.w : st[c].ok
            /\ \A d \in 1..2 : \A i \in 1..Len(Src(q,d)) : Exact(App(st[((i-1) % q.w)+1], e, Src(q,d)[i]))
Map(q,e,st,d) == [i \in 1..Len(Src(q,d)) |-> Val(App(st[((i-1) % q.w)+1], e, Src(q,d)[i]))]
Zero == [rt |-> 0, n1 |-> 0, n2 |-> 0, w |-> 1, r1 |-> <<>>, r2 |-> <<>>, c1 |-> <<>>, c2 |-> <<>>]
(* the accumulator of successive affine maps: x -> sc*x + of *)
Acc0 == [sc |-> 1, of |-> 0, b1 |-> 0, b2 |-> 0]
IsAcc(e) == e.op \in {"asc","aof","aboth","aall","arst"}
AccNext(a,e) ==
  CASE e.op = "asc" -> [a EXCEPT !.sc = @*e.v, !.of = @*e.v, !.b1 = 1]
    [] e.op = "aof" -> [a EXCEPT !.of = @ + e.v, !.b2 = 1]
    [] e.op = "aboth" -> [sc |-> a.sc*e.v, of |-> a.of*e.v + e.o, b1 |-> 1, b2 |-> 1]
    [] e.op = "aall" -> [sc |-> IF e.b1 = 1 THEN a.sc*e.v ELSE a.sc, of |-> (IF e.b1 = 1 THEN a.of*e.v ELSE a.of) + (IF e.b2 = 1 THEN e.o ELSE 0),
                         b1 |-> IF e.b1 = 1 THEN 1 ELSE a.b1, b2 |-> IF e.b2 = 1 THEN 1 ELSE a.b2]
    [] e.op = "arst" -> Acc0
AccSmall(a) == Abs(a.sc) <= 30000 /\ Abs(a.of) <= 30000
Next0(q,e) ==
  CASE e.op = "reset" -> Zero
    [] e.op = "load" -> [rt |-> e.rt, n1 |-> e.n1, n2 |-> e.n2, w |-> e.w, r1 |-> e.x1, r2 |-> e.x2, c1 |-> e.x1, c2 |-> e.x2]
    [] e.op = "resetn" -> [q EXCEPT !.c1 = q.r1, !.c2 = q.r2]
    [] e.op = "norm" -> IF e.ns = 0 /\ e.nc = 0 THEN (IF q.rt = 1 THEN [q EXCEPT !.c1 = q.r1, !.c2 = q.r2] ELSE q)
                        ELSE LET st == St(q,e) IN [q EXCEPT !.c1 = Map(q,e,st,1), !.c2 = Map(q,e,st,2)]
(* model-level guarantee: normalizing over all samples reaches the target statistics exactly *)
Reached(q,e) == LET q2 == Next0(q,e)  full == Rows(q,e) = q.n1
                    ss(x) == Stats(x) IN
  (e.op = "norm" /\ full /\ e.ns + e.nc > 0) =>
    \A c \in 1..q.w : LET s0 == St(q,e)[c]  s1 == IF e.cw = 1 THEN ss(Col(q2.c1,q.w,q.n1,c)) ELSE ss(q2.c1) IN
       /\ s1.ok /\ (e.nc = 1 => s1.mu = 64*e.C) /\ (e.ns = 1 /\ s0.sd # 0 => s1.sd = 64*e.T) /\ (e.ns = 0 => s1.sd = (IF e.nc = 1 \/ q.rt = 0 THEN s0.sd ELSE s1.sd))
=============================================================================
