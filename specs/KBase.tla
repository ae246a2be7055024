-------------------------------- MODULE KBase --------------------------------
(* matrices of the kernel specifications: column-major sequences of integers *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Min2(a,b) == IF a < b THEN a ELSE b
Max2(a,b) == IF a > b THEN a ELSE b
Sum(n,f(_)) == LET S[k \in 0..n] == IF k = 0 THEN 0 ELSE S[k-1] + f(k) IN S[n]
SumBig(n,f(_)) == Sum(n,f)
MaxOf(n,f(_)) == LET S[k \in 1..n] == IF k = 1 THEN f(1) ELSE Max2(S[k-1],f(k)) IN S[n]
At(x,r,i,j) == x[(j-1)*r+i]                              \* element (i,j) of the r-row matrix x
Mtx(r,c,f(_,_)) == [k \in 1..(r*c) |-> f(((k-1) % r) + 1, ((k-1) \div r) + 1)]
Vec(n,f(_)) == [k \in 1..n |-> f(k)]
Ones(n) == [k \in 1..n |-> 1]
Transp(x,r,c) == Mtx(c,r,LAMBDA i,j : At(x,r,j,i))
MatMul(x,m,n,y,k) == Mtx(m,k,LAMBDA i,j : Sum(n,LAMBDA t : At(x,m,i,t)*At(y,n,t,j)))      \* x: m*n, y: n*k
(* o approximates S*v*sqrt(m/n): compared by squares, the rounding of o allowed for *)
SqrtScaled(o,S,v,m,n) == /\ Sgn(o) = Sgn(v) \/ o = 0
                         /\ Abs(o*o*n - S*S*v*v*m) <= n*(Abs(o)+1)
RE(S) == RandomElement(S)
=============================================================================
