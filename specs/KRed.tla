-------------------------------- MODULE KRed ---------------------------------
(* What every reduction, row-wise and column-wise kernel computes, whatever form of it runs. *)
EXTENDS KBase
X(e,i,j) == At(e.x,e.r,i,j)
ColSum(e,j) == Sum(e.r,LAMBDA i : X(e,i,j))
NzCnt(e,j) == Sum(e.r,LAMBDA i : IF X(e,i,j) # e.k THEN 1 ELSE 0)
NzSum(e,j) == Sum(e.r,LAMBDA i : IF X(e,i,j) # e.k THEN X(e,i,j) ELSE 0)
NormSq(e,i,cc) == Sum(cc,LAMBDA j : X(e,i,j)*X(e,i,j))
NormCols(e) == IF e.ib = 1 THEN e.c ELSE e.c - 1
Exact(e) == CASE
  e.op = "sumprod" -> <<Sum(e.r*e.c,LAMBDA k : e.x[k]*e.y[k])>>
  [] e.op = "sumsq" -> <<Sum(e.r*e.c,LAMBDA k : e.x[k]*e.x[k])>>
  [] e.op = "sumabs" -> <<Sum(e.r*e.c,LAMBDA k : Abs(e.x[k]))>>
  [] e.op = "sumtri" -> <<Sum(e.r,LAMBDA i : Sum(e.r,LAMBDA j : IF (e.lo = 1 /\ i > j) \/ (e.lo = 0 /\ i < j) THEN X(e,i,j)*X(e,i,j) ELSE 0))>>
  [] e.op = "rdiv" -> Mtx(e.r,e.c,LAMBDA i,j : (4*X(e,i,j)) \div e.v[i])       \* divisors divide 4
  [] e.op = "rmul" -> Mtx(e.r,e.c,LAMBDA i,j : X(e,i,j)*e.v[i])
  [] e.op = "rmax" -> Vec(e.r,LAMBDA i : MaxOf(e.c,LAMBDA j : X(e,i,j)))
  [] e.op \in {"rsumip","rsum"} -> Vec(e.r,LAMBDA i : Sum(e.c,LAMBDA j : X(e,i,j)))
  [] e.op = "ror" -> Vec(e.r,LAMBDA i : IF \E j \in 1..e.c : X(e,i,j) = 1 THEN 1 ELSE 0)
  [] e.op = "cmean" -> Vec(e.c,LAMBDA j : ColSum(e,j))                          \* scaled by r
  [] e.op = "csum" -> Vec(e.c,LAMBDA j : ColSum(e,j))
  [] e.op = "cdemean" -> Mtx(e.r,e.c,LAMBDA i,j : e.r*X(e,i,j) - ColSum(e,j))
  [] e.op = "cdemeannz" -> Mtx(e.r,e.c,LAMBDA i,j : IF X(e,i,j) = e.k THEN 420*e.k ELSE 420*(X(e,i,j) + e.k) - (420*NzSum(e,j)) \div NzCnt(e,j))
  [] e.op = "csub" -> Mtx(e.r,e.c,LAMBDA i,j : X(e,i,j) - e.v[j])
  [] e.op = "cmuldiag" -> Mtx(e.r,e.c,LAMBDA i,j : X(e,i,j)*At(e.y,e.c,j,j))
  [] e.op = "l2" -> Vec(e.r,LAMBDA i : NormSq(e,i,e.c))
  [] OTHER -> <<>>
Ok(e,o) == CASE
  e.op = "idxmax" -> Len(o) = e.r /\ \A i \in 1..e.r : o[i] \in 0..(e.c-1) /\ \A j \in 1..e.c : X(e,i,o[i]+1) >= X(e,i,j)
  [] e.op = "capnorm" -> Len(o) = e.r*e.c /\ \A i \in 1..e.r, j \in 1..e.c :
        LET n == NormSq(e,i,NormCols(e)) p == o[(j-1)*e.r+i] IN IF n > e.k THEN SqrtScaled(p,64,X(e,i,j),e.k,n) ELSE p = 64*X(e,i,j)
  [] e.op = "setnorm" -> Len(o) = e.r*e.c /\ \A i \in 1..e.r, j \in 1..e.c : SqrtScaled(o[(j-1)*e.r+i],64,X(e,i,j),e.k,NormSq(e,i,NormCols(e)))
  [] OTHER -> o = Exact(e)
Pre(e) == /\ e.op \in {"capnorm","setnorm"} => (e.k > 0 /\ NormCols(e) > 0)
          /\ e.op = "setnorm" => \A i \in 1..e.r : NormSq(e,i,NormCols(e)) > 0
          /\ e.op = "cdemeannz" => e.r <= 7
          /\ e.op = "sumtri" => e.r = e.c /\ e.r > 1
OPS == {"sumprod","sumsq","sumtri","rdiv","rmul","rmax","rsumip","rsum","ror","cmean","cdemean","cdemeannz","csub","cmuldiag","l2","idxmax","capnorm","setnorm","sumabs","csum"}
=============================================================================
