-------------------------------- MODULE KMov ---------------------------------
(* Kernels that move, select, transpose, threshold or compare data. *)
EXTENDS KBase
X(e,i,j) == At(e.x,e.r,i,j)
Opt(e,f,d) == IF f \in DOMAIN e THEN e[f] ELSE d
(* storage of an r*c matrix: a biased one carries ones in an additional last column, or last row when samples are columns *)
Full(x,r,c,b,bir) == IF b = 0 THEN x ELSE IF bir = 0 THEN x \o Ones(r) ELSE Mtx(r+1,c,LAMBDA i,j : IF i = r+1 THEN 1 ELSE At(x,r,i,j))
Cum(v,n) == Sum(n,LAMBDA k : v[k])
SrcCol(v,t) == CHOOSE s \in 1..Len(v) : Cum(v,s-1) < t /\ t <= Cum(v,s)
(* the i-th row selected by mask v *)
Pick(v,i) == CHOOSE s \in 1..Len(v) : v[s] = 1 /\ Cum(v,s) = i
Bin(a,k,lo,hi) == IF a > k THEN hi ELSE lo
Clamp(a,lo,hi) == IF a < lo THEN lo ELSE IF a > hi THEN hi ELSE a
Roll(e) == LET n == e.c \div e.k IN Mtx(e.r*e.k,n,LAMBDA i,j : X(e,((i-1) % e.r)+1,((i-1) \div e.r)*n + j))
Unroll(e) == LET m == e.r \div e.k IN Mtx(m,e.c*e.k,LAMBDA i,j : X(e,((j-1) \div e.c)*m + i,((j-1) % e.c)+1))
Exact(e) == CASE
  e.op = "clonecols" -> Mtx(e.r,Cum(e.v,Len(e.v)),LAMBDA i,j : X(e,i,SrcCol(e.v,j)))
  [] e.op = "clonecol" -> Mtx(e.r,e.n,LAMBDA i,j : X(e,i,1))
  [] e.op = "roll" -> Full(Roll(e),e.r*e.k,e.c \div e.k,e.b,0)
  [] e.op = "unroll" -> Full(Unroll(e),e.r \div e.k,e.c*e.k,e.b,0)
  [] e.op = "exrows" \/ (e.op = "exbatch" /\ e.bir = 0) -> Full(Mtx(Len(e.v),e.c,LAMBDA i,j : X(e,e.v[i]+1,j)),Len(e.v),e.c,e.db,0)
  [] e.op = "excols" \/ (e.op = "exbatch" /\ e.bir = 1) -> Full(Mtx(e.r,Len(e.v),LAMBDA i,j : X(e,i,e.v[j]+1)),e.r,Len(e.v),e.db,e.bir)
  [] e.op = "exmask" -> LET n == Cum(e.v,Len(e.v)) IN Full(Mtx(n,e.c,LAMBDA i,j : X(e,Pick(e.v,i),j)),n,e.c,e.db,0)
  [] e.op = "fillmask" -> Full(Mtx(Len(e.v),e.c,LAMBDA i,j : IF e.v[i] = 1 THEN X(e,Cum(e.v,i),j) ELSE 0),Len(e.v),e.c,e.db,0)
  [] e.op = "exseq" -> Full(Mtx(e.n,e.c,LAMBDA i,j : X(e,e.o0+i,j)),e.n,e.c,e.b,0)
  [] e.op = "transp" -> Full(Transp(e.x,e.r,e.c),e.c,e.r,e.db,1-e.bir)
  [] e.op = "tip" -> LET nb == 1-e.bir IN Full(Transp(e.x,e.r,e.c),e.c,e.r,e.b,nb) \o <<e.c + (IF nb = 1 THEN e.b ELSE 0), e.r + (IF nb = 0 THEN e.b ELSE 0), nb, e.b>>
  [] e.op = "binip" -> Full(Mtx(e.r,e.c,LAMBDA i,j : Bin(X(e,i,j),e.k,e.lo,e.hi)),e.r,e.c,e.b,0)
  [] e.op = "bin" -> Mtx(e.r,e.c,LAMBDA i,j : Bin(X(e,i,j),e.k,0,1))
  [] e.op = "binbatch" -> Full(Mtx(e.n,e.c,LAMBDA i,j : IF i > e.o0 /\ i <= e.o0 + e.r THEN Bin(X(e,i-e.o0,j),e.k,0,1) ELSE 7),e.n,e.c,e.db,0)
  [] e.op = "cntnz" -> <<Sum(e.r*e.c,LAMBDA k : IF e.x[k] # 0 THEN 1 ELSE 0) + (IF e.b = 1 THEN e.r ELSE 0)>>
  [] e.op = "cntsame" -> <<Sum(Len(e.y),LAMBDA k : IF e.y[k] = e.x[k+e.o0] THEN 1 ELSE 0)>>
  [] e.op = "cntsameb" -> <<Sum(e.n,LAMBDA i : Sum(e.c,LAMBDA j : IF X(e,i+e.o0,j) = At(e.y,e.n,i,j) THEN 1 ELSE 0))>>
  [] e.op = "clamp" -> Full(Mtx(e.r,e.c,LAMBDA i,j : Clamp(X(e,i,j),e.lo,e.hi)),e.r,e.c,e.b,0)
  [] e.op = "onecompl" -> Full(Mtx(e.r,e.c,LAMBDA i,j : 1-X(e,i,j)),e.r,e.c,e.db,0)
Ok(e,o) == o = Exact(e)
Pre(e) == /\ e.op = "roll" => e.k > 1 /\ e.c % e.k = 0
          /\ e.op = "unroll" => e.k > 1 /\ e.r % e.k = 0
          /\ e.op \in {"exseq","cntsameb"} => e.o0 + e.n <= e.r
          /\ e.op = "binbatch" => e.o0 + e.r <= e.n
          /\ e.op = "cntsame" => e.o0 + Len(e.y) <= Len(e.x)
          /\ e.op = "fillmask" => e.r = Cum(e.v,Len(e.v)) /\ e.r > 0
          /\ e.op = "exmask" => Cum(e.v,Len(e.v)) > 0
          /\ e.op \in {"exrows"} => Len(e.v) <= e.r
          /\ e.op = "exbatch" /\ e.bir = 0 => Len(e.v) <= e.r
          /\ e.op = "clamp" => e.lo < e.hi /\ (e.b = 1 => e.lo <= 1 /\ e.hi >= 1)
          /\ e.op = "transp" /\ e.ig = 0 => e.b = e.db
OPS == {"clonecols","clonecol","roll","unroll","exrows","excols","exbatch","exmask","fillmask","exseq","transp","tip","binip","bin","binbatch","cntnz","cntsame","cntsameb","clamp","onecompl"}
=============================================================================
