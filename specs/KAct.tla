-------------------------------- MODULE KAct ---------------------------------
(* Activation functions, their derivatives (as functions of the activation value), gradients of the output-layer losses and the losses, in fixed
   point of scale S. Operands are codes (field ik names the code), chosen so that exact results are rational multiples of 1, ln 2 and 1/ln 2:
     0: x/8       1: x*ln2      2: sign(x)*(2^|x|-1)     3: x*ln2 for x<0, 2^x-1 else      7: x/16      8: ln(x)+w[row]     9: 2^-x (99: zero)
     4: x/8 for x<0 else unit(bp)*x      6: unit(bn)*x for x<0, unit(bp)*x else;   unit(0) = ln2 (natural base), unit(2) = unit(4) = 1 *)
EXTENDS KBase
S == 16384
LN2 == 11357                                              \* S*ln2
ILN2 == 23637                                             \* S/ln2
Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256 [] n = 9 -> 512 [] n = 10 -> 1024 [] OTHER -> 2048
Log(b,n) == CASE b = 2 -> n*S [] b = 4 -> (n*S) \div 2 [] OTHER -> n*LN2      \* log_b(2^n)
DLog(b,n) == CASE b = 2 -> ILN2 \div Pow2(n) [] b = 4 -> ILN2 \div (2*Pow2(2*n)) [] OTHER -> S \div Pow2(n)      \* b^(-n*unit(b)) / ln b
Exm1(n) == -((S*(Pow2(n)-1)) \div Pow2(n))                 \* 2^-n - 1
B(e) == "b" \in DOMAIN e /\ e.b = 1
Rdiv(a,b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Sq(a) == a*a
Fn(e,x) == CASE
  e.op = "fsigm" -> IF x >= 0 THEN (S*Pow2(x)) \div (1+Pow2(x)) ELSE S \div (1+Pow2(-x))
  [] e.op = "dsigm" -> (S \div 64)*x*(8-x)
  [] e.op = "frelu" -> IF x <= 0 THEN 0 ELSE x*(S \div 8)
  [] e.op = "drelu" -> IF x <= 0 THEN 0 ELSE S
  [] e.op = "fleaky" -> IF x < 0 THEN Rdiv(x*(S \div 8),e.k) ELSE x*(S \div 8)
  [] e.op = "dleaky" -> IF x <= 0 THEN S \div e.k ELSE S
  [] e.op = "felu" -> IF x < 0 THEN Rdiv(e.k*Exm1(-x),4) ELSE x*LN2
  [] e.op = "delu" -> IF x < 0 THEN (S \div 8)*(x+2*e.k) ELSE S
  [] e.op = "felogu" -> IF x < 0 THEN Rdiv(e.k*Exm1(-x),4) ELSE Log(e.bp,x)
  [] e.op = "delogu" -> IF x < 0 THEN (S \div 8)*(x+2*e.k) ELSE DLog(e.bp,x)
  [] e.op = "floglogu" -> IF x < 0 THEN -Log(e.bn,-x) ELSE Log(e.bp,x)
  [] e.op = "dloglogu" -> IF x < 0 THEN DLog(e.bn,-x) ELSE DLog(e.bp,x)
  [] e.op = "flogu" -> IF x <= 0 THEN 0 ELSE Log(e.bp,x)
  [] e.op = "dlogu" -> IF x <= 0 THEN 0 ELSE DLog(e.bp,x)
  [] e.op = "fsoftsign" -> Rdiv(S*e.m*x,4*(e.k+Abs(x)))
  [] e.op = "dsoftsign" -> (S*Sq(2*e.m-Abs(x))) \div (2*e.m*e.k)
  [] e.op = "fsoftsigm" -> (S \div 2) + Rdiv(S*x,2*(e.k+Abs(x)))
  [] e.op = "dsoftsigm" -> (S*Sq(8-Abs(x-8))) \div (16*e.k)
  [] e.op = "fselu" -> IF x < 0 THEN Rdiv(e.k*Exm1(-x),4) ELSE (x*LN2*e.m) \div 4
  [] e.op = "dselu" -> IF x < 0 THEN (S \div 8)*(x+2*e.k) ELSE (S*e.m) \div 4
  [] e.op = "fselu0" -> IF x < 0 THEN Rdiv(28805*(Pow2(-x)-1),-Pow2(-x)) ELSE x*11933
  [] e.op = "dselu0" -> IF x < 0 THEN 28805 + (S \div 8)*x ELSE 17215
  [] e.op = "fstep" -> IF x < 0 THEN 0 ELSE S
  [] e.op = "dstep" -> 0
  [] e.op = "fid" -> x*(S \div 8)
  [] e.op = "did" -> S
Bind(x,y) == y < 4 /\ x > y                                \* false positive: label under the boundary 1/2 and exceeded
G(e,x,y) == CASE
  e.op = "gsigmq" -> (S \div 512)*(x-y)*x*(8-x)
  [] e.op = "gsub" -> (S \div 8)*(x-y)
  [] e.op = "gidxe" -> Rdiv(S*8*(x-y),x*(8-x))
  [] e.op = "gssq" -> Rdiv(S*(x-y)*Sq(8-Abs(x-8)),256*e.k)
  [] e.op = "gssx" -> Rdiv(S*(x-y)*Sq(8-Abs(x-8)),e.k*x*(16-x))
  [] e.op = "gcust" -> IF Bind(x,y) THEN (IF e.k = 2 THEN (S \div 8)*(4*x-8-2*y) ELSE (S \div 8)*4*(x-y)) ELSE IF e.k = 1 THEN (S \div 32)*(x-y) ELSE (S \div 8)*(x-y)
Err(e,x,y) == IF Bind(x,y) THEN (IF e.k = 2 THEN 2*(2*x-4-y) ELSE 4*(x-y)) ELSE IF e.k = 1 THEN x-y ELSE 2*(x-y)   \* scaled by 16
Fops == {"fsigm","frelu","fleaky","felu","felogu","floglogu","flogu","fsoftsign","fsoftsigm","fselu","fselu0","fstep","fid"}
Dops == {"dsigm","drelu","dleaky","delu","delogu","dloglogu","dlogu","dsoftsign","dsoftsigm","dselu","dselu0","dstep","did"}
Gops == {"gsigmq","gsub","gidxe","gssq","gssx","gcust"}
Lops == {"lquad","lxe","lsm","lcust"}
Near(a,b) == Abs(a-b) <= 2 + Abs(b) \div 4000
RowSum(e,i) == Sum(e.c,LAMBDA j : At(e.x,e.r,i,j))
RowMax(e,i) == MaxOf(e.c,LAMBDA j : At(e.x,e.r,i,j))
Exact(e) == LET n == Len(e.x) IN CASE
  e.op \in Fops -> Vec(n,LAMBDA q : Fn(e,e.x[q])) \o (IF B(e) THEN Vec(e.r,LAMBDA q : S) ELSE <<>>)
  [] e.op \in Dops -> Vec(n,LAMBDA q : Fn(e,e.x[q]))
  [] e.op \in Gops -> Vec(n,LAMBDA q : G(e,e.x[q],e.y[q]))
  [] e.op = "softmax" -> Mtx(e.r,e.c,LAMBDA i,j : (S*At(e.x,e.r,i,j)) \div RowSum(e,i)) \o (IF B(e) THEN Vec(e.r,LAMBDA q : S) ELSE <<>>)
  [] e.op = "smparts" -> Vec(e.r,LAMBDA i : (S*RowSum(e,i)) \div RowMax(e,i)) \o Mtx(e.r,e.c,LAMBDA i,j : (S*At(e.x,e.r,i,j)) \div RowMax(e,i))
  [] e.op = "lquad" -> <<(S \div 128)*Sum(n,LAMBDA q : Sq(e.x[q]-e.y[q]))>>
  [] e.op = "lcust" -> <<(S \div 512)*Sum(n,LAMBDA q : Sq(Err(e,e.x[q],e.y[q])))>>
  [] e.op = "lxe" -> <<LN2*Sum(n,LAMBDA q : IF e.x[q] = 99 THEN 0 ELSE e.x[q])>>
  [] e.op = "lsm" -> <<(LN2*Sum(n,LAMBDA q : IF e.x[q] = 99 THEN 0 ELSE e.x[q]*e.y[q])) \div 4>>
(* an activation that is exactly wrong costs a large but finite amount *)
Inf(e) == Cardinality({q \in DOMAIN e.x : e.x[q] = 99 /\ (e.op = "lsm" => e.y[q] > 0)})
Ok(e,o) == LET z == Exact(e) IN Len(o) = Len(z) /\
  IF e.op \in {"lxe","lsm"} /\ Inf(e) > 0 THEN LET i == Inf(e) m == IF e.op = "lsm" THEN 4 ELSE 1 IN o[1] >= z[1] + (i*S*50) \div m /\ o[1] <= z[1] + i*S*800
  ELSE \A q \in 1..Len(z) : Near(o[q],z[q])
Rg(e,lo,hi) == \A q \in DOMAIN e.x : e.x[q] \in lo..hi
RgY(e,lo,hi) == \A q \in DOMAIN e.y : e.y[q] \in lo..hi
Kind(op) == CASE op \in {"fsigm","felu","fselu","fselu0"} -> 1 [] op = "felogu" -> 3 [] op \in {"floglogu","flogu"} -> 2 [] op = "delogu" -> 4 [] op \in {"dloglogu","dlogu"} -> 6
  [] op \in {"dsoftsigm","gssq","gssx"} -> 7 [] op \in {"softmax","smparts"} -> 8 [] op \in {"lxe","lsm"} -> 9 [] OTHER -> 0
Pre(e) == e.ik = Kind(e.op) /\ CASE
  e.op \in {"fsigm","felu","fselu","fselu0","felogu","floglogu","flogu"} -> Rg(e,-6,6)
  [] e.op \in {"dsigm","gsigmq"} -> Rg(e,0,8)
  [] e.op = "drelu" -> Rg(e,0,16)
  [] e.op \in {"delu","delogu","dselu"} -> Rg(e,-2*e.k,5)
  [] e.op = "dselu0" -> Rg(e,-14,8)
  [] e.op = "dloglogu" -> Rg(e,-5,5)
  [] e.op = "dlogu" -> Rg(e,0,5)
  [] e.op = "dsoftsign" -> Rg(e,-2*e.m,2*e.m)
  [] e.op \in {"dsoftsigm","gssq"} -> Rg(e,0,16)
  [] e.op = "gssx" -> Rg(e,1,15)
  [] e.op = "gidxe" -> Rg(e,1,7)
  [] e.op \in {"softmax","smparts"} -> Rg(e,1,20)
  [] e.op = "lxe" -> \A q \in DOMAIN e.x : e.x[q] \in 0..8 \cup {99} /\ e.y[q] \in {0,1}
  [] e.op = "lsm" -> \A q \in DOMAIN e.x : e.x[q] \in 0..8 \cup {99} /\ e.y[q] \in 0..4
  [] OTHER -> Rg(e,-32,32)
OPS == Fops \cup Dops \cup Gops \cup Lops \cup {"softmax","smparts"}
=============================================================================
