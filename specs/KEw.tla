-------------------------------- MODULE KEw ----------------------------------
(* Element-wise kernels, matrix products (with the bias unit of a layer), covariances and their derivatives, dropout. *)
EXTENDS KBase
X(e,i,j) == At(e.x,e.r,i,j)
Y(e,i,j) == At(e.y,e.r,i,j)
B(e) == "b" \in DOMAIN e /\ e.b = 1
Bir(e) == "bir" \in DOMAIN e /\ e.bir = 1
(* storage of an r*c matrix with its bias line: a last column of ones, or a last row when the batch runs along rows *)
Stored(r,c,d,b,bir) == IF ~b THEN d ELSE IF ~bir THEN d \o Ones(r) ELSE Mtx(r+1,c,LAMBDA i,j : IF i = r+1 THEN 1 ELSE At(d,r,i,j))
Keep(e,f(_,_)) == Stored(e.r,e.c,Mtx(e.r,e.c,f),B(e),Bir(e))
Kept(e,i,j) == Y(e,i,j) < e.p                             \* mask value below the keep probability (both scaled by 8)
WithOne(x,r,c) == x \o Ones(r)                            \* r samples of c values, the constant unit appended
DM(e) == Mtx(e.r,e.c,LAMBDA i,j : e.r*X(e,i,j) - Sum(e.r,LAMBDA t : X(e,t,j)))           \* de-meaned, scaled by r
Cov(e,i,j) == LET d == DM(e) IN Sum(e.r,LAMBDA t : At(d,e.r,t,i)*At(d,e.r,t,j))         \* scaled by r^3
Tri(e,f(_,_)) == LET col(j) == IF e.lo = 1 THEN [t \in 1..(e.c-j+1) |-> f(j+t-1,j)] ELSE [t \in 1..j |-> f(t,j)]
                     S[j \in 0..e.c] == IF j = 0 THEN <<>> ELSE S[j-1] \o col(j) IN S[e.c]
Fwd(e) == MatMul(WithOne(e.x,e.r,e.c),e.r,e.c+1,Transp(e.y,e.n,e.c+1),e.n)              \* samples * weights^T
Bwd(e) == MatMul(e.x,e.r,e.c,SubSeq(e.y,1,e.c*e.n),e.n)                                  \* bias weights do not propagate
DW(e) == LET z == MatMul(Transp(e.x,e.r,e.c),e.c,e.r,WithOne(e.y,e.r,e.n),e.n+1) IN [q \in DOMAIN z |-> e.k*z[q]]
DDC(e) == LET d == DM(e) IN Mtx(e.r,e.c,LAMBDA i,j : 2*e.k*Sum(e.c,LAMBDA t : IF t = j THEN 0 ELSE At(d,e.r,i,t)*Cov(e,t,j)))
Exact(e) == CASE
  e.op = "mulcaddc" -> Keep(e,LAMBDA i,j : e.s*X(e,i,j) + e.k)
  [] e.op = "mulc" -> Keep(e,LAMBDA i,j : e.k*X(e,i,j))
  [] e.op = "addc" -> Keep(e,LAMBDA i,j : X(e,i,j) + e.k)
  [] e.op = "submulc" -> Keep(e,LAMBDA i,j : e.k*(X(e,i,j) - Y(e,i,j)))
  [] e.op = "mulnb" -> Keep(e,LAMBDA i,j : X(e,i,j)*Y(e,i,j))
  [] e.op = "addnb" -> Keep(e,LAMBDA i,j : X(e,i,j)+Y(e,i,j))
  [] e.op = "addsc" -> Keep(e,LAMBDA i,j : X(e,i,j)+e.k*Y(e,i,j))
  [] e.op = "nzaddsc" -> Keep(e,LAMBDA i,j : IF X(e,i,j) = 0 THEN 0 ELSE X(e,i,j)+e.k*Y(e,i,j))
  [] e.op = "addsgn" -> Keep(e,LAMBDA i,j : X(e,i,j)+e.k*Sgn(Y(e,i,j)))
  [] e.op = "nzaddsgn" -> Keep(e,LAMBDA i,j : IF X(e,i,j) = 0 THEN 0 ELSE X(e,i,j)+e.k*Sgn(Y(e,i,j)))
  [] e.op = "sign" -> Keep(e,LAMBDA i,j : Sgn(Y(e,i,j)))
  [] e.op = "square" -> Keep(e,LAMBDA i,j : Y(e,i,j)*Y(e,i,j))
  [] e.op = "abs" -> Keep(e,LAMBDA i,j : Abs(Y(e,i,j)))
  [] e.op = "sub" -> Keep(e,LAMBDA i,j : X(e,i,j)-Y(e,i,j))
  [] e.op = "mulcsub" -> Keep(e,LAMBDA i,j : e.k*X(e,i,j)) \o Keep(e,LAMBDA i,j : Y(e,i,j) - e.k*X(e,i,j))
  [] e.op = "moment" -> Keep(e,LAMBDA i,j : e.k*X(e,i,j) + Y(e,i,j))
  [] e.op = "drop" -> Mtx(e.r,e.c,LAMBDA i,j : IF Kept(e,i,j) THEN 8*X(e,i,j) ELSE 0) \o [i \in 1..e.r |-> e.p]
                      \o Mtx(e.r,e.c,LAMBDA i,j : IF Kept(e,i,j) THEN 8 ELSE 0)                       \* scaled by p
  [] e.op = "adrop" -> Keep(e,LAMBDA i,j : IF Kept(e,i,j) THEN e.s*X(e,i,j)+e.k ELSE e.d) \o Mtx(e.r,e.c,LAMBDA i,j : IF Kept(e,i,j) THEN e.s ELSE 0)
  [] e.op = "dropmask" -> Keep(e,LAMBDA i,j : IF Kept(e,i,j) THEN X(e,i,j) ELSE 0)
  [] e.op = "ab" -> MatMul(e.x,e.r,e.c,e.y,e.n)
  [] e.op = "abt" -> Stored(e.r,e.n,MatMul(e.x,e.r,e.c,Transp(e.y,e.n,e.c),e.n),B(e),FALSE)
  [] e.op = "atb" -> LET z == MatMul(Transp(e.x,e.r,e.c),e.c,e.r,e.y,e.n) IN [q \in DOMAIN z |-> e.k*z[q]]
  [] e.op = "fwd" -> LET z == Fwd(e) IN IF e.ab = 1 THEN Stored(e.n,e.r,Transp(z,e.r,e.n),B(e),TRUE) ELSE Stored(e.r,e.n,z,B(e),FALSE)
  [] e.op = "bwd" -> LET z == Bwd(e) IN (IF e.pb = 1 THEN Transp(z,e.r,e.n) ELSE z) \o <<e.n+1,e.c>>
  [] e.op = "dw" -> DW(e)
  [] e.op = "cov" -> Tri(e,LAMBDA i,j : Sum(e.r,LAMBDA t : X(e,t,i)*X(e,t,j)))
  [] e.op = "decov" -> <<Sum(e.c,LAMBDA i : Sum(i-1,LAMBDA j : Cov(e,i,j)*Cov(e,i,j)))>>
  [] e.op = "ddecov" -> DDC(e)
  [] OTHER -> <<>>
Near(a,b) == Abs(a-b) <= 1 + Abs(b) \div 10000
Ortho(e,q,tr) == \* Gram matrix of the columns (tr) or rows, values scaled by 1000
  IF tr THEN \A i, j \in 1..e.c : Abs(Sum(e.r,LAMBDA t : At(q,e.r,t,i)*At(q,e.r,t,j)) - (IF i = j THEN 1000000 ELSE 0)) <= 1500*e.r
  ELSE \A i, j \in 1..e.r : Abs(Sum(e.c,LAMBDA t : At(q,e.r,i,t)*At(q,e.r,j,t)) - (IF i = j THEN 1000000 ELSE 0)) <= 1500*e.c
IsOrth(e,tr) == IF tr THEN \A i, j \in 1..e.c : Sum(e.r,LAMBDA t : X(e,t,i)*X(e,t,j)) = (IF i = j THEN 1 ELSE 0)
                ELSE \A i, j \in 1..e.r : Sum(e.c,LAMBDA t : X(e,i,t)*X(e,j,t)) = (IF i = j THEN 1 ELSE 0)
Ok(e,o) == CASE
  e.op \in {"decov","ddecov"} -> LET z == Exact(e) IN Len(o) = Len(z) /\ \A q \in 1..Len(z) : Near(o[q],z[q])
  [] e.op = "svd" -> Len(o) = e.r*e.c+1 /\ o[Len(o)] = 1 /\ Ortho(e,o,e.r >= e.c)
  [] e.op = "isorth" -> o = <<IF IsOrth(e,e.t = 1) THEN 1 ELSE 0>>
  [] OTHER -> o = Exact(e)
Pre(e) == /\ e.op \in {"mulc","mulcaddc","submulc","addsc","nzaddsc","addsgn","nzaddsgn","adrop","ddecov"} => (IF e.op \in {"mulcaddc","adrop"} THEN e.s # 0 ELSE e.k # 0)
          /\ e.op \in {"cov","decov","ddecov"} => e.c > 1
          /\ e.op \in {"decov","ddecov"} => e.r <= 4
          /\ e.op = "adrop" => e.s > 0
OPS == {"mulcaddc","mulc","addc","submulc","mulnb","addnb","addsc","nzaddsc","addsgn","nzaddsgn","sign","square","abs","sub","mulcsub","moment","drop","adrop","dropmask","ab","abt","atb","fwd","bwd","dw","cov","decov","ddecov","svd","isorth"}
=============================================================================
