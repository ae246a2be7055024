------------------------------- MODULE Layers --------------------------------
(* What a network made of fully connected, identity, vertical, horizontal,     *)
(* tiled and optional (gated) layers computes, forwards and backwards.         *)
(* Activations are in units of 1/4, derivatives of the loss by them in units   *)
(* of 1/16, so their products (summands of dL/dW) are in units of 1/64.        *)
EXTENDS Integers, Sequences, TLC
S == 4
Abs(a) == IF a < 0 THEN -a ELSE a
Sum(n,f(_)) == LET T[k \in 0..n] == IF k = 0 THEN 0 ELSE T[k-1] + f(k) IN T[n]
Half(z) == IF z >= 0 THEN z \div 2 ELSE -((-z) \div 2)
(* --- trees of layers --- *)
FC(n,act) == [k |-> "fc", n |-> n, act |-> act]
Id == [k |-> "id"]
Gate == [k |-> "gate"]
Vp(s) == [k |-> "v", s |-> s]
F(l,o,c) == [l |-> l, o |-> o, c |-> c]                        \* a layer and the columns it looks at
Hp(s) == [k |-> "h", s |-> s]
Tp(l,n) == [k |-> "t", l |-> l, n |-> n]
Op(s,np) == [k |-> "o", s |-> s, np |-> np]
Inw(t,a,b,c) == CASE t \in {3,6} -> 2*a [] t \in {9,10} -> 2+2*a+1 [] OTHER -> a
Tops(t,a,b,c,y) == LET out == FC(y,"i") opt(np) == <<Op(<<F(Gate,0,2),F(FC(b,"r"),2,a),F(Vp(<<FC(c,"i"),FC(b,"l")>>),2+a,a+1)>>,np),out>> IN
  CASE t = 0 -> <<FC(b,"r"),out>>
    [] t = 1 -> <<FC(b,"l"),FC(c,"i"),out>>
    [] t = 2 -> <<Vp(<<FC(b,"r"),FC(c,"l")>>),out>>
    [] t = 3 -> <<Hp(<<F(FC(b,"r"),0,a),F(FC(c,"i"),a,a)>>),out>>
    [] t = 4 -> <<FC(b+1,"l"),Hp(<<F(FC(c,"r"),0,b),F(Id,1,b)>>),out>>
    [] t = 5 -> <<FC(b+1,"i"),Hp(<<F(Vp(<<FC(c,"r"),FC(b,"l")>>),0,b),F(FC(c,"i"),0,b+1),F(Id,b,1)>>),out>>
    [] t = 6 -> <<Tp(FC(b,"r"),2),out>>
    [] t = 7 -> <<FC(3*b,"i"),Tp(Vp(<<FC(c,"r"),FC(b,"l")>>),3),out>>
    [] t = 8 -> <<FC(2*b,"l"),Tp(FC(c,"r"),2),out>>
    [] t = 9 -> opt(FALSE)
    [] t = 10 -> opt(TRUE)
    [] t = 11 -> <<FC(b+3,"r"),Op(<<F(Gate,0,2),F(FC(b,"r"),2,1),F(FC(c,"i"),3,b)>>,FALSE),out>>
    [] t = 12 -> <<FC(2*b+1,"i"),Vp(<<Hp(<<F(Tp(FC(c,"r"),2),0,2*b),F(Id,2*b,1)>>),FC(b,"l")>>),out>>
    [] t = 13 -> <<FC(b,"i"),FC(b+3,"r"),Op(<<F(Gate,0,2),F(FC(b,"r"),2,1),F(FC(c,"i"),3,b)>>,TRUE),out>>
    [] t = 14 -> <<FC(b,"l"),FC(b+4,"i"),Hp(<<F(Vp(<<FC(2*c,"i"),Tp(FC(1,"r"),2)>>),1,b),F(Op(<<F(Gate,0,2),F(FC(c,"r"),2,1),F(Hp(<<F(FC(1,"i"),0,b),F(Id,b,1)>>),3,b+1)>>,FALSE),0,b+4)>>),out>>
Net(t,a,b,c,y) == Vp(Tops(t,a,b,c,y))
(* --- a layer (number i) whose outputs are dropped out by the mask m (empty: not at all) and penalized (L1, L2) but for the first g columns --- *)
Xl(i,l,kind,g,nz,C) == [k |-> "x", l |-> l, i |-> i, kind |-> kind, m |-> C.M[i], l1 |-> C.l1[i], l2 |-> C.l2[i], g |-> g, nz |-> nz]
InwD(t,a,b,c) == CASE t \in {7,8} -> 2+2*a [] OTHER -> a
XKinds(t) == CASE t = 0 -> <<1>> [] t = 1 -> <<1,3>> [] t = 2 -> <<2,3>> [] t = 3 -> <<1,1>> [] t = 4 -> <<1,1>> [] t = 5 -> <<1,2>> [] t = 6 -> <<3>> [] t \in {7,8} -> <<1,1,3>> [] t = 9 -> <<2,1>> [] t = 10 -> <<1,3>>
Alpha(t) == CASE t = 3 -> {1,2} [] t = 9 -> {2} [] t = 10 -> {2} [] OTHER -> {}
TopsD(t,a,b,c,y,C) == LET out == FC(y,"i") opt(np) == <<Xl(3,Op(<<F(Gate,0,2),F(Xl(1,FC(b,"r"),"d",0,FALSE,C),2,a),F(Xl(2,FC(c,"l"),"d",0,FALSE,C),2+a,a)>>,np),"d",IF np THEN 4 ELSE 2,FALSE,C),out>> IN
  CASE t = 0 -> <<Xl(1,FC(b,"r"),"d",0,FALSE,C),out>>
    [] t = 1 -> <<Xl(1,FC(b,"l"),"d",0,FALSE,C),Xl(2,FC(c,"i"),"d",0,FALSE,C),out>>
    [] t = 2 -> <<Xl(1,FC(b,"l"),"d",0,FALSE,C),Xl(2,FC(c,"r"),"d",0,TRUE,C),out>>
    [] t = 3 -> <<FC(b,"i"),Xl(1,FC(c,"l"),"a",0,FALSE,C),Xl(2,FC(b,"i"),"b",0,FALSE,C),out>>
    [] t = 4 -> <<FC(b+1,"l"),Xl(2,Hp(<<F(Xl(1,FC(c,"r"),"d",0,FALSE,C),0,b),F(FC(b,"i"),1,b)>>),"d",0,FALSE,C),out>>
    [] t = 5 -> <<FC(b+1,"r"),Xl(2,Hp(<<F(Xl(1,FC(c,"r"),"d",0,FALSE,C),0,b),F(Id,1,b)>>),"d",0,FALSE,C),out>>
    [] t = 6 -> <<FC(2*b,"i"),Tp(Xl(1,FC(c,"i"),"d",0,FALSE,C),2),out>>
    [] t = 7 -> opt(FALSE)
    [] t = 8 -> opt(TRUE)
    [] t = 9 -> <<FC(b+3,"r"),Op(<<F(Gate,0,2),F(Xl(1,FC(b,"l"),"d",0,FALSE,C),2,1),F(Xl(2,FC(c,"i"),"b",0,FALSE,C),3,b)>>,FALSE),out>>
    [] t = 10 -> <<Vp(<<Xl(1,FC(b,"l"),"d",0,FALSE,C),Xl(2,FC(c,"l"),"a",0,FALSE,C)>>),out>>
NoMask(n) == [k \in 1..n |-> <<>>]
RECURSIVE NL(_), Wd(_,_), Incs(_,_), IncsV(_,_,_)
NL(d) == CASE d.k = "fc" -> 1 [] d.k \in {"id","gate"} -> 0 [] d.k \in {"t","x"} -> NL(d.l)
           [] d.k = "v" -> Sum(Len(d.s), LAMBDA i : NL(d.s[i])) [] OTHER -> Sum(Len(d.s), LAMBDA i : NL(d.s[i].l))
Wd(d,w) == CASE d.k = "fc" -> d.n [] d.k \in {"id","gate"} -> w [] d.k = "t" -> d.n*Wd(d.l,w \div d.n) [] d.k = "x" -> Wd(d.l,w)
             [] d.k = "v" -> (IF Len(d.s) = 1 THEN Wd(d.s[1],w) ELSE Wd(Vp(Tail(d.s)),Wd(d.s[1],w)))
             [] d.k = "h" -> Sum(Len(d.s), LAMBDA i : Wd(d.s[i].l,d.s[i].c))
             [] d.k = "o" -> Sum(Len(d.s), LAMBDA i : Wd(d.s[i].l,d.s[i].c)) + (IF d.np THEN d.s[1].c ELSE 0)
(* widths of the inputs of the layers with weights, in depth-first order *)
IncsV(s,i,w) == IF i > Len(s) THEN <<>> ELSE Incs(s[i],w) \o IncsV(s,i+1,Wd(s[i],w))
Incs(d,w) == CASE d.k = "fc" -> <<w>> [] d.k \in {"id","gate"} -> <<>> [] d.k = "t" -> Incs(d.l,w \div d.n) [] d.k = "x" -> Incs(d.l,w)
               [] d.k = "v" -> IncsV(d.s,1,w)
               [] OTHER -> LET T[i \in 0..Len(d.s)] == IF i = 0 THEN <<>> ELSE T[i-1] \o Incs(d.s[i].l,d.s[i].c) IN T[Len(d.s)]
Offs(d,i) == Sum(i-1, LAMBDA q : NL(IF d.k = "v" THEN d.s[q] ELSE d.s[q].l))
(* --- forwards: X and results are sequences of rows; the tape keeps what the way back needs --- *)
Slice(X,o,c) == TLCEval([r \in 1..Len(X) |-> SubSeq(X[r],o+1,o+c)])
Pick(X,f(_)) == LET T[r \in 0..Len(X)] == IF r = 0 THEN <<>> ELSE IF f(r) THEN Append(T[r-1],X[r]) ELSE T[r-1] IN T[Len(X)]
Pos(r,f(_)) == Sum(r, LAMBDA q : IF f(q) THEN 1 ELSE 0)
Roll(X,n) == LET w == IF Len(X) = 0 THEN 0 ELSE Len(X[1]) \div n IN TLCEval([q \in 1..n*Len(X) |-> LET r == ((q-1) % Len(X))+1 g == (q-1) \div Len(X) IN SubSeq(X[r],g*w+1,(g+1)*w)])
Cat(n,f(_)) == LET T[i \in 0..n] == IF i = 0 THEN <<>> ELSE T[i-1] \o f(i) IN T[n]
Unroll(Y,n) == LET m == Len(Y) \div n IN [r \in 1..m |-> Cat(n, LAMBDA g : Y[(g-1)*m+r])]
Zeros(n) == [q \in 1..n |-> 0]
Act(k,z) == CASE k = "r" -> (IF z > 0 THEN z ELSE 0) [] k = "l" -> (IF z < 0 THEN Half(z) ELSE z) [] k = "i" -> z
DAct(k,a,x) == CASE k = "r" -> (IF a > 0 THEN x ELSE 0) [] k = "l" -> (IF a > 0 THEN x ELSE Half(x)) [] k = "i" -> x
Aff(x,w) == LET n == Len(x) IN [j \in 1..Len(w) |-> Sum(n, LAMBDA i : w[j][i]*x[i]) + S*w[j][n+1]]
(* dropped: nothing remains (alpha dropout: the shifted saturation value); kept: scaled up (alpha dropout: rescaled and shifted) *)
Drop(kind,x,m) == CASE kind = "d" -> x*m [] kind = "a" -> (IF m = 0 THEN -2 ELSE x*m+6) [] kind = "b" -> (IF m = 0 THEN 2 ELSE x*m+6)
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Pen(d,x,c,e) == IF c <= d.g THEN e ELSE LET e1 == IF d.nz /\ e = 0 THEN e ELSE e+16*d.l1*Sign(x) IN IF d.nz /\ e1 = 0 THEN e1 ELSE e1+4*d.l2*x
Mk(d,r,c) == IF r <= Len(d.m) /\ c <= Len(d.m[r]) THEN d.m[r][c] ELSE 1
RECURSIVE Fwd(_,_,_,_), FwdV(_,_,_,_,_)
FwdV(s,i,X,W,o) == IF i > Len(s) THEN <<>> ELSE LET t == Fwd(s[i],X,W,o) IN <<t>> \o FwdV(s,i+1,t.A,W,o+NL(s[i]))
Fwd(d,X,W,o) ==
  CASE d.k = "fc" -> (LET z == TLCEval([r \in 1..Len(X) |-> Aff(X[r],W[o+1])]) IN [A |-> TLCEval([r \in 1..Len(X) |-> [j \in 1..d.n |-> Act(d.act,z[r][j])]]), X |-> X, ch |-> <<>>, z |-> z])
    [] d.k = "id" -> [A |-> X, X |-> X, ch |-> <<>>]
    [] d.k = "gate" -> [A |-> TLCEval([r \in 1..Len(X) |-> [c \in 1..Len(X[r]) |-> IF 2*X[r][c] > S THEN S ELSE 0]]), X |-> X, ch |-> <<>>]
    [] d.k = "x" -> (LET t == Fwd(d.l,X,W,o) IN [A |-> TLCEval(IF d.m = <<>> THEN t.A ELSE [r \in 1..Len(t.A) |-> [c \in 1..Len(t.A[r]) |-> Drop(d.kind,t.A[r][c],Mk(d,r,c))]]), X |-> X, ch |-> <<t>>])
    [] d.k = "v" -> (LET ts == FwdV(d.s,1,X,W,o) IN [A |-> ts[Len(ts)].A, X |-> X, ch |-> ts])
    [] d.k = "t" -> (LET t == Fwd(d.l,Roll(X,d.n),W,o) IN [A |-> TLCEval(Unroll(t.A,d.n)), X |-> X, ch |-> <<t>>])
    [] d.k = "h" -> (LET ts == TLCEval([i \in 1..Len(d.s) |-> Fwd(d.s[i].l,Slice(X,d.s[i].o,d.s[i].c),W,o+Offs(d,i))]) IN
                      [A |-> TLCEval([r \in 1..Len(X) |-> Cat(Len(ts), LAMBDA i : ts[i].A[r])]), X |-> X, ch |-> ts])
    [] d.k = "o" -> (LET g == Fwd(d.s[1].l,Slice(X,d.s[1].o,d.s[1].c),W,o).A
                         op(i,r) == g[r][i-1] # 0
                         ts == TLCEval([i \in 1..Len(d.s) |-> IF i = 1 THEN [A |-> g, X |-> X, ch |-> <<>>] ELSE Fwd(d.s[i].l,Pick(Slice(X,d.s[i].o,d.s[i].c),LAMBDA r : op(i,r)),W,o+Offs(d,i))]) IN
                      [A |-> TLCEval([r \in 1..Len(X) |-> g[r] \o (IF d.np THEN [c \in 1..Len(g[r]) |-> S - g[r][c]] ELSE <<>>)
                                \o Cat(Len(ts)-1, LAMBDA q : IF op(q+1,r) THEN ts[q+1].A[Pos(r,LAMBDA p : op(q+1,p))] ELSE Zeros(Wd(d.s[q+1].l,d.s[q+1].c)))]), X |-> X, ch |-> ts])
(* is some activation function (or gate) exactly where its slope jumps? *)
RECURSIVE Kink(_,_)
Kink(d,t) == CASE d.k = "fc" -> d.act # "i" /\ \E r \in 1..Len(t.z) : \E j \in 1..d.n : t.z[r][j] = 0
               [] d.k = "id" -> FALSE
               [] d.k = "gate" -> \E r \in 1..Len(t.X) : \E c \in 1..Len(t.X[r]) : 2*t.X[r][c] = S
               [] d.k = "t" -> Kink(d.l,t.ch[1])
               [] d.k = "x" -> Kink(d.l,t.ch[1]) \/ (d.nz /\ (d.l1 # 0 \/ d.l2 # 0)) \/ (d.l1 # 0 /\ \E r \in 1..Len(t.A) : \E c \in 1..Len(t.A[r]) : t.ch[1].A[r][c] = 0)
               [] d.k = "v" -> \E i \in 1..Len(d.s) : Kink(d.s[i],t.ch[i])
               [] d.k = "h" -> \E i \in 1..Len(d.s) : Kink(d.s[i].l,t.ch[i])
               [] d.k = "o" -> Kink(d.s[1].l,[X |-> Slice(t.X,d.s[1].o,d.s[1].c)]) \/ \E i \in 2..Len(d.s) : Kink(d.s[i].l,t.ch[i])
(* --- backwards: D = dL/dA; yields dL/dX and, for every layer with weights, the sum over rows of dL/dW with the number of rows --- *)
RECURSIVE Bwd(_,_,_,_,_), BwdV(_,_,_,_,_,_)
Grad(dZ,X,w) == [j \in 1..Len(w) |-> [i \in 1..Len(w[1]) |-> Sum(Len(X), LAMBDA r : dZ[r][j]*(IF i = Len(w[1]) THEN S ELSE X[r][i]))]]
BwdV(s,ts,i,D,W,o) == IF i = 0 THEN [dX |-> D, g |-> <<>>] ELSE
  LET b == Bwd(s[i],ts[i],D,W,o+Offs([k |-> "v", s |-> s],i)) u == BwdV(s,ts,i-1,b.dX,W,o) IN [dX |-> u.dX, g |-> u.g \o b.g]
Bwd(d,t,D,W,o) ==
  CASE d.k = "fc" -> (LET w == W[o+1] dZ == TLCEval([r \in 1..Len(D) |-> [j \in 1..d.n |-> DAct(d.act,t.A[r][j],D[r][j])]]) IN
                       [dX |-> TLCEval([r \in 1..Len(D) |-> [i \in 1..Len(t.X[r]) |-> Sum(d.n, LAMBDA j : dZ[r][j]*w[j][i])]]), g |-> <<[s |-> TLCEval(Grad(dZ,t.X,w)), r |-> Len(D)]>>])
    [] d.k = "id" -> [dX |-> D, g |-> <<>>]
    [] d.k = "gate" -> [dX |-> TLCEval([r \in 1..Len(D) |-> Zeros(Len(t.X[r]))]), g |-> <<>>]
    [] d.k = "v" -> BwdV(d.s,t.ch,Len(d.s),D,W,o)
    [] d.k = "x" -> Bwd(d.l,t.ch[1],TLCEval([r \in 1..Len(D) |-> [c \in 1..Len(D[r]) |-> Pen(d,t.ch[1].A[r][c],c,IF d.m = <<>> THEN D[r][c] ELSE D[r][c]*Mk(d,r,c))]]),W,o)
    [] d.k = "t" -> (LET b == Bwd(d.l,t.ch[1],Roll(D,d.n),W,o) IN [dX |-> TLCEval(Unroll(b.dX,d.n)), g |-> b.g])
    [] d.k = "h" -> (LET st(i) == Sum(i-1, LAMBDA q : Wd(d.s[q].l,d.s[q].c))
                         bs == TLCEval([i \in 1..Len(d.s) |-> Bwd(d.s[i].l,t.ch[i],Slice(D,st(i),Wd(d.s[i].l,d.s[i].c)),W,o+Offs(d,i))]) IN
                      [dX |-> TLCEval([r \in 1..Len(D) |-> [c \in 1..Len(t.X[r]) |-> Sum(Len(bs), LAMBDA i : IF c > d.s[i].o /\ c <= d.s[i].o+d.s[i].c THEN bs[i].dX[r][c-d.s[i].o] ELSE 0)]]),
                       g |-> Cat(Len(bs), LAMBDA i : bs[i].g)])
    [] d.k = "o" -> (LET n1 == d.s[1].c*(IF d.np THEN 2 ELSE 1)
                         st(i) == n1 + Sum(i-2, LAMBDA q : Wd(d.s[q+1].l,d.s[q+1].c))
                         op(i,r) == t.ch[1].A[r][i-1] # 0
                         bs == TLCEval([i \in 1..Len(d.s) |-> IF i = 1 THEN [dX |-> <<>>, g |-> <<>>] ELSE Bwd(d.s[i].l,t.ch[i],Pick(Slice(D,st(i),Wd(d.s[i].l,d.s[i].c)),LAMBDA r : op(i,r)),W,o+Offs(d,i))]) IN
                      [dX |-> TLCEval([r \in 1..Len(D) |-> [c \in 1..Len(t.X[r]) |-> Sum(Len(bs)-1, LAMBDA q : LET i == q+1 IN
                                 IF op(i,r) /\ c > d.s[i].o /\ c <= d.s[i].o+d.s[i].c THEN bs[i].dX[Pos(r,LAMBDA p : op(i,p))][c-d.s[i].o] ELSE 0)]]),
                       g |-> Cat(Len(bs), LAMBDA i : bs[i].g)])
(* what the penalties add to the loss, in units of 1/32 *)
RECURSIVE PenLoss(_,_)
PenLoss(d,t) == CASE d.k \in {"fc","id","gate"} -> 0 [] d.k = "t" -> PenLoss(d.l,t.ch[1])
   [] d.k = "x" -> PenLoss(d.l,t.ch[1]) + Sum(Len(t.A), LAMBDA r : Sum(Len(t.A[r]), LAMBDA c : 8*d.l1*Abs(t.A[r][c]) + d.l2*t.A[r][c]*t.A[r][c]))
   [] d.k = "v" -> Sum(Len(d.s), LAMBDA i : PenLoss(d.s[i],t.ch[i]))
   [] d.k = "h" -> Sum(Len(d.s), LAMBDA i : PenLoss(d.s[i].l,t.ch[i]))
   [] d.k = "o" -> Sum(Len(d.s), LAMBDA i : IF i = 1 THEN 0 ELSE PenLoss(d.s[i].l,t.ch[i]))
(* --- loss: sum of (a-y)^2/2 over everything, in units of 1/32; its derivative by the outputs --- *)
Loss2(A,Y) == Sum(Len(A), LAMBDA r : Sum(Len(A[r]), LAMBDA j : LET x == A[r][j]-S*Y[r][j] IN x*x))
Clamp(x,c) == IF c = 0 THEN x ELSE IF x > 16*c THEN 16*c ELSE IF x < -16*c THEN -16*c ELSE x
DOut(A,Y,c) == [r \in 1..Len(A) |-> [j \in 1..Len(A[r]) |-> Clamp(4*(A[r][j]-S*Y[r][j]),c)]]
=============================================================================
