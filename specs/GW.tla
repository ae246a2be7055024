--------------------------------- MODULE GW ----------------------------------
(* How a layer's weights evolve over a history of training steps: loss         *)
(* addendums, optimizer, individual learning rates, classical or Nesterov      *)
(* momentum, learning-rate dropout and max-norm, in this order. Fixed point,   *)
(* 1024 = 1.0 (second moments: 65536 = 1.0, powers of decays: 16384 = 1.0).    *)
(* The last column of the weight matrix belongs to the biases.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
S == 1024
Abs(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Max2(a,b) == IF a > b THEN a ELSE b
Rd(a,b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
RECURSIVE Sqr(_,_,_)
Sqr(v,lo,hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= v \div m THEN Sqr(v,m,hi) ELSE Sqr(v,lo,m-1)
Isqrt(v) == IF v <= 0 THEN 0 ELSE Sqr(v,0,46340)
Sum(n,f(_)) == LET T[k \in 0..n] == IF k = 0 THEN 0 ELSE T[k-1] + f(k) IN T[n]
(* a*b/c for possibly large a: c <= 2^15, b <= 2^15, |a| < 2^26 *)
MulDiv(a,b,c) == LET x == Abs(a) IN Sgn(a)*((x \div c)*b + ((x % c)*b) \div c)
Fld(c) == c.r*c.c
Z(n) == [q \in 1..n |-> 0]
State0(c,w) == [c |-> c, W |-> w, V |-> Z(Len(w)), A |-> Z(Len(w)), B |-> Z(Len(w)), p1 |-> 16384, p2 |-> 16384,
                gain |-> [q \in 1..Len(w) |-> S], prev |-> Z(Len(w)), first |-> TRUE, amb |-> FALSE]
IsBias(c,q) == q > c.r*(c.c-1)
Mom(c) == c.mo > 0
Nes(c) == c.mo > 0 /\ c.ne = 1
(* --- max-norm of the rows --- *)
RowNorm2(c,w,i) == Sum(c.c - (IF c.mnb = 1 THEN 0 ELSE 1), LAMBDA j : LET x == Rd(w[(j-1)*c.r+i],4) IN x*x)        \* 65536 = 1
Cap(c,w) == IF c.mn = 0 THEN w ELSE [q \in 1..Len(w) |-> LET i == ((q-1) % c.r)+1 n2 == RowNorm2(c,w,i) IN
              IF n2 <= c.mn*65536 THEN w[q] ELSE MulDiv(w[q], Isqrt(c.mn*65536), Isqrt(n2))]
(* --- before forward propagation --- *)
PreV(s) == IF Nes(s.c) THEN [q \in 1..Len(s.W) |-> Rd(s.V[q]*s.c.mo,4)] ELSE s.V
PreW(s,v,drop) == IF ~Nes(s.c) THEN s.W ELSE Cap(s.c, [q \in 1..Len(s.W) |-> IF q \in drop THEN s.W[q] ELSE s.W[q] - v[q]])
(* --- gradient with the loss addendums --- *)
L1On(c,q) == c.l1 > 0 /\ (c.l1b = 1 \/ ~IsBias(c,q))
L2On(c,q) == c.l2 > 0 /\ (c.l2b = 1 \/ ~IsBias(c,q))
Grad(c,w,g) == [q \in 1..Len(w) |-> S*g[q] + (IF L1On(c,q) THEN 256*c.l1*Sgn(w[q]) ELSE 0) + (IF L2On(c,q) THEN Rd(c.l2*w[q],4) ELSE 0)]
Loss(c,w) == Sum(Len(w), LAMBDA q : (IF L1On(c,q) THEN Rd(c.l1*Abs(w[q]),4) ELSE 0) + (IF L2On(c,q) THEN (LET x == Rd(w[q],8) IN Rd(c.l2*x*x,128)) ELSE 0))
(* --- optimizers: d = [u, A, B] --- *)
Eps == 128
Sq16(g) == Rd(g,4)*Rd(g,4)                                    \* g^2, 65536 = 1
Rt(a) == Isqrt(a)*4                                           \* sqrt of a 65536-scaled number, 1024 = 1
Mix(old,b,new) == Rd(b*old + (4-b)*new,4)
Lr(c,x) == Rd(c.lr*x,8)
P1(s) == Rd((IF s.first THEN 16384 ELSE s.p1)*s.c.b1,4)
P2(s) == Rd((IF s.first THEN 16384 ELSE s.p2)*s.c.b2,4)
OptA(s,g) == LET c == s.c o == IF s.first THEN 0 ELSE s.A[1] IN
  [q \in 1..Len(g) |-> LET a == IF s.first THEN 0 ELSE s.A[q] IN CASE
     c.ty \in {1,2} -> IF s.first THEN Sq16(g[q]) ELSE Mix(a,c.b1,Sq16(g[q]))
     [] c.ty = 4 -> IF s.first THEN Abs(g[q]) ELSE Mix(a,c.b1,Abs(g[q]))
     [] c.ty \in {5,6} -> Mix(a,c.b1,g[q])
     [] c.ty \in {7,8} -> LET p == P1(s) mu == Rd((4096*c.b1-p)*4096,16384-p) IN Rd(MulDiv(a,mu,4096) + MulDiv(g[q],4096-mu,4096),1)
     [] OTHER -> 0]
OptB(s,g) == LET c == s.c IN
  [q \in 1..Len(g) |-> LET b == IF s.first THEN 0 ELSE s.B[q] IN CASE
     c.ty = 2 -> IF s.first THEN g[q] ELSE Mix(b,c.b1,g[q])
     [] c.ty = 5 -> Mix(b,c.b2,Sq16(g[q]))
     [] c.ty = 6 -> Max2(Rd(b*c.b2,4),Abs(g[q]))
     [] c.ty \in {7,8} -> LET p == P2(s) et == Rd((4096*c.b2-p)*4096,16384-p) IN MulDiv(b,et,4096) + MulDiv(Sq16(g[q]),4096-et,4096)
     [] OTHER -> 0]
OptU(s,g,A,B) == LET c == s.c IN
  [q \in 1..Len(g) |-> CASE
     c.ty = 0 -> Lr(c,g[q])
     [] c.ty \in {1,2,4} /\ s.first -> Lr(c,g[q])
     [] c.ty = 1 -> MulDiv(Lr(c,g[q]),S,Rt(A[q])+Eps)
     [] c.ty = 2 -> MulDiv(Lr(c,g[q]),S,Max2(1,Rt(A[q] - Sq16(B[q]) + 8192)))
     [] c.ty = 3 -> 128*c.lr*Sgn(g[q])
     [] c.ty = 4 -> MulDiv(Lr(c,g[q]),S,A[q]+Eps)
     [] c.ty = 5 -> MulDiv(MulDiv(Lr(c,A[q]),Isqrt(16384*(16384-P2(s))),16384-P1(s)), S, Rt(B[q])+Eps)
     [] c.ty = 6 -> MulDiv(MulDiv(Lr(c,A[q]),16384,16384-P1(s)), S, B[q]+Eps)
     [] c.ty = 8 -> MulDiv(Lr(c,Rd(3*A[q]+g[q],4)), S, Rt(B[q])+Eps)
     [] c.ty = 7 -> LET p == P1(s) mu == Rd((4096*c.b1-p)*4096,16384-p)
                        k == Rd((16384-p)*c.b1*1024, 4*16384-c.b1*p) IN          \* mu*(1-p)/(1-mu*p)
                    MulDiv(Lr(c,MulDiv(A[q],k,1024) + MulDiv(g[q],4096-mu,4096)), S, Rt(B[q])+Eps)]
(* --- individual learning rates: agreement with the previous step (or the velocity) raises the gain of a weight, disagreement lowers it --- *)
Gain(s,V,u) == IF s.c.il = 0 \/ s.first THEN s.gain
  ELSE [q \in 1..Len(u) |-> LET p == IF s.c.ilm = 1 /\ Mom(s.c) THEN V[q] ELSE s.prev[q]  k == Sgn(p)*Sgn(u[q]) z == s.gain[q] IN
         IF k > 0 /\ z < 1280 THEN Rd(3*z,2) ELSE IF k < 0 /\ z > 768 THEN Rd(z,2) ELSE z]
(* a decision that depends on the sign of a number too close to zero to be sure of in fixed point *)
Stateless(c) == c.ty \in {0,3} /\ c.l1 = 0 /\ c.l2 = 0
Unsure(s,V,W1,g,u) == LET c == s.c IN \E q \in 1..Len(u) :
  \/ L1On(c,q) /\ Abs(W1[q]) <= 3
  \/ c.ty = 3 /\ (c.l1 > 0 \/ c.l2 > 0) /\ Abs(g[q]) <= 6
  \/ c.il = 1 /\ ~s.first /\ (IF Stateless(c) /\ ~(c.ilm = 1 /\ Mom(c)) THEN FALSE
       ELSE Abs(u[q]) <= 6 \/ Abs(IF c.ilm = 1 /\ Mom(c) THEN V[q] ELSE s.prev[q]) <= 6)
  \/ Abs(W1[q]) > 28*S \/ Abs(g[q]) > 40*S
(* everything the step computes except for the dropout choice *)
Step(s,W1,gr) == LET c == s.c V1 == PreV(s) g == Grad(c,W1,gr) A == OptA(s,g) B == OptB(s,g) u0 == OptU(s,g,A,B)
                     gn == Gain(s,V1,u0)
                     u == IF c.il = 1 /\ ~s.first THEN [q \in 1..Len(g) |-> Rd(u0[q]*gn[q],S)] ELSE u0
                     V2 == IF ~Mom(c) THEN V1 ELSE IF c.ne = 1 THEN [q \in 1..Len(g) |-> V1[q] + u[q]] ELSE [q \in 1..Len(g) |-> Rd(V1[q]*c.mo,4) + u[q]]
                     d == IF Mom(c) /\ c.ne = 0 THEN V2 ELSE u IN
  [d |-> d, s |-> [s EXCEPT !.V = V2, !.A = A, !.B = B, !.p1 = P1(s), !.p2 = P2(s), !.gain = gn, !.prev = u, !.first = FALSE,
                                 !.amb = @ \/ Unsure(s,V1,W1,g,u0)]]
PostW(s,W1,d,drop) == Cap(s.c,[q \in 1..Len(W1) |-> IF q \in drop THEN W1[q] ELSE W1[q] - d[q]])
Drops(c,n) == IF c.do < 4 THEN SUBSET (1..n) ELSE {{}}
(* --- laws of the model --- *)
Exact0(s,gr) == LET W1 == PreW(s,PreV(s),{}) r == Step(s,W1,gr) IN [r.s EXCEPT !.W = PostW(s,W1,r.d,{})]
Near(a,b,t) == \A q \in 1..Len(a) : Abs(a[q]-b[q]) <= t
Laws(s,gr) == LET c == s.c t == Exact0(s,gr) s0 == [s EXCEPT !.c.mo = 0] IN
  /\ (Nes(c) /\ c.mn = 0 /\ c.lr > 0) => \A q \in 1..Len(s.W) : t.W[q] = s.W[q] - t.V[q]     \* Nesterov: W(t+1) = W(t) - V(t+1)
  /\ (c.mo = 0 /\ c.ty = 0 /\ c.mn = 0 /\ c.il = 0) => \A q \in 1..Len(s.W) : t.W[q] = s.W[q] - Lr(c,Grad(c,s.W,gr)[q])
  /\ (c.mn > 0 /\ c.lr > 0) => \A i \in 1..c.r : RowNorm2(c,t.W,i) <= c.mn*65536 + 65536 \div 20
  /\ (s.first /\ c.lr > 0 /\ gr = Z(Len(gr)) /\ c.l1 = 0 /\ c.l2 = 0 /\ s.V = Z(Len(gr))) => Near(t.W,Cap(c,s.W),2)      \* no gradient, no movement
  /\ c.ty = 3 => \A q \in 1..Len(s.W) : c.il = 0 /\ c.mo = 0 /\ c.mn = 0 => Abs(t.W[q]-s.W[q]) \in {0,128*c.lr}
  /\ (s.first /\ c.mo = 0 /\ c.mn = 0 /\ c.ty \in 5..7 /\ c.il = 0) => \A q \in 1..Len(s.W) : Abs(t.W[q]-s.W[q]) <= 128*c.lr*2   \* adaptive first steps are bounded by the rate
=============================================================================
