------------------------------ MODULE DropGen --------------------------------
EXTENDS Layers, Json
CONSTANTS TS, WS, NS, RANDOM, MAXLEN, COUNT
VARIABLES inst, hist, i
RE(Q) == RandomElement(Q)
Do(e) == hist' = Append(hist,e)
RSeq(n,Q,z) == [k \in 1..n |-> RE(Q)]
Ps(t,z) == [k \in 1..Len(XKinds(t)) |-> IF k \in Alpha(t) THEN RE({0,2,2,2,3}) ELSE RE({0,1,1,1,2,2,3})]
RNext == \E q \in {RE(1..10)} : LET op == IF hist = <<>> THEN "" ELSE hist[Len(hist)].op IN
  IF hist = <<>> \/ (q = 1 /\ op \notin {"reset","cfg","weights"}) THEN \E t \in {RE(TS)}, a \in {RE(WS)}, b \in {RE(WS)}, c \in {RE(WS)}, y \in {RE(1..2)} : Do([op |-> "reset", t |-> t, a |-> a, b |-> b, c |-> c, y |-> y]) /\ inst' = [t |-> t]
  ELSE IF op = "reset" \/ q = 2 THEN \E ps \in {Ps(inst.t,Len(hist))}, l1 \in {RSeq(Len(XKinds(inst.t)),{0,0,1,2},Len(hist))}, l2 \in {RSeq(Len(XKinds(inst.t)),{0,0,1,1},Len(hist))}, re \in {RE(0..1)} : Do([op |-> "cfg", ps |-> ps, l1 |-> l1, l2 |-> l2, re |-> re]) /\ UNCHANGED inst
  ELSE IF op = "cfg" \/ q = 3 THEN \E sd \in {RE(1..9999)}, par \in {RE(0..1)} : Do([op |-> "weights", par |-> par, seed |-> sd, mag |-> 1]) /\ UNCHANGED inst
  ELSE IF q <= 5 THEN \E n \in {RE(NS)}, sd \in {RE(1..9999)} : Do([op |-> "fprop", n |-> n, seed |-> sd, mag |-> 2]) /\ UNCHANGED inst
  ELSE \E n \in {RE(NS)} : \E n2 \in {RE(NS)}, sd \in {RE(1..9999)}, l2 \in {RE({0,0,1})}, fz \in {RE({0,0,0,RE(0..15)})}, cl \in {RE({0,0,2})}, re \in {RE({0,0,1})}, bs \in {RE(IF n >= 3 THEN {0,0,1,2,3} ELSE {0,0,1})}, ep \in {RE({1,1,1,2,5})} :
       Do([op |-> "step", n |-> n, n2 |-> n2, seed |-> sd, mag |-> 1, lr |-> 40, bs |-> bs, ep |-> ep, l2 |-> l2, frz |-> fz, clamp |-> cl, re |-> re]) /\ UNCHANGED inst
(* --- the way back yields the derivative of (loss + penalties summed over the rows) at fixed masks --- *)
RMat(n,m,V,z) == [j \in 1..n |-> [c \in 1..m |-> RE(V)]]
RECURSIVE Sig(_), Outs(_), XW(_,_,_,_)
Sig(t) == <<[r \in 1..Len(t.A) |-> [c \in 1..Len(t.A[r]) |-> Sign(t.A[r][c])]], [q \in 1..Len(t.ch) |-> Sig(t.ch[q])]>>
Outs(d) == CASE d.k = "fc" -> <<d.n>> [] d.k \in {"id","gate"} -> <<>> [] d.k \in {"t","x"} -> Outs(d.l) [] d.k = "v" -> Cat(Len(d.s), LAMBDA q : Outs(d.s[q])) [] OTHER -> Cat(Len(d.s), LAMBDA q : Outs(d.s[q].l))
(* penalties but for the masked columns, computed from the outputs before dropout *)
XW(d,t,z,y) == CASE d.k \in {"fc","id","gate"} -> 0 [] d.k = "t" -> XW(d.l,t.ch[1],z,y)
   [] d.k = "x" -> XW(d.l,t.ch[1],z,y) + Sum(Len(t.A), LAMBDA r : Sum(Len(t.A[r]), LAMBDA c : IF c <= d.g THEN 0 ELSE 8*d.l1*Abs(t.ch[1].A[r][c]) + d.l2*t.ch[1].A[r][c]*t.ch[1].A[r][c]))
   [] d.k = "v" -> Sum(Len(d.s), LAMBDA q : XW(d.s[q],t.ch[q],z,y))
   [] OTHER -> Sum(Len(d.s), LAMBDA q : IF d.k = "o" /\ q = 1 THEN 0 ELSE XW(d.s[q].l,t.ch[q],z,y))
Inst(z) == LET t == RE(TS) a == RE(WS) b == RE(WS) c == RE(WS) y == RE(1..2) n == RE(NS) IN [t |-> t, a |-> a, b |-> b, c |-> c, y |-> y, n |-> n]
MkW(d,w,z) == LET is == Incs(d,w) os == Outs(d) IN [k \in 1..Len(is) |-> RMat(os[k],is[k]+1,-2..2,z)]
(* big enough masks for every layer; gates all open, so that every row is seen *)
SNext == \E p \in {Inst(i)} : LET kx == Len(XKinds(p.t)) w == InwD(p.t,p.a,p.b,p.c) IN
   \E M \in {[k \in 1..kx |-> RE({<<>>,RMat(2*p.n,12,{0,IF k \in Alpha(p.t) THEN 1 ELSE 2},i)})]}, l1 \in {RSeq(kx,0..2,i)}, l2 \in {RSeq(kx,0..1,i)} :
   LET C == [M |-> M, l1 |-> [k \in 1..kx |-> IF XKinds(p.t)[k] >= 2 THEN l1[k] ELSE 0], l2 |-> [k \in 1..kx |-> IF XKinds(p.t)[k] >= 2 THEN l2[k] ELSE 0]] d == Vp(TopsD(p.t,p.a,p.b,p.c,p.y,C)) IN
   \E W \in {MkW(d,w,i)}, Q \in {RMat(p.n,w,{-4,0,4,8},i)}, Y \in {RMat(p.n,p.y,-1..1,i)} :
     inst' = [d |-> d, w |-> w, W |-> W, X |-> Q, Y |-> Y] /\ i' = i+1
Plus(W,k,j,c,h) == [W EXCEPT ![k][j][c] = @ + h]
RECURSIVE NoNz(_)
NoNz(d) == CASE d.k \in {"fc","id","gate"} -> TRUE [] d.k = "t" -> NoNz(d.l) [] d.k = "x" -> (~d.nz \/ (d.l1 = 0 /\ d.l2 = 0)) /\ NoNz(d.l) [] d.k = "v" -> \A q \in 1..Len(d.s) : NoNz(d.s[q]) [] OTHER -> \A q \in 1..Len(d.s) : NoNz(d.s[q].l)
Deriv == (~RANDOM /\ i > 0) => LET d == inst.d W == inst.W t == Fwd(d,inst.X,W,0) g == Bwd(d,t,DOut(t.A,inst.Y,0),W,0).g Tot(u) == Loss2(u.A,inst.Y) + XW(d,u,0,0) IN
   /\ Len(g) = Len(W) /\ Len(t.A[1]) = Wd(d,inst.w)
   /\ NoNz(d) => \A k \in 1..Len(W) : \A j \in 1..Len(W[k]) : \A c \in 1..Len(W[k][j]) :
        LET p == Fwd(d,inst.X,Plus(W,k,j,c,1),0) m == Fwd(d,inst.X,Plus(W,k,j,c,-1),0) IN
          (Sig(p) = Sig(t) /\ Sig(m) = Sig(t)) => Tot(p) - Tot(m) = g[k].s[j][c]
Init == inst = [t |-> 0] /\ hist = <<>> /\ i = 0
Next == IF RANDOM THEN Len(hist) < MAXLEN /\ RNext /\ UNCHANGED i ELSE i < COUNT /\ SNext /\ UNCHANGED hist
View == <<hist,i>>
Emit == (RANDOM /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
