----------------------------- MODULE LayersGen -------------------------------
EXTENDS Layers, Json
CONSTANTS TS, WS, NS, RANDOM, MAXLEN, COUNT
VARIABLES inst, hist, i
RE(X) == RandomElement(X)
Do(e) == hist' = Append(hist,e)
Deep == {5,7,12,13,14}
RNext == \E q \in {RE(1..8)} :
  IF hist = <<>> \/ (q = 1 /\ hist[Len(hist)].op # "weights") THEN \E t \in {RE(TS)}, a \in {RE(WS)}, b \in {RE(WS)}, c \in {RE(WS)}, y \in {RE(1..2)} : Do([op |-> "reset", t |-> t, a |-> a, b |-> b, c |-> c, y |-> y]) /\ inst' = [t |-> t]
  ELSE IF hist[Len(hist)].op = "reset" \/ q = 2 THEN \E sd \in {RE(1..9999)}, par \in {RE(0..1)} : Do([op |-> "weights", par |-> par, seed |-> sd, mag |-> IF inst.t \in {0,3,6,9,10} THEN 2 ELSE 1]) /\ UNCHANGED inst
  ELSE IF q <= 5 THEN \E n \in {RE(NS)}, sd \in {RE(1..9999)} : Do([op |-> "fprop", n |-> n, seed |-> sd, mag |-> 2]) /\ UNCHANGED inst
  ELSE \E n \in {RE(NS)}, n2 \in {RE(NS)}, sd \in {RE(1..9999)}, l2 \in {RE({0,0,1})}, fz \in {RE({0,0,0,RE(0..127)})}, cl \in {RE({0,0,2})}, re \in {RE({0,0,1})}, bs \in {RE({0,0,1})}, ep \in {RE({1,1,2,3})} :
       Do([op |-> "step", n |-> n, n2 |-> n2, seed |-> sd, mag |-> IF inst.t \in Deep THEN 1 ELSE 2, lr |-> 40, bs |-> bs, ep |-> ep, l2 |-> l2, frz |-> fz, clamp |-> cl, re |-> re]) /\ UNCHANGED inst
(* --- the way back really yields the derivative: within one linear piece the loss is a parabola in every weight, so its central difference is exact --- *)
RECURSIVE Sig(_)
Sig(t) == <<[r \in 1..Len(t.A) |-> [c \in 1..Len(t.A[r]) |-> IF t.A[r][c] > 0 THEN 1 ELSE IF t.A[r][c] < 0 THEN -1 ELSE 0]], [q \in 1..Len(t.ch) |-> Sig(t.ch[q])]>>
RMat(n,m,V,z) == [j \in 1..n |-> [c \in 1..m |-> RE(V)]]
RECURSIVE Outs(_)
Outs(d) == CASE d.k = "fc" -> <<d.n>> [] d.k \in {"id","gate"} -> <<>> [] d.k = "t" -> Outs(d.l) [] d.k = "v" -> Cat(Len(d.s), LAMBDA q : Outs(d.s[q])) [] OTHER -> Cat(Len(d.s), LAMBDA q : Outs(d.s[q].l))
Inst(z) == LET t == RE(TS) a == RE(WS) b == RE(WS) c == RE(WS) y == RE(1..2) n == RE(NS) IN [t |-> t, a |-> a, b |-> b, c |-> c, y |-> y, n |-> n]
MkW(d,w,z) == LET is == Incs(d,w) os == Outs(d) IN [k \in 1..Len(is) |-> RMat(os[k],is[k]+1,-2..2,z)]
SNext == \E p \in {Inst(i)} : LET d == Net(p.t,p.a,p.b,p.c,p.y) w == Inw(p.t,p.a,p.b,p.c) IN
   \E W \in {MkW(d,w,i)}, X \in {RMat(p.n,w,{-4,0,4,8},i)}, Y \in {RMat(p.n,p.y,-1..1,i)} :
     inst' = [d |-> d, w |-> w, W |-> W, X |-> X, Y |-> Y] /\ i' = i+1
Plus(W,k,j,c,h) == [W EXCEPT ![k][j][c] = @ + h]
Deriv == (~RANDOM /\ i > 0) => LET d == inst.d W == inst.W t == Fwd(d,inst.X,W,0) g == Bwd(d,t,DOut(t.A,inst.Y,0),W,0).g IN
   /\ Len(g) = Len(W) /\ Len(t.A[1]) = Wd(d,inst.w)
   /\ \A k \in 1..Len(W) : \A j \in 1..Len(W[k]) : \A c \in 1..Len(W[k][j]) :
        LET p == Fwd(d,inst.X,Plus(W,k,j,c,1),0) m == Fwd(d,inst.X,Plus(W,k,j,c,-1),0) IN
          (Sig(p) = Sig(t) /\ Sig(m) = Sig(t)) => Loss2(p.A,inst.Y) - Loss2(m.A,inst.Y) = g[k].s[j][c]
Init == inst = [t |-> 0] /\ hist = <<>> /\ i = 0
Next == IF RANDOM THEN Len(hist) < MAXLEN /\ RNext /\ UNCHANGED i ELSE i < COUNT /\ SNext /\ UNCHANGED hist
View == <<hist,i>>
Emit == (RANDOM /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
