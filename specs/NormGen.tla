------------------------------- MODULE NormGen -------------------------------
EXTENDS Norm, Json, Randomization
CONSTANTS JS, WS, SDS, MUS, TS, CS, RTS, N2S, BSS, BCS, RANDOM, MAXLEN
VARIABLES q, hist, last, acc
(* a column of n = 2j+1 values with mean mu and standard deviation sd: mu + sd*{-1,0,1}, j of each sign *)
Pat(j,mu,sd,rot) == [i \in 1..(2*j+1) |-> LET p == ((i-1+rot) % (2*j+1)) IN 64*(mu + (IF p = 0 THEN 0 ELSE IF p % 2 = 1 THEN sd ELSE -sd))]
R(S) == IF RANDOM THEN RandomSubset(1,S) ELSE S
RE(S) == RandomElement(S)
NormOps(Q) == {[op |-> "norm", T |-> t, C |-> c, ns |-> a, nc |-> b, cw |-> cw, bs |-> bs, bc |-> bc, vb |-> vb] :
             t \in R(TS), c \in R(CS \cup {-x : x \in CS}), a \in R(0..1), b \in R(0..1), cw \in R(0..1), bs \in R(BSS \cup {-1}), bc \in R(BCS \cup {0}), vb \in R(BSS)}
Init == acc = Acc0 /\ q = Zero /\ hist = <<[op |-> "reset"], [op |-> "arst"]>> /\ last = [op |-> "reset"]
Do(e) == acc' = acc /\ q' = Next0(q,e) /\ last' = e /\ hist' = IF MAXLEN > 0 THEN Append(hist,e) ELSE hist
Mat(n,w,cols) == [k \in 1..(n*w) |-> cols[((k-1) % w)+1][((k-1) \div w)+1]]
LoadOps(j,w,sd,mu,rot,rt,n2,sh,vb,wh,sdw,pr) ==
  LET n == 2*j+1  whole == Pat((n*w - 1) \div 2, mu, sd, rot)
      m == IF wh = 1 /\ (n*w) % 2 = 1 THEN whole ELSE Mat(n,w,[c \in 1..w |-> Pat(j, mu + c - 1, IF c = 2 THEN sdw ELSE sd, rot + c)]) IN
  [op |-> "load", rt |-> rt, n1 |-> n, n2 |-> n2, w |-> w, vb |-> vb, x1 |-> m, x2 |-> [k \in 1..(n2*w) |-> 64*(((k*sh) % 7) - 3)]]
LoadR == \E j \in {RE(JS)}, w \in {RE(WS)}, sd \in {RE(SDS)}, mu \in {RE(MUS)}, rot \in {RE(0..6)}, rt \in {RE(RTS)}, n2 \in {RE(N2S)}, sh \in {RE(1..6)}, vb \in {RE(BSS)}, wh \in {RE(0..1)}, sdw \in {RE(SDS)}, pr \in {RE(0..1)} :
           Do(LoadOps(j,w,sd,mu,rot,rt,n2,sh,vb,wh,sdw,pr))
LoadX == \E j \in JS, w \in WS, sd \in SDS, mu \in MUS, rt \in RTS, n2 \in N2S, sdw \in SDS, wh \in 0..1 : Do(LoadOps(j,w,sd,mu,1,rt,n2,3,1,wh,sdw,0))
Acc == \E op \in {RE({"asc","aof","aboth","aall"})}, v \in {RE(-2..3)}, o \in {RE(-3..3)}, b1 \in {RE(0..1)}, b2 \in {RE(0..1)} :
       LET e == IF ~AccSmall(acc) THEN [op |-> "arst"] ELSE [op |-> op, v |-> v, o |-> o, b1 |-> b1, b2 |-> b2] IN
       acc' = AccNext(acc,e) /\ q' = q /\ last' = e /\ hist' = IF MAXLEN > 0 THEN Append(hist,e) ELSE hist
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM
           THEN \E k \in {RE(1..10)} :
                IF k > 8 THEN Acc ELSE IF q.n1 = 0 \/ k = 1 THEN LoadR
                ELSE IF k = 2 /\ q.rt = 1 THEN \E vb \in {RE(BSS)} : Do([op |-> "resetn", vb |-> vb])
                ELSE \E en \in {{e \in NormOps(q) : Pre(q,e)}} : IF en = {} THEN UNCHANGED <<q,hist,last,acc>> ELSE \E e \in {RE(en)} : Do(e)
           ELSE (q.n1 = 0 /\ LoadX) \/ (q.n1 > 0 /\ \E e \in NormOps(q) : Pre(q,e) /\ Assert(Reached(q,e), <<"targets not reached", q, e>>) /\ Do(e)) \/ (q.rt = 1 /\ Do([op |-> "resetn", vb |-> 1]))
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
Raws == q.rt = 0 \/ (Len(q.r1) = q.n1*q.w /\ Len(q.c1) = q.n1*q.w)
View == q
=============================================================================
