---------------------------- MODULE GradCheckGen ----------------------------
EXTENDS GradCheck, Json
CONSTANTS RANDOM, MAXLEN, NETS
VARIABLES hist, m
RE(S) == RandomElement(S)
W(u,s) == s[RE(1..Len(s))]
Grp(u) == CHOOSE x \in {<<RE(0..1), RE(1..6), W(1,<<1,10,30,50,70,100>>)>>} : TRUE
Many(n) == n \in {6,7}
Ev == \E net \in {RE(NETS)}, a \in {RE(2..4)}, b \in {RE(2..4)}, c \in {RE(1..4)}, y \in {RE(1..2)}, rows \in {RE(3..9)}, s \in {RE(1..30000)} :
  \E bs \in {RE(1..rows)}, obs \in {RE({1,1,2,rows})}, g \in {Grp(1)}, h \in {Grp(2)}, fa \in {RE(3..4)}, fw \in {RE(3..4)}, t \in {RE(1..8)} :
  \E za \in {IF Many(net) THEN 100 ELSE W(1,<<0,0,0,20,50,100>>)}, zw \in {IF Many(net) THEN 100 ELSE W(2,<<0,0,10,30,60,100>>)}, ig \in {W(3,<<0,0,1>>)}, zc \in {IF Many(net) THEN 0 ELSE W(4,<<0,0,1>>)} :
  \E fk \in {W(5,<<0,0,0,1,1,2,2,3,4,5,6>>)}, fl \in {RE(0..5)}, fg \in {RE(0..1)}, fn \in {RE(0..9)}, fi \in {RE(0..9)}, pre \in {W(6,<<0,0,1,rows>>)}, ep \in {RE(1..3)}, ign \in {W(7,<<<<>>,<<>>,<<>>,<<0>>,<<2>>,<<1,3>>>>)} :
  hist' = Append(hist,[op |-> IF t = 1 /\ net # 6 THEN "gct" ELSE "gc", net |-> net, a |-> a, b |-> b, c |-> c, y |-> y, rows |-> rows, s |-> IF net = 6 THEN s ELSE s, bs |-> bs, obs |-> obs, gs |-> g, ss |-> h,
    fa |-> fa, fw |-> fw, za |-> za, zw |-> zw, ig |-> ig, zc |-> zc, fk |-> fk, fl |-> fl, fg |-> fg, fn |-> fn, fi |-> fi, pre |-> pre, ep |-> ep, ign |-> ign])
(* the verdict as a machine: comparisons arrive one by one, the first that must fail ends the check; a model of it for all short sequences *)
M0 == [ck |-> <<>>, st |-> "run"]
Shape == [ly |-> <<[idx |-> 1, nc |-> 2, inc |-> 1, lr |-> 1, out |-> 0]>>, ids |-> <<>>, gs |-> <<0,2,1>>, ss |-> <<0,1,1>>, za |-> 50, zw |-> 50, ig |-> 0]
E(x) == [ly |-> Shape.ly, ids |-> <<>>, gs |-> Shape.gs, ss |-> Shape.ss, za |-> 50, zw |-> 50, ig |-> 0, ck |-> x.ck, ag |-> 0, wsame |-> 1, ret |-> IF x.st = "ok" THEN 1 ELSE 0]
All == <<<<0,0,0>>,<<0,1,0>>,<<1,0,0>>,<<1,1,0>>,<<1,0,1>>,<<1,1,1>>>>
Step == m.st = "run" /\ IF Len(m.ck) = 6 THEN m' = [m EXCEPT !.st = "ok"] ELSE
  \E cls \in {0,2,3}, inj \in 0..6 : LET q == All[Len(m.ck)+1] x == [m EXCEPT !.ck = Append(@,<<1,q[1],q[2],q[3],cls,inj>>)] IN
     m' = IF MustFail(E(x),Len(x.ck)) THEN [x EXCEPT !.st = "failed"] ELSE x
(* the verdict is determined by the comparisons; a falsified derivative is never accepted *)
Laws == /\ m.st # "run" => GcOK(E(m))
        /\ m.st = "ok" => \A i \in 1..6 : (m.ck[i][5] = 3 => m.ck[i][6] = 3) /\ m.ck[i][6] \notin {5,6} /\ (m.ck[i][5] = 2 => m.ck[i][6] \in {0,2})
Init == hist = <<>> /\ m = M0
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN Ev /\ UNCHANGED m ELSE Step /\ UNCHANGED hist
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
