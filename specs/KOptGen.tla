------------------------------ MODULE KOptGen --------------------------------
EXTENDS KOpt, Json, Randomization
CONSTANTS RS, CS, VS, RANDOM, MAXLEN
VARIABLES hist, last
W == VS \cup {-v : v \in VS}
Draw(n,T) == [i \in 1..n |-> RE(T)]
Mk(op,r,c) ==
  \E x \in {Draw(r*c,W)}, d \in {RE(1..3)}, p2 \in {RE({7,12,15})}, l \in {RE(1..7)} :
  \E d2 \in {IF p2 = 15 THEN 4 ELSE IF p2 = 12 THEN 3 ELSE RE(2..3)}, p1 \in {RE(1..Min2(7,2*d))}, sq \in {[q \in 1..(r*c) |-> RE(1..6)]}, gg \in {Draw(r*c,-3..3)} :
  LET n == r*c d3 == IF d2 = 4 THEN 3 ELSE d2  pp == IF p2 = 15 THEN 12 ELSE p2
      b == [op |-> op, r |-> r, c |-> c, x |-> x, l |-> l]
      \* a root at which the state stays non-negative
      Rt(q,k,m) == LET need == CHOOSE s \in 0..60 : 4*s*s >= m*Sq(x[q]) /\ (s = 0 \/ 4*(s-1)*(s-1) < m*Sq(x[q])) IN need + (sq[q] % k)
      h == 16-pp  ee == 4*d3-pp
      RtN(q) == LET need == CHOOSE s \in 0..60 : h*s*s >= (h-ee)*Sq(x[q]) /\ (s = 0 \/ h*(s-1)*(s-1) < (h-ee)*Sq(x[q])) IN IF ee = 0 THEN Abs(x[q]) ELSE need + (sq[q] % 3)
      ev == CASE op = "hinton" -> b @@ [d |-> d, y |-> Vec(n,LAMBDA q : 4*Sq(Rt(q,3,4-d)) - (4-d)*Sq(x[q]))]
        [] op = "graves" -> b @@ [d |-> d, y |-> Vec(n,LAMBDA q : 4*Sq(1+Rt(q,3,4-d)) + 4*Sq(gg[q]) - 1 - (4-d)*Sq(x[q])), z |-> Vec(n,LAMBDA q : 4*gg[q] - (4-d)*x[q])]
        [] op = "rprop" -> b
        [] op = "modprop" -> b @@ [d |-> d, y |-> Vec(n,LAMBDA q : sq[q]*2 - 2)]
        [] op = "adam" -> b @@ [d |-> d, d2 |-> d3, p1 |-> p1, p2 |-> pp, y |-> Vec(n,LAMBDA q : gg[q]*3), z |-> Vec(n,LAMBDA q : 4*Sq(Rt(q,3,4-d3)) - (4-d3)*Sq(x[q]))]
        [] op = "adamax" -> b @@ [d |-> d, d2 |-> d3, p1 |-> p1, y |-> Vec(n,LAMBDA q : gg[q]*3), z |-> Vec(n,LAMBDA q : sq[q]*3-2)]
        [] op = "rnadam" -> b @@ [d |-> d, d2 |-> d3, p1 |-> p1, p2 |-> pp, ga |-> sq[1] % 4, y |-> gg, z |-> Vec(n,LAMBDA q : IF ee = 0 THEN 0 ELSE h*Sq(RtN(q)) - (h-ee)*Sq(x[q]))]
        [] OTHER -> b @@ [y |-> [q \in 1..n |-> gg[q]], z |-> [q \in 1..n |-> 2*sq[q]], de |-> d, in |-> 4+l, lo |-> 2*p1, hi |-> 2*p1+2] IN
  Pre(ev) /\ last' = ev /\ hist' = Append(hist,ev)
Init == hist = <<[op |-> "reset"]>> /\ last = [op |-> "none"]
(* laws: every transformation moves along the sign of the (averaged) gradient; a settled average makes the magnitude of the step independent of the
   gradient's scale for the root forms; with zero history corrected Adam, AdaMax and Nadam agree on the direction; gains stay between the caps' reach *)
Ev(op,w,extra) == [op |-> op, r |-> 1, c |-> 1, x |-> <<w>>, l |-> 4] @@ extra
Laws(e) == \A q \in DOMAIN e.x : LET w == e.x[q] IN
  /\ Sgn(Step(Ev("rprop",w,<<>>),1)) = Sgn(w)
  /\ \A d \in 1..3 : \* settled history: F = w^2 exactly
       /\ Sgn(Step(Ev("hinton",w,[d |-> d, y |-> <<d*w*w>>]),1)) = Sgn(w)
       /\ St1(Ev("hinton",w,[d |-> d, y |-> <<d*w*w>>]),1) = S*w*w
       /\ St1(Ev("modprop",w,[d |-> d, y |-> <<d*Abs(w)>>]),1) = S*Abs(w)
       /\ w # 0 => Abs(Step(Ev("hinton",w,[d |-> d, y |-> <<d*w*w>>]),1)) <= (S*4) \div 8
       \* bias-corrected first step of Nadam from zero history: first moment = gradient
       /\ St1(Ev("rnadam",w,[d |-> d, d2 |-> 3, p1 |-> 2*d, p2 |-> 12, ga |-> 0, y |-> <<5>>, z |-> <<0>>]),1) = S*w
       /\ \A u \in 0..9 : St2(Ev("adamax",w,[d |-> d, d2 |-> 3, p1 |-> 1, y |-> <<0>>, z |-> <<u>>]),1) >= S*Abs(w)
  /\ \A y \in -2..2, z \in {4,8,12} : LET v == Ev("ilr",w,[y |-> <<y>>, z |-> <<z>>, de |-> 2, in |-> 6, lo |-> 6, hi |-> 10]) IN
       /\ (w*y > 0 => Gain(v,1) >= 4*z) /\ (w*y < 0 => Gain(v,1) <= 4*z) /\ (w*y = 0 => Gain(v,1) = 4*z)
       /\ Gain(v,1) > 4*z => z < 10
       /\ Gain(v,1) < 4*z => z > 6
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN \E op \in {RE(OPS)}, r \in {RE(RS)}, c \in {RE(CS)} : Mk(op,r,c)
           ELSE last.op = "none" /\ \E r \in RS, c \in CS : \E x \in [1..(r*c) -> W] : last' = [op |-> "all", r |-> r, c |-> c, x |-> x] /\ UNCHANGED hist
LawsInv == last.op = "all" => Laws(last)
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
