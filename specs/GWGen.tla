------------------------------- MODULE GWGen ---------------------------------
EXTENDS GW, Json
CONSTANTS RS, CS, TYS, WM, GM, RANDOM, MAXLEN
VARIABLES s, hist, n
RE(X) == RandomElement(X)
RndW(k,z) == [q \in 1..k |-> RE({-1,1})*RE(1..WM)]
RndG(k,z) == [q \in 1..k |-> RE((-GM)..GM)]
Pick(z) == LET mo == RE({0,1,2,3}) do == RE({4,4,4,4,1,2,3}) IN
  [lr |-> RE(1..4), ty |-> RE(TYS), b1 |-> RE(1..3), b2 |-> RE(1..3), mo |-> mo, ne |-> RE(0..1), l1 |-> RE({0,0,1,2}), l1b |-> RE(0..1), l2 |-> RE({0,0,1,2}), l2b |-> RE(0..1),
   mn |-> RE({0,0,1,4,9}), mnb |-> RE(0..1), do |-> do, nd |-> RE(0..1), il |-> RE(0..1), ilm |-> RE(0..1), r |-> RE(RS), c |-> RE(CS)]
Reset(c,x) == c @@ [op |-> "reset", x |-> x]
Do(e) == hist' = Append(hist,e)
Start == \E c \in {Pick(n)} : \E x \in {RndW(c.r*c.c,n)} : Do(Reset(c,x)) /\ s' = State0(c,[q \in 1..Len(x) |-> S*x[q]])
Init == n = 0 /\ hist = <<>> /\ s = State0([r |-> 0, c |-> 0],<<>>)
RNext == \E k \in {RE(1..20)} :
   IF s.c.r = 0 \/ k <= 2 THEN Start
   ELSE IF k = 3 THEN Do([op |-> "reinit"]) /\ UNCHANGED s
   ELSE IF k = 4 THEN \E x \in {RE(1..4)} : Do([op |-> "lr", lr |-> x]) /\ UNCHANGED s
   ELSE IF k = 5 /\ s.c.mo > 0 /\ s.c.do = 4 THEN \E x \in {RE(1..3)}, y \in {RE(0..1)} : Do([op |-> "mom", mo |-> x, ne |-> y]) /\ UNCHANGED s
   ELSE \E g \in {RndG(s.c.r*s.c.c,n)} : Do([op |-> "step", g |-> g]) /\ UNCHANGED s
(* exhaustive: all gradient histories of bounded length for every configuration of a family, laws checked in each state *)
Cfgs == [lr : {2}, ty : TYS, b1 : {2}, b2 : {3}, mo : {0,2}, ne : 0..1, l1 : {0,1}, l1b : {0}, l2 : {0,2}, l2b : {1}, mn : {0,4}, mnb : {0}, do : {4}, nd : {1}, il : {0,1}, ilm : {1}, r : RS, c : CS]
XNext == IF s.c.r = 0 THEN \E c \in Cfgs : \E x \in [1..(c.r*c.c) -> {-WM,1}] : s' = State0(c,[q \in 1..Len(x) |-> S*x[q]]) /\ UNCHANGED hist
         ELSE n < 3 /\ \E g \in [1..Len(s.W) -> {-GM,0,1}] : s' = Exact0(s,g) /\ UNCHANGED hist
Next == n' = n + 1 /\ IF RANDOM THEN Len(hist) < MAXLEN /\ RNext ELSE XNext
LawsInv == RANDOM \/ s.c.r = 0 \/ \A g \in [1..Len(s.W) -> {-GM,0,1}] : Laws(s,g)
Emit == (RANDOM /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
