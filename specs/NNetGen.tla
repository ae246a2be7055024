------------------------------- MODULE NNetGen -------------------------------
EXTENDS NNet, Json
CONSTANTS NS, WS, BSS, EPS, RANDOM, MAXLEN
VARIABLES s, n, m, c, hist, go
RE(X) == RandomElement(X)
Do(e) == hist' = Append(hist,e)
Opts(z) == LET ep == RE(EPS) bs == RE(BSS) mf == IF bs = 0 THEN 0 ELSE RE({0,0,bs,bs,bs+1,bs+3,2*bs}) fail == RE(1..12) IN
  [op |-> "train", ep |-> ep, bs |-> bs, mf |-> mf, div |-> RE({0,0,1,2,5}), lim |-> RE({0,0,0,1}), msk |-> RE(0..(2^ep-1)), imm |-> RE({0,0,1}), rot |-> RE({0,0,1}), rtd |-> RE(0..1),
   full |-> RE(0..1), of |-> B(fail = 1), stop |-> RE({-1,-1,0,1,2}), inf |-> B(fail = 2), cbf |-> IF bs = 0 THEN 0 ELSE RE({0,0,1,bs})]
RNext == \E q \in {RE(1..12)}, xw \in {RE(WS)}, yw \in {RE(WS)} :
   IF hist = <<>> \/ q = 1 THEN \E h \in {RE(1..3)}, l2 \in {RE(0..1)} : Do([op |-> "reset", xw |-> xw, hid |-> h, yw |-> yw, l2 |-> l2]) /\ s' = [s EXCEPT !.xw = xw, !.yw = yw, !.n1 = -1]
   ELSE IF s.n1 < 0 \/ q <= 3 THEN \E a \in {RE(NS)}, b \in {RE(NS)}, z \in {RE(1..14)} :
       \E x \in {IF z = 1 THEN xw ELSE s.xw}, y \in {IF z = 2 THEN yw ELSE s.yw}, a2 \in {IF z = 3 /\ s.n1 >= 0 THEN 0 ELSE a} : Do([op |-> "data", n1 |-> a2, n2 |-> b, xw |-> x, yw |-> y]) /\ s' = [s EXCEPT !.n1 = a2]
   ELSE IF q = 4 THEN \E a \in {RE(NS)} : Do([op |-> "fprop", n |-> a]) /\ UNCHANGED s
   ELSE IF q = 5 THEN Do([op |-> "req"]) /\ UNCHANGED s
   ELSE IF q = 6 THEN Do([op |-> "deinit"]) /\ UNCHANGED s
   ELSE \E o \in {Opts(q)} : Do(o) /\ UNCHANGED s
(* exhaustive: every run of the life cycle for every combination of options *)
Start == go = 0 /\ \E a \in NS, b \in {2}, ep \in EPS, bs \in BSS, mf \in {0,2}, dv \in {0,1}, lim \in 0..1, imm \in {0}, rot \in 0..1, of \in 0..1, inf \in 0..1, st \in {-1,0}, cbf \in {0,1} :
   \E msk \in 0..(2^ep-1) :
     /\ (mf > 0 => bs > 0 /\ mf >= bs)
     /\ s' = [hid |-> 1, xw |-> 1, yw |-> 1, n1 |-> a, n2 |-> b, dx |-> 1, dy |-> 1, t |-> Td0]
     /\ c' = [ep |-> ep, bs |-> bs, mf |-> mf, div |-> dv, lim |-> lim, msk |-> msk, imm |-> imm, rtd |-> 1, rot |-> rot, of |-> of, inf |-> inf, stop |-> st, cbf |-> cbf]
     /\ m' = M0 /\ go' = 1 /\ UNCHANGED <<n,hist>>
XStep == go = 1 /\ m.pc # "done" /\ \E x \in (IF m.pc = "bf" THEN [1..BS(s,c) -> 1..s.n1] ELSE {<<>>}) : Draw(s,c,m,x) /\ m' = Adv(s,c,m,x) /\ UNCHANGED <<s,n,c,hist,go>>
Init == s = [hid |-> 0, xw |-> 0, yw |-> 0, n1 |-> 0, n2 |-> 0, dx |-> 0, dy |-> 0, t |-> Td0] /\ n = Init0 /\ m = M0 /\ c = [ep |-> 0] /\ hist = <<>> /\ go = 0
Next == IF RANDOM THEN Len(hist) < MAXLEN /\ RNext /\ UNCHANGED <<n,m,c,go>> ELSE (Start \/ XStep)
SafeInv == go = 0 \/ Safe(s,c,m)
NoStuck == RANDOM \/ go = 0 \/ m.pc = "done" \/ ENABLED XStep
Fair == Init /\ [][Next]_<<s,n,m,c,hist,go>> /\ WF_<<s,n,m,c,hist,go>>(XStep)
Ends == (go = 1) ~> (m.pc = "done")
Emit == (RANDOM /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
