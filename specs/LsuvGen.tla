------------------------------- MODULE LsuvGen -------------------------------
EXTENDS Lsuv, Json
CONSTANTS RANDOM, MAXLEN, NETS
VARIABLES hist, m
RE(S) == RandomElement(S)
Rows == {24, 60, 120}
W(u,s) == s[RE(1..Len(s))]
Setts(u,rows) == CHOOSE x \in {<<W(1,<<0,0,0,rows,rows \div 2,rows \div 3,rows+5,7>>), W(2,<<0,0,0,0,0,0,0,1,2>>), RE(0..1), W(3,<<0,0,1>>), W(4,<<0,1,1>>), W(5,<<0,1,1,1>>), W(6,<<20,50,100,100,150,300>>), W(7,<<-50,0,0,0,10,30>>),
  W(8,<<5,10,20>>), W(9,<<5,10,20>>), W(10,<<0,1,2,4,20,20,20,20,20,20>>), W(11,<<1,1,1,2,3>>)>>} : TRUE
Ev == \E net \in {RE(NETS)}, rows \in {RE(Rows)}, x \in {RE(2..7)}, n \in {RE(1..9)}, k \in {RE(1..9)}, s \in {RE(1..1000)}, d \in {RE(-1..2)} :
  \E a \in {Setts(1,rows)}, b \in {Setts(2,rows)}, c \in {Setts(3,rows)} :
  hist' = Append(hist,[op |-> "lsuv", net |-> net, rows |-> rows, x |-> x, n |-> n, m |-> k, s |-> s, dflt |-> d, l0 |-> a, l1 |-> b, l2 |-> c])
(* the abstract algorithm on a linear neuron: output statistics (mean = a*mu + b, scale = a*sg), rationals kept as integers by choosing targets that divide *)
M0 == [mean |-> 0, sd |-> 0, try |-> 0, st |-> "new", tm |-> 0, ts |-> 1, ad |-> <<FALSE,FALSE>>]
Start == m.st = "new" /\ \E mu \in -3..3, sg \in {0,1,2,4}, tm \in -1..1, ts \in {1,2,4}, c \in BOOLEAN, s \in BOOLEAN : m' = [mean |-> mu*8, sd |-> sg*8, try |-> 0, st |-> "run", tm |-> tm*8, ts |-> ts*8, ad |-> <<c,s>>]
Need(x) == (x.ad[1] /\ x.mean # x.tm) \/ (x.ad[2] /\ x.sd # 0 /\ x.sd # x.ts)
Step == m.st = "run" /\ m' = IF ~Need(m) THEN [m EXCEPT !.st = "ok"] ELSE IF m.try = 4 THEN [m EXCEPT !.st = "failed"] ELSE
  LET sc == m.ad[2] /\ m.sd # 0 /\ m.sd # m.ts
      mean1 == IF sc THEN (m.mean*m.ts) \div m.sd ELSE m.mean
      c == m.ad[1] /\ m.mean # m.tm
      (* the shift wanted-mean is scaled as well *)
      mean2 == IF c THEN mean1 + (IF sc THEN ((m.tm - m.mean)*m.ts) \div m.sd ELSE m.tm - m.mean) ELSE mean1
  IN [m EXCEPT !.mean = mean2, !.sd = IF sc THEN m.ts ELSE @, !.try = @+1]
Done == m.st \in {"ok","failed"} /\ m' = M0
Laws == m.st # "failed" /\ m.try <= 3 /\ (m.st = "ok" => ~Need(m))
Init == hist = <<>> /\ m = M0
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN Ev /\ UNCHANGED m ELSE (Start \/ Step \/ Done) /\ UNCHANGED hist
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
