------------------------------ MODULE WInitGen ------------------------------
EXTENDS WInit, Json
CONSTANTS RS, PS, RANDOM, MAXLEN
VARIABLES hist, job
RE(S) == RandomElement(S)
Fit(k,p) == IF p < Scheme(k).z THEN Scheme(k).z ELSE p
Ev == \E k \in {RE(0..(NSchemes-1))}, r \in {RE(RS)}, p0 \in {RE(PS)}, fail \in {RE({0,0,1,2,4,5,6})}, s \in {RE(1..50)} :
  \E p \in {IF Scheme(k).f = "ortho" /\ r*p0 > 2500 THEN (IF r > 50 THEN 7 ELSE p0) ELSE Fit(k,p0)} :
  hist' = Append(hist,[op |-> "w", k |-> k, r |-> r, p |-> p, fail |-> IF Scheme(k).f = "ortho" THEN fail ELSE 0, s |-> s, num |-> Num(k,r,p), den |-> Den(k,r,p)])
(* exhaustive: the retry loop and the laws between schemes *)
J0 == [k |-> 11, att |-> 0, res |-> -1, fails |-> 0]
Attempt == job.res = -1 /\ \E ok \in BOOLEAN :
   job' = IF ok THEN [job EXCEPT !.att = @+1, !.res = 1] ELSE IF job.att + 1 = Scheme(job.k).t THEN [job EXCEPT !.att = @+1, !.fails = @+1, !.res = 0] ELSE [job EXCEPT !.att = @+1, !.fails = @+1]
Restart == job.res # -1 /\ \E k \in 11..13 : job' = [J0 EXCEPT !.k = k]
Laws == /\ job.res # -1 => job.res = Ret(job.k,job.fails) /\ job.att = Tries(job.k,job.fails)
        /\ \A r \in RS, p \in PS : Num(3,r,p)*Den(5,r,p) = Num(5,r,p)*Den(3,r,p) /\ Num(1,r,p) = 16*Num(0,r,p) /\ Den(1,r,p) = Den(0,r,p) /\ Den(0,p+1,r-1) = Den(0,r,p)
Init == hist = <<>> /\ job = J0
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN Ev /\ UNCHANGED job ELSE (Attempt \/ Restart) /\ UNCHANGED hist
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
