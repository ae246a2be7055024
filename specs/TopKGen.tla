------------------------------ MODULE TopKGen -------------------------------
EXTENDS TopK, Json, Randomization
CONSTANTS RS, CS, VS, KS, NBATCH, RANDOM, MAXLEN
VARIABLES q, hist
Draw(n,S) == [i \in 1..n |-> RE(S)]
W == VS \cup {-v : v \in VS}
Do(e) == q' = Next0(q,e) /\ hist' = IF MAXLEN > 0 THEN Append(hist,e) ELSE hist
Init == \E kind \in 0..3, k \in KS, c \in CS : LET e == [op |-> "reset", kind |-> kind, k |-> k, c |-> c] IN q = Next0(Zero,e) /\ hist = <<e>>
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN \E k \in {RE(1..9)}, r \in {RE(RS)}, b \in {RE(0..1)}, bir \in {RE(0..1)} :
                          IF k = 1 /\ q.bs # <<>> THEN Do([op |-> "restart"])
                          ELSE \E e \in {[op |-> "batch", r |-> r, b |-> b, bir |-> bir, x |-> Draw(r*q.c,W)]} : IF Pre(q,e) THEN Do(e) ELSE UNCHANGED <<q,hist>>
           ELSE Len(q.bs) < NBATCH /\ \E r \in RS : \E x \in [1..(r*q.c) -> VS] : LET e == [op |-> "batch", r |-> r, b |-> 0, bir |-> 0, x |-> x] IN Pre(q,e) /\ Do(e)
InvQ == Inv(q)
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
