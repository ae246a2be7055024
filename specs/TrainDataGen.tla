---------------------------- MODULE TrainDataGen -----------------------------
(* behaviours of TrainData: exhaustively (small constants) or at random       *)
EXTENDS TrainData, Json, Randomization
CONSTANTS OPS, NS, WS, SIZES, BADS, KS, SL, LAY, RANDOM, MAXLEN, LOW     \* LOW: operations drawn rarely
VARIABLES q, hist
R(S) == IF RANDOM THEN RandomSubset(1,S) ELSE S      \* random runs draw each argument
R2(S) == IF RANDOM THEN RandomSubset(Min(4,Cardinality(S)),S) ELSE S
Gs == {g \in 0..40 : g % 4 = 0}
NextG(Q) == LET u == {mm.g : mm \in (Mats(Q.lo) \cup Mats(Q.stor[1]) \cup Mats(Q.stor[2])) \ {Empty}} IN
            CHOOSE g \in Gs : (\A x \in u : g # (x \div 4)*4) /\ (\A h \in Gs : h < g => \E x \in u : h = (x \div 4)*4)
Cand(Q,op) ==
  CASE op = "loose" -> {[op |-> op, n1 |-> a, n2 |-> b, xw |-> c, yw |-> d, bx |-> bx, by |-> by, bad |-> bad, g |-> NextG(Q)] :
                          a \in R(NS), b \in R(NS), c \in R(WS), d \in R(WS), bx \in R(LAY), by \in R(LAY), bad \in IF RANDOM /\ RandomElement(1..2) = 1 THEN {0} ELSE R(BADS)}
    [] op \in {"absorb","extract","reply","clear","transp","transpx","transpy"} -> {[op |-> op, s |-> s] : s \in SL \ {3}}
    [] op \in {"dupe","move","absorb_td","eq"} -> {[op |-> op, s |-> s, t |-> t] : s \in SL \ {3}, t \in SL \ {3}}
    [] op = "isinf" -> UNION {{[op |-> op, s |-> s, a |-> a] : a \in R2(SIZES) \cup {Q.run[s].mf}} : s \in SL}
    [] op = "istr" -> UNION {{[op |-> op, s |-> s, a |-> a, b |-> b] : a \in R(SIZES) \cup {Q.run[s].mf}, b \in R(SIZES) \cup {Q.run[s].mt}} : s \in SL}
    [] op = "init_inf" -> {[op |-> op, s |-> s, a |-> a] : s \in SL, a \in R2(SIZES)}
    [] op = "init_tr" -> {[op |-> op, s |-> s, a |-> a, b |-> b] : s \in SL, a \in R2(SIZES), b \in R2(SIZES)}
    [] op = "deinit" -> {[op |-> op, s |-> s] : s \in SL}
    [] op = "epoch" -> {[op |-> op, s |-> s, a |-> a, c |-> c, e |-> 0] : s \in SL, a \in R2(SIZES \cup {-1}), c \in R2(SIZES \ {0})}
    [] op = "walk" -> {[op |-> op, s |-> s, ds |-> d, a |-> a, c |-> c, ex |-> x] : s \in SL, d \in 0..1, a \in R2(SIZES \cup {-1}), c \in R2(SIZES \ {0}), x \in R(0..2)}
    [] op = "batch" -> {[op |-> op, s |-> s, i |-> Q.run[s].k] : s \in SL}
    [] op = "next" -> {[op |-> op, s |-> s, i |-> Q.run[s].k, ex |-> Q.run[s].ex] : s \in SL}
    [] op = "orders" -> {[op |-> op, s |-> s, e |-> 300, g |-> Q.stor[s].x1.g] : s \in SL \ {3}}
Enabled0(Q,op) == {e \in Cand(Q,op) : Pre(Q,e)}
(* any batch of unused samples of the right size *)
Some(Q,e) == IF e.op # "batch" THEN {} ELSE
  LET r == Q.run[e.s]  av == (0..(Base(Q,e.s).x1.n - 1)) \ r.used  n == r.bs \div Mul(Q,e.s) IN
  CHOOSE S \in SUBSET av : Cardinality(S) = n
Init == \E k \in KS : q = InitState(k) /\ hist = <<[op |-> "reset", k |-> k]>>
Do(e) == q' = Next0(q,e,Some(q,e)) /\ hist' = IF MAXLEN > 0 THEN Append(hist,e) ELSE hist
(* random runs draw an operation by weight and stutter when it is not possible; a pending batch or subset mostly goes on *)
Pending == {s \in SL : q.run[s].mode \in {"epoch","walk"} /\ q.run[s].k < q.run[s].nb}
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM
           THEN \E go \in {Pending # {} /\ RandomElement(1..5) > 1} :
                \E op \in {IF go THEN (IF q.run[RandomElement(Pending)].mode = "epoch" THEN "batch" ELSE "next")
                           ELSE IF OPS \cap LOW # {} /\ RandomElement(1..4) = 1 THEN RandomElement(OPS \cap LOW) ELSE RandomElement(OPS \ LOW)} :
                \E en \in {Enabled0(q,op)} :
                IF en = {} THEN UNCHANGED <<q,hist>> ELSE \E e \in {RandomElement(en)} : Do(e)
           ELSE \E op \in OPS : \E e \in Enabled0(q,op) : Do(e)
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
InvE == InvEpoch(q)
InvW == InvWalk(q)
InvI == InvInit(q)
=============================================================================
