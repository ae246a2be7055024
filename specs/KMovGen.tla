------------------------------ MODULE KMovGen -------------------------------
EXTENDS KMov, Json, Randomization
CONSTANTS RS, CS, VS, KS, RANDOM, MAXLEN
VARIABLES hist, last
W == VS \cup {-v : v \in VS}
Draw(n,S) == [i \in 1..n |-> RE(S)]
Base(op,r,c,b,S) == [op |-> op, r |-> r, c |-> c, b |-> b, x |-> Draw(r*c,S)]
Mk(op,r,c,b,db,bir,k,n,S) ==
  CASE op = "clonecols" -> Base(op,r,c,0,S) @@ [v |-> Draw(c,1..3)]
    [] op = "clonecol" -> Base(op,r,1,0,S) @@ [n |-> n]
    [] op = "roll" -> Base(op,r,c*k,b,S) @@ [k |-> k]
    [] op = "unroll" -> Base(op,r*k,c,b,S) @@ [k |-> k]
    [] op = "exrows" -> Base(op,r,c,b,S) @@ [db |-> db, v |-> Draw(RE(1..r),0..(r-1))]
    [] op = "excols" -> Base(op,r,c,IF bir = 1 THEN b ELSE 0,S) @@ [bir |-> bir, db |-> IF bir = 1 THEN db ELSE 0, v |-> Draw(n,0..(c-1))]
    [] op = "exbatch" -> Base(op,r,c,b,S) @@ [bir |-> bir, db |-> db, v |-> IF bir = 1 THEN Draw(n,0..(c-1)) ELSE Draw(RE(1..r),0..(r-1))]
    [] op = "exmask" -> Base(op,r,c,b,S) @@ [db |-> db, v |-> [Draw(r,0..1) EXCEPT ![RE(1..r)] = 1]]
    [] op = "fillmask" -> LET z == RE(0..n) t == r+z IN Base(op,r,c,b,S) @@ [db |-> db, v |-> LET P == RandomSubset(r,1..t) IN [i \in 1..t |-> IF i \in P THEN 1 ELSE 0]]
    [] op = "exseq" -> LET o == RE(0..(r-1)) IN Base(op,r,c,b,S) @@ [o0 |-> o, n |-> RE(1..(r-o))]
    [] op = "transp" -> LET ig == RE(0..1) IN Base(op,r,c,b,S) @@ [bir |-> bir, db |-> IF ig = 1 THEN db ELSE b, ig |-> ig]
    [] op = "tip" -> Base(op,r,c,b,S) @@ [bir |-> bir]
    [] op = "binip" -> LET d == RE(0..1) IN Base(op,r,c,b,S) @@ [k |-> RE(S), lo |-> IF d = 1 THEN 0 ELSE RE(S), hi |-> IF d = 1 THEN 1 ELSE RE(S)]
    [] op = "bin" -> Base(op,r,c,b,S) @@ [k |-> RE(S)]
    [] op = "binbatch" -> LET o == RE(0..3) IN Base(op,r,c,b,S) @@ [db |-> db, o0 |-> o, n |-> o + r + RE(0..3), k |-> RE(S)]
    [] op = "cntnz" -> Base(op,r,c,b,S)
    [] op = "cntsame" -> LET o == RE(0..(r*c-1)) IN Base(op,r,c,0,{0,1,2}) @@ [o0 |-> o, y |-> Draw(RE(1..(r*c-o)),{0,1,2})]
    [] op = "cntsameb" -> LET o == RE(0..(r-1)) m == RE(1..(r-o)) IN Base(op,r,c,0,{0,1,2}) @@ [o0 |-> o, n |-> m, y |-> Draw(m*c,{0,1,2})]
    [] op = "clamp" -> LET lo == RE(-3..0) IN Base(op,r,c,b,S) @@ [lo |-> lo, hi |-> RE(1..3)]
    [] op = "onecompl" -> Base(op,r,c,b,0..1) @@ [db |-> db]
Init == hist = <<[op |-> "reset"]>> /\ last = [op |-> "none"]
(* laws: rolling and unrolling tiles are inverse to each other, transposition is an involution, a mask-filled selection restores the selected rows, ... *)
Laws(e) == LET r == e.r c == e.c A(op) == [e EXCEPT !.op = op] IN
  /\ \A k \in {2,3} : /\ c % k = 0 => Exact([A("unroll") @@ [k |-> k] EXCEPT !.r = r*k, !.c = c \div k, !.x = Roll(e @@ [k |-> k])]) = Full(e.x,r,c,e.b,0)
                      /\ r % k = 0 => Exact([A("roll") @@ [k |-> k] EXCEPT !.r = r \div k, !.c = c*k, !.x = Unroll(e @@ [k |-> k])]) = Full(e.x,r,c,e.b,0)
  /\ Transp(Transp(e.x,r,c),c,r) = e.x
  /\ \A v \in [1..r -> 0..1] : Cum(v,r) > 0 => LET n == Cum(v,r) s == Exact(A("exmask") @@ [v |-> v, db |-> 0]) IN
       Exact([A("fillmask") @@ [v |-> v, db |-> 0] EXCEPT !.r = n, !.x = s]) = Mtx(r,c,LAMBDA i,j : v[i]*X(e,i,j))
  /\ Exact(A("exrows") @@ [v |-> [i \in 1..r |-> i-1], db |-> e.b]) = Full(e.x,r,c,e.b,0)
  /\ Exact(A("excols") @@ [v |-> [i \in 1..c |-> i-1], db |-> e.b, bir |-> 1]) = Full(e.x,r,c,e.b,1)
  /\ Exact(A("clonecols") @@ [v |-> Ones(c)]) = e.x
  /\ Exact(A("exseq") @@ [o0 |-> 0, n |-> r]) = Full(e.x,r,c,e.b,0)
  /\ Exact(A("cntsameb") @@ [o0 |-> 0, n |-> r, y |-> e.x]) = <<r*c>>
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN \E op \in {RE(OPS)}, r \in {RE(RS)}, c \in {RE(CS)}, b \in {RE(0..1)}, db \in {RE(0..1)}, bir \in {RE(0..1)}, k \in {RE(KS)}, n \in {RE(CS)} :
                          \E e \in {Mk(op,r,c,b,db,bir,k,n,W)} : Pre(e) /\ last' = e /\ hist' = Append(hist,e)
           ELSE last.op = "none" /\ \E r \in RS, c \in CS, b \in 0..1 : \E x \in [1..(r*c) -> VS] : last' = [op |-> "all", r |-> r, c |-> c, b |-> b, x |-> x] /\ UNCHANGED hist
LawsInv == last.op = "all" => Laws(last)
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
