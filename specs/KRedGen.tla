------------------------------ MODULE KRedGen -------------------------------
EXTENDS KRed, Json, Randomization
CONSTANTS RS, CS, VS, RANDOM, MAXLEN
VARIABLES hist, last
W == VS \cup {-v : v \in VS}
Draw(n,S) == [i \in 1..n |-> RE(S)]
Base(op,r,c,x) == [op |-> op, r |-> r, c |-> c, x |-> x]
Mk(op,r0,c0) ==
  LET r == IF op \in {"sumtri"} THEN Max2(2,c0) ELSE IF op = "cdemeannz" THEN Min2(r0,7) ELSE r0
      c == IF op \in {"sumtri"} THEN r ELSE IF op \in {"capnorm","setnorm"} THEN Max2(2,c0) ELSE c0
      x == Draw(r*c, IF op = "ror" THEN 0..1 ELSE IF op \in {"setnorm"} THEN W \ {0} ELSE W)  b == Base(op,r,c,x) IN
  CASE op \in {"sumprod"} -> b @@ [y |-> Draw(r*c,W)]
    [] op = "cmuldiag" -> b @@ [y |-> Draw(c*c,W)]
    [] op = "sumtri" -> b @@ [lo |-> RE(0..1)]
    [] op = "rdiv" -> b @@ [v |-> Draw(r,{1,2,4,-1,-2})]
    [] op = "csum" -> b @@ [b |-> RE(0..1), bir |-> RE(0..1)]
    [] op = "rmul" -> b @@ [v |-> Draw(r,W)]
    [] op = "csub" -> b @@ [v |-> Draw(c,W)]
    [] op = "cdemeannz" -> b @@ [k |-> RE({0,0,1,2,-1})]
    [] op \in {"capnorm","setnorm"} -> b @@ [k |-> RE(1..20), ib |-> RE(0..1)]
    [] OTHER -> b
Init == hist = <<[op |-> "reset"]>> /\ last = [op |-> "none"]
(* the laws the kernel definitions obey; exhausted by TLC over all small matrices *)
Laws(e) == LET r == e.r c == e.c A(op) == [e EXCEPT !.op = op] @@ [v |-> [i \in 1..(r+c) |-> 1], k |-> 0, ib |-> 1, y |-> e.x] IN
  /\ Sum(r,LAMBDA i : Exact(A("rsum"))[i]) = Sum(c,LAMBDA j : Exact(A("cmean"))[j])
  /\ Sum(r,LAMBDA i : Exact(A("l2"))[i]) = Exact(A("sumsq"))[1]
  /\ Exact(A("sumprod")) = Exact(A("sumsq"))
  /\ Exact(A("sumabs"))[1]*Exact(A("sumabs"))[1] >= Exact(A("sumsq"))[1]
  /\ r = c => LET d == Sum(r,LAMBDA i : X(e,i,i)*X(e,i,i)) IN Exact(A("sumsq"))[1] = d + Exact(A("sumtri") @@ [lo |-> 1])[1] + Exact(A("sumtri") @@ [lo |-> 0])[1]
  /\ \A j \in 1..c : Sum(r,LAMBDA i : At(Exact(A("cdemean")),r,i,j)) = 0
  /\ \A j \in 1..c : Sum(r,LAMBDA i : At(Exact(A("cdemeannz")),r,i,j)) = 0
  /\ Exact(A("rmul")) = e.x /\ Exact(A("rdiv")) = [k \in 1..(r*c) |-> 4*e.x[k]]
  /\ \A o \in [1..r -> 0..(c-1)] : Ok(A("idxmax"),o) <=> \A i \in 1..r : X(e,i,o[i]+1) = Exact(A("rmax"))[i]
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN \E op \in {RE(OPS)}, r \in {RE(RS)}, c \in {RE(CS)} : \E e \in {Mk(op,r,c)} : Pre(e) /\ last' = e /\ hist' = Append(hist,e)
           ELSE last.op = "none" /\ \E r \in RS, c \in CS : \E x \in [1..(r*c) -> W] : last' = Base("all",r,c,x) /\ UNCHANGED hist
LawsInv == last.op = "all" => Laws(last)
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
