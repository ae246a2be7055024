------------------------------ MODULE KEwGen --------------------------------
EXTENDS KEw, Json, Randomization
CONSTANTS RS, CS, VS, RANDOM, MAXLEN
VARIABLES hist, last
W == VS \cup {-v : v \in VS}
Draw(n,S) == [i \in 1..n |-> RE(S)]
Base(op,r,c,x) == [op |-> op, r |-> r, c |-> c, x |-> x]
K(z) == RE({-3,-2,-1,1,2,3,4})
Mk(op,r0,c0,n) ==
  LET r == IF op \in {"decov","ddecov"} THEN Min2(r0,4) ELSE r0
      c == IF op \in {"cov"} THEN Max2(2,c0) ELSE IF op \in {"decov","ddecov"} THEN Max2(2,Min2(c0,5)) ELSE c0
      x == Draw(r*c, IF op \in {"nzaddsc","nzaddsgn"} THEN (-1)..1 ELSE IF op = "isorth" THEN {0,0,0,0,1,-1} ELSE W)  b == Base(op,r,c,x) IN
  CASE op = "mulcaddc" -> b @@ [b |-> RE(0..1), bir |-> RE(0..1), s |-> K(1), k |-> RE(-3..3)]
    [] op = "mulc" -> b @@ [b |-> RE(0..1), bir |-> RE(0..1), k |-> K(1)]
    [] op = "addc" -> b @@ [b |-> RE(0..1), bir |-> RE(0..1), k |-> RE(-3..3)]
    [] op = "submulc" -> b @@ [b |-> RE(0..1), y |-> Draw(r*c,W), k |-> K(1)]
    [] op \in {"mulnb","addnb"} -> b @@ [b |-> RE(0..1), y |-> Draw(r*c,W)]
    [] op \in {"addsc","nzaddsc","addsgn","nzaddsgn","mulcsub","moment"} -> b @@ [y |-> Draw(r*c,W), k |-> K(1)]
    [] op \in {"sign","square","abs","sub"} -> b @@ [y |-> Draw(r*c,W)]
    [] op = "drop" -> b @@ [b |-> 1, y |-> Draw(r*c,0..8), p |-> RE(1..7)]
    [] op = "adrop" -> b @@ [b |-> 1, y |-> Draw(r*c,0..8), p |-> RE(1..7), s |-> RE(1..3), k |-> RE(-3..3), d |-> RE(-3..3)]
    [] op = "dropmask" -> b @@ [b |-> RE(0..1), y |-> Draw(r*c,0..8), p |-> RE(1..7)]
    [] op = "ab" -> b @@ [n |-> n, y |-> Draw(c*n,W)]
    [] op = "abt" -> b @@ [n |-> n, y |-> Draw(c*n,W), b |-> RE(0..1)]
    [] op = "atb" -> b @@ [n |-> n, y |-> Draw(r*n,W), k |-> RE(1..3)]
    [] op = "fwd" -> b @@ [n |-> n, y |-> Draw(n*(c+1),W), pb |-> RE(0..1), ab |-> RE(0..1), b |-> RE(0..1)]
    [] op = "bwd" -> b @@ [n |-> n, y |-> Draw(c*(n+1),W), pb |-> RE(0..1)]
    [] op = "dw" -> b @@ [n |-> n, y |-> Draw(r*n,W), pb |-> RE(0..1), k |-> RE(1..3)]
    [] op = "cov" -> b @@ [lo |-> RE(0..1)]
    [] op = "decov" -> b @@ [b |-> RE(0..1)]
    [] op = "ddecov" -> b @@ [b |-> RE(0..1), k |-> RE({1,2,-1})]
    [] op = "isorth" -> b @@ [t |-> RE(0..1)]
    [] OTHER -> b
Init == hist = <<[op |-> "reset"]>> /\ last = [op |-> "none"]
(* algebraic laws of the definitions, exhausted by TLC over all small matrices: adjointness of the three passes of a layer, Euler's identity for the
   decorrelation penalty (a form of degree 4), invariance of covariance under shifts *)
Dot(a,b) == Sum(Len(a),LAMBDA q : a[q]*b[q])
Laws(e) == LET r == e.r c == e.c A(op) == [e EXCEPT !.op = op] IN
  \* <x W^T, g> = <W, g^T x>  and, without the bias weights, = <x, g W>
  /\ \A n \in {1,2} : LET w == [q \in 1..(n*(c+1)) |-> ((q*q) % 3) - 1]  g == [q \in 1..(r*n) |-> (q % 3) - 1]
        f == Exact(A("fwd") @@ [n |-> n, y |-> w, pb |-> 0, ab |-> 0, b |-> 0])
        dw == Exact([op |-> "dw", r |-> r, c |-> n, n |-> c, x |-> g, y |-> e.x, pb |-> 0, k |-> 1])
        da == SubSeq(Exact([op |-> "bwd", r |-> r, c |-> n, n |-> c, x |-> g, y |-> w, pb |-> 0]),1,r*c)
        bw == Sum(r,LAMBDA i : Sum(n,LAMBDA j : At(g,r,i,j)*At(w,n,j,c+1))) IN
      Dot(f,g) = Dot(w,dw) /\ Dot(f,g) = Dot(e.x,da) + bw
  /\ c > 1 => Dot(Exact(A("ddecov") @@ [k |-> 1, b |-> 0]),DM(e)) = 4*Exact(A("decov"))[1]
  /\ c > 1 => LET sh == [e EXCEPT !.x = [q \in DOMAIN e.x |-> e.x[q] + 1 + ((q-1) \div r)]] IN Exact([sh EXCEPT !.op = "decov"]) = Exact(A("decov"))
  /\ Exact(A("drop") @@ [y |-> [q \in DOMAIN e.x |-> 0], p |-> 4, b |-> 1]) = [q \in DOMAIN e.x |-> 8*e.x[q]] \o [q \in 1..r |-> 4] \o [q \in DOMAIN e.x |-> 8]
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN \E op \in {RE(OPS)}, r \in {RE(RS)}, c \in {RE(CS)}, n \in {RE(CS)} : \E e \in {Mk(op,r,c,n)} : Pre(e) /\ last' = e /\ hist' = Append(hist,e)
           ELSE last.op = "none" /\ \E r \in RS, c \in CS : \E x \in [1..(r*c) -> W] : last' = Base("all",r,c,x) /\ UNCHANGED hist
LawsInv == last.op = "all" => Laws(last)
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
