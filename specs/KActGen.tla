------------------------------ MODULE KActGen --------------------------------
EXTENDS KAct, Json, Randomization
CONSTANTS RS, CS, VS, RANDOM, MAXLEN
VARIABLES hist, last
Draw(n,T) == [i \in 1..n |-> RE(T)]
Mk(op,r,c) ==
  LET k == CASE op \in {"fleaky","dleaky"} -> RE({2,4,100,1000}) [] op \in {"fselu","dselu"} -> RE({4,8,12,12}) [] op \in {"felu","delu","felogu","delogu"} -> RE({2,4,4,8,3})
             [] op \in {"gcust","lcust"} -> RE(0..2) [] OTHER -> RE({4,8,8,16})
      m == CASE op \in {"fselu","dselu"} -> (IF k = 12 THEN 6 ELSE RE({3,4,5})) [] k = 16 -> 2 [] k = 4 -> 4 [] OTHER -> RE({4,4,8})
      T == CASE op \in {"fsigm","felu","fselu","fselu0","felogu","floglogu","flogu"} -> (-6)..6 [] op \in {"dsigm","gsigmq"} -> 0..8 [] op = "drelu" -> 0..16
             [] op \in {"delu","delogu","dselu"} -> (-2*k)..5 [] op = "dselu0" -> (-14)..8 [] op = "dloglogu" -> (-5)..5 [] op = "dlogu" -> 0..5 [] op = "dsoftsign" -> (-2*m)..(2*m)
             [] op \in {"dsoftsigm","gssq"} -> 0..16 [] op = "gssx" -> 1..15 [] op = "gidxe" -> 1..7 [] op \in {"softmax","smparts"} -> RE({1..3,1..20})
             [] op \in {"lxe","lsm"} -> RE({0..8,0..8,(0..8) \cup {99}}) [] op \in {"gcust","lcust","gsub","lquad"} -> 0..8 [] OTHER -> (-20)..20
      yd == CASE op \in {"gssq","gssx"} -> 16 [] op = "lxe" -> 1 [] op = "lsm" -> 4 [] OTHER -> 8
      b == [op |-> op, r |-> r, c |-> c, ik |-> Kind(op), k |-> k, m |-> m, x |-> Draw(r*c,T)] IN
  CASE op \in Fops -> b @@ [b |-> RE(0..1), bn |-> RE({0,2,4}), bp |-> RE({0,2,4})]
    [] op \in Dops -> b @@ [bn |-> RE({0,2,4}), bp |-> RE({0,2,4})]
    [] op = "softmax" -> b @@ [b |-> RE(0..1), w |-> Draw(r,{0,0,90,-90,800,-800})]
    [] op = "smparts" -> b @@ [w |-> Draw(r,{0,0,90,-90,800,-800})]
    [] OTHER -> b @@ [y |-> Draw(r*c,0..yd), yd |-> yd]
Init == hist = <<[op |-> "reset"]>> /\ last = [op |-> "none"]
(* laws tying the definitions together: each derivative, taken at the activation value, is the slope of its function (mean value bound between
   neighbouring codes), functions are monotone and, where claimed, odd; softmax rows sum to one; gradients of the quadratic losses are the slopes
   of the losses; the cross-entropy gradients cancel the derivative *)
F1(op,k,m,bn,bp,x) == Fn([op |-> op, k |-> k, m |-> m, bn |-> bn, bp |-> bp],x)
Between(v,a,b,t) == v >= Min2(a,b) - t /\ v <= Max2(a,b) + t
Dv(op,k,m,v) == CASE op = "sigm" -> (v*(S-v)) \div S [] op = "elu" -> IF v < 0 THEN v + (S*k) \div 4 ELSE S [] op = "selu" -> IF v < 0 THEN v + (S*k) \div 4 ELSE (S*m) \div 4
Slope(op,k,m,x) == LET f == IF op = "sigm" THEN "fsigm" ELSE IF op = "elu" THEN "felu" ELSE "fselu"
  a == F1(f,k,m,2,2,x) b == F1(f,k,m,2,2,x+1) IN Between(((b-a)*ILN2) \div S,Dv(op,k,m,a),Dv(op,k,m,b),8)
Laws(e) == LET r == e.r c == e.c A(op) == [e EXCEPT !.op = op] IN
  /\ \A q \in DOMAIN e.x : LET x == e.x[q] IN
     /\ \A k \in {2,4,8}, m \in {4,6} : x < 6 => Slope("sigm",k,m,x) /\ (x # -1 => Slope("elu",k,m,x) /\ Slope("selu",k,m,x))
     /\ Abs(F1("fsigm",1,1,2,2,x) + F1("fsigm",1,1,2,2,-x) - S) <= 1
     /\ \A bn, bp \in {0,2,4} : Abs(F1("floglogu",1,1,bn,bp,x) + F1("floglogu",1,1,bp,bn,-x)) <= 1
     /\ \A k \in {4,8,16}, m \in {2,4,8} : F1("fsoftsign",k,m,2,2,x) = -F1("fsoftsign",k,m,2,2,-x) /\ Abs(F1("fsoftsigm",k,m,2,2,x) + F1("fsoftsigm",k,m,2,2,-x) - S) <= 1
     /\ \A f \in Fops, k \in {4,12}, bp \in {0,2,4} : x < 6 => F1(f,k,4,2,bp,x) <= F1(f,k,4,2,bp,x+1)
     \* slopes in steps of 1/8 for the codes x/8
     /\ \A k \in {4,8,16}, m \in {2,4,8} : LET a == F1("fsoftsign",k,m,2,2,x) d(t) == (S*m*k*8) \div (4*Sq(k+Abs(t))) IN
          x # 0 => Between(8*(F1("fsoftsign",k,m,2,2,x+1)-a),d(x),d(x+1),16)
          /\ ((2*m*x) % (k+Abs(x)) = 0 => Near(F1("dsoftsign",k,m,2,2,(2*m*x) \div (k+Abs(x))),d(x)))
  /\ (\A q \in DOMAIN e.x : e.x[q] > 0) => \A i \in 1..r : Abs(Sum(c,LAMBDA j : At(Exact([op |-> "softmax", r |-> r, c |-> c, x |-> e.x, b |-> 0]),r,i,j)) - S) <= c
  \* quadratic losses: central difference of the loss is the gradient
  /\ \A q \in DOMAIN e.x, y \in 0..8, k \in 0..2 : LET x == e.x[q] LL(t) == Exact([op |-> "lcust", k |-> k, x |-> <<t>>, y |-> <<y>>])[1]
                                                       QQ(t) == Exact([op |-> "lquad", x |-> <<t>>, y |-> <<y>>])[1] IN
       /\ 4*(QQ(x+1)-QQ(x-1)) = G([op |-> "gsub"],x,y)
       /\ (Bind(x-1,y) = Bind(x+1,y)) => 4*(LL(x+1)-LL(x-1)) = G([op |-> "gcust", k |-> k],x,y)
  /\ \A x \in 1..7, y \in 0..8 : /\ Near(Rdiv(G([op |-> "gidxe"],x,y)*Fn([op |-> "dsigm"],x),S),G([op |-> "gsub"],x,y))
                                 /\ Near(Rdiv(G([op |-> "gsub"],x,y)*Fn([op |-> "dsigm"],x),S),G([op |-> "gsigmq"],x,y))
                                 /\ Near(Rdiv(G([op |-> "gsub"],x,y)*Fn([op |-> "dsoftsigm", k |-> 8],2*x),S),G([op |-> "gssq", k |-> 8],2*x,2*y))
                                 /\ Near(Rdiv((G([op |-> "gidxe"],x,y) \div 8)*Fn([op |-> "dsoftsigm", k |-> 8],2*x),S \div 8),G([op |-> "gssx", k |-> 8],2*x,2*y))
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN \E op \in {RE(OPS)}, r \in {RE(RS)}, c \in {RE(CS)} : \E e \in {Mk(op,r,c)} : Pre(e) /\ last' = e /\ hist' = Append(hist,e)
           ELSE last.op = "none" /\ \E r \in RS, c \in CS : \E x \in [1..(r*c) -> VS \cup {-v : v \in VS}] : last' = [op |-> "all", r |-> r, c |-> c, x |-> x] /\ UNCHANGED hist
LawsInv == last.op = "all" => Laws(last)
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
