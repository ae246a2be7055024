------------------------------- MODULE RngGen -------------------------------
(* RANDOM: request histories for the real generators.  Otherwise: the design (streams, ranges, positions), explored exhaustively *)
EXTENDS Rng, Json
CONSTANTS KINDS, NS, SEEDS, W, BND, RANDOM, MAXLEN
VARIABLES obj, last, hist, st
RE(S) == RandomElement(S)
NO == 3
H(e) == hist' = Append(hist,e)
O0 == [kind |-> -1, root |-> <<>>, req |-> <<>>]
(* ------------------------------------------------------------ the design *)
S0 == [pos |-> [i \in 0..(W-1) |-> 0], used |-> {}, dup |-> FALSE, req |-> <<>>, out |-> <<>>, seed |-> 0]
Chunk(n,i) == LET q == n \div W r == n % W IN q + (IF i < r THEN 1 ELSE 0)
RECURSIVE Ofs(_,_)
Ofs(n,i) == IF i = 0 THEN 0 ELSE Ofs(n,i-1) + Chunk(n,i-1)
(* the numbers delivered: <<seed,stream,position>> *)
Deliver(s,n) == IF n < BND THEN [j \in 1..n |-> <<s.seed,0,s.pos[0]+j-1>>]
                ELSE [j \in 1..n |-> LET i == CHOOSE i \in 0..(W-1) : Ofs(n,i) < j /\ j <= Ofs(n,i) + Chunk(n,i) IN <<s.seed,i,s.pos[i] + j - 1 - Ofs(n,i)>>]
Step(s,n) == LET d == TLCEval(Deliver(s,n)) new == {d[j] : j \in 1..n} IN
  [s EXCEPT !.pos = [i \in 0..(W-1) |-> IF n < BND THEN (IF i = 0 THEN @[i] + n ELSE @[i]) ELSE @[i] + Chunk(n,i)],
            !.used = @ \cup new, !.dup = @ \/ Cardinality(new) # n \/ new \cap s.used # {}, !.req = Append(@,n), !.out = @ \o d]
RECURSIVE Run(_,_)
Run(s,r) == IF r = <<>> THEN s ELSE Run(Step(s,r[1]),SubSeq(r,2,Len(r)))
Design == \/ \E n \in NS : Len(st.req) < 4 /\ st' = Step(st,n)
          \/ \E s \in SEEDS : st' = [S0 EXCEPT !.seed = s]
Laws == ~st.dup /\ st.out = Run([S0 EXCEPT !.seed = st.seed],st.req).out /\ Cardinality(st.used) = Len(st.out)
(* ------------------------------------------------------------ histories *)
DrawEv(o) == LET ob == obj[o] IN
  \E t \in {RE(1..9)}, n \in {RE(NS)}, api \in {RE(0..14)}, a \in {RE({1,2,4,7,40,4000})}, b \in {RE({-9,-4,0,3,10})}, k \in {RE({1,2,3,5,8,13})}, p \in {RE({1,10,25,50,75,90,99})}, stt \in {RE({1,2,4,20})}, rep \in {RE(0..3)} :
  \E lo \in {IF api \in {0,5,6,7,8,14} THEN -a ELSE IF api = 1 THEN b ELSE 0} : \E hi \in {IF api = 1 THEN b+a ELSE IF api \in {2,9,10,13} THEN 4 ELSE a} :
  \E f \in {CASE t \in 1..4 -> [op |-> "uni", o |-> o, api |-> api, n |-> n, lo |-> lo, hi |-> hi]
        [] t \in {5,6} -> [op |-> "norm", o |-> o, api |-> api % 6, n |-> n, m |-> b, st |-> stt]
        [] t = 7 -> [op |-> "int", o |-> o, api |-> api % 5, n |-> IF api % 5 = 3 /\ n > 3000 THEN 3000 ELSE n, k |-> k]
        [] OTHER -> [op |-> "bern", o |-> o, api |-> api % 4, n |-> n, p |-> p]} :
  LET old == {x \in last : x.root = ob.root /\ Len(x.req) > Len(ob.req) /\ SubSeq(x.req,1,Len(ob.req)) = ob.req} IN
  \E e \in {IF rep > 0 /\ old # {} THEN [(CHOOSE x \in old : TRUE).req[Len(ob.req)+1] EXCEPT !.o = o] ELSE f} :
   \E e0 \in {[e EXCEPT !.o = 0]} :
   /\ H(e)
   /\ obj' = [obj EXCEPT ![o].req = Append(@,e0)]
   /\ last' = {x \in last : ~(x.root = ob.root /\ Len(x.req) <= Len(ob.req) /\ SubSeq(ob.req,1,Len(x.req)) = x.req)} \cup {[root |-> ob.root, req |-> Append(ob.req,e0)]}
NewEv(o) == \E k \in {RE(KINDS)}, s \in {RE(SEEDS)}, how \in {RE(0..1)} : \E e \in {[op |-> "new", o |-> o, kind |-> k, s |-> s, how |-> IF k = 0 THEN 0 ELSE how]} :
  H(e) /\ obj' = [obj EXCEPT ![o] = [kind |-> k, root |-> Root(k,e,<<>>), req |-> <<>>]] /\ UNCHANGED last
SeedEv(o) == \E t \in {RE(1..4)}, s \in {RE(SEEDS)}, hi \in {RE({0,0,1,77})} :
  \E e \in {CASE t = 1 -> [op |-> "seed64", o |-> o, s |-> s, hi |-> hi] [] OTHER -> [op |-> "seed", o |-> o, s |-> s]} :
  H(e) /\ obj' = [obj EXCEPT ![o].root = Root(obj[o].kind,e,@), ![o].req = <<>>] /\ UNCHANGED last
Reseed(o) == H([op |-> "reseed", o |-> o]) /\ obj' = [obj EXCEPT ![o].root = <<obj[o].kind,"seed",obj[o].root[3],0>>, ![o].req = <<>>] /\ UNCHANGED last
Hist == \E o \in {RE(0..(NO-1))}, k \in {RE(1..12)} :
  IF hist = <<>> THEN H([op |-> "reset"]) /\ UNCHANGED <<obj,last>>
  ELSE IF obj[o].kind < 0 \/ k = 1 THEN NewEv(o)
  ELSE IF k \in {2,3} THEN SeedEv(o)
  ELSE IF k = 4 /\ obj[o].kind > 0 /\ obj[o].root[2] # "seed64" THEN Reseed(o)
  ELSE DrawEv(o)
Init == obj = [o \in 0..(NO-1) |-> O0] /\ last = {} /\ hist = <<>> /\ st = S0
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN Hist /\ UNCHANGED st ELSE Design /\ UNCHANGED <<obj,last,hist>>
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
