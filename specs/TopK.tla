-------------------------------- MODULE TopK ---------------------------------
(* The k best values of every column over a growing sequence of batches, where each came from, and their aggregation.
   kind: 0 biggest, 1 smallest, 2 biggest distinct, 3 smallest distinct. Caches are ordered from the worst to the best. *)
EXTENDS KBase
Better(kind,a,b) == IF kind \in {0,2} THEN a > b ELSE a < b
Ext(kind) == IF kind \in {0,2} THEN -99 ELSE 99
Dist(kind) == kind \in {2,3}
(* how many entries of L are at least as good as v / better than v *)
NB(kind,L,v) == IF Dist(kind) THEN Cardinality({L[i] : i \in {i \in 1..Len(L) : Better(kind,L[i],v)}}) ELSE Cardinality({i \in 1..Len(L) : Better(kind,L[i],v)})
NE(kind,L,v) == IF Dist(kind) THEN 1 ELSE Cardinality({i \in 1..Len(L) : L[i] = v})
PthBest(kind,L,p) == LET S == {i \in 1..Len(L) : NB(kind,L,L[i]) < p /\ p <= NB(kind,L,L[i]) + NE(kind,L,L[i])} IN IF S = {} THEN Ext(kind) ELSE L[CHOOSE i \in S : TRUE]
Best(kind,k,L) == [t \in 1..k |-> PthBest(kind,L,k-t+1)]
Col(B,j) == [i \in 1..B.r |-> At(B.x,B.r,i,j)]
Zero == [kind |-> 0, k |-> 1, c |-> 1, bs |-> <<>>, cache |-> <<>>]
Empty(Q) == [j \in 1..Q.c |-> [t \in 1..Q.k |-> Ext(Q.kind)]]
Real(L) == SelectSeq(L,LAMBDA v : Abs(v) # 99)
Merge(Q,B) == [j \in 1..Q.c |-> Best(Q.kind,Q.k,Real(Q.cache[j]) \o Col(B,j))]
Next0(Q,e) == CASE e.op = "reset" -> LET Z == [kind |-> e.kind, k |-> e.k, c |-> e.c, bs |-> <<>>, cache |-> <<>>] IN [Z EXCEPT !.cache = Empty(Z)]
                [] e.op = "restart" -> [Q EXCEPT !.bs = <<>>, !.cache = Empty(Q)]
                [] e.op = "batch" -> LET B == [r |-> e.r, x |-> e.x] IN [Q EXCEPT !.bs = Append(@,B), !.cache = Merge(Q,B)]
(* the first batch of a series must fill the cache *)
Pre(Q,e) == e.op = "batch" => (Q.bs = <<>> => \A j \in 1..Q.c : \A t \in 1..Q.k : Abs(Next0(Q,e).cache[j][t]) # 99)
History(Q,j) == LET H[n \in 0..Len(Q.bs)] == IF n = 0 THEN <<>> ELSE H[n-1] \o Col(Q.bs[n],j) IN H[Len(Q.bs)]
Inv(Q) == \A j \in 1..Q.c : Q.cache[j] = Best(Q.kind,Q.k,History(Q,j))
(* what the library reports after a batch *)
Count(L,v) == Cardinality({i \in 1..Len(L) : L[i] = v})
CacheOk(Q,Q2,e) == \A j \in 1..Q2.c :
   LET V == [t \in 1..Q2.k |-> e.V[(j-1)*Q2.k+t]]  I == [t \in 1..Q2.k |-> e.I[(j-1)*Q2.k+t]]  B == Q2.bs[Len(Q2.bs)]
       Old == [t \in 1..Q2.k |-> IF I[t] < 0 THEN V[t] ELSE 0]  IsOld == {t \in 1..Q2.k : I[t] < 0} IN
   /\ V = Q2.cache[j]
   /\ \A t \in 1..Q2.k : I[t] >= 0 => I[t] < B.r /\ At(B.x,B.r,I[t]+1,j) = V[t]
   /\ \A t,u \in 1..Q2.k : (I[t] >= 0 /\ I[t] = I[u]) => t = u
   /\ \A t \in IsOld : Cardinality({u \in IsOld : V[u] = V[t]}) <= Count(Q.cache[j],V[t])
AggOk(Q,e) == LET N == Len(Q.bs) F == e.F IN
   /\ e.ok = 1 /\ Len(e.bu) = N /\ Len(F) = Q.k*Q.c
   /\ \A j \in 1..Q.c, t \in 1..Q.k : e.E[(j-1)*Q.k+t] = Q.cache[j][Q.k-t+1]           \* exported best first
   /\ \A n \in 1..Len(F) : LET f == F[n] IN f[1] \in 0..(N-1) /\ f[2] \in 0..(Q.c-1) /\ f[3] \in 0..(Q.k-1) /\ f[4] = Q.cache[f[2]+1][Q.k-f[3]]
                            /\ f[5] \in 0..(Q.bs[f[1]+1].r-1) /\ At(Q.bs[f[1]+1].x,Q.bs[f[1]+1].r,f[5]+1,f[2]+1) = f[4]
   /\ \A n,m \in 1..Len(F) : n # m => <<F[n][1],F[n][2],F[n][5]>> # <<F[m][1],F[m][2],F[m][5]>> /\ <<F[n][2],F[n][3]>> # <<F[m][2],F[m][3]>>
   /\ \A b \in 1..N : e.bu[b] = IF \E n \in 1..Len(F) : F[n][1] = b-1 THEN 1 ELSE 0
=============================================================================
