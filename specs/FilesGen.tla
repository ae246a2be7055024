------------------------------- MODULE FilesGen -------------------------------
EXTENDS Files, Json
CONSTANTS DS, VS, RANDOM, MAXLEN
VARIABLES f, hist
RE(S) == RandomElement(S)
RECURSIVE RSeq(_,_)
RSeq(k,S) == IF k = 0 THEN <<>> ELSE RSeq(k-1,S) \o <<RE(S)>>
V4 == VS \cup {-7,33,77777,77778,-77778}
Perm4 == {p \in [1..4 -> 0..3] : \A i,j \in 1..4 : i # j => p[i] # p[j]}
SetAt(s,i,x) == IF i = 0 \/ i > Len(s) THEN s ELSE [s EXCEPT ![i] = x]
(* dimensions of the four members of a fitting data set *)
TdDim(n,a,b,c,d) == CASE n = 0 -> <<a,c>> [] n = 1 -> <<a,d>> [] n = 2 -> <<b,c>> [] OTHER -> <<b,d>>
(* a sequence with every class k repeated c[k] times, then shuffled by swaps *)
RECURSIVE Rep(_,_), ClsSeq(_,_), Shuf(_,_)
Rep(x,k) == IF k = 0 THEN <<>> ELSE Rep(x,k-1) \o <<x>>
ClsSeq(c,k) == IF k = 0 THEN <<>> ELSE ClsSeq(c,k-1) \o Rep(10+k,c[k])
Shuf(s,k) == IF k = 0 \/ Len(s) < 2 THEN s ELSE LET i == TLCEval(RE(1..Len(s))) j == TLCEval(RE(1..Len(s))) t == TLCEval(Shuf(s,k-1)) IN [t EXCEPT ![i] = t[j], ![j] = t[i]]
(* bend one thing of a file (fault 0: nothing); x, y random numbers *)
Bend(e,k,i,x) == CASE k = 1 -> [e EXCEPT !.sig = 1] [] k = 2 -> [e EXCEPT !.ver = 1+x] [] k = 3 -> [e EXCEPT !.nf = IF x = 0 THEN @+1 ELSE IF @ > 0 THEN @-1 ELSE @]
  [] k = 4 -> [e EXCEPT !.nc = IF e.kind = 3 THEN @ ELSE 1+x] [] k = 5 -> IF e.kind # 3 \/ Len(e.cls) = 0 THEN e ELSE LET q == 1+(i % Len(e.cls)) IN [e EXCEPT !.cls = SetAt(@,q,0), !.nf = IF x = 1 THEN @ - e.cls[q] ELSE @]
  [] k = 6 -> [e EXCEPT !.nm = SetAt(@,i,IF x = 0 THEN RE(4..9) ELSE RE(10..15))] [] k = 7 -> [e EXCEPT !.nm = SetAt(@,i,@[1+((i+x) % Len(@))])]
  [] k = 8 -> [e EXCEPT !.ty = SetAt(@,i,RE({2,7,255}))] [] k = 9 -> [e EXCEPT !.ro = SetAt(@,i,IF x = 0 THEN 0 ELSE -1)] [] k = 10 -> [e EXCEPT !.co = SetAt(@,i,IF x = 0 THEN 0 ELSE -1)]
  [] k = 11 -> [e EXCEPT !.cut = RE(0..Total(e))] [] k = 12 -> [e EXCEPT !.cut = LET q == TLCEval(RE(0..Len(e.nm))) IN End(e,q) - x*RE(0..1)] [] k = 13 -> [e EXCEPT !.miss = 1]
  [] k = 14 -> [e EXCEPT !.fa = i] [] k = 15 -> [e EXCEPT !.fm = i] [] k = 16 /\ e.kind = 3 -> [e EXCEPT !.cls = <<>>, !.nc = 0, !.nf = x]
  [] k = 16 -> [e EXCEPT !.ro = SetAt(@,i,RE(DS))] [] k = 17 -> [e EXCEPT !.co = SetAt(@,i,RE(DS))] [] OTHER -> e
Fill(e) == [e EXCEPT !.v = RSeq(NumTo(e,Len(e.nm)),V4)]
B0 == [op |-> "bin", kind |-> 0, bias |-> 0, sig |-> 0, ver |-> 0, nf |-> 1, nc |-> 0, cut |-> -1, miss |-> 0, fa |-> 0, fm |-> 0, cls |-> <<>>, nm |-> <<>>, ro |-> <<>>, co |-> <<>>, ty |-> <<>>, v |-> <<>>]
Good(kind) == LET p == TLCEval(RE(Perm4)) c == TLCEval(RSeq(RE(1..3),1..3)) a == TLCEval(RSeq(4,DS)) IN
  CASE kind \in {0,1} -> [B0 EXCEPT !.kind = kind, !.bias = RE(0..1), !.nm = <<RE(0..9)>>, !.ro = <<a[1]>>, !.co = <<a[2]>>, !.ty = RSeq(1,0..1)]
  [] kind = 2 -> [B0 EXCEPT !.kind = 2, !.nf = 4, !.nm = [i \in 1..4 |-> p[i]], !.ro = [i \in 1..4 |-> TdDim(p[i],a[1],a[2],a[3],a[4])[1]], !.co = [i \in 1..4 |-> TdDim(p[i],a[1],a[2],a[3],a[4])[2]], !.ty = RSeq(4,0..1)]
  [] OTHER -> LET k == Sum(Len(c),c) IN [B0 EXCEPT !.kind = 3, !.nf = k+Len(c), !.nc = Len(c), !.cls = c, !.nm = Shuf(ClsSeq(c,Len(c)),6), !.ro = RSeq(k,DS), !.co = RSeq(k,DS), !.ty = RSeq(k,0..1)]
(* nothing a record cannot describe: both dimensions negative, class list and count out of step *)
Sane(e) == e.fm = 0 \/ e.fa = 0
H(e) == hist' = Append(hist,e)
Bin == \E kind \in {RE(0..3)}, n \in {RE({0,1,1,1,2})}, k1 \in {RE(1..17)}, k2 \in {RE(1..17)}, i1 \in {RE(1..4)}, i2 \in {RE(1..4)}, x1 \in {RE(0..1)}, x2 \in {RE(0..1)} : \E g \in {Good(kind)} :
  \E h \in {IF n = 0 THEN g ELSE Bend(g,k1,i1,x1)} : \E b \in {IF n < 2 \/ k2 \in {k1,9,10} THEN h ELSE Bend(h,k2,i2,x2)} : \E e \in {Fill(b)} : H(e)
J0 == [op |-> "json", kind |-> 0, bias |-> 0, root |-> 0, rb |-> 16, sp |-> 0, cut |-> -1, miss |-> 0, fa |-> 0, fm |-> 0, nm |-> <<>>, ro |-> <<>>, co |-> <<>>, ty |-> <<>>, v |-> <<>>]
JGood(kind) == LET p == TLCEval(RE(Perm4)) a == TLCEval(RSeq(4,DS)) o == TLCEval(RE({0,1,2})) IN
  [J0 EXCEPT !.kind = kind, !.bias = IF kind = 1 THEN RE(0..1) ELSE 0, !.rb = RE({4,16,50,4096}), !.sp = RE(0..1),
    !.nm = [i \in 1..4 |-> p[i]] \o (IF o = 0 THEN <<RE(4..9)>> ELSE <<>>),
    !.ro = [i \in 1..4 |-> TdDim(p[i],a[1],a[2],a[3],a[4])[1]] \o (IF o = 0 THEN <<RE(DS)>> ELSE <<>>), !.co = [i \in 1..4 |-> TdDim(p[i],a[1],a[2],a[3],a[4])[2]] \o (IF o = 0 THEN <<RE(DS)>> ELSE <<>>),
    !.ty = [i \in 1..4 |-> IF TdDim(p[i],a[1],a[2],a[3],a[4])[2] = 1 THEN RE(0..1) ELSE 0] \o (IF o = 0 THEN <<RE({0,1,2,3,8,12})>> ELSE <<>>)]
JBend(e,k,i,x) == CASE k \in {1,2,3} -> [e EXCEPT !.ty = SetAt(@,i,RE({2,3,6,7,8,9,10,11,12} \cup (IF e.co[i] > 1 THEN {4,5} ELSE {})))]
  [] k = 4 -> [e EXCEPT !.nm = SetAt(@,i,IF Len(@) > 4 THEN @[i] ELSE RE(4..9))] [] k = 5 -> [e EXCEPT !.root = 1+x] [] k = 6 -> [e EXCEPT !.cut = RE(0..60)] [] k = 7 -> [e EXCEPT !.miss = 1]
  [] k = 8 -> [e EXCEPT !.fa = i] [] k = 9 -> [e EXCEPT !.ro = SetAt(@,i,RE(DS))] [] k = 10 -> [e EXCEPT !.ty = SetAt(@,i,1)]
  [] k = 11 -> [e EXCEPT !.nm = SubSeq(@,1,i), !.ro = SubSeq(@,1,i), !.co = SubSeq(@,1,i), !.ty = SubSeq(@,1,i)] [] OTHER -> e
JFill(e) == [e EXCEPT !.v = RSeq(NumTo(e,Len(e.nm)),-120..120)]
Json == \E kind \in {RE(0..1)}, n \in {RE({0,1,1,1,2})}, k1 \in {RE(1..11)}, k2 \in {RE(1..9)}, i1 \in {RE(1..4)}, i2 \in {RE(1..4)}, x1 \in {RE(0..1)}, x2 \in {RE(0..1)} : \E g \in {JGood(kind)} :
  \E h \in {IF n = 0 THEN g ELSE JBend(g,k1,i1,x1)} : \E b \in {IF n < 2 \/ k1 = 11 \/ (h.root # 0 /\ k2 = 6) \/ (h.cut >= 0 /\ k2 = 5) THEN h ELSE JBend(h,k2,i2,x2)} : \E e \in {JFill(b)} : H(e)
(* ---- exhaustive: every fault in every small file ---- *)
Ty(k) == [1..k -> 0..1]
SmallBin == {[B0 EXCEPT !.kind = k, !.ro = <<r>>, !.co = <<c>>, !.nm = <<7>>, !.ty = <<t>>] : k \in 0..1, r \in DS, c \in DS, t \in 0..1}
 \cup {[B0 EXCEPT !.kind = 2, !.nf = 4, !.nm = p, !.ro = [i \in 1..4 |-> d[p[i]+1][1]], !.co = [i \in 1..4 |-> d[p[i]+1][2]], !.ty = t] :
         p \in Perm4, d \in {<<<<a,c>>,<<b,1>>,<<1,c>>,<<1,1>>>> : a \in 1..2, b \in 1..2, c \in 1..2}, t \in {[i \in 1..4 |-> i % 2]}}
 \cup {[B0 EXCEPT !.kind = 3, !.nf = Sum(Len(c),c)+Len(c), !.nc = Len(c), !.cls = c, !.nm = n, !.ro = [i \in 1..3 |-> 1], !.co = [i \in 1..3 |-> i], !.ty = [i \in 1..3 |-> i % 2]] :
         c \in {<<3>>,<<1,2>>,<<2,1>>,<<1,1,1>>}, n \in [1..3 -> 10..13]}
NumV(e) == [i \in 1..NumTo(e,Len(e.nm)) |-> i]
InitF == IF RANDOM THEN f = B0 ELSE \E e \in SmallBin : f = [e EXCEPT !.v = NumV(e)]
BendX(e,k,i,x) == IF k = 11 THEN {[e EXCEPT !.cut = c] : c \in 0..Total(e)} ELSE IF k = 12 THEN {} ELSE {Bend(e,k,i,x)}
Init == InitF /\ hist = <<>>
NB == IF Cardinality(DS) > 2 THEN 2 ELSE 1
FX == Len(hist) < NB /\ \E k \in {1,2,3,4,5,7,9,11,13,14,15}, i \in 1..4, x \in 0..1 :
  (k \in {7,9} => i <= Len(f.nm)) /\ \E e \in BendX(f,k,i,x) : f' = [e EXCEPT !.v = NumV(e)] /\ hist' = Append(hist,0)
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN f' = f /\ (\E k \in {RE(1..5)} : IF k <= 3 THEN Bin ELSE Json) ELSE FX
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
Laws == LET r == Allowed(f) IN
  /\ r # {} /\ (0 \in r => r \subseteq {0,11,22})
  /\ 0 \in Res(f) => Res(f) = {0} /\ Len(Data(f)) = (IF f.kind = 3 THEN 1+Want(f) ELSE Want(f))
  (* nothing of the loaded data is lost or invented *)
  /\ (0 \in Res(f)) => Sum(Len(Data(f)),[i \in 1..Len(Data(f)) |-> IF f.kind = 3 /\ i = 1 THEN 0 ELSE Len(Data(f)[i]) - 4 - Data(f)[i][3]*Data(f)[i][1]]) = NumTo(f,Want(f))
  (* cutting a loadable file short never yields success, and only complaints about missing bytes *)
  /\ (f.cut >= 0 /\ f.cut < End(f,Want(f)) /\ Res([f EXCEPT !.cut = -1]) = {0}) => Res(f) \subseteq {2,3,9,13} /\ Res(f) # {}
  /\ (f.cut = Total(f)) => Res(f) = Res([f EXCEPT !.cut = -1])
=============================================================================
