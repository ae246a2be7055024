-------------------------------- MODULE Files --------------------------------
(* Loading of data files. A file is a record that describes its bytes (binary) or text (JSON); the module
   says which results a reader may return and what the destination holds after a success.
   Names: 1..4 train_x train_y test_x test_y (0..3 in the records), 4..7 and 8,9 others, 10+k is "c<k>". *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Sum(_,_)
Sum(k,s) == IF k = 0 THEN 0 ELSE s[k] + Sum(k-1,s)
Num(e,i) == IF e.ro[i] <= 0 \/ e.co[i] <= 0 THEN 0 ELSE e.ro[i]*e.co[i]
RECURSIVE NumTo(_,_)
NumTo(e,i) == IF i = 0 THEN 0 ELSE NumTo(e,i-1) + Num(e,i)
Vals(e,i) == SubSeq(e.v,NumTo(e,i-1)+1,NumTo(e,i))
Ones(k) == [i \in 1..k |-> 1]
Mtx(r,c,b,v) == <<r,c+b,b,0>> \o v \o (IF b = 1 THEN Ones(r) ELSE <<>>)
(* the four members make a data set *)
Fits(d) == d[1][1] = d[2][1] /\ d[3][1] = d[4][1] /\ d[1][2] = d[3][2] /\ d[2][2] = d[4][2]
(* ---------------- binary files ---------------- *)
HeadLen(e) == 10 + 2*Len(e.cls)
RECURSIVE End(_,_)
End(e,i) == IF i = 0 THEN HeadLen(e) ELSE End(e,i-1) + 24 + Num(e,i)*(IF e.ty[i] = 0 THEN 8 ELSE 4)
Total(e) == End(e,Len(e.nm))
Avail(e) == IF e.cut < 0 \/ e.cut > Total(e) THEN Total(e) ELSE e.cut
Want(e) == CASE e.kind \in {0,1} -> 1 [] e.kind = 2 -> 4 [] OTHER -> Sum(Len(e.cls),e.cls)
HeadFaults(e) == (IF e.sig # 0 THEN {4} ELSE {}) \cup (IF e.ver # 0 THEN {5} ELSE {})
  \cup (IF e.kind # 3 /\ e.nf # Want(e) THEN {6} ELSE {}) \cup (IF e.kind # 3 /\ e.nc # 0 THEN {7} ELSE {})
  \cup (IF e.kind = 3 /\ e.nf <= e.nc THEN {6} ELSE {})
ClsFaults(e) == IF e.kind # 3 THEN {} ELSE
   (IF Avail(e) < HeadLen(e) THEN {3} ELSE {}) \cup (IF \E i \in 1..Len(e.cls) : Avail(e) >= 10+2*i /\ e.cls[i] = 0 THEN {8} ELSE {})
   \cup (IF Avail(e) >= HeadLen(e) /\ Want(e) + e.nc # e.nf THEN {6} ELSE {})
Cls(e,i) == e.nm[i] - 10
Earlier(e,i) == Cardinality({j \in 1..(i-1) : e.nm[j] = e.nm[i]})
EntryFaults(e,i) ==
  IF i > Len(e.nm) \/ Avail(e) < End(e,i-1) + 24 THEN {9} ELSE
  (IF e.ro[i] <= 0 \/ e.co[i] <= 0 THEN (IF e.ro[i] < 0 \/ e.co[i] < 0 THEN {12,22} ELSE {12}) ELSE {}) \cup (IF e.ty[i] \notin {0,1} THEN {10} ELSE {})
  \cup (IF e.kind = 2 THEN (IF e.nm[i] > 3 THEN {14} ELSE IF Earlier(e,i) > 0 THEN {15} ELSE {}) ELSE {})
  \cup (IF e.kind = 3 THEN (IF e.nm[i] < 11 THEN {19} ELSE IF Cls(e,i) > Len(e.cls) THEN {20} ELSE IF Earlier(e,i) >= e.cls[Cls(e,i)] THEN {20} ELSE {}) ELSE {})
  \cup (IF Avail(e) < End(e,i) THEN {13} ELSE {})
RECURSIVE Walk(_,_)
Walk(e,i) == IF i > Want(e) THEN {} ELSE LET f == EntryFaults(e,i) IN IF f # {} THEN f ELSE Walk(e,i+1)
Pos(e,n) == CHOOSE i \in 1..4 : e.nm[i] = n
Dims(e) == [n \in 1..4 |-> LET i == Pos(e,n-1) IN <<e.ro[i],e.co[i]>>]
BinRes(e) == IF e.miss = 1 THEN {1} ELSE IF Avail(e) < 10 THEN {2} ELSE LET h == HeadFaults(e) IN IF h # {} THEN h ELSE
  LET c == ClsFaults(e) IN IF c # {} THEN c ELSE LET w == Walk(e,1) IN IF w # {} THEN w ELSE
  IF e.kind = 2 /\ ~Fits(Dims(e)) THEN {16} ELSE {0}
(* sequences of a class keep the order of the file *)
RECURSIVE OfClass(_,_,_)
OfClass(e,c,i) == IF i = 0 THEN <<>> ELSE OfClass(e,c,i-1) \o (IF Cls(e,i) = c /\ i <= Want(e) THEN <<Mtx(e.ro[i],e.co[i],0,Vals(e,i))>> ELSE <<>>)
RECURSIVE Classes(_,_)
Classes(e,c) == IF c = 0 THEN <<>> ELSE Classes(e,c-1) \o OfClass(e,c,Len(e.nm))
BinData(e) == CASE e.kind \in {0,1} -> <<Mtx(e.ro[1],e.co[1],e.bias,Vals(e,1))>>
  [] e.kind = 2 -> [n \in 1..4 |-> LET i == Pos(e,n-1) IN Mtx(e.ro[i],e.co[i],IF n \in {1,3} THEN 1 ELSE 0,Vals(e,i))]
  [] OTHER -> <<e.cls \o <<0>>>> \o Classes(e,Len(e.cls))
(* ---------------- JSON files ---------------- *)
Has(e,n) == \E i \in 1..Len(e.nm) : e.nm[i] = n
JPos(e,n) == CHOOSE i \in 1..Len(e.nm) : e.nm[i] = n
JNeed(e) == IF e.kind = 1 THEN {0} ELSE 0..3
JFaults(e) == UNION {IF ~Has(e,n) THEN {4+n} ELSE IF e.ty[JPos(e,n)] \notin {0,1} THEN {8+n} ELSE {} : n \in JNeed(e)}
JDim(e,n) == LET i == JPos(e,n) IN IF e.ty[i] = 0 THEN <<e.ro[i],e.co[i]>> ELSE <<e.ro[i]*e.co[i],1>>
JDims(e) == [n \in 1..4 |-> JDim(e,n-1)]
JsonRes(e) == IF e.miss = 1 THEN {1} ELSE IF e.cut >= 0 THEN {2} ELSE IF e.root # 0 THEN {3} ELSE LET f == JFaults(e) IN IF f # {} THEN f
  ELSE IF e.kind = 0 /\ ~Fits(JDims(e)) THEN {12} ELSE {0}
JMtx(e,n,b) == LET d == JDim(e,n) IN Mtx(d[1],d[2],b,Vals(e,JPos(e,n)))
JsonData(e) == IF e.kind = 1 THEN <<JMtx(e,0,e.bias)>> ELSE [n \in 1..4 |-> JMtx(e,n-1,IF n \in {1,3} THEN 1 ELSE 0)]
(* ---------------- either ---------------- *)
Res(e) == IF e.op = "bin" THEN BinRes(e) ELSE JsonRes(e)
Data(e) == IF e.op = "bin" THEN BinData(e) ELSE JsonData(e)
Allocs(e) == IF e.op = "bin" THEN Want(e) ELSE IF e.kind = 1 THEN 1 ELSE 4
NoMem(e) == IF e.op = "bin" THEN 22 ELSE 13
(* fa: the fa-th matrix allocation fails; fm: the fm-th other allocation may fail *)
Allowed(e) == LET r == Res(e) m == IF e.fm > 0 /\ e.op = "bin" THEN {11,22} ELSE {} IN
  IF e.fa > 0 THEN (IF r = {0} /\ e.fa <= Allocs(e) THEN {NoMem(e)} ELSE r \cup {NoMem(e)}) \cup m ELSE r \cup m
Same(a,b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ \A k \in 1..Len(a[i]) : a[i][k] = b[i][k]
EventOK(e) ==
  /\ e.ret \in Allowed(e)
  /\ e.leak = 0 /\ e.badfree = 0 /\ e.fd = 0 /\ e.msg = 1
  /\ e.ret # 0 => e.le = e.ret
  /\ e.ret = 0 => Same(e.ms,Data(e))
  /\ (e.ret # 0 /\ ((e.op = "bin" /\ e.kind = 2) \/ (e.op = "json" /\ e.kind = 0))) => e.empty = 1
=============================================================================
