--------------------------- MODULE TrainDataTrace ----------------------------
EXTENDS TrainData, Json, IOUtils
VARIABLES q, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
V(g,i,c) == (g*16 + i)*4 + c
RowOK(m,i,row) == Len(row) = m.w /\ \A c \in 1..m.w : row[c] = V(m.g,i,c-1)
MatOK(m,o) == IF m.n = 0 THEN o.n = 0
  ELSE /\ o.n = m.n /\ o.w = m.w /\ o.em = B2N(m.em) /\ o.bir = B2N(m.bir) /\ o.bo = 1
       /\ Len(o.d) = m.n /\ \A i \in 1..m.n : RowOK(m,i-1,o.d[i])
StorOK(x,o) == /\ MatOK(x.x1,o.x1) /\ MatOK(x.y1,o.y1) /\ MatOK(x.x2,o.x2) /\ MatOK(x.y2,o.y2)
               /\ o.e = B2N(IsEmpty(x))
               /\ ~IsEmpty(x) => /\ o.c1 = x.x1.n /\ o.c2 = x.x2.n /\ o.xw = x.x1.w /\ o.yw = x.y1.w /\ o.big = Max(x.x1.n,x.x2.n)
                                 /\ o.sc = B2N(Coh(x)) /\ o.scx = B2N(CohX(x)) /\ o.scy = B2N(CohY(x))
LoOK(x,o) == MatOK(x.x1,o[1]) /\ MatOK(x.y1,o[2]) /\ MatOK(x.x2,o[3]) /\ MatOK(x.y2,o[4])
(* the transformer writes its batches in columns and appends the copy number *)
XRow(Q,s,m,i,row) == IF s # 3 THEN RowOK(m,i,row) ELSE Len(row) = m.w+1 /\ RowOK(m, i \div Q.K, SubSeq(row,1,m.w)) /\ row[m.w+1] = i % Q.K
YRow(Q,s,m,i,row) == RowOK(m, i \div Mul(Q,s), row)
Shape(s,m,o,n,x) == o.n = n /\ o.w = m.w + B2N(s = 3 /\ x) /\ o.em = B2N(x) /\ o.bir = (IF s = 3 THEN 0 ELSE B2N(m.bir)) /\ o.bo = 1 /\ Len(o.d) = n
Got(Q,e) == LET m == Base(Q,e.s).x1  kk == Mul(Q,e.s) IN { (e.fx.d[j][1] \div 4) - m.g*16 : j \in 1..Len(e.fx.d) }
BatchOK(Q,e) ==
  LET s == e.s  r == Q.run[s]  x == Base(Q,s).x1  y == Base(Q,s).y1  kk == Mul(Q,s) IN
  /\ Shape(s,x,e.fx,r.bs,TRUE) /\ Shape(s,y,e.fy,r.bs,FALSE)
  /\ LET id(j) == (e.fx.d[j][1] \div 4) - x.g*16     \* which base sample row j holds
         got == Got(Q,e) IN
     /\ \A j \in 1..r.bs : /\ id(j) \in 0..(x.n-1) /\ id(j) \notin r.used
                           /\ XRow(Q,s,x, id(j)*kk + ((j-1) % kk), e.fx.d[j]) /\ RowOK(y,id(j),e.fy.d[j])
     /\ Cardinality(got) * kk = r.bs
NextOK(Q,e) ==
  LET s == e.s  r == Q.run[s]  x == IF r.ds = 0 THEN Base(Q,s).x1 ELSE Base(Q,s).x2  y == IF r.ds = 0 THEN Base(Q,s).y1 ELSE Base(Q,s).y2
      n == Min(r.bs, DsN(Q,s,r.ds) - r.k*r.bs) IN
  /\ r.ex # 1 => Shape(s,x,e.fx,n,TRUE) /\ \A j \in 1..n : XRow(Q,s,x, r.k*r.bs + j - 1, e.fx.d[j])
  /\ r.ex # 2 => Shape(s,y,e.fy,n,FALSE) /\ \A j \in 1..n : YRow(Q,s,y, r.k*r.bs + j - 1, e.fy.d[j])
Perms(n) == {f \in [1..n -> 0..(n-1)] : \A i,j \in 1..n : i # j => f[i] # f[j]}
Init == q = InitState(1) /\ l = 1
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
             /\ e.op # "crash"
             /\ Assert(Pre(q,e), <<"driver broke a precondition", l, e.op>>)
             /\ RetOK(q,e)
             /\ (e.op = "batch") => BatchOK(q,e)
             /\ (e.op = "next") => NextOK(q,e)
             /\ (e.op = "orders") => {e.orders[i] : i \in 1..Len(e.orders)} = Perms(q.stor[e.s].x1.n)
             /\ q' = Next0(q, e, IF e.op = "batch" THEN Got(q,e) ELSE {})
             /\ (e.op # "orders") => (\A s \in 1..2 : StorOK(q'.stor[s], e.st[s])) /\ LoOK(q'.lo, e.lo)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<q,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
