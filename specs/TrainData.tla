------------------------------ MODULE TrainData ------------------------------
(* Train-data objects: four-matrix storage, initialization for training or
   inference, epochs of shuffled batches, ordered walks.  Slots 1 and 2 are
   in-memory objects, slot 3 is a transforming object over the storage of
   slot 1 that turns every base sample into K samples.
   A sample matrix is [n,w,em,bir,own,g]: n samples of w features; feature c
   of sample i of generation g holds the value (16 g + i) 4 + c.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [n |-> 0, w |-> 0, em |-> FALSE, bir |-> FALSE, own |-> TRUE, g |-> 0]
NoSet == [x1 |-> Empty, y1 |-> Empty, x2 |-> Empty, y2 |-> Empty]
Idle  == [ini |-> "no", mf |-> 0, mt |-> 0, mode |-> "none", bs |-> 0, nb |-> 0, k |-> 0, ds |-> 0, ex |-> 0, used |-> {}]
InitState(kk) == [stor |-> [s \in 1..2 |-> NoSet], lo |-> NoSet, run |-> [s \in 1..3 |-> Idle], K |-> kk]
B2N(b) == IF b THEN 1 ELSE 0
Min(a,b) == IF a < b THEN a ELSE b
Max(a,b) == IF a > b THEN a ELSE b
Ceil(a,b) == (a + b - 1) \div b
-----------------------------------------------------------------------------
Mats(x) == {x.x1, x.y1, x.x2, x.y2}
IsEmpty(x) == \E m \in Mats(x) : m.n = 0
CohX(x) == x.x1.bir = x.x2.bir
CohY(x) == x.y1.bir = x.y2.bir
Coh(x) == Cardinality({m.bir : m \in Mats(x)}) = 1
AbsorbOK(x) == /\ ~IsEmpty(x)
               /\ x.x1.n = x.y1.n /\ x.x2.n = x.y2.n /\ x.x1.w = x.x2.w /\ x.y1.w = x.y2.w
               /\ x.x1.em /\ x.x2.em /\ ~x.y1.em /\ ~x.y2.em
               /\ \A m \in Mats(x) : m.own
ReplOK(x,lo) == /\ lo.y1.n # 0 /\ lo.y2.n # 0 /\ lo.y1.n = x.y1.n /\ lo.y2.n = x.y2.n /\ lo.y1.w = lo.y2.w
                /\ ~lo.y1.em /\ ~lo.y2.em /\ lo.y1.own /\ lo.y2.own
(* equality of matrices ignores the ownership of the storage *)
SameM(a,b) == [a EXCEPT !.own = TRUE] = [b EXCEPT !.own = TRUE]
Same(a,b) == SameM(a.x1,b.x1) /\ SameM(a.y1,b.y1) /\ SameM(a.x2,b.x2) /\ SameM(a.y2,b.y2)
Flip(m) == [m EXCEPT !.bir = ~m.bir]
Loose(e) ==
  LET M(n,w,em,bir,own,g) == IF n = 0 THEN Empty ELSE [n |-> n, w |-> w, em |-> em, bir |-> bir, own |-> own, g |-> g]
      bx == e.bx = 1  by == e.by = 1 IN
  [x1 |-> M(IF e.bad = 8 THEN 0 ELSE e.n1, e.xw, e.bad # 5, bx, e.bad # 7, e.g),
   x2 |-> M(IF e.bad = 17 THEN 0 ELSE e.n2, e.xw + B2N(e.bad = 3), e.bad # 9, IF e.bad = 12 THEN ~bx ELSE bx, e.bad # 16, e.g+1),
   y1 |-> M(IF e.bad = 18 THEN 0 ELSE e.n1 + B2N(e.bad = 1), e.yw, e.bad = 6, by, e.bad # 10, e.g+2),
   y2 |-> M(IF e.bad = 11 THEN 0 ELSE e.n2 + B2N(e.bad = 2), e.yw + B2N(e.bad = 4), e.bad = 14, IF e.bad = 13 THEN ~by ELSE by, e.bad # 15, e.g+3)]
-----------------------------------------------------------------------------
Base(q,s) == IF s = 3 THEN q.stor[1] ELSE q.stor[s]
Mul(q,s)  == IF s = 3 THEN q.K ELSE 1
DsN(q,s,d) == Mul(q,s) * (IF d = 0 THEN Base(q,s).x1.n ELSE Base(q,s).x2.n)
Big(q,s) == Max(DsN(q,s,0), DsN(q,s,1))
Free(q,s) == q.run[s].ini = "no" /\ (s = 1 => q.run[3].ini = "no")   \* the storage may be changed
Norm(a,n) == IF a = 0 \/ a > n THEN n ELSE a
MultOK(q,s,a) == a % Mul(q,s) = 0
Mini(q,s) == q.run[s].ini = "train" /\ q.run[s].mt < DsN(q,s,0)
EffTr(q,s,e) == IF e.a < 0 THEN q.run[s].mt ELSE IF e.a = 0 THEN e.c ELSE e.a
EffInf(q,s,e) == IF e.a < 0 THEN q.run[s].mf ELSE IF e.a = 0 THEN e.c ELSE e.a
Pre(q,e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "loose" -> TRUE
    [] e.op \in {"absorb"} -> Free(q,e.s)
    [] e.op = "extract" -> Free(q,e.s) /\ ~IsEmpty(q.stor[e.s])
    [] e.op = "reply" -> Free(q,e.s) /\ ~IsEmpty(q.stor[e.s])
    [] e.op = "dupe" -> Free(q,e.t) /\ ~IsEmpty(q.stor[e.s]) /\ e.s # e.t
    [] e.op \in {"move","absorb_td"} -> Free(q,e.s) /\ Free(q,e.t)
    [] e.op = "clear" -> Free(q,e.s)
    [] e.op = "eq" -> ~IsEmpty(q.stor[e.s]) /\ ~IsEmpty(q.stor[e.t])
    [] e.op \in {"transp","transpx","transpy"} -> Free(q,e.s) /\ ~IsEmpty(q.stor[e.s])
    [] e.op \in {"init_inf","init_tr"} -> ~IsEmpty(Base(q,e.s)) /\ CohX(Base(q,e.s)) /\ CohY(Base(q,e.s))
    [] e.op \in {"isinf","istr","deinit"} -> TRUE
    [] e.op = "epoch" -> /\ q.run[e.s].ini = "train" /\ EffTr(q,e.s,e) \in 1..q.run[e.s].mt /\ MultOK(q,e.s,EffTr(q,e.s,e))
                         /\ (e.s # 3 /\ ~Mini(q,e.s)) => EffTr(q,e.s,e) = q.run[e.s].mt
    [] e.op = "batch" -> q.run[e.s].mode = "epoch" /\ q.run[e.s].k < q.run[e.s].nb /\ e.i = q.run[e.s].k
    [] e.op = "walk" -> /\ q.run[e.s].ini # "no" /\ EffInf(q,e.s,e) \in 1..q.run[e.s].mf /\ MultOK(q,e.s,EffInf(q,e.s,e))
                        /\ (e.s = 3 \/ EffInf(q,e.s,e) = q.run[e.s].mf \/ Mini(q,e.s) \/ q.run[e.s].mf < Big(q,e.s))
    [] e.op = "next" -> q.run[e.s].mode = "walk" /\ q.run[e.s].k < q.run[e.s].nb /\ e.i = q.run[e.s].k /\ e.ex = q.run[e.s].ex
    [] e.op = "orders" -> /\ Free(q,e.s) /\ ~IsEmpty(q.stor[e.s]) /\ CohX(q.stor[e.s]) /\ CohY(q.stor[e.s]) /\ q.run[e.s].ini = "no"
                          /\ q.stor[e.s].x1.n \in 2..3 /\ q.stor[e.s].x1.g = e.g
(* 0 success, 1 batch size exceeds inference size, 3 size not a multiple *)
InitRes(q,e) ==
  LET s == e.s  mf == Norm(e.a, Big(q,s))  mt == IF e.op = "init_tr" THEN Norm(e.b, DsN(q,s,0)) ELSE 0 IN
  IF ~MultOK(q,s,e.a) \/ (e.op = "init_tr" /\ ~MultOK(q,s,e.b)) THEN [ret |-> 3, mf |-> 0, mt |-> 0]
  ELSE IF mt > mf THEN [ret |-> 1, mf |-> 0, mt |-> 0] ELSE [ret |-> 0, mf |-> mf, mt |-> mt]
(* what the call must return, as a predicate on the recorded event *)
RetOK(q,e) ==
  CASE e.op = "absorb" -> e.ret = B2N(AbsorbOK(q.lo))
    [] e.op = "reply" -> e.ret = B2N(ReplOK(q.stor[e.s], q.lo))
    [] e.op = "dupe" -> e.ret = B2N(AbsorbOK([q.stor[e.s] EXCEPT !.x1.own = TRUE]))
    [] e.op = "eq" -> e.ret = B2N(Same(q.stor[e.s], q.stor[e.t]))
    [] e.op = "init_inf" -> LET r == InitRes(q,e) IN e.ret = r.ret /\ (r.ret = 0 => e.o1 = r.mf)
    [] e.op = "init_tr" -> LET r == InitRes(q,e) IN e.ret = r.ret /\ (r.ret = 0 => e.o1 = r.mf /\ e.o2 = r.mt /\ e.o3 = B2N(r.mt < DsN(q,e.s,0)))
    [] e.op = "isinf" -> LET r == q.run[e.s] IN
         /\ (r.ini = "no" \/ e.a > r.mf) => e.ret = 0
         /\ (r.ini # "no" /\ e.a \in {0, r.mf}) => e.ret = 1
         /\ e.o1 = (IF e.ret = 1 /\ e.a = 0 THEN r.mf ELSE e.a)
    [] e.op = "istr" -> LET r == q.run[e.s] IN
         /\ (r.ini # "train" \/ e.a > r.mf \/ e.b > r.mt) => e.ret = 0
         /\ (r.ini = "train" /\ e.a \in {0, r.mf} /\ e.b \in {0, r.mt}) => e.ret = 1 /\ e.o3 = B2N(Mini(q,e.s))
         /\ e.ret = 0 => e.o1 = e.a /\ e.o2 = e.b
         /\ e.ret = 1 => e.o1 = (IF e.a = 0 THEN r.mf ELSE e.a) /\ e.o2 = (IF e.b = 0 THEN r.mt ELSE e.b)
    [] e.op = "epoch" -> e.ret = DsN(q,e.s,0) \div EffTr(q,e.s,e)
    [] e.op = "walk" -> LET n == DsN(q,e.s,e.ds) IN e.ret = Ceil(n, Min(n, EffInf(q,e.s,e)))
    [] OTHER -> TRUE
Next0(q,e,got) ==     \* got: base samples delivered by this batch
  LET s == e.s IN
  CASE e.op = "reset" -> InitState(e.k)
    [] e.op = "loose" -> [q EXCEPT !.lo = Loose(e)]
    [] e.op = "absorb" -> IF AbsorbOK(q.lo) THEN [q EXCEPT !.stor[s] = q.lo, !.lo = NoSet] ELSE q
    [] e.op = "extract" -> [q EXCEPT !.lo = q.stor[s], !.stor[s] = NoSet]
    [] e.op = "reply" -> IF ReplOK(q.stor[s], q.lo) THEN [q EXCEPT !.stor[s].y1 = q.lo.y1, !.stor[s].y2 = q.lo.y2, !.lo.y1 = Empty, !.lo.y2 = Empty] ELSE q
    [] e.op = "dupe" -> [q EXCEPT !.stor[e.t] = q.stor[s]]
    [] e.op \in {"move","absorb_td"} -> IF s = e.t THEN q ELSE IF IsEmpty(q.stor[s]) THEN [q EXCEPT !.stor[e.t] = NoSet] ELSE [q EXCEPT !.stor[e.t] = q.stor[s], !.stor[s] = NoSet]
    [] e.op = "clear" -> [q EXCEPT !.stor[s] = NoSet]
    [] e.op = "transp" -> [q EXCEPT !.stor[s] = [f \in DOMAIN NoSet |-> Flip(q.stor[s][f])]]
    [] e.op = "transpx" -> [q EXCEPT !.stor[s].x1 = Flip(@), !.stor[s].x2 = Flip(@)]
    [] e.op = "transpy" -> [q EXCEPT !.stor[s].y1 = Flip(@), !.stor[s].y2 = Flip(@)]
    [] e.op \in {"init_inf","init_tr"} -> LET r == InitRes(q,e) IN
         IF r.ret = 3 THEN q      \* refused before anything is touched
         ELSE [q EXCEPT !.run[s] = IF r.ret = 0 THEN [Idle EXCEPT !.ini = IF e.op = "init_tr" THEN "train" ELSE "inf", !.mf = r.mf, !.mt = r.mt] ELSE Idle]
    [] e.op = "deinit" -> [q EXCEPT !.run[s] = Idle]
    [] e.op = "epoch" -> [q EXCEPT !.run[s] = [@ EXCEPT !.mode = "epoch", !.bs = EffTr(q,s,e), !.nb = DsN(q,s,0) \div EffTr(q,s,e), !.k = 0, !.used = {}]]
    [] e.op = "batch" -> [q EXCEPT !.run[s] = [@ EXCEPT !.k = @ + 1, !.used = @ \cup got]]
    [] e.op = "walk" -> LET n == DsN(q,s,e.ds) IN [q EXCEPT !.run[s] = [@ EXCEPT !.mode = "walk", !.ds = e.ds, !.ex = e.ex, !.bs = Min(n, EffInf(q,s,e)), !.nb = Ceil(n, Min(n, EffInf(q,s,e))), !.k = 0]]
    [] e.op = "next" -> [q EXCEPT !.run[s].k = @ + 1]
    [] OTHER -> q
-----------------------------------------------------------------------------
(* model-level guarantees: an epoch never repeats a sample and drops fewer than one batch; a walk delivers everything *)
InvEpoch(q) == \A s \in 1..3 : LET r == q.run[s] IN r.mode = "epoch" => /\ r.nb * r.bs <= DsN(q,s,0) /\ DsN(q,s,0) - r.nb * r.bs < r.bs
                                                      /\ Cardinality(r.used) * Mul(q,s) = r.k * r.bs
InvWalk(q) == \A s \in 1..3 : LET r == q.run[s] IN r.mode = "walk" => /\ r.nb * r.bs >= DsN(q,s,r.ds) /\ (r.nb - 1) * r.bs < DsN(q,s,r.ds) /\ r.bs <= r.mf
InvInit(q) == \A s \in 1..3 : LET r == q.run[s] IN r.ini = "train" => r.mt <= r.mf /\ r.mf <= Big(q,s)
=============================================================================
