------------------------------- MODULE Matrix -------------------------------
(* State machine of the dense matrix objects (smatrix / smatrix_deform).
   A program holds a few matrix objects ("slots"), each either owning a heap
   buffer or viewing memory that belongs to the user or to another matrix.
   Step(st,e) is the state after operation e; Pre(st,e) is the documented
   precondition; Ret(st,e) the value the operation must return.
   Cell value U means "unspecified" (fresh memory).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

U    == -99999          \* unspecified content
NANV == 77777           \* encoding of a quiet NaN
CONSTANTS SLOTS, EXTB, EXTSIZE, MAXCELLS
\* SLOTS: number of matrix objects, EXTB: number of user buffers of EXTSIZE cells

Slots == 1..SLOTS
ExtIds == 1..EXTB
OwnIds == (EXTB+1)..(EXTB+SLOTS)
B2N(b) == IF b THEN 1 ELSE 0

NoMat == [buf |-> 0, off |-> 0, r |-> 0, c |-> 0, em |-> FALSE, ho |-> FALSE,
          bir |-> FALSE, own |-> TRUE]

Init0 == [heap |-> [b \in ExtIds |-> [i \in 1..EXTSIZE |-> 5 + i]],
          m |-> [s \in Slots |-> NoMat]]

----------------------------------------------------------------------------
\* observers
Empty(x)   == x.buf = 0
BiasRow(x) == x.em /\ x.bir
BiasCol(x) == x.em /\ ~x.bir
RNB(x)     == x.r - B2N(BiasRow(x))
CNB(x)     == x.c - B2N(BiasCol(x))
SS(x)      == IF x.bir THEN RNB(x) ELSE CNB(x)      \* sample size
BS(x)      == IF x.bir THEN x.c ELSE x.r            \* batch size
NE(x)      == x.r * x.c
Cap(st,x)  == Len(st.heap[x.buf]) - x.off           \* cells reachable through x
Idx(x,i,j) == x.off + i + j * x.r + 1               \* column-major address
Cell(st,x,i,j) == st.heap[x.buf][Idx(x,i,j)]
Cells(st,x) == [k \in 1..NE(x) |-> st.heap[x.buf][x.off + k]]
RowOf(x,k)  == (k-1) % x.r
ColOf(x,k)  == (k-1) \div x.r
IsBiasCell(x,i,j) == (BiasCol(x) /\ j = x.c - 1) \/ (BiasRow(x) /\ i = x.r - 1)
Ready(st,s) == LET x == st.m[s] IN x.buf # 0 /\ x.r > 0 /\ x.c > 0
Known(st,x) == \A k \in 1..NE(x) : st.heap[x.buf][x.off+k] # U

----------------------------------------------------------------------------
\* state updaters
SetM(st,s,x) == [st EXCEPT !.m[s] = x]
Poke(st,x,f(_,_,_)) ==   \* rewrite every cell of x: f(i,j,old)
  [st EXCEPT !.heap[x.buf] =
     [k \in DOMAIN @ |-> IF k > x.off /\ k <= x.off + NE(x)
                         THEN f(RowOf(x,k-x.off), ColOf(x,k-x.off), @[k]) ELSE @[k]]]
PutSeq(st,x,q) ==        \* write q over the first Len(q) cells of x
  [st EXCEPT !.heap[x.buf] =
     [k \in DOMAIN @ |-> IF k > x.off /\ k <= x.off + Len(q) THEN q[k - x.off] ELSE @[k]]]

Shared(st,s)   == \E t \in Slots \ {s} : st.m[t].buf = st.m[s].buf
Owns(st,s)     == st.m[s].buf # 0 /\ st.m[s].own
CanFree(st,s)  == Owns(st,s) => ~Shared(st,s)
\* drop whatever s holds: only owned memory goes away
Release(st,s) ==
  LET h == IF Owns(st,s)
           THEN [b \in DOMAIN st.heap \ {st.m[s].buf} |-> st.heap[b]] ELSE st.heap
  IN [heap |-> h, m |-> [st.m EXCEPT ![s] = [@ EXCEPT !.buf = 0, !.off = 0, !.r = 0, !.c = 0]]]
FreshId(st) == CHOOSE b \in OwnIds : b \notin DOMAIN st.heap /\ \A d \in OwnIds : d < b => d \in DOMAIN st.heap
Alloc(st,s,n) ==         \* s must hold nothing; gets n fresh cells
  LET b == FreshId(st) IN
  [heap |-> [d \in DOMAIN st.heap \cup {b} |-> IF d = b THEN [i \in 1..n |-> U] ELSE st.heap[d]],
   m |-> [st.m EXCEPT ![s] = [@ EXCEPT !.buf = b, !.off = 0, !.own = TRUE]]]

SetBiases(st,s) ==
  LET x == st.m[s] IN
  IF ~x.em THEN st
  ELSE SetM(Poke(st,x,LAMBDA i,j,o : IF IsBiasCell(x,i,j) THEN 1 ELSE o), s, [x EXCEPT !.ho = FALSE])

\* fresh owned matrix of r x c data cells (+ bias) with the given flags
Fresh(st,s,r,c,em,bir) ==
  LET s1 == Release(st,s)
      rr == r + B2N(em /\ bir)
      cc == c + B2N(em /\ ~bir)
      s2 == Alloc(s1,s,rr*cc)
      x  == [s2.m[s] EXCEPT !.r = rr, !.c = cc, !.em = em, !.bir = bir, !.ho = FALSE]
  IN SetBiases(SetM(s2,s,x),s)

View(st,s,buf,off,r,c,em,ho,bir) ==
  SetM(Release(st,s), s, [buf |-> buf, off |-> off, r |-> r, c |-> c, em |-> em, ho |-> ho,
                          bir |-> bir, own |-> FALSE])

DefaultBias(x) == ~x.em \/ ~x.bir       \* "doesn't support batch-in-row with biases" ops
SameOwnerNE(st,s,t) == st.m[s].buf # st.m[t].buf

----------------------------------------------------------------------------
\* documented preconditions, one CASE arm per operation
Pre(st,e) ==
  LET x == st.m[e.s] IN
  CASE e.op = "reset" -> TRUE
    [] e.op \in {"ctor","ctor_sz","ctor_ds"} -> CanFree(st,e.s) /\ e.a > 0 /\ e.b > 0
    [] e.op = "ctor0" -> CanFree(st,e.s)
    [] e.op \in {"resize","resize_b","resize_sz"} -> x.own /\ CanFree(st,e.s) /\ e.a > 0 /\ e.b > 0 /\ (x.ho => x.em)
    [] e.op \in {"resize_ds","resize_ds_b"} -> x.own /\ CanFree(st,e.s) /\ e.a > 0 /\ e.b > 0 /\ (x.ho => x.em)
    [] e.op = "resize_nb" -> x.own /\ CanFree(st,e.s) /\ e.a > 0 /\ e.b > 0 /\ ~x.ho
    [] e.op \in {"resize_like","resize_like_b"} ->
          x.own /\ CanFree(st,e.s) /\ e.s # e.t /\ Ready(st,e.t)
          /\ x.em = st.m[e.t].em /\ x.bir = st.m[e.t].bir /\ (x.ho => x.em)
    [] e.op = "resize_ne" -> CanFree(st,e.s) /\ e.a > 0
    [] e.op = "clear" -> CanFree(st,e.s)
    [] e.op = "use_int" -> CanFree(st,e.s)
    [] e.op \in {"use_ext","ctor_ext"} -> CanFree(st,e.s) /\ e.t \in ExtIds /\ e.a > 0 /\ e.b > 0 /\ e.a*e.b <= EXTSIZE
    [] e.op \in {"use_ext_ds","use_ext_ds2"} -> CanFree(st,e.s) /\ e.t \in ExtIds /\ e.a > 0 /\ e.b > 0 /\ e.a*e.b <= EXTSIZE
    [] e.op \in {"use_ext_like","ctor_ext_like"} -> CanFree(st,e.s) /\ e.s # e.t /\ Ready(st,e.t) /\ NE(st.m[e.t]) <= EXTSIZE
    [] e.op = "use_ext_like_nb" -> CanFree(st,e.s) /\ e.s # e.t /\ Ready(st,e.t) /\ NE(st.m[e.t]) <= EXTSIZE /\ DefaultBias(st.m[e.t]) /\ CNB(st.m[e.t]) > 0
    [] e.op = "use_mat" -> CanFree(st,e.s) /\ e.s # e.t /\ Ready(st,e.t)
    [] e.op = "use_mat_nb" -> CanFree(st,e.s) /\ e.s # e.t /\ Ready(st,e.t) /\ DefaultBias(st.m[e.t]) /\ CNB(st.m[e.t]) > 0
    [] e.op \in {"use_cols_nb","subm","subm_b"} ->
          CanFree(st,e.s) /\ e.s # e.t /\ Ready(st,e.t) /\ (e.op = "subm_b" \/ DefaultBias(st.m[e.t]))
          /\ e.a >= 0 /\ e.b > 0 /\ e.a + e.b <= CNB(st.m[e.t])
    [] e.op \in {"mctor","massign","massign_b"} -> e.s # e.t /\ CanFree(st,e.s)
    [] e.op = "clone_to" -> e.s # e.t /\ Ready(st,e.s) /\ (st.m[e.t].own => CanFree(st,e.t)) /\ SameOwnerNE(st,e.s,e.t)
    [] e.op = "clone_from" -> e.s # e.t /\ Ready(st,e.t) /\ st.m[e.s].own /\ CanFree(st,e.s) /\ SameOwnerNE(st,e.s,e.t)
    [] e.op = "clone_to_nb" -> e.s # e.t /\ Ready(st,e.s) /\ DefaultBias(x) /\ CNB(x) > 0
                               /\ (st.m[e.t].own => CanFree(st,e.t)) /\ SameOwnerNE(st,e.s,e.t)
    [] e.op = "copy_to" -> e.s # e.t /\ Ready(st,e.s) /\ Ready(st,e.t) /\ SameOwnerNE(st,e.s,e.t)
    [] e.op = "copy_skip_bias" -> e.s # e.t /\ Ready(st,e.s) /\ Ready(st,e.t) /\ SameOwnerNE(st,e.s,e.t)
                                  /\ DefaultBias(x) /\ DefaultBias(st.m[e.t]) /\ CNB(x) > 0
                                  /\ (st.m[e.t].em => ~x.bir)
    [] e.op = "set" -> Ready(st,e.s) /\ e.a \in 0..(x.r-1) /\ e.b \in 0..(x.c-1)
    [] e.op \in {"fill","ones","nans"} -> Ready(st,e.s)
    [] e.op = "zeros" -> Ready(st,e.s)
    [] e.op = "nans_nb" -> Ready(st,e.s) /\ DefaultBias(x)
    [] e.op = "fill_col" -> Ready(st,e.s) /\ e.a \in 0..(x.c-1) /\ DefaultBias(x)
    [] e.op = "fill_row" -> Ready(st,e.s) /\ e.a \in 0..(x.r-1) /\ (~x.em \/ x.bir)
    [] e.op = "set_biases" -> Ready(st,e.s) /\ x.em
    [] e.op = "holey" -> Ready(st,e.s) /\ x.em
    [] e.op = "set_bir" -> x.buf = 0
    [] e.op = "emul" -> x.buf = 0
    [] e.op = "from_arr" -> Ready(st,e.s) /\ DefaultBias(x) /\ Len(e.v) = RNB(x)*CNB(x)
    [] e.op = "biases_arr" -> Ready(st,e.s) /\ x.em /\ ~x.bir /\ Len(e.v) = x.r
    [] e.op = "biases_mat" -> e.s # e.t /\ Ready(st,e.s) /\ Ready(st,e.t) /\ x.em /\ ~x.bir /\ SameOwnerNE(st,e.s,e.t)
                              /\ st.m[e.t].em /\ ~st.m[e.t].bir /\ st.m[e.t].r = x.r
    [] e.op \in {"deform"} -> x.buf # 0 /\ e.a > 0 /\ e.b > 0 /\ e.a*e.b <= Cap(st,x)
                               /\ (x.em => (IF x.bir THEN e.a > 1 ELSE e.b > 1))
    [] e.op = "deform_rows" -> Ready(st,e.s) /\ e.a > 0 /\ e.a*x.c <= Cap(st,x) /\ (BiasRow(x) => e.a > 1)
    [] e.op = "deform_cols" -> Ready(st,e.s) /\ e.a > 0 /\ x.r*e.a <= Cap(st,x) /\ (BiasCol(x) => e.a > 1)
    [] e.op \in {"deform_bs","deform_bs_bias"} -> Ready(st,e.s) /\ e.a > 0
           /\ (IF x.bir THEN x.r*e.a ELSE e.a*x.c) <= Cap(st,x)
    [] e.op = "deform_ss" -> Ready(st,e.s) /\ e.a > 0 /\ (IF x.bir THEN x.c*e.a ELSE e.a*x.r) <= Cap(st,x)
                             /\ (x.em => e.a > 1)
    [] e.op = "deform_ds" -> x.buf # 0 /\ e.a > 0 /\ e.b > 0 /\ e.a*e.b <= Cap(st,x) /\ (x.em => e.b > 1)
    [] e.op \in {"deform_like","deform_like_nb"} -> Ready(st,e.t) /\ e.s # e.t /\ x.buf # 0
           /\ (LET y == st.m[e.t]
                   r == IF e.op = "deform_like" THEN y.r ELSE RNB(y)
                   c == IF e.op = "deform_like" THEN y.c ELSE CNB(y)
               IN r*c <= Cap(st,x) /\ r > 0 /\ c > 0 /\ (x.em => IF y.bir THEN r > 1 ELSE c > 1))
    [] e.op = "hide_col" -> Ready(st,e.s) /\ x.c >= 2 /\ ~x.em
    [] e.op = "rest_col" -> Ready(st,e.s) /\ x.r*(x.c+1) <= Cap(st,x) /\ ~x.em
    [] e.op = "hide_n" -> Ready(st,e.s) /\ e.a >= 0 /\ x.c > e.a + B2N(x.em)
    [] e.op = "rest_n" -> Ready(st,e.s) /\ e.a >= 0 /\ x.r*(x.c+e.a+B2N(e.f)) <= Cap(st,x) /\ (e.f => ~x.em /\ ~x.bir)
    [] e.op = "hide_bias" -> Ready(st,e.s) /\ DefaultBias(x) /\ (x.em => x.c >= 2)
    [] e.op = "rest_bias" -> Ready(st,e.s) /\ ~x.em /\ ~x.bir /\ (e.f => x.r*(x.c+1) <= Cap(st,x))
    [] e.op = "transp" -> Ready(st,e.s)
    [] e.op = "eq" -> Ready(st,e.s) /\ Ready(st,e.t) /\ Known(st,x) /\ Known(st,st.m[e.t])
                     /\ (x.ho => x.em) /\ (st.m[e.t].ho => st.m[e.t].em)
                     /\ \A k \in 1..NE(x) : st.heap[x.buf][x.off+k] # NANV
    [] e.op \in {"is_bin","is_bin_strict"} -> Ready(st,e.s) /\ Known(st,x)
    [] e.op = "is_bin_strict_nb" -> Ready(st,e.s) /\ Known(st,x) /\ DefaultBias(x)
    [] e.op = "no_nans" -> Ready(st,e.s) /\ Known(st,x)
    [] e.op = "bias_ok" -> Ready(st,e.s) /\ x.em /\ Known(st,x)
    [] e.op \in {"f_ctor","f_ctor_sz","f_ctor_ds","f_use_int"} -> CanFree(st,e.s) /\ e.a > 0 /\ e.b > 0
    [] e.op \in {"f_resize","f_resize_sz","f_resize_ds","f_resize_b","f_resize_nb"} -> x.own /\ CanFree(st,e.s) /\ e.a > 0 /\ e.b > 0 /\ ~x.ho
           /\ (e.op \in {"f_resize_b","f_resize_nb"} => x.buf = 0 \/ x.r # e.a + B2N(BiasRow(x) /\ e.op = "f_resize_b") \/ x.c # e.b + B2N(BiasCol(x) /\ e.op = "f_resize_b"))
    [] e.op \in {"f_clone_to","f_clone_to_nb"} -> e.s # e.t /\ Ready(st,e.s) /\ st.m[e.t].own /\ CanFree(st,e.t) /\ SameOwnerNE(st,e.s,e.t)
           /\ (e.op = "f_clone_to_nb" => DefaultBias(x) /\ CNB(x) > 0)
           /\ (st.m[e.t].buf # 0 => st.m[e.t].r # x.r \/ st.m[e.t].c # (IF e.op = "f_clone_to" THEN x.c ELSE CNB(x)))
    [] e.op = "f_clone_from" -> e.s # e.t /\ Ready(st,e.t) /\ st.m[e.s].own /\ CanFree(st,e.s) /\ SameOwnerNE(st,e.s,e.t)
    [] OTHER -> FALSE

HasBiasCells(x) == x.em
Deformed(st,s,r,c) == SetM(st,s,[st.m[s] EXCEPT !.r = r, !.c = c])
CloneInto(st,src,d) ==    \* d becomes an owned copy of st.m[src] (flags included)
  LET x == st.m[src]
      q == Cells(st,x)
      s1 == Alloc(Release(st,d),d,NE(x))
      s2 == SetM(s1,d,[s1.m[d] EXCEPT !.r = x.r, !.c = x.c, !.em = x.em, !.ho = x.ho, !.bir = x.bir])
  IN PutSeq(s2,s2.m[d],q)
CopyInto(st,src,d) ==     \* same memory of d, contents and geometry of src
  LET x == st.m[src]
      q == Cells(st,x)
      s2 == SetM(st,d,[st.m[d] EXCEPT !.r = x.r, !.c = x.c, !.ho = x.ho, !.bir = x.bir])
  IN PutSeq(s2,s2.m[d],q)
CloneToOk(st,s,t) == LET x == st.m[s] y == st.m[t] IN y.own \/ (y.r = x.r /\ y.c = x.c)
CloneNbOk(st,s,t) == LET x == st.m[s] y == st.m[t] IN y.own \/ (y.r = x.r /\ y.c = CNB(x))
CopyOk(st,s,t) == LET x == st.m[s] y == st.m[t] IN NE(x) = NE(y) /\ x.em = y.em
SkipOk(st,s,t) == LET x == st.m[s] y == st.m[t] IN y.r = x.r /\ CNB(y) = CNB(x)
NbCells(st,x) == [k \in 1..(x.r*CNB(x)) |-> st.heap[x.buf][x.off+k]]
MoveTo(st,s,t) ==         \* s takes over everything t holds
  LET s1 == Release(st,s)
      x  == s1.m[t]
  IN [s1 EXCEPT !.m = [@ EXCEPT ![s] = x, ![t] = [@ EXCEPT !.buf = 0, !.off = 0, !.r = 0, !.c = 0]]]

FAIL == {"f_ctor","f_ctor_sz","f_ctor_ds","f_resize","f_resize_b","f_resize_sz","f_resize_ds","f_resize_nb","f_use_int","f_clone_to","f_clone_from","f_clone_to_nb"}
\* no memory for a matrix of that size: it is empty, knows that its allocation failed, and what it held is gone
Failed(st,s,r,c,em,bir) ==
  LET s1 == Release(st,s) IN
  SetM(s1,s,[NoMat EXCEPT !.r = r + B2N(em /\ bir), !.c = c + B2N(em /\ ~bir), !.em = em, !.bir = bir])

Step(st,e) ==
  LET x == st.m[e.s] IN
  CASE e.op = "reset" -> Init0
    [] e.op \in {"f_ctor","f_ctor_sz","f_use_int"} -> Failed(st,e.s,e.a,e.b,e.em,e.bir)
    [] e.op = "f_ctor_ds" -> Failed(st,e.s,IF e.bir THEN e.b ELSE e.a,IF e.bir THEN e.a ELSE e.b,e.em,e.bir)
    [] e.op \in {"f_resize","f_resize_b","f_resize_sz"} -> Failed(st,e.s,e.a,e.b,x.em,x.bir)
    [] e.op = "f_resize_ds" -> Failed(st,e.s,IF x.bir THEN e.b ELSE e.a,IF x.bir THEN e.a ELSE e.b,x.em,x.bir)
    [] e.op = "f_resize_nb" -> Failed(st,e.s,e.a,e.b,FALSE,x.bir)
    [] e.op \in {"f_clone_to","f_clone_to_nb"} -> SetM(Release(st,e.t),e.t,NoMat)     \* the driver gives up the destination
    [] e.op = "f_clone_from" -> SetM(Release(st,e.s),e.s,NoMat)
    [] e.op \in {"ctor","ctor_sz"} -> Fresh(st,e.s,e.a,e.b,e.em,e.bir)
    [] e.op = "ctor_ds" -> Fresh(st,e.s,IF e.bir THEN e.b ELSE e.a,IF e.bir THEN e.a ELSE e.b,e.em,e.bir)
    [] e.op = "ctor0" -> SetM(Release(st,e.s),e.s,NoMat)
    [] e.op \in {"resize","resize_b","resize_sz"} -> Fresh(st,e.s,e.a,e.b,x.em,x.bir)
    [] e.op \in {"resize_ds","resize_ds_b"} -> Fresh(st,e.s,IF x.bir THEN e.b ELSE e.a,IF x.bir THEN e.a ELSE e.b,x.em,x.bir)
    [] e.op = "resize_nb" -> Fresh(st,e.s,e.a,e.b,FALSE,x.bir)
    [] e.op \in {"resize_like","resize_like_b"} -> Fresh(st,e.s,RNB(st.m[e.t]),CNB(st.m[e.t]),x.em,x.bir)
    [] e.op = "resize_ne" ->
         LET s2 == Alloc(Release(st,e.s),e.s,e.a) IN
         SetM(s2,e.s,[s2.m[e.s] EXCEPT !.em = e.em, !.ho = e.ho, !.bir = e.bir])
    [] e.op = "clear" -> SetM(Release(st,e.s),e.s,[NoMat EXCEPT !.em = x.em])
    [] e.op = "use_int" ->
         IF e.a > 0 /\ e.b > 0 THEN Fresh(st,e.s,e.a,e.b,e.em,e.bir)
         ELSE SetM(Release(st,e.s),e.s,[NoMat EXCEPT !.em = e.em, !.bir = e.bir])
    [] e.op \in {"use_ext","ctor_ext"} -> View(st,e.s,e.t,0,e.a,e.b,e.em,e.ho,e.bir)
    [] e.op = "use_ext_ds" -> View(st,e.s,e.t,0,IF e.bir THEN e.b ELSE e.a,IF e.bir THEN e.a ELSE e.b,e.em,e.ho,e.bir)
    [] e.op = "use_ext_ds2" -> View(st,e.s,e.t,0,IF x.bir THEN e.b ELSE e.a,IF x.bir THEN e.a ELSE e.b,e.em,e.ho,x.bir)
    [] e.op \in {"use_ext_like"} -> LET y == st.m[e.t] IN View(st,e.s,e.xb,0,y.r,y.c,y.em,e.ho,y.bir)
    [] e.op \in {"ctor_ext_like"} -> LET y == st.m[e.t] IN View(st,e.s,e.xb,0,y.r,y.c,y.em,y.em /\ y.ho,y.bir)
    [] e.op = "use_ext_like_nb" -> LET y == st.m[e.t] IN View(st,e.s,e.xb,0,RNB(y),CNB(y),FALSE,FALSE,y.bir)
    [] e.op = "use_mat" -> LET y == st.m[e.t] IN View(st,e.s,y.buf,y.off,y.r,y.c,y.em,y.em /\ y.ho,y.bir)
    [] e.op = "use_mat_nb" -> LET y == st.m[e.t] IN View(st,e.s,y.buf,y.off,y.r,CNB(y),FALSE,FALSE,y.bir)
    [] e.op \in {"use_cols_nb","subm","subm_b"} -> LET y == st.m[e.t] IN
         View(st,e.s,y.buf,y.off + e.a*y.r,y.r,e.b,FALSE,FALSE,y.bir)
    [] e.op \in {"mctor","massign","massign_b"} -> MoveTo(st,e.s,e.t)
    [] e.op = "clone_to" ->
         IF ~CloneToOk(st,e.s,e.t) THEN st
         ELSE IF st.m[e.t].own THEN CloneInto(st,e.s,e.t)
         ELSE CopyInto(SetM(st,e.t,[st.m[e.t] EXCEPT !.em = x.em]),e.s,e.t)
    [] e.op = "clone_from" -> CloneInto(st,e.t,e.s)
    [] e.op = "clone_to_nb" ->
         IF ~CloneNbOk(st,e.s,e.t) THEN st
         ELSE LET s1 == IF st.m[e.t].own THEN Alloc(Release(st,e.t),e.t,x.r*CNB(x)) ELSE st
                  y  == [s1.m[e.t] EXCEPT !.r = x.r, !.c = CNB(x), !.em = FALSE, !.ho = FALSE, !.bir = x.bir]
                  s2 == SetM(s1,e.t,y)
              IN PutSeq(s2,y,NbCells(st,x))
    [] e.op = "copy_to" -> IF CopyOk(st,e.s,e.t) THEN CopyInto(st,e.s,e.t) ELSE st
    [] e.op = "copy_skip_bias" ->
         IF ~SkipOk(st,e.s,e.t) THEN st
         ELSE LET y == [st.m[e.t] EXCEPT !.bir = x.bir]
              IN PutSeq(SetM(st,e.t,y),y,NbCells(st,x))
    [] e.op = "set" -> Poke(st,x,LAMBDA i,j,o : IF i = e.a /\ j = e.b THEN e.val ELSE o)
    [] e.op = "fill" -> Poke(st,x,LAMBDA i,j,o : e.val)
    [] e.op = "ones" -> SetM(Poke(st,x,LAMBDA i,j,o : 1),e.s,[x EXCEPT !.ho = FALSE])
    [] e.op = "nans" -> SetM(Poke(st,x,LAMBDA i,j,o : NANV),e.s,[x EXCEPT !.ho = FALSE])
    [] e.op = "nans_nb" -> Poke(st,x,LAMBDA i,j,o : IF IsBiasCell(x,i,j) THEN o ELSE NANV)
    [] e.op = "zeros" -> Poke(st,x,LAMBDA i,j,o : IF IsBiasCell(x,i,j) THEN (IF x.bir THEN 1 ELSE o) ELSE 0)
    [] e.op = "fill_col" -> Poke(st,x,LAMBDA i,j,o : IF j = e.a THEN e.val ELSE o)
    [] e.op = "fill_row" -> Poke(st,x,LAMBDA i,j,o : IF i = e.a THEN e.val ELSE o)
    [] e.op = "set_biases" -> SetBiases(st,e.s)
    [] e.op = "holey" -> SetM(st,e.s,[x EXCEPT !.ho = e.ho])
    [] e.op = "set_bir" -> SetM(st,e.s,[x EXCEPT !.bir = e.bir])
    [] e.op = "emul" -> SetM(st,e.s,[x EXCEPT !.em = e.em])
    [] e.op = "from_arr" -> PutSeq(st,x,e.v)
    [] e.op = "biases_arr" ->
         SetM(Poke(st,x,LAMBDA i,j,o : IF j = x.c-1 THEN e.v[i+1] ELSE o),e.s,
              [x EXCEPT !.ho = \E i \in 1..x.r : e.v[i] = 0])
    [] e.op = "biases_mat" ->
         LET y == st.m[e.t] IN
         SetM(Poke(st,x,LAMBDA i,j,o : IF j = x.c-1 THEN (IF y.ho THEN Cell(st,y,i,y.c-1) ELSE 1) ELSE o),
              e.s,[x EXCEPT !.ho = y.ho])
    [] e.op = "deform" -> Deformed(st,e.s,e.a,e.b)
    [] e.op = "deform_rows" -> Deformed(st,e.s,e.a,x.c)
    [] e.op = "deform_cols" -> Deformed(st,e.s,x.r,e.a)
    [] e.op = "deform_bs" -> IF x.bir THEN Deformed(st,e.s,x.r,e.a) ELSE Deformed(st,e.s,e.a,x.c)
    [] e.op = "deform_bs_bias" ->
         LET s1 == IF x.bir THEN Deformed(st,e.s,x.r,e.a) ELSE Deformed(st,e.s,e.a,x.c)
         IN IF BS(x) = e.a THEN st ELSE SetBiases(s1,e.s)
    [] e.op = "deform_ss" -> IF x.bir THEN Deformed(st,e.s,e.a,x.c) ELSE Deformed(st,e.s,x.r,e.a)
    [] e.op = "deform_ds" ->
         LET r == IF x.bir THEN e.b ELSE e.a
             c == IF x.bir THEN e.a ELSE e.b
         IN IF r = x.r /\ c = x.c THEN st ELSE SetBiases(Deformed(st,e.s,r,c),e.s)
    [] e.op = "deform_like" -> LET y == st.m[e.t] IN SetM(st,e.s,[x EXCEPT !.r = y.r, !.c = y.c, !.bir = y.bir])
    [] e.op = "deform_like_nb" -> LET y == st.m[e.t] IN SetM(st,e.s,[x EXCEPT !.r = RNB(y), !.c = CNB(y), !.bir = y.bir])
    [] e.op = "hide_col" -> Deformed(st,e.s,x.r,x.c-1)
    [] e.op = "rest_col" -> Deformed(st,e.s,x.r,x.c+1)
    [] e.op = "hide_n" -> SetM(st,e.s,[x EXCEPT !.c = x.c - e.a - B2N(BiasCol(x)), !.em = IF BiasCol(x) THEN FALSE ELSE x.em])
    [] e.op = "rest_n" -> SetM(st,e.s,[x EXCEPT !.c = x.c + e.a + B2N(e.f), !.em = IF e.f THEN TRUE ELSE x.em])
    [] e.op = "hide_bias" -> IF x.em THEN SetM(st,e.s,[x EXCEPT !.c = x.c-1, !.em = FALSE]) ELSE st
    [] e.op = "rest_bias" -> IF e.f THEN SetM(st,e.s,[x EXCEPT !.c = x.c+1, !.em = TRUE]) ELSE st
    [] e.op = "transp" -> SetM(st,e.s,[x EXCEPT !.r = x.c, !.c = x.r, !.bir = ~x.bir])
    [] OTHER -> st        \* queries

\* value returned by an operation, as an integer (0/1 for booleans); -1 = nothing is returned
Ret(st,e) ==
  LET x == st.m[e.s]
      q == Cells(st,x)
      bin(v) == v \in {0,1}
  IN
  CASE e.op \in {"resize","resize_b","resize_sz","resize_ds","resize_ds_b","resize_nb","resize_like","resize_like_b","resize_ne","use_int","clone_from"} -> 1
    [] e.op \in FAIL \ {"f_ctor","f_ctor_sz","f_ctor_ds"} -> 0
    [] e.op = "clone_to" -> B2N(CloneToOk(st,e.s,e.t))
    [] e.op = "clone_to_nb" -> B2N(CloneNbOk(st,e.s,e.t))
    [] e.op = "copy_to" -> B2N(CopyOk(st,e.s,e.t))
    [] e.op = "copy_skip_bias" -> B2N(SkipOk(st,e.s,e.t))
    [] e.op = "deform_rows" -> x.r
    [] e.op = "deform_cols" -> x.c
    [] e.op = "deform_bs" -> BS(x)
    [] e.op = "deform_ss" -> IF x.bir THEN x.r ELSE x.c
    [] e.op = "hide_n" -> B2N(BiasCol(x))
    [] e.op = "hide_bias" -> B2N(x.em)
    [] e.op = "eq" -> LET y == st.m[e.t] IN
         B2N(x.em = y.em /\ x.bir = y.bir /\ x.r = y.r /\ x.c = y.c /\ x.ho = y.ho /\ q = Cells(st,y))
    [] e.op \in {"is_bin","is_bin_strict"} -> B2N(\A k \in 1..Len(q) : bin(q[k]))
    [] e.op = "is_bin_strict_nb" -> B2N(\A k \in 1..(RNB(x)*CNB(x)) : bin(q[k]))
    [] e.op = "no_nans" -> B2N(\A k \in 1..Len(q) : q[k] # NANV)
    [] e.op = "bias_ok" -> B2N(\A i \in 0..(x.r-1), j \in 0..(x.c-1) :
          IsBiasCell(x,i,j) => IF x.ho THEN bin(Cell(st,x,i,j)) ELSE Cell(st,x,i,j) = 1)
    [] OTHER -> -1

----------------------------------------------------------------------------
\* invariants
TypeOK(st) == \A s \in Slots : LET x == st.m[s] IN
  /\ x.buf \in DOMAIN st.heap \cup {0}
  /\ (x.buf = 0 => (x.r = 0 <=> x.c = 0))
  /\ (x.buf # 0 => NE(x) <= Cap(st,x))                         \* never addresses beyond its memory
NoLeak(st) == \A b \in DOMAIN st.heap : b \in OwnIds =>
  Cardinality({s \in Slots : st.m[s].own /\ st.m[s].buf = b}) = 1    \* exactly one owner: no leak, no double free
UserMemoryKept(st) == \A b \in ExtIds : b \in DOMAIN st.heap /\ \A s \in Slots : st.m[s].buf = b => ~st.m[s].own
=============================================================================
