----------------------------- MODULE MatrixGen ------------------------------
(* Exhaustive exploration (MC*.cfg) and behaviour generation (Gen*.cfg).     *)
EXTENDS Matrix, Json, TLCExt
CONSTANTS OPS,          \* operation names this model explores
          DIMS, VALS,   \* candidate sizes / values
          RANDOM,       \* TRUE: one random candidate per operation (simulation)
          MAXLEN        \* length of generated behaviours
VARIABLES st, hist
vars == <<st,hist>>

PickR(S) == IF RANDOM THEN {RandomElement(1..3) = 1} ELSE S    \* batch-in-row is the rarer layout
Pick(S) == IF RANDOM THEN {RandomElement(S)} ELSE S
Init == st = Init0 /\ hist = <<>>
E(op,s,t,a,b,em,ho,bir,f,val,xb,v) ==
  [op |-> op, s |-> s, t |-> t, a |-> a, b |-> b, em |-> em, ho |-> ho, bir |-> bir, f |-> f,
   val |-> val, xb |-> xb, v |-> v]
Fire(e) == /\ Pre(st,e)
           /\ st' = Step(st,e)
           /\ hist' = IF RANDOM THEN Append(hist,e) ELSE <<e>>

SZ   == {"ctor","ctor_sz","ctor_ds","use_int","f_ctor","f_ctor_sz","f_ctor_ds","f_use_int"}
RSZ  == {"resize","resize_b","resize_sz","resize_ds","resize_ds_b","resize_nb","deform","deform_ds","f_resize","f_resize_b","f_resize_sz","f_resize_ds","f_resize_nb"}
EXTO == {"use_ext","ctor_ext","use_ext_ds","use_ext_ds2"}
LIKE == {"resize_like","resize_like_b","use_mat","use_mat_nb","mctor","massign","massign_b","clone_to","clone_from",
         "clone_to_nb","copy_to","copy_skip_bias","biases_mat","deform_like","deform_like_nb","eq","f_clone_to","f_clone_from","f_clone_to_nb"}
XLIKE == {"use_ext_like","ctor_ext_like","use_ext_like_nb"}
SUBM == {"use_cols_nb","subm","subm_b"}
ONE  == {"ctor0","clear","ones","nans","nans_nb","zeros","set_biases","hide_col","rest_col","hide_bias","transp",
         "is_bin","is_bin_strict","is_bin_strict_nb","no_nans","bias_ok"}
DEF1 == {"deform_rows","deform_cols","deform_bs","deform_bs_bias","deform_ss"}
Z == <<>>
Op(S) == S \cap OPS
BB == BOOLEAN

Next ==
  \/ SZ \cap OPS # {} /\ \E op \in Op(SZ), s \in Pick(Slots), a \in Pick(DIMS), b \in Pick(DIMS), em \in Pick(BB), bir \in PickR(BB) :
        /\ (a+1)*(b+1) <= MAXCELLS
        /\ Fire(E(op,s,s,IF op="use_int" /\ a=1 THEN 0 ELSE a,b,em,FALSE,bir,FALSE,0,0,Z))
  \/ RSZ \cap OPS # {} /\ \E op \in Op(RSZ), s \in Pick(Slots), a \in Pick(DIMS), b \in Pick(DIMS) :
        /\ (a+1)*(b+1) <= MAXCELLS /\ Fire(E(op,s,s,a,b,FALSE,FALSE,FALSE,FALSE,0,0,Z))
  \/ "resize_ne" \in OPS /\ \E s \in Pick(Slots), a \in Pick(DIMS), em \in Pick(BB), bir \in PickR(BB) :
        Fire(E("resize_ne",s,s,a*a+2,0,em,FALSE,bir,FALSE,0,0,Z))
  \/ EXTO \cap OPS # {} /\ \E op \in Op(EXTO), s \in Pick(Slots), t \in Pick(ExtIds), a \in Pick(DIMS), b \in Pick(DIMS),
        em \in Pick(BB), ho \in Pick(BB), bir \in PickR(BB) :
        /\ (ho => em)
        /\ (em => IF op = "use_ext_ds" \/ op = "use_ext_ds2" THEN b > 1 ELSE IF bir THEN a > 1 ELSE b > 1)
        /\ Fire(E(op,s,t,a,b,em,ho,bir,FALSE,0,0,Z))
  \/ LIKE \cap OPS # {} /\ \E op \in Op(LIKE), s \in Slots, t \in Slots :
        Fire(E(op,s,t,0,0,FALSE,FALSE,FALSE,FALSE,0,0,Z))
  \/ XLIKE \cap OPS # {} /\ \E op \in Op(XLIKE), s \in Pick(Slots), t \in Pick(Slots), xb \in Pick(ExtIds), ho \in Pick(BB) :
        /\ ~(\E q \in Slots : q = t /\ st.m[q].buf = xb)
        /\ Fire(E(op,s,t,0,0,FALSE,ho /\ op="use_ext_like" /\ st.m[t].em,FALSE,FALSE,0,xb,Z))
  \/ SUBM \cap OPS # {} /\ \E op \in Op(SUBM), s \in Pick(Slots), t \in Pick(Slots), a \in Pick({0} \cup DIMS), b \in Pick(DIMS) :
        Fire(E(op,s,t,a,b,FALSE,FALSE,FALSE,FALSE,0,0,Z))
  \/ ONE \cap OPS # {} /\ \E op \in Op(ONE), s \in Pick(Slots) :
        Fire(E(op,s,s,0,0,FALSE,FALSE,FALSE,FALSE,0,0,Z))
  \/ DEF1 \cap OPS # {} /\ \E op \in Op(DEF1), s \in Pick(Slots), a \in Pick(DIMS) :
        Fire(E(op,s,s,a,0,FALSE,FALSE,FALSE,FALSE,0,0,Z))
  \/ "set" \in OPS /\ \E s \in Pick(Slots) : Ready(st,s) /\ \E a \in Pick(0..(st.m[s].r-1)), b \in Pick(0..(st.m[s].c-1)), v \in Pick(VALS) :
        Fire(E("set",s,s,a,b,FALSE,FALSE,FALSE,FALSE,v,0,Z))
  \/ "fill" \in OPS /\ \E s \in Pick(Slots), v \in Pick(VALS) : Fire(E("fill",s,s,0,0,FALSE,FALSE,FALSE,FALSE,v,0,Z))
  \/ {"fill_col","fill_row"} \cap OPS # {} /\ \E op \in Op({"fill_col","fill_row"}), s \in Pick(Slots), a \in Pick({0} \cup DIMS), v \in Pick(VALS) :
        Fire(E(op,s,s,a,0,FALSE,FALSE,FALSE,FALSE,v,0,Z))
  \/ "holey" \in OPS /\ \E s \in Pick(Slots), ho \in Pick(BB) : Fire(E("holey",s,s,0,0,FALSE,ho,FALSE,FALSE,0,0,Z))
  \/ {"set_bir","emul"} \cap OPS # {} /\ \E op \in Op({"set_bir","emul"}), s \in Pick(Slots), b \in Pick(BB) :
        Fire(E(op,s,s,0,0,b,FALSE,b,FALSE,0,0,Z))
  \/ "from_arr" \in OPS /\ \E s \in Pick(Slots) : Ready(st,s) /\ \E f \in Pick(BB),
        v \in IF RANDOM THEN {[k \in 1..(RNB(st.m[s])*CNB(st.m[s])) |-> RandomElement(VALS)]}
              ELSE [1..(RNB(st.m[s])*CNB(st.m[s])) -> VALS] :
        Fire(E("from_arr",s,s,0,0,FALSE,FALSE,FALSE,f,0,0,v))
  \/ "biases_arr" \in OPS /\ \E s \in Pick(Slots) : Ready(st,s) /\ \E
        v \in IF RANDOM THEN {[k \in 1..st.m[s].r |-> RandomElement({0,1})]} ELSE [1..st.m[s].r -> {0,1}] :
        Fire(E("biases_arr",s,s,0,0,FALSE,FALSE,FALSE,FALSE,0,0,v))
  \/ "hide_n" \in OPS /\ \E s \in Pick(Slots), a \in Pick({0} \cup DIMS) : Fire(E("hide_n",s,s,a,0,FALSE,FALSE,FALSE,FALSE,0,0,Z))
  \/ "rest_n" \in OPS /\ \E s \in Pick(Slots), a \in Pick({0} \cup DIMS), f \in Pick(BB) : Fire(E("rest_n",s,s,a,0,FALSE,FALSE,FALSE,f,0,0,Z))
  \/ "rest_bias" \in OPS /\ \E s \in Pick(Slots), f \in Pick(BB) : Fire(E("rest_bias",s,s,0,0,FALSE,FALSE,FALSE,f,0,0,Z))

Spec == Init /\ [][Next]_vars

InvType == TypeOK(st)
InvNoLeak == NoLeak(st)
InvUserMem == UserMemoryKept(st)
\* bias guarantee: as long as only bias-respecting operations are used, the bias
\* cells of a matrix whose biases are not declared holey are all ones, and holey ones are 0/1
InvBias == \A s \in Slots : LET x == st.m[s] IN
   (x.buf # 0 /\ x.em /\ x.own) =>
      \A i \in 0..(x.r-1), j \in 0..(x.c-1) : IsBiasCell(x,i,j) =>
          IF x.ho THEN Cell(st,x,i,j) \in {0,1} ELSE Cell(st,x,i,j) = 1
\* hiding is reversible: after hide_bias / hide_n, the matching restore gives the same matrix back
InvHide == \A s \in Slots : Ready(st,s) =>
   LET x == st.m[s]
       e(op,a,f) == E(op,s,s,a,0,FALSE,FALSE,FALSE,f,0,0,Z)
   IN /\ (Pre(st,e("hide_bias",0,FALSE)) => LET s1 == Step(st,e("hide_bias",0,FALSE)) IN Step(s1,e("rest_bias",0,x.em)) = st)
      /\ \A a \in 0..2 : Pre(st,e("hide_n",a,FALSE)) =>
           LET s1 == Step(st,e("hide_n",a,FALSE)) IN Step(s1,e("rest_n",a,BiasCol(x))) = st
      /\ (LET s1 == Step(st,e("transp",0,FALSE)) IN Step(s1,e("transp",0,FALSE)) = st)
View1 == st
Emit == (TLCGet("level") < MAXLEN) \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
