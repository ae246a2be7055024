-------------------------------- MODULE Ser --------------------------------
(* Saving a network into a named archive and restoring it.                  *)
(* A network is a tree of layers; every layer stores its variables in a     *)
(* structure named after it, inside the structures of the packs around it.  *)
(* Contents are interned: equal contents have equal numbers, 0 is "nothing  *)
(* there yet", -1 is "some contents this specification does not predict".   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Archs == 0..4
\* what is passed when a network is saved or restored, in this order: a structure opens, weights, dropout, limits of the output derivative, number of tiles
Steps(a) ==
  CASE a = 0 -> << <<"st","data_0">>, <<"st","first_1">>, <<"w",1,"first_1">>, <<"st","lex_2">>, <<"w",2,"lex_2">>, <<"dp",1,"lex_2">>, <<"st","res_3">>, <<"w",3,"res_3">>, <<"cl",0,"res_3">> >>
    [] a = 1 -> << <<"st","inp_0">>, <<"st","side_1">>, <<"st","side_1/same_2">>, <<"w",1,"side_1/same_2">>, <<"dp",1,"side_1/same_2">>, <<"st","side_1/same_3">>, <<"st","outp_4">>, <<"w",2,"outp_4">>, <<"cl",0,"outp_4">> >>
    [] a = 2 -> << <<"st","inp_0">>, <<"st","stack_1">>, <<"st","stack_1/tiles_2">>, <<"tl",0,"stack_1/tiles_2">>, <<"st","stack_1/tiles_2/w_3">>, <<"w",1,"stack_1/tiles_2/w_3">>, <<"st","stack_1/lex_4">>, <<"w",2,"stack_1/lex_4">>, <<"dp",1,"stack_1/lex_4">>,
                   <<"st","outp_5">>, <<"w",3,"outp_5">>, <<"cl",0,"outp_5">> >>
    [] a = 3 -> << <<"st","inp_0">>, <<"st","fcl_1">>, <<"w",1,"fcl_1">>, <<"st","opt_2">>, <<"st","opt_2/gate_3">>, <<"st","opt_2/fcl_4">>, <<"w",2,"opt_2/fcl_4">>, <<"st","opt_2/fcl_5">>, <<"w",3,"opt_2/fcl_5">>, <<"st","last_6">>, <<"w",4,"last_6">>, <<"cl",0,"last_6">> >>
    [] OTHER -> << <<"st","inp_0">>, <<"st","al_1">>, <<"w",1,"al_1">>, <<"dp",1,"al_1">>, <<"st","hd_2">>, <<"st","hd_2/lpv_3">>, <<"st","hd_2/lpv_3/lex_4">>, <<"w",2,"hd_2/lpv_3/lex_4">>, <<"dp",2,"hd_2/lpv_3/lex_4">>, <<"st","hd_2/lpv_3/fcl_5">>, <<"w",3,"hd_2/lpv_3/fcl_5">>,
                   <<"st","hd_2/fcl_6">>, <<"w",4,"hd_2/fcl_6">>, <<"dp",3,"hd_2">>, <<"st","outp_7">>, <<"w",5,"outp_7">>, <<"cl",0,"outp_7">> >>
Paths(a) == {Steps(a)[i][2] : i \in {j \in 1..Len(Steps(a)) : Steps(a)[j][1] = "st"}}
StepsOf(a,t) == SelectSeq(Steps(a), LAMBDA s : s[1] = t)
NL(a) == Len(StepsOf(a,"w"))
ND(a) == Len(StepsOf(a,"dp"))
\* which layers have activations of their own (in the order they are reported); the first is the input
ActPaths(a) ==
  CASE a = 0 -> <<"data_0","first_1","lex_2","res_3">> [] a = 1 -> <<"inp_0","side_1/same_2","side_1/same_3","outp_4">>
    [] a = 2 -> <<"inp_0","stack_1/tiles_2","stack_1/tiles_2/w_3","stack_1/lex_4","outp_5">>
    [] a = 3 -> <<"inp_0","fcl_1","opt_2/gate_3","opt_2/fcl_4","opt_2/fcl_5","last_6">>
    [] OTHER -> <<"inp_0","al_1","hd_2/lpv_3/lex_4","hd_2/lpv_3/fcl_5","hd_2/fcl_6","outp_7">>
IsAlpha(a,d) == (a = 2) \/ (a = 4 /\ d = 1)
\* sizes of the weights: neurons by incoming neurons and the bias
Dims(a,k) ==
  CASE a = 0 -> << <<4+k,6>>, <<3,5+k>>, <<2,4>> >>
    [] a = 1 -> << <<4+k,4>>, <<2,7+k>> >>
    [] a = 2 -> << <<2,6 \div (2+k) + 1>>, <<3,2*(2+k)+1>>, <<2,4>> >>
    [] a = 3 -> << <<6,5>>, <<2+k,3>>, <<3,3>>, <<2,8+k>> >>
    [] OTHER -> << <<4,4>>, <<2+k,3>>, <<3,3+k>>, <<2,3>>, <<2,6>> >>
(* a network: n = [arch, k, w: contents of the weights, dp: dropout         *)
(* probabilities, cl: <<limited?, low, high>>, tl: tiles,                   *)
(* hp: settings of the gradient of every layer, cfg, ini, tr]               *)
(* options o = <<weights, activations, data, training parameters, gradient, *)
(* gradient state, dropout mask, gating mask>>                              *)
On(o,i) == o[i] = 1
(* -------------------- what an archive holds after saving ---------------- *)
Slot(n,o) == [arch |-> n.arch, k |-> n.k, o |-> o, w |-> IF On(o,1) THEN n.w ELSE [i \in 1..NL(n.arch) |-> 0], dim |-> Dims(n.arch,n.k), dp |-> n.dp, cl |-> n.cl, tl |-> n.tl]
OptMats(type) == CASE type = 0 -> 0 [] type \in {1,3} -> 1 [] OTHER -> 2
\* state kept for the gradient of layer l: of the optimizer, of momentum, of individual learning rates
GradMats(n,l) == LET c == n.cfg IN OptMats((c[1] + l - 1) % 8) + c[2] + (IF c[3] = 1 THEN 1 + (IF c[2] = 1 /\ c[4] = 1 THEN 0 ELSE 1) ELSE 0)
LAt(a,p) == LET s == {i \in 1..Len(Steps(a)) : Steps(a)[i][1] = "w" /\ Steps(a)[i][3] = p} IN IF s = {} THEN 0 ELSE Steps(a)[CHOOSE i \in s : TRUE][2]
DAt(a,p) == LET s == {i \in 1..Len(Steps(a)) : Steps(a)[i][1] = "dp" /\ Steps(a)[i][3] = p} IN IF s = {} THEN 0 ELSE Steps(a)[CHOOSE i \in s : TRUE][2]
Has(a,t,p) == \E i \in 1..Len(Steps(a)) : Steps(a)[i][1] = t /\ Steps(a)[i][3] = p
AAt(a,p) == LET s == {i \in 1..Len(ActPaths(a)) : ActPaths(a)[i] = p} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
Opt(c,x) == IF c THEN x ELSE <<>>
\* matrices under path p whose contents are known, and how many others
KnownMats(n,o,ac,p) == LET l == LAt(n.arch,p)  j == AAt(n.arch,p) IN
   Opt(j = 1 /\ On(o,3), IF j = 1 THEN <<ac[1]>> ELSE <<>>) \o Opt(j > 1 /\ On(o,2), IF j > 1 THEN <<ac[j]>> ELSE <<>>) \o Opt(l > 0 /\ On(o,1), IF l > 0 THEN <<n.w[l]>> ELSE <<>>)
OtherMats(n,o,p,one) == LET l == LAt(n.arch,p)  d == DAt(n.arch,p) IN
   (IF Has(n.arch,"tl",p) /\ On(o,3) THEN 1 ELSE 0) + (IF l > 0 /\ On(o,5) /\ On(o,6) THEN GradMats(n,l) ELSE 0) + (IF d > 0 /\ On(o,7) THEN (IF n.dp[d] # one THEN 2 ELSE 0) ELSE 0)
Scalars(n,o,p) == LET l == LAt(n.arch,p)  d == DAt(n.arch,p) IN
   Opt(Has(n.arch,"tl",p), <<n.tl>>) \o (IF l > 0 /\ On(o,4) /\ On(o,5) THEN n.hp[l] ELSE <<>>) \o (IF d > 0 /\ On(o,4) THEN <<n.dp[d]>> ELSE <<>>) \o (IF Has(n.arch,"cl",p) /\ On(o,4) THEN n.cl ELSE <<>>)
AlphaScalars(n,o,p,one) == LET d == DAt(n.arch,p) IN IF d = 0 \/ ~On(o,4) THEN 0 ELSE IF IsAlpha(n.arch,d) /\ n.dp[d] # one THEN 2 ELSE 0
Cnt(s,v) == Cardinality({i \in 1..Len(s) : s[i] = v})
Within(s,t) == \A i \in 1..Len(s) : Cnt(s,s[i]) <= Cnt(t,s[i])
SaveOK(n,o,e,one) ==
  /\ e.ok = 1 /\ e.dup = 0
  /\ {e.st[i] : i \in 1..Len(e.st)} = Paths(n.arch)
  /\ \A i \in 1..Len(e.es) : e.es[i].p \in Paths(n.arch)
  /\ \A p \in Paths(n.arch) :
       LET es == SelectSeq(e.es, LAMBDA x : x.p = p)  ms == SelectSeq(es, LAMBDA x : x.m = 1)  ss == SelectSeq(es, LAMBDA x : x.m = 0)  l == LAt(n.arch,p)
           mi == [i \in 1..Len(ms) |-> ms[i].v]  si == [i \in 1..Len(ss) |-> ss[i].v]  km == KnownMats(n,o,e.ac,p)  sc == Scalars(n,o,p) IN
       /\ Len(mi) = Len(km) + OtherMats(n,o,p,one) /\ Within(km,mi)
       /\ Within(sc,si)
       /\ ~(l > 0 /\ On(o,4) /\ On(o,5)) => Len(si) = Len(sc) + AlphaScalars(n,o,p,one)
       /\ \A i \in 1..Len(ms) : ms[i].v # 0 /\ (l > 0 => (ms[i].v = n.w[l] => <<ms[i].r,ms[i].c>> = Dims(n.arch,n.k)[l]))
       \* what is kept about the gradient of a layer is as large as its weights, and every piece is something else (behind a closed gate it may all be zeros)
       /\ (n.arch # 3 /\ l > 0 /\ On(o,5) /\ On(o,6)) => LET g == {ms[i].v : i \in {j \in 1..Len(ms) : <<ms[j].r,ms[j].c>> = Dims(n.arch,n.k)[l]}} IN Cardinality(g \ {n.w[l]}) >= GradMats(n,l)
(* ------------------------------ restoring ------------------------------- *)
\* one step of restoring; s = [n, ok]; the first step that cannot be done ends it, and what it would have changed stays
Step(s,x,o,sl) == IF ~s.ok THEN s ELSE
  CASE x[1] = "st" -> [s EXCEPT !.ok = x[2] \in Paths(sl.arch)]
    [] x[1] = "w" -> IF ~On(o,1) THEN s ELSE IF sl.w[x[2]] # 0 /\ sl.dim[x[2]] = Dims(s.n.arch,s.n.k)[x[2]] THEN [s EXCEPT !.n.w[x[2]] = sl.w[x[2]]] ELSE [s EXCEPT !.ok = FALSE]
    [] x[1] = "dp" -> IF ~On(o,4) THEN s ELSE IF On(sl.o,4) THEN [s EXCEPT !.n.dp[x[2]] = sl.dp[x[2]]] ELSE [s EXCEPT !.ok = FALSE]
    [] x[1] = "cl" -> IF ~On(o,4) THEN s ELSE IF On(sl.o,4) THEN [s EXCEPT !.n.cl = sl.cl] ELSE [s EXCEPT !.ok = FALSE]
    [] x[1] = "tl" -> [s EXCEPT !.ok = sl.tl = s.n.tl]
RECURSIVE Run(_,_,_,_)
Run(s,xs,o,sl) == IF xs = <<>> THEN s ELSE Run(Step(s,Head(xs),o,sl), Tail(xs), o, sl)
Load(n,o,sl) == Run([n |-> n, ok |-> TRUE], Steps(n.arch), o, sl)
\* damage to the stored weights of layer l: 0 they are gone, 1 rows and columns exchanged, 2 one column more, 3 one row less, 4 a number instead of a matrix, 5 an empty matrix
Harm(sl,l,kind) == LET d == sl.dim[l] IN
  CASE kind \in {0,4,5} \/ (kind = 3 /\ d[1] = 1) -> [sl EXCEPT !.w[l] = 0]
    [] kind = 1 -> IF d[1] = d[2] THEN sl ELSE [sl EXCEPT !.dim[l] = <<d[2],d[1]>>, !.w[l] = -1]
    [] kind = 2 -> [sl EXCEPT !.dim[l] = <<d[1],d[2]+1>>, !.w[l] = -1]
    [] OTHER -> [sl EXCEPT !.dim[l] = <<d[1]-1,d[2]>>, !.w[l] = -1]
Match(w,obs) == Len(w) = Len(obs) /\ \A i \in 1..Len(w) : w[i] = obs[i] \/ (w[i] = -1 /\ obs[i] # 0)
=============================================================================
