------------------------------- MODULE Pool ---------------------------------
(* The fork/join pool's protocol at the granularity of its synchronisation
   operations: one mutex, two condition variables, an atomic counter and an
   atomic stop flag. Explored exhaustively (safety, deadlock freedom,
   termination) and used to generate schedules for the real pool.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,          \* worker threads (the caller is thread 0)
          JOBS,       \* jobs issued before destruction
          LOCKEDSTOP, \* destructor raises the stop flag under the mutex
          KEEP, MAXLEN
W == 1..N
VARIABLES mtx, cvw, cvm, rng, wc, stop, pcM, pcW, ran, jobs, hist
vars == <<mtx,cvw,cvm,rng,wc,stop,pcM,pcW,ran,jobs,hist>>
H(p) == hist' = IF KEEP THEN Append(hist,p) ELSE hist
Init == /\ mtx = -1 /\ cvw = {} /\ cvm = FALSE /\ rng = [w \in W |-> 0] /\ wc = 0 /\ stop = FALSE
        /\ pcM = "idle" /\ pcW = [w \in W |-> "lock"] /\ ran = [w \in W |-> 0] /\ jobs = 0 /\ hist = <<>>
Part == {i \in W : rng[i] = 1}
\* ---- caller
MLock == pcM = "idle" /\ jobs < JOBS /\ mtx = -1 /\ mtx' = 0 /\ pcM' = "pub" /\ H(0) /\ UNCHANGED <<cvw,cvm,rng,wc,stop,pcW,ran,jobs>>
MPub == /\ pcM = "pub" /\ \E n \in 1..N : rng' = [w \in W |-> IF w <= n THEN 1 ELSE 0] /\ wc' = n
        /\ ran' = [w \in W |-> 0] /\ cvw' = {} /\ pcM' = "unl" /\ H(0) /\ UNCHANGED <<mtx,cvm,stop,pcW,jobs>>
MUnl == pcM = "unl" /\ mtx' = -1 /\ pcM' = "own" /\ H(0) /\ UNCHANGED <<cvw,cvm,rng,wc,stop,pcW,ran,jobs>>
MOwn == pcM = "own" /\ pcM' = "chk" /\ H(0) /\ UNCHANGED <<mtx,cvw,cvm,rng,wc,stop,pcW,ran,jobs>>
MChk == pcM = "chk" /\ pcM' = (IF wc > 0 THEN "lk2" ELSE "ret") /\ H(0) /\ UNCHANGED <<mtx,cvw,cvm,rng,wc,stop,pcW,ran,jobs>>
MLk2 == pcM = "lk2" /\ mtx = -1 /\ mtx' = 0 /\ pcM' = "tst" /\ H(0) /\ UNCHANGED <<cvw,cvm,rng,wc,stop,pcW,ran,jobs>>
MTst == /\ pcM = "tst" /\ H(0)
        /\ IF wc > 0 THEN pcM' = "slp" /\ cvm' = TRUE ELSE pcM' = "ret" /\ UNCHANGED cvm
        /\ mtx' = -1 /\ UNCHANGED <<cvw,rng,wc,stop,pcW,ran,jobs>>
MSlp == pcM = "slp" /\ ~cvm /\ pcM' = "lk2" /\ H(0) /\ UNCHANGED <<mtx,cvw,cvm,rng,wc,stop,pcW,ran,jobs>>
MRet == pcM = "ret" /\ pcM' = "idle" /\ jobs' = jobs + 1 /\ H(0) /\ UNCHANGED <<mtx,cvw,cvm,rng,wc,stop,pcW,ran>>
DLock == /\ pcM = "idle" /\ jobs = JOBS /\ H(0)
         /\ IF LOCKEDSTOP THEN mtx = -1 /\ mtx' = 0 ELSE UNCHANGED mtx
         /\ stop' = TRUE /\ pcM' = "dno" /\ UNCHANGED <<cvw,cvm,rng,wc,pcW,ran,jobs>>
DNot == /\ pcM = "dno" /\ cvw' = {} /\ (IF LOCKEDSTOP THEN mtx' = -1 ELSE UNCHANGED mtx) /\ pcM' = "join" /\ H(0)
        /\ UNCHANGED <<cvm,rng,wc,stop,pcW,ran,jobs>>
DJoin == pcM = "join" /\ (\A w \in W : pcW[w] = "end") /\ pcM' = "end" /\ H(0) /\ UNCHANGED <<mtx,cvw,cvm,rng,wc,stop,pcW,ran,jobs>>
\* ---- worker w
WLock(w) == pcW[w] = "lock" /\ mtx = -1 /\ mtx' = w /\ pcW' = [pcW EXCEPT ![w] = "tst"] /\ H(w) /\ UNCHANGED <<cvw,cvm,rng,wc,stop,pcM,ran,jobs>>
WTst(w) == /\ pcW[w] = "tst" /\ H(w)
           /\ IF stop \/ rng[w] = 1 THEN pcW' = [pcW EXCEPT ![w] = "act"] /\ mtx' = -1
                                     ELSE pcW' = [pcW EXCEPT ![w] = "ent"] /\ UNCHANGED mtx
           /\ UNCHANGED <<cvw,cvm,rng,wc,stop,pcM,ran,jobs>>
WEnt(w) == pcW[w] = "ent" /\ cvw' = cvw \cup {w} /\ mtx' = -1 /\ pcW' = [pcW EXCEPT ![w] = "slp"] /\ H(w) /\ UNCHANGED <<cvm,rng,wc,stop,pcM,ran,jobs>>
WSlp(w) == pcW[w] = "slp" /\ w \notin cvw /\ pcW' = [pcW EXCEPT ![w] = "lock"] /\ H(w) /\ UNCHANGED <<mtx,cvw,cvm,rng,wc,stop,pcM,ran,jobs>>
WAct(w) == /\ pcW[w] = "act" /\ H(w)
           /\ IF stop THEN pcW' = [pcW EXCEPT ![w] = "end"] /\ UNCHANGED ran
                      ELSE pcW' = [pcW EXCEPT ![w] = "fin"] /\ ran' = [ran EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<mtx,cvw,cvm,rng,wc,stop,pcM,jobs>>
WFin(w) == pcW[w] = "fin" /\ mtx = -1 /\ mtx' = w /\ pcW' = [pcW EXCEPT ![w] = "dec"] /\ H(w) /\ UNCHANGED <<cvw,cvm,rng,wc,stop,pcM,ran,jobs>>
WDec(w) == /\ pcW[w] = "dec" /\ rng' = [rng EXCEPT ![w] = 0] /\ wc' = wc - 1 /\ cvm' = FALSE /\ mtx' = -1
           /\ pcW' = [pcW EXCEPT ![w] = "lock"] /\ H(w) /\ UNCHANGED <<cvw,stop,pcM,ran,jobs>>
Main == MLock \/ MPub \/ MUnl \/ MOwn \/ MChk \/ MLk2 \/ MTst \/ MSlp \/ MRet \/ DLock \/ DNot \/ DJoin
Wk(w) == WLock(w) \/ WTst(w) \/ WEnt(w) \/ WSlp(w) \/ WAct(w) \/ WFin(w) \/ WDec(w)
Fini == pcM = "end" /\ UNCHANGED vars
Next == Main \/ (\E w \in W : Wk(w)) \/ Fini
Fair == WF_vars(Main) /\ \A w \in W : WF_vars(Wk(w)) /\ SF_vars(WLock(w)) /\ SF_vars(WFin(w))
        /\ SF_vars(MLock) /\ SF_vars(MLk2) /\ SF_vars(DLock)
Spec == Init /\ [][Next]_vars /\ Fair
----------------------------------------------------------------------------
\* when the call returns every chosen worker has run its piece exactly once, and none is still running
AllDone == pcM = "ret" => wc = 0 /\ rng = [w \in W |-> 0] /\ \A w \in W : ran[w] <= 1 /\ pcW[w] \notin {"fin","dec"}
Once == \A w \in W : ran[w] <= 1
Counter == wc >= 0 /\ (pcM \in {"own","chk","lk2","tst","slp"} => wc = Cardinality(Part))
Terminates == <>(pcM = "end")
\* the caller is never lost: as long as it has not finished somebody can move
EmitS == (TLCGet("level") < MAXLEN /\ pcM # "end") \/ PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
