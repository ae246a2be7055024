-------------------------------- MODULE Bg ----------------------------------
(* Protocol of the background-task pool: a readers/writer lock, a "step aside"
   flag raised by the owner, per-worker exec flags and a completion counter.  *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS N, OPS
W == 1..N
VARIABLES rd, wr, go2, stop, task, has, wc, pcO, pcW, xran, ops
vars == <<rd,wr,go2,stop,task,has,wc,pcO,pcW,xran,ops>>
Init == /\ rd = {} /\ wr = FALSE /\ go2 = FALSE /\ stop = FALSE /\ task = FALSE /\ has = [w \in W |-> FALSE]
        /\ wc = 0 /\ pcO = "idle" /\ pcW = [w \in W |-> "wait"] /\ xran = [w \in W |-> 0] /\ ops = 0
Begin(k) == pcO = "idle" /\ ops < OPS /\ ops' = ops + 1 /\ pcO' = k /\ go2' = TRUE /\ UNCHANGED <<rd,wr,stop,task,has,wc,pcW,xran>>
Lock == /\ pcO \in {"add","del","exec"} /\ rd = {} /\ ~wr /\ wr' = TRUE
        /\ pcO' = CASE pcO = "add" -> "add2" [] pcO = "del" -> "del2" [] OTHER -> "exec2"
        /\ UNCHANGED <<rd,go2,stop,task,has,wc,pcW,xran,ops>>
Do == /\ pcO \in {"add2","del2"} /\ task' = (pcO = "add2") /\ go2' = FALSE /\ pcO' = "unl"
      /\ UNCHANGED <<rd,wr,stop,has,wc,pcW,xran,ops>>
DoX == /\ pcO = "exec2" /\ has' = [w \in W |-> TRUE] /\ wc' = N /\ xran' = [w \in W |-> 0] /\ go2' = FALSE /\ pcO' = "unlx"
       /\ UNCHANGED <<rd,wr,stop,task,pcW,ops>>
Unl == pcO \in {"unl","unlx"} /\ wr' = FALSE /\ pcO' = (IF pcO = "unl" THEN "idle" ELSE "xw") /\ UNCHANGED <<rd,go2,stop,task,has,wc,pcW,xran,ops>>
XWait == pcO = "xw" /\ rd = {} /\ ~wr /\ wc <= 0 /\ pcO' = "xret" /\ UNCHANGED <<rd,wr,go2,stop,task,has,wc,pcW,xran,ops>>
XRet == pcO = "xret" /\ pcO' = "idle" /\ UNCHANGED <<rd,wr,go2,stop,task,has,wc,pcW,xran,ops>>
Dtor == pcO = "idle" /\ ops = OPS /\ stop' = TRUE /\ pcO' = "d2" /\ UNCHANGED <<rd,wr,go2,task,has,wc,pcW,xran,ops>>
Dtor2 == pcO = "d2" /\ go2' = TRUE /\ pcO' = "join" /\ UNCHANGED <<rd,wr,stop,task,has,wc,pcW,xran,ops>>
Join == pcO = "join" /\ (\A w \in W : pcW[w] = "end") /\ pcO' = "end" /\ UNCHANGED <<rd,wr,go2,stop,task,has,wc,pcW,xran,ops>>
Owner == Begin("add") \/ Begin("del") \/ Begin("exec") \/ Lock \/ Do \/ DoX \/ Unl \/ XWait \/ XRet \/ Dtor \/ Dtor2 \/ Join
\* the readers/writer lock lets a waiting writer in before new readers (an assumption about the lock)
WriterWaits == pcO \in {"add","del","exec"} \/ (pcO = "xw" /\ wc <= 0)
G(w,p) == pcW' = [pcW EXCEPT ![w] = p]
Wake(w) == /\ pcW[w] = "wait" /\ ~wr     \* a timeout or a satisfied predicate, evaluated under the shared lock
           /\ G(w, IF stop THEN "end" ELSE IF has[w] THEN "x" ELSE "ent") /\ UNCHANGED <<rd,wr,go2,stop,task,has,wc,pcO,xran,ops>>
Ent(w) == pcW[w] = "ent" /\ ~wr /\ ~WriterWaits /\ rd' = rd \cup {w} /\ G(w,"pass") /\ UNCHANGED <<wr,go2,stop,task,has,wc,pcO,xran,ops>>
Pass(w) == /\ pcW[w] = "pass" /\ UNCHANGED <<wr,go2,stop,task,has,wc,pcO,xran,ops>>
           /\ IF go2 \/ ~task THEN G(w,"wait") /\ rd' = rd \ {w} ELSE G(w,"task") /\ UNCHANGED rd
Task(w) == /\ pcW[w] = "task" /\ UNCHANGED <<wr,go2,stop,task,has,wc,pcO,xran,ops>>
           /\ \/ G(w,"pass") /\ UNCHANGED rd           \* asks for more, or next task
              \/ G(w,"wait") /\ rd' = rd \ {w}         \* pass complete
Exec(w) == pcW[w] = "x" /\ xran' = [xran EXCEPT ![w] = @ + 1] /\ G(w,"xe") /\ UNCHANGED <<rd,wr,go2,stop,task,has,wc,pcO,ops>>
ExecE(w) == /\ pcW[w] = "xe" /\ ~wr /\ has' = [has EXCEPT ![w] = FALSE] /\ wc' = wc - 1 /\ G(w,"wait")
            /\ UNCHANGED <<rd,wr,go2,stop,task,pcO,xran,ops>>
Wk(w) == Wake(w) \/ Ent(w) \/ Pass(w) \/ Task(w) \/ Exec(w) \/ ExecE(w)
Next == Owner \/ (\E w \in W : Wk(w)) \/ (pcO = "end" /\ UNCHANGED vars)
\* a task that asks for more work forever is outside the contract
Fair == /\ WF_vars(Owner) /\ SF_vars(Lock) /\ SF_vars(XWait)
        /\ \A w \in W : WF_vars(Wk(w)) /\ SF_vars(Wake(w)) /\ SF_vars(Ent(w)) /\ SF_vars(ExecE(w)) /\ SF_vars(Task(w) /\ pcW'[w] = "wait")
Spec == Init /\ [][Next]_vars /\ Fair
TasksOnlyRegistered == \A w \in W : pcW[w] = "task" => task
ExecOnce == (\A w \in W : xran[w] <= 1) /\ (pcO = "xret" => \A w \in W : xran[w] = 1 /\ pcW[w] \notin {"x","xe"})
Exclusion == wr => rd = {}
Terminates == <>(pcO = "end")
=============================================================================
