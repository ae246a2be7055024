------------------------------ MODULE BgTrace -------------------------------
(* What the background-task pool promises, checked on recorded executions:
   a registered task is called by workers only between its registration and
   the return of the deletion; a worker calls one task again while it asks for
   more, then goes on in descending priority order, and starts over from the
   top only after finishing a pass or after being interrupted by the owner;
   exec() runs its function exactly once on every worker and returns after all
   of them; no task of a deleted set is still running once deletion returned;
   every registered task keeps being served; destruction terminates.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES st, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
NoW == [run |-> 0, last |-> 0, more |-> FALSE, seen |-> {}, intr |-> TRUE, ex |-> FALSE]
Init0 == [ph |-> "none", n |-> 0, reg |-> <<>>, newt |-> 0, pend |-> "", w |-> <<>>, xdone |-> {}, xrun |-> {}]
\* reg: sequence of [t, p] currently registered (order irrelevant)
Regs(s) == {s.reg[i] : i \in DOMAIN s.reg}
Sure(s) == {r \in Regs(s) : r.t # s.newt}
Intr(s) == [s EXCEPT !.w = [i \in DOMAIN s.w |-> [s.w[i] EXCEPT !.intr = TRUE]]]
Prio(s,t) == (CHOOSE r \in Regs(s) : r.t = t).p
MayStart(s,t) == \A r \in Sure(s) : r.p <= Prio(s,t)
MayGoOn(s,x,t) == t \notin x.seen /\ \A r \in Sure(s) : r.p > Prio(s,t) => r.t \in x.seen
\* the possible "tasks visited in this pass" after worker calls task e.t now: repeat, go on, or start over
TaskSeen(s,e) == LET x == s.w[e.w+1] IN
  (IF x.last = e.t /\ x.more THEN {x.seen} ELSE {})
  \cup (IF x.last # 0 /\ ~x.more /\ x.last \in {r.t : r \in Regs(s)} /\ MayGoOn(s,x,e.t) THEN {x.seen \cup {e.t}} ELSE {})
  \cup (IF MayStart(s,e.t) /\ (x.intr \/ x.last = 0 \/ (~x.more /\ {r.t : r \in Sure(s)} \subseteq x.seen)) THEN {{e.t}} ELSE {})
Busy(s,i) == s.w[i].run # 0 \/ s.w[i].ex
Guard(s,e) ==
  CASE e.op = "new" -> s.ph \in {"none","gone"} 
    [] e.op = "ready" -> s.ph = "up" /\ e.n = s.n
    [] e.op \in {"add_b","del_b","exec_b","expect_b","tmo_b"} -> s.ph = "idle"
    [] e.op = "add_e" -> s.ph = "busy" /\ s.pend = "add" /\ e.cnt = Len(s.reg)
    [] e.op = "del_e" -> s.ph = "busy" /\ s.pend = "del" /\ e.cnt = 0 /\ \A i \in DOMAIN s.w : s.w[i].run = 0
    [] e.op = "exec_e" -> s.ph = "busy" /\ s.pend = "exec" /\ s.xdone = 0..(s.n-1) /\ s.xrun = {} /\ e.cnt = Len(s.reg)
    [] e.op \in {"expect_e","tmo_e"} -> s.ph = "busy" /\ s.pend = "cfg" /\ e.cnt = Len(s.reg)
    [] e.op = "t_b" ->
        /\ s.ph \in {"idle","busy","dying"} /\ e.w >= 0 /\ e.w < s.n /\ e.thr = e.w + 1
        /\ ~Busy(s,e.w+1) /\ \E r \in Regs(s) : r.t = e.t
        /\ TaskSeen(s,e) # {}
    [] e.op = "t_e" -> s.ph \in {"idle","busy","dying"} /\ s.w[e.w+1].run = e.t
    [] e.op = "x_b" -> s.ph = "busy" /\ s.pend = "exec" /\ e.w >= 0 /\ e.w < s.n /\ e.thr = e.w + 1
                       /\ e.w \notin s.xdone \cup s.xrun /\ ~Busy(s,e.w+1)
    [] e.op = "x_e" -> s.ph = "busy" /\ e.w \in s.xrun
    [] e.op = "await" -> s.ph = "idle" /\ (e.ran = 1 \/ e.t \notin {r.t : r \in Regs(s)})
    [] e.op = "dtor" -> s.ph = "idle"
    [] e.op = "gone" -> s.ph = "dying" /\ \A i \in DOMAIN s.w : ~Busy(s,i)
    [] e.op = "next" -> s.ph = "gone"
    [] OTHER -> FALSE
Step(s,e) ==
  CASE e.op = "new" -> [Init0 EXCEPT !.ph = "up", !.n = e.n]
    [] e.op = "ready" -> [s EXCEPT !.ph = "idle", !.w = [i \in 1..s.n |-> NoW]]
    [] e.op = "add_b" -> Intr([s EXCEPT !.ph = "busy", !.pend = "add", !.newt = e.t, !.reg = Append(@,[t |-> e.t, p |-> e.a])])
    [] e.op = "add_e" -> [Intr(s) EXCEPT !.ph = "idle", !.newt = 0]
    [] e.op = "del_b" -> Intr([s EXCEPT !.ph = "busy", !.pend = "del"])
    [] e.op = "del_e" -> [Intr(s) EXCEPT !.ph = "idle", !.reg = <<>>]
    [] e.op = "exec_b" -> Intr([s EXCEPT !.ph = "busy", !.pend = "exec", !.xdone = {}, !.xrun = {}])
    [] e.op = "exec_e" -> [Intr(s) EXCEPT !.ph = "idle"]
    [] e.op \in {"expect_b","tmo_b"} -> Intr([s EXCEPT !.ph = "busy", !.pend = "cfg"])
    [] e.op \in {"expect_e","tmo_e"} -> [Intr(s) EXCEPT !.ph = "idle"]
    [] e.op = "t_e" -> [s EXCEPT !.w[e.w+1].run = 0, !.w[e.w+1].more = (e.more = 1)]
    [] e.op = "x_b" -> [s EXCEPT !.xrun = @ \cup {e.w}, !.w[e.w+1].ex = TRUE, !.w[e.w+1].last = 0, !.w[e.w+1].seen = {}]
    [] e.op = "x_e" -> [s EXCEPT !.xrun = @ \ {e.w}, !.xdone = @ \cup {e.w}, !.w[e.w+1].ex = FALSE]
    [] e.op = "dtor" -> Intr([s EXCEPT !.ph = "dying"])
    [] e.op = "gone" -> [s EXCEPT !.ph = "gone"]
    [] OTHER -> s
Steps(s,e) == IF e.op # "t_b" THEN {Step(s,e)} ELSE
  {[s EXCEPT !.w[e.w+1] = [s.w[e.w+1] EXCEPT !.run = e.t, !.intr = (s.ph # "idle"), !.last = e.t, !.seen = v]] : v \in TaskSeen(s,e)}
Init == st = Init0 /\ l = 1
Next == /\ l <= Len(Trace) /\ Guard(st,Trace[l]) /\ st' \in Steps(st,Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<st,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
