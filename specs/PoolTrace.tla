----------------------------- MODULE PoolTrace ------------------------------
(* What the fork/join thread pool promises, checked on recorded executions:
   a job over [0,cnt) is split into disjoint pieces that cover it exactly,
   each piece is executed exactly once with a distinct thread id 0..k-1, the
   call returns only after every piece finished, a reduction sees exactly the
   per-piece results in thread-id order, and destruction always terminates.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES st, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init0 == [ph |-> "none", w |-> 0, cnt |-> 0, kind |-> "", use |-> 0, act |-> {}, done |-> {}]
Lim(s,e) == IF e.use > 1 /\ e.use <= s.w THEN e.use ELSE s.w
Overl(a,b) == a.ofs < b.ofs + b.n /\ b.ofs < a.ofs + a.n
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.n + Sum(S \ {x})
Pieces(s) == s.act \cup s.done
Guard(s,e) ==
  CASE e.op = "new" -> s.ph \in {"none","gone"}
    [] e.op = "ready" -> s.ph = "up" /\ e.w >= 1
    [] e.op = "issue" -> s.ph = "idle"
    [] e.op = "beg" ->
        /\ s.ph = "busy"
        /\ e.n >= 0 /\ e.ofs >= 0 /\ e.ofs + e.n <= s.cnt
        /\ (e.n > 0 \/ s.cnt = 0)
        /\ \A p \in Pieces(s) : ~Overl(p,e) /\ p.tid # e.tid
        /\ \A p \in s.act : p.thr # e.thr                 \* one piece at a time per thread
        /\ e.tid >= 0 /\ e.tid < s.w
        /\ (e.tid = 0 <=> e.thr = 0)                      \* id 0 is the caller
        /\ Cardinality(Pieces(s)) < Lim(s,s)
    [] e.op = "end" -> s.ph = "busy" /\ \E p \in s.act : p.tid = e.tid /\ p.ofs = e.ofs /\ p.n = e.n /\ p.thr = e.thr
    [] e.op = "ret" ->
        /\ s.ph = "busy" /\ s.act = {}
        /\ Sum(s.done) = s.cnt                            \* disjoint and inside [0,cnt): exact cover
        /\ {p.tid : p \in s.done} = 0..(Cardinality(s.done)-1)
        /\ (s.done # {} => e.used = Cardinality(s.done))
        /\ (s.kind = "reduce" =>
              /\ Len(e.vals) = Cardinality(s.done)
              /\ \A p \in s.done : e.vals[p.tid+1] = p.val)
    [] e.op = "del" -> s.ph = "idle"
    [] e.op = "gone" -> s.ph = "dying"
    [] e.op = "next" -> s.ph = "gone"
    [] OTHER -> FALSE                                      \* deadlock, crash, step limit
Step(s,e) ==
  CASE e.op = "new" -> [Init0 EXCEPT !.ph = "up", !.w = e.w]
    [] e.op = "ready" -> [s EXCEPT !.ph = "idle", !.w = e.w]
    [] e.op = "issue" -> [s EXCEPT !.ph = "busy", !.cnt = e.cnt, !.kind = e.kind, !.use = e.use, !.act = {}, !.done = {}]
    [] e.op = "beg" -> [s EXCEPT !.act = @ \cup {[tid |-> e.tid, ofs |-> e.ofs, n |-> e.n, thr |-> e.thr, val |-> 0]}]
    [] e.op = "end" -> [s EXCEPT !.act = {p \in @ : p.tid # e.tid},
                                 !.done = @ \cup {[tid |-> e.tid, ofs |-> e.ofs, n |-> e.n, thr |-> e.thr, val |-> e.val]}]
    [] e.op = "ret" -> [s EXCEPT !.ph = "idle", !.done = {}]
    [] e.op = "del" -> [s EXCEPT !.ph = "dying"]
    [] e.op = "gone" -> [s EXCEPT !.ph = "gone"]
    [] OTHER -> s
Init == st = Init0 /\ l = 1
Next == /\ l <= Len(Trace) /\ Guard(st,Trace[l]) /\ st' = Step(st,Trace[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<st,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
