------------------------------ MODULE RngTrace ------------------------------
EXTENDS Rng, Json, IOUtils
VARIABLES obj, memo, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Obj0 == [o \in 0..2 |-> [kind |-> -1, root |-> <<>>, req |-> <<>>]]
Init == obj = Obj0 /\ memo = {} /\ l = 1
Key(e) == [root |-> obj[e.o].root, req |-> Append(obj[e.o].req,Desc(e))]
(* another seed, or a later request of the same history *)
Apart(a,b) == \/ a.root[1] = b.root[1] /\ a.root[2] = "seed" /\ b.root[2] = "seed" /\ a.root[3] # b.root[3]
              \/ a.root = b.root /\ Len(a.req) < Len(b.req) /\ a.req = SubSeq(b.req,1,Len(a.req))
(* same history, same numbers; another history, other numbers *)
Consistent(e) == LET key == Key(e) IN
  /\ \A x \in memo : (x.key = key) => x.h = e.h
  /\ Big(e) => \A x \in memo : (x.big /\ Apart(x.key,key)) => x.h # e.h
Next == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ (/\ e.op # "crash"
               /\ e.op = "new" => e.ok = 1 /\ e.big = 0
               /\ e.op \in Draws => DrawOK(e) /\ (Reproducible(obj[e.o].kind,e) => Consistent(e))) = TRUE
           /\ obj' = IF e.op = "reset" THEN Obj0
                     ELSE IF e.op = "new" THEN [obj EXCEPT ![e.o] = [kind |-> e.kind, root |-> Root(e.kind,e,<<>>), req |-> <<>>]]
                     ELSE IF e.op \in {"seed","seed64"} THEN [obj EXCEPT ![e.o].root = Root(obj[e.o].kind,e,@), ![e.o].req = <<>>]
                     ELSE IF e.op = "reseed" THEN [obj EXCEPT ![e.o].root = <<obj[e.o].kind,"seed",@[3],0>>, ![e.o].req = <<>>]
                     ELSE IF e.op \in Draws THEN [obj EXCEPT ![e.o].req = Append(@,Desc(e))] ELSE obj
           /\ memo' = IF e.op = "reset" THEN {} ELSE IF e.op \in Draws THEN memo \cup {[key |-> Key(e), h |-> e.h, big |-> Big(e)]} ELSE memo
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<obj,memo,l>>
Accepted == LET d == TLCGet("stats").diameter - 1 IN
  IF d = Len(Trace) THEN PrintT("ACCEPTED " \o ToString(d)) ELSE PrintT("REJECTED " \o ToString(d+1))
=============================================================================
