------------------------------- MODULE SerGen -------------------------------
EXTENDS Ser, Json
CONSTANTS RANDOM, MAXLEN, AR
VARIABLES hist, g, m
RE(S) == RandomElement(S)
W(u,s) == s[RE(1..Len(s))]
B(u,p) == IF RE(1..100) <= p THEN 1 ELSE 0
E0 == [arch |-> -1]
Init == hist = <<>> /\ g = [n |-> <<E0,E0>>, s |-> <<E0,E0>>] /\ m = E0
Put(x) == hist' = Append(hist,x)
Live == {i \in 1..2 : g.n[i].arch >= 0}
SetG(i,x) == g' = [g EXCEPT !.n[i] = x]
New(i) == \E a \in {IF i = 2 /\ g.n[1].arch >= 0 /\ RE(1..10) > 1 THEN g.n[1].arch ELSE RE(AR)}, k \in {B(1,15)}, s \in {RE(1..1000)}, c \in {<<RE(0..7),B(2,50),B(3,50),B(4,50),RE(1..60),B(5,50),B(6,30)>>}, d \in {<<W(7,<<0,30,60,80>>),W(8,<<0,40,70,90>>),W(9,<<0,50,75,90>>)>>} :
  Put([op |-> "net", n |-> i-1, arch |-> a, k |-> k, s |-> s, cfg |-> c, dp |-> d]) /\ SetG(i,[arch |-> a, k |-> k, full |-> FALSE, ini |-> FALSE, tr |-> FALSE])
Train(i) == Put([op |-> "train", n |-> i-1]) /\ SetG(i,[g.n[i] EXCEPT !.full = TRUE, !.ini = TRUE, !.tr = TRUE])
Fprop(i) == \E r \in {RE(1..4)}, xs \in {RE(1..2)} : Put([op |-> "fprop", n |-> i-1, rows |-> r, xs |-> xs]) /\ SetG(i,[g.n[i] EXCEPT !.full = TRUE, !.ini = TRUE, !.tr = FALSE])
Deinit(i) == Put([op |-> "deinit", n |-> i-1]) /\ SetG(i,[g.n[i] EXCEPT !.ini = FALSE, !.tr = FALSE])
Drop(i) == LET nd == ND(g.n[i].arch) IN nd > 0 /\ \E d \in {RE(1..nd)}, p \in {W(1,<<100,35,55,85>>)} : Put([op |-> "drop", n |-> i-1, d |-> d, p |-> p]) /\ SetG(i,[g.n[i] EXCEPT !.tr = FALSE])
Clamp(i) == \E lo \in {RE(0..4)}, hi \in {RE(1..4)} : Put([op |-> "clamp", n |-> i-1, lo |-> lo, hi |-> hi]) /\ UNCHANGED g
SetW(i) == \E z \in {RE(1..NL(g.n[i].arch))} : \E d \in {Dims(g.n[i].arch,g.n[i].k)[z]} : \E x \in {W(1,<<d,d,d,<<d[2],d[1]>>,<<d[1],d[2]+1>>,<<d[1],d[2]-1>>,<<d[1]+1,d[2]>>,<<0,0>>,<<d[1]*d[2],1>> >>)}, mv \in {B(2,50)}, s \in {RE(1..500)} :
  Put([op |-> "setw", n |-> i-1, l |-> z, r |-> x[1], c |-> x[2], mv |-> mv, ws |-> s]) /\ UNCHANGED g
Options(u,i) == LET x == g.n[i]  all == RE(1..5) = 1 IN
  <<IF x.full THEN (IF all THEN 1 ELSE B(1,80)) ELSE 0, IF x.ini THEN (IF all THEN 1 ELSE B(2,40)) ELSE 0, IF x.ini THEN (IF all THEN 1 ELSE B(3,40)) ELSE 0, IF all THEN 1 ELSE B(4,60), IF all THEN 1 ELSE B(5,40), IF x.tr THEN (IF all THEN 1 ELSE B(6,60)) ELSE 0, IF x.tr THEN (IF all THEN 1 ELSE B(7,50)) ELSE 0, B(8,50)>>
Save(i) == \E t \in {RE(1..2)}, o \in {Options(1,i)} : Put([op |-> "save", n |-> i-1, slot |-> t-1, ini |-> IF g.n[i].ini THEN 1 ELSE 0, o |-> o]) /\ g' = [g EXCEPT !.s[t] = [arch |-> g.n[i].arch]]
Slots == {t \in 1..2 : g.s[t].arch >= 0}
Harmed(t) == \E z \in {RE(1..NL(g.s[t].arch))}, kd \in {RE(0..5)} : Put([op |-> "harm", slot |-> t-1, l |-> z, kind |-> kd]) /\ UNCHANGED g
LoadG(i,t) == \E o \in {<<B(1,85),0,0,B(2,40),B(3,50),0,0,B(4,50)>>} : Put([op |-> "load", n |-> i-1, slot |-> t-1, o |-> o]) /\ SetG(i,[g.n[i] EXCEPT !.tr = FALSE])
Data == \E r \in {RE(1..5)}, x \in {RE(1..4)}, y \in {RE(1..3)} : Put([op |-> "data", rows |-> r, xw |-> x, yw |-> y]) /\ UNCHANGED g
Ev == IF g.n[1].arch < 0 THEN New(1) ELSE IF g.n[2].arch < 0 THEN New(2) ELSE
  \E i \in {RE(1..2)}, c \in {RE(1..100)} :
    IF c <= 12 THEN Train(i) ELSE IF c <= 26 THEN Fprop(i) ELSE IF c <= 31 THEN Deinit(i) ELSE IF c <= 37 THEN (IF ND(g.n[i].arch) > 0 THEN Drop(i) ELSE Clamp(i)) ELSE IF c <= 42 THEN Clamp(i) ELSE IF c <= 49 THEN SetW(i) ELSE
    IF c <= 67 \/ Slots = {} THEN Save(i) ELSE IF c <= 71 THEN Harmed(RE(Slots)) ELSE IF c <= 91 THEN LoadG(i,RE(Slots)) ELSE IF c <= 97 THEN New(i) ELSE Data
(* the abstract system, exhaustively: any network saved with any choice of what to save, damaged or not, restored into any network *)
A0(a,k,base) == [arch |-> a, k |-> k, w |-> [i \in 1..NL(a) |-> base + i], dp |-> [i \in 1..ND(a) |-> base + 20 + i], cl |-> <<base+31,base+32,base+33>>, tl |-> k]
Cases == {<<a,b,k1,k2,w,tp,w2,tp2,hl,hk>> \in Archs \X Archs \X (0..1) \X (0..1) \X (0..1) \X (0..1) \X (0..1) \X (0..1) \X (0..5) \X (0..5) : hl <= NL(a) /\ (hl > 0 => w = 1)}
Out(c) == LET n == A0(c[1],c[3],100)  t == A0(c[2],c[4],200)  s0 == Slot(n,<<c[5],0,0,c[6],0,0,0,0>>)  sl == IF c[9] = 0 THEN s0 ELSE Harm(s0,c[9],c[10]) IN
   [n |-> n, t |-> t, sl |-> sl, r |-> Load(t,<<c[7],0,0,c[8],0,0,0,0>>,sl), c |-> c]
Pick == m = E0 /\ \E c \in Cases : m' = Out(c)
Laws == m = E0 \/ LET n == m.n  t == m.t  r == m.r  c == m.c  same == n.arch = t.arch /\ n.k = t.k IN
   \* a network of the same shape gets back everything that was asked for and saved
   /\ (same /\ c[9] = 0 /\ c[7] <= c[5] /\ c[8] <= c[6]) => (r.ok /\ r.n.w = (IF c[7] = 1 THEN n.w ELSE t.w) /\ r.n.dp = (IF c[8] = 1 THEN n.dp ELSE t.dp) /\ r.n.cl = (IF c[8] = 1 THEN n.cl ELSE t.cl))
   \* whatever happens, every layer has either all of its old weights or all of the saved ones; success means every one was restored
   /\ \A i \in 1..NL(t.arch) : r.n.w[i] = t.w[i] \/ (i <= Len(m.sl.w) /\ r.n.w[i] = m.sl.w[i] /\ m.sl.dim[i] = Dims(t.arch,t.k)[i])
   /\ (r.ok /\ c[7] = 1) => \A i \in 1..NL(t.arch) : r.n.w[i] = m.sl.w[i] /\ m.sl.w[i] # 0
   /\ (n.arch # t.arch) => ~r.ok
   /\ r.n.tl = t.tl /\ r.n.arch = t.arch /\ r.n.k = t.k
   \* restoring once more changes nothing
   /\ r.ok => Load(r.n,<<c[7],0,0,c[8],0,0,0,0>>,m.sl).n = r.n
Next == /\ MAXLEN > 0 => Len(hist) < MAXLEN
        /\ IF RANDOM THEN Ev /\ UNCHANGED m ELSE Pick /\ UNCHANGED <<hist,g>>
Emit == (MAXLEN > 0 /\ Len(hist) = MAXLEN) => PrintT("SCRIPT " \o ToJson(hist))
=============================================================================
