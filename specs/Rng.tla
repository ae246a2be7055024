--------------------------------- MODULE Rng ---------------------------------
(* Random number generators.

   Design: a generator owns W independent streams.  Seeding puts every stream at the start of a sequence that is a function of (kind, seed, stream).
   A request for n numbers is served by stream 0, or - when n is big - split in contiguous ranges, one for each stream.  Therefore the numbers delivered
   after seeding are a function of the seed and of the requests made since, and no part of a stream is ever delivered twice.

   What a request delivers is judged by counts of the delivered numbers: out of range, per bin of equal probability, different values, pairs. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumSeq(_,_)
SumSeq(s,i) == IF i = 0 THEN 0 ELSE s[i] + SumSeq(s,i-1)
Total(s) == SumSeq(s,Len(s))
(* b successes of n, probability 1/k : |b - n/k| within 6 standard deviations *)
Fair(b,n,k) == /\ Abs(k*b - n) <= 46000
               /\ Abs(k*b - n)*Abs(k*b - n) <= 36*(k-1)*n + 36*k*k
(* probability p/100 *)
FairP(b,n,p) == LET d == Abs(100*b - p*n) \div 10 IN d <= 46000 /\ d*d <= ((36*n) \div 100)*p*(100-p) + 36*2500 + 3600
Uniform(bins,n) == Total(bins) = n /\ \A i \in 1..Len(bins) : Fair(bins[i],n,Len(bins))
(* few numbers coincide; consecutive numbers are not related *)
Varied(e) == /\ e.dist >= e.n - e.n \div 50 - 3
             /\ Fair(e.pairs, e.n \div 2, 4)
Clean(e) == e.gb = 0 /\ e.left = 0
UniOK(e) == Clean(e) /\ e.out = 0 /\ Uniform(e.bins,e.n) /\ Varied(e)
NormOK(e) == Clean(e) /\ e.out = 0 /\ Uniform(e.bins,e.n) /\ Varied(e)
IntOK(e) == Clean(e) /\ e.out = 0 /\ (e.api # 3 => Len(e.bins) = e.k) /\ Uniform(e.bins,e.n)
BernOK(e) == Clean(e) /\ e.out = 0 /\ Len(e.bins) = 2 /\ Total(e.bins) = e.n /\ FairP(e.bins[1],e.n,e.p)
Draws == {"uni","norm","int","bern"}
DrawOK(e) == CASE e.op = "uni" -> UniOK(e) [] e.op = "norm" -> NormOK(e) [] e.op = "int" -> IntOK(e) [] OTHER -> BernOK(e)
(* what identifies a request *)
Desc(e) == CASE e.op = "uni" -> <<"uni",e.api,e.n,e.lo,e.hi>> [] e.op = "norm" -> <<"norm",e.api,e.n,e.m,e.st>>
             [] e.op = "int" -> <<"int",e.api,e.n,e.k,0>> [] OTHER -> <<"bern",e.api,e.n,e.p,0>>
(* the seeding an object was last given *)
Root(kind,e,old) == CASE e.op = "new" -> <<kind,IF e.how = 0 THEN "new" ELSE "ithr",e.s,0>>
                      [] e.op = "seed" -> <<kind,"seed",e.s,0>>
                      [] e.op = "seed64" -> IF e.hi = 0 THEN <<kind,"seed",e.s,0>> ELSE <<kind,"seed64",e.s,e.hi>>
                      [] OTHER -> old
(* kind 3 prepares uniform and normal numbers in the background: what a request gets then depends on the schedule *)
Reproducible(kind,e) == kind # 3
(* enough different results that two of them do not coincide by chance *)
Big(e) == e.op \in {"uni","norm"} /\ e.n >= 4
=============================================================================
