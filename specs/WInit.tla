-------------------------------- MODULE WInit --------------------------------
(* Weight initialization schemes.  Scheme parameters: f (family), c (coefficient, hundredths), b (bias, hundredths), z (non-zeros per neuron), t (tries).
   A weight matrix has r rows (neurons) and p columns of weights followed by the bias column. *)
EXTENDS Rng
Scheme(k) == CASE k = 0 -> [f |-> "xavier", c |-> 100, b |-> 0, z |-> 0, t |-> 1] [] k = 1 -> [f |-> "xavier", c |-> 400, b |-> 0, z |-> 0, t |-> 1]
              [] k = 2 -> [f |-> "xavier", c |-> 50, b |-> 0, z |-> 0, t |-> 1] [] k = 3 -> [f |-> "he", c |-> 100, b |-> 0, z |-> 0, t |-> 1]
              [] k = 4 -> [f |-> "he", c |-> 50, b |-> 0, z |-> 0, t |-> 1] [] k = 5 -> [f |-> "he2", c |-> 200, b |-> 0, z |-> 0, t |-> 1]
              [] k = 6 -> [f |-> "he2", c |-> 100, b |-> 0, z |-> 0, t |-> 1] [] k = 7 -> [f |-> "he2", c |-> 25, b |-> 0, z |-> 0, t |-> 1]
              [] k = 8 -> [f |-> "sparse", c |-> 100, b |-> 0, z |-> 15, t |-> 1] [] k = 9 -> [f |-> "sparse", c |-> 25, b |-> 50, z |-> 4, t |-> 1]
              [] k = 10 -> [f |-> "sparse", c |-> 50, b |-> -25, z |-> 7, t |-> 1] [] k = 11 -> [f |-> "ortho", c |-> 100, b |-> 0, z |-> 0, t |-> 5]
              [] k = 12 -> [f |-> "ortho", c |-> 150, b |-> 0, z |-> 0, t |-> 5] [] OTHER -> [f |-> "ortho", c |-> 100, b |-> 0, z |-> 0, t |-> 2]
NSchemes == 14
(* the square of the half-width (uniform) or of the deviation (normal), as num/den *)
Num(k,r,p) == LET s == Scheme(k) IN CASE s.f = "xavier" -> 6*s.c*s.c [] s.f = "he" -> 2*s.c*s.c [] s.f = "he2" -> s.c [] OTHER -> s.c*s.c
Den(k,r,p) == LET s == Scheme(k) IN CASE s.f = "xavier" -> 10000*(r+p+1) [] s.f = "he" -> 10000*p [] s.f = "he2" -> 100*p [] OTHER -> 10000
(* singular value decomposition is attempted until it succeeds, a limited number of times *)
Tries(k,fail) == IF fail < Scheme(k).t THEN fail+1 ELSE Scheme(k).t
Ret(k,fail) == IF Scheme(k).f = "ortho" /\ fail >= Scheme(k).t THEN 0 ELSE 1
Dense(e,n) == e.n = n /\ e.out = 0 /\ Uniform(e.bins,n) /\ Varied(e)
WOK(e) == LET s == Scheme(e.k) IN
  /\ e.gb = 0 /\ e.ret = Ret(e.k,e.fail)
  /\ CASE s.f = "xavier" -> Dense(e,e.r*(e.p+1))
       [] s.f \in {"he","he2"} -> Dense(e,e.r*e.p) /\ e.bias = 0
       [] s.f = "sparse" -> /\ e.zmin = s.z /\ e.zmax = s.z /\ e.bias = 0 /\ Dense(e,e.r*s.z)
                            /\ Total(e.cols) = e.r*s.z /\ (e.p % 4 = 0 => \A i \in 1..4 : Fair(e.cols[i],e.r*s.z,4))
                            /\ (e.p >= 32 => e.sets >= e.r - e.r \div 8 - 1)
       [] OTHER -> e.calls = Tries(e.k,e.fail) /\ (e.ret = 1 => e.orth = 0)
=============================================================================
