--------------------------------- MODULE Lsuv --------------------------------
(* Data-dependent initialization of the weights of a network, layer by layer in the order of propagation.
   Settings of a layer, a sequence: 1 batch size (0: all), 2 number of batches (0: all), 3 each neuron on its own, 4 before the non-linearity, 5 adjust the mean, 6 adjust the scale,
   7 scale wanted (hundredths), 8 mean wanted (hundredths), 9, 10 tolerances (thousandths), 11 tries, 12 attempts with new weights.
   The abstract algorithm: measure; stop when what is to be adjusted is within the tolerances; otherwise multiply by wanted/measured, shift by wanted-mean; a limited number of times. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
Skipped(s) == (s[5] = 0 /\ s[6] = 0) \/ s[11] = 0
Whole(s,rows) == s[2] = 0 /\ (s[1] = 0 \/ s[1] >= rows \/ rows % s[1] = 0)
(* statistics in units of 1/10000 *)
Good(s,sd,mn,slack) == /\ (s[6] = 1 => sd = 0 \/ Abs(sd - 100*s[7]) <= 10*s[9] + slack)
                       /\ (s[5] = 1 => Abs(mn - 100*s[8]) <= 10*s[10] + slack)
(* the spread of numbers that differ little compared to their size cannot be measured exactly (single precision) *)
Faint(ly,i) == Abs(ly.mn[i]) \div 30 > ly.sd[i]
StatsOK(s,ly,slack) == \A i \in 1..Len(ly.sd) : Faint(ly,i) \/ Good(s,ly.sd[i],ly.mn[i],slack)
(* what may happen to the weights when they are not drawn anew *)
Adjusted(s,ly) == /\ ly.prop = 1 /\ ly.posi = 1
                  /\ (s[6] = 0 => ly.same = 1)
                  /\ (s[5] = 0 => ly.bscal = 1)
                  /\ (s[5] = 1 /\ s[3] = 0 => ly.buni = 1)
Untouched(ly) == ly.same = 1 /\ ly.bsame = 1
(* outputs depend linearly on the weights, all samples are measured, there is a try left to see it, and the inputs did not degenerate to constants in a saturated layer below *)
MustConverge(s,ly,rows) == Skipped(s) \/ ((ly.linear = 1 \/ s[4] = 1) /\ Whole(s,rows) /\ s[11] >= 3 /\ (\A i \in 1..Len(ly.sd) : ly.sd[i] >= 10 /\ ~Faint(ly,i)) /\ s[12] >= 1 /\ s[9] >= 5 /\ s[10] >= 5)
RunOK(e,slack) ==
  LET S == <<e.l0,e.l1,e.l2>> IN
  /\ e.ag = 0 /\ e.ag2 = 0 /\ e.kept = 1
  /\ (e.ret = 1) = (e.ff = 0)
  /\ e.ff # 0 => \E i \in 1..3 : e.ly[i].idx = e.ff /\ ~MustConverge(S[i],e.ly[i],e.rows)
  /\ (\A i \in 1..3 : MustConverge(S[i],e.ly[i],e.rows)) => e.ret = 1
  /\ \A i \in 1..3 :
     /\ Skipped(S[i]) => Untouched(e.ly[i])
     /\ ~Skipped(S[i]) /\ Whole(S[i],e.rows) /\ (e.ret = 1 \/ \E k \in (i+1)..3 : e.ly[k].idx = e.ff) => StatsOK(S[i],e.ly[i],slack)
     /\ S[i][12] = 1 => Adjusted(S[i],e.ly[i])
=============================================================================
