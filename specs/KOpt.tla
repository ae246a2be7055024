-------------------------------- MODULE KOpt ---------------------------------
(* One step of each gradient transformation from an arbitrary state. Operands are integers; state matrices are integers over the decay numerator
   (decays are d/4, d2/4; learning rate l/8; stabilizer 1/8, for graves 1/4), so the moving averages are multiples of 1/4. Second moments are generated
   as perfect squares. Powers of the decay after the step are p1/8 and p2/16 with 1-p2/16 a square. Results in fixed point of scale S. *)
EXTENDS KBase
S == 4096
Isq(n) == CHOOSE k \in 0..60 : k*k <= n /\ (k+1)*(k+1) > n
IsSq(n) == n >= 0 /\ n <= 3600 /\ Isq(n)*Isq(n) = n
Rdiv(a,b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)
Sq(a) == a*a
N(e) == Len(e.x)
Q(p2) == CASE p2 = 7 -> 3 [] p2 = 12 -> 2 [] p2 = 15 -> 1     \* 4*sqrt(1-p2/16)
Ema(s,o,v,d) == s + (4-d)*v                                   \* 4*(decay*old + (1-decay)*v), old = s/d
V4(e,q) == e.z[q] + (4-e.d2)*Sq(e.x[q])
M4(e,q) == e.y[q] + (4-e.d)*e.x[q]
(* Nadam: decays corrected for the start of the average *)
K(e) == 8-e.p1
Mu(e) == 2*e.d-e.p1
H(e) == 16-e.p2
E(e) == 4*e.d2-e.p2
NH(e,q) == (IF E(e) = 0 THEN 0 ELSE e.z[q]) + Sq(e.x[q])*(H(e)-E(e))      \* H * second moment
MK(e,q) == e.y[q]*Mu(e) + e.x[q]*(K(e)-Mu(e))                 \* K * first moment
Nsq(e,q) == NH(e,q) % H(e) = 0 /\ IsSq(NH(e,q) \div H(e))
Step(e,q) == LET w == e.x[q] l == e.l IN CASE
  e.op = "hinton" -> LET s == Isq((e.y[q]+(4-e.d)*w*w) \div 4) IN Rdiv(S*l*w,8*s+1)
  [] e.op = "graves" -> LET gg == (e.z[q]+(4-e.d)*w) \div 4 s == Isq((e.y[q]+(4-e.d)*w*w+1) \div 4 - gg*gg) IN Rdiv(S*l*w,8*s)
  [] e.op = "rprop" -> (S \div 8)*l*Sgn(w)
  [] e.op = "modprop" -> Rdiv(S*l*w,2*(e.y[q]+(4-e.d)*Abs(w))+1)
  [] e.op = "adam" -> Rdiv(S*l*Q(e.p2)*M4(e,q),2*(8-e.p1)*(8*Isq(V4(e,q) \div 4)+1))
  [] e.op = "adamax" -> Rdiv(S*2*l*M4(e,q),(8-e.p1)*(2*Max2(4*Abs(w),e.z[q])+1))
  [] e.op = "rnadam" -> LET s == Isq(NH(e,q) \div H(e)) IN
       IF e.ga = 0 THEN Rdiv((S \div 64)*l*(e.d*MK(e,q)*K(e) + (K(e)-Mu(e))*w*(32-e.d*e.p1))*8,((32-e.d*e.p1)*K(e)*(8*s+1)) ) * 8
       ELSE Rdiv(S*l*((4-e.ga)*MK(e,q) + e.ga*w*K(e)),4*K(e)*(8*s+1))
St1(e,q) == LET w == e.x[q] IN CASE
  e.op = "hinton" -> (S \div 4)*(e.y[q]+(4-e.d)*w*w)
  [] e.op = "graves" -> (S \div 4)*(e.y[q]+(4-e.d)*w*w)
  [] e.op = "modprop" -> (S \div 4)*(e.y[q]+(4-e.d)*Abs(w))
  [] e.op \in {"adam","adamax"} -> (S \div 4)*M4(e,q)
  [] e.op = "rnadam" -> Rdiv(S*MK(e,q),K(e))
St2(e,q) == LET w == e.x[q] IN CASE
  e.op = "graves" -> (S \div 4)*(e.z[q]+(4-e.d)*w)
  [] e.op = "adam" -> (S \div 4)*V4(e,q)
  [] e.op = "adamax" -> (S \div 4)*Max2(4*Abs(w),e.z[q])
  [] e.op = "rnadam" -> Rdiv(S*NH(e,q),H(e))
Up(e,q) == e.x[q]*e.y[q] > 0 /\ e.z[q] < e.hi
Dn(e,q) == e.x[q]*e.y[q] < 0 /\ e.z[q] > e.lo
Gain(e,q) == e.z[q]*(IF Up(e,q) THEN e.in ELSE IF Dn(e,q) THEN e.de ELSE 4)      \* scaled by 32
Exact(e) == LET n == N(e) v(f(_,_)) == Vec(n,LAMBDA q : f(e,q)) IN CASE
  e.op = "rprop" -> v(Step)
  [] e.op \in {"hinton","modprop"} -> v(Step) \o v(St1)
  [] e.op = "graves" -> v(Step) \o v(St1) \o v(St2)
  [] e.op \in {"adam","rnadam"} -> v(Step) \o v(St1) \o v(St2) \o <<(S \div 8)*e.p1,(S \div 16)*e.p2>>
  [] e.op = "adamax" -> v(Step) \o v(St1) \o v(St2) \o <<(S \div 8)*e.p1>>
  [] e.op = "ilr" -> Vec(n,LAMBDA q : e.x[q]*Gain(e,q)) \o v(Gain)
Near(a,b) == Abs(a-b) <= 10 + Abs(b) \div 4000
Ok(e,o) == LET z == Exact(e) IN Len(o) = Len(z) /\ (IF e.op = "ilr" THEN o = z ELSE \A q \in 1..Len(z) : Near(o[q],z[q]))
Pre(e) == /\ e.op \in {"hinton","graves","modprop","adam","adamax","rnadam"} => e.d \in 1..3
          /\ e.op = "hinton" => \A q \in DOMAIN e.x : LET v == e.y[q]+(4-e.d)*Sq(e.x[q]) IN v % 4 = 0 /\ IsSq(v \div 4)
          /\ e.op = "graves" => \A q \in DOMAIN e.x : LET v == e.y[q]+(4-e.d)*Sq(e.x[q])+1 g == e.z[q]+(4-e.d)*e.x[q] IN g % 4 = 0 /\ v % 4 = 0 /\ IsSq((v \div 4) - Sq(g \div 4)) /\ (v \div 4) # Sq(g \div 4)
          /\ e.op \in {"adam","rnadam"} => e.p2 \in {7,12,15} /\ e.p2 <= 4*e.d2
          /\ e.op \in {"adam","adamax","rnadam"} => e.p1 >= 1 /\ e.p1 <= 7 /\ e.p1 <= 2*e.d
          /\ e.op = "adam" => \A q \in DOMAIN e.x : V4(e,q) % 4 = 0 /\ IsSq(V4(e,q) \div 4) /\ e.z[q] >= 0
          /\ e.op = "rnadam" => \A q \in DOMAIN e.x : Nsq(e,q) /\ e.z[q] >= 0
          /\ e.op = "ilr" => e.lo < e.hi /\ e.lo > 0 /\ e.de \in 1..3 /\ e.in > 4
OPS == {"hinton","graves","rprop","modprop","adam","adamax","rnadam","ilr"}
=============================================================================
