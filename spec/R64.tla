-------------------------------- MODULE R64 --------------------------------
(* Real arithmetic.  The operators are overridden by java/R64.java (IEEE     *)
(* double); the definitions below only fix their arity.  Reals are written   *)
(* as strings, "0.5".                                                        *)
EXTENDS Integers, Sequences, SequencesExt
R(a) == a
RAdd(a, b) == a
RSub(a, b) == a
RMul(a, b) == a
RDiv(a, b) == a
RNeg(a) == a
RAbs(a) == a
RSqrt(a) == a
RSin(a) == a
RCos(a) == a
RExp(a) == a
RAtan2(a, b) == a
RHypot(a, b) == a
RMin(a, b) == a
RMax(a, b) == a
RNorm(a) == a        \* angle in (-pi, pi]
RFloor(a) == 0       \* TLA+ integer
RTrunc(a) == 0       \* TLA+ integer, towards zero
RInt(n) == "0"       \* real from a TLA+ integer
RLt(a, b) == FALSE
RLe(a, b) == FALSE
REq(a, b) == FALSE
RBits(a, b) == FALSE \* identical bit pattern
RFinite(a) == FALSE
RNaN(a) == FALSE
RClose(a, b, t) == FALSE     \* relative to max(1, |a|, |b|)
RNear(a, b, t) == FALSE      \* absolute
RAngClose(a, b, t) == FALSE  \* modulo a full turn
-----------------------------------------------------------------------------
Pi == "3.141592653589793"
RSumF(s, F(_)) == FoldLeft(LAMBDA acc, x : RAdd(acc, F(x)), "0", s)
RSum(s) == FoldLeft(LAMBDA acc, x : RAdd(acc, x), "0", s)
\* a pose is [x, y, t]; a point [x, y]
Rot(c, s, p) == [x |-> RSub(RMul(c, p.x), RMul(s, p.y)), y |-> RAdd(RMul(s, p.x), RMul(c, p.y))]
Place(pose, p) ==  \* point p of the frame at pose, in the outer frame
  LET q == Rot(RCos(pose.t), RSin(pose.t), p) IN [x |-> RAdd(pose.x, q.x), y |-> RAdd(pose.y, q.y)]
Compose(a, b) == LET q == Place(a, b) IN [x |-> q.x, y |-> q.y, t |-> RAdd(a.t, b.t)]
Relative(a, b) ==  \* b seen from a
  LET q == Rot(RCos(a.t), RNeg(RSin(a.t)), [x |-> RSub(b.x, a.x), y |-> RSub(b.y, a.y)])
  IN [x |-> q.x, y |-> q.y, t |-> RSub(b.t, a.t)]
PoseInverse(a) == Relative(a, [x |-> "0", y |-> "0", t |-> "0"])
PoseClose(a, b, tol) == RClose(a.x, b.x, tol) /\ RClose(a.y, b.y, tol) /\ RAngClose(a.t, b.t, tol)
PoseBits(a, b) == RBits(a.x, b.x) /\ RBits(a.y, b.y) /\ RBits(a.t, b.t)
=============================================================================
