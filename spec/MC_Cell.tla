------------------------------- MODULE MC_Cell ------------------------------
(* The recursive update of mean and correlation, in exact rationals, gives  *)
(* the batch statistics, whatever the order of adding and computing.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANTS MaxPoints, Lat
(* rationals <<num, den>> with den > 0 *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Nrm(q) == LET g == Gcd(Abs(q[1]), q[2]) IN <<q[1] \div g, q[2] \div g>>
QAdd(a, b) == Nrm(<<a[1] * b[2] + b[1] * a[2], a[2] * b[2]>>)
QSub(a, b) == Nrm(<<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>>)
QMul(a, b) == Nrm(<<a[1] * b[1], a[2] * b[2]>>)
QDiv(a, b) == IF b[1] < 0 THEN Nrm(<<(-a[1]) * b[2], a[2] * (-b[1])>>) ELSE Nrm(<<a[1] * b[2], a[2] * b[1]>>)
QInt(n) == <<n, 1>>
QLe(a, b) == a[1] * b[2] <= b[1] * a[2]
QSqrt(a) == a    \* not used here
VARIABLES pts, fresh, n, mean, corr, cov
C == INSTANCE Cell WITH Add <- QAdd, Sub <- QSub, Mul <- QMul, Div <- QDiv, Nat2 <- QInt, Le <- QLe, Sqrt <- QSqrt
vars == <<pts, fresh, n, mean, corr, cov>>
Z == QInt(0)
Init == C!CInit /\ n = 0 /\ mean = [x |-> Z, y |-> Z] /\ corr = [xx |-> Z, xy |-> Z, yy |-> Z] /\ cov = corr
Upd(old, new) == QDiv(QAdd(QMul(old, QInt(n)), new), QInt(n + 1))
Add(p) == /\ Len(pts) < MaxPoints
          /\ C!AddPoint(p)
          /\ n' = n + 1
          /\ mean' = [x |-> Upd(mean.x, p.x), y |-> Upd(mean.y, p.y)]
          /\ corr' = [xx |-> Upd(corr.xx, QMul(p.x, p.x)), xy |-> Upd(corr.xy, QMul(p.x, p.y)), yy |-> Upd(corr.yy, QMul(p.y, p.y))]
          /\ UNCHANGED cov
Comp == /\ C!Compute
        /\ UNCHANGED <<n, mean, corr>>
        /\ LET f(c, a, b) == QMul(QSub(c, QMul(a, b)), QDiv(QInt(n), QInt(n - 1)))
           IN cov' = IF fresh \/ n < 3 THEN cov
                     ELSE [xx |-> f(corr.xx, mean.x, mean.x), xy |-> f(corr.xy, mean.x, mean.y), yy |-> f(corr.yy, mean.y, mean.y)]
Next == Comp \/ \E x, y \in Lat : Add([x |-> QInt(x), y |-> QInt(y)])
Refines == /\ n = Len(pts)
           /\ n > 0 => mean = C!BatchMean(pts)
           /\ fresh => cov = C!BatchCov(pts)
SpreadNonNegative == fresh => QLe(Z, cov.xx) /\ QLe(Z, cov.yy) /\ QLe(Z, C!Det(cov))
(* histories for the real code: words are a<place> (add), c (compute), s (score) *)
Words == {"a0", "a1", "a2", "c", "s"}
GenLen == atoi(IOEnv.GENLEN)
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq([1..GenLen -> Words]))
=============================================================================
