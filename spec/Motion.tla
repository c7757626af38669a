------------------------------- MODULE Motion -------------------------------
(* The odometry motion model: turn, drive, turn.                            *)
EXTENDS R64
Trans(d) == RHypot(d.x, d.y)
(* directions of tiny moves are not meaningful *)
Turn1(d) == IF RLt("0.01", Trans(d)) THEN RAtan2(d.y, d.x) ELSE "0"
Turn2(d) == RNorm(RSub(d.t, Turn1(d)))
(* driving backwards is no turn *)
Effort(a) == RMin(RAbs(RNorm(a)), RAbs(RNorm(RSub(Pi, a))))
Var1(d, a) == RAdd(RMul(a[1], RMul(Effort(Turn1(d)), Effort(Turn1(d)))), RMul(a[2], RMul(Trans(d), Trans(d))))
VarT(d, a) == RAdd(RMul(a[3], RMul(Trans(d), Trans(d))),
                   RMul(a[4], RAdd(RMul(Effort(Turn1(d)), Effort(Turn1(d))), RMul(Effort(Turn2(d)), Effort(Turn2(d))))))
Var2(d, a) == RAdd(RMul(a[1], RMul(Effort(Turn2(d)), Effort(Turn2(d)))), RMul(a[2], RMul(Trans(d), Trans(d))))
(* where the parts take a pose *)
Moved(p, r1, t, r2) == [x |-> RAdd(p.x, RMul(t, RCos(RAdd(p.t, r1)))), y |-> RAdd(p.y, RMul(t, RSin(RAdd(p.t, r1)))), t |-> RNorm(RAdd(p.t, RAdd(r1, r2)))]
(* the parts of a move, given roughly (the sign of t is that of the first turn hint) *)
Split(p, q, hint) ==
  LET dx == RSub(q.x, p.x)  dy == RSub(q.y, p.y)
      r1 == RNorm(RSub(RSub(RAtan2(dy, dx), p.t), hint))
  IN [r1 |-> r1, t |-> RHypot(dx, dy), r2 |-> RNorm(RSub(RSub(RSub(q.t, p.t), hint), r1))]
=============================================================================
