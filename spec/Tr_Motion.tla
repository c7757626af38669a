------------------------------ MODULE Tr_Motion -----------------------------
(* P03: executions of the real motion model.                                *)
EXTENDS TraceBase, Motion, Stat
TInit == l = 1
N == Len(Ev.before)
Quiet == \A i \in 1..4 : REq(Ev.a[i], "0")
InPlace == RLe(Trans(Ev.d), "0.01")
Normal(t) == RLe(RAbs(t), "3.1415927")
Tol == RMul("1e-6", RAdd("1", Trans(Ev.d)))
ExactOne(p, q) == LET m == Moved(p, Turn1(Ev.d), Trans(Ev.d), Turn2(Ev.d)) IN
  /\ RAngClose(q.t, RAdd(p.t, Ev.d.t), "1e-6")
  /\ IF InPlace THEN RLe(RHypot(RSub(q.x, p.x), RSub(q.y, p.y)), RAdd(Trans(Ev.d), "1e-6"))
     ELSE RNear(q.x, m.x, Tol) /\ RNear(q.y, m.y, Tol)
(* turning in place: nothing to turn first, the way is along the heading *)
Along(p, q) == [r1 |-> RSub(RMul(RSub(q.y, p.y), RCos(p.t)), RMul(RSub(q.x, p.x), RSin(p.t))),
                t |-> RAdd(RMul(RSub(q.x, p.x), RCos(p.t)), RMul(RSub(q.y, p.y), RSin(p.t))),
                r2 |-> RNorm(RSub(RSub(q.t, p.t), Turn2(Ev.d)))]
Parts(p, q) == IF InPlace THEN Along(p, q) ELSE LET s == Split(p, q, Turn1(Ev.d)) IN [s EXCEPT !.r2 = RNorm(RSub(s.r2, Turn2(Ev.d)))]
Noisy ==
  LET ps == TLCEval([i \in 1..N |-> Parts(Ev.before[i], Ev.after[i])])
      r1 == TLCEval([i \in 1..N |-> ps[i].r1])
      t == TLCEval([i \in 1..N |-> ps[i].t])
      r2 == TLCEval([i \in 1..N |-> ps[i].r2])
      s1 == RSqrt(Var1(Ev.d, Ev.a))  st == RSqrt(VarT(Ev.d, Ev.a))  s2 == RSqrt(Var2(Ev.d, Ev.a))
      mt == Trans(Ev.d)
  IN /\ Must("first turn", Sample(r1, "0", s1))
     /\ Must("way", Sample(t, mt, st))
     /\ Must("second turn", Sample(r2, "0", s2))
     /\ Must("independent parts", UncorrelatedOk(r1, t, "0", mt, s1, st) /\ UncorrelatedOk(r1, r2, "0", "0", s1, s2) /\ UncorrelatedOk(t, r2, mt, "0", st, s2))
TMove == /\ IsEvent("move")
         /\ Must("number of particles", Len(Ev.after) = N)
         /\ Must("headings normalised", \A i \in 1..N : Normal(Ev.after[i].t))
         /\ IF Quiet THEN Must("exact", \A i \in 1..N : ExactOne(Ev.before[i], Ev.after[i])) ELSE Noisy
TNext == TMove
=============================================================================
