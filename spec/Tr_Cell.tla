------------------------------- MODULE Tr_Cell ------------------------------
(* N01: executions of the real NDT cell against the specification.          *)
EXTENDS TraceBase
VARIABLES pts, fresh
C == INSTANCE Cell WITH Add <- RAdd, Sub <- RSub, Mul <- RMul, Div <- RDiv, Nat2 <- RInt, Le <- RLe, Sqrt <- RSqrt
TInit == C!CInit /\ l = 1
TNew == IsEvent("new") /\ pts' = <<>> /\ fresh' = FALSE
Mag == FoldLeft(LAMBDA a, p : RMax(a, RMax(RAbs(p.x), RAbs(p.y))), "1", pts)
(* rounding of the recursive second moment, far from the origin *)
CovTol == RMul(RMul("4e-15", RInt(Len(pts) + 4)), RMul(Mag, Mag))
CovNear(a, b) == RNear(a.xx, b.xx, CovTol) /\ RNear(a.xy, b.xy, CovTol) /\ RNear(a.yy, b.yy, CovTol)
M(m) == [xx |-> m[1], xy |-> m[2], yy |-> m[4]]
Sym(m) == RNear(m[2], m[3], RMul("1e-9", RAdd(RAbs(m[1]), RAbs(m[4]))))
Fin(m) == \A i \in 1..4 : RFinite(m[i])
(* matrices compared on the scale of their largest entry *)
InfoNear(a, b) == LET t == RMul("1e-6", RMax(RAbs(a.xx), RAbs(a.yy)))
                  IN RNear(a.xx, b.xx, t) /\ RNear(a.xy, b.xy, t) /\ RNear(a.yy, b.yy, t)
Spread(c) == RLt(RMax("1e-8", RMul("1e6", CovTol)), C!Large(c))   \* not coincident points up to rounding
Fields == /\ Must("number of points", REq(Ev.n, RInt(Len(pts))))
          /\ Must("mean", pts # <<>> => LET m == C!BatchMean(pts) t == RMul("1e-13", RMul(Mag, RInt(Len(pts) + 4))) IN RNear(Ev.mean[1], m.x, t) /\ RNear(Ev.mean[2], m.y, t))
          /\ Must("finite", Fin(Ev.cov) /\ Fin(Ev.info))
Statistics == fresh' => /\ Must("covariance", CovNear(M(Ev.cov), C!BatchCov(pts)) /\ Sym(Ev.cov))
                        /\ Must("information", Sym(Ev.info) /\ (Spread(M(Ev.cov)) => InfoNear(M(Ev.info), C!Information(M(Ev.cov)))))
TAdd == IsEvent("add") /\ C!AddPoint([x |-> Ev.x, y |-> Ev.y])
TCompute == IsEvent("compute") /\ C!Compute /\ Fields /\ Statistics
(* the information matrix logged with the score is the one checked at the last computation *)
Info == [xx |-> Ev.info[1], xy |-> RDiv(RAdd(Ev.info[2], Ev.info[3]), "2"), yy |-> Ev.info[4]]
TScore == /\ IsEvent("score") /\ UNCHANGED <<pts, fresh>>
          /\ Must("score in [0, 1]", RLe("0", Ev.v) /\ RLe(Ev.v, "1"))
          /\ Must("five points needed", Len(pts) < 5 => REq(Ev.v, "0"))
          /\ fresh /\ Len(pts) >= 5 =>
                Must("score", LET d == C!Maha([x |-> Ev.mean[1], y |-> Ev.mean[2]], Info, [x |-> Ev.x, y |-> Ev.y])
                              IN RNear(Ev.v, RExp(RMul("-0.5", RMax("0", d))), "1e-6"))
          /\ fresh => Must("statistics kept", Fin(Ev.info))
TNext == TNew \/ TAdd \/ TCompute \/ TScore
=============================================================================
