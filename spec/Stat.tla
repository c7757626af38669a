-------------------------------- MODULE Stat --------------------------------
(* Tests on samples, at six standard errors.                                *)
EXTENDS R64
SMean(xs) == RDiv(FoldLeft(LAMBDA a, x : RAdd(a, x), "0", xs), RInt(Len(xs)))
SVar(xs, mu) == RDiv(FoldLeft(LAMBDA a, x : RAdd(a, RMul(RSub(x, mu), RSub(x, mu))), "0", xs), RInt(Len(xs)))
SCov(xs, ys, mx, my) == RDiv(FoldLeft(LAMBDA a, i : RAdd(a, RMul(RSub(xs[i], mx), RSub(ys[i], my))), "0", [i \in 1..Len(xs) |-> i]), RInt(Len(xs)))
(* floats carry 24 bits *)
FloatTol(mu) == RMul("5e-7", RAdd("1", RAbs(mu)))
MeanOk(xs, mu, sigma) == RNear(SMean(xs), mu, RAdd(FloatTol(mu), RMul(sigma, RDiv("6", RSqrt(RInt(Len(xs)))))))
SigmaOk(xs, mu, sigma) ==
  LET v == SVar(xs, mu)  s2 == RMul(sigma, sigma)
  IN RNear(v, s2, RAdd(RMul(FloatTol(mu), RAdd(FloatTol(mu), RMul("2", sigma))), RMul(s2, RMul("6", RSqrt(RDiv("2", RInt(Len(xs))))))))
(* normally distributed: the share within one standard deviation *)
ShareOk(xs, mu, sigma) ==
  LET n == RInt(Len(xs))
      c == FoldLeft(LAMBDA a, x : IF RLt(RAbs(RSub(x, mu)), sigma) THEN a + 1 ELSE a, 0, xs)
  IN RLe(sigma, FloatTol(mu)) \/ RLt(sigma, RMul("10", FloatTol(mu))) \/ RNear(RDiv(RInt(c), n), "0.6826894921", RDiv(RMul("6", "0.4655"), RSqrt(n)))
UncorrelatedOk(xs, ys, mx, my, sx, sy) ==
  RNear(SCov(xs, ys, mx, my), "0", RAdd(RMul(RAdd(FloatTol(mx), sx), FloatTol(my)), RAdd(RMul(FloatTol(mx), sy), RMul(RMul(sx, sy), RDiv("6", RSqrt(RInt(Len(xs))))))))
(* successive samples are independent: lag one *)
Lag(xs) == [i \in 1..(Len(xs) - 1) |-> xs[i + 1]]
SerialOk(xs, mu, sigma) == UncorrelatedOk([i \in 1..(Len(xs) - 1) |-> xs[i]], Lag(xs), mu, mu, sigma, sigma)
Sample(xs, mu, sigma) == MeanOk(xs, mu, sigma) /\ SigmaOk(xs, mu, sigma) /\ ShareOk(xs, mu, sigma) /\ SerialOk(xs, mu, sigma)
=============================================================================
