------------------------------ MODULE NdtReal -------------------------------
(* The statistics and scores of an NDT cell in real arithmetic.             *)
EXTENDS R64
B == INSTANCE Cell WITH Add <- RAdd, Sub <- RSub, Mul <- RMul, Div <- RDiv, Nat2 <- RInt, Le <- RLe, Sqrt <- RSqrt,
                        pts <- <<>>, fresh <- FALSE
CellStats(ps) ==
  IF Len(ps) < 5 THEN [n |-> Len(ps)]
  ELSE LET c == B!BatchCov(ps)
       IN [n |-> Len(ps), mean |-> B!BatchMean(ps), info |-> B!Information(c), spread |-> B!Large(c)]
CellScore(s, p) == IF s.n < 5 THEN "0" ELSE RExp(RMul("-0.5", RMax("0", B!Maha(s.mean, s.info, p))))
(* cells whose points coincide up to rounding have no meaningful shape      *)
Shaped(s) == s.n >= 5 => RLt("1e-8", s.spread)
=============================================================================
