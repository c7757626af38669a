------------------------------ MODULE MC_Motion -----------------------------
(* Exactness: with the parts as commanded every pose moves by the commanded *)
(* displacement in its own frame; forwards and backwards are equally noisy. *)
EXTENDS Motion, TLC
CONSTANT N
VARIABLES p, d
Ang(i) == RMul(RInt(i), RDiv(RMul("2", Pi), RInt(N)))
Len5 == {"0.02", "0.5", "3"}
Init == /\ \E i \in 0..(N - 1), x \in {"-4", "0", "7.5"} : p = [x |-> x, y |-> RMul(x, "-0.3"), t |-> RNorm(Ang(i))]
        /\ \E i, j \in 0..(N - 1), r \in Len5 : d = [x |-> RMul(r, RCos(Ang(i))), y |-> RMul(r, RSin(Ang(i))), t |-> RNorm(Ang(j))]
Next == UNCHANGED <<p, d>>
Exact == PoseClose(Moved(p, Turn1(d), Trans(d), Turn2(d)), Compose(p, d), "1e-9")
Back == LET b == [x |-> RNeg(d.x), y |-> RNeg(d.y), t |-> d.t] IN \A a \in {<<"0.1", "0.2", "0.3", "0.4">>} :
        /\ RNear(Var1(d, a), Var1(b, a), "1e-9") /\ RNear(VarT(d, a), VarT(b, a), "1e-9") /\ RNear(Var2(d, a), Var2(b, a), "1e-9")
SplitInverts == LET h == Turn1(d)
                    s == Split(p, Moved(p, RAdd(h, "0.1"), Trans(d), RAdd(Turn2(d), "-0.2")), h)
                IN RNear(s.r1, "0.1", "1e-9") /\ RNear(s.t, Trans(d), "1e-9") /\ RAngClose(s.r2, RAdd(Turn2(d), "-0.2"), "1e-9")
=============================================================================
