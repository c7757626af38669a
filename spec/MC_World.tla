------------------------------ MODULE MC_World ------------------------------
(* A room on the lattice; headings are quarter turns.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS Slip,      \* how far odometry slips in a step
          Reach,     \* how far the matcher looks around
          Steps, Size
VARIABLES truth, odom, est, last, due, map, step
LRot(t, p) == CASE t = 0 -> p [] t = 1 -> <<-p[2], p[1]>> [] t = 2 -> <<-p[1], -p[2]>> [] t = 3 -> <<p[2], -p[1]>>
LMove(a, d) == LET r == LRot(a[3], <<d[1], d[2]>>) IN <<a[1] + r[1], a[2] + r[2], (a[3] + d[3]) % 4>>
LDiff(a, b) == LET r == LRot((4 - a[3]) % 4, <<b[1] - a[1], b[2] - a[2]>>) IN <<r[1], r[2], (b[3] - a[3] + 4) % 4>>
(* the room is not the same from different places *)
Walls == {<<x, -1>> : x \in -1..Size} \cup {<<x, Size>> : x \in -1..Size} \cup {<<-1, y>> : y \in -1..Size}
         \cup {<<Size, y>> : y \in -1..Size} \cup {<<Size - 1, 0>>, <<0, Size - 1>>, <<1, Size - 1>>}
LSee(p) == {LRot((4 - p[3]) % 4, <<w[1] - p[1], w[2] - p[2]>>) : w \in Walls}
At(p, pts) == {<<p[1] + LRot(p[3], q)[1], p[2] + LRot(p[3], q)[2]>> : q \in pts}
Known(m) == UNION {At(m[i].at, m[i].pts) : i \in 1..Len(m)}
LFit(m, s, p) == Cardinality(At(p, s) \cap Known(m))
LWindow(p) == {<<p[1] + i, p[2] + j, p[3]>> : i, j \in -Reach..Reach}
LBest(m, s, W) == LET k == TLCEval(Known(m)) f == TLCEval([p \in W |-> Cardinality(At(p, s) \cap k)])
                      top == Max({f[p] : p \in W}) IN CHOOSE p \in W : f[p] = top
LNear(a, b) == a = b
W == INSTANCE World WITH Move <- LMove, Diff <- LDiff, See <- LSee, Fit <- LFit, Window <- LWindow, Best <- LBest, Near <- LNear
Free(p) == p[1] \in 0..(Size - 1) /\ p[2] \in 0..(Size - 1) /\ <<p[1], p[2]>> \notin Walls
Start == <<0, 0, 0>>
Slips == {<<i, j, 0>> : i, j \in -Slip..Slip}
Init == truth = Start /\ odom \in {Start, <<5, 3, 1>>} /\ est = Start /\ last = odom /\ due = TRUE /\ map = <<>> /\ step = 0
Next == /\ step < Steps /\ step' = step + 1
        /\ \/ /\ ~due
              /\ \E d \in {<<1, 0, 0>>, <<1, 0, 1>>, <<0, 0, 1>>, <<-1, 0, 0>>}, s \in Slips : Free(LMove(truth, d)) /\ W!Go(d, s)
           \/ due /\ \E m \in BOOLEAN : (map = <<>> => m) /\ Len(map) + (IF m THEN 1 ELSE 0) <= 3 /\ W!Take(m)
           \/ /\ ~due
              /\ \E p \in {<<1, 0, 2>>, <<0, 1, 3>>}, o \in {<<0, 0, 0>>, <<2, -4, 3>>}, s \in Slips :
                   W!Carried(p, o, LMove(p, s)) /\ est' = p       \* given well enough
BeliefIsTrue == W!BeliefIsTrue
MapIsTrue == W!MapIsTrue
=============================================================================
