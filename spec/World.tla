------------------------------- MODULE World --------------------------------
(* The system in its world: a robot moves among walls, its odometry slips;    *)
(* a scan shows the walls from where the robot truly is; the map remembers    *)
(* scans where the robot was believed to be; a new scan is placed at the      *)
(* prediction by odometry, corrected to where it fits the map best within     *)
(* the search window.  The purpose of it all: belief stays near the truth.    *)
(* The geometry is a parameter: a lattice in MC_World, doubles in Tr_World.   *)
EXTENDS Naturals, Sequences
CONSTANTS Move(_, _),        \* pose moved by a displacement in its own frame
          Diff(_, _),        \* displacement from a pose to another, in the frame of the first
          See(_),            \* what the scan shows at a true pose, in the robot's frame
          Fit(_, _, _),      \* how well a scan at a pose fits the map
          Window(_),         \* poses searched around a prediction
          Best(_, _, _),     \* one of the poses (3rd) where the scan (2nd) fits the map (1st) best
          Near(_, _)         \* belief and truth agree well enough
VARIABLES truth, odom,       \* true pose; pose in odometry
          est, last,         \* tracked pair: believed pose and odometry pose of the last scan
          due,               \* moved since the last scan?
          map                \* sequence of [at |-> believed pose, pts |-> scan, from |-> true pose]
wvars == <<truth, odom, est, last, due, map>>
Go(d, slip) == truth' = Move(truth, d) /\ odom' = Move(Move(odom, d), slip) /\ due' = TRUE /\ UNCHANGED <<est, last, map>>
Predicted == Move(est, Diff(last, odom))
Placed == IF map = <<>> THEN Predicted ELSE Best(map, See(truth), Window(Predicted))
Take(mapping) == /\ est' = Placed /\ last' = odom
                 /\ map' = IF mapping THEN Append(map, [at |-> Placed, pts |-> See(truth), from |-> truth]) ELSE map
                 /\ due' = FALSE /\ UNCHANGED <<truth, odom>>
(* carried about while lost, then told where it is *)
Carried(p, o, guess) == truth' = p /\ odom' = o /\ est' = guess /\ last' = o /\ due' = FALSE /\ UNCHANGED map
(* W01 *)
BeliefIsTrue == ~due => Near(est, truth)
MapIsTrue == \A i \in 1..Len(map) : Near(map[i].at, map[i].from)
=============================================================================
