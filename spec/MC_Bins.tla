------------------------------- MODULE MC_Bins ------------------------------
(* The tree: an inner node compares one axis with a pivot; a leaf holds one  *)
(* bin.  Inserting splits a leaf along the axis on which the two bins differ *)
(* most.  Its leaf counter is the number of distinct bins.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
CONSTANTS Lo, Hi, MaxInserts
VARIABLES bins, count, tree, leaves, steps
Ident(k) == k
B == INSTANCE Bins WITH BinOf <- Ident
Low == -1
Keys == (Lo..Hi) \X (Lo..Hi) \X {0, 1}
Abs(a) == IF a < 0 THEN -a ELSE a
Leaf(k) == [leaf |-> TRUE, key |-> k]
Axis(a, b) == LET d == [i \in 1..3 |-> Abs(a[i] - b[i])]
                  m == CHOOSE v \in {d[i] : i \in 1..3} : \A i \in 1..3 : d[i] <= v
              IN CHOOSE i \in 1..3 : d[i] = m /\ \A j \in 1..(i - 1) : d[j] < m
RECURSIVE Put(_, _)
Put(t, k) ==   \* <<tree, leaves added>>
  IF t.leaf THEN
    IF t.key = k THEN <<t, 0>>
    ELSE LET ax == Axis(t.key, k)
             p2 == t.key[ax] + k[ax]          \* twice the pivot
             old == Leaf(t.key)
             new == Leaf(k)
         IN <<[leaf |-> FALSE, axis |-> ax, p2 |-> p2, lo |-> IF 2 * k[ax] < p2 THEN new ELSE old, hi |-> IF 2 * k[ax] < p2 THEN old ELSE new], 1>>
  ELSE IF 2 * k[t.axis] < t.p2 THEN LET r == Put(t.lo, k) IN <<[t EXCEPT !.lo = r[1]], r[2]>>
       ELSE LET r == Put(t.hi, k) IN <<[t EXCEPT !.hi = r[1]], r[2]>>
Init == B!BInit /\ tree = <<>> /\ leaves = 0 /\ steps = 0
Ins(k) == /\ B!Insert(k)
          /\ IF tree = <<>> THEN tree' = <<Leaf(k)>> /\ leaves' = 1
             ELSE LET r == Put(tree[1], k) IN tree' = <<r[1]>> /\ leaves' = leaves + r[2]
Next == steps < MaxInserts /\ steps' = steps + 1 /\
        ((\E k \in Keys : Ins(k)) \/ (steps > 1 /\ tree # <<>> /\ B!Clear /\ tree' = <<>> /\ leaves' = 0))
Refines == leaves = count /\ B!CountIsSize
RECURSIVE LeafSet(_)
LeafSet(t) == IF t.leaf THEN {t.key} ELSE LeafSet(t.lo) \cup LeafSet(t.hi)
TreeHoldsBins == IF tree = <<>> THEN bins = {} ELSE LeafSet(tree[1]) = bins
Words == {"k0", "k1", "k2", "k3", "x"}
GenLen == atoi(IOEnv.GENLEN)
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq([1..GenLen -> Words]))
=============================================================================
