----------------------------- MODULE MC_Filter ------------------------------
(* Resampling as a loop of draws; its outcome is the one specified.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NBins, MaxMax
VARIABLES min, max, parts, wts, drawn, busy, kld, last
LPositive(w) == w > 0
LBin(p) == p \div 2
LBound(k, e) == (k - 1) * e
F == INSTANCE Filter WITH Positive <- LPositive, Even <- 1, BinOf <- LBin, Bound <- LBound
Places == 0..(2 * NBins - 1)
Init == /\ \E lo \in 1..2, hi \in 1..MaxMax : lo <= hi /\ min = lo /\ max = hi /\ parts = [i \in 1..lo |-> 0] /\ wts = [i \in 1..lo |-> 1]
        /\ drawn = <<>> /\ busy = FALSE /\ kld = 1 /\ last = "create"
Seqs(S, n) == [1..n -> S]
Idle == ~busy /\ UNCHANGED <<drawn, busy, kld>>
Next ==
  \/ Idle /\ last = "create" /\ last' = "spread" /\ \E ps \in Seqs(Places, Len(parts)) : F!Spread(ps)
  \/ Idle /\ last \in {"spread", "resample"} /\ last' = "measure" /\ \E ws \in Seqs({0, 1, 2}, Len(parts)) : F!Measure(ws)
  \/ Idle /\ last = "measure" /\ last' = "move" /\ \E i \in 1..Len(parts) : F!Move([parts EXCEPT ![i] = (@ + 1) % (2 * NBins)])
  \/ ~busy /\ last \in {"measure", "move"} /\ busy' = TRUE /\ drawn' = <<>> /\ kld' \in 1..2 /\ last' = "resample" /\ UNCHANGED <<min, max, parts, wts>>
  \/ busy /\ ~F!Enough(Len(drawn), F!Occupied(drawn), kld) /\ (\E p \in F!Supported : drawn' = Append(drawn, p))
          /\ UNCHANGED <<min, max, parts, wts, busy, kld, last>>
  \/ busy /\ drawn # <<>> /\ F!Enough(Len(drawn), F!Occupied(drawn), kld)
          /\ F!Resample(drawn, kld) /\ busy' = FALSE /\ drawn' = <<>> /\ UNCHANGED <<kld, last>>
Small == Len(parts) <= MaxMax
(* the loop never stops where the specification does not allow it, nor goes on *)
LoopIsSpec == busy /\ drawn # <<>> => (F!Resampled(drawn, kld) <=> F!Enough(Len(drawn), F!Occupied(drawn), kld))
NeverStuck == busy => F!Supported # {}
NumberInLimits == ~busy => Len(parts) \in min..max
WeightsEverywhere == Len(wts) = Len(parts) /\ \E i \in 1..Len(wts) : wts[i] > 0
=============================================================================
