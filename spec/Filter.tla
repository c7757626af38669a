------------------------------- MODULE Filter -------------------------------
(* The particle filter: particles, and weights proportional to the last     *)
(* measurement.  Random draws are nondeterministic choices.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS Positive(_),      \* a weight that can be drawn
          Even,             \* the weight of particles that are equally likely
          BinOf(_),         \* bin of a particle
          Bound(_, _)       \* KLD bound for a number of occupied bins >= 2, and the KLD parameters
VARIABLES min, max, parts, wts
fvars == <<min, max, parts, wts>>
AllEven(n) == [i \in 1..n |-> Even]
Create(lo, hi, origin) == min' = lo /\ max' = hi /\ parts' = [i \in 1..lo |-> origin] /\ wts' = AllEven(lo)
(* spread around a pose: any particles, as many as before *)
Spread(ps) == Len(ps) = Len(parts) /\ parts' = ps /\ wts' = AllEven(Len(ps)) /\ UNCHANGED <<min, max>>
Move(ps) == Len(ps) = Len(parts) /\ parts' = ps /\ UNCHANGED <<min, max, wts>>
(* a measurement replaces the weights; one that no particle explains says nothing *)
Measure(ws) == /\ Len(ws) = Len(parts)
               /\ wts' = IF \E i \in 1..Len(ws) : Positive(ws[i]) THEN ws ELSE AllEven(Len(ws))
               /\ UNCHANGED <<min, max, parts>>
-----------------------------------------------------------------------------
Supported == {parts[i] : i \in {j \in 1..Len(parts) : Positive(wts[j])}}
Larger(a, b) == IF a < b THEN b ELSE a
(* particles wanted once k bins are occupied (a single bin tells nothing yet) *)
Wanted(k, kld) == Larger(min, IF k <= 1 THEN max ELSE Bound(k, kld))
Enough(drawn, k, kld) == drawn >= Wanted(k, kld) \/ drawn >= max
Occupied(ps) == Cardinality({BinOf(ps[i]) : i \in 1..Len(ps)})
(* the whole outcome of resampling: draws stop at the first moment there are enough *)
Resampled(ps, kld) ==
  /\ \A i \in 1..Len(ps) : ps[i] \in Supported
  /\ Len(ps) >= 1
  /\ Enough(Len(ps), Occupied(ps), kld)
  /\ \A i \in 1..(Len(ps) - 1) : ~Enough(i, Occupied(SubSeq(ps, 1, i)), kld)
Resample(ps, kld) == Resampled(ps, kld) /\ parts' = ps /\ wts' = AllEven(Len(ps)) /\ UNCHANGED <<min, max>>
=============================================================================
