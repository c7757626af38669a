-------------------------------- MODULE Race --------------------------------
(* Which accesses are ordered: vector clocks.  A thread's release is seen   *)
(* by the next acquire of the same object.                                  *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Threads
VARIABLES
  clk,   \* of every thread: what it knows of the others
  obj,   \* of every object: what is passed on
  acs    \* of every location: the last accesses of every thread, by kind
Zero == [t \in Threads |-> 0]
Join(a, b) == [t \in Threads |-> IF a[t] < b[t] THEN b[t] ELSE a[t]]
Knows(t, v) == \A u \in Threads : v[u] <= clk[t][u]
Fresh == [r |-> Zero, w |-> Zero, ar |-> Zero, aw |-> Zero]
(* r: plain reads, w: plain writes, ar and aw: atomic *)
Against(k) == CASE k = "r" -> {"w", "aw"} [] k = "w" -> {"r", "w", "ar", "aw"} [] k = "ar" -> {"w"} [] k = "aw" -> {"r", "w"}
Ordered(t, x, k) == \A j \in Against(k) : Knows(t, [acs[x][j] EXCEPT ![t] = 0])
Begin(locs, objs) ==
  /\ clk = [t \in Threads |-> [Zero EXCEPT ![t] = 1]]
  /\ obj = [o \in objs |-> Zero]
  /\ acs = [x \in locs |-> Fresh]
Begin2(locs, objs) ==
  /\ clk' = [t \in Threads |-> [Zero EXCEPT ![t] = 1]]
  /\ obj' = [o \in objs |-> Zero]
  /\ acs' = [x \in locs |-> Fresh]
Sync(t, o, acq, rel) ==
  LET k == IF acq THEN Join(clk[t], obj[o]) ELSE clk[t]
  IN /\ clk' = [clk EXCEPT ![t] = IF rel THEN [k EXCEPT ![t] = @ + 1] ELSE k]
     /\ obj' = IF rel THEN [obj EXCEPT ![o] = Join(@, k)] ELSE obj
     /\ UNCHANGED acs
(* a: kind -> sequence of locations *)
Touch(t, a) ==
  LET mark(f, k) == FoldLeft(LAMBDA g, x : [g EXCEPT ![x][k][t] = clk[t][t]], f, a[k])
  IN /\ acs' = mark(mark(mark(mark(acs, "r"), "w"), "ar"), "aw")
     /\ UNCHANGED <<clk, obj>>
=============================================================================
