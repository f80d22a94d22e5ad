----------------------------- MODULE WholeTrace -----------------------------
(* Validates recorded runs of the commands over whole journals: op, the    *)
(* command; docs, the lines of the journals given to it; ok, whether it    *)
(* succeeded; untouched, if it failed, whether it left everything as it    *)
(* was; lexed and out, the lines of the journal it left.                   *)
EXTENDS Whole, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)

Bad(x) ==
  IF TakesAll(x.op, x.docs) # x.ok THEN (IF x.ok THEN "taken" ELSE "refused")
  ELSE IF ~x.ok THEN (IF x.untouched THEN "" ELSE "touched")
  ELSE IF ~x.lexed THEN "unreadable"
  ELSE IF HandsOn(x.op, x.docs, x.out) THEN "" ELSE "lost"

VARIABLES tid, done
Init == tid \in 1..Len(Raw) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad(Raw[tid]) IN (b # "") => PrintT(<<"BAD", Raw[tid].id, 0, {b}, "">>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
