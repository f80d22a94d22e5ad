---------------------------- MODULE JournalTrace ----------------------------
(* Validates recorded runs of fmt: in, the lines given to it; ok, whether  *)
(* it succeeded; out, the lines it left; same, whether a second run left   *)
(* the bytes as they were.                                                 *)
EXTENDS Journal, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)

Bad(x) ==
  LET r == Read(x.inp) IN
  IF r[1] # x.ok THEN "outcome"
  ELSE IF ~r[1] THEN (IF x.untouched THEN "" ELSE "touched")
  ELSE IF ~x.lexed THEN "unreadable"
  ELSE LET o == Read(x.out) IN
       IF ~o[1] THEN "unreadable"
       ELSE IF Content(o[2]) # Content(r[2]) THEN "content"
       ELSE IF ~x.same THEN "idempotent" ELSE ""

VARIABLES tid, done
Init == tid \in 1..Len(Raw) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad(Raw[tid]) IN (b # "") => PrintT(<<"BAD", Raw[tid].id, 0, {b}, "">>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
