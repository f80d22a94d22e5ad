---------------------------- MODULE CommentTrace ----------------------------
(* Validates recorded round trips of comments through the real program.    *)
(* An item has cs: records [inp, out1, out2] of comment lines, out1        *)
(* written from inp and out2 from out1; add: tags the command adds to      *)
(* every posting comment (none here), drop: value tags it drops.           *)
EXTENDS Comment, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)

(* The blanks around a value are layout.                                   *)
Tidy(c) == [c EXCEPT !.vt = [k \in DOMAIN c.vt |-> Trim(c.vt[k])]]

BadOf(x) ==
  LET c == Parse(ReadLines(x.inp)) IN
  IF x.out1 # Write(c) THEN "C13"
  ELSE IF x.out2 # Normal(x.out1) THEN "C13"
  ELSE IF x.out2 # x.out1 THEN (IF Fragile(c) THEN "fragile" ELSE "C13")
  ELSE IF Tidy(Parse(ReadLines(x.out1))) # Tidy(c) THEN (IF Fragile(c) THEN "fragile" ELSE "C13")
  ELSE ""

VARIABLES tid, done
Init == tid \in 1..Len(Raw) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET x == Raw[tid] IN
           IF ~x.shape THEN PrintT(<<"BAD", x.id, 0, {"C13"}, "shape">>)
           ELSE \A i \in DOMAIN x.cs :
                  LET b == BadOf(x.cs[i]) IN
                  (b # "") => PrintT(<<"BAD", x.id, i, {b}, x.cs[i].inp>>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
