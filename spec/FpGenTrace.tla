---------------------------- MODULE FpGenTrace ----------------------------
(* Validates recorded runs of generate-fingerprints: for every file, the   *)
(* journal before and after; whether a second run changed a byte; whether  *)
(* merge accepted the result.                                              *)
EXTENDS FpGen, Json, IOUtils
Raw == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in DOMAIN s}
D(p) == [p EXCEPT !.tags = ToSet(@)]
RECURSIVE Flat(_)
Flat(ts) == IF ts = <<>> THEN <<>> ELSE [j \in DOMAIN Head(ts).ps |-> D(Head(ts).ps[j])] \o Flat(Tail(ts))

BadFile(x) ==
  IF ~x.ok \/ ~x.parsed THEN "failed"
  ELSE IF Len(x.b) # Len(x.a) THEN "transactions"
  ELSE IF \E i \in DOMAIN x.b : x.b[i].h # x.a[i].h \/ Len(x.b[i].ps) # Len(x.a[i].ps) THEN "transactions"
  ELSE LET p == Flat(x.b)  q == Flat(x.a) IN
       IF \E i \in DOMAIN p : ~Step(p[i], q[i]) THEN "postings"
       ELSE IF ~x.again THEN "second run"
       ELSE IF x.merged # (\A i \in DOMAIN p : ~\E t \in p[i].tags : IsCandidate(t)) THEN "merge" ELSE ""
AddedIn(x) == LET p == Flat(x.b)  q == Flat(x.a) IN [i \in DOMAIN p |-> Added(p[i], q[i])]
RECURSIVE AllAdded(_)
AllAdded(fs) == IF fs = <<>> THEN <<>> ELSE AddedIn(Head(fs)) \o AllAdded(Tail(fs))
Existing(fs) == UNION {UNION {Fps(Flat(fs[i].b)[j]) : j \in DOMAIN Flat(fs[i].b)} : i \in DOMAIN fs}

Bad(x) ==
  LET bf == {BadFile(x.files[i]) : i \in DOMAIN x.files} \ {""} IN
  IF bf # {} THEN CHOOSE b \in bf : TRUE
  ELSE LET s == SelectSeq(AllAdded(x.files), LAMBDA t: t # {}) IN
       IF Cardinality({s[i] : i \in DOMAIN s}) # Len(s) THEN "not unique"
       ELSE IF UNION {s[i] : i \in DOMAIN s} \cap Existing(x.files) # {} THEN "not fresh" ELSE ""

VARIABLES tid, done
Init == tid \in 1..Len(Raw) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED tid
        /\ LET b == Bad(Raw[tid]) IN (b # "") => PrintT(<<"BAD", Raw[tid].id, 0, {b}, "">>)
Spec == Init /\ [][Next]_<<tid, done>>
=============================================================================
