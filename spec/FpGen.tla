------------------------------- MODULE FpGen -------------------------------
(* generate-fingerprints: every posting without a fingerprint tag gets one *)
(* new tag; nothing else changes.  A posting is a record with a set tags.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

HasPrefix(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
IsFp(t) == HasPrefix(t, "fp-")
IsNew(t) == HasPrefix(t, "fp-uuidb64-") /\ Len(t) > Len("fp-uuidb64-")
Fps(p) == {t \in p.tags : IsFp(t)}

(* What merge refuses whatever its fingerprints. *)
IsCandidate(t) == HasPrefix(t, "candidate-")

(* One posting, given a fresh tag. *)
GenP(p, fresh) == IF Fps(p) = {} THEN [p EXCEPT !.tags = @ \cup {fresh}] ELSE p

(* The relation between a posting before and after, whatever the new tag is. *)
Step(p, q) ==
  \/ Fps(p) # {} /\ q = p
  \/ Fps(p) = {} /\ \E t \in q.tags \ p.tags : IsNew(t) /\ q = GenP(p, t)
Added(p, q) == q.tags \ p.tags
=============================================================================
