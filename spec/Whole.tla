------------------------------- MODULE Whole -------------------------------
(* Which journals a command takes, and what of them it must hand on.       *)
(* fmt takes every journal that can be read.  The commands that process    *)
(* transactions take journals of transactions (and blank lines) only, and  *)
(* hand on every one of them with every posting; any other journal is      *)
(* refused as a whole.                                                     *)
EXTENDS Journal, FiniteSets

OnlyTrns(items) == \A i \in DOMAIN items : items[i].t \in {"trn", "blank"}
Takes(op, ls) == LET r == Read(ls) IN r[1] /\ (op = "fmt" \/ OnlyTrns(r[2]))
TakesAll(op, docs) == \A d \in DOMAIN docs : Takes(op, docs[d])

RECURSIVE Joined(_)
Joined(docs) == IF docs = <<>> THEN <<>> ELSE Content(Read(Head(docs))[2]) \o Joined(Tail(docs))

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
(* merge puts transactions in date order (which one is Merge's business).  *)
HandsOn(op, docs, out) ==
  LET r == Read(out) IN
  /\ r[1]
  /\ IF op = "merge" THEN SameBag(Joined(docs), Content(r[2])) ELSE Joined(docs) = Content(r[2])
=============================================================================
