------------------------------ MODULE WholeMC ------------------------------
(* Exhaustive check over all sequences of up to MaxLen lines: what is       *)
(* taken is what has no line without a place in a transaction, and what is  *)
(* handed on has every header and posting line of what was taken.           *)
EXTENDS JournalMC, Whole
(* Whether line i stands inside a transaction: after a header, with only
   postings and comments in between. *)
InTrn(i) == \E h \in 1..(i - 1) : /\ ls[h].k = "head"
                                  /\ \A j \in (h + 1)..(i - 1) : ls[j].k \in {"post", "star", "com", "iinc"}
IsPosting(i) == ls[i].k \in {"post", "star", "iinc"} /\ InTrn(i)
HasPostings(h) == \E i \in (h + 1)..Len(ls) : IsPosting(i) /\ \A j \in (h + 1)..i : ls[j].k \in {"post", "star", "com", "iinc"}
TakenIff ==
  Takes("rules", ls) <=>
     /\ \A i \in DOMAIN ls : ls[i].k \in {"head", "blank"} \/ InTrn(i)
     /\ \A i \in DOMAIN ls : ls[i].k \notin {"price", "inc", "junk"}
     /\ \A h \in DOMAIN ls : ls[h].k = "head" => HasPostings(h)
TakenByFmtToo == Takes("rules", ls) => Takes("fmt", ls)
RECURSIVE Posts(_)
Posts(its) == IF its = <<>> THEN 0 ELSE Len(Head(its).ps) + Posts(Tail(its))
EveryPosting ==
  Takes("rules", ls) =>
    LET c == Content(Read(ls)[2]) IN
    /\ Len(c) = Cardinality({i \in DOMAIN ls : ls[i].k = "head"})
    /\ Posts(c) = Cardinality({i \in DOMAIN ls : ls[i].k \in {"post", "star", "iinc"}})
    /\ HandsOn("rules", <<ls>>, Write(Read(ls)[2]))
    /\ HandsOn("merge", <<ls>>, Write(Read(ls)[2]))
=============================================================================
