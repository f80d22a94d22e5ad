------------------------------ MODULE MergeMC ------------------------------
(* Exhaustive design check of Merge over a small universe of batches, and  *)
(* generator of scenarios (histories of batches) for the real binary.      *)
EXTENDS Merge, Json, IOUtils

CONSTANTS FpNames,   \* fingerprint tags
          Accts,     \* account names
          Amts, Bals, Dates,
          TrnsAt, PostsAt,  \* per batch: maximal number of transactions, of postings in each
          Emit       \* whether to print every complete history

Amt(n) == IF n = "" THEN [k |-> "", t |-> ""] ELSE [k |-> "L|GBP|" \o n, t |-> "GBP" \o n]
NoVt == [x \in {} |-> ""]

MaxBatches == Len(TrnsAt)
P111 == <<1, 1, 1>>
P221 == <<2, 2, 1>>
P112 == <<1, 1, 2>>
P222 == <<2, 2, 2>>
P22  == <<2, 2>>
P11  == <<1, 1>>
P32  == <<3, 2>>
P1111 == <<1, 1, 1, 1>>

(* One or the first two fingerprints; accounts known, or unknown. *)
Postings ==
  {[acct |-> a[1], kind |-> "", amt |-> Amt(m), bal |-> Amt(b), st |-> "", lines |-> <<>>,
    tags |-> fs \cup (IF a[2] THEN {UNKNOWN} ELSE {}), vt |-> NoVt] :
     a \in (Accts \X {FALSE}) \cup {<<"u", TRUE>>}, m \in Amts, b \in Bals,
     fs \in {{f} : f \in FpNames} \cup {{"fp-a", "fp-b"}}}

Header(d) == [date |-> d, edate |-> 0, st |-> "", code |-> "", desc |-> "t", lines |-> <<>>, tags |-> {}, vt |-> NoVt]

PostSeqs(m) == UNION {[1..n -> Postings] : n \in 1..m}

VARIABLES db, un, hist, last, status
vars == <<db, un, hist, last, status>>

Init == db = <<>> /\ un = <<>> /\ hist = <<>> /\ last = <<>> /\ status = "ok"

Do(batch) ==
  LET r == Step(db, batch) IN
  /\ hist' = Append(hist, batch)
  /\ last' = batch
  /\ db' = r.db
  /\ un' = r.un
  /\ status' = IF r.err = {} THEN "ok" ELSE "rejected"

Trns(k) == {[h |-> Header(d), ps |-> ps] : d \in Dates, ps \in PostSeqs(PostsAt[k])}
BatchesAt == [k \in DOMAIN TrnsAt |-> UNION {[1..n -> Trns(k)] : n \in 1..TrnsAt[k]}]

(* Symmetry by hand: fingerprints are first used in order. *)
FpOrder == <<"fp-a", "fp-b", "fp-c", "fp-d">>
Canonical(b) ==
  LET used == FpSet(db) \cup FpSet(b)
  IN \A i \in 1..Len(FpOrder) : (FpOrder[i] \in used /\ i > 1) => FpOrder[i-1] \in used

Next == /\ status = "ok"
        /\ Len(hist) < MaxBatches
        /\ \E b \in BatchesAt[Len(hist) + 1] : Canonical(b) /\ Do(b)

Spec == Init /\ [][Next]_vars

(* Design invariants, one per listed property they support. *)
InvFps     == FpsUnique(db) /\ NoCandidates(db)                             \* C01
\* A registered fingerprint never moves: no "internal error" state.
InvOut     == LET o == Output(db) IN                                        \* C06
                /\ Len(o) = Len(db)
                /\ \A i, j \in DOMAIN o : i < j => o[i].h.date <= o[j].h.date
                /\ ToSet(o) = {[t EXCEPT !.h = StripSrc(@)] : t \in ToSet(db)}
InvConserve == status = "ok" /\ hist # <<>> =>                              \* C01
                 FpSet(last) \subseteq FpSet(db) \cup FpSet(un)
InvIdem    == status = "ok" /\ hist # <<>> /\ un = <<>> =>                  \* C05
                LET r == Step(db, last) IN r.err = {} /\ r.db = db /\ r.un = <<>>
ActGrow    == [][Grows(db, db')]_vars                                       \* C04
ActReject  == [][status' = "rejected" => db' = db /\ un' = <<>>]_vars       \* C02
(* Incremental composition: going through the written output and back is   *)
(* no different, up to the order of creation, which the output sorts.      *)
ActInc     == [][LET r == Step(Output(db), last') IN                         \* C05
                   /\ (r.err = {}) = (status' = "ok")
                   /\ r.err = {} => Output(r.db) = Output(db') /\ r.un = un']_vars
InvUn      == \A i \in DOMAIN un : \E j \in DOMAIN un[i].cands :            \* C07
                 /\ Cardinality(un[i].cands[j]) > 1
                 /\ \A c \in un[i].cands[j] : c # {} /\ c \subseteq FpSet(db)

(* ----- scenario emission ----- *)
JP(p) == [acct |-> p.acct, kind |-> p.kind, amt |-> p.amt, bal |-> p.bal, st |-> p.st, lines |-> p.lines,
          tags |-> p.tags, vt |-> <<>>]
JT(t) == [date |-> t.h.date, ps |-> [j \in DOMAIN t.ps |-> JP(t.ps[j])]]
JB(b) == [i \in DOMAIN b |-> JT(b[i])]
EmitInv == (Emit /\ (Len(hist) = MaxBatches \/ status = "rejected")) =>
             PrintT(<<"SCN", ToJson([i \in DOMAIN hist |-> JB(hist[i])])>>)
=============================================================================
