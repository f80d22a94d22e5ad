------------------------------- MODULE Merge -------------------------------
(***************************************************************************)
(* The merge subcommand: a database of transactions into which batches     *)
(* ("sources") of transactions are merged one after another.               *)
(*                                                                         *)
(* A posting is a record                                                   *)
(*   acct  account name            kind  "" real, "(" / "[" virtual        *)
(*   amt   [k, t]: k decides equality, t is what is printed; k = "" absent *)
(*   bal   [k, t] likewise         st    "" none, "!" pending, "*" cleared *)
(*   lines, tags, vt   comment text (sequence), flag tags (set), value     *)
(*                     tags (function)                                     *)
(* A header has date, edate, st, code, desc, lines, tags, vt.              *)
(* A transaction is [h |-> header, ps |-> non-empty sequence of postings]. *)
(* The database is a sequence of transactions in the order of creation.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

UNKNOWN == "unknown-account"
SRC     == "source-file"

HasPrefix(s, pre) == Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre
IsFp(t)   == HasPrefix(t, "fp-")
IsCand(t) == HasPrefix(t, "candidate-")
Fps(p)    == {t \in p.tags : IsFp(t)}
ToSet(s)  == {s[i] : i \in DOMAIN s}
Restrict(f, S) == [x \in S |-> f[x]]

RECURSIVE FlattenSeqs(_)
FlattenSeqs(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o FlattenSeqs(Tail(ss))

RECURSIVE AddLines(_, _)
AddLines(have, new) ==
  IF new = <<>> THEN have
  ELSE AddLines(IF \E i \in DOMAIN have : have[i] = Head(new) THEN have ELSE Append(have, Head(new)), Tail(new))

(***************************************************************************)
(* Matching.                                                               *)
(***************************************************************************)
Ids(db) == UNION {{<<i, j>> : j \in DOMAIN db[i].ps} : i \in DOMAIN db}
At(db, id) == db[id[1]].ps[id[2]]

FpHits(db, p) == {id \in Ids(db) : \E t \in Fps(p) : t \in At(db, id).tags}

SoftMatches(d, s) ==
  /\ d.amt.k = s.amt.k
  /\ (d.bal.k # "" /\ s.bal.k # "") => d.bal.k = s.bal.k
  /\ (UNKNOWN \notin d.tags /\ UNKNOWN \notin s.tags) => d.acct = s.acct

SoftHits(db, date, p) ==
  {id \in Ids(db) : db[id[1]].h.date = date /\ SoftMatches(At(db, id), p)}

(* What is to be done with posting p of a transaction dated date:          *)
(*   "bad"  - its fingerprints are on several existing postings            *)
(*   "into" - merge into posting id,  "many" - ambiguous,  "new" - add     *)
Decide(db, date, p) ==
  LET fh == FpHits(db, p) IN
  IF Cardinality(fh) > 1 THEN [a |-> "bad", ids |-> fh]
  ELSE IF fh # {} THEN [a |-> "into", ids |-> fh]
  ELSE LET sh == SoftHits(db, date, p) IN
       IF sh = {} THEN [a |-> "new", ids |-> {}]
       ELSE IF Cardinality(sh) = 1 THEN [a |-> "into", ids |-> sh]
       ELSE [a |-> "many", ids |-> sh]

Only(S) == CHOOSE x \in S : TRUE

(***************************************************************************)
(* Merging one posting into another.                                       *)
(***************************************************************************)
MergePosting(d, s) ==
  LET take == UNKNOWN \in d.tags /\ UNKNOWN \notin s.tags IN
  [d EXCEPT
    !.st    = IF d.st = "" THEN s.st ELSE IF d.st = "!" /\ s.st = "*" THEN "*" ELSE d.st,
    !.bal   = IF d.bal.k = "" THEN s.bal ELSE d.bal,
    !.acct  = IF take THEN s.acct ELSE d.acct,
    !.tags  = (IF take THEN d.tags \ {UNKNOWN} ELSE d.tags) \cup (s.tags \ {UNKNOWN}),
    !.vt    = s.vt @@ d.vt,
    !.lines = AddLines(d.lines, s.lines)]

(***************************************************************************)
(* Merging one batch.                                                      *)
(***************************************************************************)
BatchPostings(batch) == FlattenSeqs([i \in DOMAIN batch |-> batch[i].ps])

DupFps(batch) ==
  LET ps == BatchPostings(batch) IN
  \E i, j \in DOMAIN ps : i < j /\ Fps(ps[i]) \cap Fps(ps[j]) # {}

Decisions(db, batch) ==
  [i \in DOMAIN batch |-> [j \in DOMAIN batch[i].ps |-> Decide(db, batch[i].h.date, batch[i].ps[j])]]

Unmerged(ds)   == \E j \in DOMAIN ds : ds[j].a = "many"
DestTrns(ds)   == {Only(ds[j].ids)[1] : j \in {x \in DOMAIN ds : ds[x].a = "into"}}

(* The reasons, if any, for refusing the batch.                            *)
Errors(db, batch) ==
  LET ps == BatchPostings(batch)
      d  == Decisions(db, batch)
      live == {i \in DOMAIN batch : ~Unmerged(d[i])}
      into == UNION {{<<i, j>> : j \in {x \in DOMAIN d[i] : d[i][x].a = "into"}} : i \in live}
  IN  (IF \E i \in DOMAIN ps : \E t \in ps[i].tags : IsCand(t) THEN {"candidate"} ELSE {})
      \cup (IF \E i \in DOMAIN ps : Fps(ps[i]) = {} THEN {"nofp"} ELSE {})
      \cup (IF DupFps(batch) THEN {"dupfp"} ELSE {})
      \cup (IF \E i \in DOMAIN d : \E j \in DOMAIN d[i] : d[i][j].a = "bad" THEN {"multipost"} ELSE {})
      \cup (IF \E i \in live : Cardinality(DestTrns(d[i])) > 1 THEN {"multitrn"} ELSE {})
      \cup (IF \E x, y \in into : x # y /\ d[x[1]][x[2]].ids = d[y[1]][y[2]].ids THEN {"samedest"} ELSE {})

RECURSIVE ApplyPostings(_, _, _, _)
ApplyPostings(db, ti, ps, ds) ==
  IF ps = <<>> THEN db
  ELSE LET p == Head(ps)
           d == Head(ds)
           db2 == IF d.a = "new" THEN [db EXCEPT ![ti].ps = Append(@, p)]
                  ELSE LET id == Only(d.ids) IN [db EXCEPT ![id[1]].ps[id[2]] = MergePosting(@, p)]
       IN ApplyPostings(db2, ti, Tail(ps), Tail(ds))

RECURSIVE ApplyTrns(_, _, _)
ApplyTrns(db, trns, ds) ==
  IF trns = <<>> THEN db
  ELSE LET t == Head(trns)
           d == Head(ds)
           tis == DestTrns(d)
           db2 == IF Unmerged(d) THEN db
                  ELSE IF tis = {} THEN Append(db, t)
                  ELSE ApplyPostings(db, Only(tis), t.ps, d)
       IN ApplyTrns(db2, Tail(trns), Tail(ds))

(* Unmerged transactions, with the fingerprint sets of the candidates of   *)
(* each posting.                                                           *)
UnmergedOf(db, batch, ds) ==
  LET idx == SelectSeq([i \in DOMAIN batch |-> i], LAMBDA i : Unmerged(ds[i]))
  IN [n \in DOMAIN idx |->
        [h |-> batch[idx[n]].h, ps |-> batch[idx[n]].ps,
         cands |-> [j \in DOMAIN batch[idx[n]].ps |->
                      IF ds[idx[n]][j].a = "many" THEN {Fps(At(db, id)) : id \in ds[idx[n]][j].ids} ELSE {}]]]

(* The result of merging one batch into db.                                *)
Step(db, batch) ==
  LET errs == Errors(db, batch) IN
  IF errs # {} THEN [err |-> errs, db |-> db, un |-> <<>>]
  ELSE LET ds == Decisions(db, batch)
       IN [err |-> {}, db |-> ApplyTrns(db, batch, ds), un |-> UnmergedOf(db, batch, ds)]

RECURSIVE Steps(_, _, _)
Steps(db, un, batches) ==
  IF batches = <<>> THEN [err |-> {}, db |-> db, un |-> un]
  ELSE LET r == Step(db, Head(batches)) IN
       IF r.err # {} THEN r ELSE Steps(r.db, un \o r.un, Tail(batches))

(***************************************************************************)
(* Output: stable sort by date, sources stripped.                          *)
(***************************************************************************)
RECURSIVE SortDates(_)
SortDates(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortDates(S \ {m})

Sorted(db) ==
  LET dates == SortDates({db[i].h.date : i \in DOMAIN db})
  IN FlattenSeqs([n \in DOMAIN dates |-> SelectSeq(db, LAMBDA t : t.h.date = dates[n])])

StripSrc(h) == [h EXCEPT !.vt = Restrict(@, DOMAIN @ \ {SRC})]
Output(db)  == LET s == Sorted(db) IN [i \in DOMAIN s |-> [s[i] EXCEPT !.h = StripSrc(@)]]

(***************************************************************************)
(* Files: the transactions of one input file fall into sources (by their   *)
(* source-file tag, or the file's own name def), merged in byte order.     *)
(* In a file every transaction carries sb, the bytes of its effective      *)
(* source name, and h.vt[SRC] is that name.                                *)
(***************************************************************************)
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
                 ELSE LexLess(Tail(a), Tail(b))

RECURSIVE SortSources(_)
SortSources(S) == IF S = {} THEN <<>>
                  ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : LexLess(x, y)
                       IN <<m>> \o SortSources(S \ {m})

SourcesOf(file) == SortSources({file[i].sb : i \in DOMAIN file})
BatchesOf(file) ==
  LET ss == SourcesOf(file)
  IN [n \in DOMAIN ss |->
        LET ts == SelectSeq(file, LAMBDA t : t.sb = ss[n])
        IN [i \in DOMAIN ts |-> [h |-> ts[i].h, ps |-> ts[i].ps]]]

(***************************************************************************)
(* Properties of the design.                                               *)
(***************************************************************************)
AllPostings(db) == BatchPostings(db)

(* Every fingerprint is on one posting only, and every posting has one.    *)
FpsUnique(db) ==
  LET ps == AllPostings(db) IN
  /\ \A i \in DOMAIN ps : Fps(ps[i]) # {}
  /\ \A i, j \in DOMAIN ps : i # j => Fps(ps[i]) \cap Fps(ps[j]) = {}
NoCandidates(db) == \A i \in DOMAIN db : \A j \in DOMAIN db[i].ps : \A t \in db[i].ps[j].tags : ~IsCand(t)

(* Every fingerprint ever merged is still there.                           *)
FpSet(trns) == UNION {Fps(AllPostings(trns)[i]) : i \in DOMAIN AllPostings(trns)}

StatusLeq(a, b) == a = b \/ a = "" \/ (a = "!" /\ b = "*")

(* Postings of db1 are still in db2, with at least their information.      *)
Grows(db1, db2) ==
  /\ Len(db1) <= Len(db2)
  /\ \A i \in DOMAIN db1 :
       /\ db2[i].h = db1[i].h
       /\ Len(db1[i].ps) <= Len(db2[i].ps)
       /\ \A j \in DOMAIN db1[i].ps :
            LET a == db1[i].ps[j]
                b == db2[i].ps[j]
            IN /\ b.amt = a.amt /\ b.kind = a.kind
               /\ a.bal.k # "" => b.bal = a.bal
               /\ StatusLeq(a.st, b.st)
               /\ b.acct # a.acct => UNKNOWN \in a.tags /\ UNKNOWN \notin b.tags
               /\ a.tags \ {UNKNOWN} \subseteq b.tags
               /\ UNKNOWN \in b.tags => UNKNOWN \in a.tags
               /\ DOMAIN a.vt \subseteq DOMAIN b.vt
               /\ Len(a.lines) <= Len(b.lines) /\ SubSeq(b.lines, 1, Len(a.lines)) = a.lines
=============================================================================
