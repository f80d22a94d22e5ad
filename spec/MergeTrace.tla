----------------------------- MODULE MergeTrace -----------------------------
(* Validates recorded runs of the real merge subcommand against Merge.     *)
(* Every trace is a history of input files; step s observes the outputs of *)
(* a run over the first k files.  Labels of violated properties are        *)
(* printed.                                                                *)
EXTENDS Merge, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)

VtOf(s) == [key \in {s[i][1] : i \in DOMAIN s} |->
             LET i == CHOOSE j \in DOMAIN s : s[j][1] = key IN s[i][2]]
DP(p) == [acct |-> p.acct, kind |-> p.kind, amt |-> p.amt, bal |-> p.bal, st |-> p.st,
          lines |-> p.lines, tags |-> ToSet(p.tags), vt |-> VtOf(p.vt)]
DH(h) == [date |-> h.date, edate |-> h.edate, st |-> h.st, code |-> h.code, desc |-> h.desc,
          lines |-> h.lines, tags |-> ToSet(h.tags), vt |-> VtOf(h.vt)]
DT(t) == [h |-> DH(t.h), ps |-> [j \in DOMAIN t.ps |-> DP(t.ps[j])]]
DTs(ts) == [i \in DOMAIN ts |-> DT(ts[i])]
DFile(f) == [i \in DOMAIN f |-> [h |-> DH(f[i].h), ps |-> DT(f[i]).ps, sb |-> f[i].sb]]

N == Len(Raw)

VARIABLES tid, s, k, db, un, bad, done
vars == <<tid, s, k, db, un, bad, done>>

Tr == Raw[tid]

(***************************************************************************)
(* Comparison of an expected result with an observation.                   *)
(***************************************************************************)
RECURSIVE FilesUpTo(_, _)
FilesUpTo(fs, n) == IF n = 0 THEN <<>> ELSE FilesUpTo(fs, n - 1) \o FlattenSeqs(BatchesOf(DFile(fs[n])))

NonCand(tags) == {t \in tags : ~IsCand(t)}
KeyOfTrn(t) == [h |-> t.h, ps |-> [j \in DOMAIN t.ps |-> [t.ps[j] EXCEPT !.tags = NonCand(@)]]]
CountIn(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})

(* C01: conservation, independently of how the matching was decided. *)
Conserves(inTrns, outT, unT) ==
  LET ukeys == [i \in DOMAIN unT |-> KeyOfTrn(unT[i])]
      merged == SelectSeq(inTrns, LAMBDA t : CountIn(inTrns, t) > CountIn(ukeys, t))
      mp == BatchPostings(merged)
      op == BatchPostings(outT)
  IN /\ \A i \in DOMAIN ukeys : CountIn(ukeys, ukeys[i]) <= CountIn(inTrns, ukeys[i])
     /\ \A i \in DOMAIN mp : Cardinality({j \in DOMAIN op : Fps(op[j]) \cap Fps(mp[i]) # {}}) = 1
     /\ \A i \in DOMAIN mp : \E j \in DOMAIN op : Fps(mp[i]) \subseteq Fps(op[j])
     /\ \A j \in DOMAIN op :
          LET src == {i \in DOMAIN mp : Fps(mp[i]) \subseteq Fps(op[j])} IN
          /\ src # {} /\ Fps(op[j]) = UNION {Fps(mp[i]) : i \in src}
          /\ \E i \in src : mp[i].amt = op[j].amt /\ mp[i].kind = op[j].kind

PostKeys(trns) == {Fps(p) : p \in ToSet(AllPostings(trns))}
ByKey(trns, key) == LET ps == AllPostings(trns) IN ps[CHOOSE i \in DOMAIN ps : Fps(ps[i]) = key]
TrnOfKey(trns, key) == trns[CHOOSE i \in DOMAIN trns : \E j \in DOMAIN trns[i].ps : Fps(trns[i].ps[j]) = key]
Groups(trns) == [i \in DOMAIN trns |-> {Fps(trns[i].ps[j]) : j \in DOMAIN trns[i].ps}]
KeySeq(trns) == [i \in DOMAIN AllPostings(trns) |-> Fps(AllPostings(trns)[i])]

AmountsKept(exp, obs) == \A key \in PostKeys(exp) \cap PostKeys(obs) :
   /\ ByKey(exp, key).amt = ByKey(obs, key).amt
   /\ ByKey(exp, key).kind = ByKey(obs, key).kind

FieldsKept(exp, obs) == \A key \in PostKeys(exp) :
   /\ key \in PostKeys(obs)
   /\ ByKey(exp, key) = ByKey(obs, key)
   /\ LET et == TrnOfKey(exp, key)
          ot == TrnOfKey(obs, key)
      IN (Groups(<<et>>) = Groups(<<ot>>)) => et.h = StripSrc(ot.h)

SameOrder(exp, obs) ==
   /\ \A i, j \in DOMAIN obs : i < j => obs[i].h.date <= obs[j].h.date
   /\ LET common == PostKeys(exp) \cap PostKeys(obs)
      IN SelectSeq(KeySeq(exp), LAMBDA x : x \in common) = SelectSeq(KeySeq(obs), LAMBDA x : x \in common)

(* C07: an observed unmerged transaction against the expected one. *)
Sub11(t) == SubSeq(t, 11, Len(t))
CandsOk(p, cands, o) ==
  LET x == {t \in o.tags : IsCand(t)}
  IN /\ [o EXCEPT !.tags = NonCand(@)] = p
     /\ Cardinality(x) = Cardinality(cands)
     /\ \A c \in cands : Cardinality({t \in x : Sub11(t) \in c}) = 1
UnOk(e, o) == /\ o.h = e.h
              /\ Len(o.ps) = Len(e.ps)
              /\ \A j \in DOMAIN e.ps : CandsOk(e.ps[j], e.cands[j], o.ps[j])
UnsOk(es, os) == Len(es) = Len(os) /\ \A i \in DOMAIN es : UnOk(es[i], os[i])

NoSrcTags(trns) == \A i \in DOMAIN trns : SRC \notin DOMAIN trns[i].h.vt
HasSrcTags(es, os) == \A i \in DOMAIN os : /\ SRC \in DOMAIN os[i].h.vt
                                          /\ (Len(es) = Len(os) => os[i].h.vt[SRC] = es[i].h.vt[SRC])

(* Labels violated by observation o of a run whose expected result is e    *)
(* (e.db in order of creation), inTrns being everything that was read.     *)
Judge(e, o, inTrns) ==
  IF ~o.parsed THEN {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"}
  ELSE IF e.err # {} THEN
     (IF o.ok \/ o.outw \/ o.unw THEN {"C02"} ELSE {})
  ELSE IF ~o.ok THEN {"C02"} \cup (IF e.un # <<>> THEN {"C07"} ELSE {})
  ELSE LET exp  == Output(e.db)
           obs  == DTs(o.out)
           obsu == DTs(o.un)
       IN (IF Conserves(inTrns, obs, obsu) /\ AmountsKept(exp, obs) THEN {} ELSE {"C01"})
          \cup (IF /\ \A x \in ToSet(Groups(exp)) : CountIn(Groups(exp), x) = CountIn(Groups(obs), x)
                   /\ Len(exp) = Len(obs)
                   /\ Groups(e.un) = Groups(obsu)
                THEN {} ELSE {"C03"})
          \cup (IF FieldsKept(exp, obs) THEN {} ELSE {"C04"})
          \cup (IF SameOrder(exp, obs) THEN {} ELSE {"C06"})
          \cup (IF UnsOk(e.un, obsu) /\ (o.unw <=> e.un # <<>>) THEN {} ELSE {"C07"})
          \cup (IF NoSrcTags(obs) /\ HasSrcTags(e.un, obsu) THEN {} ELSE {"C08"})

(* Equality of what two observed runs left unmerged, candidates included. *)
SameUn(a, b) ==
  LET x == DTs(a)
      y == DTs(b)
  IN /\ Len(x) = Len(y)
     /\ \A i \in DOMAIN x : [x[i] EXCEPT !.h = StripSrc(@)] = [y[i] EXCEPT !.h = StripSrc(@)]

ObsAt(n) == LET c == {i \in DOMAIN Tr.steps : Tr.steps[i].k = n} IN Tr.steps[CHOOSE i \in c : TRUE]
UnUpTo(n) == IF n = 0 THEN <<>> ELSE ObsAt(n).un

(* Labels violated by a related run (r.rel) given the plain run over the   *)
(* same files and the expected result e of that.                           *)
JudgeRel(r, e) ==
  LET o == ObsAt(r.k) IN
  CASE ~r.parsed -> {r.label}
    [] r.rel = "inc" ->
         IF r.ok # o.ok THEN {"C05"}
         ELSE IF ~o.ok THEN {}
         ELSE IF r.out = o.out /\ SameUn(UnUpTo(r.k - 1) \o r.un, o.un) THEN {} ELSE {"C05"}
    [] r.rel = "re" ->
         IF ~o.ok \/ Len(o.un) # Len(UnUpTo(r.k - 1)) THEN {}
         ELSE IF r.ok /\ r.out = o.out /\ r.un = <<>> THEN {} ELSE {"C05"}
    [] r.rel = "nou" ->
         IF ~o.ok THEN (IF r.ok \/ r.outw THEN {"C02"} ELSE {})
         ELSE IF o.un # <<>> THEN (IF r.ok \/ r.outw THEN {"C07"} ELSE {})
         ELSE (IF r.ok /\ r.out = o.out THEN {} ELSE {"C07"})
    [] r.rel = "split" ->
         IF r.ok # o.ok THEN {"C08"}
         ELSE IF ~o.ok THEN {}
         ELSE IF r.out = o.out /\ SameUn(r.un, o.un) THEN {} ELSE {"C08"}
    [] OTHER -> {}

RelsAt(n) == SelectSeq(Tr.rels, LAMBDA r : r.k = n)

(* The order in which a split run was given its sources must be the       *)
(* specification's order.                                                  *)
SplitOrderOk(r) == r.rel = "split" => r.order = SourcesOf(DFile(Tr.files[r.k]))

RECURSIVE FoldFiles(_, _, _)
FoldFiles(st, from, to) ==
  IF from > to \/ st.err # {} THEN st
  ELSE FoldFiles(Steps(st.db, st.un, BatchesOf(DFile(Tr.files[from]))), from + 1, to)

Init == /\ tid \in 1..N
        /\ s = 1 /\ k = 0 /\ db = <<>> /\ un = <<>> /\ bad = {} /\ done = FALSE

Next ==
  /\ ~done
  /\ s <= Len(Tr.steps)
  /\ LET o == Tr.steps[s]
         e == FoldFiles([err |-> {}, db |-> db, un |-> un], k + 1, o.k)
         j == Judge(e, o, FilesUpTo(Tr.files, o.k))
         rs == RelsAt(o.k)
         jr == UNION {JudgeRel(rs[i], e) : i \in DOMAIN rs}
         j2 == IF Tr.resolve /\ j # {} THEN {"C07"} ELSE {}
         b == j \cup jr \cup j2
     IN /\ \A i \in DOMAIN rs : Assert(SplitOrderOk(rs[i]), <<"split order", tid>>)
        /\ bad' = b
        /\ (b # {}) => PrintT(<<"BAD", Tr.id, o.k, b, e.err>>)
        /\ db' = e.db /\ un' = e.un /\ k' = o.k
        /\ done' = (e.err # {})
  /\ s' = s + 1
  /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars

(* The specification's own invariants, in every state of every trace. *)
InvFps == FpsUnique(db) /\ NoCandidates(db)
=============================================================================
