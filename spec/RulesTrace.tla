----------------------------- MODULE RulesTrace -----------------------------
(* Validates recorded runs of apply-rules: loading of the rules files      *)
(* (C12), and their effect on a journal (C09, C10, C11).                   *)
EXTENDS Rules, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in DOMAIN s}
VtOf(s) == [key \in {s[i][1] : i \in DOMAIN s} |->
             LET i == CHOOSE j \in DOMAIN s : s[j][1] = key IN s[i][2]]
DComm(x) == [x EXCEPT !.tags = ToSet(@), !.vt = VtOf(@)]
DT(t) == [h |-> DComm(t.h), ps |-> [j \in DOMAIN t.ps |-> DComm(t.ps[j])]]
DTs(ts) == [i \in DOMAIN ts |-> DT(ts[i])]

(***************************************************************************)
(* Loading.  A file is [path, good, entries], path a sequence of names     *)
(* below the scratch directory; an entry is [inc |-> [abs, comps]] or      *)
(* [chain, rules].  links are pairs of a path and the path it stands for.  *)
(***************************************************************************)
Front(s) == SubSeq(s, 1, Len(s) - 1)
Dirs(fs) == UNION {{SubSeq(fs[i].path, 1, n) : n \in 0..(Len(fs[i].path) - 1)} : i \in DOMAIN fs}
NOWHERE == <<"?">>

RECURSIVE Walk(_, _, _)
Walk(fs, at, comps) ==
  IF comps = <<>> THEN at
  ELSE IF at \notin Dirs(fs) THEN NOWHERE
  ELSE LET x == Head(comps) IN
       CASE x = "." -> Walk(fs, at, Tail(comps))
         [] x = ".." -> IF at = <<>> THEN NOWHERE ELSE Walk(fs, Front(at), Tail(comps))
         [] OTHER -> Walk(fs, Append(at, x), Tail(comps))

Canon(links, p) == IF \E i \in DOMAIN links : links[i][1] = p
                   THEN links[CHOOSE i \in DOMAIN links : links[i][1] = p][2] ELSE p

FileAt(fs, p) == {i \in DOMAIN fs : fs[i].path = p}

NoTable == [x \in {} |-> <<>>]
RECURSIVE LoadFile(_, _, _, _), LoadEntries(_, _, _, _, _)
(* st = [seen, table, err] *)
LoadFile(fs, links, p, st) ==
  LET c == FileAt(fs, p) IN
  IF c = {} THEN [st EXCEPT !.err = "missing"]
  ELSE LET f == fs[CHOOSE i \in c : TRUE] IN
       IF ~f.good THEN [st EXCEPT !.err = "unreadable"]
       ELSE IF p \in st.seen THEN st
       ELSE LoadEntries(fs, links, p, f.entries, [st EXCEPT !.seen = @ \cup {p}])
LoadEntries(fs, links, p, es, st) ==
  IF es = <<>> \/ st.err # "" THEN st
  ELSE LET e == Head(es)
           st2 == IF "inc" \in DOMAIN e
                  THEN LoadFile(fs, links, Canon(links, Walk(fs, IF e.inc.abs THEN <<>> ELSE Front(p), e.inc.comps)), st)
                  ELSE IF e.chain \in DOMAIN st.table THEN [st EXCEPT !.err = "duplicate"]
                  ELSE [st EXCEPT !.table = (e.chain :> e.rules) @@ @]
       IN LoadEntries(fs, links, p, Tail(es), st2)

RECURSIVE JumpsOf(_)
JumpsOf(a) == CASE a.op = "jump" -> {a.k}
                [] a.op = "all" -> UNION {JumpsOf(a.acts[i]) : i \in DOMAIN a.acts}
                [] OTHER -> {}
Jumps(t) == UNION {UNION {JumpsOf(t[n][i].act) : i \in DOMAIN t[n]} : n \in DOMAIN t}

Load(fs, links, p) ==
  LET r == LoadFile(fs, links, p, [seen |-> {}, table |-> NoTable, err |-> ""]) IN
  IF r.err # "" THEN r
  ELSE IF "start" \notin DOMAIN r.table THEN [r EXCEPT !.err = "nostart"]
  ELSE IF ~(Jumps(r.table) \subseteq DOMAIN r.table) THEN [r EXCEPT !.err = "badjump"]
  ELSE r

(* Blanks at the end of a description do not show in a journal. *)
RECURSIVE NoBlankEnd(_)
NoBlankEnd(s) == IF s # "" /\ Ch(s, Len(s)) = " " THEN NoBlankEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s
Shown(ts) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.h.desc = NoBlankEnd(@)]] \o <<>>

Judge(x) ==
  LET l == Load(x.files, x.links, x.main)
      r == RunJournal(l.table, DTs(x.trns))
      sem == {"C09", "C10", "C11"}
  IN (IF x.emptyok # (l.err = "") \/ x.emptyw # (l.err = "") THEN {"C12"} ELSE {})
     \cup
     (IF l.err # "" THEN (IF x.ok \/ x.outw THEN {"C12"} ELSE {})
      ELSE IF r.err = "deep" THEN {}
      ELSE IF r.err = "error" THEN (IF x.ok \/ x.outw THEN sem ELSE {})
      ELSE IF ~x.ok THEN sem \cup {"C12"}
      ELSE IF ~x.parsed \/ Shown(DTs(x.out)) # Shown(r.out) THEN sem ELSE {})

Diag(x) == LET l == Load(x.files, x.links, x.main) IN
           IF l.err # "" THEN <<l.err>>
           ELSE LET r == RunJournal(l.table, DTs(x.trns))
                    o == DTs(x.out)
                    d == {i \in DOMAIN r.out : i \in DOMAIN o /\ o[i] # r.out[i]}
                IN <<r.err, IF d = {} THEN <<>> ELSE LET i == CHOOSE j \in d : TRUE IN <<"expected", r.out[i], "observed", o[i]>>>>

VARIABLES tid, bad
Init == tid \in 1..Len(Raw) /\ bad = {"?"}
Next == /\ bad = {"?"}
        /\ LET b == Judge(Raw[tid]) IN
           /\ bad' = b
           /\ (b # {}) => PrintT(<<"BAD", Raw[tid].id, 1, b, Diag(Raw[tid])>>)
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, bad>>
=============================================================================
