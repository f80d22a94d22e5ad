----------------------------- MODULE ImportTrace -----------------------------
(***************************************************************************)
(* Validates recorded imports.  An item is [id, imp, rows, tz, opt, h, obs,*)
(* strict]: the importer, its input, options and hash table; obs is        *)
(* [ok, outw, parsed, trns] with what came out.  strict says that a hash   *)
(* missing from the table is a fault of the machinery.                     *)
(***************************************************************************)
EXTENDS PayPal, Pdf, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in DOMAIN s}
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

Expected(it) ==
  CASE it.imp = "nw" -> NwExpected(it.rows, it.opt, it.h)
    [] it.imp = "pp" -> PpExpected(it.rows, it.tz, it.opt, it.h)
    [] it.imp = "pdf" -> PdfExpected(it.rows, it.opt, it.h)
PropOf(it) == CASE it.imp = "nw" -> "C17" [] it.imp = "pp" -> "C18" [] it.imp = "pdf" -> "C20"

(* Content, except fingerprints. An observed amount is "L|GBP|10". *)
AmtOk(cur, q, o) == IF q = "" THEN o = "" ELSE o = "L|" \o cur \o "|" \o q
PostOk(e, o) ==
  /\ IF e.acct = "*" THEN o.acct \in {"income:unknown", "expenses:unknown"} ELSE o.acct = e.acct
  /\ AmtOk(e.cur, e.amt, o.amt) /\ AmtOk(e.cur, e.bal, o.bal) /\ o.st = e.st /\ o.kind = "" /\ o.lines = <<>>
  /\ {f \in ToSet(o.tags) : ~Starts(f, "fp-")} = e.flags
  /\ {<<p[1], p[2]>> : p \in ToSet(o.vt)} = e.vals /\ Len(o.vt) = Cardinality(e.vals)
TrnOk(e, o) ==
  /\ o.h.date = e.date /\ o.h.edate = e.edate /\ o.h.st = e.st /\ o.h.code = "" /\ o.h.desc \in {e.desc, Trim(e.desc)}
  /\ o.h.tags = <<>> /\ o.h.vt = <<>> /\ o.h.lines = <<>>
  /\ Len(o.ps) = Len(e.posts) /\ \A j \in DOMAIN e.posts : PostOk(e.posts[j], o.ps[j])
ContentOk(E, obs) == Len(obs.trns) = Len(E.trns) /\ \A i \in DOMAIN E.trns : TrnOk(E.trns[i], obs.trns[i])

(* Fingerprints. "?" stands for one that is not pinned down here. *)
Fps(o) == {f \in ToSet(o.tags) : Starts(f, "fp-")}
FpOk(e, o) == LET known == e.fps \ {"?"} IN
              IF "?" \in e.fps THEN known \subseteq Fps(o) /\ Fps(o) # {} ELSE Fps(o) = e.fps
(* PayPal peers get only the legacy tag with the legacy option. *)
FpLegacyOnly(it, e, o) == it.imp = "pp" /\ it.opt.legacy /\ "import-peer" \in e.flags /\ Cardinality(Fps(o)) = 1
                          /\ \/ Fps(o) \subseteq e.fps /\ \A f \in Fps(o) : ~Starts(f, "fp-ppcsv.1.")
                             \/ "?" \in e.fps
FpBad(it, E, obs) ==
  UNION {UNION {LET e == E.trns[i].posts[j]  o == obs.trns[i].ps[j] IN
                IF FpOk(e, o) THEN {} ELSE IF FpLegacyOnly(it, e, o) THEN {"C19-legacy"} ELSE {"C19"}
                : j \in DOMAIN E.trns[i].posts} : i \in DOMAIN E.trns}
AllPosts(obs) == Cat([i \in DOMAIN obs.trns |-> obs.trns[i].ps], 1)
RECURSIVE Dup(_, _, _)
Dup(ps, i, seen) == IF i > Len(ps) THEN FALSE
                    ELSE LET f == Fps(ps[i]) IN f \cap seen # {} \/ Dup(ps, i + 1, seen \cup f)
(* The account is not in the table of namespaces, or the namespace chosen *)
(* cannot be part of a fingerprint tag.                                   *)
NoNamespace(it) ==
  LET no(n) == n.v = "bad" \/ (n.v = "ok" /\ ~NsOk(n.ns) /\ it.obs.trns # <<>>) IN
  CASE it.imp = "nw" -> Preamble(it.rows) # "bad" /\ no(NsOf(it.opt, Trim(it.rows[1][2]), it.h))
    [] it.imp = "pdf" -> LET a == PdfAccount(it.rows) IN a # "" /\ no(NsOf(it.opt, a, it.h))
    [] OTHER -> FALSE
Judge(it) ==
  LET E == Expected(it)
      obs == it.obs
      P == PropOf(it)
      shape == /\ Len(obs.trns) = Len(E.trns)
               /\ \A i \in DOMAIN E.trns : Len(obs.trns[i].ps) = Len(E.trns[i].posts)
      (* A hash that the table of the trace should have had. *)
      unpinned == \E i \in DOMAIN E.trns : \E j \in DOMAIN E.trns[i].posts :
                     "?" \in E.trns[i].posts[j].fps /\ E.trns[i].posts[j].amt # "0" /\ E.trns[i].posts[j].bal # "0"
  IN IF E.v = "skip" THEN {}
     ELSE IF ~obs.ok THEN (IF obs.outw THEN {"C21"} ELSE {}) \cup (IF E.v = "ok" THEN {P} ELSE {})
     ELSE IF E.v = "bad" THEN {"C21"} \cup (IF NoNamespace(it) THEN {"C19"} ELSE {})
     ELSE IF ~obs.parsed THEN {P}
     ELSE (IF ContentOk(E, obs) THEN {} ELSE IF E.v = "ok" THEN {P} ELSE {"C21"})
          \cup (IF shape THEN FpBad(it, E, obs) ELSE {})
          \cup (IF it.ordered /\ Dup(AllPosts(obs), 1, {}) THEN {"C19"} ELSE {})
          \cup (IF it.strict /\ E.v = "ok" /\ unpinned THEN {"NOHASH"} ELSE {})

Diag(it) ==
  LET E == Expected(it)
      d == {i \in DOMAIN E.trns : i \in DOMAIN it.obs.trns /\ ~TrnOk(E.trns[i], it.obs.trns[i])}
  IN <<E.v, Len(E.trns), IF d = {} THEN <<>> ELSE LET i == CHOOSE j \in d : TRUE IN <<"expected", E.trns[i], "observed", it.obs.trns[i]>>>>

VARIABLES tid, bad
Init == tid \in 1..Len(Raw) /\ bad = {"?"}
Next == /\ bad = {"?"}
        /\ LET b == Judge(Raw[tid]) IN
           /\ bad' = b
           /\ (b # {}) => PrintT(<<"BAD", Raw[tid].id, 1, b, Diag(Raw[tid])>>)
           /\ PrintT(<<"V", Expected(Raw[tid]).v, IF Raw[tid].obs.ok THEN "accepted" ELSE "refused">>)
        /\ UNCHANGED tid
Spec == Init /\ [][Next]_<<tid, bad>>
=============================================================================
