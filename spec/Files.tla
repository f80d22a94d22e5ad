------------------------------- MODULE Files -------------------------------
(* The commands as transitions of a small file system.  Contents are       *)
(* symbolic: a source text, or what a command makes of other contents.     *)
(* Equal terms stand for equal bytes.  A term is                           *)
(*   [f |-> function, a |-> arguments, x |-> a string, c |-> class]        *)
(* with class  "good"  a journal of transactions, fit for merge            *)
(*             "nofp"  one with postings without fingerprint               *)
(*             "items" one with comment lines, prices or includes          *)
(*             "cand"  one with left-over candidate tags                   *)
(*             "dup"   one that contradicts itself                         *)
(*             "amb"   one whose own sources match ambiguously             *)
(*             "bad"   not a journal                                       *)
(*             "stmt"  a statement that can be imported, "sbad" one that   *)
(*                     cannot; "rules", "rbad", "rerr" (reaches an Error   *)
(*                     action); "aux", "auxbad": a timezone file           *)
(* fs maps paths to terms, dirs is the set of directories ("" the top).    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Journals == {"good", "nofp", "items", "cand", "dup", "amb"}
(* Journals of transactions only. *)
Plain == Journals \ {"items"}

Src(n, c) == [f |-> "src", a |-> <<>>, x |-> n, c |-> c]

(* Layout normalised: anything a command wrote is already in that form. *)
FmtT(t) == IF t.f = "src" THEN [f |-> "fmt", a |-> <<t>>, x |-> "", c |-> t.c] ELSE t
(* Read into transactions and written back: comments normalised too. *)
NormT(t) == IF t.f \in {"src", "fmt"}
            THEN [f |-> "norm", a |-> <<IF t.f = "fmt" THEN t.a[1] ELSE t>>, x |-> "", c |-> t.c]
            ELSE t
(* The fingerprints are random: nonce tells the runs apart. *)
GenT(t, nonce) == IF t.c = "nofp" THEN [f |-> "gen", a |-> <<NormT(t)>>, x |-> nonce, c |-> "good"]
                  ELSE NormT(t)
RulesT(t, r) == [f |-> "rules", a |-> <<NormT(t), r>>, x |-> "", c |-> t.c]
RECURSIVE NormAll(_)
NormAll(ts) == IF ts = <<>> THEN <<>> ELSE <<NormT(Head(ts))>> \o NormAll(Tail(ts))
MergeT(ts) == IF Len(ts) = 1 /\ ts[1].f = "merge" THEN ts[1]
              ELSE [f |-> "merge", a |-> NormAll(ts), x |-> "", c |-> "good"]
(* Unmerged transactions name the file they came from. *)
UnT(ts, names) == [f |-> "un", a |-> NormAll(ts), x |-> names, c |-> "cand"]
ImportT(stmt, aux, opts) == [f |-> "import", a |-> <<stmt, aux>>, x |-> opts, c |-> "good"]

(***************************************************************************)
(* Paths.                                                                  *)
(***************************************************************************)
RECURSIVE LastSlash(_, _)
LastSlash(p, n) == IF n = 0 THEN 0 ELSE IF SubSeq(p, n, n) = "/" THEN n ELSE LastSlash(p, n - 1)
Parent(p) == LET n == LastSlash(p, Len(p)) IN IF n = 0 THEN "" ELSE SubSeq(p, 1, n - 1)
RECURSIVE Ancestors(_)
Ancestors(p) == IF p = "" THEN {} ELSE {Parent(p)} \cup Ancestors(Parent(p))

NS == "%FP_NS%"
RECURSIVE Subst(_, _)
Subst(s, ns) == IF Len(s) < Len(NS) THEN s
                ELSE IF SubSeq(s, 1, Len(NS)) = NS THEN ns \o Subst(SubSeq(s, Len(NS) + 1, Len(s)), ns)
                ELSE SubSeq(s, 1, 1) \o Subst(SubSeq(s, 2, Len(s)), ns)

(***************************************************************************)
(* Commands.  A state is s = [fs, dirs, in, out]: in the term on standard  *)
(* input ("-" as an input path), out what went to standard output.         *)
(* Run(s, c) = [ok, s] with s the state afterwards.                        *)
(***************************************************************************)
NONE == [f |-> "none", a |-> <<>>, x |-> "", c |-> "none"]
Read(s, p) == IF p = "-" THEN s.in ELSE IF p \in DOMAIN s.fs THEN s.fs[p] ELSE NONE
Writable(s, p) == p = "-" \/ (p \notin s.dirs /\ Parent(p) \in s.dirs)
Put(s, p, t) == IF p = "-" THEN [s EXCEPT !.out = Append(@, t)]
                ELSE [s EXCEPT !.fs = (p :> t) @@ @]
Fail(s) == [ok |-> FALSE, s |-> s]
Done(s) == [ok |-> TRUE, s |-> s]

RECURSIVE Each(_, _, _, _, _)
(* fmt and generate-fingerprints: file by file, each read and rewritten. *)
Each(s, op, files, nonce, k) ==
  IF files = <<>> THEN Done(s)
  ELSE LET t == Read(s, Head(files)) IN
       IF t.c \notin (IF op = "fmt" THEN Journals ELSE Plain) THEN Fail(s)
       ELSE Each(Put(s, Head(files), IF op = "fmt" THEN FmtT(t) ELSE GenT(t, nonce \o Head(files))),
                 op, Tail(files), nonce, k + 1)

RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o "|" \o Join(Tail(ss))
Merge(s, c) ==
  LET ts == [i \in DOMAIN c.inputs |-> Read(s, c.inputs[i])] IN
  IF \E i \in DOMAIN ts : ts[i].c \notin {"good", "amb"} THEN Fail(s)
  ELSE LET un == \E i \in DOMAIN ts : ts[i].c = "amb" IN
       IF un /\ c.u = "" THEN Fail(s)
       ELSE IF ~Writable(s, c.o) \/ (un /\ ~Writable(s, c.u)) THEN Fail(s)
       ELSE LET s1 == IF un THEN Put(s, c.u, UnT(ts, Join(c.inputs))) ELSE s
            IN Done(Put(s1, c.o, MergeT(ts)))

Rules(s, c) ==
  LET t == Read(s, c.input)  r == Read(s, c.rules) IN
  IF r.c \notin {"rules", "rerr"} \/ t.c \notin Plain THEN Fail(s)
  ELSE IF r.c = "rerr" THEN Fail(s)
  ELSE IF ~Writable(s, c.o) THEN Fail(s)
  ELSE Done(Put(s, c.o, RulesT(t, r)))

(* opts: the options that the imported journal depends on; ns: the user    *)
(* namespace they give ("" with optok FALSE if they give none).            *)
ImportInputOk(s, c) ==
  LET t == Read(s, c.input)
      a == IF c.aux = "" THEN Src("", "aux") ELSE Read(s, c.aux)
  IN t.c = "stmt" /\ a.c = "aux" /\ c.optok /\ ~((c.sub \/ c.mk) /\ c.o = "-")
Import(s, c) ==
  LET t == Read(s, c.input)
      a == IF c.aux = "" THEN Src("", "aux") ELSE Read(s, c.aux)
      p == IF c.sub THEN Subst(c.o, c.ns) ELSE c.o
      s1 == IF c.mk THEN [s EXCEPT !.dirs = @ \cup Ancestors(p)] ELSE s
  IN IF ~ImportInputOk(s, c) THEN Fail(s)
     ELSE IF c.mk /\ Ancestors(p) \cap DOMAIN s.fs # {} THEN Fail(s)
     ELSE IF ~Writable(s1, p) THEN Fail(s)
     ELSE Done(Put(s1, p, ImportT(t, a, c.opts)))

Run(s, c) == CASE c.op = "fmt"    -> Each(s, "fmt", c.files, "", 1)
               [] c.op = "gen"    -> Each(s, "gen", c.files, c.nonce, 1)
               [] c.op = "merge"  -> Merge(s, c)
               [] c.op = "rules"  -> Rules(s, c)
               [] c.op = "import" -> Import(s, c)

(* The paths a command may write. *)
Outputs(c) == CASE c.op \in {"fmt", "gen"} -> {c.files[i] : i \in DOMAIN c.files}
                [] c.op = "merge" -> {c.o, c.u}
                [] c.op = "rules" -> {c.o}
                [] OTHER -> {IF c.sub THEN Subst(c.o, c.ns) ELSE c.o}
=============================================================================
