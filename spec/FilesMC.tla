------------------------------ MODULE FilesMC ------------------------------
(* All command sequences up to MaxLen over a small file system.            *)
EXTENDS Files, Json
CONSTANTS MaxLen, Wide

Fs0 == [p \in {"j1", "j2", "n", "i", "x", "a", "d", "e", "s", "t", "r", "rb", "re", "tz"} |->
          CASE p = "j1" -> Src(p, "good") [] p = "j2" -> Src(p, "good") [] p = "n" -> Src(p, "nofp")
            [] p = "i" -> Src(p, "items") [] p = "x" -> Src(p, "bad") [] p = "a" -> Src(p, "amb")
            [] p = "d" -> Src(p, "dup") [] p = "e" -> Src(p, "good")
            [] p = "s" -> Src(p, "stmt") [] p = "t" -> Src(p, "sbad")
            [] p = "r" -> Src(p, "rules") [] p = "rb" -> Src(p, "rbad") [] p = "re" -> Src(p, "rerr")
            [] OTHER -> Src(p, "aux")]
S0 == [fs |-> Fs0, dirs |-> {"", "dir"}, in |-> NONE, out |-> <<>>]

Js == {"j1", "n", "i", "x", "a", "o", "u", "missing"} \cup IF Wide THEN {"j2", "d", "e", "dir", "dir/o"} ELSE {}
Lists == {<<p>> : p \in Js} \cup {<<p, q>> : p, q \in Js}
Outs == {"o", "-", "j1"} \cup IF Wide THEN {"dir/o", "new/o", "u"} ELSE {}
Cmds ==
  {[op |-> "fmt", files |-> l] : l \in Lists}
  \cup {[op |-> "gen", files |-> l, nonce |-> ""] : l \in Lists}
  \cup {[op |-> "merge", inputs |-> l, u |-> u, o |-> o] : l \in Lists, u \in {"", "u"}, o \in Outs \ {"u", "new/o"}}
  \cup {[op |-> "merge", inputs |-> l, u |-> "", o |-> "new/o"] : l \in IF Wide THEN Lists ELSE {}}
  \cup {[op |-> "rules", input |-> p, rules |-> r, o |-> o] : p \in Js, r \in {"r", "rb", "re", "missing"}, o \in Outs}
  \cup {[op |-> "import", input |-> p, aux |-> "", opts |-> "ns", ns |-> "ns", optok |-> k, sub |-> b, mk |-> m, o |-> o] :
          p \in {"s", "t", "missing"}, k \in {TRUE, FALSE}, b \in BOOLEAN, m \in BOOLEAN,
          o \in Outs \cup {"%FP_NS%", "dir/x-%FP_NS%.j", "%FP_NS%/o", "q/r/%FP_NS%-%FP_NS%", "j1/o"}}

VARIABLES s, h, last
Init == s = S0 /\ h = <<>> /\ last = [ok |-> TRUE, pre |-> S0, c |-> NONE]
Next == /\ Len(h) < MaxLen
        /\ \E c \in Cmds :
             LET c2 == IF c.op = "gen" THEN [c EXCEPT !.nonce = ToString(Len(h))] ELSE c
                 r == Run([s EXCEPT !.out = <<>>], c2)
             IN /\ s' = r.s /\ h' = Append(h, c2)
                /\ last' = [ok |-> r.ok, pre |-> s, c |-> c2]
Spec == Init /\ [][Next]_<<s, h, last>>

(* Used with -simulate: complete random behaviours. *)
Emit == (Len(h) = MaxLen) => PrintT(<<"SCN", ToJson(h)>>)

Frame == h # <<>> =>
  \A p \in DOMAIN s.fs \cup DOMAIN last.pre.fs :
    p \notin Outputs(last.c) => p \in DOMAIN s.fs /\ p \in DOMAIN last.pre.fs /\ s.fs[p] = last.pre.fs[p]
(* A command that fails leaves everything, except that fmt and             *)
(* generate-fingerprints have done the files before the failing one.       *)
Bad1(t, op) == t.c \notin (IF op = "fmt" THEN Journals ELSE Plain)
FailFrame == (h # <<>> /\ ~last.ok) =>
  IF last.c.op \in {"fmt", "gen"}
  THEN LET fl == last.c.files
           k == CHOOSE i \in DOMAIN fl : Bad1(Read(last.pre, fl[i]), last.c.op) /\ \A j \in 1..(i-1) : ~Bad1(Read(last.pre, fl[j]), last.c.op)
       IN /\ \A p \in DOMAIN s.fs : (\A j \in 1..(k-1) : fl[j] # p) => s.fs[p] = last.pre.fs[p]
          /\ DOMAIN s.fs = DOMAIN last.pre.fs
  ELSE s.fs = last.pre.fs /\ s.dirs = last.pre.dirs /\ s.out = <<>>
(* Rewriting in place keeps what kind of journal a file is, or makes it fit for merge. *)
Kinds == (h # <<>> /\ last.ok /\ last.c.op \in {"fmt", "gen"}) =>
  \A i \in DOMAIN last.c.files : LET p == last.c.files[i] IN
    s.fs[p].c = last.pre.fs[p].c \/ (last.c.op = "gen" /\ last.pre.fs[p].c = "nofp" /\ s.fs[p].c = "good")
(* fmt and generate-fingerprints are idempotent. *)
Again == (h # <<>> /\ last.ok /\ last.c.op \in {"fmt", "gen"}) => Run(s, last.c).s.fs = s.fs
=============================================================================
