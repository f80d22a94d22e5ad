----------------------------- MODULE JournalMC -----------------------------
(* Exhaustive check of reader and writer over all sequences of up to MaxLen *)
(* lines, built one line at a time; every sequence is also a scenario.      *)
EXTENDS Journal, Json
CONSTANTS MaxLen, Emit, Small
P(n, st) == [acct |-> n, st |-> st]
Kinds ==
  { [k |-> "blank"],
    [k |-> "head", v |-> "h1", ic |-> <<>>],
    [k |-> "post", v |-> P("p1", ""), ic |-> <<>>],
    [k |-> "com", ind |-> TRUE, txt |-> "c1"],
    [k |-> "com", ind |-> FALSE, txt |-> "c2"],
    [k |-> "star", txt |-> "p2", v |-> P("p2", "*"), ic |-> <<>>],
    [k |-> "price", v |-> "pr"],
    [k |-> "iinc", v |-> "f", p |-> P("include f", "")] }
  \cup IF Small THEN {} ELSE
  { [k |-> "head", v |-> "h2", ic |-> <<"i1">>],
    [k |-> "post", v |-> P("p3", "!"), ic |-> <<"i2">>],
    [k |-> "star", txt |-> "p4  ;i3", v |-> P("p4", "*"), ic |-> <<"i3">>],
    [k |-> "inc", v |-> "f"] }

VARIABLES ls, rd
Init == ls = <<>> /\ rd = R0
Next == /\ Len(ls) < MaxLen
        /\ \E l \in Kinds : ls' = Append(ls, l) /\ rd' = Step(rd, l)
        /\ Len(ls') <= Emit => PrintT(<<"SCN", ToJson(ls')>>)
Spec == Init /\ [][Next]_<<ls, rd>>

ok == ~rd.err /\ rd.ctx # "head"
(* What is written can be read, and says the same, blank lines included. *)
RoundTrip == ok => Read(Write(rd.items)) = <<TRUE, rd.items>>
(* Writing is idempotent. *)
Idempotent == ok => LET w == Write(rd.items) IN Write(Read(w)[2]) = w
(* The incremental reader and the whole-file reader agree. *)
Agree == Read(ls) = IF ok THEN <<TRUE, rd.items>> ELSE <<FALSE, <<>>>>
(* Nothing is dropped: every line, and every inline comment, has its line in what is written. *)
NICs == Len(SelectSeq(ls, LAMBDA l: l.k \in {"head", "post", "star"} /\ l.ic # <<>>))
Complete == ok => LET n == Len(Write(rd.items)) IN n >= Len(ls) /\ n <= Len(ls) + NICs
=============================================================================
