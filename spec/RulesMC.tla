------------------------------ MODULE RulesMC ------------------------------
(* The stack machine against the recursive semantics, over every table of  *)
(* a small universe; emits tables to be run by the real binary.            *)
EXTENDS Rules, Json, IOUtils

CONSTANTS StartLen, C1Len, C2Len,
  Wide,   \* more predicates and actions
  Data,   \* instead: predicates on what actions write
  Emit

H0 == [desc |-> "Foo", tags |-> {}, vt |-> [x \in {} |-> ""]]
P0(f) == [acct |-> "x", tags |-> f, vt |-> [x \in {} |-> ""]]

Eq(s) == [op |-> "eq", s |-> s]
Lits(s) == [op |-> "seq", rs |-> [i \in 1..Len(s) |-> [op |-> "lit", c |-> SubSeq(s, i, i)]] \o <<>>]
Replace(a, b) == [op |-> "replace", re |-> Lits(a), txt |-> a, parts |-> << [lit |-> b, grp |-> -1] >>, rtxt |-> b]
DataPreds == {[op |-> "true"], [op |-> "desc", m |-> Eq("Foo")], [op |-> "desc", m |-> Eq("Bar")], [op |-> "account", m |-> Eq("x")],
              [op |-> "account", m |-> Eq("y")], [op |-> "hasvalue", k |-> "k"], [op |-> "not", q |-> [op |-> "value", k |-> "k", m |-> Eq("v")]]}
DataActs == {Replace("Foo", "Bar"), [op |-> "setaccount", v |-> "y"], [op |-> "addvalue", k |-> "k", v |-> "v"], [op |-> "addvalue", k |-> "k", v |-> "w"],
             [op |-> "remvalue", k |-> "k"]}

Preds == IF Data THEN DataPreds ELSE {[op |-> "true"], [op |-> "hasflag", k |-> "a"]}
         \cup (IF Wide THEN {[op |-> "not", q |-> [op |-> "hasflag", k |-> "b"]], [op |-> "account", m |-> [op |-> "eq", s |-> "x"]]} ELSE {})
AddFlag(k) == [op |-> "addflag", k |-> k]
RemFlag(k) == [op |-> "remflag", k |-> k]
Jump(k) == [op |-> "jump", k |-> k]
All(as) == [op |-> "all", acts |-> as]
LeafActs == IF Data THEN DataActs ELSE {AddFlag("b"), RemFlag("a")} \cup (IF Wide THEN {[op |-> "setaccount", v |-> "y"], [op |-> "taddflag", k |-> "t"]} ELSE {})
StartActs == LeafActs \cup {All(<<Jump("c1"), AddFlag("c")>>)} \cup (IF Data THEN {} ELSE {Jump("c1")}) \cup (IF Wide THEN {[op |-> "error"]} ELSE {})
C1Acts == LeafActs \cup {Jump("c2"), All(<<Jump("c2"), AddFlag("d")>>), [op |-> "error"]}
C2Acts == LeafActs \cup {AddFlag("a")}

RulesOf(as) == {[pred |-> q, act |-> a, ret |-> r] : q \in Preds, a \in as, r \in BOOLEAN}
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}

VARIABLES table, st, c, err, c0
vars == <<table, st, c, err, c0>>

Init == /\ table \in {[start |-> a, c1 |-> b, c2 |-> d] :
                        a \in [1..StartLen -> RulesOf(StartActs)], b \in Seqs(RulesOf(C1Acts), C1Len), d \in Seqs(RulesOf(C2Acts), C2Len)}
        /\ c0 \in {[h |-> H0, p |-> P0(f)] : f \in {{}, {"a"}}}
        /\ c = c0 /\ err = ""
        /\ st = <<RulesFrame(table["start"])>>

Next == /\ st # <<>>
        /\ LET r == MachineStep(table, st, c) IN st' = r.st /\ c' = r.c /\ err' = r.err
        /\ UNCHANGED <<table, c0>>
Spec == Init /\ [][Next]_vars

(* The two semantics agree. *)
InvAgree == st = <<>> => LET r == Run(table, c0) IN r.err = err /\ (err = "" => r.c = c)
(* C09: a return, or the end of a chain, drops exactly one chain.          *)
NChains(s) == Cardinality({i \in DOMAIN s : s[i].k = "rules"})
ActReturn == [][(err' = "") => NChains(st) - NChains(st') \in {-1, 0, 1}]_vars
(* C09: what is below the innermost chain is never touched while it runs.  *)
ActBelow  == [][(err' = "" /\ NChains(st') < NChains(st)) => st' = PopChain(st)]_vars
(* C11: a step changes at most one field.                                  *)
ActOne == [][Cardinality({x \in {"acct", "tags", "vt"} : c.p[x] # c'.p[x]}
                         \cup {<<"h", x>> : x \in {y \in {"desc", "tags", "vt"} : c.h[y] # c'.h[y]}}) <= 1]_vars

EmitInv == (Emit /\ st = <<>> /\ c0.p.tags = {}) =>
   PrintT(<<"SCN", ToJson([start |-> table["start"], c1 |-> table["c1"], c2 |-> table["c2"]])>>)
=============================================================================
