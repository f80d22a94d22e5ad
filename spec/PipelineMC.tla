----------------------------- MODULE PipelineMC -----------------------------
(* Every history of up to MaxSteps imports of intervals of days and edits  *)
(* of the ledger, where all transactions are imported with the same amount. *)
EXTENDS Pipeline, Json
CONSTANTS MaxSteps, Edits, RuleKinds, Emit
CONSTANT Shape           \* number of transactions of each day
S21 == <<2, 1>>
S212 == <<2, 1, 2>>
S121 == <<1, 2, 1>>

Amt(x) == [k |-> "L|GBP|" \o x, t |-> "GBP" \o x]
None == [k |-> "", t |-> ""]
NoVt == [x \in {} |-> ""]
Days == DOMAIN Shape
Recs == UNION {{<<d, i>> : i \in 1..Shape[d]} : d \in Days}

(* The importer: fingerprints from the day and the place in the day. *)
Fp(d, i, half) == "fp-" \o ToString(d) \o "." \o ToString(i) \o half
Post(d, i, half, amt) ==
  [acct |-> "unknown", kind |-> "", amt |-> Amt(amt), bal |-> None, st |-> "", lines |-> <<>>,
   tags |-> {UNKNOWN, "import-" \o half, Fp(d, i, half)}, vt |-> "seq" :> ToString(i)]
Trn(d, i) == [h |-> [date |-> 20200100 + d, edate |-> 0, st |-> "", code |-> "", desc |-> "t", lines |-> <<>>, tags |-> {}, vt |-> NoVt],
              ps |-> <<Post(d, i, "self", "1"), Post(d, i, "peer", "-1")>>]
DayTrns(d) == [i \in 1..Shape[d] |-> Trn(d, i)]
RECURSIVE Statement(_, _)
Statement(a, b) == IF a > b THEN <<>> ELSE DayTrns(a) \o Statement(a + 1, b)

(* Rules: nothing, set an account and say that it is known, only set it, or tag. *)
ApplyP(r, p) ==
  IF "import-peer" \notin p.tags THEN p
  ELSE CASE r = "set" -> [p EXCEPT !.acct = "food", !.tags = @ \ {UNKNOWN}]
         [] r = "guess" -> [p EXCEPT !.acct = "maybe"]
         [] r = "tag" -> [p EXCEPT !.tags = @ \cup {"ruled"}, !.vt = @ @@ ("rule" :> "1")]
         [] OTHER -> p
Ruled(r, trns) == [i \in DOMAIN trns |-> [trns[i] EXCEPT !.ps = [j \in DOMAIN @ |-> ApplyP(r, @[j])]]]

EditP(e, p) == CASE e = "acct" -> [p EXCEPT !.acct = "mine", !.tags = @ \ {UNKNOWN}]
                 [] e = "flag" -> [p EXCEPT !.tags = @ \cup {"noted"}]
                 [] e = "value" -> [p EXCEPT !.vt = ("why" :> "gift") @@ @]
                 [] e = "amt" -> [p EXCEPT !.amt = Amt("7")]
                 [] e = "bal" -> [p EXCEPT !.bal = Amt("8")]
                 [] OTHER -> p

(* ghost: what the user has done, <<edit, fingerprint>>. *)
VARIABLES db, covered, ghost, hist, ok, un, wrong
vars == <<db, covered, ghost, hist, ok, un, wrong>>
Init == db = <<>> /\ covered = {} /\ ghost = {} /\ hist = <<>> /\ ok = TRUE /\ un = <<>> /\ wrong = {}

Import(a, b, r) ==
  LET batch == Ruled(r, Statement(a, b))
      s == Step(db, batch)
      cov == covered \cup {x \in Recs : x[1] \in a..b}
  IN /\ db' = Output(s.db) /\ covered' = cov
     /\ ok' = (s.err = {}) /\ un' = s.un
     /\ wrong' = Wrong(db, <<batch>>, Cardinality(cov), Output(s.db), FALSE)
     /\ hist' = Append(hist, [op |-> "import", a |-> a, b |-> b, rule |-> r, day |-> 0, pos |-> 0, half |-> "", kind |-> ""])
     /\ UNCHANGED ghost

Edit(i, j, e) ==
  /\ db' = IF e = "desc" THEN [db EXCEPT ![i].h.desc = "mine"] ELSE [db EXCEPT ![i].ps[j] = EditP(e, @)]
  /\ ghost' = ghost \cup {<<e, Only(Fps(db[i].ps[j]))>>}
  /\ hist' = Append(hist, [op |-> "edit", a |-> 0, b |-> 0, rule |-> "", day |-> db[i].h.date - 20200100,
                           pos |-> Cardinality({m \in 1..i : db[m].h.date = db[i].h.date}), half |-> IF j = 1 THEN "self" ELSE "peer", kind |-> e])
  /\ UNCHANGED <<covered, ok, un, wrong>>

Next == /\ Len(hist) < MaxSteps
        /\ \/ \E a, b \in Days, r \in RuleKinds : a <= b /\ Import(a, b, r)
           \/ \E i \in DOMAIN db, j \in 1..2, e \in Edits : Edit(i, j, e)
Spec == Init /\ [][Next]_vars

InvAccepted == ok /\ un = <<>>
InvCount == Len(db) = Cardinality(covered)
InvEach == \A x \in covered : Cardinality({i \in DOMAIN db : Fp(x[1], x[2], "self") \in TrnFps(db[i])}) = 1
InvRight == wrong = {}
At1(f) == LET i == CHOOSE i \in DOMAIN db : f \in TrnFps(db[i]) IN [h |-> db[i].h, p |-> db[i].ps[CHOOSE j \in DOMAIN db[i].ps : f \in db[i].ps[j].tags]]
InvGhost == \A g \in ghost :
  LET x == At1(g[2]) IN
  CASE g[1] = "acct" -> x.p.acct = "mine" /\ UNKNOWN \notin x.p.tags
    [] g[1] = "flag" -> "noted" \in x.p.tags
    [] g[1] = "value" -> "why" \in DOMAIN x.p.vt /\ x.p.vt["why"] = "gift"
    [] g[1] = "amt" -> x.p.amt = Amt("7")
    [] g[1] = "bal" -> x.p.bal = Amt("8")
    [] OTHER -> x.h.desc = "mine"
InvAgain == \A a, b \in Days : (a <= b /\ \A x \in Recs : x[1] \in a..b => x \in covered) =>
               LET s == Step(db, Statement(a, b)) IN s.err = {} /\ s.un = <<>> /\ Output(s.db) = db
EmitInv == (Emit /\ Len(hist) = MaxSteps) => PrintT(<<"SCN", ToJson([shape |-> Shape, hist |-> hist])>>)
=============================================================================
