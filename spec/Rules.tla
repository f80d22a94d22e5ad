------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* The apply-rules subcommand: tables of chains of rules applied to each   *)
(* posting of each transaction.                                            *)
(*                                                                         *)
(* A table is a function from chain names to sequences of rules            *)
(* [pred, act, ret]; a context is [h |-> header, p |-> posting].           *)
(* Two semantics are given: Run, by recursion over the table, which        *)
(* decides recorded runs; and a machine with an explicit stack (Step),     *)
(* which RulesMC shows equivalent to it.                                   *)
(***************************************************************************)
EXTENDS Regex

Restrict(f, S) == [x \in S |-> f[x]]

(* ----- predicates ----- *)
RECURSIVE Str(_, _)
Str(m, s) == CASE m.op = "eq" -> s = m.s
               [] m.op = "contains" -> Contains(s, m.s)
               [] m.op = "matches" -> IsMatch(m.re, s)
               [] m.op = "lower" -> Str(m.m, Lower(s))

RECURSIVE Holds(_, _)
Holds(q, c) ==
  CASE q.op = "true" -> TRUE
    [] q.op = "all" -> \A i \in DOMAIN q.qs : Holds(q.qs[i], c)
    [] q.op = "any" -> \E i \in DOMAIN q.qs : Holds(q.qs[i], c)
    [] q.op = "not" -> ~Holds(q.q, c)
    [] q.op = "account" -> Str(q.m, c.p.acct)
    [] q.op = "desc" -> Str(q.m, c.h.desc)
    [] q.op = "flag" -> \E t \in c.p.tags : Str(q.m, t)
    [] q.op = "hasflag" -> q.k \in c.p.tags
    [] q.op = "hasvalue" -> q.k \in DOMAIN c.p.vt
    [] q.op = "value" -> q.k \in DOMAIN c.p.vt /\ Str(q.m, c.p.vt[q.k])

(* ----- primitive actions ----- *)
Primitive == {"noop", "addflag", "addvalue", "remflag", "remvalue", "taddflag", "taddvalue", "tremflag", "tremvalue",
              "setaccount", "replace"}
Do(a, c) ==
  CASE a.op = "noop" -> c
    [] a.op = "addflag" -> [c EXCEPT !.p.tags = @ \cup {a.k}]
    [] a.op = "remflag" -> [c EXCEPT !.p.tags = @ \ {a.k}]
    [] a.op = "addvalue" -> [c EXCEPT !.p.vt = (a.k :> a.v) @@ @]
    [] a.op = "remvalue" -> [c EXCEPT !.p.vt = Restrict(@, DOMAIN @ \ {a.k})]
    [] a.op = "taddflag" -> [c EXCEPT !.h.tags = @ \cup {a.k}]
    [] a.op = "tremflag" -> [c EXCEPT !.h.tags = @ \ {a.k}]
    [] a.op = "taddvalue" -> [c EXCEPT !.h.vt = (a.k :> a.v) @@ @]
    [] a.op = "tremvalue" -> [c EXCEPT !.h.vt = Restrict(@, DOMAIN @ \ {a.k})]
    [] a.op = "setaccount" -> [c EXCEPT !.p.acct = a.v]
    [] a.op = "replace" -> [c EXCEPT !.h.desc = ReplaceFirst(a.re, a.parts, @)]

(***************************************************************************)
(* Recursive semantics.  The result is [c, err]; err is "" or "error" (an  *)
(* Error action was reached) or "deep" (more than MaxDepth nested jumps,   *)
(* where the program would not end).                                       *)
(***************************************************************************)
MaxDepth == 40
RECURSIVE Act(_, _, _, _), Acts(_, _, _, _), Chain(_, _, _, _)
Act(t, a, c, n) ==
  CASE a.op = "error" -> [c |-> c, err |-> "error"]
    [] a.op = "all" -> Acts(t, a.acts, c, n)
    [] a.op = "jump" -> IF n = 0 THEN [c |-> c, err |-> "deep"] ELSE Chain(t, t[a.k], c, n - 1)
    [] OTHER -> [c |-> Do(a, c), err |-> ""]
Acts(t, as, c, n) ==
  IF as = <<>> THEN [c |-> c, err |-> ""]
  ELSE LET r == Act(t, Head(as), c, n) IN IF r.err # "" THEN r ELSE Acts(t, Tail(as), r.c, n)
Chain(t, rules, c, n) ==
  IF rules = <<>> THEN [c |-> c, err |-> ""]
  ELSE IF ~Holds(Head(rules).pred, c) THEN Chain(t, Tail(rules), c, n)
  ELSE LET r == Act(t, Head(rules).act, c, n)
       IN IF r.err # "" \/ Head(rules).ret THEN r ELSE Chain(t, Tail(rules), r.c, n)

Run(t, c) == Chain(t, t["start"], c, MaxDepth)

RECURSIVE RunPostings(_, _, _, _)
(* Over the postings ps of a transaction with header h; done so far. *)
RunPostings(t, h, ps, done) ==
  IF ps = <<>> THEN [h |-> h, ps |-> done, err |-> ""]
  ELSE LET r == Run(t, [h |-> h, p |-> Head(ps)])
       IN IF r.err # "" THEN [h |-> h, ps |-> done, err |-> r.err]
          ELSE RunPostings(t, r.c.h, Tail(ps), Append(done, r.c.p))

RECURSIVE RunJournal(_, _)
RunJournal(t, trns) ==
  IF trns = <<>> THEN [out |-> <<>>, err |-> ""]
  ELSE LET r == RunPostings(t, Head(trns).h, Head(trns).ps, <<>>)
       IN IF r.err # "" THEN [out |-> <<>>, err |-> r.err]
          ELSE LET rest == RunJournal(t, Tail(trns))
               IN IF rest.err # "" THEN rest
                  ELSE [out |-> <<[h |-> r.h, ps |-> r.ps]>> \o rest.out, err |-> ""]

(***************************************************************************)
(* The machine.  Its stack holds frames, innermost first:                  *)
(*   [k |-> "rules", rules |-> rest of a chain]                            *)
(*   [k |-> "acts", acts |-> rest of an action list]                       *)
(*   [k |-> "ret"]  the rule that just acted returns from its chain        *)
(***************************************************************************)
RulesFrame(rs) == [k |-> "rules", rules |-> rs, acts |-> <<>>]
ActsFrame(as)  == [k |-> "acts", rules |-> <<>>, acts |-> as]
RetFrame       == [k |-> "ret", rules |-> <<>>, acts |-> <<>>]

(* Drops the frames up to and including the innermost chain's. *)
RECURSIVE PopChain(_)
PopChain(st) == IF Head(st).k = "rules" THEN Tail(st) ELSE PopChain(Tail(st))

MachineStep(t, st, c) ==
  LET f == Head(st)
      rest == Tail(st)
  IN CASE f.k = "ret" -> [st |-> PopChain(rest), c |-> c, err |-> ""]
       [] f.k = "rules" ->
            IF f.rules = <<>> THEN [st |-> rest, c |-> c, err |-> ""]
            ELSE LET r == Head(f.rules)
                     tl == <<RulesFrame(Tail(f.rules))>> \o rest
                 IN IF ~Holds(r.pred, c) THEN [st |-> tl, c |-> c, err |-> ""]
                    ELSE [st |-> <<ActsFrame(<<r.act>>)>> \o (IF r.ret THEN <<RetFrame>> ELSE <<>>) \o tl,
                          c |-> c, err |-> ""]
       [] f.k = "acts" ->
            IF f.acts = <<>> THEN [st |-> rest, c |-> c, err |-> ""]
            ELSE LET a == Head(f.acts)
                     tl == <<ActsFrame(Tail(f.acts))>> \o rest
                 IN CASE a.op = "error" -> [st |-> <<>>, c |-> c, err |-> "error"]
                      [] a.op = "all" -> [st |-> <<ActsFrame(a.acts)>> \o tl, c |-> c, err |-> ""]
                      [] a.op = "jump" -> [st |-> <<RulesFrame(t[a.k])>> \o tl, c |-> c, err |-> ""]
                      [] OTHER -> [st |-> tl, c |-> Do(a, c), err |-> ""]
=============================================================================
