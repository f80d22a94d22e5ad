----------------------------- MODULE Nationwide -----------------------------
(***************************************************************************)
(* The Nationwide CSV importer as a machine that reads a statement row by  *)
(* row.  Its state is [v, prev, ctr, trns]: the verdict so far (see        *)
(* Fields), the date of the row before and its number within the day, and  *)
(* the transactions so far.  H(T, bytes) is the base64 SHA-1 of bytes, "?" *)
(* where the table T of a trace does not have it, and some injective       *)
(* function of bytes where T is empty.                                     *)
(***************************************************************************)
EXTENDS Fingerprint

H(T, b) == IF T = <<>> THEN ToString(b)
           ELSE LET c == {i \in DOMAIN T : T[i].p = b} IN IF c = {} THEN "?" ELSE T[CHOOSE i \in c : TRUE].b

Worse(a, b) == CASE "bad" \in {a, b} -> "bad"
                 [] "skip" \in {a, b} -> "skip"
                 [] "grey" \in {a, b} -> "grey"
                 [] OTHER -> "ok"
RECURSIVE WorstOf(_)
WorstOf(vs) == IF vs = <<>> THEN "ok" ELSE Worse(Head(vs), WorstOf(Tail(vs)))

H5 == <<"Date", "Transactions", "Location", "Paid out", "Paid in">>
H6 == <<"Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance">>
Labels == <<"Account Name:", "Account Balance:", "Available Balance:">>

TrimRow(r) == [i \in DOMAIN r |-> Trim(r[i])] \o <<>>

(* The user namespace: [v, ns]. *)
NsOf(opt, acct, T) ==
  CASE opt.ns = "fixed" -> [v |-> "ok", ns |-> opt.val]
    [] opt.ns = "account" -> [v |-> "ok", ns |-> acct]
    [] opt.ns = "generated" -> LET h == H(T, GenNs("Nationwide", acct)) IN
                               IF h = "?" THEN [v |-> "skip", ns |-> "x"] ELSE [v |-> "ok", ns |-> SubSeq(h, 1, 8)]
    [] opt.ns = "lookup" -> LET c == {i \in DOMAIN opt.look : opt.look[i][1] = acct} IN
                            IF c = {} THEN [v |-> "bad", ns |-> ""] ELSE [v |-> "ok", ns |-> opt.look[CHOOSE i \in c : TRUE][2]]

OptGbp(s) == IF s = "" THEN [NoAmt EXCEPT !.v = "none"] ELSE Gbp(s)
VOf(a) == IF a.v = "none" THEN "ok" ELSE a.v

(* One row: [v] if bad, else its fields. *)
ReadRow(six, r) ==
  LET date == NwDate(r[1])
      out == OptGbp(r[4])
      in == OptGbp(r[5])
      bal == IF six THEN Gbp(r[6]) ELSE NoAmt
      v == WorstOf(<<date.v, VOf(out), VOf(in), VOf(bal), IF (out.v = "none") = (in.v = "none") THEN "bad" ELSE "ok">>)
  IN IF v = "bad" THEN Bad
     ELSE [v |-> v, date |-> date, out |-> out, in |-> in, bal |-> bal, type |-> r[2], desc |-> r[3], trans |-> r[2], loc |-> r[3],
           amt |-> IF out.v = "none" THEN in ELSE Neg(out)]

Account(half, amt) == IF half = "self" THEN "assets:unknown"
                      ELSE IF IsZero(amt) THEN "*"           (* income or expenses *)
                      ELSE IF amt.neg THEN "expenses:unknown" ELSE "income:unknown"
(* A fingerprint over a zero that is written as negative is not pinned down. *)
NegZero(row) == (row.out.v # "none" /\ row.out.neg /\ IsZero(row.out)) \/ (row.in.v # "none" /\ row.in.neg /\ IsZero(row.in))
                \/ (row.bal.v # "none" /\ row.bal.neg /\ IsZero(row.bal))

FpTag(alg, ns, h) == IF h = "?" THEN "?" ELSE Tag(alg, ns, h)
LegTag(ns, h) == IF h = "?" THEN "?" ELSE LegacyTag(ns, h)

Posting(acct, amt, bal, flags, fps, vals) ==
  [acct |-> acct, amt |-> Canon(amt), cur |-> "GBP", bal |-> IF bal.v = "none" THEN "" ELSE Canon(bal), st |-> "",
   flags |-> flags, fps |-> fps, vals |-> vals]

NwTrn(six, row, ctr, acct, ns, legacy, T) ==
  LET amt == row.amt
      base == {<<"account", acct>>, <<"bank", "Nationwide">>} \cup
              (IF six THEN {<<"trn_type", row.type>>}
               ELSE {<<"transactions", row.trans>>} \cup (IF row.loc = "" THEN {} ELSE {<<"location", row.loc>>}))
      fp(half) == IF NegZero(row) THEN "?"
                  ELSE IF six THEN FpTag("nwcsv6", ns, H(T, Nw6(row, ctr, half))) ELSE FpTag("nwcsv5", ns, H(T, Nw5(row, ctr, half)))
      (* The account of a posting of zero depends on its sign. *)
      leg(half, a) == IF ~(six /\ legacy) THEN {}
                      ELSE IF IsZero(amt) \/ NegZero(row) THEN {"?"}
                      ELSE {LegTag(ns, H(T, Nw6Legacy(row, ctr, Account(half, amt), a)))}
  IN [date |-> row.date.n, edate |-> 0, st |-> "",
      desc |-> IF six THEN row.desc ELSE IF row.loc = "" THEN row.trans ELSE row.trans \o " @ " \o row.loc,
      posts |-> << Posting("assets:unknown", amt, row.bal, {"unknown-account", "import-self"}, {fp("self")} \cup leg("self", amt),
                           base \cup {<<"seq", ns \o "-" \o ToString(ctr + 1)>>}),
                   Posting(Account("peer", amt), Neg(amt), NoAmt, {"unknown-account", "import-peer"}, {fp("peer")} \cup leg("peer", Neg(amt)), base) >>]

(* The step of the machine. *)
NwInit(v) == [v |-> v, prev |-> 0, ctr |-> 0, trns |-> <<>>]
NwStep(st, six, r0, acct, ns, legacy, T) ==
  IF st.v = "bad" THEN st
  ELSE IF Len(r0) # (IF six THEN 6 ELSE 5) THEN [st EXCEPT !.v = "bad"]
  ELSE LET row == ReadRow(six, TrimRow(r0)) IN
       IF row.v = "bad" \/ ~NsOk(ns) THEN [st EXCEPT !.v = "bad"]
       ELSE LET ctr == IF row.date.n = st.prev THEN st.ctr + 1 ELSE 0 IN
            [v |-> Worse(st.v, row.v), prev |-> row.date.n, ctr |-> ctr,
             trns |-> Append(st.trns, NwTrn(six, row, ctr, acct, ns, legacy, T))]

RECURSIVE NwFold(_, _, _, _, _, _, _, _)
NwFold(st, six, rows, i, acct, ns, legacy, T) ==
  IF i > Len(rows) \/ st.v = "bad" THEN st
  ELSE NwFold(NwStep(st, six, rows[i], acct, ns, legacy, T), six, rows, i + 1, acct, ns, legacy, T)

(* The rows before the transactions. *)
Preamble(rows) ==
  IF Len(rows) < 4 \/ \E i \in 1..3 : Len(rows[i]) < 2 THEN "bad"
  ELSE LET p == [i \in 1..3 |-> TrimRow(rows[i])] IN
       IF \E i \in 1..3 : p[i][1] # Labels[i] THEN "bad"
       ELSE WorstOf(<<Gbp(p[2][2]).v, Gbp(p[3][2]).v,
                      IF TrimRow(rows[4]) \notin {H5, H6} THEN "bad" ELSE "ok",
                      IF \E i \in 1..3 : Len(rows[i]) # 2 THEN "grey" ELSE "ok",
                      IF p[1][2] = "" THEN "grey" ELSE "ok">>)

NwExpected(rows, opt, T) ==
  LET v == Preamble(rows) IN
  IF v = "bad" THEN [v |-> "bad", trns |-> <<>>]
  ELSE LET acct == Trim(rows[1][2])
           n == NsOf(opt, acct, T)
           st == NwFold(NwInit(v), TrimRow(rows[4]) = H6, SubSeq(rows, 5, Len(rows)), 1, acct, n.ns, opt.legacy, T)
       IN IF n.v = "bad" THEN [v |-> "bad", trns |-> <<>>]
          ELSE [v |-> Worse(n.v, IF Len(rows) = 4 /\ ~NsOk(n.ns) THEN Worse(st.v, "grey") ELSE st.v), trns |-> st.trns]
=============================================================================
