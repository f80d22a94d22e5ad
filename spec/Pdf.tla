-------------------------------- MODULE Pdf --------------------------------
(***************************************************************************)
(* The Nationwide PDF importer, from the OCR table on.  Two layers:        *)
(*  - geometry: OCR records (pages, blocks, paragraphs, lines, words with  *)
(*    their places) to tables of logical lines, whose cells are            *)
(*    [dw, det, pay, rec, bal, top, h]: the words in the date column, and  *)
(*    the texts of the other columns;                                      *)
(*  - assembly: a machine that reads logical lines one by one.             *)
(***************************************************************************)
EXTENDS Nationwide

(***************************************************************************)
(* Assembly.  State: v the verdict; y, date the year and date in force (0  *)
(* if none); last the place of the last line with details in this table;   *)
(* ended whether a gap ended the table; prev, ctr the date of the last     *)
(* transaction started and its number in the day; trns the transactions,   *)
(* the last of which is open.                                              *)
(***************************************************************************)
NoDate == [v |-> "ok", y |-> 0, m |-> 0, d |-> 0, n |-> 0]
PdfInit == [v |-> "ok", y |-> 0, date |-> NoDate, last |-> <<>>, ended |-> FALSE, prev |-> 0, ctr |-> 0, trns |-> <<>>]
NewTable(st) == [st EXCEPT !.y = 0, !.date = NoDate, !.last = <<>>, !.ended = FALSE]

Year(s) == IF Len(s) = 4 /\ AllDigits(s) THEN [v |-> IF Num(s, 0) \in 1980..2100 THEN "ok" ELSE "bad", n |-> Num(s, 0)]
           ELSE IF s # "" /\ Ch(s, 1) = "+" /\ Len(s) = 5 /\ AllDigits(SubSeq(s, 2, 5)) /\ Num(SubSeq(s, 2, 5), 0) \in 1980..2100
                THEN [v |-> "grey", n |-> Num(SubSeq(s, 2, 5), 0)]
           ELSE [v |-> "bad", n |-> 0]
DayMonth(y, ds, ms) ==
  LET strict == Len(ds) = 2 /\ AllDigits(ds) /\ IndexIn(ms, Caps) # 0
      m == IF IndexIn(Low(ms), Months) # 0 THEN IndexIn(Low(ms), Months) ELSE IndexIn(Low(ms), MonthsL)
  IN IF y = 0 \/ Len(ds) \notin {1, 2} \/ ~AllDigits(ds) \/ m = 0 THEN Bad
     ELSE DateVal(IF strict THEN "ok" ELSE "grey", y, m, Num(ds, 0))

Prefix == "Effective Date "
IsEffective(s) == Len(s) >= Len(Prefix) /\ SubSeq(s, 1, Len(Prefix)) = Prefix

(* A line with details, by the date in force. *)
Detail(st, ln) ==
  LET starts == ln.pay # "" \/ ln.rec # ""
      amt == PdfDec(IF ln.pay # "" THEN ln.pay ELSE ln.rec)
      bal == IF ln.bal = "" THEN NoAmt ELSE PdfDec(ln.bal)
      n == Len(st.trns)
      fail == [st EXCEPT !.v = "bad"]
  IN IF starts
     THEN IF (ln.pay # "" /\ ln.rec # "") \/ amt.v = "bad" \/ VOf(bal) = "bad" \/ st.date.n = 0 THEN fail
          ELSE IF amt.neg /\ ~IsZero(amt) THEN fail
          ELSE LET ctr == IF st.date.n = st.prev THEN st.ctr + 1 ELSE 0 IN
               [st EXCEPT !.v = WorstOf(<<@, amt.v, VOf(bal), IF amt.neg THEN "skip" ELSE "ok">>), !.prev = st.date.n, !.ctr = ctr,
                          !.trns = Append(@, [date |-> st.date, ctr |-> ctr, desc |-> ln.det, edate |-> 0, bal |-> bal,
                                              amt |-> IF ln.pay # "" THEN Neg(amt) ELSE amt])]
     ELSE IF n = 0 THEN st
     ELSE LET e == NwDate(SubSeq(ln.det, Len(Prefix) + 1, Len(ln.det)))
              eff == IsEffective(ln.det)
          IN IF (eff /\ e.v = "bad") \/ VOf(bal) = "bad" THEN fail
             ELSE [st EXCEPT !.v = WorstOf(<<@, IF eff THEN e.v ELSE "ok", VOf(bal)>>),
                             !.trns[n] = [@ EXCEPT !.edate = IF eff THEN e.n ELSE @,
                                                   !.desc = IF eff THEN @ ELSE @ \o " " \o ln.det,
                                                   !.bal = IF ln.bal = "" THEN @ ELSE bal]]

PdfStep(st, ln) ==
  IF st.v = "bad" THEN st
  ELSE LET nd == Len(ln.dw)
           yr == Year(ln.dw[1])
           dm == DayMonth(st.y, ln.dw[1], ln.dw[2])
           (* Below the end of a table, dates need not make sense. *)
           fail == [st EXCEPT !.v = IF st.ended THEN Worse(@, "grey") ELSE "bad"]
           gap == st.last # <<>> /\ ln.top > st.last[1] + 2 * st.last[2]
       IN IF nd > 2 THEN fail
          ELSE IF nd = 1 THEN (IF yr.v = "bad" THEN fail
                             (* The line of a year is no gap, and may be followed by more of the table. *)
                             ELSE [st EXCEPT !.v = Worse(@, yr.v), !.y = yr.n, !.ended = @ \/ gap,
                                             !.last = IF @ = <<>> \/ gap THEN @ ELSE <<ln.top, ln.h>>])
          ELSE IF nd = 2 /\ dm.v = "bad" THEN fail
          ELSE LET st1 == IF nd = 2 THEN [st EXCEPT !.v = Worse(@, dm.v), !.date = dm] ELSE st
               IN IF ln.det = "" THEN st1
                  ELSE IF st1.ended \/ gap THEN [st1 EXCEPT !.ended = TRUE]
                  ELSE [Detail(st1, ln) EXCEPT !.last = <<ln.top, ln.h>>]

RECURSIVE PdfLines(_, _, _), PdfTables(_, _, _)
PdfLines(st, lns, i) == IF i > Len(lns) THEN st ELSE PdfLines(PdfStep(st, lns[i]), lns, i + 1)
PdfTables(st, tbls, i) == IF i > Len(tbls) \/ st.v = "bad" THEN st ELSE PdfTables(PdfLines(NewTable(st), tbls[i], 1), tbls, i + 1)

PdfTrn(t, ns, T) ==
  LET base == {<<"bank", "Nationwide">>}
      fp(half, a) == IF IsZero(a) THEN "?" ELSE LegTag(ns, H(T, NwPdf(t, Account(half, t.amt), a)))
  IN [date |-> t.date.n, edate |-> t.edate, st |-> "", desc |-> t.desc,
      posts |-> << Posting("assets:unknown", t.amt, t.bal, {"unknown-account", "import-self"}, {fp("self", t.amt)},
                           base \cup {<<"seq", ns \o "-" \o ToString(t.ctr + 1)>>}),
                   Posting(Account("peer", t.amt), Neg(t.amt), NoAmt, {"unknown-account", "import-peer"}, {fp("peer", Neg(t.amt))}, base) >>]

(***************************************************************************)
(* Geometry.  A record is [ok, lv, pg, bl, pa, ln, wd, l, t, w, h, x].      *)
(***************************************************************************)
In(s, i) == i >= 1 /\ i <= Len(s)
RECURSIVE Doc(_, _, _)
Doc(recs, i, d) ==
  IF i > Len(recs) THEN [v |-> "ok", pages |-> d]
  ELSE LET r == recs[i]  bad == [v |-> "bad", pages |-> <<>>] IN
    IF ~r.ok \/ r.lv \notin 1..5 THEN bad
    ELSE IF r.lv = 1 THEN (IF r.pg # Len(d) + 1 THEN bad ELSE Doc(recs, i + 1, Append(d, <<>>)))
    ELSE IF ~In(d, r.pg) THEN bad
    ELSE IF r.lv = 2 THEN (IF r.bl # Len(d[r.pg]) + 1 THEN bad ELSE Doc(recs, i + 1, [d EXCEPT ![r.pg] = Append(@, <<>>)]))
    ELSE IF ~In(d[r.pg], r.bl) THEN bad
    ELSE IF r.lv = 3 THEN (IF r.pa # Len(d[r.pg][r.bl]) + 1 THEN bad ELSE Doc(recs, i + 1, [d EXCEPT ![r.pg][r.bl] = Append(@, <<>>)]))
    ELSE IF ~In(d[r.pg][r.bl], r.pa) THEN bad
    ELSE IF r.lv = 4 THEN (IF r.ln # Len(d[r.pg][r.bl][r.pa]) + 1 THEN bad
                           ELSE Doc(recs, i + 1, [d EXCEPT ![r.pg][r.bl][r.pa] = Append(@, [top |-> r.t, h |-> r.h, ws |-> <<>>])]))
    ELSE IF ~In(d[r.pg][r.bl][r.pa], r.ln) THEN bad
    ELSE IF r.wd # Len(d[r.pg][r.bl][r.pa][r.ln].ws) + 1 THEN bad
    ELSE Doc(recs, i + 1, [d EXCEPT ![r.pg][r.bl][r.pa][r.ln].ws = Append(@, [l |-> r.l, r |-> r.l + r.w, x |-> Trim(r.x)])])

(* Paragraphs in order. *)
RECURSIVE Cat(_, _)
Cat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Cat(ss, i + 1)
Paras(pages) == Cat(Cat(pages, 1), 1)

HeaderWords == <<"Date", "Details", "Payments", "Receipts", "Balance">>
IsHeader(ln) == Len(ln.ws) >= 5 /\ \A i \in 1..5 : ln.ws[i].x = HeaderWords[i]
IsHeaderAt(para, i) == IsHeader(para[i]) /\ \A j \in 1..(i - 1) : ~IsHeader(para[j])

RECURSIVE Joined(_, _, _, _), Picked(_, _, _, _)
Picked(ws, i, a, b) == IF i > Len(ws) THEN <<>>
                       ELSE (IF ws[i].r > a /\ ws[i].l < b THEN <<ws[i].x>> ELSE <<>>) \o Picked(ws, i + 1, a, b)
Joined(xs, i, acc, first) == IF i > Len(xs) THEN acc ELSE Joined(xs, i + 1, IF first THEN xs[i] ELSE acc \o " " \o xs[i], FALSE)
Cell(ln, a, b) == Joined(Picked(ln.ws, 1, a, b), 1, "", TRUE)

Logical(ln, c) ==
  [dw |-> Picked(ln.ws, 1, c[1].l, c[1].r), det |-> Cell(ln, c[2].l, c[3].l), pay |-> Cell(ln, c[3].l, c[4].l),
   rec |-> Cell(ln, c[4].l, c[5].l), bal |-> Cell(ln, c[5].l, c[5].r), top |-> ln.top, h |-> ln.h]
TableOf(para) == LET i == CHOOSE i \in DOMAIN para : IsHeaderAt(para, i) IN
                 [k \in 1..(Len(para) - i) |-> Logical(para[i + k], para[i].ws)] \o <<>>
HasTable(para) == \E i \in DOMAIN para : IsHeader(para[i])
Tables(paras) == LET t == SelectSeq(paras, HasTable) IN [k \in DOMAIN t |-> TableOf(t[k])] \o <<>>

SortCode(s) == Len(s) = 8 /\ Ch(s, 3) = "-" /\ Ch(s, 6) = "-" /\ AllDigits(SubSeq(s, 1, 2) \o SubSeq(s, 4, 5) \o SubSeq(s, 7, 8))
IsAccount(ln) == /\ Len(ln.ws) >= 4 /\ ln.ws[1].x = "Account" /\ ln.ws[2].x = "Number" /\ SortCode(ln.ws[3].x)
                 /\ Len(ln.ws[4].x) = 8 /\ AllDigits(ln.ws[4].x)
Accounts(paras) == SelectSeq(Cat(paras, 1), IsAccount)

AccountOf(accts) == accts[1].ws[3].x \o " " \o accts[1].ws[4].x
(* "" if there is none. *)
PdfAccount(recs) ==
  LET doc == Doc(recs, 1, <<>>)
      accts == Accounts(Paras(doc.pages))
  IN IF doc.v = "bad" \/ accts = <<>> THEN "" ELSE AccountOf(accts)
PdfExpected(recs, opt, T) ==
  LET doc == Doc(recs, 1, <<>>)
      paras == Paras(doc.pages)
      accts == Accounts(paras)
      bad == [v |-> "bad", trns |-> <<>>]
  IN IF doc.v = "bad" \/ accts = <<>> THEN bad
     ELSE LET n == NsOf(opt, AccountOf(accts), T)
              st == PdfTables(PdfInit, Tables(paras), 1)
          IN IF n.v = "bad" \/ st.v = "bad" THEN bad
             ELSE IF ~NsOk(n.ns) THEN (IF st.trns # <<>> THEN bad ELSE [v |-> Worse(st.v, "grey"), trns |-> <<>>])
             ELSE [v |-> Worse(n.v, st.v), trns |-> [i \in DOMAIN st.trns |-> PdfTrn(st.trns[i], n.ns, T)] \o <<>>]
=============================================================================
