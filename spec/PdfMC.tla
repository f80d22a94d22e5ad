------------------------------- MODULE PdfMC -------------------------------
(* Every sequence of up to MaxLines lines in the tables of a PDF statement *)
(* (C19, C20, C21).  Lines are one line height apart, or past a gap.       *)
EXTENDS Pdf, Json, IOUtils
CONSTANTS MaxLines, Wide, Emit

Ln(dw, det, pay, rec, bal) == [dw |-> dw, det |-> det, pay |-> pay, rec |-> rec, bal |-> bal, top |-> 0, h |-> 10]
Kinds ==
  ("year" :> Ln(<<"2020">>, "", "", "", "") @@ "year2" :> Ln(<<"2021">>, "Balance brought forward", "", "", "1.00")
   @@ "dayout" :> Ln(<<"01", "Mar">>, "a", "1.00", "", "") @@ "dayin" :> Ln(<<"02", "Mar">>, "b", "", "2,000.50", "2.00")
   @@ "out" :> Ln(<<>>, "a", "1.00", "", "3.00") @@ "more" :> Ln(<<>>, "c", "", "", "") @@ "eff" :> Ln(<<>>, "Effective Date 05 Mar 2020", "", "", "4.00"))
  @@ (IF Wide THEN ("leap" :> Ln(<<"29", "Feb">>, "d", "", "1.00", "") @@ "both" :> Ln(<<>>, "e", "1.00", "2.00", "") @@ "nodet" :> Ln(<<>>, "", "1.00", "", "")
                    @@ "datedmore" :> Ln(<<"02", "Mar">>, "f", "", "", "") @@ "badyear" :> Ln(<<"20l9">>, "", "", "", "") @@ "badeff" :> Ln(<<>>, "Effective Date x", "", "", ""))
      ELSE << >>)

(* hist: the lines so far, [k, gap, new]: its kind, whether it comes after a gap, whether it opens a table. *)
VARIABLES st, top, hist
vars == <<st, top, hist>>
Init == st = PdfInit /\ top = 0 /\ hist = <<>>
Step(k, gap, new) ==
  LET t == IF new THEN 100 ELSE top + (IF gap THEN 21 ELSE 20) IN
  /\ st' = PdfStep(IF new THEN NewTable(st) ELSE st, [Kinds[k] EXCEPT !.top = t])
  /\ top' = t /\ hist' = Append(hist, [k |-> k, gap |-> gap, new |-> new])
Next == /\ Len(hist) < MaxLines /\ st.v # "bad"
        /\ \E k \in DOMAIN Kinds : \E g \in {"", "gap", "new"} : (hist = <<>> => g = "new") /\ Step(k, g = "gap", g = "new")
Spec == Init /\ [][Next]_vars

(* Another account of the same: lines of a table are those up to the first gap after its first line of text. *)
Opens(i) == CHOOSE j \in 1..i : hist[j].new /\ \A m \in (j + 1)..i : ~hist[m].new
IsYear(i) == Len(Kinds[hist[i].k].dw) = 1
Text(i) == ~IsYear(i) /\ Kinds[hist[i].k].det # ""
(* A line in sight: the last line of text or, after one, of a year. *)
Anchor(i) == Text(i) \/ (IsYear(i) /\ \E j \in Opens(i)..(i - 1) : Text(j))
TopOf(i) == 100 + 20 * (i - Opens(i)) + Cardinality({j \in Opens(i)..i : hist[j].gap})
Ends(i) == /\ Anchor(i)
           /\ \E j \in Opens(i)..(i - 1) : /\ Anchor(j) /\ \A m \in (j + 1)..(i - 1) : ~Anchor(m)
                                           /\ TopOf(i) > TopOf(j) + 20
Live(i) == \A j \in Opens(i)..i : ~Ends(j)
IsAmount(i) == Text(i) /\ (Kinds[hist[i].k].pay # "" \/ Kinds[hist[i].k].rec # "")
Amounts == {i \in DOMAIN hist : IsAmount(i) /\ Live(i)}
Nth(n) == CHOOSE i \in Amounts : Cardinality({j \in Amounts : j <= i}) = n
NextA(i) == IF \E j \in Amounts : j > i THEN CHOOSE j \in Amounts : j > i /\ \A m \in Amounts : m > i => j <= m ELSE Len(hist) + 1
Good == st.v = "ok"
InvOne == Good => Len(st.trns) = Cardinality(Amounts)
DayOf(i) == LET ds == {j \in Opens(i)..i : Len(Kinds[hist[j].k].dw) = 2}
                d == CHOOSE j \in ds : \A m \in ds : m <= j
                ys == {j \in Opens(i)..d : IsYear(j)}
                y == CHOOSE j \in ys : \A m \in ys : m <= j
            IN <<Kinds[hist[y].k].dw, Kinds[hist[d].k].dw>>
InvDates == Good => \A n \in DOMAIN st.trns :
   LET d == DayOf(Nth(n)) IN st.trns[n].date = DayMonth(Num(d[1][1], 0), d[2][1], d[2][2])
InvCounters == Good => \A n \in DOMAIN st.trns :
   st.trns[n].ctr = (IF n > 1 /\ st.trns[n - 1].date.n = st.trns[n].date.n THEN st.trns[n - 1].ctr + 1 ELSE 0)
InvAmounts == Good => \A n \in DOMAIN st.trns :
   LET l == Kinds[hist[Nth(n)].k] IN Canon(st.trns[n].amt) = (IF l.pay # "" THEN "-1" ELSE IF l.rec = "1.00" THEN "1" ELSE "2000.5")
(* What follows an amount belongs to it. *)
Belongs(n) == {j \in DOMAIN hist : j > Nth(n) /\ j < NextA(Nth(n)) /\ Text(j) /\ Live(j)}
InvMore == Good => \A n \in DOMAIN st.trns :
   LET b == Belongs(n)
       effs == {j \in b : hist[j].k = "eff"}
       bals == {j \in b \cup {Nth(n)} : Kinds[hist[j].k].bal # ""}
       extra == {j \in b : hist[j].k # "eff"}
       t == st.trns[n]
   IN /\ t.edate = (IF effs = {} THEN 0 ELSE 20200305)
      /\ t.bal = (IF bals = {} THEN NoAmt ELSE PdfDec(Kinds[hist[CHOOSE j \in bals : \A m \in bals : m <= j].k].bal))
      /\ Len(t.desc) = 1 + 2 * Cardinality(extra)
InvUnique == Good => \A i, j \in DOMAIN st.trns : i < j /\ (\A k \in i..j : st.trns[k].date.n >= st.trns[i].date.n /\ st.trns[k].date.n <= st.trns[j].date.n)
   => <<st.trns[i].date.n, st.trns[i].ctr>> # <<st.trns[j].date.n, st.trns[j].ctr>>
EmitInv == (Emit /\ Len(hist) = MaxLines /\ Good /\ st.trns # <<>>) =>
   PrintT(<<"SCN", ToJson([kind |-> "pdf", lines |-> [i \in DOMAIN hist |-> [l |-> Kinds[hist[i].k], gap |-> hist[i].gap, new |-> hist[i].new]],
                           trns |-> [n \in DOMAIN st.trns |-> [d |-> st.trns[n].date.n, ctr |-> st.trns[n].ctr, desc |-> st.trns[n].desc, q |-> Canon(st.trns[n].amt)]]])>>)
=============================================================================
