---------------------------- MODULE StatementMC ----------------------------
(* Every Nationwide CSV statement of up to MaxRows rows over a small set   *)
(* of rows, in both layouts (C17, C19, C21).                               *)
EXTENDS Nationwide, Json, IOUtils
CONSTANTS MaxRows, Wide, Emit

DatesOf == {"31 Dec 2019", "01 Jan 2020"} \cup (IF Wide THEN {"29 Feb 2020"} ELSE {})
Sides == {<<"£1.00", "">>, <<"", "£2.50">>} \cup (IF Wide THEN {<<"£2.50", "">>, <<"", "£-1.00">>} ELSE {})
Texts == {<<"a", "b">>} \cup (IF Wide THEN {<<"a", "">>, <<"a b", "a">>} ELSE {})
Row(six, d, x, s) == <<d, x[1], x[2], s[1], s[2]>> \o (IF six THEN <<"£9.75">> ELSE <<>>)
GoodRows(six) == {Row(six, d, x, s) : d \in DatesOf, x \in Texts, s \in Sides}
BadRows(six) == {Row(six, "01 Jan 2020", <<"a", "b">>, <<"£1.00", "£2.00">>),
                 Row(six, "01 Jan 2020", <<"a", "b">>, <<"£1.00", "£0.00">>), Row(six, "01 Jan 2020", <<"a", "b">>, <<"£0.00", "£1.00">>), Row(six, "01 Jan 2020", <<"a", "b">>, <<"", "">>),
                 Row(six, "30 Feb 2020", <<"a", "b">>, <<"£1.00", "">>), Row(six, "01 Jan 2020", <<"a", "b">>, <<"£1.0", "">>),
                 Append(Row(six, "01 Jan 2020", <<"a", "b">>, <<"£1.00", "">>), "x"), <<"01 Jan 2020", "a">>}

VARIABLES six, legacy, rows, st
vars == <<six, legacy, rows, st>>
Fold(rs) == NwFold(NwInit("ok"), six, rs, 1, "Current", "n", legacy, <<>>)
Init == six \in BOOLEAN /\ legacy \in BOOLEAN /\ rows = <<>> /\ st = NwInit("ok")
Next == /\ Len(rows) < MaxRows
        /\ \E r \in GoodRows(six) \cup BadRows(six) :
              rows' = Append(rows, r) /\ st' = NwStep(st, six, r, "Current", "n", legacy, <<>>)
        /\ UNCHANGED <<six, legacy>>
Spec == Init /\ [][Next]_vars

Opposite(a, b) == a = "-" \o b \/ b = "-" \o a \/ (a = "0" /\ b = "0")
Good == st.v # "bad"
(* Refused exactly if some row is bad. *)
InvRefused == (st.v = "bad") = \E i \in DOMAIN rows : rows[i] \in BadRows(six)
InvOnePerRow == Good => Len(st.trns) = Len(rows)
InvBalanced == Good => \A i \in DOMAIN st.trns :
   LET p == st.trns[i].posts IN /\ Len(p) = 2 /\ Opposite(p[1].amt, p[2].amt)
      /\ p[1].acct = "assets:unknown" /\ p[2].acct = (IF Ch(p[1].amt, 1) = "-" THEN "expenses:unknown" ELSE "income:unknown")
      /\ p[1].flags = {"unknown-account", "import-self"} /\ p[2].flags = {"unknown-account", "import-peer"}
(* Rows of one day are numbered from 1. *)
Run0(i) == CHOOSE k \in 1..i : /\ \A j \in k..i : rows[j][1] = rows[i][1]
                               /\ (k = 1 \/ rows[k - 1][1] # rows[i][1])
InvSeq == Good => \A i \in DOMAIN rows : <<"seq", "n-" \o ToString(i - Run0(i) + 1)>> \in st.trns[i].posts[1].vals
DaysTogether == \A i, j \in DOMAIN rows : i < j /\ rows[i][1] = rows[j][1] => \A k \in i..j : rows[k][1] = rows[i][1]
InvUnique == Good /\ DaysTogether =>
   \A i, j \in DOMAIN st.trns : \A a, b \in 1..2 : <<i, a>> # <<j, b>> => st.trns[i].posts[a].fps \cap st.trns[j].posts[b].fps = {}
(* A later statement that begins with a whole day gives the same again. *)
InvSuffix == Good => \A i \in DOMAIN rows : Run0(i) = i =>
   Fold(SubSeq(rows, i, Len(rows))).trns = SubSeq(st.trns, i, Len(rows))
(* What has been read stays; the option for legacy tags only adds them. *)
ActGrow == [][Good' => SubSeq(st'.trns, 1, Len(rows)) = st.trns]_vars
NoLegacy(t) == [t EXCEPT !.posts = [k \in 1..2 |-> [t.posts[k] EXCEPT !.fps = {}]]]
InvLegacy == Good /\ legacy => LET o == NwFold(NwInit("ok"), six, rows, 1, "Current", "n", FALSE, <<>>).trns IN
   \A i \in DOMAIN o : /\ NoLegacy(o[i]) = NoLegacy(st.trns[i])
                       /\ \A k \in 1..2 : o[i].posts[k].fps \subseteq st.trns[i].posts[k].fps
EmitInv == (Emit /\ IF Good THEN Len(rows) = MaxRows ELSE Len(rows) <= 2 /\ ~legacy) => PrintT(<<"SCN", ToJson([kind |-> "nw", six |-> six, legacy |-> legacy, rows |-> rows])>>)
=============================================================================
