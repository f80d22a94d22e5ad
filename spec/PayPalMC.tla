------------------------------ MODULE PayPalMC ------------------------------
(* Every PayPal export of up to MaxRows rows over a small set of rows that *)
(* share instants across timezones and lie around midnights and changes of *)
(* the clocks (C18, C19, C21).                                             *)
EXTENDS PayPal, Json, IOUtils
CONSTANTS MaxRows, Zones, Wide, Emit

Tz == << <<"GMT", "UTC+00">>, <<"BST", "UTC+01">>, <<"EST", "UTC-05:00">> >>
Hdr == <<"Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Receipt ID", "Balance">>
(* Two of one instant, and one just after. *)
Times == {<<"28/03/2020", "23:59:59", "GMT">>, <<"29/03/2020", "00:59:59", "BST">>, <<"29/03/2020", "01:00:00", "BST">>}
         \cup (IF Wide THEN {<<"28/03/2020", "18:59:59", "EST">>, <<"29/03/2020", "02:00:00", "BST">>, <<"29/03/2020", "02:00:00", "GMT">>} ELSE {})
Row(t, name, status, amt) == <<t[1], t[2], t[3], name, "T", status, "GBP", amt, "", "7.10">>
GoodRows == {Row(t, n, "Completed", a) : t \in Times, n \in {"", "n"}, a \in {"1.00"}} \cup {Row(t, "m", "Pending", "-2.50") : t \in Times}
BadRows == {Row(<<"30/02/2020", "00:00:00", "GMT">>, "n", "Completed", "1.00"), Row(<<"28/03/2020", "23:59:59", "CET">>, "n", "Completed", "1.00"),
            Row(<<"28/03/2020", "23:59:59", "GMT">>, "n", "Denied", "1.00"), Row(<<"28/03/2020", "23:59:59", "GMT">>, "n", "Completed", "1,00")}

VARIABLES zone, rows, st
vars == <<zone, rows, st>>
Opt(z) == [ns |-> "fixed", val |-> "p", look |-> << <<"", "">> >>, legacy |-> FALSE, zone |-> z]
Fold(rs, z) == PpFold(PpInit("ok"), Hdr, Tz, rs, 1, Opt(z), <<>>)
Init == zone \in Zones /\ rows = <<>> /\ st = PpInit("ok")
Next == /\ Len(rows) < MaxRows
        /\ \E r \in GoodRows \cup BadRows : rows' = Append(rows, r) /\ st' = PpStep(st, Hdr, Tz, r, Opt(zone), <<>>)
        /\ UNCHANGED zone
Spec == Init /\ [][Next]_vars

At(i) == LET z == CHOOSE k \in DOMAIN Tz : Tz[k][1] = rows[i][3] IN Instant(PpDate(rows[i][1]), PpTime(rows[i][2]), Offset(Tz[z][2]).n)
Clean == \A i \in DOMAIN rows : rows[i] \notin BadRows
Starts == {i \in DOMAIN rows : i = 1 \/ At(i) # At(i - 1)}
EndOf(i) == CHOOSE j \in i..Len(rows) : /\ \A k \in (i + 1)..j : k \notin Starts
                                        /\ (j = Len(rows) \/ (j + 1) \in Starts)
Named(i) == \E k \in i..EndOf(i) : rows[k][4] # ""
NthStart(n) == CHOOSE i \in Starts : Cardinality({k \in Starts : k <= i}) = n
End == PpEnd(st)

InvRefused == (End.v = "bad") = (~Clean \/ \E i \in Starts : ~Named(i))
Good == End.v # "bad"
(* Maximal runs of one instant are the transactions. *)
InvGroups == Good =>
  /\ Len(st.trns) = Cardinality(Starts)
  /\ \A n \in DOMAIN st.trns :
       LET i == NthStart(n)
           t == st.trns[n]
       IN /\ Len(t.posts) = 2 * (EndOf(i) - i + 1)
          /\ t.date = LocalDate(At(i), ZoneOffset(zone, At(i))).n
          /\ \E k \in i..EndOf(i) : t.desc = rows[k][4] /\ \A l \in i..(k - 1) : rows[l][4] = ""
          /\ \A k \in i..EndOf(i) :
               LET p == t.posts[2 * (k - i) + 1]  q == t.posts[2 * (k - i) + 2] IN
               /\ p.amt = (IF rows[k][8] = "1.00" THEN "1" ELSE "-2.5") /\ p.bal = "7.1" /\ q.amt = (IF p.amt = "1" THEN "-1" ELSE "2.5")
               /\ q.bal = "" /\ p.st = (IF rows[k][6] = "Completed" THEN "*" ELSE "!") /\ q.st = p.st
(* Groups that do not come again have fingerprints of their own. *)
Once == \A i, j \in Starts : i # j => At(i) # At(j)
AllPosts == UNION {{<<n, k>> : k \in DOMAIN st.trns[n].posts} : n \in DOMAIN st.trns}
InvUnique == Good /\ Once => \A x, y \in AllPosts : x # y => st.trns[x[1]].posts[x[2]].fps \cap st.trns[y[1]].posts[y[2]].fps = {}
(* The output timezone touches dates only. *)
NoDates(ts) == [i \in DOMAIN ts |-> [ts[i] EXCEPT !.date = 0]]
InvZone == Good => \A z \in Zones : NoDates(Fold(rows, z).trns) = NoDates(st.trns)
(* A later export that begins with a whole group gives the same again. *)
InvSuffix == Good => \A n \in DOMAIN st.trns : Fold(SubSeq(rows, NthStart(n), Len(rows)), zone).trns = SubSeq(st.trns, n, Len(st.trns))
EmitInv == (Emit /\ Len(rows) = MaxRows /\ Clean) => PrintT(<<"SCN", ToJson([kind |-> "pp", zone |-> zone, tz |-> Tz, rows |-> <<Hdr>> \o rows])>>)
=============================================================================
