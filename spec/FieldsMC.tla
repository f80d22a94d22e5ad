------------------------------ MODULE FieldsMC ------------------------------
(* Every field of up to MaxLen tokens: what a recogniser understands, it   *)
(* understands in one way only, and writing that down again in the form of *)
(* the bank gives the same (C21). Kind says which field.                   *)
EXTENDS Fields, Json, IOUtils
CONSTANTS Kind, Tokens, MaxLen, Emit

VARIABLES s, n
vars == <<s, n>>
Init == s = "" /\ n = 0
Next == n < MaxLen /\ n' = n + 1 /\ \E t \in Tokens : s' = s \o t
Spec == Init /\ [][Next]_vars

Read(x) == CASE Kind = "gbp" -> Gbp(x) [] Kind = "dec" -> Dec(x) [] Kind = "pdfdec" -> PdfDec(x) [] Kind = "nwdate" -> NwDate(x)
             [] Kind = "ppdate" -> PpDate(x) [] Kind = "pptime" -> PpTime(x) [] Kind = "offset" -> Offset(x)
R == Read(s)
Pad(k, w) == LET t == ToString(k) IN IF Len(t) >= w THEN t ELSE SubSeq("0000", 1, w - Len(t)) \o t
(* Any other reader of amounts: the digits in order, the point, the sign. *)
RECURSIVE Only(_, _)
Only(x, cs) == IF x = "" THEN "" ELSE (IF Ch(x, 1) \in cs THEN Ch(x, 1) ELSE "") \o Only(SubSeq(x, 2, Len(x)), cs)
Amount == Kind \in {"gbp", "dec", "pdfdec"}
InvAmount == (Amount /\ R.v # "bad") =>
   /\ R.i \o R.f = Only(s, DOMAIN DigitVal)
   /\ R.neg = (Only(s, {"-"}) = "-") /\ Len(Only(s, {"-", "+"})) <= 1
   /\ LET p == Only(s, {"."}) IN Len(p) <= 1 /\ (p = "" => R.f = "")
   /\ (R.v = "ok" /\ Kind # "pdfdec") => s = (IF Kind = "gbp" THEN "£" ELSE "") \o (IF R.neg THEN "-" ELSE "") \o R.i \o (IF R.f = "" THEN "" ELSE "." \o R.f)
   /\ (R.v = "ok" /\ Kind = "gbp") => Len(R.f) = 2 /\ R.i # ""
InvDate == (Kind \in {"nwdate", "ppdate"} /\ R.v # "bad") =>
   LET strict == IF Kind = "nwdate" THEN Pad(R.d, 2) \o " " \o Caps[R.m] \o " " \o Pad(R.y, 4) ELSE Pad(R.d, 2) \o "/" \o Pad(R.m, 2) \o "/" \o Pad(R.y, 4) IN
   /\ ValidDate(R.y, R.m, R.d) /\ (R.v = "ok" => s = strict)
   /\ LET b == Read(strict) IN b.v = "ok" /\ <<b.y, b.m, b.d>> = <<R.y, R.m, R.d>>
InvTime == (Kind = "pptime" /\ R.v # "bad") =>
   /\ R.h \in 0..23 /\ R.m \in 0..59 /\ R.s \in 0..60
   /\ R.v = "ok" => s = Pad(R.h, 2) \o ":" \o Pad(R.m, 2) \o ":" \o Pad(R.s, 2)
InvOffset == (Kind = "offset" /\ R.v # "bad") =>
   LET a == IF R.n < 0 THEN 0 - R.n ELSE R.n IN
   /\ a < 1440 /\ s \in {"UTC" \o x \o Pad(a \div 60, 2) \o m : x \in (IF R.n = 0 THEN {"+", "-"} ELSE IF R.n < 0 THEN {"-"} ELSE {"+"}),
                         m \in {":" \o Pad(a % 60, 2)} \cup (IF a % 60 = 0 THEN {""} ELSE {})}
EmitInv == (Emit /\ n > 0) => PrintT(<<"SCN", ToJson([kind |-> "field", field |-> Kind, s |-> s, v |-> R.v])>>)

(* The calendar, over the years that statements may have. *)
ASSUME \A k \in DayNo(1999, 12, 1)..DayNo(2032, 3, 1) : LET d == DateOf(k) IN
         /\ ValidDate(d.y, d.m, d.d) /\ DayNo(d.y, d.m, d.d) = k
         /\ LET e == DateOf(k + 1) IN (e.d = d.d + 1 /\ e.m = d.m /\ e.y = d.y) \/ (e.d = 1 /\ d.d = MonthLen(d.y, d.m) /\ e.m = (d.m % 12) + 1 /\ e.y = d.y + (IF d.m = 12 THEN 1 ELSE 0))
ASSUME WeekDay(DayNo(2000, 1, 1)) = 6 /\ WeekDay(DayNo(2020, 2, 29)) = 6 /\ WeekDay(DayNo(2024, 12, 25)) = 3 /\ WeekDay(DayNo(2026, 11, 19)) = 4
At(y, m, d, h, mi) == [d |-> DayNo(y, m, d), m |-> h * 60 + mi, s |-> 0]
ASSUME /\ ZoneOffset("Europe/London", At(2020, 3, 29, 0, 59)) = 0 /\ ZoneOffset("Europe/London", At(2020, 3, 29, 1, 0)) = 60
       /\ ZoneOffset("Europe/London", At(2020, 10, 25, 0, 59)) = 60 /\ ZoneOffset("Europe/London", At(2020, 10, 25, 1, 0)) = 0
       /\ ZoneOffset("America/New_York", At(2021, 3, 14, 6, 59)) = -300 /\ ZoneOffset("America/New_York", At(2021, 3, 14, 7, 0)) = -240
       /\ ZoneOffset("America/New_York", At(2021, 11, 7, 5, 59)) = -240 /\ ZoneOffset("America/New_York", At(2021, 11, 7, 6, 0)) = -300
       /\ ZoneOffset("America/Los_Angeles", At(2019, 3, 10, 9, 59)) = -480 /\ ZoneOffset("America/Los_Angeles", At(2019, 3, 10, 10, 0)) = -420
ASSUME LocalDate(At(2020, 12, 31, 23, 30), 60).n = 20210101 /\ LocalDate(At(2020, 3, 1, 0, 30), 0 - 60).n = 20200229
=============================================================================
