------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* The fields of bank statements, character by character.  A recogniser    *)
(* gives [v |-> "ok", ..value..] for text that must be understood,         *)
(* [v |-> "bad"] for text that must be refused, and [v |-> "grey",         *)
(* ..value..] for text outside the documented form that still has only one *)
(* reasonable reading: it may be refused, or be read as exactly that.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
DigitVal == ("0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9)
IsDigit(c) == c \in DOMAIN DigitVal
Blank == {" ", "\t"}

RECURSIVE SkipWs(_, _)
SkipWs(s, i) == IF i <= Len(s) /\ Ch(s, i) \in Blank THEN SkipWs(s, i + 1) ELSE i
RECURSIVE RSkip(_, _)
RSkip(s, n) == IF n > 0 /\ Ch(s, n) \in Blank THEN RSkip(s, n - 1) ELSE n
Trim(s) == LET i == SkipWs(s, 1) IN SubSeq(s, i, RSkip(s, Len(s)))

(* The end of the run of digits from i on. *)
RECURSIVE Digits(_, _)
Digits(s, i) == IF i <= Len(s) /\ IsDigit(Ch(s, i)) THEN Digits(s, i + 1) ELSE i
RECURSIVE AllDigits(_)
AllDigits(s) == s = "" \/ (IsDigit(Ch(s, 1)) /\ AllDigits(SubSeq(s, 2, Len(s))))
RECURSIVE Num(_, _)
Num(s, acc) == IF s = "" THEN acc ELSE Num(SubSeq(s, 2, Len(s)), acc * 10 + DigitVal[Ch(s, 1)])
RECURSIVE StripL(_)
StripL(s) == IF s # "" /\ Ch(s, 1) = "0" THEN StripL(SubSeq(s, 2, Len(s))) ELSE s
RECURSIVE StripR(_)
StripR(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Without(_, _)
Without(s, c) == IF s = "" THEN "" ELSE (IF Ch(s, 1) = c THEN "" ELSE Ch(s, 1)) \o Without(SubSeq(s, 2, Len(s)), c)

Bad == [v |-> "bad"]

(***************************************************************************)
(* Decimal numbers: [neg, i, f] with the digits before and after the point. *)
(***************************************************************************)
Val(v, neg, i, f) == [v |-> v, neg |-> neg, i |-> i, f |-> f]
IsZero(a) == StripL(a.i \o a.f) = ""
Canon(a) == LET i == StripL(a.i)  f == StripR(a.f) IN
            IF i = "" /\ f = "" THEN "0"
            ELSE (IF a.neg THEN "-" ELSE "") \o (IF i = "" THEN "0" ELSE i) \o (IF f = "" THEN "" ELSE "." \o f)
Neg(a) == [a EXCEPT !.neg = ~@]

(* The place of the first c in s, or 0. *)
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Ch(s, i) = c THEN i ELSE Find(s, c, i + 1)

(* Thousands separators, correctly placed: d{1,3}(,d{3})+ *)
RECURSIVE Grouped(_)
Grouped(s) == LET n == Len(s) IN
  IF n <= 3 THEN n >= 1 /\ AllDigits(s)
  ELSE Ch(s, n - 3) = "," /\ AllDigits(SubSeq(s, n - 2, n)) /\ Grouped(SubSeq(s, 1, n - 4))

(* GBP values of Nationwide CSV files: a pound sign, maybe a minus, pounds, *)
(* a point and two digits of pence.                                         *)
Gbp(s) ==
  IF s = "" \/ Ch(s, 1) # "£" THEN Bad
  ELSE LET neg == Len(s) > 1 /\ Ch(s, 2) = "-"
           r == SubSeq(s, IF neg THEN 3 ELSE 2, Len(s))
           p == Find(r, ".", 1)
       IN IF p <= 1 \/ Len(r) # p + 2 THEN
            (* Without pence, with separators: one reading, but not the form of the bank. *)
            (IF p = 0 /\ r # "" /\ AllDigits(r) /\ Len(r) < 16 THEN Val("grey", neg, r, "")
             ELSE Bad)
          ELSE LET i == SubSeq(r, 1, p - 1)  f == SubSeq(r, p + 1, p + 2) IN
               IF ~AllDigits(f) THEN Bad
               ELSE IF AllDigits(i) THEN Val(IF Len(i) < 16 THEN "ok" ELSE "grey", neg, i, f)
               ELSE IF Grouped(i) THEN Val("grey", neg, Without(i, ","), f)
               ELSE Bad

(* Plain decimal numbers of PayPal files. *)
Dec(s0) ==
  LET sign == s0 # "" /\ Ch(s0, 1) \in {"-", "+"}
      neg == sign /\ Ch(s0, 1) = "-"
      s == IF sign THEN SubSeq(s0, 2, Len(s0)) ELSE s0
      p == Find(s, ".", 1)
      i == IF p = 0 THEN s ELSE SubSeq(s, 1, p - 1)
      f == IF p = 0 THEN "" ELSE SubSeq(s, p + 1, Len(s))
      loose == (sign /\ ~neg) \/ i = "" \/ (p > 0 /\ f = "")
      i2 == Without(Without(i, "_"), ",")
      f2 == Without(f, "_")
  IN IF i \o f = "" THEN Bad
     ELSE IF Len(i) + Len(f) > 27 THEN Val("grey", neg, i, f)
     ELSE IF AllDigits(i) /\ AllDigits(f) THEN Val(IF loose THEN "grey" ELSE "ok", neg, i, f)
     ELSE IF (Grouped(i) \/ (AllDigits(i2) /\ Find(i, ",", 1) = 0 /\ i2 # "")) /\ AllDigits(f2)
          THEN Val("grey", neg, i2, f2)
     ELSE Bad

(* Amounts of PDF statements: separators between thousands are usual. *)
PdfDec(s0) ==
  LET d == Dec(s0) IN
  IF d.v = "grey" /\ (s0 = "" \/ IsDigit(Ch(s0, 1)) \/ Ch(s0, 1) = "-") /\ Find(s0, "_", 1) = 0 /\ Find(s0, ",", 1) # 0 /\ Ch(s0, Len(s0)) # "."
     /\ Len(s0) < 20
  THEN [d EXCEPT !.v = "ok"] ELSE d

(***************************************************************************)
(* Dates and times.                                                        *)
(***************************************************************************)
Months == <<"jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec">>
MonthsL == <<"january", "february", "march", "april", "may", "june", "july", "august", "september", "october", "november", "december">>
Caps == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
UpDown == ("A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "D" :> "d" @@ "E" :> "e" @@ "F" :> "f" @@ "G" :> "g" @@ "H" :> "h" @@ "I" :> "i"
           @@ "J" :> "j" @@ "K" :> "k" @@ "L" :> "l" @@ "M" :> "m" @@ "N" :> "n" @@ "O" :> "o" @@ "P" :> "p" @@ "Q" :> "q" @@ "R" :> "r"
           @@ "S" :> "s" @@ "T" :> "t" @@ "U" :> "u" @@ "V" :> "v" @@ "W" :> "w" @@ "X" :> "x" @@ "Y" :> "y" @@ "Z" :> "z")
LowerLetters == {UpDown[c] : c \in DOMAIN UpDown}
RECURSIVE Low(_)
Low(s) == IF s = "" THEN "" ELSE (IF Ch(s, 1) \in DOMAIN UpDown THEN UpDown[Ch(s, 1)] ELSE Ch(s, 1)) \o Low(SubSeq(s, 2, Len(s)))
RECURSIVE Letters(_, _)
Letters(s, i) == IF i <= Len(s) /\ (Ch(s, i) \in DOMAIN UpDown \/ Ch(s, i) \in LowerLetters) THEN Letters(s, i + 1) ELSE i
IndexIn(x, q) == IF \E i \in DOMAIN q : q[i] = x THEN CHOOSE i \in DOMAIN q : q[i] = x ELSE 0

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == y >= 1000 /\ y <= 9999 /\ m >= 1 /\ m <= 12 /\ d >= 1 /\ d <= MonthLen(y, m)
DateVal(v, y, m, d) == IF ValidDate(y, m, d) THEN [v |-> v, y |-> y, m |-> m, d |-> d, n |-> y * 10000 + m * 100 + d] ELSE Bad

Num4(s) == IF s # "" /\ Len(s) <= 6 /\ AllDigits(s) THEN Num(s, 0) ELSE 0 - 1

(* "DD Mon YYYY" *)
NwDate(s) ==
  LET strict == /\ Len(s) = 11 /\ AllDigits(SubSeq(s, 1, 2)) /\ Ch(s, 3) = " " /\ Ch(s, 7) = " " /\ AllDigits(SubSeq(s, 8, 11))
                /\ IndexIn(SubSeq(s, 4, 6), Caps) # 0
      i0 == SkipWs(s, 1)
      i1 == Digits(s, i0)
      i2 == SkipWs(s, i1)
      i3 == Letters(s, i2)
      i4 == SkipWs(s, i3)
      plus == i4 <= Len(s) /\ Ch(s, i4) = "+"
      i5 == IF plus THEN i4 + 1 ELSE i4
      i6 == Digits(s, i5)
      mon == Low(SubSeq(s, i2, i3 - 1))
      m == IF IndexIn(mon, Months) # 0 THEN IndexIn(mon, Months) ELSE IndexIn(mon, MonthsL)
  IN IF i1 - i0 \in {1, 2} /\ m # 0 /\ i6 - i5 = 4 /\ SkipWs(s, i6) = Len(s) + 1
     THEN DateVal(IF strict THEN "ok" ELSE "grey", Num(SubSeq(s, i5, i6 - 1), 0), m, Num(SubSeq(s, i0, i1 - 1), 0))
     ELSE Bad

(* Three numbers with a separator, "DD/MM/YYYY" or "HH:MM:SS": the strict form has the given widths. *)
Three(s, sep, w3) ==
  LET a0 == SkipWs(s, 1)  a1 == Digits(s, a0)  a2 == SkipWs(s, a1)
      b0 == SkipWs(s, a2 + 1)  b1 == Digits(s, b0)  b2 == SkipWs(s, b1)
      c == SkipWs(s, b2 + 1)
      plus == c <= Len(s) /\ Ch(s, c) = "+"
      c0 == IF plus THEN c + 1 ELSE c
      c1 == Digits(s, c0)
      ok == /\ a1 - a0 \in {1, 2} /\ a2 <= Len(s) /\ Ch(s, a2) = sep
            /\ b1 - b0 \in {1, 2} /\ b2 <= Len(s) /\ Ch(s, b2) = sep
            /\ c1 - c0 \in (IF w3 = 4 THEN {4} ELSE {1, 2}) /\ SkipWs(s, c1) = Len(s) + 1
  IN IF ~ok THEN Bad
     ELSE [v |-> IF Len(s) = 6 + w3 /\ a0 = 1 /\ a1 = 3 /\ b0 = 4 /\ b1 = 6 /\ c0 = 7 THEN "ok" ELSE "grey",
           a |-> Num(SubSeq(s, a0, a1 - 1), 0), b |-> Num(SubSeq(s, b0, b1 - 1), 0), c |-> Num(SubSeq(s, c0, c1 - 1), 0)]
PpDate(s) == LET t == Three(s, "/", 4) IN IF t.v = "bad" THEN Bad ELSE DateVal(t.v, t.c, t.b, t.a)
PpTime(s) == LET t == Three(s, ":", 2) IN
             IF t.v = "bad" \/ t.a > 23 \/ t.b > 59 \/ t.c > 60 THEN Bad
             (* Leap seconds: whether they exist is not judged, nor which instant they are. *)
             ELSE IF t.c = 60 THEN [v |-> "skip", h |-> t.a, m |-> t.b, s |-> 60]
             ELSE [v |-> t.v, h |-> t.a, m |-> t.b, s |-> t.c]

(* "UTC+HH" or "UTC+HH:MM", in minutes. *)
Offset(s) ==
  IF Len(s) < 6 \/ SubSeq(s, 1, 3) # "UTC" \/ Ch(s, 4) \notin {"+", "-"} \/ ~AllDigits(SubSeq(s, 5, 6)) THEN Bad
  ELSE IF Len(s) # 6 /\ ~(Len(s) = 9 /\ Ch(s, 7) = ":" /\ AllDigits(SubSeq(s, 8, 9))) THEN Bad
  ELSE LET h == Num(SubSeq(s, 5, 6), 0)
           m == IF Len(s) = 6 THEN 0 ELSE Num(SubSeq(s, 8, 9), 0)
       IN IF h > 23 \/ m > 59 THEN Bad
          ELSE [v |-> "ok", n |-> (IF Ch(s, 4) = "-" THEN 0 - 1 ELSE 1) * (h * 60 + m)]

(***************************************************************************)
(* The calendar.                                                           *)
(***************************************************************************)
(* Days since 0000-03-01. *)
DayNo(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      mm == IF m > 2 THEN m - 3 ELSE m + 9
  IN 365 * yy + (yy \div 4) - (yy \div 100) + (yy \div 400) + ((153 * mm + 2) \div 5) + d - 1
DateOf(n) ==
  LET era == n \div 146097
      doe == n % 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      d == doy - ((153 * mp + 2) \div 5) + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
  IN [y |-> y, m |-> m, d |-> d, n |-> y * 10000 + m * 100 + d]
(* 0 = Wednesday for day 0 (0000-03-01 was a Wednesday); Sunday = 0 here. *)
WeekDay(n) == (n + 3) % 7

(* An instant is [d |-> day number, m |-> minutes, s |-> seconds], in UTC. *)
Instant(date, time, off) ==
  LET t == time.h * 60 + time.m - off
      d == DayNo(date.y, date.m, date.d)
      dd == IF t < 0 THEN 0 - 1 ELSE IF t >= 1440 THEN 1 ELSE 0
  IN [d |-> d + dd, m |-> t - dd * 1440, s |-> time.s]

(* UTC offset in minutes of an output timezone at an instant.  Rules are   *)
(* those in force since 2007; statements are dated in that time.           *)
LastSunday(y, m) == LET e == DayNo(y, m, MonthLen(y, m)) IN e - WeekDay(e)
NthSunday(y, m, k) == LET f == DayNo(y, m, 1) IN f + ((7 - WeekDay(f)) % 7) + 7 * (k - 1)
Before(a, d, m) == a.d < d \/ (a.d = d /\ a.m < m)
ZoneOffset(z, t) ==
  LET y == DateOf(t.d).y
      eu == ~Before(t, LastSunday(y, 3), 60) /\ Before(t, LastSunday(y, 10), 60)
      us(std) == ~Before(t, NthSunday(y, 3, 2), 120 - std) /\ Before(t, NthSunday(y, 11, 1), 60 - std)
  IN CASE z = "UTC" -> 0
       [] z = "Europe/London" -> IF eu THEN 60 ELSE 0
       [] z = "Europe/Berlin" -> IF eu THEN 120 ELSE 60
       [] z = "America/New_York" -> IF us(0 - 300) THEN 0 - 240 ELSE 0 - 300
       [] z = "America/Los_Angeles" -> IF us(0 - 480) THEN 0 - 420 ELSE 0 - 480
       [] z = "Asia/Tokyo" -> 540
       [] z = "Asia/Kolkata" -> 330
       [] z = "Asia/Kathmandu" -> 345
       [] z = "Etc/GMT+12" -> 0 - 720
       [] z = "Pacific/Kiritimati" -> 840
(* The local date of an instant. *)
LocalDate(t, off) ==
  LET m == t.m + off
      dd == IF m < 0 THEN 0 - 1 ELSE IF m >= 1440 THEN 1 ELSE 0
  IN DateOf(t.d + dd)
=============================================================================
