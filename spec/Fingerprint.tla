----------------------------- MODULE Fingerprint -----------------------------
(***************************************************************************)
(* What goes into the fingerprints of imported postings, byte by byte.     *)
(* The hash itself (SHA-1, in base64 without padding) is a table that      *)
(* comes with each trace.                                                  *)
(***************************************************************************)
EXTENDS Fields

AsciiStr == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode == [c \in {Ch(AsciiStr, i) : i \in 1..Len(AsciiStr)} |-> <<31 + (CHOOSE i \in 1..Len(AsciiStr) : Ch(AsciiStr, i) = c)>>]
CharBytes == AsciiCode @@
  ("£" :> <<194, 163>> @@ "é" :> <<195, 169>> @@ "É" :> <<195, 137>> @@ "ü" :> <<195, 188>> @@ "ö" :> <<195, 182>> @@ "ñ" :> <<195, 177>>
   @@ "€" :> <<226, 130, 172>> @@ "’" :> <<226, 128, 153>> @@ "日" :> <<230, 151, 165>> @@ "–" :> <<226, 128, 147>>)
RECURSIVE Bytes(_)
Bytes(s) == IF s = "" THEN <<>> ELSE CharBytes[Ch(s, 1)] \o Bytes(SubSeq(s, 2, Len(s)))

U32(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
U64(n) == <<0, 0, 0, 0>> \o U32(n)
Str(s) == LET b == Bytes(s) IN U64(Len(b)) \o b
DateB(d) == U64(12) \o U32(d.y) \o U32(d.m) \o U32(d.d)
TimeB(t) == U64(16) \o U32(t.h) \o U32(t.m) \o U32(t.s) \o U32(0)
None == <<0>>
Some(b) == <<1>> \o b

(* A number below 2^96 from its digits, least byte first. *)
RECURSIVE MulAdd(_, _)
MulAdd(bs, c) == IF bs = <<>> THEN <<>> ELSE LET x == Head(bs) * 10 + c IN <<x % 256>> \o MulAdd(Tail(bs), x \div 256)
RECURSIVE Mantissa(_, _)
Mantissa(digits, acc) == IF digits = "" THEN acc ELSE Mantissa(SubSeq(digits, 2, Len(digits)), MulAdd(acc, DigitVal[Ch(digits, 1)]))
Zero12 == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
(* Sign and scale, then the mantissa. The trailing zeros of a count here. *)
DecB(a) == <<0, 0, Len(a.f), IF a.neg THEN 128 ELSE 0>> \o Mantissa(StripL(a.i \o a.f), Zero12)
(* A commodity before its amount. *)
AmountB(a, name) == U64(17 + Len(Bytes(name))) \o DecB(a) \o <<1>> \o Str(name)
OptAmountB(a, name) == IF a.v = "none" THEN None ELSE Some(AmountB(a, name))

NoAmt == [v |-> "none", neg |-> FALSE, i |-> "", f |-> ""]
(* Trailing zeros do not count in PayPal amounts. *)
Norm(a) == LET f == StripR(a.f) IN IF IsZero(a) THEN [a EXCEPT !.i = "0", !.f = "", !.neg = FALSE] ELSE [a EXCEPT !.f = f]

(* Row types. *)
Nw5(r, ctr, half) == DateB(r.date) \o U32(ctr) \o Str(r.trans) \o Str(r.loc) \o OptAmountB(r.out, "GBP") \o OptAmountB(r.in, "GBP") \o Str(half)
Nw6(r, ctr, half) == Str(r.type) \o DateB(r.date) \o U32(ctr) \o Str(r.desc) \o OptAmountB(r.out, "GBP") \o OptAmountB(r.in, "GBP")
                     \o AmountB(r.bal, "GBP") \o Str(half)
Nw6Legacy(r, ctr, acct, amt) == Str(r.type) \o DateB(r.date) \o Str("") \o AmountB(r.bal, "GBP") \o U32(ctr) \o Str(acct) \o AmountB(amt, "GBP")
Pp(r, idx, half) == DateB(r.date) \o TimeB(r.time) \o Str(r.tz) \o (IF r.name = "" THEN None ELSE Some(Str(r.name))) \o Str(r.type)
                    \o AmountB(Norm(r.amt), r.cur) \o AmountB(Norm(r.bal), r.cur) \o U64(idx) \o Str(half)
NwPdf(t, acct, amt) == DateB(t.date) \o U32(t.ctr) \o Str(t.desc) \o Str(acct) \o AmountB(amt, "GBP")
GenNs(bank, acct) == Str(bank) \o Str(acct)

(* Namespaces that fit into a tag. *)
NsChars == {Ch("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+/", i) : i \in 1..65}
RECURSIVE NsOk(_)
NsOk(s) == s = "" \/ (Ch(s, 1) \in NsChars /\ NsOk(SubSeq(s, 2, Len(s))))
Tag(alg, ns, h) == "fp-" \o alg \o ".1." \o ns \o "-" \o h
LegacyTag(ns, h) == "fp-" \o ns \o "-" \o h
=============================================================================
