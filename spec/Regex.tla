------------------------------- MODULE Regex -------------------------------
(***************************************************************************)
(* Strings: prefixes, containment, lower-casing, and a small regular       *)
(* expression language with leftmost, priority-ordered (Perl-like)         *)
(* matching and numbered capture groups.                                   *)
(* Expressions are records: op "lit" (c), "any", "cls" (cs, neg), "seq"    *)
(* (rs), "alt" (rs), "rep" (r, min 0/1, max 0 = unbounded /1, lazy),       *)
(* "grp" (r, n), "bol", "eol".  Bodies of "rep" never match empty.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
HasPrefix(s, pre) == Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre
Contains(s, w) == \E i \in 1..(Len(s) - Len(w) + 1) : SubSeq(s, i, i + Len(w) - 1) = w

LowerMap == ("A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "D" :> "d" @@ "E" :> "e" @@ "F" :> "f" @@ "G" :> "g" @@
             "H" :> "h" @@ "I" :> "i" @@ "J" :> "j" @@ "K" :> "k" @@ "L" :> "l" @@ "M" :> "m" @@ "N" :> "n" @@
             "O" :> "o" @@ "P" :> "p" @@ "Q" :> "q" @@ "R" :> "r" @@ "S" :> "s" @@ "T" :> "t" @@ "U" :> "u" @@
             "V" :> "v" @@ "W" :> "w" @@ "X" :> "x" @@ "Y" :> "y" @@ "Z" :> "z" @@ "É" :> "é" @@ "Ü" :> "ü" @@
             "Å" :> "å" @@ "Ñ" :> "ñ" @@ "Ï" :> "ï" @@ "Ä" :> "ä" @@ "Ö" :> "ö" @@ "Ø" :> "ø" @@ "Δ" :> "δ" @@ "Ж" :> "ж")
RECURSIVE Lower(_)
Lower(s) == IF s = "" THEN "" ELSE
            LET c == Ch(s, 1) IN (IF c \in DOMAIN LowerMap THEN LowerMap[c] ELSE c) \o Lower(SubSeq(s, 2, Len(s)))

In(x, seq) == \E i \in DOMAIN seq : seq[i] = x

Force(f) == f \o <<>>     \* makes TLC evaluate a function once
(* Of several ways to reach one position only the first can ever be taken, *)
(* since what follows does not depend on captures.                         *)
Firsts(rs) == SelectSeq(Force([k \in DOMAIN rs |-> <<k, rs[k]>>]),
                        LAMBDA e : \A j \in 1..(e[1] - 1) : rs[j][1] # e[2][1])
Dedup(rs) == IF Len(rs) <= 1 THEN rs ELSE LET f == Firsts(rs) IN Force([k \in DOMAIN f |-> f[k][2]])

RECURSIVE M(_, _, _, _), MSeq(_, _, _, _), MAll(_, _, _), MAlt(_, _, _, _), MStar(_, _, _, _), MStarAll(_, _, _)
(* Results <<next position, captures>>, in order of priority. *)
M(n, s, i, caps) ==
  CASE n.op = "lit" -> IF i <= Len(s) /\ Ch(s, i) = n.c THEN << <<i + 1, caps>> >> ELSE <<>>
    [] n.op = "any" -> IF i <= Len(s) THEN << <<i + 1, caps>> >> ELSE <<>>
    [] n.op = "cls" -> IF i <= Len(s) /\ (In(Ch(s, i), n.cs) # n.neg) THEN << <<i + 1, caps>> >> ELSE <<>>
    [] n.op = "bol" -> IF i = 1 THEN << <<i, caps>> >> ELSE <<>>
    [] n.op = "eol" -> IF i = Len(s) + 1 THEN << <<i, caps>> >> ELSE <<>>
    [] n.op = "seq" -> MSeq(n.rs, s, i, caps)
    [] n.op = "alt" -> MAlt(n.rs, s, i, caps)
    [] n.op = "grp" -> LET r == M(n.r, s, i, caps)
                       IN Force([k \in DOMAIN r |-> <<r[k][1], (n.n :> <<i, r[k][1]>>) @@ r[k][2]>>])
    [] n.op = "rep" ->
         LET once == M(n.r, s, i, caps)
             more == IF n.max = 1 THEN once ELSE MStarAll(n, s, once)
             none == IF n.min = 0 THEN << <<i, caps>> >> ELSE <<>>
         IN Dedup(IF n.lazy THEN none \o more ELSE more \o none)
MStar(n, s, i, caps) == M([n EXCEPT !.min = 0], s, i, caps)
MStarAll(n, s, rs) == IF rs = <<>> THEN <<>> ELSE MStar(n, s, Head(rs)[1], Head(rs)[2]) \o MStarAll(n, s, Tail(rs))
MSeq(rs, s, i, caps) == IF rs = <<>> THEN << <<i, caps>> >> ELSE Dedup(MAll(Tail(rs), s, M(Head(rs), s, i, caps)))
MAll(rs, s, starts) == IF starts = <<>> THEN <<>>
                       ELSE MSeq(rs, s, Head(starts)[1], Head(starts)[2]) \o MAll(rs, s, Tail(starts))
MAlt(rs, s, i, caps) == IF rs = <<>> THEN <<>> ELSE Dedup(M(Head(rs), s, i, caps) \o MAlt(Tail(rs), s, i, caps))

NoCaps == [x \in {} |-> <<1, 1>>]
RECURSIVE FirstMatch(_, _, _)
(* <<start, position after the match, captures>>, or <<>>. *)
FirstMatch(re, s, i) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET m == M(re, s, i, NoCaps)
       IN IF m # <<>> THEN <<i, m[1][1], m[1][2]>> ELSE FirstMatch(re, s, i + 1)
IsMatch(re, s) == FirstMatch(re, s, 1) # <<>>

RECURSIVE Expand(_, _, _)
(* A replacement is a sequence of [lit |-> text, grp |-> number or -1]. *)
Expand(parts, s, caps) ==
  IF parts = <<>> THEN ""
  ELSE LET p == Head(parts)
           x == IF p.grp = -1 THEN p.lit
                ELSE IF p.grp \in DOMAIN caps THEN SubSeq(s, caps[p.grp][1], caps[p.grp][2] - 1) ELSE ""
       IN x \o Expand(Tail(parts), s, caps)

ReplaceFirst(re, parts, s) ==
  LET f == FirstMatch(re, s, 1) IN
  IF f = <<>> THEN s
  ELSE LET caps == (0 :> <<f[1], f[2]>>) @@ f[3]
       IN SubSeq(s, 1, f[1] - 1) \o Expand(parts, s, caps) \o SubSeq(s, f[2], Len(s))
=============================================================================
