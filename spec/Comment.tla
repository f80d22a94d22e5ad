------------------------------ MODULE Comment ------------------------------
(***************************************************************************)
(* The comment of a transaction or posting: how its lines are read as flag *)
(* tags, value tags and text fragments, and how these are written.         *)
(* A parsed comment is [tags: set, vt: function, text: sequence].          *)
(***************************************************************************)
EXTENDS Regex

ToSet(s) == {s[i] : i \in DOMAIN s}

(* Characters in code point order; those from the second line on take two  *)
(* bytes, those of the third three.                                        *)
Order1 == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Order2 == " £ÉÜéïñüж"
Order3 == "—…€日本"
Order  == Order1 \o Order2 \o Order3
RankMap == [c \in {Ch(Order, i) : i \in 1..Len(Order)} |-> CHOOSE i \in 1..Len(Order) : Ch(Order, i) = c]
Two   == {Ch(Order2, i) : i \in 1..Len(Order2)}
Three == {Ch(Order3, i) : i \in 1..Len(Order3)}
TAB == "\t"
Rank(c) == IF c = TAB THEN 0 ELSE RankMap[c]
Blank == {" ", TAB, " "}      \* the last is a no-break space

RECURSIVE StrLess(_, _), SortStrs(_), ByteLen(_), Spaces(_), TrimStart(_, _), TrimEnd(_, _)
StrLess(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE
                 ELSE IF Ch(a, 1) # Ch(b, 1) THEN Rank(Ch(a, 1)) < Rank(Ch(b, 1))
                 ELSE StrLess(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
SortStrs(S) == IF S = {} THEN <<>>
               ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : StrLess(x, y) IN <<m>> \o SortStrs(S \ {m})
ByteLen(s) == IF s = "" THEN 0
              ELSE (IF Ch(s, 1) \in Two THEN 2 ELSE IF Ch(s, 1) \in Three THEN 3 ELSE 1) + ByteLen(SubSeq(s, 2, Len(s)))
TrimStart(s, bl) == IF s # "" /\ Ch(s, 1) \in bl THEN TrimStart(SubSeq(s, 2, Len(s)), bl) ELSE s
TrimEnd(s, bl)   == IF s # "" /\ Ch(s, Len(s)) \in bl THEN TrimEnd(SubSeq(s, 1, Len(s) - 1), bl) ELSE s
Trim(s) == TrimEnd(TrimStart(s, Blank), Blank)
Spaces(s) == IF s # "" /\ Ch(s, 1) = " " THEN 1 + Spaces(SubSeq(s, 2, Len(s))) ELSE 0

(* What the journal reader makes of the text behind a comment character.   *)
ReadLine(raw) == TrimEnd(TrimStart(raw, {" ", TAB}), Blank)

(* Position after the longest run of characters other than ":" and " "     *)
(* that starts at i.                                                       *)
RECURSIVE RunEnd(_, _)
RunEnd(s, i) == IF i <= Len(s) /\ Ch(s, i) \notin {":", " "} THEN RunEnd(s, i + 1) ELSE i

(* A line that is a value tag: <<key, value>>, else <<>>.                  *)
ValueTag(s0) ==
  LET s == SubSeq(s0, Spaces(s0) + 1, Len(s0))
      e == RunEnd(s, 1)
  IN IF e = 1 \/ e > Len(s) \/ Ch(s, e) # ":" THEN <<>>
     ELSE LET rest == SubSeq(s, e + 1, Len(s))
              n == Spaces(rest)
          IN IF rest = "" THEN <<SubSeq(s, 1, e - 1), "">>
             ELSE IF n = 0 \/ n = Len(rest) THEN <<>>
             ELSE <<SubSeq(s, 1, e - 1), SubSeq(rest, n + 1, Len(rest))>>

(* Flag groups ":a:b:"; the end of the group that starts at i, or i.       *)
RECURSIVE MoreFlags(_, _)
(* i is just after a colon; position after the last colon of the group.    *)
MoreFlags(s, i) == LET e == RunEnd(s, i) IN
                   IF e > i /\ e <= Len(s) /\ Ch(s, e) = ":" THEN MoreFlags(s, e + 1) ELSE i
GroupEnd(s, i) == IF Ch(s, i) # ":" THEN i
                  ELSE LET m == MoreFlags(s, i + 1) IN IF m = i + 1 THEN i ELSE m
RECURSIVE SplitFlags(_)
SplitFlags(s) == IF s = "" THEN {} ELSE LET e == RunEnd(s, 1) IN {SubSeq(s, 1, e - 1)} \cup SplitFlags(SubSeq(s, e + 1, Len(s)))

Frag(s) == LET t == Trim(s) IN IF t = "" THEN <<>> ELSE <<t>>
RECURSIVE FlagLine(_, _, _)
(* from: start of the text not yet taken; i: where to look for a group.    *)
FlagLine(s, from, i) ==
  IF i > Len(s) THEN [tags |-> {}, text |-> Frag(SubSeq(s, from, Len(s)))]
  ELSE LET e == GroupEnd(s, i) IN
       IF e = i THEN FlagLine(s, from, i + 1)
       ELSE LET r == FlagLine(s, e, e)
            IN [tags |-> SplitFlags(SubSeq(s, i + 1, e - 1)) \cup r.tags, text |-> Frag(SubSeq(s, from, i - 1)) \o r.text]

NoVt == [x \in {} |-> ""]
Empty == [tags |-> {}, vt |-> NoVt, text |-> <<>>]
RECURSIVE ParseOnto(_, _)
ParseOnto(c, lines) ==
  IF lines = <<>> THEN c
  ELSE LET l == Head(lines)
           v == ValueTag(l)
           f == FlagLine(l, 1, 1)
       IN ParseOnto(IF v # <<>> THEN [c EXCEPT !.vt = (v[1] :> v[2]) @@ @]
                    ELSE [c EXCEPT !.tags = @ \cup f.tags, !.text = @ \o f.text],
                    Tail(lines))
Parse(lines) == ParseOnto(Empty, lines)

(* ----- writing ----- *)
MaxInline == 12
RECURSIVE JoinColon(_)
JoinColon(s) == IF s = <<>> THEN ":" ELSE ":" \o Head(s) \o JoinColon(Tail(s))
Write(c) ==
  LET short == SortStrs({t \in c.tags : ByteLen(t) <= MaxInline})
      long  == SortStrs({t \in c.tags : ByteLen(t) > MaxInline})
      fl == (IF short = <<>> THEN <<>> ELSE <<JoinColon(short)>>) \o [i \in DOMAIN long |-> ":" \o long[i] \o ":"]
      body == IF fl # <<>> /\ c.text # <<>> THEN <<Head(fl) \o " " \o Head(c.text)>> \o Tail(fl) \o Tail(c.text)
              ELSE fl \o c.text
      keys == SortStrs(DOMAIN c.vt)
  IN body \o [i \in DOMAIN keys |-> Trim(keys[i]) \o ": " \o Trim(c.vt[keys[i]])]

(* Comments that the written form cannot hold: a text fragment that reads  *)
(* as a value tag, on a line of its own.                                   *)
OwnLine(c, i) == i > 1 \/ c.tags = {}
Fragile(c) == \E i \in DOMAIN c.text : OwnLine(c, i) /\ ValueTag(c.text[i]) # <<>>

ReadLines(ls) == [i \in DOMAIN ls |-> ReadLine(ls[i])]
Normal(ls) == Write(Parse(ReadLines(ls)))
=============================================================================
