------------------------------ MODULE Journal ------------------------------
(* The text of a Ledger journal as a sequence of lines, and what it means: *)
(* a reader that goes over the lines one by one, and the writer used by    *)
(* every command (and by fmt alone).  How dates, amounts and names are     *)
(* spelt within a line is the business of the harness; here a line is      *)
(*   [k |-> "blank"]                                                       *)
(*   [k |-> "head",  v, ic]        a transaction header                    *)
(*   [k |-> "post",  v, ic]        an indented posting                     *)
(*   [k |-> "com", ind, txt]       a comment line, indented or not         *)
(*   [k |-> "star", txt, v, ic]    an indented line starting with "*",     *)
(*                                 read as a cleared posting v inside a    *)
(*                                 transaction, else as a comment txt      *)
(*   [k |-> "price", v], [k |-> "inc", v]   at the start of the line       *)
(*   [k |-> "iinc", v, p]          an indented "include v": a posting p    *)
(*                                 inside a transaction, else an include   *)
(*   [k |-> "junk"]                none of these                           *)
(* ic is <<>> or <<text>>, the comment on the line itself.                 *)
EXTENDS Naturals, Sequences, TLC

(* The reader is a machine: items read so far, where it stands, error. *)
R0 == [items |-> <<>>, ctx |-> "none", err |-> FALSE]

AddItem(st, it, ctx) == [st EXCEPT !.items = Append(@, it), !.ctx = ctx]
Top(st) == Len(st.items)
AddPosting(st, v, ic) ==
  [st EXCEPT !.items[Top(st)].ps = Append(@, [p |-> v, c |-> ic]), !.ctx = "post"]
AddComment(st, txt) ==
  IF st.ctx = "head" THEN [st EXCEPT !.items[Top(st)].c = Append(@, txt)]
  ELSE [st EXCEPT !.items[Top(st)].ps[Len(st.items[Top(st)].ps)].c = Append(@, txt)]
Fail(st) == [st EXCEPT !.err = TRUE]

(* A header must be followed by a posting (comment lines may stand between). *)
Step(st, l) ==
  IF st.err THEN st
  ELSE CASE l.k = "junk" -> Fail(st)
         [] l.k = "blank" -> IF st.ctx = "head" THEN Fail(st) ELSE AddItem(st, [t |-> "blank"], "none")
         [] l.k = "head"  -> IF st.ctx = "head" THEN Fail(st)
                             ELSE AddItem(st, [t |-> "trn", h |-> l.v, c |-> l.ic, ps |-> <<>>], "head")
         [] l.k = "post"  -> IF st.ctx = "none" THEN Fail(st) ELSE AddPosting(st, l.v, l.ic)
         [] l.k = "com"   -> IF st.ctx = "none" THEN AddItem(st, [t |-> "com", v |-> l.txt], "none")
                             ELSE AddComment(st, l.txt)
         [] l.k = "star"  -> IF st.ctx = "none" THEN AddItem(st, [t |-> "com", v |-> l.txt], "none")
                             ELSE AddPosting(st, l.v, l.ic)
         [] l.k = "iinc"  -> IF st.ctx = "none" THEN AddItem(st, [t |-> "inc", v |-> l.v], "none")
                             ELSE AddPosting(st, l.p, <<>>)
         [] l.k \in {"price", "inc"} ->
                             IF st.ctx = "head" THEN Fail(st) ELSE AddItem(st, [t |-> l.k, v |-> l.v], "none")

RECURSIVE ReadFrom(_, _)
ReadFrom(st, ls) == IF ls = <<>> THEN st ELSE ReadFrom(Step(st, Head(ls)), Tail(ls))
(* <<TRUE, items>> or <<FALSE, <<>>>> *)
Read(ls) == LET st == ReadFrom(R0, ls) IN
            IF st.err \/ st.ctx = "head" THEN <<FALSE, <<>>>> ELSE <<TRUE, st.items>>

(* The writer. *)
Comments(c) == [i \in 1..Len(c) |-> [k |-> "com", ind |-> TRUE, txt |-> c[i]]]
PostLine(p) == IF p.st = "*" THEN [k |-> "star", txt |-> "", v |-> p, ic |-> <<>>]
               ELSE [k |-> "post", v |-> p, ic |-> <<>>]
RECURSIVE PostLines(_)
PostLines(ps) == IF ps = <<>> THEN <<>>
                 ELSE <<PostLine(Head(ps).p)>> \o Comments(Head(ps).c) \o PostLines(Tail(ps))
ItemLines(it) ==
  CASE it.t = "blank" -> <<[k |-> "blank"]>>
    [] it.t = "com"   -> <<[k |-> "com", ind |-> FALSE, txt |-> it.v]>>
    [] it.t = "trn"   -> <<[k |-> "head", v |-> it.h, ic |-> <<>>]>> \o Comments(it.c) \o PostLines(it.ps)
    [] OTHER          -> <<[k |-> it.t, v |-> it.v]>>
RECURSIVE Write(_)
Write(items) == IF items = <<>> THEN <<>> ELSE ItemLines(Head(items)) \o Write(Tail(items))

(* What a journal says, leaving out its blank lines. *)
Content(items) == SelectSeq(items, LAMBDA it: it.t # "blank")
=============================================================================
