----------------------------- MODULE CommentMC -----------------------------
(* Every comment of up to MaxLines lines of bounded length over a small    *)
(* alphabet: what is read survives writing and reading again (C13).        *)
EXTENDS Comment, Json, IOUtils
CONSTANTS Alphabet, MaxLen, MaxLines, Emit

VARIABLES lines, cur
vars == <<lines, cur>>
Init == lines = <<>> /\ cur = ""
Next == \/ /\ Len(cur) < MaxLen
           /\ \E c \in Alphabet : cur' = cur \o c
           /\ UNCHANGED lines
        \/ /\ cur # "" /\ Len(lines) < MaxLines - 1
           /\ lines' = Append(lines, cur) /\ cur' = ""
Spec == Init /\ [][Next]_vars

Ls == Append(lines, cur)
InvRoundTrip == LET c == Parse(ReadLines(Ls))
                    w == Write(c)
                IN ~Fragile(c) => /\ Parse(ReadLines(w)) = c
                                  /\ Normal(w) = w
(* Fragile is not wider than needed. *)
InvFragile == LET c == Parse(ReadLines(Ls)) IN Fragile(c) => Parse(ReadLines(Write(c))) # c
EmitInv == Emit => PrintT(<<"SCN", ToJson(Ls)>>)
=============================================================================
