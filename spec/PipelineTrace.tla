--------------------------- MODULE PipelineTrace ---------------------------
(* Validates recorded histories of the real import, apply-rules and merge  *)
(* (C22).  A step is a merge of batches into the ledger, or a change of    *)
(* the ledger by the user (after which it is step.out).                    *)
EXTENDS Pipeline, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
VtOf(s) == [key \in {s[i][1] : i \in DOMAIN s} |->
             LET i == CHOOSE j \in DOMAIN s : s[j][1] = key IN s[i][2]]
DP(p) == [acct |-> p.acct, kind |-> p.kind, amt |-> p.amt.k, bal |-> [k |-> p.bal.k], st |-> p.st,
          lines |-> p.lines, tags |-> ToSet(p.tags), vt |-> VtOf(p.vt)]
DH(h) == [date |-> h.date, edate |-> h.edate, st |-> h.st, code |-> h.code, desc |-> h.desc,
          lines |-> h.lines, tags |-> ToSet(h.tags), vt |-> VtOf(h.vt)]
DT(t) == [h |-> DH(t.h), ps |-> [j \in DOMAIN t.ps |-> DP(t.ps[j])] \o <<>>]
DTs(ts) == [i \in DOMAIN ts |-> DT(ts[i])] \o <<>>

VARIABLES tid, s, ledger
vars == <<tid, s, ledger>>
Tr == Raw[tid]

Judge(pre, m, post, fragile) ==
  IF ~m.ok THEN {"refused"}
  ELSE IF ~m.parsed THEN {"unreadable"}
  ELSE IF m.un # <<>> THEN {"unmerged"}
  ELSE Wrong(pre, [k \in DOMAIN m.imps |-> DTs(m.imps[k])] \o <<>>, m.n, post, fragile)

Init == tid \in DOMAIN Raw /\ s = 1 /\ ledger = <<>>
Next == /\ s <= Len(Tr.steps)
        /\ LET m == Tr.steps[s]
               post == DTs(m.out)
               bad == IF m.op = "merge" THEN Judge(ledger, m, post, Tr.fragile) ELSE {}
           IN /\ bad # {} => PrintT(<<"BAD", Tr.id, s, {"C22"}, bad>>)
              /\ ledger' = post
        /\ s' = s + 1 /\ UNCHANGED tid
Spec == Init /\ [][Next]_vars
(* Every ledger is one that may be merged into. *)
InvFps == FpsUnique(ledger)
=============================================================================
