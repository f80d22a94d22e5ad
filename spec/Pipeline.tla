------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The whole work flow (C22): statements of one account are imported,      *)
(* rules may be applied, and the result is merged into a ledger that the   *)
(* user, too, edits between merges.  This module says what every merge of  *)
(* such a history must preserve, given the ledger before it (pre), the     *)
(* batches merged (imps, in order) and the number n of transactions that   *)
(* all statements so far, and the user, have.                              *)
(***************************************************************************)
EXTENDS Merge

TrnFps(t) == UNION {Fps(t.ps[j]) : j \in DOMAIN t.ps}
Meets(ps, f) == {j \in DOMAIN ps : Fps(ps[j]) \cap f # {}}
Only1(S) == Cardinality(S) = 1
(* Transactions of a ledger with any of the fingerprints f. *)
With(trns, f) == {i \in DOMAIN trns : TrnFps(trns[i]) \cap f # {}}

VtKept(old, new, keys) == \A x \in DOMAIN old \ keys : x \in DOMAIN new /\ new[x] = old[x]

(* A posting p of the ledger, q what has become of it, S the postings that *)
(* the merged batches have for it.                                         *)
PostKept(p, q, S) ==
  /\ q.amt = p.amt /\ q.kind = p.kind
  /\ p.bal.k # "" => q.bal.k = p.bal.k
  /\ Fps(p) \subseteq Fps(q)
  /\ q.acct = p.acct \/ (UNKNOWN \in p.tags /\ \E s \in S : UNKNOWN \notin s.tags /\ q.acct = s.acct)
  /\ (p.tags \ {UNKNOWN}) \subseteq q.tags
  /\ UNKNOWN \in q.tags => UNKNOWN \in p.tags
  /\ VtKept(p.vt, q.vt, UNION {DOMAIN s.vt : s \in S})

BatchPs(imps) == UNION {ToSet(AllPostings(imps[k])) : k \in DOMAIN imps}

OldKept(p, post, ip) ==
  LET w == With(post, TrnFps(p)) IN
  /\ Only1(w)
  /\ LET q == post[Only(w)] IN
     /\ q.h.date = p.h.date /\ q.h.desc = p.h.desc /\ q.h.edate = p.h.edate /\ q.h.code = p.h.code
     /\ p.h.tags \subseteq q.h.tags
     /\ VtKept(p.h.vt, q.h.vt, {SRC})
     /\ Len(q.ps) = Len(p.ps)
     /\ \A j \in DOMAIN p.ps :
          LET m == Meets(q.ps, Fps(p.ps[j]))
          IN Only1(m) /\ PostKept(p.ps[j], q.ps[Only(m)], {s \in ip : Fps(s) \cap Fps(p.ps[j]) # {}})

(* A transaction t of a batch is in the ledger, once, whatever has been    *)
(* changed in it; and, if it was not there before, as it was imported.     *)
ImpThere(t, pre, post, single, fragile) ==
  LET w == With(post, TrnFps(t)) IN
  /\ Only1(w)
  /\ LET q == post[Only(w)]
         new == With(pre, TrnFps(t)) = {}
     IN /\ \A j \in DOMAIN t.ps :
             LET m == Meets(q.ps, Fps(t.ps[j])) IN
             /\ Only1(m)
             /\ LET x == q.ps[Only(m)] IN
                /\ x.kind = t.ps[j].kind /\ Fps(t.ps[j]) \subseteq Fps(x)
                /\ new => x.amt = t.ps[j].amt      \* else the user may have changed it, and it has been kept
                /\ (new /\ single) => x.acct = t.ps[j].acct /\ t.ps[j].tags \subseteq x.tags /\ VtKept(t.ps[j].vt, x.vt, {})
        /\ new => q.h.date = t.h.date /\ Len(q.ps) = Len(t.ps)
        /\ (new /\ single /\ ~fragile) => q.h.desc = t.h.desc

(* What is wrong with a merge. *)
Wrong(pre, imps, n, post, fragile) ==
  LET ip == BatchPs(imps)
      all == FlattenSeqs(imps)
  IN (IF Len(post) = n THEN {} ELSE {"count"})
     \cup (IF \A i \in DOMAIN pre : OldKept(pre[i], post, ip) THEN {} ELSE {"old"})
     \cup (IF \A i \in DOMAIN all : ImpThere(all[i], pre, post, Len(imps) = 1, fragile) THEN {} ELSE {"new"})
     \cup (IF \A i \in DOMAIN post : With(pre, TrnFps(post[i])) # {} \/ With(all, TrnFps(post[i])) # {} THEN {} ELSE {"stray"})
=============================================================================
