----------------------------- MODULE FilesTrace -----------------------------
(* Validates recorded command sequences against Files.  Contents are       *)
(* observed as hashes; map[t] is the hash seen for the term t, so two      *)
(* observations of one term must be equal: the commands are functions of   *)
(* what they read and of their options.  To keep terms small, what a       *)
(* command made is known by a name from then on: ids[t] is the name of t.  *)
EXTENDS Files, Json, IOUtils

Raw == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Raw)

VARIABLES tid, k, s, map, ids, bad
vars == <<tid, k, s, map, ids, bad>>
Tr == Raw[tid]

SetOf(q) == {q[i] : i \in DOMAIN q}
Init0(n) == LET q == Raw[n].src IN
            [fs |-> [p \in DOMAIN q |-> Src(q[p].n, q[p].c)],
             dirs |-> SetOf(Raw[n].dirs), in |-> NONE, out |-> <<>>]
Map0(n) == LET q == Raw[n].src IN
           [t \in {Src(q[p].n, q[p].c) : p \in DOMAIN q} |-> q[t.x].h]
Nothing == NONE :> ""

Init == /\ N > 0 /\ tid = 1 /\ k = 1 /\ s = Init0(1) /\ map = Map0(1) /\ ids = Nothing /\ bad = {}

UsesDash(c) == CASE c.op \in {"fmt", "gen"} -> \E i \in DOMAIN c.files : c.files[i] = "-"
                 [] c.op = "merge" -> c.o = "-" \/ \E i \in DOMAIN c.inputs : c.inputs[i] = "-"
                 [] OTHER -> c.o = "-" \/ c.input = "-"

(* The term under its name. *)
Name(t, p) == IF t.f \in {"src", "fmt", "norm", "none"} \/ t.a = <<>> THEN t
              ELSE [t EXCEPT !.a = <<>>, !.x = IF t \in DOMAIN ids THEN ids[t] ELSE ToString(k) \o ":" \o p]

(* pre the state before the step, r the result expected, o the observation, *)
(* e the expected files with their names.                                   *)
Labels(st, pre, r, e, eout) ==
  LET o == st.fs
      imp == st.c.op = "import"
      extra == (IF imp THEN {"C24"} ELSE {}) \cup (IF UsesDash(st.c) THEN {"C23"} ELSE {})
      wrong(fs) == {p \in DOMAIN o \cap DOMAIN fs : fs[p] \in DOMAIN map /\ map[fs[p]] # o[p]}
      e2 == IF r.ok THEN pre.fs ELSE e
  IN
  IF ~st.ok
  THEN (IF r.ok THEN {"C16"} \cup extra ELSE {})
       \cup (IF DOMAIN o # DOMAIN e2 THEN {"C16"} \cup (IF imp THEN {"C24"} ELSE {}) ELSE {})
       \cup (IF wrong(e2) # {} THEN {"C16"} ELSE {})
       (* Directories may be left behind only if the output cannot be written. *)
       \cup (IF SetOf(st.dirs) # pre.dirs /\ (imp => ~ImportInputOk(pre, st.c)) THEN {"C16"} ELSE {})
  ELSE IF ~r.ok THEN {"C16"} \cup extra
  ELSE (IF DOMAIN o # DOMAIN e THEN {"C23"} \cup (IF imp THEN {"C24"} ELSE {}) ELSE {})
       \cup (IF wrong(e) # {} THEN {"C23"} \cup extra ELSE {})
       \cup (IF imp /\ SetOf(st.dirs) # r.s.dirs THEN {"C24"} ELSE {})
       \cup (IF eout = <<>> THEN (IF st.out # "" THEN {"C23"} \cup extra ELSE {})
             ELSE IF eout[1] \in DOMAIN map /\ map[eout[1]] # st.out THEN {"C23"} \cup extra ELSE {})
       (* One content in two places at once. *)
       \cup (IF DOMAIN o = DOMAIN e /\ \E p, q \in DOMAIN o : o[p] # o[q] /\ e[p] = e[q] THEN {"C23"} ELSE {})

(* What the observation teaches. *)
Learn(o, e, eout, out) ==
  LET new == {p \in DOMAIN e : e[p] \notin DOMAIN map}
      m1 == [t \in {e[p] : p \in new} |-> o[CHOOSE q \in new : e[q] = t]]
  IN map @@ m1 @@ (IF eout = <<>> THEN <<>> ELSE (eout[1] :> out))

Go(n) == /\ tid' = n /\ k' = 1
         /\ IF n > N THEN UNCHANGED <<s, map, ids>> ELSE s' = Init0(n) /\ map' = Map0(n) /\ ids' = Nothing

(* A plain record of repeated runs: equal keys, equal observations. *)
Rerun == LET o == Tr.obs IN {o[i].key : i \in {j \in DOMAIN o : \E l \in DOMAIN o : o[l].key = o[j].key /\ o[l].val # o[j].val}}

Do(st) ==
  LET pre == [s EXCEPT !.in = Src(st.in.n, st.in.c), !.out = <<>>]
      r == Run(pre, st.c)
      e == [p \in DOMAIN r.s.fs |-> Name(r.s.fs[p], p)]
      eout == IF r.s.out = <<>> THEN <<>> ELSE <<Name(r.s.out[1], "-")>>
      l == Labels(st, pre, r, e, eout)
      fresh == {p \in DOMAIN e : e[p] # r.s.fs[p]}
  IN /\ bad' = l
     /\ IF l # {} THEN PrintT(<<"BAD", Tr.id, k, l, [op |-> st.c.op, exp |-> r.ok, obs |-> st.ok]>>) /\ Go(tid + 1)
        ELSE IF k = Len(Tr.steps) THEN Go(tid + 1)
        ELSE /\ k' = k + 1 /\ tid' = tid
             /\ map' = IF st.ok THEN Learn(st.fs, e, eout, st.out) ELSE map
             /\ ids' = ids @@ [t \in {r.s.fs[p] : p \in fresh} |-> e[CHOOSE q \in fresh : r.s.fs[q] = t].x]
                           @@ (IF eout # <<>> /\ eout[1] # r.s.out[1] THEN (r.s.out[1] :> eout[1].x) ELSE <<>>)
             /\ s' = [fs |-> e, dirs |-> IF st.ok THEN r.s.dirs ELSE SetOf(st.dirs), in |-> NONE, out |-> <<>>]

Step ==
  /\ tid <= N
  /\ IF Tr.kind = "rerun"
     THEN /\ IF Rerun = {} THEN TRUE ELSE PrintT(<<"BAD", Tr.id, 0, {"C23"}, Rerun>>)
          /\ Go(tid + 1) /\ bad' = Rerun
     ELSE Do(Tr.steps[k])
Spec == Init /\ [][Step]_vars
=============================================================================
