------------------------------ MODULE FpGenMC ------------------------------
(* Two files of postings; any of them is run through the command, in any   *)
(* order, several times.                                                   *)
EXTENDS FpGen, Json
CONSTANTS MaxP, MaxRuns
Tags == {"fp-1", "fp-", "fp", "xfp-1", "note"}
Post == {[n |-> 0, tags |-> T] : T \in {S \in SUBSET Tags : Cardinality(S) <= 2}}
Fresh == <<"fp-uuidb64-A", "fp-uuidb64-B", "fp-uuidb64-C", "fp-uuidb64-D", "fp-uuidb64-E", "fp-uuidb64-F">>

VARIABLES f0, f, used, runs
Files == UNION {[1..n -> Post] : n \in 1..MaxP}
Init == /\ f0 \in {<<x, y>> : x \in Files, y \in {z \in Files : Len(z) = 1}}
        /\ f = f0 /\ used = 0 /\ runs = <<>>
RECURSIVE GenAll(_, _, _)
GenAll(ps, u, out) ==
  IF ps = <<>> THEN <<out, u>>
  ELSE IF Fps(Head(ps)) = {} THEN GenAll(Tail(ps), u + 1, Append(out, GenP(Head(ps), Fresh[u + 1])))
  ELSE GenAll(Tail(ps), u, Append(out, Head(ps)))
Run(i) == LET r == GenAll(f[i], used, <<>>) IN
          /\ f' = [f EXCEPT ![i] = r[1]] /\ used' = r[2] /\ runs' = Append(runs, i) /\ UNCHANGED f0
Emit == (Len(runs) = 0) => PrintT(<<"SCN", ToJson([a |-> f0[1], b |-> f0[2]])>>)
Next == Len(runs) < MaxRuns /\ Emit /\ \E i \in 1..2 : Run(i)
Spec == Init /\ [][Next]_<<f0, f, used, runs>>

All(g) == {<<i, j>> : i \in 1..2, j \in 1..MaxP} \cap {<<i, j>> \in (1..2) \X (1..MaxP) : j <= Len(g[i])}
At(g, x) == g[x[1]][x[2]]
(* After a run of its file every posting has a fingerprint; new ones are distinct. *)
Covered == \A x \in All(f) : x[1] \in {runs[k] : k \in DOMAIN runs} => Fps(At(f, x)) # {}
Distinct == \A x, y \in All(f) : x # y => Added(At(f0, x), At(f, x)) \cap Added(At(f0, y), At(f, y)) = {}
(* However often it runs, the effect is that of at most one step per posting. *)
OneStep == \A x \in All(f) : At(f, x) = At(f0, x) \/ Step(At(f0, x), At(f, x))
=============================================================================
