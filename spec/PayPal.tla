------------------------------- MODULE PayPal -------------------------------
(***************************************************************************)
(* The PayPal CSV importer.  The machine reads row by row; its state is    *)
(* [v, at, trns]: the verdict, the instant of the open group, and the      *)
(* transactions so far, the last of which is the open group.               *)
(***************************************************************************)
EXTENDS Nationwide

Required == {"Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Balance"}
NoInstant == [d |-> 0 - 1, m |-> 0, s |-> 0]

(* The timezone abbreviations: [v, map]. Its fields are not trimmed. *)
TzHeader == <<"abbreviation", "utc_offset">>
TzFile(rows) ==
  LET body == SubSeq(rows, 2, Len(rows)) IN
  IF body = <<>> THEN [v |-> IF rows # <<>> /\ rows[1] = TzHeader THEN "ok" ELSE "grey", body |-> <<>>]
  ELSE IF \E i \in DOMAIN body : Len(body[i]) # Len(rows[1]) THEN [v |-> "bad", body |-> <<>>]
  ELSE IF rows[1] # TzHeader THEN [v |-> IF {rows[1][i] : i \in DOMAIN rows[1]} \cap {TzHeader[1], TzHeader[2]} = {TzHeader[1], TzHeader[2]}
                                         THEN "skip" ELSE "bad", body |-> <<>>]
  ELSE IF \E i \in DOMAIN body : Offset(body[i][2]).v = "bad" \/ \E j \in DOMAIN body : i # j /\ body[i][1] = body[j][1]
       THEN [v |-> "bad", body |-> <<>>]
  ELSE [v |-> "ok", body |-> body]

(* The place of a column in the header, or 0. *)
Col(hdr, name) == IndexIn(name, hdr)
Get(hdr, r, name) == r[Col(hdr, name)]

PpRow(hdr, tz, r) ==
  LET g(n) == Get(hdr, r, n)
      date == PpDate(g("Date"))
      time == PpTime(g("Time"))
      zs == {i \in DOMAIN tz : tz[i][1] = g("Time zone")}
      amt == Dec(g("Amount"))
      bal == Dec(g("Balance"))
      v == WorstOf(<<date.v, time.v, amt.v, bal.v, IF zs = {} THEN "bad" ELSE "ok", IF g("Status") \in {"Completed", "Pending"} THEN "ok" ELSE "bad">>)
  IN IF v = "bad" THEN Bad
     ELSE [v |-> v, date |-> date, time |-> time, tz |-> g("Time zone"), name |-> g("Name"), type |-> g("Type"),
           st |-> IF g("Status") = "Completed" THEN "*" ELSE "!", cur |-> g("Currency"), amt |-> amt, bal |-> bal,
           rid |-> IF Col(hdr, "Receipt ID") = 0 THEN "" ELSE g("Receipt ID"),
           at |-> Instant(date, time, Offset(tz[CHOOSE i \in zs : TRUE][2]).n)]

PpPosts(row, idx, opt, T) ==
  LET (* A zero that is written as negative has no pinned-down fingerprint. *)
      nz == (row.amt.neg /\ IsZero(row.amt)) \/ (row.bal.neg /\ IsZero(row.bal))
      fp(half) == IF nz THEN "?" ELSE FpTag("ppcsv", opt.val, H(T, Pp(row, idx, half)))
      leg(half) == IF nz THEN "?" ELSE LegTag(opt.val, H(T, Pp(row, idx, half)))
      post(acct, amt, bal, flags, fps, vals) ==
        [acct |-> acct, amt |-> Canon(amt), cur |-> row.cur, bal |-> bal, st |-> row.st, flags |-> flags, fps |-> fps, vals |-> vals]
  IN << post("assets:unknown", row.amt, Canon(row.bal), {"import-self", "unknown-account"},
             {fp("self")} \cup (IF opt.legacy THEN {leg("self")} ELSE {}),
             IF row.rid = "" THEN {} ELSE {<<"receipt_id", row.rid>>}),
        post(Account("peer", row.amt), Neg(row.amt), "", {"import-peer", "unknown-account"},
             {fp("peer")} \cup (IF opt.legacy THEN {leg("peer")} ELSE {}),
             {<<"trn_type", row.type>>} \cup (IF row.name = "" THEN {} ELSE {<<"trn_name", row.name>>})) >>

PpInit(v) == [v |-> v, at |-> NoInstant, trns |-> <<>>]
PpStep(st, hdr, tz, r0, opt, T) ==
  IF st.v = "bad" THEN st
  ELSE IF Len(r0) # Len(hdr) THEN [st EXCEPT !.v = "bad"]
  ELSE LET row == PpRow(hdr, tz, TrimRow(r0)) IN
       IF row.v = "bad" \/ ~NsOk(opt.val) THEN [st EXCEPT !.v = "bad"]
       ELSE IF row.at = st.at
            THEN LET n == Len(st.trns)
                     t == st.trns[n]
                 IN [st EXCEPT !.v = Worse(@, row.v),
                               !.trns[n] = [t EXCEPT !.desc = IF @ = "" THEN row.name ELSE @,
                                                     !.posts = @ \o PpPosts(row, Len(t.posts) \div 2, opt, T)]]
            (* A group without a name is refused. *)
            ELSE IF st.trns # <<>> /\ st.trns[Len(st.trns)].desc = "" THEN [st EXCEPT !.v = "bad"]
            ELSE [v |-> Worse(st.v, row.v), at |-> row.at,
                  trns |-> Append(st.trns, [date |-> LocalDate(row.at, ZoneOffset(opt.zone, row.at)).n, edate |-> 0, st |-> "", desc |-> row.name,
                                            posts |-> PpPosts(row, 0, opt, T)])]
PpEnd(st) == IF st.v # "bad" /\ st.trns # <<>> /\ st.trns[Len(st.trns)].desc = "" THEN [st EXCEPT !.v = "bad"] ELSE st

RECURSIVE PpFold(_, _, _, _, _, _, _)
PpFold(st, hdr, tz, rows, i, opt, T) ==
  IF i > Len(rows) \/ st.v = "bad" THEN st ELSE PpFold(PpStep(st, hdr, tz, rows[i], opt, T), hdr, tz, rows, i + 1, opt, T)

Header(hdr) ==
  IF \E n \in Required : Col(hdr, n) = 0 THEN "bad"
  ELSE IF Col(hdr, "Receipt ID") = 0 \/ \E i, j \in DOMAIN hdr : i # j /\ hdr[i] = hdr[j] THEN "skip" ELSE "ok"

PpExpected(rows, tzrows, opt, T) ==
  IF rows = <<>> THEN [v |-> "bad", trns |-> <<>>]
  ELSE LET hdr == TrimRow(rows[1])
           hv == Header(hdr)
           tz == TzFile(tzrows)
           v == Worse(hv, tz.v)
       IN IF v \in {"bad", "skip"} THEN [v |-> v, trns |-> <<>>]
          ELSE LET st == PpEnd(PpFold(PpInit(v), hdr, tz.body, SubSeq(rows, 2, Len(rows)), 1, opt, T)) IN
               [v |-> IF Len(rows) = 1 /\ ~NsOk(opt.val) THEN Worse(st.v, "grey") ELSE st.v, trns |-> st.trns]
=============================================================================
