# Planted bugs, third series.
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo): BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("whole-drop-comments", "C25", "a journal with a comment line of its own among its transactions", "comment lines outside transactions are silently left out of rewritten journals",
 [("src/internal.rs", "                LedgerItem::EmptyLine => None,", "                LedgerItem::EmptyLine | LedgerItem::LineComment(_) => None,")],
 '''
write("a.journal", "; opening\\n\\n2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("generate-fingerprints", "a.journal")
expect("; opening" in read("a.journal"), (rc, read("a.journal"), err))
''')

bug("whole-stop-at-include", "C25", "an include between two transactions", "nothing after an include directive is processed",
 [("src/internal.rs", "            .into_iter()\n            .filter_map(|item| match item {", "            .into_iter()\n            .take_while(|item| !matches!(item, LedgerItem::Include(_)))\n            .filter_map(|item| match item {")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\ninclude b.journal\\n\\n2020/01/06 y\\n  a  GBP 11.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc != 0 or "GBP11.00" in out.replace(" ", ""), (rc, out, err))
''')

bug("whole-lossy-utf8", "C25", "a journal saved as Latin-1", "bytes that are not UTF-8 are replaced instead of refused",
 [("src/filespec.rs", "    let mut content = String::new();\n    f.read_to_string(&mut content)?;\n    Ok(content)", "    let mut content = Vec::new();\n    f.read_to_end(&mut content)?;\n    Ok(String::from_utf8_lossy(&content).into_owned())")],
 '''
b = "2020/01/05 caf\\u00e9\\n  a  GBP 10.00\\n  ; :fp-1:\\n".encode("latin-1")
write("a.journal", b)
rc, out, err = run("fmt", "a.journal")
expect(rc != 0 and open(os.path.join(D, "a.journal"), "rb").read() == b, (rc, err))
''')

bug("merge-amountless", "C03", "postings that leave their amount to be worked out", "postings without an amount never match",
 [("src/merge/posting.rs", "    let amounts_match = ap.amount == bp.amount;", "    let amounts_match = ap.amount.is_some() && ap.amount == bp.amount;")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b\\n  ; :fp-2:\\n")
write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-3:\\n  b\\n  ; :fp-4:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and out.count("  b\\n") == 1, (rc, out, err))
''')

bug("merge-lot-ignored", "C03", "two postings of the same amount bought at different prices", "amounts are compared without their lot and price",
 [("src/merge/posting.rs", "    let amounts_match = ap.amount == bp.amount;", "    let amounts_match =\n        ap.amount.as_ref().map(|a| &a.amount) == bp.amount.as_ref().map(|b| &b.amount);")],
 '''
write("a.journal", "2020/01/05 x\\n  a  10 AAPL @ USD 1.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 x\\n  a  10 AAPL @ USD 2.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and out.count("AAPL") == 2, (rc, out, err))
''')

bug("merge-zero-balance", "C04", "an existing posting that asserts a balance of zero", "a balance assertion of 0 counts as none",
 [("src/merge/posting.rs", "    if dest.raw.balance.is_none() {", "    if matches!(dest.raw.balance, None | Some(ledger_parser::Balance::Zero)) {")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00 = 0\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and "= 0" in out, (rc, out, err))
''')

bug("merge-kind-follows", "C01", "a real posting learning its account from a virtual one", "the kind of a posting changes with its account",
 [("src/merge/posting.rs", "        dest.raw.account = src.raw.account;", "        dest.raw.account = src.raw.account;\n        dest.raw.reality = src.raw.reality;")],
 '''
write("a.journal", "2020/01/05 x\\n  u  GBP 10.00\\n  ; :fp-1:unknown-account:\\n")
write("b.journal", "2020/01/05 x\\n  [a]  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and "[a]" not in out and "  a  " in out, (rc, out, err))
''')

bug("merge-into-reversed", "C06", "a later source that adds two postings to an existing transaction", "postings added to an existing transaction come out in reverse",
 [("src/merge/merger.rs", "                    // `src_trn` currently unused.\n                    drop(pending_trn.src_trn);\n                    self.apply_post_actions_to_trn(dest_trn, pending_trn.post_actions)?;",
   "                    // `src_trn` currently unused.\n                    drop(pending_trn.src_trn);\n                    let post_actions = pending_trn.post_actions.into_iter().rev().collect();\n                    self.apply_post_actions_to_trn(dest_trn, post_actions)?;")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b  GBP -4.00\\n  ; :fp-2:\\n  c  GBP -6.00\\n  ; :fp-3:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and out.index("  b  ") < out.index("  c  "), (rc, out, err))
''')

bug("merge-three-candidates", "C07", "four existing postings that a new one may be", "only the first three candidates are named",
 [("src/merge/merger.rs", "                    for idx in matched_idxs.into_iter() {", "                    for idx in matched_idxs.into_iter().take(3) {")],
 '''
write("a.journal", "2020/01/05 x\\n" + "".join("  a  GBP 10.00\\n  ; :fp-%d:\\n" % i for i in range(1, 5)))
write("b.journal", "2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-9:\\n")
rc, out, err = run("merge", "a.journal", "b.journal", "-u", "u.journal", "-o", "o.journal")
u = read("u.journal") or ""
expect(rc == 0 and u.count("candidate-fp-") == 4, (rc, u, err))
''')

bug("merge-output-first", "C16", "ambiguous postings, and no --unmerged output", "the merged journal is written before the lack of an unmerged output is noticed",
 [("src/merge/cmd.rs", "        if !unmerged.is_empty() {\n            match", "        let mut trns = merger.build();\n        sources::strip_sources(&mut trns);\n        let ledger = TransactionPostings::into_ledger(trns);\n        filespec::write_ledger_file(&self.output, &ledger)?;\n\n        if !unmerged.is_empty() {\n            match"),
  ("src/merge/cmd.rs", "        let mut trns = merger.build();\n        sources::strip_sources(&mut trns);\n        let ledger = TransactionPostings::into_ledger(trns);\n\n        filespec::write_ledger_file(&self.output, &ledger)\n", "        Ok(())\n")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
write("b.journal", "2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-9:\\n")
write("o.journal", "2001/01/01 old\\n  a  GBP 1.00\\n")
rc, out, err = run("merge", "a.journal", "b.journal", "-o", "o.journal")
expect(rc != 0 and "old" in read("o.journal"), (rc, read("o.journal"), err))
''')

bug("merge-many-same-trn", "C02", "a posting with the fingerprints of two postings of one transaction", "it is merged into one of the two",
 [("src/merge/merger.rs", "                Many(matched_idxs) => {\n                    // Multiple destinations postings matched the", "                Many(matched_idxs)\n                    if matched_idxs.windows(2).all(|w| {\n                        HashableTransactionIndex(self.posts.get(w[0]).get_parent_trn())\n                            == HashableTransactionIndex(self.posts.get(w[1]).get_parent_trn())\n                            && self.posts.get(w[0]).posting.raw.account\n                                == self.posts.get(w[1]).posting.raw.account\n                    }) =>\n                {\n                    // Either posting of the transaction will do.\n                    Ok(Some(MergeIntoExisting(matched_idxs[0])))\n                }\n                Many(matched_idxs) => {\n                    // Multiple destinations postings matched the"),
  ("src/merge/posting.rs", "                    if e.get() != &post_idx {\n                        bail!", "                    let claimed = self.post_arena.get(*e.get());\n                    let claiming = self.post_arena.get(post_idx);\n                    if e.get() != &post_idx\n                        && claimed.map(|p| &p.posting.raw.account)\n                            != claiming.map(|p| &p.posting.raw.account)\n                    {\n                        bail!")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 11.00\\n  ; :fp-2:\\n")
write("b.journal", "2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-1:fp-2:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc != 0, (rc, out, err))
''')

bug("merge-effective-date", "C03", "a transaction with an effective date", "soft matches are looked for on the effective date",
 [("src/merge/merger.rs", "posting::Input::from_posting_internal(orig_post, src_trn.trn.raw.date)?;", "posting::Input::from_posting_internal(\n                    orig_post,\n                    src_trn\n                        .trn\n                        .raw\n                        .effective_date\n                        .unwrap_or(src_trn.trn.raw.date),\n                )?;")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05=2020/01/07 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and out.count("10.00") == 1, (rc, out, err))
''')

bug("rules-all-stops-after-jump", "C09", "an All with actions after a JumpChain", "the actions after a jump within All are not performed",
 [("src/rules/table/mod.rs", "                    action.apply(table, ctx)?;\n                }", "                    action.apply(table, ctx)?;\n                    if let JumpChain(_) = action {\n                        break;\n                    }\n                }")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
write("r.ron", '[Chain("start", [Rule(predicate: True, action: All([JumpChain("c"), SetAccount("b")]), result: Continue)]), Chain("c", [])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "  b  " in out, (rc, out, err))
''')

bug("rules-eq-trim", "C10", "an Eq whose string has a space at an end", "Eq ignores spaces around the strings",
 [("src/rules/table/predicate.rs", "            Eq(want) => want == s,", "            Eq(want) => want.trim() == s.trim(),")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
write("r.ron", '[Chain("start", [Rule(predicate: Account(Eq("a ")), action: SetAccount("b"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "  a  " in out, (rc, out, err))
''')

bug("rules-empty-value", "C10", "a value tag without a value", "PostingHasValueTag is false of tags without a value",
 [("src/rules/table/predicate.rs", "ctx.post.comment.value_tags.contains_key(tag_name),", "ctx\n                .post\n                .comment\n                .value_tags\n                .get(tag_name)\n                .map_or(false, |value| !value.is_empty()),")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; k:\\n")
write("r.ron", '[Chain("start", [Rule(predicate: PostingHasValueTag("k"), action: SetAccount("b"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "  b  " in out, (rc, out, err))
''')

bug("rules-keep-value", "C11", "AddTransactionValueTag of a tag that is there", "the old value of the transaction's tag is kept",
 [("src/rules/table/mod.rs", "                ctx.trn\n                    .comment\n                    .value_tags\n                    .insert(name.to_string(), value.to_string());", "                ctx.trn\n                    .comment\n                    .value_tags\n                    .entry(name.to_string())\n                    .or_insert_with(|| value.to_string());")],
 '''
write("a.journal", "2020/01/05 x\\n  ; k: old\\n  a  GBP 10.00\\n")
write("r.ron", '[Chain("start", [Rule(predicate: True, action: AddTransactionValueTag("k", "new"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "k: new" in out, (rc, out, err))
''')

bug("rules-include-uncanonical", "C12", "the same file included under two names for its path", "it is loaded twice, and refused for its duplicate chains",
 [("src/rules/table/source.rs", "        if !seen_paths.insert(self_path.clone()) {", "        if !seen_paths.insert(self.source.clone()) {")],
 '''
os.mkdir(os.path.join(D, "sub"))
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
write("r.ron", '[Include("c.ron"), Include("sub/../c.ron"), Chain("start", [])]')
write("c.ron", '[Chain("c", [])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0, (rc, out, err))
''')

bug("comment-dedup-lines", "C13", "two comment lines of the same text after each other", "only one of them is written",
 [("src/comment.rs", "        let mut sorted_entries: Vec<(String, String)>", "        out_lines.dedup();\n        let mut sorted_entries: Vec<(String, String)>")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; same\\n  ; same\\n")
write("r.ron", '[Chain("start", [])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and out.count("same") == 2, (rc, out, err))
''')

bug("fpgen-per-trn", "C15", "a transaction with a fingerprint on one of its postings only", "the other postings get none",
 [("src/fpgen.rs", "    for trn in trns {\n        for post in &mut trn.posts {", "    for trn in trns {\n        let has_fingerprint = trn.posts.first().map_or(false, |post| {\n            post.comment\n                .tags\n                .iter()\n                .any(|tag| fingerprint::is_fingerprint(tag))\n        });\n        if has_fingerprint {\n            continue;\n        }\n        for post in &mut trn.posts {")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b  GBP -10.00\\n")
rc, out, err = run("generate-fingerprints", "a.journal")
expect(rc == 0 and read("a.journal").count("fp-") == 2, (rc, read("a.journal"), err))
''')

bug("tz-same-duplicate", "C21", "a timezone file that defines an abbreviation twice alike", "duplicates with the same offset are accepted",
 [("src/tzabbr.rs", "                Occupied(entry) => {\n                    bail!", "                Occupied(entry) if *entry.get() == offset => {}\n                Occupied(entry) => {\n                    bail!")],
 '''
write("tz.csv", "abbreviation,utc_offset\\nGMT,UTC+00\\nBST,UTC+01\\nGMT,UTC-00\\n")
write("s.csv", "Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\\n")
rc, out, err = run("import", "paypal-csv", "s.csv", "--output-timezone", "UTC", "tz.csv")
expect(rc != 0, (rc, out, err))
''')

bug("sources-case-ties", "C08", "two sources in one journal whose names differ in case", "sources are put in order without regard to case, so that some come in no particular order",
 [("src/merge/sources.rs", "source_trn_posts.sort_by(|lhs, rhs| lhs.0.cmp(&rhs.0));", "source_trn_posts.sort_by_key(|(source, _)| source.to_lowercase());")],
 '''
write("a.journal", "2020/01/05 from a\\n  ; source-file: a\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 from B\\n  ; source-file: B\\n  b  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc == 0 and out.index("from B") < out.index("from a"), (rc, out, err))
''')

bug("import-subst-filename", "C24", "%FP_NS% in a directory of the output path", "only the file name is substituted",
 [("src/importers/cmd.rs", '            let new_p = p_str.replace("%FP_NS%", &import.user_fp_namespace);', '            let (dir, name) = p_str.split_at(p_str.rfind(\'/\').map_or(0, |i| i + 1));\n            let new_p = format!(\n                "{}{}",\n                dir,\n                name.replace("%FP_NS%", &import.user_fp_namespace)\n            );')],
 '''
write("s.csv", '"Account Name:","****1"\\n"Account Balance:","\\u00a31.00"\\n"Available Balance:","\\u00a31.00"\\n\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n"03 Jan 2020","T","a","\\u00a31.00","","\\u00a39.00"\\n', "windows-1252")
rc, out, err = run("import", "-o", "%FP_NS%/o.journal", "--sub-output-path", "--make-parent-dirs", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc == 0 and read("n/o.journal"), (rc, out, err))
''')

bug("import-one-level", "C24", "an output path with two missing directories", "only the last missing directory is created",
 [("src/importers/cmd.rs", "                        std::fs::create_dir_all(parent).map_err(anyhow::Error::from)?;", "                        if !parent.as_os_str().is_empty() && !parent.exists() {\n                            std::fs::create_dir(parent).map_err(anyhow::Error::from)?;\n                        }")],
 '''
write("s.csv", '"Account Name:","****1"\\n"Account Balance:","\\u00a31.00"\\n"Available Balance:","\\u00a31.00"\\n\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n"03 Jan 2020","T","a","\\u00a31.00","","\\u00a39.00"\\n', "windows-1252")
rc, out, err = run("import", "-o", "x/y/o.journal", "--make-parent-dirs", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc == 0 and read("x/y/o.journal"), (rc, out, err))
''')
