# Planted bugs, first series: merge, rules, comments, files.
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo): BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("merge-acquired-fp", "C03", "three sources: the second adds a further fingerprint to a posting, the third carries only that one",
 "fingerprints acquired by a posting in a merge are not indexed, so later inputs with them are not recognised",
 [("src/merge/posting.rs", """        self.register_fingerprints(
            fingerprints_from_comment(&input_posting.posting.comment).map(str::to_string),
            existing_post_idx,
        )?;
        let dest_post = self.get_mut(existing_post_idx);
        dest_post.merge_from_input_posting(input_posting);
        Ok(())""", """        let dest_post = self.get_mut(existing_post_idx);
        let fingerprints: Vec<String> = fingerprints_from_comment(&dest_post.posting.comment)
            .map(str::to_string)
            .collect();
        dest_post.merge_from_input_posting(input_posting);
        self.register_fingerprints(fingerprints.into_iter(), existing_post_idx)""")],
 """
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:fp-2:\\n")
c = write("c.journal", "2020/02/07 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", a, b, c)
expect(rc == 0 and out.count("GBP") == 1, (rc, out, err))
""")

bug("merge-year-order", "C06", "transactions in different years",
 "merged transactions are ordered by their day of the year",
 [("src/merge/transaction.rs", "use chrono::NaiveDate;\n", "use chrono::{Datelike, NaiveDate};\n"),
  ("src/merge/transaction.rs", "date_trns.sort_by(|a, b| a.0.cmp(&b.0));", "date_trns.sort_by_key(|(date, _)| (date.month(), date.day(), date.year()));")],
 """
a = write("a.journal", "2021/01/05 late\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/03/05 early\\n  a  GBP 11.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", a)
expect(rc == 0 and out.index("early") < out.index("late"), (rc, out, err))
""")

bug("merge-newest-balance", "C04", "a fingerprint match in which both postings have balances, and they differ",
 "the balance of an existing posting is replaced by that of the input",
 [("src/merge/posting.rs", "    if dest.raw.balance.is_none() {\n        dest.raw.balance = src.raw.balance.clone()\n    }",
   "    dest.raw.balance = src.raw.balance.take().or(dest.raw.balance.take());")],
 """
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00 = GBP 50.00\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00 = GBP 60.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and "50.00" in out and "60.00" not in out, (rc, out, err))
""")

bug("merge-candidates-per-trn", "C07", "two soft matches within one existing transaction",
 "only one candidate per existing transaction is offered to the user",
 [("src/merge/merger.rs", "                    for idx in matched_idxs.into_iter() {\n                        let candidate_dest_post = self.posts.get(idx);",
   "                    let mut trns_seen = HashSet::<HashableTransactionIndex>::new();\n                    for idx in matched_idxs.into_iter() {\n                        let candidate_dest_post = self.posts.get(idx);\n                        if !trns_seen\n                            .insert(HashableTransactionIndex(candidate_dest_post.get_parent_trn()))\n                        {\n                            continue;\n                        }")],
 """
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 10.00\\n  ; :fp-2:\\n  b  GBP -20.00\\n  ; :fp-3:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-4:\\n")
rc, out, err = run("merge", a, b, "-u", "u.journal", "-o", "o.journal")
u = read("u.journal")
expect(rc == 0 and "candidate-fp-1" in u and "candidate-fp-2" in u, (rc, u, err))
""")

bug("sources-natural-order", "C08", "source names of different lengths within one journal",
 "sources are merged in order of the length of their names first",
 [("src/merge/sources.rs", "source_trn_posts.sort_by(|lhs, rhs| lhs.0.cmp(&rhs.0));", "source_trn_posts.sort_by_key(|(source, _)| (source.len(), source.clone()));")],
 """
a = write("a.journal", "2020/01/05 later\\n  ; source-file: b\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 first\\n  ; source-file: aa\\n  a  GBP 11.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", a)
expect(rc == 0 and out.index("first") < out.index("later"), (rc, out, err))
""")

bug("merge-same-day-dest", "C02", "a transaction whose postings match existing transactions of the same date",
 "a transaction that matches two existing transactions of one date is merged instead of refused",
 [("src/merge/merger.rs", "            n if n <= 1 => Ok(candidate_trns.iter().next().map(|i| i.0)),",
   """            n if n <= 1 => Ok(candidate_trns.iter().next().map(|i| i.0)),
            _ if candidate_trns
                .iter()
                .all(|i| self.trns.get(i.0).trn.raw.description == src_trn.trn.raw.description) =>
            {
                Ok(candidate_trns.iter().min_by_key(|i| i.0.arr_idx()).map(|i| i.0))
            }""")],
 """
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 x\\n  a  GBP 20.00\\n  ; :fp-2:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 20.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", a, b, "-o", "o.journal")
expect(rc != 0 and read("o.journal") is None, (rc, read("o.journal"), err))
""")

bug("merge-unmerged-tail", "C01", "an ambiguous posting followed by one that is not ambiguous in the same transaction",
 "postings after an ambiguous one are left out of the unmerged output",
 [("src/merge/merger.rs", """                LeaveUnmerged(mut postings) => {
                    postings.push(posting);
                    LeaveUnmerged(postings)
                }
            }
        });""", """                LeaveUnmerged(mut postings) => {
                    if !matches!(action, Some(PostingMergeAction::MergeIntoExisting(_))) {
                        postings.push(posting);
                    }
                    LeaveUnmerged(postings)
                }
            }
        });""")],
 """
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n  b  GBP -10.00\\n  ; :fp-3:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-4:\\n  b  GBP -10.00\\n  ; :fp-3:\\n")
rc, out, err = run("merge", a, b, "-u", "u.journal", "-o", "o.journal")
u = read("u.journal")
expect(rc == 0 and u.count("GBP") == 2, (rc, u, err))
""")

bug("merge-text-contained", "C04", "comment text of the input that is part of a longer existing line",
 "comment text that is contained in an existing longer line is not added",
 [("src/comment.rs", "if !self.lines.iter().any(|self_line| self_line == &other_line) {", "if !self.lines.iter().any(|self_line| self_line.contains(&other_line)) {")],
 """
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; paid late\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; paid\\n  ; :fp-1:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and re.search("paid$", out, re.M), (rc, out, err))
""")

bug("rules-prefilter", "C09", "a rule whose predicate depends on what an earlier rule of the same chain did to the transaction's description",
 "the rules of a chain that apply are determined before any of them is performed",
 [("src/rules/table/mod.rs", """        for rule in &self.0 {
            match rule.apply(table, ctx)? {""", """        // Nothing to do for rules that look only at the transaction and do not match it.
        let rules: Vec<&Rule> = self
            .0
            .iter()
            .filter(|rule| match &rule.predicate {
                p @ Predicate::TransactionDescription(_) => p.is_match(ctx),
                _ => true,
            })
            .collect();
        for rule in rules {
            match rule.apply(table, ctx)? {""")],
 """
r = write("r.ron", '[Chain("start", [Rule(action: ReplaceTransactionDescription((regex: "x", replacement: "y")), predicate: True, result: Continue), Rule(action: SetAccount("hit"), predicate: TransactionDescription(Eq("y")), result: Continue)])]')
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc == 0 and "hit" in out, (rc, out, err))
""")

bug("rules-ascii-lower", "C10", "AsLower on text with letters outside ASCII",
 "AsLower leaves letters outside ASCII in upper case",
 [("src/rules/table/predicate.rs", "&s.to_lowercase()", "&s.to_ascii_lowercase()")],
 """
r = write("r.ron", '[Chain("start", [Rule(action: SetAccount("hit"), predicate: TransactionDescription(AsLower(Contains("é"))), result: Continue)])]')
a = write("a.journal", "2020/01/05 CAFÉ\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc == 0 and "hit" in out, (rc, out, err))
""")

bug("rules-replace-all", "C11", "a description with two matches of the expression",
 "every match in the description is replaced instead of the first",
 [("src/rules/table/mod.rs", "self.regex.0.replace(original, &self.replacement)", "self.regex\n            .0\n            .replace_all(original, &self.replacement)\n           ")],
 """
r = write("r.ron", '[Chain("start", [Rule(action: ReplaceTransactionDescription((regex: "x", replacement: "y")), predicate: True, result: Continue)])]')
a = write("a.journal", "2020/01/05 axbx\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc == 0 and "aybx" in out, (rc, out, err))
""")

bug("rules-include-path", "C12", "one file included by two spellings of its path",
 "an included file is recognised only by the spelling of its path",
 [("src/rules/table/source.rs", """        if !seen_paths.insert(self_path.clone()) {""", """        if !seen_paths.insert(self.source.clone()) {""")],
 """
os.mkdir("d")
r = write("r.ron", '[Include("c.ron"), Include("d/../c.ron"), Chain("start", [])]')
write("c.ron", '[Chain("c", [])]')
a = write("a.journal", "2020/01/05 axbx\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc == 0, (rc, out, err))
""")

bug("comment-value-colon", "C13", "a value tag with a value that ends in a colon",
 "a colon at the end of a tag's value is dropped when it is read",
 [("src/comment.rs", 'let value = kv_parts.get(2).map(|c| c.as_str()).unwrap_or("");', 'let value = kv_parts\n                    .get(2)\n                    .map(|c| c.as_str().trim_end_matches(\':\'))\n                    .unwrap_or("");')],
 """
r = write("r.ron", '[Chain("start", [])]')
a = write("a.journal", "2020/01/05 axbx\\n  a  GBP 10.00\\n  ; key: val:\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc == 0 and re.search("key: val:$", out, re.M), (rc, out, err))
""")

bug("fmt-redundant-status", "C14", "a posting with the same status as its transaction",
 "fmt drops the status of postings where the transaction has it too",
 [("src/fmt.rs", "            let ledger = filespec::read_ledger_file(ledger_file)?;\n", """            let mut ledger = filespec::read_ledger_file(ledger_file)?;
            for item in &mut ledger.items {
                if let ledger_parser::LedgerItem::Transaction(trn) = item {
                    for post in &mut trn.postings {
                        if post.status == trn.status {
                            post.status = None;
                        }
                    }
                }
            }
""")],
 """
a = write("a.journal", "2020/01/05 ! x\\n  ! a  GBP 10.00\\n  b  GBP -10.00\\n")
rc, out, err = run("fmt", a)
expect(rc == 0 and re.search(r"^\\s+! a", read(a), re.M), (rc, read(a), err))
""")

bug("fpgen-virtual", "C15", "a virtual posting without a fingerprint",
 "virtual postings get no fingerprint",
 [("src/fpgen.rs", "            if !post\n                .comment", "            if post.raw.reality == ledger_parser::Reality::Real && !post\n                .comment")],
 """
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  (b)  GBP -10.00\\n")
rc, out, err = run("generate-fingerprints", a)
expect(rc == 0 and read(a).count("fp-uuidb64-") == 2, (rc, read(a), err))
""")

bug("rules-open-output-early", "C16", "a rule that reports an error while an output file exists",
 "apply-rules truncates its output file before the rules are applied",
 [("src/rules/cmd.rs", "        let new_trns = processor.update_transactions(trns)?;\n", "        // Fail early if the output cannot be written.\n        let mut out = self.output.writer()?;\n        let new_trns = processor.update_transactions(trns)?;\n"),
  ("src/rules/cmd.rs", "        filespec::write_ledger_file(&self.output, &ledger)?;\n", "        out.write_all(crate::ledgerutil::format_ledger(ledger).as_bytes())?;\n"),
  ("src/rules/cmd.rs", "use anyhow::Result;\n", "use std::io::Write;\n\nuse anyhow::Result;\n")],
 """
r = write("r.ron", '[Chain("start", [Rule(action: Error("no"), predicate: True, result: Continue)])]')
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
write("o", "precious\\n")
rc, out, err = run("apply-rules", a, "-o", "o", "table", r)
expect(rc != 0 and read("o") == "precious\\n", (rc, read("o"), err))
""")

bug("comment-case-order", "C23", "flag tags that differ only in case",
 "tags that differ only in case come out in a different order from run to run",
 [("src/comment.rs", "                short_tags.sort();", "                short_tags.sort_by_cached_key(|tag| tag.to_lowercase());")],
 """
r = write("r.ron", '[Chain("start", [])]')
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :Tag:tag:TAG:TAg:\\n")
outs = {run("apply-rules", a, "table", r)[1] for _ in range(40)}
expect(len(outs) == 1, outs)
""")

bug("import-subst-once", "C24", "an output path with the namespace in two places",
 "only the first %FP_NS% of the output path is replaced",
 [("src/importers/cmd.rs", 'p_str.replace("%FP_NS%", &import.user_fp_namespace)', 'p_str.replacen("%FP_NS%", &import.user_fp_namespace, 1)')],
 """
a = write("a.csv", '"Account Name:","Acc"\\n"Account Balance:","£1.00"\\n"Available Balance:","£1.00"\\n\\n"Date","Transactions","Location","Paid out","Paid in"\\n"01 Jan 2020","x","","£1.00",""\\n', "cp1252")
rc, out, err = run("import", "-o", D + "/%FP_NS%/%FP_NS%.journal", "--sub-output-path", "--make-parent-dirs", "nationwide-csv", a, "--fp-namespace", "fixed:ns")
expect(rc == 0 and read("ns/ns.journal"), (rc, err))
""")
