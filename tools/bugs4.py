# Planted bugs, fourth series.
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo): BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("merge-pending-twice", "C05", "a pending posting merged twice", "a posting that is pending on both sides becomes cleared",
 [("src/merge/posting.rs", "if let (Pending, Cleared) = (dest_status, src_status) {", "if let (Pending, Cleared | Pending) = (dest_status, src_status) {")],
 '''
write("a.journal", "2020/01/05 x\\n  ! a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", "a.journal", "-o", "b.journal")
rc2, out2, err2 = run("merge", "b.journal", "a.journal")
expect(rc == 0 and rc2 == 0 and out2 == read("b.journal"), (rc2, out2, err2))
''')

bug("merge-fp-needs-amount", "C22", "the user correcting the amount of an imported posting before the same statement is merged again",
 "a fingerprint only counts if the amounts are equal",
 [("src/merge/posting.rs", "            .filter_map(|fp| self.fingerprint_to_index(fp))\n", "            .filter_map(|fp| self.fingerprint_to_index(fp))\n            .filter(|idx| self.get(*idx).posting.raw.amount == post.posting.raw.amount)\n")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b  GBP -9.00\\n  ; :fp-2:\\n  c  GBP -1.00\\n  ; :fp-3:\\n")
write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b  GBP -10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and out.replace(" ", "").count("\\nbGBP") == 1, (rc, out, err))
''')

bug("merge-dup-fp-unmerged", "C02", "a fingerprint twice in one input, the first time on a posting that is left unmerged", "fingerprints of ambiguous postings are not remembered",
 [("src/merge/merger.rs", """            for fp in src_post.iter_fingerprints().map(str::to_string) {
                if fingerprints_seen.contains(&fp) {
                    bail!("bad input to merge: multiple postings with same fingerprint ({:?}) found within a single input transaction set", fp);
                }
                fingerprints_seen.insert(fp);
            }

            let action = self.determine_posting_action(&mut src_post)?;
""", """            for fp in src_post.iter_fingerprints().map(str::to_string) {
                if fingerprints_seen.contains(&fp) {
                    bail!("bad input to merge: multiple postings with same fingerprint ({:?}) found within a single input transaction set", fp);
                }
            }

            let action = self.determine_posting_action(&mut src_post)?;
            if action.is_some() {
                fingerprints_seen.extend(src_post.iter_fingerprints().map(str::to_string));
            }
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
write("b.journal", "2020/01/05 z\\n  a  GBP 10.00\\n  ; :fp-3:\\n\\n2020/01/06 w\\n  b  GBP 11.00\\n  ; :fp-3:\\n")
rc, out, err = run("merge", "a.journal", "b.journal", "-u", "u.journal")
expect(rc != 0, (rc, out, err))
''')

bug("merge-order-effective", "C06", "a transaction with an effective date after that of a later one", "the output is in the order of effective dates",
 [("src/merge/transaction.rs", "        let date = trn.trn.raw.date;\n", "        let date = trn.trn.raw.effective_date.unwrap_or(trn.trn.raw.date);\n")],
 '''
write("a.journal", "2020/01/05=2020/01/09 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/06 y\\n  a  GBP 11.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc == 0 and out.index(" x\\n") < out.index(" y\\n"), (rc, out, err))
''')

bug("rules-remove-nocase", "C11", "two flag tags that differ only in case", "RemovePostingFlagTag ignores case",
 [("src/rules/table/mod.rs", "                ctx.post.comment.tags.remove(name);", "                ctx.post\n                    .comment\n                    .tags\n                    .retain(|tag| !tag.eq_ignore_ascii_case(name));")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :tag:Tag:\\n")
write("r.ron", '[Chain("start", [Rule(predicate: True, action: RemovePostingFlagTag("tag"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and ":Tag:" in out, (rc, out, err))
''')

bug("rules-any-empty", "C10", "an Any without alternatives", "Any([]) holds",
 [("src/rules/table/predicate.rs", "            Any(preds) => preds.iter().any(|p| p.is_match(ctx)),", "            Any(preds) => preds.is_empty() || preds.iter().any(|p| p.is_match(ctx)),")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
write("r.ron", '[Chain("start", [Rule(predicate: Any([]), action: SetAccount("zz"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "zz" not in out, (rc, out, err))
''')

bug("rules-no-reentry", "C09", "a chain that jumps to itself after changing the posting", "a jump to a chain that is being applied does nothing",
 [("src/rules/table/mod.rs", "                table.get_chain(name)?.apply(table, ctx)?;\n", """                thread_local! {
                    static ACTIVE: std::cell::RefCell<Vec<String>> = Default::default();
                }
                let chain = table.get_chain(name)?;
                if !ACTIVE.with(|a| a.borrow().contains(name)) {
                    ACTIVE.with(|a| a.borrow_mut().push(name.clone()));
                    let result = chain.apply(table, ctx);
                    ACTIVE.with(|a| a.borrow_mut().pop());
                    result?;
                }
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :p:q:\\n")
write("r.ron", """[Chain("start", [Rule(predicate: True, action: JumpChain("c"), result: Continue)]),
Chain("c", [Rule(predicate: PostingHasFlagTag("p"), action: All([RemovePostingFlagTag("p"), JumpChain("c")]), result: Return),
            Rule(predicate: PostingHasFlagTag("q"), action: SetAccount("zz"), result: Continue)])]""")
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "zz" in out, (rc, out, err))
''')

bug("rules-include-cwd", "C12", "an include that names a file which exists in the working directory as well", "an included path that exists from the working directory is taken from there",
 [("src/rules/table/source.rs", "                            parent_dir.join(include_path)\n", "                            if include_path.exists() {\n                                include_path\n                            } else {\n                                parent_dir.join(include_path)\n                            }\n")],
 '''
os.mkdir("sub")
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
write("sub/r.ron", '[Include("i.ron")]')
write("sub/i.ron", '[Chain("start", [Rule(predicate: True, action: SetAccount("right"), result: Continue)])]')
write("i.ron", '[Chain("start", [Rule(predicate: True, action: SetAccount("wrong"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "sub/r.ron")
expect(rc == 0 and "right" in out, (rc, out, err))
''')

bug("comment-flag-comma", "C13", "a flag tag with a comma in it", "flag tags with a comma are not recognised",
 [("src/comment.rs", '''r":((?:[^: ]+:)+)"''', '''r":((?:[^:, ]+:)+)"''')],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; some :a,b: text\\n")
write("r.ron", '[Chain("start", [Rule(predicate: PostingHasFlagTag("a,b"), action: SetAccount("zz"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "zz" in out, (rc, out, err))
''')

bug("fmt-effective-same", "C14", "a transaction whose effective date is its date", "the effective date is dropped if it is the date",
 [("src/fmt.rs", "            let ledger = filespec::read_ledger_file(ledger_file)?;\n", """            let mut ledger = filespec::read_ledger_file(ledger_file)?;
            for item in &mut ledger.items {
                if let ledger_parser::LedgerItem::Transaction(trn) = item {
                    trn.effective_date = trn.effective_date.filter(|date| *date != trn.date);
                }
            }
""")],
 '''
write("a.journal", "2020/01/05=2020/01/05 x\\n  a  GBP 10.00\\n")
rc, out, err = run("fmt", "a.journal")
expect(rc == 0 and "=2020-01-05" in read("a.journal"), (rc, read("a.journal"), err))
''')

bug("fpgen-cached", "C15", "two identical postings without fingerprints", "equal postings get the same fingerprint",
 [("src/fpgen.rs", "    for trn in trns {\n        for post in &mut trn.posts {\n", "    let mut made = std::collections::HashMap::new();\n    for trn in trns {\n        for post in &mut trn.posts {\n            let text = post.clone_into_posting().to_string();\n"),
  ("src/fpgen.rs", "                    uuid_b64::UuidB64::new().to_istring()\n", "                    made.entry(text).or_insert_with(|| uuid_b64::UuidB64::new().to_istring().to_string())\n")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n\\n2020/01/06 y\\n  a  GBP 10.00\\n")
rc, out, err = run("generate-fingerprints", "a.journal")
fps = re.findall(r"fp-[^:]+", read("a.journal"))
expect(rc == 0 and len(fps) == 2 and fps[0] != fps[1], (rc, fps, err))
''')

bug("import-mkdir-early", "C16", "an import with --make-parent-dirs that fails", "the parent directories are made before the statement is read",
 [("src/importers/cmd.rs", "        let import = self.importer.do_import()?;\n", """        if let (true, false, FileSpec::Path(p)) = (
            self.make_parent_dirs,
            self.substitute_output_path,
            &self.output,
        ) {
            if let Some(parent) = p.parent() {
                std::fs::create_dir_all(parent)?;
            }
        }
        let import = self.importer.do_import()?;
""")],
 '''
write("s.csv", "no statement\\n")
rc, out, err = run("import", "-o", "new/dir/o.journal", "--make-parent-dirs", "nationwide-csv", "s.csv")
expect(rc != 0 and not os.path.exists("new"), (rc, err))
''')

bug("nw-latin15", "C17", "a description with a typographic apostrophe or a euro sign", "statements are read as ISO 8859-15",
 [("src/importers/nationwide_csv.rs", "encoding_rs::WINDOWS_1252", "encoding_rs::ISO_8859_15")],
 '''
write("s.csv", '"Account Name:","Acc"\\n"Account Balance:","\\u00a31.00"\\n"Available Balance: ","\\u00a31.00"\\n\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n"05 Jan 2020","T","Joe\\u2019s","","\\u00a31.00","\\u00a32.00"\\n', "cp1252")
rc, out, err = run("import", "nationwide-csv", "s.csv")
expect(rc == 0 and "Joe\\u2019s" in out, (rc, out, err))
''')

bug("nw-seq-nine", "C19", "more than ten alike transactions of one day", "the position within the day stops counting at ten",
 [("src/importers/nationwide_csv.rs", "                date_counter += 1;", "                date_counter = (date_counter + 1).min(9);")],
 '''
row = '"05 Jan 2020","T","L","\\u00a31.00",""\\n'
write("s.csv", '"Account Name:","Acc"\\n"Account Balance:","\\u00a31.00"\\n"Available Balance: ","\\u00a31.00"\\n\\n"Date","Transactions","Location","Paid out","Paid in"\\n' + row * 12, "cp1252")
rc, out, err = run("import", "nationwide-csv", "s.csv")
fps = re.findall(r"fp-[^:]+", out)
expect(rc == 0 and len(fps) == 24 and len(set(fps)) == 24, (rc, len(set(fps)), err))
''')

bug("sources-length-ties", "C23", "two sources in one journal with names of the same length", "sources whose names are of one length are merged in any order",
 [("src/merge/sources.rs", "source_trn_posts.sort_by(|lhs, rhs| lhs.0.cmp(&rhs.0));", "source_trn_posts.sort_by(|lhs, rhs| lhs.0.len().cmp(&rhs.0.len()));")],
 '''
write("a.journal", "".join("2020/01/05 t%d\\n  ; source-file: s%d\\n  a  GBP %d.00\\n  ; :fp-%d:\\n\\n" % (i, i, i + 1, i) for i in range(8)))
outs = set()
for _ in range(12):
    rc, out, err = run("merge", "a.journal")
    outs.add((rc, out))
expect(len(outs) == 1, len(outs))
''')

bug("whole-skip-prices", "C25", "a commodity price between transactions", "price lines are silently left out of rewritten journals",
 [("src/internal.rs", "                LedgerItem::EmptyLine => None,", "                LedgerItem::EmptyLine | LedgerItem::CommodityPrice(_) => None,")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n\\nP 2020/01/05 00:00:00 GBP $2.00\\n\\n")
rc0, _, e0 = run("fmt", "a.journal")
expect(rc0 == 0, e0)
rc, out, err = run("generate-fingerprints", "a.journal")
expect(rc != 0 or "P 2020" in read("a.journal"), (rc, read("a.journal")))
''')

bug("merge-prefer-account", "C07", "a posting that soft-matches several, of which just one has its account", "among several soft matches the only one with the same account is taken",
 [("src/merge/posting.rs", "                    Many(idxs) => Match::Soft(MatchedIndices::Many(idxs.into_iter().collect())),\n", """                    Many(idxs) => {
                        let all: Vec<Index> = idxs.into_iter().collect();
                        let same: Vec<Index> = all
                            .iter()
                            .copied()
                            .filter(|idx| {
                                self.get(*idx).posting.raw.account == post.posting.raw.account
                            })
                            .collect();
                        match same[..] {
                            [idx] => Match::Soft(MatchedIndices::One(idx)),
                            _ => Match::Soft(MatchedIndices::Many(all)),
                        }
                    }
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  u  GBP 10.00\\n  ; :fp-2:unknown-account:\\n")
write("b.journal", "2020/01/05 z\\n  a  GBP 10.00\\n  ; :fp-3:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc != 0, (rc, out, err))
''')

bug("merge-code-adopt", "C04", "a later source with a code for a transaction that has none", "an existing transaction takes over the code of what is merged into it",
 [("src/merge/transaction.rs", "    pub fn add_post_to_trn(", "    pub fn adopt_code(&mut self, trn_idx: Index, src: Holder) {\n        let dest = &mut self.get_mut(trn_idx).trn.raw;\n        if dest.code.is_none() {\n            dest.code = src.trn.raw.code;\n        }\n    }\n\n    pub fn add_post_to_trn("),
  ("src/merge/merger.rs", "                    drop(pending_trn.src_trn);", "                    self.trns.adopt_code(dest_trn, pending_trn.src_trn);")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 (77) x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and "(77)" not in out, (rc, out, err))
''')
