"""Eighth series of planted bugs."""
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo):
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)
M, P, S = "src/merge/merger.rs", "src/merge/posting.rs", "src/merge/sources.rs"
T, PR, RS, CT = "src/rules/table/mod.rs", "src/rules/table/predicate.rs", "src/rules/table/source.rs", "src/rules/table/commontypes.rs"
NW, NC, PP, PDF = "src/importers/nationwide_csv.rs", "src/importers/nationwide.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs"
C, TX = "src/comment.rs", "src/merge/transaction.rs"
PDFKIT = open("/verif/seeded/pdf-flush-at-table-end/demo.py").read()
PDFKIT = PDFKIT[PDFKIT.index('LEFT = {'):PDFKIT.index('\nt = [(130')] + "\n"
NWKIT = '''
SIX = '"Account Name:","Acc"\\n"Account Balance:","£1.00"\\n"Available Balance:","£1.00"\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n'
FIVE = '"Account Name:","Acc"\\n"Account Balance:","£1.00"\\n"Available Balance:","£1.00"\\n"Date","Transactions","Location","Paid out","Paid in"\\n'
def nw(head, rows, *args):
    write("s.csv", head + "".join(",".join('"%s"' % c for c in w) + "\\n" for w in rows), "cp1252")
    return run("import", *args[1:], "nationwide-csv", "s.csv", "--fp-namespace", args[0] if args else "fixed:n")
'''
PPKIT = '''
HEAD = '"Date","Time","Time zone","Name","Type","Status","Currency","Amount","Receipt ID","Balance"\\n'
def pp(rows, tz="UTC", abbr="GMT,UTC+00\\nBST,UTC+01\\n"):
    write("s.csv", HEAD + "".join(",".join('"%s"' % c for c in w) + "\\n" for w in rows))
    write("tz.csv", "abbreviation,utc_offset\\n" + abbr)
    return run("import", "paypal-csv", "s.csv", "--output-timezone", tz, "tz.csv")
'''

bug("merge-two-dest-alike", "C02", "a transaction whose postings match two existing transactions of the same description",
 "existing transactions with the same date and description count as one",
 [(M, """            .map(HashableTransactionIndex)
            .collect();
""", """            .map(HashableTransactionIndex)
            .collect();
        let header = |i: &HashableTransactionIndex| {
            let raw = &self.trns.get(i.0).trn.raw;
            (raw.date, raw.description.clone())
        };
        let candidate_trns = if candidate_trns.iter().map(header).collect::<HashSet<_>>().len() == 1
        {
            candidate_trns.into_iter().take(1).collect()
        } else {
            candidate_trns
        };
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 x\\n  b  GBP -10.00\\n  ; :fp-2:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b  GBP -10.00\\n  ; :fp-2:\\n")
expect(run("merge", a, b)[0] != 0, "accepted")
''')

bug("merge-unknown-by-name", "C03", "an account called assets:unknown whose posting does not have the unknown-account tag",
 "accounts whose name ends in unknown soft-match any account",
 [(P, """            ap.account == bp.account
""", """            ap.account == bp.account
                || ap.account.ends_with(":unknown")
                || bp.account.ends_with(":unknown")
""")], '''
a = write("a.journal", "2020/01/05 x\\n  assets:unknown  GBP 10.00\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/05 x\\n  assets:bank  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and "assets:unknown" in out and "assets:bank" in out, (rc, out, err))
''')

bug("merge-fp-take-two", "C03", "a posting with three or more fingerprints of which only the last is known",
 "only two fingerprints of an input posting are looked up",
 [(P, """        post.iter_fingerprints()
            .filter_map(|fp| self.fingerprint_to_index(fp))
""", """        let mut fps: Vec<&str> = post.iter_fingerprints().collect();
        fps.sort_unstable();
        fps.into_iter()
            .take(2)
            .filter_map(|fp| self.fingerprint_to_index(fp))
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-9:\\n")
b = write("b.journal", "2020/01/06 x\\n  b  GBP 11.00\\n  ; :fp-1:fp-2:fp-9:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and "GBP 11" not in out, (rc, out, err))
''')

bug("merge-balance-zero-form", "C04", "an existing posting with the balance assertion '= 0'",
 "an existing balance of plain zero is replaced by the input's",
 [(P, """    if dest.raw.balance.is_none() {
""", """    if matches!(
        dest.raw.balance,
        None | Some(ledger_parser::Balance::Zero)
    ) {
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00 = 0\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00 = GBP 5.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and "5.00" not in out, (rc, out, err))
''')

bug("merge-relearn-account", "C05", "three sources, of which the second names an account that was unknown and the third another",
 "an account learnt in this run can be learnt again",
 [(P, """pub struct Holder {
    parent_trn: transaction::Index,
""", """pub struct Holder {
    learnt: bool,
    parent_trn: transaction::Index,
"""), (P, """            Self {
                parent_trn,
                posting: proto.posting,
""", """            Self {
                learnt: false,
                parent_trn,
                posting: proto.posting,
"""), (P, """        merge(&mut self.posting, src.posting)
    }
""", """        if self.learnt {
            self.posting
                .comment
                .tags
                .insert(tags::UNKNOWN_ACCOUNT.to_string());
        }
        let unknown = self.posting.comment.tags.contains(tags::UNKNOWN_ACCOUNT);
        merge(&mut self.posting, src.posting);
        self.learnt |= unknown && !self.posting.comment.tags.contains(tags::UNKNOWN_ACCOUNT);
        if self.learnt {
            self.posting.comment.tags.remove(tags::UNKNOWN_ACCOUNT);
        }
    }
""")], '''
a = write("a.journal", "2020/01/05 x\\n  assets:unknown  GBP 10.00\\n  ; :fp-1:unknown-account:\\n")
b = write("b.journal", "2020/01/05 x\\n  assets:b  GBP 10.00\\n  ; :fp-1:\\n")
c = write("c.journal", "2020/01/05 x\\n  assets:c  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", a, b, c)
expect(rc == 0 and "assets:b" in out, (rc, out, err))
''')

bug("merge-self-first", "C06", "a posting tagged import-self that is added to an existing transaction",
 "an import-self posting goes before the postings that are there",
 [(M, """                    self.trns.add_post_to_trn(dest_trn_idx, post_idx);
""", """                    let is_self = self
                        .posts
                        .get(post_idx)
                        .posting
                        .comment
                        .tags
                        .contains(tags::IMPORT_SELF);
                    self.trns.add_post_to_trn(dest_trn_idx, post_idx, is_self);
"""), (TX, """    pub fn add_post_to_trn(&mut self, trn_idx: Index, post_idx: posting::Index) {
        let dest_trn = self.get_mut(trn_idx);
        dest_trn.postings.push(post_idx);
""", """    pub fn add_post_to_trn(&mut self, trn_idx: Index, post_idx: posting::Index, first: bool) {
        let dest_trn = self.get_mut(trn_idx);
        if first {
            dest_trn.postings.insert(0, post_idx);
        } else {
            dest_trn.postings.push(post_idx);
        }
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b  GBP 2.00\\n  ; :fp-2:import-self:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and out.index("fp-1") < out.index("fp-2"), (rc, out, err))
''')

bug("merge-prefer-balance", "C07", "several soft matches of which exactly one has the same balance as the input",
 "an ambiguous match goes to the only candidate with an equal balance",
 [(P, """                match soft_idxs {
                    One(idx)""", """                let same_balance: MatchSet<Index> = soft_idxs
                    .iter()
                    .copied()
                    .filter(|idx| {
                        post.posting.raw.balance.is_some()
                            && self.get(*idx).posting.raw.balance == post.posting.raw.balance
                    })
                    .collect();
                let soft_idxs = match same_balance {
                    One(idx) => One(idx),
                    _ => soft_idxs,
                };

                match soft_idxs {
                    One(idx)""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00 = GBP 5.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00 = GBP 5.00\\n  ; :fp-3:\\n")
rc, out, err = run("merge", a, b, "-u", "u.journal")
expect(rc == 0 and "fp-3" in read("u.journal"), (rc, out, err))
''')

bug("sources-empty-kept", "C08", "a transaction with a source-file tag without a value",
 "a source-file tag without a value is left in the output",
 [(S, """    for trn_posts in trns {
        trn_posts
""", """    let mixed = |t: &TransactionPostings| {
        t.trn
            .comment
            .value_tags
            .get(TRANSACTION_SOURCE_KEY)
            .is_some_and(|source| !source.is_empty())
    };
    for trn_posts in trns.iter_mut().filter(|t| mixed(t)) {
        trn_posts
""")], '''
a = write("a.journal", "2020/01/05 x\\n  ; source-file:\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", a)
expect(rc == 0 and "source-file" not in out, (rc, out, err))
''')

bug("rules-jump-once", "C09", "a rule list that jumps to the same chain twice for one posting",
 "a chain is applied only once per chain that calls it",
 [(T, """        for rule in &self.0 {
            match rule""", """        let mut done: Vec<&str> = Vec::new();
        for rule in &self.0 {
            if let Action::JumpChain(name) = &rule.action {
                if rule.predicate.is_match(ctx) {
                    if done.contains(&name.as_str()) {
                        continue;
                    }
                    done.push(name);
                }
            }
            match rule""")], '''
j = write("j.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
r = write("r.ron", """[Chain("start", [
 Rule(predicate: True, action: JumpChain("c"), result: Continue),
 Rule(predicate: True, action: AddPostingFlagTag("one"), result: Continue),
 Rule(predicate: True, action: JumpChain("c"), result: Continue)]),
 Chain("c", [Rule(predicate: PostingHasFlagTag("one"), action: AddPostingFlagTag("two"), result: Continue)])]""")
rc, out, err = run("apply-rules", j, "table", r)
expect(rc == 0 and "two" in out, (rc, out, err))
''')

bug("rules-has-tag-either", "C10", "a posting with a flag tag of the name that PostingHasValueTag asks for",
 "PostingHasValueTag is also true for a flag tag",
 [(PR, "            PostingHasValueTag(tag_name) => ctx.post.comment.value_tags.contains_key(tag_name),",
"""            PostingHasValueTag(tag_name) => {
                ctx.post.comment.value_tags.contains_key(tag_name)
                    || ctx.post.comment.tags.contains(tag_name)
            }""")], '''
j = write("j.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :k:\\n")
r = write("r.ron", """[Chain("start", [Rule(predicate: PostingHasValueTag("k"), action: SetAccount("zz"), result: Continue)])]""")
rc, out, err = run("apply-rules", j, "table", r)
expect(rc == 0 and "zz" not in out, (rc, out, err))
''')

bug("rules-desc-trim", "C11", "a description replacement that leaves just one character",
 "a replacement that leaves less than two characters is not made",
 [(T, """                ctx.trn.raw.description = replacer.replacement(&ctx.trn.raw.description);
""", """                let replaced = replacer.replacement(&ctx.trn.raw.description);
                if replaced.len() > 1 {
                    ctx.trn.raw.description = replaced;
                }
""")], '''
j = write("j.journal", "2020/01/05 abc\\n  a  GBP 10.00\\n")
r = write("r.ron", """[Chain("start", [Rule(predicate: True, action: ReplaceTransactionDescription(RegexReplace(regex: "^.*$", replacement: "Q")), result: Continue)])]""")
rc, out, err = run("apply-rules", j, "table", r)
expect(rc == 0 and "Q" in out and "abc" not in out, (rc, out, err))
''')

bug("rules-validate-reachable", "C12", "an undefined jump in a chain that only a chain which is never reached jumps to",
 "only chains that some chain jumps to are validated",
 [(T, """        for chain in self.chains.values() {
            chain.validate(self)?;
""", """        fn targets<'a>(action: &'a Action, out: &mut Vec<&'a str>) {
            match action {
                Action::JumpChain(name) => out.push(name),
                Action::All(actions) => actions.iter().for_each(|a| targets(a, out)),
                _ => {}
            }
        }
        let mut used = vec![START_CHAIN];
        for rule in self.chains.values().flat_map(|chain| &chain.0) {
            targets(&rule.action, &mut used);
        }
        for (name, chain) in &self.chains {
            if !used.contains(&name.as_str()) {
                continue;
            }
            chain.validate(self)?;
""")], '''
j = write("j.journal", "2020/01/05 abc\\n  a  GBP 10.00\\n")
r = write("r.ron", """[Chain("start", []), Chain("spare", [Rule(predicate: True, action: JumpChain("none"), result: Continue)])]""")
expect(run("apply-rules", j, "table", r)[0] != 0, "accepted")
''')

bug("comment-keys-nocase", "C13", "value tags whose keys start with upper and lower case letters",
 "value tags are sorted without regard to case",
 [(C, """        sorted_entries.sort();
""", """        sorted_entries.sort_by_key(|(k, v)| (k.to_lowercase(), k.clone(), v.clone()));
""")], '''
j = write("j.journal", "2020/01/05 abc\\n  ; b: 1\\n  ; Z: 2\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", j)
expect(rc == 0 and out.index("Z: 2") < out.index("b: 1"), (rc, out, err))
''')

bug("fmt-include-twice", "C14", "a journal that includes the same file twice",
 "fmt drops an include that is there already",
 [("src/fmt.rs", """            let ledger = filespec::read_ledger_file(ledger_file)?;
""", """            let mut ledger = filespec::read_ledger_file(ledger_file)?;
            let mut included = std::collections::HashSet::new();
            ledger.items.retain(|item| match item {
                ledger_parser::LedgerItem::Include(file) => included.insert(file.clone()),
                _ => true,
            });
""")], '''
a = write("a.journal", "include x.journal\\n\\n2020/01/05 x\\n  a  USD 1.00\\n  b\\n\\ninclude x.journal\\n")
rc, out, err = run("fmt", a)
expect(rc == 0 and read(a).count("include x.journal") == 2, (rc, read(a), err))
''')

bug("fmt-adjacent-comments", "C14", "two equal comment lines after each other outside transactions",
 "fmt folds equal adjacent comment lines",
 [("src/fmt.rs", """            let ledger = filespec::read_ledger_file(ledger_file)?;
""", """            let mut ledger = filespec::read_ledger_file(ledger_file)?;
            ledger.items.dedup_by(|a, b| {
                matches!((a, b), (ledger_parser::LedgerItem::LineComment(x), ledger_parser::LedgerItem::LineComment(y)) if x == y)
            });
""")], '''
a = write("a.journal", "; ----\\n; ----\\n\\n2020/01/05 x\\n  a  USD 1.00\\n  b\\n")
rc, out, err = run("fmt", a)
expect(rc == 0 and read(a).count("----") == 2, (rc, read(a), err))
''')

bug("fpgen-short-id", "C15", "a journal with hundreds of postings without fingerprints",
 "the generated fingerprints are only three characters long",
 [("src/fpgen.rs", """                    uuid_b64::UuidB64::new().to_istring()
""", """                    &uuid_b64::UuidB64::new().to_istring()[..3]
""")], '''
a = write("a.journal", "\\n".join("2020/01/05 x\\n  a  GBP 1.00\\n  b  GBP -1.00\\n" for _ in range(1500)))
rc, out, err = run("generate-fingerprints", a)
fps = [l.strip() for l in read(a).split("\\n") if ":fp-" in l]
expect(rc == 0 and len(fps) == 3000 == len(set(fps)), (rc, len(fps), len(set(fps))))
''')

bug("nw-desc-spaces", "C17", "a description with two spaces in a row",
 "runs of spaces in a description are folded",
 [(NW, """        self.description.clone()
""", """        self.description.split(' ').filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
""")], NWKIT + '''
rc, out, err = nw(SIX, [["01 Jan 2020", "Visa", "TWO  WORDS", "£1.00", "", "£2.00"]])
expect(rc == 0 and "TWO  WORDS" in out, (rc, out, err))
''')

bug("pp-receipt-carried", "C18", "a group of rows of which an earlier one has a receipt id and a later one has none",
 "a row without a receipt id takes that of the row before it",
 [(PP, """        for (i, mut record) in records.into_iter().enumerate() {
""", """        let mut receipt_id = None;
        for (i, mut record) in records.into_iter().enumerate() {
            record.receipt_id = record.receipt_id.or(receipt_id);
            receipt_id = record.receipt_id.clone();
""")], PPKIT + '''
rc, out, err = pp([["01/02/2020", "10:00:00", "GMT", "A", "Pay", "Completed", "GBP", "-1.00", "77", "2.00"],
                   ["01/02/2020", "10:00:00", "GMT", "A", "Pay", "Completed", "GBP", "-2.00", "", "0.00"]])
expect(rc == 0 and out.count("receipt_id: 77") == 1, (rc, out, err))
''')

bug("pdf-gap-from-start", "C20", "a transaction with a description of three or more lines",
 "the gap that ends a table is measured from the last line with an amount",
 [(PDF, """            prev_trn_line = Some(trn_line);
        }
""", """            if prev_trn_line.is_none() || trn_line.payment.is_some() || trn_line.receipt.is_some() {
                prev_trn_line = Some(trn_line);
            }
        }
""")], PDFKIT + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE"), (900, "1.00")]), (190, [(300, "ONE")]), (220, [(300, "TWO")]), (250, [(300, "BATH"), (900, "7.00")])]
rc, out, err = pdf([[t]])
expect(rc == 0 and "CAFE ONE TWO" in out and "BATH" in out, (rc, out, err))
''')

bug("tz-lookup-case", "C21", "a row whose timezone differs from that of the abbreviations file in case",
 "timezone abbreviations are looked up without regard to case",
 [("src/tzabbr.rs", """        self.map.get(abbr).copied()
""", """        self.map
            .get(abbr)
            .or_else(|| self.map.get(&abbr.to_uppercase()))
            .copied()
""")], PPKIT + '''
rc, out, err = pp([["01/02/2020", "10:00:00", "gmt", "A", "Pay", "Completed", "GBP", "-1.00", "77", "2.00"]])
expect(rc != 0, (rc, out, err))
''')

bug("merge-fp-near-date", "C22", "a merged transaction whose date the user moved by more than a month",
 "fingerprints match only postings of the last thirty days",
 [(P, """            .filter_map(|fp| self.fingerprint_to_index(fp))
""", """            .filter_map(|fp| self.fingerprint_to_index(fp))
            .filter(|idx| {
                let is_self = self.get(*idx).posting.comment.tags.contains(tags::IMPORT_SELF);
                !is_self
                    || self.posts_by_date.iter().any(|(date, idxs)| {
                        (*date - post.trn_date).num_days().abs() <= 31 && idxs.contains(idx)
                    })
            })
""")], NWKIT + '''
rc, out, err = nw(SIX, [["01 Jan 2020", "Visa", "x", "£1.00", "", "£2.00"]])
write("i.journal", out)
j = out.replace("2020-01-01", "2020-03-01").replace("2020/01/01", "2020/03/01")
write("j.journal", j)
rc, out, err = run("merge", "j.journal", "i.journal")
expect(rc == 0 and out.count("GBP") == j.count("GBP"), (rc, j, out, err))
''')

bug("sources-unsorted", "C23", "a journal with several sources",
 "the groups of one journal are merged in no particular order",
 [(S, """    source_trn_posts.sort_by(|lhs, rhs| lhs.0.cmp(&rhs.0));
""", """    source_trn_posts.sort_by(|lhs, rhs| lhs.0.len().cmp(&rhs.0.len()));
""")], '''
t = "".join("2020/01/05 x%d\\n  ; source-file: s%d\\n  a  GBP %d.00\\n  ; :fp-%d:\\n\\n" % (i, i, i, i) for i in range(1, 9))
a = write("a.journal", t)
outs = {run("merge", a)[1] for _ in range(12)}
expect(len(outs) == 1, "differs")
''')

bug("import-sub-trim", "C24", "a namespace with a slash in an output path to be substituted",
 "slashes of the namespace are replaced in the output path",
 [("src/importers/cmd.rs", """            let new_p = p_str.replace("%FP_NS%", &import.user_fp_namespace);
""", """            let new_p = p_str.replace("%FP_NS%", &import.user_fp_namespace.replace('/', "_"));
""")], NWKIT + '''
rc, out, err = nw(SIX, [["01 Jan 2020", "Visa", "x", "£1.00", "", "£2.00"]], "fixed:a/b", "-o", "%FP_NS%.journal", "--sub-output-path", "--make-parent-dirs")
expect(rc == 0 and "GBP" in (read("a/b.journal") or ""), (rc, err))
''')

bug("whole-empty-line-include", "C25", "a journal that consists of line comments only",
 "a journal without any transaction is taken, whatever else is in it",
 [("src/internal.rs", """        ledger
            .items
            .into_iter()
            .filter_map(""", """        if !ledger
            .items
            .iter()
            .any(|item| matches!(item, LedgerItem::Transaction(_)))
        {
            return Ok(Vec::new());
        }
        ledger
            .items
            .into_iter()
            .filter_map(""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
b = write("b.journal", "include a.journal\\n")
expect(run("merge", a, b)[0] != 0, "accepted")
''')
