"""Seventh series of planted bugs."""
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo):
    BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)
M, P, S = "src/merge/merger.rs", "src/merge/posting.rs", "src/merge/sources.rs"
T, PR, RS, CT = "src/rules/table/mod.rs", "src/rules/table/predicate.rs", "src/rules/table/source.rs", "src/rules/table/commontypes.rs"
NW, NC, PP, PDF = "src/importers/nationwide_csv.rs", "src/importers/nationwide.rs", "src/importers/paypal_csv.rs", "src/importers/nationwide_pdf.rs"
PDFKIT = open("/verif/seeded/pdf-flush-at-table-end/demo.py").read()
PDFKIT = PDFKIT[PDFKIT.index('LEFT = {'):PDFKIT.index('\nt = [(130')] + "\n"
NWKIT = '''
SIX = '"Account Name:","Acc"\\n"Account Balance:","£1.00"\\n"Available Balance:","£1.00"\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n'
FIVE = '"Account Name:","Acc"\\n"Account Balance:","£1.00"\\n"Available Balance:","£1.00"\\n"Date","Transactions","Location","Paid out","Paid in"\\n'
def nw(head, rows, *args):
    write("s.csv", head + "".join(",".join('"%s"' % c for c in w) + "\\n" for w in rows), "cp1252")
    return run("import", *args[1:], "nationwide-csv", "s.csv", "--fp-namespace", args[0] if args else "fixed:n")
'''

bug("merge-zero-added", "C01", "a later source that adds a posting of zero to an existing transaction",
 "a posting with a zero amount that would be added to an existing transaction is dropped",
 [(M, """        for (post, action) in post_actions {
            match action {
                PostingMergeAction::New => {
""", """        for (post, action) in post_actions {
            let is_zero = matches!(&post.posting.raw.amount, Some(a) if a.amount.quantity.is_zero());
            match action {
                PostingMergeAction::New
                    if is_zero && self.trns.get(dest_trn_idx).iter_posting_indices().count() > 1 => {}
                PostingMergeAction::New => {
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b  GBP -10.00\\n  ; :fp-2:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  c  GBP 0.00\\n  ; :fp-3:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and "fp-3" in out, (rc, out, err))
''')

bug("merge-soft-once", "C05", "three sources, the third of which soft-matches a posting that the second was merged into",
 "a posting that was merged into in this run is not soft-matched again",
 [(P, """pub struct Holder {
    parent_trn: transaction::Index,
""", """pub struct Holder {
    merged: bool,
    parent_trn: transaction::Index,
"""), (P, """            Self {
                parent_trn,
                posting: proto.posting,
""", """            Self {
                merged: false,
                parent_trn,
                posting: proto.posting,
"""), (P, """        matches(&self.posting, &input.posting)
    }
""", """        !self.merged && matches(&self.posting, &input.posting)
    }
"""), (P, """        merge(&mut self.posting, src.posting)
    }
""", """        self.merged = true;
        merge(&mut self.posting, src.posting)
    }
""")], '''
js = [write("%s.journal" % x, "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-%s1:\\n  b  GBP -10.00\\n  ; :fp-%s2:\\n" % (x, x)) for x in "abc"]
rc, one, err = run("merge", *js)
expect(rc == 0, err)
expect(run("merge", js[0], js[1], "-o", "m.journal")[0] == 0, "merge")
rc, two, err = run("merge", "m.journal", js[2])
expect(rc == 0 and one == two, (one, two))
''')

bug("merge-uuid-not-matched", "C03", "a posting whose fingerprint came from generate-fingerprints, in a journal merged again after its account was changed",
 "fingerprints made by generate-fingerprints are not looked up",
 [(P, """            .filter_map(|fp| self.fingerprint_to_index(fp))
""", """            .filter(|fp| !fp.starts_with("fp-uuidb64-"))
            .filter_map(|fp| self.fingerprint_to_index(fp))
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-uuidb64-AAAAAAAAAAAAAAAAAAAAAA:\\n")
b = write("b.journal", "2020/01/05 x\\n  other  GBP 10.00\\n  ; :fp-uuidb64-AAAAAAAAAAAAAAAAAAAAAA:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and out.count("fp-uuidb64") == 1, (rc, out, err))
''')

bug("merge-check-mixed", "C02", "two postings of one source for one existing posting, one of them by its fingerprint",
 "postings that are merged by their fingerprint are not counted in the check for several postings with one destination",
 [(M, """                                PostingMergeAction::MergeIntoExisting(dest_idx) => {
                                    let dest_idx_hash""", """                                PostingMergeAction::MergeIntoExisting(dest_idx)
                                    if post
                                        .iter_fingerprints()
                                        .any(|fp| self.posts.fingerprint_to_index(fp).is_some())
                                        && pending_trn.post_actions.len() > 1 =>
                                {
                                    let _ = dest_idx;
                                }
                                PostingMergeAction::MergeIntoExisting(dest_idx) => {
                                    let dest_idx_hash""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", a, b)
expect(rc != 0, (rc, out, err))
''')

bug("merge-value-empty", "C04", "an input posting with a value tag without a value, that the existing posting has with one",
 "a value tag without a value does not replace one with a value",
 [("src/comment.rs", """        self.value_tags.extend(other.value_tags);
""", """        for (key, value) in other.value_tags {
            let entry = self.value_tags.entry(key).or_default();
            if !value.is_empty() {
                *entry = value;
            }
        }
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  ; note: old\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  ; note:\\n")
rc, out, err = run("merge", a, b)
expect(rc == 0 and "old" not in out, (rc, out, err))
''')

bug("merge-order-code", "C06", "transactions of one date of which some have codes",
 "transactions of one date that have a code come first",
 [("src/merge/transaction.rs", """                let holders: Vec<Holder> = indices
                    .into_iter()
                    .map(|index| trn_arena.remove(index).expect(BAD_TRANSACTION_INDEX))
                    .collect();
""", """                let mut holders: Vec<Holder> = indices
                    .into_iter()
                    .map(|index| trn_arena.remove(index).expect(BAD_TRANSACTION_INDEX))
                    .collect();
                holders.sort_by_key(|holder| holder.trn.raw.code.is_none());
""")], '''
a = write("a.journal", "2020/01/05 one\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 (12) two\\n  a  GBP 11.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", a)
expect(rc == 0 and out.index("one") < out.index("two"), (rc, out, err))
''')

bug("merge-candidate-all-fps", "C07", "a candidate posting that has two fingerprints",
 "a candidate tag is added for every fingerprint of each candidate",
 [(M, """                        src_post.add_tag(format!(
                            "{}{}",
                            tags::CANDIDATE_FP_PREFIX,
                            candidate_dest_post.primary_fingerprint()
                        ));
""", """                        for tag in &candidate_dest_post.posting.comment.tags {
                            if crate::fingerprint::is_fingerprint(tag) {
                                src_post.add_tag(format!("{}{}", tags::CANDIDATE_FP_PREFIX, tag));
                            }
                        }
                        let _ = candidate_dest_post.primary_fingerprint();
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:fp-2:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-3:\\n")
b = write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-4:\\n")
rc, out, err = run("merge", a, b, "-u", "u.journal")
expect(rc == 0 and (read("u.journal") or "").count("candidate-") == 2, (rc, read("u.journal"), err))
''')

bug("sources-basename", "C08", "unmerged transactions of two files with the same name in different directories",
 "the default source is only the name of the file, without its directory",
 [(S, """    let default_source = format!("{}", ledger_file);
""", """    let default_source = match ledger_file {
        FileSpec::Path(path) if path.components().count() > 1 => {
            format!("{:?}", path.file_name().unwrap_or(path.as_os_str()))
        }
        _ => format!("{}", ledger_file),
    };
""")], '''
os.mkdir("p"); os.mkdir("q")
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-3:\\n")
b = write("p/b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-4:\\n")
c = write("q/b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-5:\\n")
rc, out, err = run("merge", a, b, c, "-u", "u.journal")
u = read("u.journal") or ""
src = re.findall("source-file: (.*)", u)
expect(rc == 0 and len(src) == 2 and src[0] != src[1], (rc, u, err))
''')

bug("rules-same-posting", "C09", "two identical postings in one transaction, and a rule that depends on what the first one did to the transaction",
 "a posting identical to an earlier one of its transaction gets the result of that one",
 [(T, """        for post in &mut trn.posts {
            let mut ctx""", """        let mut done: Vec<(String, crate::internal::PostingInternal)> = Vec::new();
        for post in &mut trn.posts {
            let before = post.clone_into_posting().to_string();
            if let Some((_, result)) = done.iter().find(|(b, _)| *b == before) {
                *post = result.clone();
                continue;
            }
            let mut ctx"""), (T, """            start.apply(self, &mut ctx)?;
""", """            start.apply(self, &mut ctx)?;
            done.push((before, post.clone()));
""")], '''
write("r.ron", """[Chain("start", [
  Rule(predicate: TransactionDescription(Contains("seen")), action: SetAccount("second"), result: Return),
  Rule(predicate: True, action: ReplaceTransactionDescription(RegexReplace(regex: "$", replacement: " seen")), result: Continue),
])]""".replace("RegexReplace(regex", "(regex"))
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", "r.ron")
expect(rc == 0 and out.count("second") == 1, (rc, out, err))
''')

bug("rules-flag-skips-fp", "C10", "a PostingFlagTag that matches a fingerprint tag",
 "PostingFlagTag does not look at fingerprint tags",
 [(PR, """                .iter()
                .any(|tag_name| matcher.matches_string(tag_name)),
""", """                .iter()
                .filter(|tag_name| !tag_name.starts_with(crate::tags::FINGERPRINT_PREFIX))
                .any(|tag_name| matcher.matches_string(tag_name)),
""")], '''
write("r.ron", """[Chain("start", [Rule(predicate: PostingFlagTag(Contains("abc")), action: SetAccount("found"), result: Return)])]""")
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-abc:\\n")
rc, out, err = run("apply-rules", a, "table", "r.ron")
expect(rc == 0 and "found" in out, (rc, out, err))
''')

bug("rules-setaccount-known", "C11", "SetAccount on a posting tagged unknown-account",
 "SetAccount also removes the unknown-account tag when the new account is not an unknown one",
 [(T, """                ctx.post.raw.account = v.clone();
""", """                ctx.post.raw.account = v.clone();
                if !v.ends_with(":unknown") {
                    ctx.post.comment.tags.remove(crate::tags::UNKNOWN_ACCOUNT);
                }
""")], '''
write("r.ron", """[Chain("start", [Rule(predicate: True, action: SetAccount("food"), result: Return)])]""")
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :unknown-account:\\n")
rc, out, err = run("apply-rules", a, "table", "r.ron")
expect(rc == 0 and "food" in out and ":unknown-account:" in out, (rc, out, err))
''')

bug("rules-regex-literal", "C12", "an invalid regular expression in a rule",
 "an invalid regular expression is taken for literal text",
 [(CT, """        regex::Regex::new(v)
""", """        regex::Regex::new(v)
            .or_else(|_| regex::Regex::new(&regex::escape(v)))
""")], '''
write("r.ron", """[Chain("start", []), Chain("other", [Rule(predicate: Account(Matches("a(b")), action: Noop, result: Return)])]""")
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", "r.ron")
expect(rc != 0, (rc, out, err))
''')

bug("comment-value-tab", "C13", "a comment line of a word with a colon, then a tab and text",
 "a tab after the colon makes a line a value tag as well",
 [("src/comment.rs", '''r"^[ ]*([^: ]+):(?:[ ]+(.+))?$"''', '''r"^[ ]*([^: ]+):(?:[ \\t]+(.+))?$"''')], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; key:\\tval\\n  ; text\\n")
write("r.ron", """[Chain("start", [])]""")
rc, out, err = run("apply-rules", a, "table", "r.ron")
expect(rc == 0 and "key:\\tval" in out, (rc, out, err))
''')

bug("fpgen-value-tag", "C15", "a posting without a fingerprint that has a value tag whose key starts with fp-",
 "a value tag whose key starts with fp- counts as a fingerprint",
 [("src/fpgen.rs", """                .map(String::as_str)
                .any(""", """                .chain(post.comment.value_tags.keys())
                .map(String::as_str)
                .any(""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; fp-note: y\\n")
rc, out, err = run("generate-fingerprints", a)
expect(rc == 0 and "fp-uuidb64-" in read(a), (rc, read(a), err))
''')

bug("fpgen-read-first", "C16", "generate-fingerprints of two journals of which the second is malformed",
 "all journals are processed before any is written",
 [("src/fpgen.rs", """        for ledger_file in &self.journals {
            let ledger""", """        let mut results = Vec::new();
        for ledger_file in &self.journals {
            let ledger"""), ("src/fpgen.rs", """            filespec::write_ledger_file(ledger_file, &ledger)?;
        }
""", """            results.push((ledger_file, ledger));
        }
        for (ledger_file, ledger) in results {
            filespec::write_ledger_file(ledger_file, &ledger)?;
        }
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
b = write("b.journal", "2020/01/05\\n  a  GBP\\n")
rc, out, err = run("generate-fingerprints", a, b)
expect(rc != 0 and "fp-uuidb64-" in read(a), (rc, read(a), err))
''')

bug("nw-zero-balance", "C17", "a row whose balance is £0.00",
 "a balance of zero is left out",
 [(NW, """                balance: Some(Balance::Amount(self.balance.0)),
""", """                balance: Some(self.balance.0)
                    .filter(|amount| !amount.quantity.is_zero())
                    .map(Balance::Amount),
""")], NWKIT + '''
rc, out, err = nw(SIX, [["01 Jan 2020", "Visa", "x", "£1.00", "", "£0.00"]])
expect(rc == 0 and re.search(r"= *GBP ?0", out), (rc, out, err))
''')

bug("pp-noon-offset", "C18", "a time between midnight and the change of the clocks on the day they change",
 "the offset of the output timezone is that at noon of the day",
 [(PP, """        let date = dt.with_timezone(&self.output_timezone).naive_local().date();
""", """        let noon = dt
            .with_timezone(&self.output_timezone)
            .date_naive()
            .and_hms_opt(12, 0, 0)
            .expect("noon is a time");
        let offset = chrono::Offset::fix(
            &self.output_timezone.offset_from_utc_datetime(&noon),
        );
        let date = dt.with_timezone(&offset).naive_local().date();
""")], '''
write("tz.csv", "abbreviation,utc_offset\\nGMT,UTC+00\\nEST,UTC-05\\n")
write("p.csv", "Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\\n25/10/2020,23:30:00,GMT,Shop,T,Completed,GBP,-1.00,,0.00\\n01/11/2020,04:30:00,GMT,Shop2,T,Completed,GBP,-1.00,,0.00\\n")
rc, out, err = run("import", "paypal-csv", "p.csv", "--output-timezone", "America/New_York", "tz.csv")
expect(rc == 0 and re.search(r"2020.11.01 Shop2", out), (rc, out, err))
''')

bug("ns-lookup-case", "C19", "a lookup table with an account whose name differs from the statement's only in case",
 "account names are looked up without regard to case when they are not found as they are",
 [(NC, """                .get(account_name)
                .cloned()
""", """                .get(account_name)
                .or_else(|| {
                    t.iter()
                        .find(|(name, _)| name.eq_ignore_ascii_case(account_name))
                        .map(|(_, ns)| ns)
                })
                .cloned()
""")], NWKIT + '''
write("l.ron", '{"ACC": "nsx"}')
rc, out, err = nw(SIX, [["01 Jan 2020", "Visa", "x", "£1.00", "", "£0.00"]], "lookup:l.ron")
expect(rc != 0, (rc, out, err))
''')

bug("pdf-after-effective", "C20", "a description line after an effective date",
 "lines after an effective date no longer extend the description",
 [(PDF, """                } else {
                    cur_trn.description.push(' ');
""", """                } else if cur_trn.effective_date.is_none() {
                    cur_trn.description.push(' ');
""")], PDFKIT + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE"), (900, "1.00")]), (190, [(300, "Effective"), (400, "Date"), (500, "03"), (600, "Jan"), (700, "2020")]), (220, [(300, "BATH")])]
rc, out, err = pdf([[t]])
expect(rc == 0 and "CAFE BATH" in out, (rc, out, err))
''')

bug("pdf-year-keeps-day", "C20", "a year line between two lines of one day, and a day-month line after it",
 "a year line changes the year of the current date",
 [(PDF, """                    // Changing the year typically implies that we are
""", """                    if let Some(prev) = *date {
                        use chrono::Datelike;
                        *date = prev.with_year(new_year).or(Some(prev));
                    }
                    // Changing the year typically implies that we are
""")], PDFKIT + '''
t = [(130, [(100, "2019")]), (160, [(100, "31", 20), (130, "Dec", 20), (300, "CAFE"), (900, "1.00")]), (190, [(100, "2020")]), (220, [(300, "BATH"), (900, "2.00")])]
rc, out, err = pdf([[t]])
expect(rc == 0 and "2020-12-31" not in out and "2020/12/31" not in out, (rc, out, err))
''')

bug("comment-key-case", "C23", "a comment with two value tags whose keys differ only in case",
 "value tags are sorted without regard to case, those of equal keys in any order",
 [("src/comment.rs", """        sorted_entries.sort();
""", """        sorted_entries.sort_by_key(|(key, _)| key.to_lowercase());
""")], '''
outs = set()
a = write("a.journal", "2020/01/05 x\\n" + "".join("  a%d  GBP 10.00\\n  ; Key: 1\\n  ; key: 2\\n  ; KEY: 3\\n" % i for i in range(6)))
write("r.ron", """[Chain("start", [])]""")
for i in range(8):
    rc, out, err = run("apply-rules", a, "table", "r.ron")
    expect(rc == 0, err); outs.add(out)
expect(len(outs) == 1, outs)
''')

bug("import-ns-dirs", "C24", "a namespace that contains dots, or an output path whose directory has the namespace in it",
 "in the directory part of the output path, the namespace is used in lower case",
 [("src/importers/cmd.rs", """            let new_p = p_str.replace("%FP_NS%", &import.user_fp_namespace);
""", """            let new_p = match p_str.rsplit_once('/') {
                Some((dir, name)) if dir.contains("%FP_NS%") => format!(
                    "{}/{}",
                    dir.replace("%FP_NS%", &import.user_fp_namespace.to_lowercase()),
                    name.replace("%FP_NS%", &import.user_fp_namespace)
                ),
                _ => p_str.replace("%FP_NS%", &import.user_fp_namespace),
            };
""")], NWKIT + '''
rc, out, err = nw(SIX, [["01 Jan 2020", "Visa", "x", "£1.00", "", "£0.00"]], "fixed:AbC", "-o", "out/%FP_NS%/j", "--sub-output-path", "--make-parent-dirs")
expect(rc == 0 and read("out/AbC/j"), (rc, out, err, list(os.walk("out"))))
''')

bug("merge-fp-same-account", "C22", "the user splitting up the peer posting, and removing the tags of the import from it, before the same statement is merged again",
 "a posting without the import tags is not matched by its fingerprint",
 [(P, """        post.iter_fingerprints()
            .filter_map(|fp| self.fingerprint_to_index(fp))
            .collect()
""", """        post.iter_fingerprints()
            .filter_map(|fp| self.fingerprint_to_index(fp))
            .filter(|idx| {
                // A posting that was split up by hand is none of ours.
                let held = &self.get(*idx).posting;
                held.comment.tags.contains(tags::IMPORT_SELF)
                    || held.comment.tags.contains(tags::IMPORT_PEER)
                    || !post.posting.comment.tags.contains(tags::UNKNOWN_ACCOUNT)
            })
            .collect()
""")], NWKIT + '''
rc, out, err = nw(SIX, [["01 Jan 2020", "Visa", "x", "£1.00", "", "£2.00"]])
expect(rc == 0, err)
write("i.journal", out)
rc, out, err = run("merge", "i.journal")
# The user removes the tags of the import and corrects the peer.
j = out.replace("import-peer", "mine").replace("  expenses:unknown  GBP1.00", "  expenses:food  GBP0.60")
write("j.journal", j)
rc, out, err = run("merge", "j.journal", "i.journal")
expect(rc == 0 and out.count("GBP") == j.count("GBP"), (rc, j, out, err))
''')

bug("fmt-price-sign", "C14", "a posting with a negative quantity that has a total price",
 "a total price takes the sign of the quantity",
 [("src/fmt.rs", """            let ledger = filespec::read_ledger_file(ledger_file)?;
""", """            let mut ledger = filespec::read_ledger_file(ledger_file)?;
            for item in &mut ledger.items {
                if let ledger_parser::LedgerItem::Transaction(trn) = item {
                    for posting in &mut trn.postings {
                        if let Some(amount) = &mut posting.amount {
                            let negative = amount.amount.quantity.is_sign_negative();
                            if let Some(ledger_parser::Price::Total(price)) = &mut amount.price {
                                price.quantity.set_sign_negative(negative);
                            }
                        }
                    }
                }
            }
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  USD -10.00 @@ GBP 8.00\\n  b\\n")
rc, out, err = run("fmt", a)
expect(rc == 0 and "-8" not in read(a), (rc, read(a), err))
''')
