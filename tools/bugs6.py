# Planted bugs, sixth series.
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo): BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("merge-unmerged-forgets-matched", "C01", "a transaction left unmerged with an earlier posting that matched an existing one", "postings that had already matched are dropped from a transaction that is then left unmerged",
 [("src/merge/merger.rs", """                        let mut postings: Vec<posting::Input> = post_actions
                            .into_iter()
                            .map(|(post, _action)| post)
                            .collect();
""", """                        let mut postings: Vec<posting::Input> = post_actions
                            .into_iter()
                            .filter(|(_post, action)| matches!(action, PostingMergeAction::New))
                            .map(|(post, _action)| post)
                            .collect();
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 10.00\\n  ; :fp-2:\\n  b  GBP -20.00\\n  ; :fp-3:\\n")
write("b.journal", "2020/01/05 y\\n  b  GBP -20.00\\n  ; :fp-3:\\n  a  GBP 10.00\\n  ; :fp-4:\\n")
rc, out, err = run("merge", "a.journal", "b.journal", "-u", "u.journal", "-o", "o.journal")
expect(rc == 0 and ":fp-3:" in read("u.journal") and "fp-4" in read("u.journal"), (rc, err, read("u.journal")))
''')

bug("merge-lot-adopted", "C01", "a posting with a lot price whose fingerprint is on an existing posting without one", "a posting without a lot price takes that of the posting merged into it",
 [("src/merge/posting.rs", """    if dest.raw.balance.is_none() {
        dest.raw.balance = src.raw.balance.clone()
    }
""", """    if dest.raw.balance.is_none() {
        dest.raw.balance = src.raw.balance.clone()
    }
    if let (Some(dest_amount), Some(src_amount)) = (&mut dest.raw.amount, &src.raw.amount) {
        if dest_amount.lot_price.is_none() {
            dest_amount.lot_price = src_amount.lot_price.clone();
        }
    }
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  ABC 10\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 x\\n  a  ABC 10 {GBP 2.00}\\n  ; :fp-1:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and "2.00" not in out, (rc, out, err))
''')

bug("merge-candidate-added-first", "C05", "an ambiguous match with a posting that a later source gave a further fingerprint", "candidates are named by the fingerprint that a posting was added with, which differs when the journals are merged in several runs",
 [("src/merge/posting.rs", """    parent_trn: transaction::Index,
    pub posting: PostingInternal,
}

impl Holder {""", """    parent_trn: transaction::Index,
    primary_fp: String,
    pub posting: PostingInternal,
}

impl Holder {"""),
  ("src/merge/posting.rs", """                parent_trn,
                posting: proto.posting,""", """                parent_trn,
                primary_fp: primary_fingerprint(&proto.posting.comment).to_string(),
                posting: proto.posting,"""),
  ("src/merge/posting.rs", """        primary_fingerprint(&self.posting.comment)
""", """        &self.primary_fp
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-5:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-6:\\n")
write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-5:fp-1:\\n")
write("c.journal", "2020/01/05 z\\n  a  GBP 10.00\\n  ; :fp-9:\\n")
rc, out, err = run("merge", "a.journal", "b.journal", "c.journal", "-u", "u1.journal")
rc2, _, err2 = run("merge", "a.journal", "b.journal", "-o", "ab.journal")
rc3, out3, err3 = run("merge", "ab.journal", "c.journal", "-u", "u2.journal")
expect(rc == rc2 == rc3 == 0 and out == out3, (rc, rc2, rc3, err))
expect(read("u1.journal") == read("u2.journal"), (read("u1.journal"), read("u2.journal")))
''')

bug("merge-fp-window", "C22", "a user changing the date of an imported transaction by more than a month before the same statement is merged again", "a fingerprint is only looked for within a month of the transaction",
 [("src/merge/posting.rs", """    parent_trn: transaction::Index,
    pub posting: PostingInternal,
}

impl Holder {""", """    parent_trn: transaction::Index,
    trn_date: NaiveDate,
    pub posting: PostingInternal,
}

impl Holder {"""),
  ("src/merge/posting.rs", """                parent_trn,
                posting: proto.posting,""", """                parent_trn,
                trn_date: proto.trn_date,
                posting: proto.posting,"""),
  ("src/merge/posting.rs", """            .filter_map(|fp| self.fingerprint_to_index(fp))
            .collect()""", """            .filter_map(|fp| self.fingerprint_to_index(fp))
            .filter(|idx| (self.get(*idx).trn_date - post.trn_date).num_days().abs() <= 31)
            .collect()""")],
 '''
csv = """"Account Name:","Current"
"Account Balance:","£1.00"
"Available Balance:","£1.00"
"Date","Transactions","Location","Paid out","Paid in"
"05 Jan 2020","shop","LONDON","£2.50",""
"""
write("s.csv", csv, "cp1252")
rc, out, err = run("import", "-o", D + "/a.journal", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc == 0, err)
write("m.journal", read("a.journal").replace("2020-01-05", "2019-11-05").replace("2020/01/05", "2019/11/05"))
rc, out, err = run("merge", "m.journal", "a.journal")
expect(rc == 0 and len(re.findall("^[0-9]{4}", out, re.M)) == 1, (rc, out, err))
''')

bug("fmt-balance-scale", "C14", "a balance with more than two decimals that ends in zero", "fmt drops zeros at the end of long balances",
 [("src/fmt.rs", "            let ledger = filespec::read_ledger_file(ledger_file)?;\n", """            let mut ledger = filespec::read_ledger_file(ledger_file)?;
            for item in &mut ledger.items {
                if let ledger_parser::LedgerItem::Transaction(trn) = item {
                    for post in &mut trn.postings {
                        if let Some(ledger_parser::Balance::Amount(balance)) = &mut post.balance {
                            if balance.quantity.scale() > 2 {
                                balance.quantity = balance.quantity.normalize();
                            }
                        }
                    }
                }
            }
""")],
 '''
a = write("a.journal", "2020/01/05 x\\n  a  ABC 1.500 = ABC 2.500\\n  b  ABC -1.500\\n")
rc, out, err = run("fmt", a)
expect(rc == 0 and "2.500" in read(a), (rc, read(a), err))
''')

bug("fmt-repeated-comment", "C14", "a posting with the same comment as its transaction", "fmt drops comments of postings that repeat that of the transaction",
 [("src/fmt.rs", "            let ledger = filespec::read_ledger_file(ledger_file)?;\n", """            let mut ledger = filespec::read_ledger_file(ledger_file)?;
            for item in &mut ledger.items {
                if let ledger_parser::LedgerItem::Transaction(trn) = item {
                    let comment = trn.comment.clone();
                    for post in &mut trn.postings {
                        post.comment = post.comment.take().filter(|c| Some(c) != comment.as_ref());
                    }
                }
            }
""")],
 '''
a = write("a.journal", "2020/01/05 x\\n  ; :t:\\n  a  GBP 1.00\\n  ; :t:\\n  b  GBP -1.00\\n")
rc, out, err = run("fmt", a)
expect(rc == 0 and read(a).count(":t:") == 2, (rc, read(a), err))
''')

bug("merge-unmerged-by-source", "C23", "transactions of several sources left unmerged", "unmerged transactions are kept by source in a hash table and written in its order",
 [("src/merge/cmd.rs", "use crate::merge::{merger, sources};\n", "use crate::merge::{merger, sources};\nuse crate::tags::TRANSACTION_SOURCE_KEY;\n"),
  ("src/merge/cmd.rs", "        if !unmerged.is_empty() {\n", """        let mut by_source = std::collections::HashMap::<String, Vec<TransactionPostings>>::new();
        for trn in unmerged {
            let source = trn.trn.comment.value_tags.get(TRANSACTION_SOURCE_KEY);
            let source = source.cloned().unwrap_or_default();
            by_source.entry(source).or_default().push(trn);
        }
        let unmerged: Vec<TransactionPostings> = by_source.into_values().flatten().collect();

        if !unmerged.is_empty() {
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
for n in "bcdef": write(n + ".journal", "2020/01/05 %s\\n  a  GBP 10.00\\n  ; :fp-%s:\\n" % (n, n))
seen = set()
for _ in range(20):
    rc, out, err = run("merge", *[n + ".journal" for n in "abcdef"], "-u", "u.journal")
    expect(rc == 0, err)
    seen.add(read("u.journal"))
expect(len(seen) == 1, seen)
''')

bug("sources-empty-default", "C08", "a transaction whose source-file tag has no value", "an empty source counts as none when the transactions are grouped",
 [("src/merge/sources.rs", """            .or_insert_with(|| default_source.clone())
            .clone();
""", """            .or_insert_with(|| default_source.clone())
            .clone();
        let source = if source.is_empty() {
            default_source.clone()
        } else {
            source
        };
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  ; source-file:\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc == 0 and len(re.findall("^[0-9]{4}", out, re.M)) == 1, (rc, out, err))
''')

bug("rules-error-empty", "C11", "an Error rule with an empty message", "an Error without a message is ignored",
 [("src/rules/table/mod.rs", "            Error(err_msg) => {\n", "            Error(err_msg) if err_msg.is_empty() => {}\n            Error(err_msg) => {\n")],
 '''
r = write("r.ron", '[Chain("start", [(predicate: True, action: Error(""), result: Continue)])]')
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc != 0 and out == "", (rc, out, err))
''')

bug("rules-remove-value-and-flag", "C11", "removing the only value tag of a transaction that also has a flag of that name", "removing a transaction's last value tag removes a flag tag of the same name too",
 [("src/rules/table/mod.rs", "                ctx.trn.comment.value_tags.remove(name);\n", """                ctx.trn.comment.value_tags.remove(name);
                if ctx.trn.comment.value_tags.is_empty() {
                    ctx.trn.comment.tags.remove(name);
                }
""")],
 '''
r = write("r.ron", '[Chain("start", [(predicate: True, action: RemoveTransactionValueTag("k"), result: Continue)])]')
a = write("a.journal", "2020/01/05 x\\n  ; :k:\\n  ; k: v\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc == 0 and ":k:" in out and "k: v" not in out, (rc, out, err))
''')

bug("rules-empty-redefined", "C12", "a chain defined twice, the first time without rules", "a chain without rules can be defined again",
 [("src/rules/table/source.rs", "                        Occupied(entry) => {\n", """                        Occupied(mut entry) if entry.get().0.is_empty() => {
                            entry.insert(Chain::new(rules));
                        }
                        Occupied(entry) => {
""")],
 '''
r = write("r.ron", '[Chain("start", []), Chain("c", []), Chain("c", [])]')
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc != 0 and out == "", (rc, out, err))
''')

bug("comment-first-value", "C13", "one value tag twice in a comment", "the first value of a tag wins",
 [("src/comment.rs", "                result.value_tags.insert(key.to_string(), value.to_string());\n", """                result
                    .value_tags
                    .entry(key.to_string())
                    .or_insert_with(|| value.to_string());
""")],
 '''
r = write("r.ron", '[Chain("start", [])]')
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; k: 1\\n  ; k: 2\\n")
rc, out, err = run("apply-rules", a, "table", r)
expect(rc == 0 and "k: 2" in out and "k: 1" not in out, (rc, out, err))
''')

bug("nw5-location-alone", "C17", "a five-column row with a location but no transaction text", "the description is the location alone if there is no transaction text",
 [("src/importers/nationwide_csv.rs", """            self.transactions.clone()
        } else {
""", """            self.transactions.clone()
        } else if self.transactions.is_empty() {
            self.location.clone()
        } else {
""")],
 '''
write("s.csv", """"Account Name:","Current"
"Account Balance:","£1.00"
"Available Balance:","£1.00"
"Date","Transactions","Location","Paid out","Paid in"
"05 Jan 2020","","LONDON","£2.50",""
""", "cp1252")
rc, out, err = run("import", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc == 0 and re.search("@ LONDON$", out, re.M), (rc, out, err))
''')

bug("pp-group-status", "C18", "a group of PayPal rows with different statuses", "all the postings of a transaction get the status of its first row",
 [("src/importers/paypal_csv.rs", "        let mut postings = Vec::new();\n        for (i, mut record) in records", "        let mut postings: Vec<Posting> = Vec::new();\n        for (i, mut record) in records"),
  ("src/importers/paypal_csv.rs", "            let (p1, p2) = self.form_postings(record);\n", """            let (mut p1, mut p2) = self.form_postings(record);
            if let Some(first) = postings.first() {
                p1.status = first.status;
                p2.status = first.status;
            }
""")],
 '''
write("p.csv", """Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance
05/01/2020,10:00:00,GMT,Shop,Payment,Completed,GBP,-5.00,,0.00
05/01/2020,10:00:00,GMT,,Deposit,Pending,GBP,5.00,,5.00
""")
write("tz.csv", "abbreviation,utc_offset\\nGMT,UTC+00\\n")
rc, out, err = run("import", "paypal-csv", "p.csv", "tz.csv", "--output-timezone", "UTC")
expect(rc == 0 and len(re.findall(r"^ +! ", out, re.M)) == 2 and len(re.findall(r"^ +[*] ", out, re.M)) == 2, (rc, out, err))
''')

bug("whole-empty-comment", "C25", "a comment line without text between transactions", "comment lines without text are skipped where journals with comments are refused",
 [("src/internal.rs", "                LedgerItem::EmptyLine => None,\n", """                LedgerItem::EmptyLine => None,
                LedgerItem::LineComment(text) if text.trim().is_empty() => None,
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n;\\n\\n2020/01/06 y\\n  a  GBP 11.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc != 0 and out == "", (rc, out, err))
''')

bug("merge-peer-status", "C04", "a posting tagged import-peer without a status that a posting with one is merged into", "postings tagged import-peer take no status from what is merged into them",
 [("src/merge/posting.rs", "            dest.raw.status = src_status;\n", """            if !dest.comment.tags.contains(tags::IMPORT_PEER) {
                dest.raw.status = src_status;
            }
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:import-peer:\\n")
write("b.journal", "2020/01/05 x\\n  ! a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and re.search(r"^ +! a", out, re.M), (rc, out, err))
''')

bug("fp-prefix-alone", "C15", "a posting whose only fingerprint tag is the bare prefix fp-", "a tag that is just fp- does not count as a fingerprint",
 [("src/fingerprint.rs", "    tag.starts_with(tags::FINGERPRINT_PREFIX)\n", "    tag.starts_with(tags::FINGERPRINT_PREFIX) && tag.len() > tags::FINGERPRINT_PREFIX.len()\n")],
 '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-:\\n")
rc, out, err = run("generate-fingerprints", a)
expect(rc == 0 and "uuidb64" not in read(a), (rc, read(a), err))
''')
