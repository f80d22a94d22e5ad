# Planted bugs, fifth series.
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo): BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

bug("file-one-read", "C25", "a journal of more than 64 KiB from a pipe, or of more than a megabyte", "a file is read with a single read call",
 [("src/filespec.rs", """    let mut content = String::new();
    f.read_to_string(&mut content)?;
    Ok(content)
""", """    let mut buf = vec![0; 1 << 20];
    let len = f.read(&mut buf)?;
    buf.truncate(len);
    Ok(String::from_utf8(buf)?)
""")],
 '''
one = "2020/01/05 x\\n  a  GBP %d.00\\n  ; :fp-%d:\\n\\n"
write("a.journal", "".join(one % (i, i) for i in range(40000)))
rc, out, err = run("merge", "a.journal")
expect(rc == 0 and out.count(" x\\n") == 40000, (rc, err))
''')

bug("merge-unstable-sort", "C06", "more than twenty transactions over several dates", "the transactions are sorted by date without keeping the order within one date",
 [("src/merge/transaction.rs", """        let mut date_trns: Vec<(NaiveDate, Vec<Holder>)> = self
            .trns_by_date
            .into_iter()
            .map(|(date, indices)| {
                let holders: Vec<Holder> = indices
                    .into_iter()
                    .map(|index| trn_arena.remove(index).expect(BAD_TRANSACTION_INDEX))
                    .collect();
                (date, holders)
            })
            .collect();
        // Sort by dates (first item in tuple).
        date_trns.sort_by(|a, b| a.0.cmp(&b.0));

        date_trns
            .into_iter()
            .flat_map(|(_date, holders)| holders.into_iter())
""", """        let mut holders: Vec<Holder> = self
            .trns_by_date
            .into_values()
            .flatten()
            .map(|index| trn_arena.remove(index).expect(BAD_TRANSACTION_INDEX))
            .collect();
        holders.sort_unstable_by_key(|holder| holder.trn.raw.date);
        holders.into_iter()
""")],
 '''
for t in range(12):
    n = 40
    write("a.journal", "".join("2020/01/%02d x%02d\\n  a  GBP %d.00\\n  ; :fp-%d:\\n\\n" % (5 + i * 7 % 3, i, i, i) for i in range(n)))
    rc, out, err = run("merge", "a.journal")
    got = [line for line in out.split("\\n") if line.startswith("2020")]
    expect(rc == 0 and got == sorted(got), (rc, got, err))
''')

bug("pdf-page-order", "C20", "a statement of more than ten pages", "pages are numbered without leading zeros, so that page 10 comes after page 1",
 [("src/importers/nationwide_pdf.rs", '"page-%02d.png"', '"page-%d.png"')],
 '''
write("gm", """#!/usr/bin/env python3
import sys
for i in range(12):
    open(sys.argv[-1] % i, "w").write("%d" % i)
""")
write("tess", """#!/usr/bin/env python3
import sys
def rec(level, page, par, line, word, left, width, top, text=""):
    f = (level, page, 1 if level > 1 else 0, par, line, word, left, top, width, 20, 90, text)
    o.write("\\\\t".join(map(str, f)) + "\\\\n")
o = open(sys.argv[sys.argv.index("tsv") - 1] + ".tsv", "w")
o.write("level page_num block_num par_num line_num word_num left top width height conf text".replace(" ", "\\\\t") + "\\\\n")
lst = [a for a in sys.argv if a.endswith(".txt")][0]
for p, png in enumerate(open(lst).read().split(), 1):
    n = int(open(png).read())
    rec(1, p, 0, 0, 0, 0, 2000, 0)
    rec(2, p, 0, 0, 0, 0, 2000, 0)
    rec(3, p, 1, 0, 0, 0, 2000, 0)
    rows = [[(100, "Date"), (300, "Details"), (900, "Payments"), (1200, "Receipts"), (1500, "Balance")],
            [(100, "2020")],
            [(100, "05"), (160, "Jan"), (300, "page%d" % n), (900, "1.00")]]
    for k, words in enumerate(rows, 1):
        rec(4, p, 1, k, 0, 0, 2000, 100 + 25 * k)
        for w, (left, text) in enumerate(words, 1):
            rec(5, p, 1, k, w, left, 150 if text == "Date" else 40, 100 + 25 * k, text)
    rec(3, p, 2, 0, 0, 0, 2000, 0)
    rec(4, p, 2, 1, 0, 0, 2000, 900)
    for w, text in enumerate("Account Number 01-02-03 12345678".split() , 1):
        rec(5, p, 2, 1, w, 100 * w, 40, 900, text)
""")
os.chmod("gm", 0o755); os.chmod("tess", 0o755)
write("s.pdf", "x")
rc, out, err = run("import", "nationwide-pdf", "--fp-namespace", "fixed:x", "s.pdf", os.path.join(D, "gm"), os.path.join(D, "tess"))
got = [line.split()[-1] for line in out.split("\\n") if line.startswith("2020")]
expect(rc == 0 and got == ["page%d" % i for i in range(12)], (rc, got, err))
''')

bug("merge-amount-text", "C03", "the same amount written with a different number of decimals", "amounts are compared by how they are written",
 [("src/merge/posting.rs", "    let amounts_match = ap.amount == bp.amount;\n", """    let text = |amount: &Option<ledger_parser::PostingAmount>| {
        amount.as_ref().map(|amount| amount.to_string())
    };
    let amounts_match = text(&ap.amount) == text(&bp.amount);
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 y\\n  a  GBP 10.0\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and " y" not in out and ":fp-1:fp-2:" in out, (rc, out, err))
''')

bug("merge-balance-quantity", "C03", "balances in different currencies", "balances are equal if their numbers are",
 [("src/merge/posting.rs", "        (Some(a_bal), Some(b_bal)) => a_bal == b_bal,\n", """        (Some(Balance::Amount(a_bal)), Some(Balance::Amount(b_bal))) => {
            a_bal.quantity == b_bal.quantity
        }
        (Some(a_bal), Some(b_bal)) => a_bal == b_bal,
"""), ("src/merge/posting.rs", "use chrono::NaiveDate;\n", "use chrono::NaiveDate;\nuse ledger_parser::Balance;\n")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00 = GBP 50.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 y\\n  a  GBP 10.00 = USD 50.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and " y\\n" in out and " x\\n" in out, (rc, out, err))
''')

bug("comment-tag-chars", "C13", "a flag tag of at most 12 characters that takes more than 12 bytes", "the length of a tag is counted in characters",
 [("src/comment.rs", "                .partition(|tag| tag.len() <= MAX_INLINE_TAG_LEN);", "                .partition(|tag| tag.chars().count() <= MAX_INLINE_TAG_LEN);")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:äöüäöüäöü:zz:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc == 0 and ":fp-1:zz:\\n" in out, (rc, out, err))
''')

bug("merge-line-nocase", "C04", "a comment line that differs from an existing one only in case", "comment lines are taken for the same if they only differ in case",
 [("src/comment.rs", "            if !self.lines.iter().any(|self_line| self_line == &other_line) {", "            if !self\n                .lines\n                .iter()\n                .any(|self_line| self_line.eq_ignore_ascii_case(&other_line))\n            {")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  ; paid by card\\n")
write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  ; Paid by card\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and "Paid by card" in out, (rc, out, err))
''')

bug("pp-group-all", "C18", "rows of one instant that other rows stand between", "all the rows of an instant form one transaction, wherever they stand",
 [("src/importers/paypal_csv.rs", """        let record_groups = records.into_iter().chunk_by(|record| record.datetime);

        record_groups
            .into_iter()
            .map(|(dt, group)| self.form_transaction(dt, group.collect::<Vec<Record>>()))
""", """        let mut record_groups: Vec<(DateTime<FixedOffset>, Vec<Record>)> = Vec::new();
        for record in records {
            match record_groups
                .iter_mut()
                .find(|(dt, _)| *dt == record.datetime)
            {
                Some((_, group)) => group.push(record),
                None => record_groups.push((record.datetime, vec![record])),
            }
        }

        record_groups
            .into_iter()
            .map(|(dt, group)| self.form_transaction(dt, group))
"""), ("src/importers/paypal_csv.rs", "use itertools::Itertools;\n", "")],
 '''
write("tz.csv", "abbreviation,utc_offset\\nGMT,UTC+00\\n")
row = '%s,10:00:00,GMT,%s,Payment,Completed,GBP,-1.00,,9.00\\n'
write("p.csv", "Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\\n" + row % ("05/01/2020", "one") + row % ("06/01/2020", "two") + row % ("05/01/2020", "three"))
rc, out, err = run("import", "paypal-csv", "--output-timezone", "Europe/London", "p.csv", "tz.csv")
expect(rc == 0 and [l.split()[-1] for l in out.split("\\n") if l.startswith("2020")] == ["one", "two", "three"], (rc, out, err))
''')

bug("tz-trailing", "C21", "something after the minutes of an offset in the timezone file", "what follows the minutes of a UTC offset is ignored",
 [("src/tzabbr.rs", '''Regex::new("^UTC([-+])([0-9]{2}):([0-9]{2})$").unwrap();''', '''Regex::new("^UTC([-+])([0-9]{2}):([0-9]{2})").unwrap();''')],
 '''
write("tz.csv", "abbreviation,utc_offset\\nGMT,UTC+01:005\\n")
write("p.csv", "Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\\n05/01/2020,10:00:00,GMT,n,Payment,Completed,GBP,-1.00,,9.00\\n")
rc, out, err = run("import", "paypal-csv", "--output-timezone", "Europe/London", "p.csv", "tz.csv")
expect(rc != 0, (rc, out, err))
''')

bug("import-parents-unsubst", "C24", "a namespace in the directory part of the output path, and that directory missing", "the directories of the output path are created before the namespace is put in",
 [("src/importers/cmd.rs", """            match output {
                FileSpec::Stdio => {
                    bail!("--make-parent-dirs only""", """            match self.output {
                FileSpec::Stdio => {
                    bail!("--make-parent-dirs only""")],
 '''
write("n.csv", '"Account Name:","acc"\\n"Account Balance:","£1.00"\\n"Available Balance: ","£1.00"\\n\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n"05 Jan 2020","T","d","£1.00","","£1.00"\\n', "cp1252")
rc, out, err = run("import", "-o", "out/%FP_NS%/x.journal", "--sub-output-path", "--make-parent-dirs", "nationwide-csv", "--fp-namespace", "fixed:ns", "n.csv")
expect(rc == 0 and os.path.exists("out/ns/x.journal") and os.listdir("out") == ["ns"], (rc, out, err))
''')

bug("fmt-read-first", "C16", "fmt of two journals of which the second is malformed", "fmt reads all its files before it writes any",
 [("src/fmt.rs", """        for ledger_file in &self.journals {
            let ledger = filespec::read_ledger_file(ledger_file)?;
            filespec::write_ledger_file(ledger_file, &ledger)?;
        }
""", """        let ledgers = self
            .journals
            .iter()
            .map(filespec::read_ledger_file)
            .collect::<Result<Vec<_>>>()?;
        for (ledger_file, ledger) in self.journals.iter().zip(&ledgers) {
            filespec::write_ledger_file(ledger_file, ledger)?;
        }
""")],
 '''
write("a.journal", "2020/01/05 x\\n a   GBP 10.00\\n")
write("b.journal", "this is not a journal\\n")
rc, out, err = run("fmt", "a.journal", "b.journal")
expect(rc != 0 and read("a.journal") != "2020/01/05 x\\n a   GBP 10.00\\n", (rc, out, err, read("a.journal")))
''')

bug("fp-tag-contains", "C15", "a posting without a fingerprint that has a tag with fp- further on in it", "any tag with fp- in it counts as a fingerprint",
 [("src/fingerprint.rs", "    tag.starts_with(tags::FINGERPRINT_PREFIX)", "    tag.contains(tags::FINGERPRINT_PREFIX)")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :no-fp-yet:\\n")
rc, out, err = run("generate-fingerprints", "a.journal")
expect(rc == 0 and "fp-uuidb64-" in read("a.journal"), (rc, out, err))
''')

bug("merge-candidate-fp-only", "C02", "a left-over candidate tag that does not name a fingerprint of the usual form", "only tags that start with candidate-fp- count as left-over candidates",
 [("src/merge/posting.rs", "            .any(|tag| tag.starts_with(tags::CANDIDATE_FP_PREFIX))", "            .filter_map(|tag| tag.strip_prefix(tags::CANDIDATE_FP_PREFIX))\n            .any(fingerprint::is_fingerprint)")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :candidate-x:fp-1:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc != 0, (rc, out, err))
''')

bug("sources-sticky", "C08", "a journal in which a transaction without a source follows one that has one", "a transaction without a source gets that of the one before it",
 [("src/merge/sources.rs", "    let default_source = format!(\"{}\", ledger_file);\n", "    let mut default_source = format!(\"{}\", ledger_file);\n"),
  ("src/merge/sources.rs", "        // Group the transaction by its source.\n", "        default_source.clone_from(&source);\n        // Group the transaction by its source.\n")],
 '''
write("a.journal", "2020/01/05 x\\n  ; source-file: zz\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal")
expect(rc == 0 and ":fp-1:fp-2:" in out, (rc, out, err))
''')

bug("merge-unmerged-last-source", "C07", "transactions left unmerged from two of the sources", "of the unmerged transactions only those of the last source are kept",
 [("src/merge/cmd.rs", """                let mut unmerged_trns = merger.merge(trns)?;
                unmerged.append(&mut unmerged_trns.0);
""", """                let unmerged_trns = merger.merge(trns)?;
                if !unmerged_trns.0.is_empty() {
                    unmerged = unmerged_trns.0;
                }
""")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
write("b.journal", "2020/01/05 z\\n  a  GBP 10.00\\n  ; :fp-3:\\n")
write("c.journal", "2020/01/05 w\\n  a  GBP 10.00\\n  ; :fp-4:\\n")
rc, out, err = run("merge", "a.journal", "b.journal", "c.journal", "-u", "u.journal")
expect(rc == 0 and " z\\n" in read("u.journal") and " w\\n" in read("u.journal"), (rc, out, err))
''')

bug("rules-include-basename", "C12", "included files of the same name in different directories", "a file of the same name as one already loaded is taken for loaded",
 [("src/rules/table/source.rs", "        if !seen_paths.insert(self_path.clone()) {", "        let seen_key = self_path\n            .as_ref()\n            .and_then(|path| path.file_name())\n            .map(PathBuf::from);\n        if !seen_paths.insert(seen_key) {")],
 '''
os.mkdir("p"); os.mkdir("q")
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n")
write("r.ron", '[Include("p/i.ron"), Include("q/i.ron"), Chain("start", [Rule(predicate: True, action: JumpChain("q"), result: Continue)])]')
write("p/i.ron", '[Chain("p", [])]')
write("q/i.ron", '[Chain("q", [Rule(predicate: True, action: SetAccount("zz"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "zz" in out, (rc, out, err))
''')

bug("rules-aslower-eq", "C10", "AsLower around an Eq or Contains with capitals", "AsLower lower-cases the wanted string too",
 [("src/rules/table/predicate.rs", "            AsLower(m) => m.matches_string(&s.to_lowercase()),", "            AsLower(m) => match m.as_ref() {\n                Eq(want) => want.to_lowercase() == s.to_lowercase(),\n                m => m.matches_string(&s.to_lowercase()),\n            },")],
 '''
write("a.journal", "2020/01/05 x\\n  Abc  GBP 10.00\\n")
write("r.ron", '[Chain("start", [Rule(predicate: Account(AsLower(Eq("Abc"))), action: SetAccount("zz"), result: Continue)])]')
rc, out, err = run("apply-rules", "a.journal", "table", "r.ron")
expect(rc == 0 and "zz" not in out, (rc, out, err))
''')

bug("nw-self-transfer-seq", "C19", "more than 127 rows on one day", "the number of a row within its day is kept in a byte",
 [("src/importers/nationwide_csv.rs", "        let mut date_counter: i32 = 0;\n", "        let mut day_counter: i8 = 0;\n"),
  ("src/importers/nationwide_csv.rs", "                date_counter = 0;\n            } else {\n                date_counter += 1;\n            }\n", "                day_counter = 0;\n            } else {\n                day_counter = day_counter.wrapping_add(1);\n            }\n            let date_counter = i32::from(day_counter as u8);\n")],
 '''
write("n.csv", '"Account Name:","acc"\\n"Account Balance:","£1.00"\\n"Available Balance: ","£1.00"\\n\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n' + '"05 Jan 2020","T","d","£1.00","","£1.00"\\n' * 300, "cp1252")
rc, out, err = run("import", "nationwide-csv", "--fp-namespace", "fixed:ns", "n.csv")
import re
fps = re.findall(r":(fp-[^:]*):", out)
expect(rc == 0 and len(set(fps)) == 600, (rc, len(fps), len(set(fps)), err))
''')

bug("merge-status-clear-all", "C04", "a cleared posting into which a pending one is merged", "the later status wins if both have one",
 [("src/merge/posting.rs", "            if let (Pending, Cleared) = (dest_status, src_status) {\n                dest.raw.status = Some(Cleared);", "            if *dest_status != src_status {\n                dest.raw.status = Some(src_status);")],
 '''
write("a.journal", "2020/01/05 x\\n  * a  GBP 10.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 x\\n  ! a  GBP 10.00\\n  ; :fp-1:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and "* a" in out, (rc, out, err))
''')
