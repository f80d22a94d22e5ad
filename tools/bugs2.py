# Planted bugs, second series: imports, the pipeline, repeated merges.
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo): BUGS[id] = dict(prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo)

NW6 = '''
def nw6(rows, acct="****1"):
    t = '"Account Name:","%s"\\n"Account Balance:","£1.00"\\n"Available Balance:","£1.00"\\n\\n"Date","Transaction type","Description","Paid out","Paid in","Balance"\\n' % acct
    return t + "".join(",".join('"%s"' % c for c in r) + "\\n" for r in rows)
'''
NW5 = '''
def nw5(rows, acct="****1"):
    t = '"Account Name:","%s"\\n"Account Balance:","£1.00"\\n"Available Balance:","£1.00"\\n\\n"Date","Transactions","Location","Paid out","Paid in"\\n' % acct
    return t + "".join(",".join('"%s"' % c for c in r) + "\\n" for r in rows)
'''
PP = '''
write("tz.csv", "abbreviation,utc_offset\\nGMT,UTC+00\\nBST,UTC+01\\nCET,UTC+01\\nEST,UTC-05\\n")
def pp(rows):
    t = "Date,Time,Time zone,Name,Type,Status,Currency,Amount,Receipt ID,Balance\\n"
    return t + "".join(",".join('"%s"' % c for c in r) + "\\n" for r in rows)
'''
PDF = '''
LEFT = {"date": 100, "det": 300, "pay": 900, "rec": 1100, "bal": 1300}
def pdf(pages):
    """Each page is a list of tables, each a list of lines: dicts of words by column, with top."""
    out = ["\\t".join("level page_num block_num par_num line_num word_num left top width height conf text".split())]
    def rec(*a): out.append("\\t".join(map(str, a)))
    for pn, tables in enumerate(pages, 1):
        rec(1, pn, 0, 0, 0, 0, 0, 0, 2000, 3000, -1, "")
        paras = ([[(10, [(0, "Account"), (100, "Number"), (200, "12-34-56"), (300, "12345678")])]] if pn == 1 else []) + [
            [(100, [(100, "Date"), (300, "Details"), (900, "Payments"), (1100, "Receipts"), (1300, "Balance")])] + t for t in tables]
        for bn, lines in enumerate(paras, 1):
            rec(2, pn, bn, 0, 0, 0, 0, 0, 2000, 3000, -1, "")
            rec(3, pn, bn, 1, 0, 0, 0, 0, 2000, 3000, -1, "")
            for ln, (top, words) in enumerate(lines, 1):
                rec(4, pn, bn, 1, ln, 0, 0, top, 2000, 20, -1, "")
                for wn, w in enumerate(words, 1):
                    left, text = w[0], w[1]
                    rec(5, pn, bn, 1, ln, wn, left, top, w[2] if len(w) > 2 else 80, 20, 90, text)
    write("ocr.tsv", "\\n".join(out) + "\\n")
    write("gm", '#!/bin/sh\\necho x > "$(printf "$6" 0)"\\n')
    write("tess", '#!/bin/sh\\ncat "%s/ocr.tsv" > "$6.tsv"\\n' % D)
    os.chmod("gm", 0o755); os.chmod("tess", 0o755)
    write("s.pdf", "")
    return run("import", "nationwide-pdf", "s.pdf", D + "/gm", D + "/tess", "--fp-namespace", "fixed:n")
'''

bug("nw-seq-newest-first", "C17", "a statement with its newest rows first", "the sequence numbers restart only when the date moves forwards",
 [("src/importers/nationwide_csv.rs", "            if Some(date) != prev_date {", "            if prev_date.map_or(true, |prev| date > prev) {")],
 NW6 + '''
write("s.csv", nw6([["03 Jan 2020", "T", "a", "£1.00", "", "£9.00"], ["02 Jan 2020", "T", "b", "£1.00", "", "£8.00"], ["02 Jan 2020", "T", "c", "£1.00", "", "£7.00"]]), "windows-1252")
rc, out, err = run("import", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc == 0 and re.findall("seq: n-([0-9]+)", out) == ["1", "1", "2"], (rc, out, err))
''')

bug("nw-overdrawn-pence", "C17", "an overdrawn balance whose pence are not zero", "the pence of negative values are counted upwards from the pounds",
 [("src/importers/nationwide_csv.rs", "            let mut quantity = Decimal::new(pounds * 100 + pence, 2);\n            quantity.set_sign_negative(is_negative);",
   "            let sign: i64 = if is_negative { -1 } else { 1 };\n            let quantity = Decimal::new(sign * pounds * 100 + pence, 2);")],
 NW6 + '''
write("s.csv", nw6([["03 Jan 2020", "T", "a", "£1.00", "", "£-9.25"]]), "windows-1252")
rc, out, err = run("import", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc == 0 and "-9.25" in out, (rc, out, err))
''')

bug("nw5-location-prefix", "C17", "a five-column row whose location is also how its transaction text starts", "the location is left out of the description if it repeats the start of the text",
 [("src/importers/nationwide_csv.rs", "        if self.location.is_empty() {\n            self.transactions.clone()", "        if self.transactions.starts_with(&self.location) {\n            self.transactions.clone()")],
 NW5 + '''
write("s.csv", nw5([["03 Jan 2020", "BATH CAFE", "BATH", "£1.00", ""]]), "windows-1252")
rc, out, err = run("import", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc == 0 and "BATH CAFE @ BATH" in out, (rc, out, err))
''')

bug("nw-zero-means-missing", "C21", "a row with both columns filled, one of them with zero", "a paid-in of zero beside a paid-out is accepted",
 [("src/importers/nationwide_csv.rs", '''        // No legacy fingerprint existed for RecordFive.
        let _ = include_legacy_fingerprint;

        let self_amount: Amount = match (self.paid_in.clone(), self.paid_out.clone()) {''', '''        // No legacy fingerprint existed for RecordFive.
        let _ = include_legacy_fingerprint;

        let paid_in = self.paid_in.clone().filter(|v| !v.0.quantity.is_zero() || self.paid_out.is_none());
        let self_amount: Amount = match (paid_in, self.paid_out.clone()) {''')],
 NW5 + '''
write("s.csv", nw5([["03 Jan 2020", "a", "b", "£1.00", "£0.00"]]), "windows-1252")
rc, out, err = run("import", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
expect(rc != 0, (rc, out, err))
''')

bug("pp-group-local-time", "C18", "consecutive rows of the same clock time in different timezones", "rows are grouped by their local time and not by the instant",
 [("src/importers/paypal_csv.rs", "chunk_by(|record| record.datetime);", "chunk_by(|record| record.datetime.naive_local());"),
  ("src/importers/paypal_csv.rs", "            .map(|(dt, group)| self.form_transaction(dt, group.collect::<Vec<Record>>()))",
   "            .map(|(_, group)| {\n                let records = group.collect::<Vec<Record>>();\n                self.form_transaction(records[0].datetime, records)\n            })")],
 PP + '''
write("p.csv", pp([["05/01/2020", "10:00:00", "GMT", "a", "Payment", "Completed", "GBP", "-1.00", "", "5.00"], ["05/01/2020", "10:00:00", "CET", "b", "Payment", "Completed", "GBP", "-2.00", "", "3.00"]]))
rc, out, err = run("import", "paypal-csv", "p.csv", "tz.csv", "--output-timezone", "UTC")
expect(rc == 0 and len(re.findall("(?m)^2020", out)) == 2, (rc, out, err))
''')

bug("pp-summer-time", "C18", "a time in the summer within an hour of midnight in the output timezone", "the output timezone's daylight saving is ignored for the dates of transactions",
 [("src/importers/paypal_csv.rs", "let date = dt.with_timezone(&self.output_timezone).naive_local().date();",
   "let offset = chrono_tz::OffsetComponents::base_utc_offset(\n            &self.output_timezone.offset_from_utc_datetime(&dt.naive_utc()),\n        );\n        let date = (dt.naive_utc() + offset).date();")],
 PP + '''
write("p.csv", pp([["05/07/2020", "23:30:00", "GMT", "a", "Payment", "Completed", "GBP", "-1.00", "", "5.00"]]))
rc, out, err = run("import", "paypal-csv", "p.csv", "tz.csv", "--output-timezone", "Europe/London")
expect(rc == 0 and re.search("2020.07.06", out), (rc, out, err))
''')

bug("pp-last-name", "C18", "a group of rows with different names", "the description is the name of the last row of a group that has one",
 [("src/importers/paypal_csv.rs", "        let description = records\n            .iter()\n            .find_map", "        let description = records\n            .iter()\n            .rev()\n            .find_map")],
 PP + '''
write("p.csv", pp([["05/07/2020", "23:30:00", "GMT", "a", "Payment", "Completed", "GBP", "-1.00", "", "5.00"], ["05/07/2020", "23:30:00", "GMT", "b", "Payment", "Completed", "GBP", "-1.00", "", "5.00"]]))
rc, out, err = run("import", "paypal-csv", "p.csv", "tz.csv", "--output-timezone", "Europe/London")
expect(rc == 0 and re.search("2020.07.0. a", out), (rc, out, err))
''')

bug("fp-char-count", "C19", "text with characters outside ASCII in a fingerprinted field", "lengths of text are counted in characters in fingerprints, and no longer in bytes",
 [("src/fingerprint.rs", "        acc.with(self.len()).with(self.as_bytes())", "        acc.with(self.chars().count()).with(self.as_bytes())")],
 NW6 + '''
import base64, hashlib
write("s.csv", nw6([["03 Jan 2020", "T", "café", "£1.00", "", "£9.00"]]), "windows-1252")
rc, out, err = run("import", "nationwide-csv", "s.csv", "--fp-namespace", "fixed:n")
def u64(n): return n.to_bytes(8, "big")
def u32(n): return n.to_bytes(4, "big")
def s(t): return u64(len(t.encode())) + t.encode()
def amt(cents): return u64(20) + bytes([0, 0, 2, 0]) + cents.to_bytes(4, "little") + bytes(8) + b"\\1" + s("GBP")
b = s("T") + u64(12) + u32(2020) + u32(1) + u32(3) + u32(0) + s("café") + b"\\1" + amt(100) + b"\\0" + amt(900) + s("self")
fp = base64.b64encode(hashlib.sha1(b).digest()).decode().rstrip("=")
expect(rc == 0 and "fp-nwcsv6.1.n-" + fp in out, (rc, fp, out, err))
''')

bug("pdf-counter-per-table", "C19", "one day's transactions continuing in a further table, with the same text", "the day's counter starts again in each table, so fingerprints repeat",
 [("src/importers/nationwide_pdf.rs", "        let mut prev_trn_line: Option<&table::TransactionLine> = None;\n", "        let mut prev_trn_line: Option<&table::TransactionLine> = None;\n        acc.prev_date = None;\n")],
 PDF + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE"), (900, "1.00")])]
rc, out, err = pdf([[t], [t]])
fps = re.findall("fp-[^:]*", out)
expect(rc == 0 and len(fps) == 4 == len(set(fps)), (rc, out, err))
''')

bug("pdf-flush-at-table-end", "C20", "a transaction whose further lines follow at the start of the next table", "continuation lines in a further table or page are dropped",
 [("src/importers/nationwide_pdf.rs", "            prev_trn_line = Some(trn_line);\n        }\n\n        Ok(())", "            prev_trn_line = Some(trn_line);\n        }\n\n        acc.flush_transaction()")],
 PDF + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE"), (900, "1.00")])]
t2 = [(130, [(100, "2020")]), (160, [(300, "BATH"), (1300, "7.00")])]
rc, out, err = pdf([[t], [t2]])
expect(rc == 0 and "CAFE BATH" in out, (rc, out, err))
''')

bug("pdf-column-edge", "C20", "a word that ends just where the next column starts", "words that only touch the edge of a column are taken to be in it",
 [("src/importers/tesseract.rs", "self.max > other.min && self.min < other.max", "self.max >= other.min && self.min <= other.max")],
 PDF + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE", 600), (1100, "1.00")])]
rc, out, err = pdf([[t]])
expect(rc == 0 and "CAFE" in out and "income:unknown" in out, (rc, out, err))
''')

bug("pdf-balance-line", "C20", "a balance on a line after the one with the amount", "the balance is only taken from the line with the amount or the first line after it",
 [("src/importers/nationwide_pdf.rs", "        if let Some(balance) = &trn_line.balance {\n            cur_trn.balance = Some(parse_amount(balance)?);\n        }",
   "        if let (Some(balance), None) = (&trn_line.balance, &cur_trn.effective_date) {\n            cur_trn.balance = Some(parse_amount(balance)?);\n        }")],
 PDF + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE"), (900, "1.00")]), (190, [(300, "Effective", 70), (380, "Date", 40), (430, "04", 20), (460, "Jan", 30), (500, "2020", 40), (1300, "7.00")])]
rc, out, err = pdf([[t]])
expect(rc == 0 and "7.00" in out, (rc, out, err))
''')

bug("tess-skip-numbers", "C21", "OCR records in which the number of a line or word is too high", "records with numbers beyond the next one are accepted in their place",
 [("src/importers/tesseract.rs", "    if idx != v.len() {", "    if idx < v.len() {")],
 PDF + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE"), (900, "1.00")])]
rc, out, err = pdf([[t]])
expect(rc == 0, (rc, out, err))
lines = read("ocr.tsv").split("\\n")
for i, l in enumerate(lines):
    if l.endswith("\\t1.00"):
        f = l.split("\\t"); f[5] = "9"; lines[i] = "\\t".join(f)
write("ocr.tsv", "\\n".join(lines))
rc, out, err = run("import", "nationwide-pdf", "s.pdf", D + "/gm", D + "/tess", "--fp-namespace", "fixed:n")
expect(rc != 0, (rc, out, err))
''')

bug("merge-unknown-flag-alone", "C22", "a user removing unknown-account from a posting and leaving its account, before the same statement is merged again", "the flag comes back at the next merge if the posting's account is an unknown one",
 [("src/merge/posting.rs", "    src.comment.tags.remove(tags::UNKNOWN_ACCOUNT);\n\n    dest", "    if !dest.raw.account.ends_with(\":unknown\") {\n        src.comment.tags.remove(tags::UNKNOWN_ACCOUNT);\n    }\n\n    dest")],
 '''
write("a.journal", "2020/01/05 x\\n  expenses:unknown  GBP 10.00\\n  ; :fp-1:\\n")
write("b.journal", "2020/01/05 x\\n  expenses:unknown  GBP 10.00\\n  ; :fp-1:unknown-account:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc == 0 and "unknown-account" not in out, (rc, out, err))
''')

bug("merge-last-line-dedupe", "C05", "a posting with two or more lines of comment, merged twice", "comment lines are only compared with the last line there, so that others repeat at every merge",
 [("src/comment.rs", "            if !self.lines.iter().any(|self_line| self_line == &other_line) {", "            if self.lines.last() != Some(&other_line) {")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  ; one\\n  ; two\\n")
rc, out, err = run("merge", "a.journal", "a.journal")
expect(rc == 0 and out.count("one") == 1, (rc, out, err))
''')

bug("merge-check-per-trn", "C02", "two transactions of one source, each with a posting that only matches the same existing posting", "postings of different transactions are merged into the same posting",
 [("src/merge/merger.rs", """            let mut src_idx_by_dest: HashMap<posting::IndexHashable, Vec<&posting::Input>> =
                HashMap::new();
            for trn_action in pending.iter() {
""", """            let mut src_idx_by_dest: HashMap<(posting::IndexHashable, chrono::NaiveDate), Vec<&posting::Input>> =
                HashMap::new();
            for trn_action in pending.iter() {
"""),
  ("src/merge/merger.rs", "src_idx_by_dest.entry(dest_idx_hash).or_default().push(post);", "src_idx_by_dest\n                                        .entry((dest_idx_hash, pending_trn.src_trn.trn.raw.date))\n                                        .or_default()\n                                        .push(post);"),
  ("src/merge/merger.rs", "for (dest_idx_hash, src_posts) in src_idx_by_dest {", "for ((dest_idx_hash, _), src_posts) in src_idx_by_dest {")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:fp-2:\\n")
write("b.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/06 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
rc, out, err = run("merge", "a.journal", "b.journal")
expect(rc != 0, (rc, out, err))
''')

bug("merge-unmerged-by-description", "C01", "two unmerged transactions of the same day and description", "unmerged transactions that look alike are written only once",
 [("src/merge/cmd.rs", "                unmerged.append(&mut unmerged_trns.0);", "                unmerged_trns.0.retain(|new| {\n                    !unmerged.iter().any(|old| {\n                        old.trn.raw.date == new.trn.raw.date\n                            && old.trn.raw.description == new.trn.raw.description\n                    })\n                });\n                unmerged.append(&mut unmerged_trns.0);")],
 '''
write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
write("b.journal", "2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-3:\\n")
write("c.journal", "2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-4:\\n")
rc, out, err = run("merge", "a.journal", "b.journal", "c.journal", "-u", "u.journal", "-o", "o.journal")
u = read("u.journal") or ""
expect(rc == 0 and ":fp-3" in u and ":fp-4" in u, (rc, u, err))
''')
