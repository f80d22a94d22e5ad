"""Ninth series of planted bugs."""
exec(open("/verif/tools/bugs8.py").read().split('\nbug("merge-two-dest-alike"')[0])

bug("merge-many-candidates", "C07", "a posting that soft-matches seven or more existing postings",
 "only the first six candidates are named",
 [(M, "for idx in matched_idxs.into_iter() {", "for idx in matched_idxs.into_iter().take(6) {")], '''
a = write("a.journal", "\\n".join("2020/01/05 x%d\\n  a  GBP 10.00\\n  ; :fp-%d:\\n" % (i, i) for i in range(8)))
b = write("b.journal", "2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-b:\\n")
r = run("merge", "-o", "o", "--unmerged", "u", "a.journal", "b.journal")
expect(r[0] == 0 and all(":candidate-fp-%d:" % i in read("u").replace(" ", "").replace("\\n", "") or "candidate-fp-%d" % i in read("u") for i in range(8)), r)
''')

bug("merge-match-original-account", "C05", "three sources, the second of which gives a posting of unknown account an account that the third then has to have",
 "a posting that was unknown when it was added goes on to soft-match any account",
 [(P, """    parent_trn: transaction::Index,
    pub posting: PostingInternal,
}

impl Holder {""", """    parent_trn: transaction::Index,
    was_unknown: bool,
    pub posting: PostingInternal,
}

impl Holder {"""),
  (P, """                parent_trn,
                posting: proto.posting,""", """                parent_trn,
                was_unknown: proto
                    .posting
                    .comment
                    .tags
                    .contains(tags::UNKNOWN_ACCOUNT),
                posting: proto.posting,"""),
  (P, "        matches(&self.posting, &input.posting)\n", """        matches(&self.posting, &input.posting, self.was_unknown)
"""),
  (P, "fn matches(a: &PostingInternal, b: &PostingInternal) -> bool {", "fn matches(a: &PostingInternal, b: &PostingInternal, a_unknown: bool) -> bool {"),
  (P, "        if !ac.tags.contains(tags::UNKNOWN_ACCOUNT) && !bc.tags.contains(tags::UNKNOWN_ACCOUNT) {", """        if !a_unknown
            && !ac.tags.contains(tags::UNKNOWN_ACCOUNT)
            && !bc.tags.contains(tags::UNKNOWN_ACCOUNT)
        {""")], '''
a = write("a.journal", "2020/01/05 x\\n  un  GBP 10.00\\n  ; :fp-1:unknown-account:\\n")
b = write("b.journal", "2020/01/05 y\\n  known  GBP 10.00\\n  ; :fp-2:\\n")
c = write("c.journal", "2020/01/05 z\\n  other  GBP 10.00\\n  ; :fp-3:\\n")
r = run("merge", "-o", "o", "a.journal", "b.journal", "c.journal")
run("merge", "-o", "o1", "a.journal", "b.journal"); run("merge", "-o", "o2", "o1", "c.journal")
expect(r[0] == 0 and read("o") == read("o2"), r)
''')

bug("merge-index-refresh", "C05", "an input transaction whose date differs from that of the transaction it is merged into, and a later source with the input's date",
 "postings merged into are found under the date of the input as well",
 [(P, """        let dest_post = self.get_mut(existing_post_idx);
""", """        self.posts_by_date
            .entry(input_posting.trn_date)
            .and_modify(|idxs| {
                if !idxs.contains(&existing_post_idx) {
                    idxs.push(existing_post_idx);
                }
            })
            .or_insert_with(|| vec![existing_post_idx]);
        let dest_post = self.get_mut(existing_post_idx);
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
b = write("b.journal", "2020/01/07 y\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
c = write("c.journal", "2020/01/07 z\\n  a  GBP 10.00\\n  ; :fp-3:\\n")
r = run("merge", "-o", "o", "a.journal", "b.journal", "c.journal")
run("merge", "-o", "o1", "a.journal", "b.journal"); run("merge", "-o", "o2", "o1", "c.journal")
expect(r[0] == 0 and read("o") == read("o2") and read("o").count("GBP") == 2, r)
''')

bug("rules-depth-limit", "C09", "a chain that is reached by more than sixteen nested jumps",
 "jumps nested more than sixteen deep are ignored",
 [(T, """                table.get_chain(name)?.apply(table, ctx)?;
""", """                use std::cell::Cell;
                thread_local!(static DEPTH: Cell<usize> = const { Cell::new(0) });
                // Guard against runaway recursion.
                if DEPTH.get() < 16 {
                    DEPTH.set(DEPTH.get() + 1);
                    let result = table.get_chain(name)?.apply(table, ctx);
                    DEPTH.set(DEPTH.get() - 1);
                    result?;
                }
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
names = ["start"] + ["c%d" % i for i in range(20)]
chains = ['Chain("%s", [Rule(predicate: True, action: JumpChain("%s"), result: Continue)])' % p for p in zip(names, names[1:])]
chains.append('Chain("c19", [Rule(predicate: True, action: AddPostingFlagTag("end"), result: Continue)])')
write("r.ron", "[" + ",\\n".join(chains) + "]")
r = run("apply-rules", "a.journal", "-o", "o", "table", "r.ron")
expect(r[0] == 0 and ":end:" in read("o").replace("fp-1:", ""), r)
''')

bug("rules-return-from-all", "C09", "an All that jumps to a chain which returns, with further actions behind the jump",
 "a Return in a chain that was jumped to ends the rest of the All",
 [(T, "    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<()> {\n        for rule in &self.0 {\n            match rule.apply(table, ctx)? {\n                RuleResult::Continue => {}\n                RuleResult::Return => break,\n            }\n        }\n        Ok(())\n    }",
      "    fn apply(&self, table: &Table, ctx: &mut PostingContext) -> Result<RuleResult> {\n        for rule in &self.0 {\n            match rule.apply(table, ctx)? {\n                RuleResult::Continue => {}\n                RuleResult::Return => return Ok(RuleResult::Return),\n            }\n        }\n        Ok(RuleResult::Continue)\n    }"),
  (T, "                for action in actions {\n                    action.apply(table, ctx)?;\n                }", """                for action in actions {
                    if let JumpChain(name) = action {
                        if let RuleResult::Return = table.get_chain(name)?.apply(table, ctx)? {
                            break;
                        }
                    } else {
                        action.apply(table, ctx)?;
                    }
                }""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("r.ron", """[Chain("start", [Rule(predicate: True, action: All([JumpChain("c"), AddPostingFlagTag("end")]), result: Continue)]),
Chain("c", [Rule(predicate: True, action: Noop, result: Return)])]""")
r = run("apply-rules", "a.journal", "-o", "o", "table", "r.ron")
expect(r[0] == 0 and ":end:" in read("o"), r)
''')

bug("rules-contains-empty", "C10", "a Contains with an empty string", "Contains of an empty string is only true of an empty string",
 [(PR, "            Contains(want) => s.contains(want),", "            Contains(want) => s.matches(want.as_str()).any(|m| m == s || !m.is_empty()),")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("r.ron", """[Chain("start", [Rule(predicate: Account(Contains("")), action: AddPostingFlagTag("yes"), result: Continue)])]""")
r = run("apply-rules", "a.journal", "-o", "o", "table", "r.ron")
expect(r[0] == 0 and "yes" in read("o"), r)
''')

bug("rules-not-missing-value", "C10", "Not around a PostingValueTag whose tag the posting does not have",
 "Not of a PostingValueTag is false for a posting without that tag",
 [(PR, "            Not(pred) => !pred.is_match(ctx),", """            Not(pred) => match pred.as_ref() {
                PostingValueTag(tag_name, matcher) => ctx
                    .post
                    .comment
                    .value_tags
                    .get(tag_name)
                    .is_some_and(|value| !matcher.matches_string(value)),
                pred => !pred.is_match(ctx),
            },""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("r.ron", """[Chain("start", [Rule(predicate: Not(PostingValueTag("k", Eq("v"))), action: AddPostingFlagTag("yes"), result: Continue)])]""")
r = run("apply-rules", "a.journal", "-o", "o", "table", "r.ron")
expect(r[0] == 0 and "yes" in read("o"), r)
''')

bug("rules-add-empty-value", "C11", "a rule that adds a value tag with an empty value", "adding a value tag without a value leaves an existing value",
 [(T, """                ctx.post
                    .comment
                    .value_tags
                    .insert(name.to_string(), value.to_string());""", """                let tags = &mut ctx.post.comment.value_tags;
                if value.is_empty() {
                    tags.entry(name.to_string()).or_default();
                } else {
                    tags.insert(name.to_string(), value.to_string());
                }""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  ; k: v\\n")
write("r.ron", """[Chain("start", [Rule(predicate: True, action: AddPostingValueTag("k", ""), result: Continue)])]""")
r = run("apply-rules", "a.journal", "-o", "o", "table", "r.ron")
expect(r[0] == 0 and "k:" in read("o") and "k: v" not in read("o"), r)
''')

bug("rules-replace-empty-match", "C11", "a description replacement whose expression matches the empty string", "matches of nothing are not replaced",
 [(T, "        self.regex.0.replace(original, &self.replacement).into()", """        match self.regex.0.find(original) {
            Some(found) if !found.is_empty() => {
                self.regex.0.replace(original, &self.replacement).into()
            }
            _ => original.to_string(),
        }""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("r.ron", """[Chain("start", [Rule(predicate: True, action: ReplaceTransactionDescription(RegexReplace(regex: "^", replacement: "pre ")), result: Continue)])]""")
r = run("apply-rules", "a.journal", "-o", "o", "table", "r.ron")
expect(r[0] == 0 and "pre x" in read("o"), r)
''')

bug("rules-validate-nested", "C12", "an undefined jump in an All that stands in an All", "jumps are looked for one level deep only",
 [(T, "            All(actions) => actions.iter().try_for_each(|a| a.validate(table)),", """            All(actions) => actions.iter().try_for_each(|a| match a {
                JumpChain(_) => a.validate(table),
                _ => Ok(()),
            }),""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
write("r.ron", """[Chain("start", [Rule(predicate: Not(True), action: All([All([JumpChain("nowhere")])]), result: Continue)])]""")
r = run("apply-rules", "a.journal", "-o", "o", "table", "r.ron")
expect(r[0] != 0, r)
''')

bug("comment-text-blanks", "C13", "comment text with two or more spaces in a row", "runs of blanks in comment text become one",
 [(C, """                    let text = line[leading_start..].trim();
                    if !text.is_empty() {
                        result.lines.push(text.to_string());""", """                    let text = itertools::join(line[leading_start..].split_whitespace(), " ");
                    if !text.is_empty() {
                        result.lines.push(text);""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  ; two  blanks\\n")
r = run("merge", "-o", "o", "a.journal")
expect(r[0] == 0 and "two  blanks" in read("o"), r)
''')

bug("comment-flag-at-end", "C13", "flag tags behind comment text on a line", "flags are only taken from the start of a line that has text before them",
 [(C, "                for flag_group in FLAG_TAG_RX.captures_iter(line) {", """                for flag_group in FLAG_TAG_RX.captures_iter(line) {
                    if leading_start > 0 && flag_group[1].len() < 4 {
                        continue;
                    }""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1: text :ab:\\n")
r = run("merge", "-o", "o", "a.journal")
expect(r[0] == 0 and ":ab:" in read("o") and ":ab:fp-1:" in read("o"), r)
''')

bug("fpgen-skip-amountless", "C15", "a posting without an amount and without a fingerprint", "postings that leave their amount out get no fingerprint",
 [("src/fpgen.rs", "            if !post\n", "            if post.raw.amount.is_some() && !post\n")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n  b\\n")
r = run("generate-fingerprints", "a.journal")
expect(r[0] == 0 and read("a.journal").count("fp-") == 2, r)
''')

bug("fpgen-skip-candidate", "C15", "a posting with a candidate- tag and no fingerprint", "candidate tags count as fingerprints",
 [("src/fpgen.rs", "                .any(fingerprint::is_fingerprint)", "                .any(|tag| fingerprint::is_fingerprint(tag.trim_start_matches(\"candidate-\")))")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :candidate-fp-1:\\n")
r = run("generate-fingerprints", "a.journal")
expect(r[0] == 0 and "fp-uuidb64-" in read("a.journal"), r)
''')

bug("import-check-writable", "C16", "an import that fails while its output file does not exist yet", "the output is opened for appending first",
 [("src/importers/cmd.rs", "        let import = self.importer.do_import()?;\n", """        if let FileSpec::Path(path) = &self.output {
            if !self.substitute_output_path && !self.make_parent_dirs {
                // Fail early if the output cannot be written.
                std::fs::OpenOptions::new()
                    .append(true)
                    .create(true)
                    .open(path)?;
            }
        }
        let import = self.importer.do_import()?;
""")], '''
import os
write("s.csv", "nonsense\\n")
r = run("import", "-o", "o", "nationwide-csv", "s.csv")
expect(r[0] != 0 and not os.path.exists(os.path.join(D, "o")), r)
''')

bug("nw-account-trim", "C17", "an account whose name contains a colon or ends in one", "colons at the end of the account name are dropped",
 [(NW, """            &user_fp_namespace,
            &acct_name.account_name,
        )?;""", """            &user_fp_namespace,
            acct_name.account_name.trim_end_matches(':').trim_end_matches('*'),
        )?;""")], NWKIT + '''
r = nw(SIX.replace('"Acc"', '"Flex ***123*"'), [("1 Jan 2020", "T", "d", "\\u00a31.00", "", "\\u00a35.00")])
expect(r[0] == 0 and "***123*" in r[1], r)
''')

bug("pp-group-currency", "C18", "consecutive rows of one instant in different currencies", "a change of currency starts a new transaction",
 [(PP, "        let record_groups = records.into_iter().chunk_by(|record| record.datetime);", """        let record_groups = records
            .into_iter()
            .chunk_by(|record| (record.datetime, record.amount.commodity.name.clone()));"""),
  (PP, "            .map(|(dt, group)| self.form", "            .map(|((dt, _), group)| self.form")], PPKIT + '''
r = pp([("01/02/2020", "10:00:00", "GMT", "N", "T", "Completed", "GBP", "1.00", "", "5.00"), ("01/02/2020", "10:00:00", "GMT", "N", "T", "Completed", "USD", "1.00", "", "5.00")])
expect(r[0] == 0 and r[1].count("2020") == 1, r)
''')

bug("pp-status-any-pending", "C18", "a group of rows of which some are completed and some pending", "one pending row makes its whole group pending",
 [(PP, "        let mut postings = Vec::new();\n", """        let all_completed = records
            .iter()
            .all(|record| matches!(record.status, de::Status::Completed));
        let mut postings = Vec::new();
"""),
  (PP, "            let (p1, p2) = self.form_postings(record);\n", """            if !all_completed {
                record.status = de::Status::Pending;
            }
            let (p1, p2) = self.form_postings(record);
""")], PPKIT + '''
r = pp([("01/02/2020", "10:00:00", "GMT", "N", "T", "Completed", "GBP", "1.00", "", "5.00"), ("01/02/2020", "10:00:00", "GMT", "N", "T", "Pending", "GBP", "2.00", "", "5.00")])
expect(r[0] == 0 and r[1].count("*") == 2 and r[1].count("!") == 2, r)
''')

bug("pdf-hyphen-join", "C20", "a description line that ends in a hyphen and goes on in the next line", "lines behind a hyphen are joined without a space",
 [(PDF, "                    cur_trn.description.push(' ');\n", """                    if !cur_trn.description.ends_with('-') {
                        cur_trn.description.push(' ');
                    }
""")], PDFKIT + '''
t = [(130, [(100, "2020")]), (160, [(100, "05", 20), (130, "Jan", 20), (300, "CAFE-"), (900, "1.00")]), (190, [(300, "ONE")])]
rc, out, err = pdf([[t]])
expect(rc == 0 and "CAFE- ONE" in out, (rc, out, err))
''')

bug("import-mkdir-relative", "C24", "an absolute output path with a missing directory", "only directories of relative paths are created",
 [("src/importers/cmd.rs", "                    if let Some(parent) = p.parent() {\n", "                    if let Some(parent) = p.parent().filter(|dir| dir.is_relative()) {\n")], NWKIT + '''
import os
r = nw(SIX, [("1 Jan 2020", "T", "d", "\\u00a31.00", "", "\\u00a35.00")], "fixed:n", "-o", os.path.join(D, "new", "o"), "--make-parent-dirs")
expect(r[0] == 0 and os.path.exists(os.path.join(D, "new", "o")), r)
''')

bug("file-no-truncate", "C24", "an output file that exists and is longer than what is written", "the rest of the old content stays",
 [("src/filespec.rs", "                File::create(path)", "                File::options()\n                    .write(true)\n                    .create(true)\n                    .open(path)\n                    ")], NWKIT + '''
write("o", "x" * 10000)
r = nw(SIX, [("1 Jan 2020", "T", "d", "\\u00a31.00", "", "\\u00a35.00")], "fixed:n", "-o", "o")
expect(r[0] == 0 and "xxx" not in read("o"), r)
''')

bug("stdin-lines", "C23", "a journal with CRLF line ends or bytes that are not UTF-8 on standard input", "standard input is read line by line up to the first line that cannot be read",
 [("src/filespec.rs", "    let mut f = file_spec.reader()?;\n", """    if let FileSpec::Stdio = file_spec {
        let lines = stdin().lines().map_while(|line| line.ok());
        return Ok(lines.map(|line| line + "\\n").collect());
    }
    let mut f = file_spec.reader()?;
""")], '''
import subprocess, os
j = b"2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\xe9\\n  a  GBP 11.00\\n  ; :fp-2:\\n"
p = subprocess.run([BIN, "merge", "-"], input=j, capture_output=True, cwd=D)
expect(p.returncode != 0, p)
''')


bug("sources-default-stem", "C08", "unmerged transactions of a journal without source-file tags in a directory of its own", "the default source is the file's name without its directories",
 [(S, "    let default_source = format!(\"{}\", ledger_file);", """    let default_source = match ledger_file {
        FileSpec::Path(path) if path.is_absolute() => {
            format!("{:?}", path.file_name().unwrap_or_default())
        }
        other => format!("{}", other),
    };""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\n2020/01/05 y\\n  a  GBP 10.00\\n  ; :fp-2:\\n")
b = write("b.journal", "2020/01/05 z\\n  a  GBP 10.00\\n  ; :fp-3:\\n")
r = run("merge", "-o", "o", "--unmerged", "u", D + "/a.journal", D + "/b.journal")
expect(r[0] == 0 and D in read("u"), r)
''')

bug("whole-modeline", "C25", "a journal whose first line is a comment", "a comment in the first line of a journal is skipped",
 [("src/filespec.rs", "    ledgerutil::parse_ledger(&content).map_err(Into::into)", """    let mut body = content.as_str();
    if body.starts_with(';') {
        // Skip an editor's mode line.
        body = body.split_once('\\n').map_or("", |(_, rest)| rest);
    }
    ledgerutil::parse_ledger(body).map_err(Into::into)""")], '''
a = write("a.journal", "; -*- ledger -*-\\n2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n")
r = run("merge", "a.journal")
expect(r[0] != 0, r)
''')

bug("whole-trailing-items", "C25", "a journal that ends in a comment, a price or an include", "what stands behind the last transaction is dropped",
 [("src/internal.rs", "    pub fn from_ledger(ledger: Ledger) -> Result<Vec<Self>> {\n", """    pub fn from_ledger(mut ledger: Ledger) -> Result<Vec<Self>> {
        let is_trn = |item: &LedgerItem| matches!(item, LedgerItem::Transaction(_));
        let end = ledger.items.iter().rposition(is_trn).map_or(0, |i| i + 1);
        ledger.items.truncate(end);
""")], '''
a = write("a.journal", "2020/01/05 x\\n  a  GBP 10.00\\n  ; :fp-1:\\n\\ninclude other.journal\\n")
r = run("merge", "a.journal")
expect(r[0] != 0, r)
''')
