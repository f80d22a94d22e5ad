#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that wording stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe,hook_needed=None)))
MF=["src/merge/merger.rs","src/merge/posting.rs","src/merge/transaction.rs","src/merge/cmd.rs","src/merge/sources.rs"]
p("C01","Merging loses, duplicates and invents no posting or amount",
  "When `merge` succeeds, every posting of every input transaction ends up in exactly one place: merged into exactly one posting of the output journal (the one that carries its fingerprints) or, with its whole transaction, in the unmerged output. The two outputs contain nothing else: no posting without an input posting behind it, no posting or fingerprint twice, and every posting keeps the amount (quantity, commodity, lot and price) and kind (real or virtual) of the first input posting it came from.",
  ["inputs","histories"],"for every sequence of input journals (any number of files, sources, transactions, postings) on which merge exits 0",
  "The unit tests run 17 hand-written merges of at most two small journals; conservation is a statement about all histories of merged batches.",
  MF,[("apply_pending / build","src/merge/merger.rs"),("IndexedPostings::add / merge_into","src/merge/posting.rs")],
  ["merged journal (-o/stdout)","unmerged journal (-u)"],
  [dict(name="posts/trns",meaning="arenas of existing postings and transactions",where="src/merge/merger.rs")])
p("C02","Contradictory merge input is refused, and nothing is written",
  "`merge` fails, writing neither the merged nor the unmerged output, exactly when an input source contains a posting without a fingerprint tag or with a left-over `candidate-` tag, the same fingerprint on two of its postings, a posting whose fingerprints belong to two or more existing postings, a transaction whose postings match postings of two or more existing transactions, or two postings of transactions being merged that match the same existing posting. Any other well-formed input is accepted (apart from unmerged transactions left over with no unmerged output given).",
  ["inputs","histories"],"for every sequence of input journals: rejected if and only if one of the listed contradictions arises at some source",
  "Each error has one hand-made test; that no other combination slips through, and that no consistent input is refused, quantifies over all histories.",
  MF,[("make_pending, check_pending, find_existing_dest_trn","src/merge/merger.rs"),("Input::from_posting_internal","src/merge/posting.rs")],
  ["exit status","existence and content of -o and -u files"])
p("C03","Postings are matched by fingerprint first, else by the soft criteria",
  "An input posting is merged into the existing posting that shares one of its fingerprints (including fingerprints acquired in earlier merges), whatever its other fields; only if there is none is it merged into an existing posting from an earlier source whose transaction has the same date, with an equal amount, an equal balance if both have one, and the same account unless either has the `unknown-account` tag. If neither exists it is added as a new posting, to the existing transaction that its sibling postings matched, or else in a new transaction; postings of one source are never matched with each other.",
  ["inputs","histories"],"for every existing journal state and every next source",
  "Tests sample about ten pairs of postings; the decision depends on the whole accumulated state (dates, accounts, tags, balances, fingerprints acquired along the way).",
  MF+["src/merge/matchset.rs"],[("find_matching_postings, matches","src/merge/posting.rs"),("determine_posting_action","src/merge/merger.rs")],
  ["which output posting carries which fingerprints, and in which transaction"])
p("C04","Merging into an existing posting only adds information",
  "When an input posting is merged into an existing one, the existing posting keeps its amount and an existing balance; its status only goes from none to the input's or from pending to cleared, a missing balance is taken from the input, and its account changes only if it was tagged `unknown-account` and the input is not, in which case it takes the input's account and loses that tag. All flag tags of both are kept (the input's `unknown-account` is never added), value tags are united with the input's values winning, comment text of the input is appended unless that line is already there, and the existing transaction's own date, status, code, description and comment do not change.",
  ["inputs","histories"],"for every pair of existing and matching input posting, after any history",
  "The tests check six pairs, one field at a time.",
  ["src/merge/posting.rs","src/comment.rs","src/merge/merger.rs"],[("merge","src/merge/posting.rs"),("Comment::merge_from","src/comment.rs")],
  ["fields of the output postings and transactions"])
p("C05","Merging is repeatable and can be done incrementally",
  "Merging a sequence of journals in one run gives the same merged journal and the same unmerged transactions as merging them one run at a time, feeding each run's merged output in as the first journal of the next. Re-merging the source that was merged last, when nothing of it was left unmerged, succeeds and changes nothing.",
  ["histories","inputs"],"for every sequence of journals and every split of it into runs",
  "No test runs merge on merge's own output; equality of the two ways of merging is a statement about all histories.",
  MF+["src/comment.rs","src/internal.rs"],[("posts_by_date / post_by_fingerprint indices","src/merge/posting.rs")],
  ["merged journal of chained runs against that of a single run"])
p("C06","Merged output is in date order and otherwise keeps input order",
  "The merged journal lists transactions in order of date, those of the same date in the order in which they were first added; postings of a transaction keep their order, and postings added later to it come after the existing ones in their own order. The order of sources, files or their dates never reorders transactions within one date other than by when they were added.",
  ["inputs","histories"],"for every sequence of input journals, in any date order",
  "Two tests look at ordering, for dates in one month.",
  ["src/merge/transaction.rs","src/merge/merger.rs"],[("IndexedTransactions::into_iter","src/merge/transaction.rs"),("add_post_to_trn","src/merge/transaction.rs")],
  ["order of transactions and postings in the output"])
p("C07","Ambiguous soft matches are left unmerged with all their candidates",
  "If an input posting soft-matches two or more existing postings, its whole transaction goes to the unmerged output with all its original content, that posting marked with exactly one `candidate-<fingerprint>` tag per matching existing posting (naming one of that posting's fingerprints), and the existing journal is not changed by it. Without an unmerged output the command fails and writes nothing; and after a user turns one candidate tag into that fingerprint and deletes the others, merging that file again merges the posting into the chosen existing posting.",
  ["inputs","histories"],"for every state with ambiguous matches, and every user choice among the candidates",
  "One test covers two candidates of one posting; the number of candidates, siblings' state and the later resolution round are not covered.",
  MF,[("determine_posting_action Soft(Many), MergeActionsAccumulator","src/merge/merger.rs")],
  ["unmerged output, exit status, merge of the edited unmerged file"])
p("C08","Each source in a journal is merged as its own batch, in source order",
  "Transactions of an input journal are grouped by their `source-file` value tag (its default names the input file itself) and the groups are merged one after another in ascending order of that value, each exactly as if it had been a journal of its own. The merged output carries no `source-file` tag on any transaction; in the unmerged output every transaction carries the source it came from.",
  ["inputs","histories"],"for every assignment of sources to the transactions of every input journal",
  "No test gives merge a journal with more than one source.",
  ["src/merge/sources.rs","src/merge/cmd.rs"],[("read_ledger_file, strip_sources","src/merge/sources.rs")],
  ["merged and unmerged output"])
RF=["src/rules/table/mod.rs","src/rules/table/source.rs","src/rules/cmd.rs"]
p("C09","Rule chains run in order with Continue, Return and JumpChain semantics",
  "`apply-rules` runs the `start` chain once for every posting, in order; each rule whose predicate holds at that moment performs its action, then `Continue` goes on to the next rule and `Return` ends only the chain it stands in, so that a `JumpChain` always comes back to just after the jump. Later rules and later postings of the transaction see the effects of earlier ones, and `All` performs its actions in order.",
  ["programs","inputs"],"for every rule table (any chains, jumps, nesting) and every journal",
  "Tests run fourteen tiny tables; control flow composes arbitrarily.",
  RF,[("Chain::apply, Rule::apply, Action::apply","src/rules/table/mod.rs")],["output journal"])
p("C10","Rule predicates decide what they say on the current state",
  "A predicate is true exactly when: `True` always; `All`/`Any`/`Not` by their operands (empty `All` true, empty `Any` false); `Account`, `TransactionDescription` when the posting's account or transaction's description matches; `PostingFlagTag` when some flag tag of the posting matches; `PostingHasFlagTag`/`PostingHasValueTag` when the posting has that tag; `PostingValueTag` when it has it and its value matches. `Eq`, `Contains` and `Matches` compare case-sensitively with the whole string, a substring, or an unanchored regular expression, and `AsLower` lower-cases the subject string only.",
  ["programs","inputs"],"for every predicate tree and every posting in its transaction",
  "Tests evaluate twenty predicates on one posting.",
  ["src/rules/table/predicate.rs","src/rules/table/commontypes.rs"],[("Predicate::is_match, StringMatch::matches_string","src/rules/table/predicate.rs")],["output journal"])
p("C11","Rule actions change exactly the field they name",
  "Each action changes only the named flag tag, value tag, account or description of the current posting or its transaction (adding an existing value tag replaces its value; adding a flag that is there, or removing what is not there, changes nothing; a description replacement rewrites the first match only), and everything else in the journal - amounts, balances, statuses, dates, comment text, other tags, order and number of postings and transactions - comes out unchanged. If an `Error` action is reached, the command fails and writes no output.",
  ["programs","inputs"],"for every rule table and every journal",
  "Tests check one action at a time on one-posting transactions.",
  RF,[("Action::apply, RegexReplace","src/rules/table/mod.rs")],["output journal","exit status"])
p("C12","Bad rule files are refused before anything is processed",
  "A rules file is refused, whatever the journal, if there is no `start` chain, a chain name is defined twice, any action anywhere (also nested inside `All`, also in chains never reached) jumps to an undefined chain, an included file is missing, or a regular expression is invalid; otherwise it is accepted. `Include` paths are relative to the including file, and a file included several times or in a cycle is loaded once.",
  ["programs","configurations"],"for every set of rule files and includes",
  "Tests cover four bad single files and never the include mechanism.",
  RF,[("File::load_into","src/rules/table/source.rs"),("Table::validate, Action::validate","src/rules/table/mod.rs")],["exit status and output"])
p("C13","Tags, values and text of comments survive reading and writing",
  "Reading a transaction's or posting's comment and writing it back keeps the set of flag tags, the value tags with their values (last one wins) and the sequence of text fragments, only normalising their layout: flags of at most 12 bytes share one leading line in sorted order, longer ones get sorted lines of their own, text follows, and value tags come last, sorted by key. Writing the result a second time changes nothing.",
  ["inputs"],"for every comment over a small alphabet up to a length, and for random longer ones",
  "Tests check about twenty literal comments; the grammar (adjacent groups, spaces, colons, line splits) is what matters.",
  ["src/comment.rs","src/internal.rs"],[("Comment::from_opt_comment, into_opt_comment","src/comment.rs")],["output of apply-rules with an empty start chain, of merge and of generate-fingerprints"])
p("C14","fmt changes layout only and is idempotent",
  "`fmt` rewrites each journal so that it still contains the same items in the same order - transactions with dates, effective dates, statuses, codes, descriptions and comments, postings with accounts, virtual kinds, amounts, lot prices, prices, balances, statuses and comments, comment lines, commodity prices and includes - with no number changed in value or precision. Formatting an already formatted journal changes nothing.",
  ["inputs"],"for every journal of supported items",
  "There is no test of fmt at all.",
  ["src/fmt.rs","src/filespec.rs"],[("Cmd::run","src/fmt.rs")],["the rewritten files"])
p("C15","generate-fingerprints adds exactly one unique fingerprint where none is",
  "After `generate-fingerprints`, every posting that had no `fp-` tag has exactly one new tag `fp-uuidb64-<id>`, different from every other posting's, and everything else in the journal is unchanged; postings that already had one are untouched. Running it again changes nothing, and its output is acceptable to `merge` (unless a posting has a `candidate-` tag, see C02).",
  ["inputs"],"for every journal and every subset of postings that already have fingerprints",
  "There is no test of generate-fingerprints.",
  ["src/fpgen.rs","src/fingerprint.rs"],[("update_transactions","src/fpgen.rs")],["the rewritten files"])
p("C16","A command that fails on its input leaves existing files as they were",
  "When any subcommand fails because of its input (unreadable or malformed journal, statement, rules or timezone file, contradiction, rule error, unusable option), existing output files keep their content byte for byte and no output file or directory is created. `fmt` and `generate-fingerprints` process their files in order: those before the failing one are rewritten, that one and those after it are untouched.",
  ["inputs","fault_sequences"],"for every subcommand, output option and input failure, at any position in the list of files",
  "No test runs a command with output files.",
  ["src/filespec.rs","src/importers/cmd.rs","src/merge/cmd.rs","src/rules/cmd.rs","src/fmt.rs","src/fpgen.rs"],[("run methods write last","src/*/cmd.rs")],["file system before and after","exit status"])
p("C17","A Nationwide CSV row becomes one balanced transaction that says what it says",
  "Every row after the headers of a Nationwide CSV statement (both column layouts) yields exactly one transaction, in row order, with the row's date and description (`<transactions> @ <location>` if there is a location), and two postings: `assets:unknown` with the paid-in amount or minus the paid-out amount in GBP and the row's balance if given, and a peer with the opposite amount on `income:unknown` or `expenses:unknown`. Both carry `unknown-account`, the account name, bank and row type tags, `import-self`/`import-peer` respectively, and the self posting a `seq` that numbers the rows of one day from 1.",
  ["inputs"],"for every well-formed statement in both layouts",
  "Two golden files with a few rows each.",
  ["src/importers/nationwide_csv.rs","src/importers/util.rs","src/importers/nationwide.rs"],[("process_rows, form_postings","src/importers/nationwide_csv.rs"),("self_and_peer_account_amount","src/importers/util.rs")],["imported journal"])
p("C18","PayPal rows are grouped by instant and dated in the output timezone",
  "Consecutive PayPal rows of the same instant (their local time at the UTC offset that the abbreviations file gives their timezone) become one transaction, dated by that instant's date in the output timezone and described by the first non-empty name in the group; each row contributes, in order, a self posting with the row's amount and balance and a peer posting with the opposite amount on `income:unknown`/`expenses:unknown`. Both are cleared if the row is Completed and pending if Pending, and carry the import tags, type, name and receipt id of the row.",
  ["inputs","configurations"],"for every well-formed PayPal export, abbreviations file and output timezone",
  "One golden file, output timezone UTC only.",
  ["src/importers/paypal_csv.rs","src/tzabbr.rs"],[("read_transactions, form_transaction","src/importers/paypal_csv.rs"),("parse_utc_offset","src/tzabbr.rs")],["imported journal"])
p("C19","Import fingerprints are the documented, stable function of the record",
  "Every posting an importer emits carries a fingerprint that depends only on the namespace and its own record's identifying fields (and, within a day or PayPal group, its position) as fixed by the algorithm version, so re-importing the same record, or the same day inside a longer statement, yields the same fingerprint, with or without the legacy fingerprint option. In any one import of rows in date order no two postings share a fingerprint, and the namespace is the one chosen by the option: fixed, account name, lookup table (an account that is not in it is refused), or the 8-character generated one.",
  ["inputs","histories"],"for every statement, every namespace option, and every pair of overlapping statements",
  "Golden files pin a few hashes; independence of other rows and uniqueness quantify over statements.",
  ["src/fingerprint.rs","src/importers/nationwide_csv.rs","src/importers/nationwide.rs","src/importers/paypal_csv.rs","src/importers/nationwide_pdf.rs"],[("FingerprintBuilder, Accumulator","src/fingerprint.rs"),("FpNamespace::make_namespace","src/importers/nationwide.rs")],["fp- tags of imported postings"])
p("C20","PDF statement lines are assembled into the right transactions",
  "From the OCR table of a Nationwide PDF statement, each line with details and a payment or receipt starts one transaction with the current date (day-month lines under the last year line of the table), amount sign by column and balance if present; following lines without amounts extend its description or, as `Effective Date ...`, set its effective date, and may give its balance; a gap of more than two line heights between the lines of the table (those with details, and those of years between them) ends it. Every such amount line before the gap yields exactly one transaction with two opposite postings, in order, across tables and pages.",
  ["inputs","histories"],"for every sequence of OCR lines in tables on pages",
  "No test runs the line-to-transaction assembly; only helpers are tested.",
  ["src/importers/nationwide_pdf.rs","src/importers/tesseract.rs"],[("TransactionsAccumulator::feed_line, lines_to_transactions, table::Table","src/importers/nationwide_pdf.rs")],["imported journal, with stub OCR binaries"])
p("C21","Malformed statements are refused, never misread",
  "Import fails with no output if a CSV statement has a wrong or missing header row, or any statement a date, time, amount, timezone or status it does not understand in full, a row with both or neither of paid-in and paid-out, a PayPal group without a name, or rows of the wrong width, a timezone file with duplicate or out-of-range offsets, an OCR table whose records do not fit together, no account number in a PDF statement, or a conversion tool that fails. It never turns such a field into a different value.",
  ["inputs"],"for every single-field corruption of every well-formed statement",
  "About twenty literal strings are tested for value parsers.",
  ["src/importers/nationwide_csv.rs","src/importers/paypal_csv.rs","src/tzabbr.rs","src/importers/tesseract.rs","src/importers/nationwide_pdf.rs"],[("de::GbpValue, de::InputDate, check_header","src/importers/nationwide_csv.rs"),("parse_utc_offset","src/tzabbr.rs")],["exit status and output"])
p("C22","Imported statements can be merged, and overlaps are recognised",
  "The output of every importer (with or without rules applied to it that keep its fingerprints) is accepted by `merge`, and re-importing the same statement, or a later one of the same account that overlaps it by whole days, and merging it adds only the transactions that were not there before. Accounts, descriptions, dates, amounts, balances, flag tags and further value tags that the user or rules have set in already merged transactions are kept by such a re-merge, and do not hinder it.",
  ["histories","inputs"],"for every statement history, namespace and rule table that leaves fingerprints alone",
  "No test connects import, rules and merge.",
  ["src/importers/nationwide_csv.rs","src/importers/paypal_csv.rs","src/merge/merger.rs","src/rules/table/mod.rs","src/fingerprint.rs"],[("fingerprints end to end","src/fingerprint.rs")],["merged journal after import | apply-rules | merge"])
p("C23","The same input gives the same output",
  "Running `merge`, `apply-rules`, `fmt` or `import` again on the same input files and options gives byte-identical output and the same exit status. Reading from standard input and writing to standard output (`-`) is equivalent to using files.",
  ["inputs","schedules"],"for every input, over the randomised iteration orders of separate processes",
  "Tests run each case once in one process; hash-order dependence shows only across runs.",
  ["src/merge/merger.rs","src/merge/transaction.rs","src/merge/sources.rs","src/comment.rs","src/filespec.rs","src/rules/table/mod.rs"],[("sorting before output","src/comment.rs, src/merge/transaction.rs, src/merge/sources.rs")],["bytes of outputs of repeated runs"])
p("C24","Import output options put the journal exactly where asked",
  "`import` writes the imported journal to standard output, or to the `--output` path, replacing its content; with `--sub-output-path` every `%FP_NS%` in that path is replaced by the user namespace in effect (fixed, account name, looked up or generated), and with `--make-parent-dirs` missing parent directories are created. The journal written is the same as without these options, no other file is created or changed, and both options are refused for standard output.",
  ["configurations","inputs"],"for every combination of output options, path templates, existing file states and namespaces",
  "No test runs the import command with its output options.",
  ["src/importers/cmd.rs","src/filespec.rs"],[("Command::run","src/importers/cmd.rs")],["file system after the run","standard output"])
p("C25","A journal is processed whole or refused",
  "`merge`, `apply-rules` and `generate-fingerprints` take a journal only if every line of it can be read and it holds nothing but transactions and blank lines; then each transaction and posting of it is in what they write, with its dates, status, code, description, account, kind, amount, lot, price, balance and comments. A journal with anything else in it (comments outside transactions, prices, includes) or with a line that cannot be read (bytes that are not UTF-8 included) is refused by them, wherever in the journal and in which of several journals it stands, rather than processed without that line. `fmt` takes every journal that can be read and hands on all of it.",
  ["inputs"],"for every journal, and every kind of line in every place of it",
  "No test gives a command a journal with anything but transactions in it; the parsing of journals is tested only through transactions.",
  ["src/internal.rs","src/ledgerutil.rs","src/filespec.rs"],[("TransactionPostings::from_ledger","src/internal.rs"),("parse_ledger, format_ledger","src/ledgerutil.rs")],["exit status and output journals"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
    import re
    n=len(re.findall(r"[.;]\s+[A-Z]|\.$",x["statement"]))
    print(x["id"],n,len(x["title"]))
