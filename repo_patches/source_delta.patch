From 85d646ff3ec87f8684bbd3f110301f1fa695f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 01/17] fix: give imported PayPal peer postings a fingerprint

Without --include-legacy-fingerprint the peer posting had no fingerprint
tag at all, so that the output of the import was refused by merge.
---
 src/importers/paypal_csv.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 3b7fd20..7c9d722 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -127,10 +127,11 @@ impl PaypalCsv {
         let mut peer_comment = Comment::builder()
             .with_tag(tags::IMPORT_PEER)
             .with_tag(tags::UNKNOWN_ACCOUNT)
-            .with_option_tag(if self.include_legacy_fingerprint {
-                Some(fp.peer.legacy_tag())
+            // Postings must always have a fingerprint in order to be mergeable.
+            .with_tag(if self.include_legacy_fingerprint {
+                fp.peer.legacy_tag()
             } else {
-                None
+                fp.peer.tag()
             })
             .with_value_tag(TRANSACTION_TYPE_TAG, record.type_)
             .build();
-- 
2.43.0


From 07b6209af75f4f496db8e8a66eef2bf9a7aabb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 02/17] fix: validate rule actions nested inside All

A jump to an undefined chain inside an All action was accepted at load
time and only reported when it was reached.
---
 src/rules/table/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rules/table/mod.rs b/src/rules/table/mod.rs
index 27143dd..b81e19a 100644
--- a/src/rules/table/mod.rs
+++ b/src/rules/table/mod.rs
@@ -246,6 +246,7 @@ impl Action {
 
         match self {
             JumpChain(name) => table.get_chain(name).map(|_| ()),
+            All(actions) => actions.iter().try_for_each(|a| a.validate(table)),
             _ => Ok(()),
         }
     }
-- 
2.43.0


From 016299364a1951bc5af64dcfec2ca3b9174fdb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 03/17] fix: refuse Nationwide CSV amounts that are not exactly
 pounds and pence
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The pattern was not anchored and took any number of decimals, so that
-£1.23 was read as £1.23, £1.5 as £1.05 and £1.234 as £3.34.
---
 src/importers/nationwide_csv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index bcd26f6..f84a7e7 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -478,7 +478,7 @@ mod de {
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
             lazy_static! {
-                static ref RE: Regex = Regex::new(r"£(-?)(\d+)\.(\d+)").unwrap();
+                static ref RE: Regex = Regex::new(r"^£(-?)(\d+)\.(\d{2})$").unwrap();
             }
             let captures = RE
                 .captures(s)
-- 
2.43.0


From 2ce4685bb1c9822afc3680fcb775cb4b78a4022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:28 +0000
Subject: [PATCH 04/17] fix: index added postings by the date of their
 destination transaction

A posting added to an existing transaction was indexed for soft matching
under the date of its source transaction, against the documented "same
date on parent transaction", so that merging incrementally gave another
result than merging in one run.
---
 src/merge/merger.rs  |  3 ++-
 src/merge/posting.rs | 19 +++++++++++++++----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/merge/merger.rs b/src/merge/merger.rs
index 1dce4f5..472893d 100644
--- a/src/merge/merger.rs
+++ b/src/merge/merger.rs
@@ -148,7 +148,8 @@ impl Merger {
         for (post, action) in post_actions {
             match action {
                 PostingMergeAction::New => {
-                    let post_idx = self.posts.add(post, dest_trn_idx)?;
+                    let dest_trn_date = self.trns.get(dest_trn_idx).trn.raw.date;
+                    let post_idx = self.posts.add(post, dest_trn_idx, dest_trn_date)?;
                     self.trns.add_post_to_trn(dest_trn_idx, post_idx);
                 }
                 PostingMergeAction::MergeIntoExisting(dest_post_idx) => {
diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 003693f..48dad95 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -50,17 +50,28 @@ impl IndexedPostings {
         ConsumePostings(self.post_arena)
     }
 
-    /// Adds a new posting, updating the fingerprint index.
-    pub fn add(&mut self, input: Input, parent_trn: transaction::Index) -> Result<Index> {
+    /// Adds a new posting, updating the fingerprint and date indices. The
+    /// posting is indexed under the date of its (destination) parent
+    /// transaction, which may differ from that of the transaction it was read
+    /// from.
+    pub fn add(
+        &mut self,
+        input: Input,
+        parent_trn: transaction::Index,
+        parent_trn_date: NaiveDate,
+    ) -> Result<Index> {
         #![allow(clippy::needless_collect)] // Collect because `input` is moved into Holder::from_input.
         let fingerprints: Vec<String> = fingerprints_from_comment(&input.posting.comment)
             .map(str::to_string)
             .collect();
-        let (holder, trn_date) = Holder::from_input(input, parent_trn);
+        let (holder, _src_trn_date) = Holder::from_input(input, parent_trn);
         let idx = self.post_arena.insert(holder);
         self.register_fingerprints(fingerprints.into_iter(), idx)?;
 
-        self.posts_by_date.entry(trn_date).or_default().push(idx);
+        self.posts_by_date
+            .entry(parent_trn_date)
+            .or_default()
+            .push(idx);
         Ok(idx)
     }
 
-- 
2.43.0


From f0e36be41c7b838954b8b75a68689eceec9bd7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:48 +0000
Subject: [PATCH 05/17] fix: read cleared postings as postings, not as comments

---
 src/filespec.rs   |  4 ++-
 src/ledgerutil.rs | 78 ++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 80 insertions(+), 2 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index bcb45c3..3b71f85 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -10,6 +10,8 @@ use std::str::FromStr;
 use anyhow::{Context, Error, Result};
 use ledger_parser::Ledger;
 
+use crate::ledgerutil;
+
 /// Specifies a file to read from to write to (depending on context).
 #[derive(Clone, Debug)]
 pub enum FileSpec {
@@ -73,7 +75,7 @@ pub fn read_file(file_spec: &FileSpec) -> Result<String> {
 
 pub fn read_ledger_file(file_spec: &FileSpec) -> Result<Ledger> {
     let content: String = read_file(file_spec)?;
-    ledger_parser::parse(&content).map_err(Into::into)
+    ledgerutil::parse_ledger(&content).map_err(Into::into)
 }
 
 pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
diff --git a/src/ledgerutil.rs b/src/ledgerutil.rs
index 71fd285..528bb37 100644
--- a/src/ledgerutil.rs
+++ b/src/ledgerutil.rs
@@ -1,6 +1,8 @@
 //! Helpers for handling ledger-parser structures.
 
-use ledger_parser::{Amount, Ledger, LedgerItem, PostingAmount, Transaction};
+use ledger_parser::{
+    Amount, Ledger, LedgerItem, ParseError, Posting, PostingAmount, Transaction, TransactionStatus,
+};
 
 /// Returns a `PostingAmount` with only `.amount` set.
 pub fn simple_posting_amount(amount: Amount) -> PostingAmount {
@@ -23,3 +25,77 @@ where
         .collect(),
     }
 }
+
+/// Marks, in an inline comment, a posting that was written as cleared.
+const CLEARED_MARK: &str = "\u{e000}accountmerge-cleared";
+
+/// The characters that `ledger_parser` takes for the start of a comment line.
+const COMMENT_CHARS: [char; 5] = [';', '#', '%', '|', '*'];
+
+/// Parses the text of a Ledger journal.
+///
+/// `ledger_parser` takes an indented line that starts with `*` for a comment,
+/// even inside a transaction where it is a cleared posting. This presents such
+/// postings to it without the `*`, and restores their status afterwards.
+pub fn parse_ledger(content: &str) -> Result<Ledger, ParseError> {
+    let mut ledger = ledger_parser::parse(&mark_cleared_postings(content))?;
+    for item in &mut ledger.items {
+        if let LedgerItem::Transaction(trn) = item {
+            trn.postings.iter_mut().for_each(restore_cleared_posting);
+        }
+    }
+    Ok(ledger)
+}
+
+fn mark_cleared_postings(content: &str) -> String {
+    let mut marked = String::with_capacity(content.len());
+    let mut in_transaction = false;
+    for line in content.split_inclusive('\n') {
+        let text = line.trim_end_matches(['\r', '\n']);
+        let account = text.trim_start_matches([' ', '\t']);
+        let indent = &text[..text.len() - account.len()];
+        if account.is_empty() {
+            in_transaction = false;
+        } else if indent.is_empty() && !account.starts_with(COMMENT_CHARS) {
+            in_transaction = account.starts_with(|c: char| c.is_ascii_digit());
+        }
+
+        let posting = account.strip_prefix('*').map(str::trim).filter(|posting| {
+            in_transaction
+                && !indent.is_empty()
+                && !posting.is_empty()
+                && !posting.starts_with(COMMENT_CHARS)
+        });
+        match posting {
+            Some(posting) => {
+                marked.push_str(indent);
+                marked.push_str(posting);
+                marked.push_str("  ;");
+                marked.push_str(CLEARED_MARK);
+                marked.push_str(&line[text.len()..]);
+            }
+            None => marked.push_str(line),
+        }
+    }
+    marked
+}
+
+fn restore_cleared_posting(posting: &mut Posting) {
+    let Some(comment) = &posting.comment else {
+        return;
+    };
+    let (inline, rest) = match comment.split_once('\n') {
+        Some((inline, rest)) => (inline, Some(rest)),
+        None => (comment.as_str(), None),
+    };
+    let Some(inline) = inline.strip_suffix(CLEARED_MARK) else {
+        return;
+    };
+
+    let inline = inline.strip_suffix(';').map(str::trim_end);
+    posting.status = Some(TransactionStatus::Cleared);
+    posting.comment = match (inline, rest) {
+        (Some(inline), Some(rest)) => Some(format!("{inline}\n{rest}")),
+        (inline, rest) => inline.or(rest).map(str::to_string),
+    };
+}
-- 
2.43.0


From 4a2a1c5558297c4c723b81cffc5d6c059c143f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 06/17] fix: write commodity names that need quotes with their
 quotes

---
 src/filespec.rs   |  2 +-
 src/ledgerutil.rs | 43 ++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/filespec.rs b/src/filespec.rs
index 3b71f85..779c957 100644
--- a/src/filespec.rs
+++ b/src/filespec.rs
@@ -85,6 +85,6 @@ pub fn write_file(file_spec: &FileSpec, content: &str) -> Result<()> {
 }
 
 pub fn write_ledger_file(file_spec: &FileSpec, ledger: &Ledger) -> Result<()> {
-    let content: String = format!("{}", ledger);
+    let content: String = ledgerutil::format_ledger(ledger.clone());
     write_file(file_spec, &content)
 }
diff --git a/src/ledgerutil.rs b/src/ledgerutil.rs
index 528bb37..9bd5400 100644
--- a/src/ledgerutil.rs
+++ b/src/ledgerutil.rs
@@ -1,7 +1,8 @@
 //! Helpers for handling ledger-parser structures.
 
 use ledger_parser::{
-    Amount, Ledger, LedgerItem, ParseError, Posting, PostingAmount, Transaction, TransactionStatus,
+    Amount, Balance, Ledger, LedgerItem, ParseError, Posting, PostingAmount, Price, Transaction,
+    TransactionStatus,
 };
 
 /// Returns a `PostingAmount` with only `.amount` set.
@@ -99,3 +100,43 @@ fn restore_cleared_posting(posting: &mut Posting) {
         (inline, rest) => inline.or(rest).map(str::to_string),
     };
 }
+
+/// The characters that a commodity name can only contain between quotes.
+const QUOTED_COMMODITY_CHARS: &str = "0123456789{}[]()~`!@#%^&*-=+\\'\",./? ;\t\r\n";
+
+/// Returns the text of a Ledger journal.
+///
+/// `ledger_parser` reads quoted commodity names, but writes them without their
+/// quotes. This puts the quotes back around the names that need them.
+pub fn format_ledger(mut ledger: Ledger) -> String {
+    for item in &mut ledger.items {
+        match item {
+            LedgerItem::Transaction(trn) => trn.postings.iter_mut().for_each(quote_posting),
+            LedgerItem::CommodityPrice(price) => {
+                quote_commodity(&mut price.commodity_name);
+                quote_commodity(&mut price.amount.commodity.name);
+            }
+            _ => {}
+        }
+    }
+    ledger.to_string()
+}
+
+fn quote_posting(posting: &mut Posting) {
+    if let Some(amount) = &mut posting.amount {
+        quote_commodity(&mut amount.amount.commodity.name);
+        let prices = amount.lot_price.iter_mut().chain(&mut amount.price);
+        for Price::Unit(price) | Price::Total(price) in prices {
+            quote_commodity(&mut price.commodity.name);
+        }
+    }
+    if let Some(Balance::Amount(balance)) = &mut posting.balance {
+        quote_commodity(&mut balance.commodity.name);
+    }
+}
+
+fn quote_commodity(name: &mut String) {
+    if name.contains(|c| QUOTED_COMMODITY_CHARS.contains(c)) {
+        *name = format!("\"{}\"", name.replace('"', "\\\""));
+    }
+}
-- 
2.43.0


From 69b4bb420b4bba33c21fc341ded922a0278bfb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 07/17] fix: refuse Nationwide CSV transaction rows with extra
 fields

---
 src/importers/nationwide_csv.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index f84a7e7..3e486da 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -104,11 +104,15 @@ impl NationwideCsv {
 
         let headers_str: Vec<&str> = headers.iter().map(String::as_str).collect();
         match &headers_str[..] {
-            ["Date", "Transactions", "Location", "Paid out", "Paid in"] => {
-                self.process_rows::<R, RecordFive>(csv_records, fp_prefix, account_name)
-            }
+            ["Date", "Transactions", "Location", "Paid out", "Paid in"] => self
+                .process_rows::<R, RecordFive>(csv_records, headers.len(), fp_prefix, account_name),
             ["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"] => {
-                self.process_rows::<R, RecordSix>(csv_records, fp_prefix, account_name)
+                self.process_rows::<R, RecordSix>(
+                    csv_records,
+                    headers.len(),
+                    fp_prefix,
+                    account_name,
+                )
             }
             _ => {
                 bail!(
@@ -122,6 +126,7 @@ impl NationwideCsv {
     fn process_rows<R: std::io::Read, T: DeserializeOwned + PostingFormer>(
         &self,
         csv_records: &mut csv::StringRecordsIter<R>,
+        num_columns: usize,
         fp_prefix: &str,
         account_name: &str,
     ) -> Result<Vec<Transaction>> {
@@ -132,6 +137,14 @@ impl NationwideCsv {
 
         for result in csv_records {
             let str_record = result?;
+            if str_record.len() != num_columns {
+                bail!(
+                    "bad file format: expected {} fields in transaction row, got {}: {:?}",
+                    num_columns,
+                    str_record.len(),
+                    str_record
+                );
+            }
             let record: T = str_record.deserialize(None)?;
 
             // Maintain the per-date counter. Include a sequence number to each
-- 
2.43.0


From 49fbd1c146a39b6c31e13c84b3edea602e5d8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:04 +0000
Subject: [PATCH 08/17] fix: read PayPal amounts as exact decimals

---
 src/importers/paypal_csv.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 7c9d722..213e06b 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -270,14 +270,24 @@ mod de {
         pub status: Status,
         #[serde(rename = "Currency")]
         pub currency: String,
-        #[serde(rename = "Amount")]
+        #[serde(rename = "Amount", deserialize_with = "deserialize_decimal")]
         pub amount: Decimal,
         #[serde(rename = "Receipt ID")]
         pub receipt_id: Option<String>,
-        #[serde(rename = "Balance")]
+        #[serde(rename = "Balance", deserialize_with = "deserialize_decimal")]
         pub balance: Decimal,
     }
 
+    /// Deserializes the exact decimal value. By default it would go through a
+    /// floating point value, losing digits.
+    fn deserialize_decimal<'de, D: Deserializer<'de>>(d: D) -> Result<Decimal, D::Error> {
+        let s = String::deserialize(d)?;
+        // Trailing zeros are not significant, particularly for fingerprints.
+        Decimal::from_str_exact(&s)
+            .map(|quantity| quantity.normalize())
+            .map_err(de::Error::custom)
+    }
+
     #[derive(Debug)]
     pub struct Date(pub NaiveDate);
 
-- 
2.43.0


From 3cfb9adf1d54d0eeacf0766d0f3524b3eec21492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:22 +0000
Subject: [PATCH 09/17] fix: refuse statement dates without a year of four
 digits

---
 src/importers/nationwide_csv.rs |  4 ++--
 src/importers/nationwide_pdf.rs |  3 +--
 src/importers/paypal_csv.rs     |  4 +++-
 src/importers/util.rs           | 13 +++++++++++++
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/importers/nationwide_csv.rs b/src/importers/nationwide_csv.rs
index 3e486da..f46d9d3 100644
--- a/src/importers/nationwide_csv.rs
+++ b/src/importers/nationwide_csv.rs
@@ -345,7 +345,7 @@ mod de {
 
     use crate::fingerprint::{Accumulator, FingerprintBuilder, Fingerprintable};
     use crate::importers::util::{
-        self_and_peer_fingerprints, FingerprintHalves, TransactionHalves,
+        parse_date, self_and_peer_fingerprints, FingerprintHalves, TransactionHalves,
     };
 
     /// Contains the directly deserialized values from the five-column
@@ -460,7 +460,7 @@ mod de {
         }
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
-            NaiveDate::parse_from_str(s, "%d %b %Y")
+            parse_date(s, "%d %b %Y")
                 .map(Date)
                 .map_err(de::Error::custom)
         }
diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index a9d164d..ee6d24d 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -251,8 +251,7 @@ impl TransactionsAccumulator {
                 if trn_line.detail.is_empty() {
                     // No use for empty detail
                 } else if trn_line.detail.starts_with("Effective Date ") {
-                    let edate =
-                        NaiveDate::parse_from_str(&trn_line.detail, "Effective Date %d %b %Y")?;
+                    let edate = util::parse_date(&trn_line.detail, "Effective Date %d %b %Y")?;
                     cur_trn.effective_date = Some(edate);
                 } else {
                     cur_trn.description.push(' ');
diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index 213e06b..f3cc88e 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -254,6 +254,8 @@ mod de {
     use serde::{de, Deserialize, Deserializer};
     use serde_derive::Deserialize;
 
+    use crate::importers::util::parse_date;
+
     #[derive(Deserialize)]
     pub struct Record {
         #[serde(rename = "Date")]
@@ -306,7 +308,7 @@ mod de {
         }
 
         fn visit_str<E: de::Error>(self, s: &str) -> Result<Self::Value, E> {
-            NaiveDate::parse_from_str(s, "%d/%m/%Y")
+            parse_date(s, "%d/%m/%Y")
                 .map(Date)
                 .map_err(de::Error::custom)
         }
diff --git a/src/importers/util.rs b/src/importers/util.rs
index 368ff0d..799958d 100644
--- a/src/importers/util.rs
+++ b/src/importers/util.rs
@@ -1,3 +1,5 @@
+use anyhow::{bail, Result};
+use chrono::{Datelike, NaiveDate};
 use ledger_parser::Amount;
 
 use crate::accounts::{EXPENSES_UNKNOWN, INCOME_UNKNOWN};
@@ -10,6 +12,17 @@ pub fn negate_amount(amt: Amount) -> Amount {
     }
 }
 
+/// Parses a date from a statement, which must have a year of four digits.
+///
+/// `%Y` alone also accepts years like "19", which it takes for the year 19.
+pub fn parse_date(s: &str, fmt: &str) -> Result<NaiveDate> {
+    let date = NaiveDate::parse_from_str(s, fmt)?;
+    if !(1000..=9999).contains(&date.year()) {
+        bail!("date {:?} does not have a year of four digits", s);
+    }
+    Ok(date)
+}
+
 pub struct AccountAmount {
     pub account: String,
     pub amount: Amount,
-- 
2.43.0


From 630efce058542ace181a7eda72e9f3690d5e13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:21 +0000
Subject: [PATCH 10/17] fix: accept lines of only spaces at the end of a
 transaction

---
 src/ledgerutil.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ledgerutil.rs b/src/ledgerutil.rs
index 9bd5400..cf0e054 100644
--- a/src/ledgerutil.rs
+++ b/src/ledgerutil.rs
@@ -37,7 +37,8 @@ const COMMENT_CHARS: [char; 5] = [';', '#', '%', '|', '*'];
 ///
 /// `ledger_parser` takes an indented line that starts with `*` for a comment,
 /// even inside a transaction where it is a cleared posting. This presents such
-/// postings to it without the `*`, and restores their status afterwards.
+/// postings to it without the `*`, and restores their status afterwards. It
+/// also presents lines of only spaces as empty lines.
 pub fn parse_ledger(content: &str) -> Result<Ledger, ParseError> {
     let mut ledger = ledger_parser::parse(&mark_cleared_postings(content))?;
     for item in &mut ledger.items {
@@ -56,8 +57,13 @@ fn mark_cleared_postings(content: &str) -> String {
         let account = text.trim_start_matches([' ', '\t']);
         let indent = &text[..text.len() - account.len()];
         if account.is_empty() {
+            // `ledger_parser` fails on spaces in the line that ends a
+            // transaction.
             in_transaction = false;
-        } else if indent.is_empty() && !account.starts_with(COMMENT_CHARS) {
+            marked.push_str(&line[text.len()..]);
+            continue;
+        }
+        if indent.is_empty() && !account.starts_with(COMMENT_CHARS) {
             in_transaction = account.starts_with(|c: char| c.is_ascii_digit());
         }
 
-- 
2.43.0


From 1cf4ccccd12e91bc12ad837e8698fdd1a3546bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:06 +0000
Subject: [PATCH 11/17] fix: refuse PayPal statements without the expected
 columns

---
 src/importers/paypal_csv.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/importers/paypal_csv.rs b/src/importers/paypal_csv.rs
index f3cc88e..cf9fac7 100644
--- a/src/importers/paypal_csv.rs
+++ b/src/importers/paypal_csv.rs
@@ -48,6 +48,7 @@ impl TransactionImporter for PaypalCsv {
             .trim(csv::Trim::All)
             .from_reader(self.input.reader()?);
         let headers = csv_rdr.headers()?.clone();
+        check_headers(&headers)?;
         let mut csv_records = csv_rdr.records();
 
         let tz_abbrs = TzAbbrDB::from_reader(self.timezone_abbr_file.reader()?)?;
@@ -234,6 +235,28 @@ impl Record {
     }
 }
 
+/// Columns that a PayPal statement must have, even if it has no rows.
+const REQUIRED_COLUMNS: &[&str] = &[
+    "Date",
+    "Time",
+    "Time zone",
+    "Name",
+    "Type",
+    "Status",
+    "Currency",
+    "Amount",
+    "Balance",
+];
+
+fn check_headers(headers: &csv::StringRecord) -> Result<()> {
+    for column in REQUIRED_COLUMNS {
+        if !headers.iter().any(|header| header == *column) {
+            bail!("bad file format: missing column {:?}", column);
+        }
+    }
+    Ok(())
+}
+
 fn deserialize_row(
     sr: csv::Result<csv::StringRecord>,
     headers: &csv::StringRecord,
-- 
2.43.0


From 82dd27659a1d44e4562535d7b4db69f722b14efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:23 +0000
Subject: [PATCH 12/17] fix: count PDF transactions of a day only by the lines
 that start one

A line without an amount that carries a new date made the first
transaction of that date count as its second one, and thereby get
another fingerprint than in a statement that starts on that date.
---
 src/importers/nationwide_pdf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index ee6d24d..c1dd53d 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -214,6 +214,7 @@ impl TransactionsAccumulator {
                 } else {
                     self.date_counter += 1;
                 }
+                self.prev_date = trn_line.implied_date;
                 self.cur_trn_opt = Some(TransactionBuilder::new(
                     trn_line.implied_date,
                     self.date_counter,
@@ -230,6 +231,7 @@ impl TransactionsAccumulator {
                 } else {
                     self.date_counter += 1;
                 }
+                self.prev_date = trn_line.implied_date;
                 self.cur_trn_opt = Some(TransactionBuilder::new(
                     trn_line.implied_date,
                     self.date_counter,
@@ -260,8 +262,6 @@ impl TransactionsAccumulator {
             }
         }
 
-        self.prev_date = trn_line.implied_date;
-
         let cur_trn: &mut TransactionBuilder = if let Some(cur_trn) = &mut self.cur_trn_opt {
             cur_trn
         } else {
-- 
2.43.0


From a1e3a7d56fb7ef32bf68ae238233fb6f7a6e54b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:29 +0000
Subject: [PATCH 13/17] fix: refuse PDF amounts with misplaced thousands
 separators

An amount like "12,34", such as OCR makes of "12.34", was taken for
1234.
---
 src/importers/nationwide_pdf.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index c1dd53d..44eec23 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -397,7 +397,14 @@ impl TransactionBuilder {
 }
 
 fn parse_amount(s: &str) -> Result<Amount> {
+    lazy_static! {
+        static ref THOUSANDS_RX: Regex = Regex::new(r"^-?\d{1,3}(,\d{3})+(\.\d+)?$").unwrap();
+    }
     let quantity = if s.contains(',') {
+        // A comma anywhere else is probably a misread decimal point.
+        if !THOUSANDS_RX.is_match(s) {
+            bail!("misplaced thousands separator in amount {:?}", s);
+        }
         Decimal::from_str(&s.replace(',', ""))?
     } else {
         Decimal::from_str(s)?
-- 
2.43.0


From b75e92b4470df77ac8c7b0bb7b49e21b9872ca22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:51 +0000
Subject: [PATCH 14/17] fix: do not take double quotes in OCR output for CSV
 quoting

A word that started with a double quote swallowed all the following
text up to the next quote, and with it transactions.
---
 src/importers/tesseract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importers/tesseract.rs b/src/importers/tesseract.rs
index 24379ce..12956d2 100644
--- a/src/importers/tesseract.rs
+++ b/src/importers/tesseract.rs
@@ -37,6 +37,8 @@ impl Document {
     pub fn from_tsv_reader<R: std::io::Read>(reader: R) -> Result<Self> {
         let r = csv::ReaderBuilder::new()
             .delimiter(b'\t')
+            // Tesseract writes text as it is, and never quotes it.
+            .quoting(false)
             .has_headers(true)
             .trim(csv::Trim::All)
             .from_reader(reader);
-- 
2.43.0


From df78a12c98dc5dfa4976da1b9a74322c62a6eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 15/17] fix: keep reading a PDF table after a change of year
 within it

The line of the year made the transaction lines around it look like they
were separated by blank lines, and the rest of the table was dropped.
---
 src/importers/nationwide_pdf.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 44eec23..8f37391 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -160,7 +160,7 @@ impl NationwidePdf {
 
         for trn_line in &trn_lines {
             if let Some(prev_trn_line) = prev_trn_line {
-                if trn_line.top > prev_trn_line.top + prev_trn_line.height * 2 {
+                if trn_line.top > prev_trn_line.max_next_top {
                     // There have been blank lines, this is probably the end of
                     // the transactions.
                     break;
@@ -471,7 +471,13 @@ mod table {
                     DateField::Year => {
                         // A transaction will not start on this line.
                         // Lines starting with years only specify the year, and
-                        // maybe a carry-over balance.
+                        // maybe a carry-over balance. They do not separate
+                        // the lines before and after them.
+                        if let Some(prev) = trn_lines.last_mut() {
+                            if line.top <= prev.max_next_top {
+                                prev.max_next_top = max_next_top(line);
+                            }
+                        }
                     }
                     _ => {
                         // Lines that start with day and month or nothing at all
@@ -484,7 +490,7 @@ mod table {
                                 receipt: self.columns.receipts.join_words_in(line),
                                 balance: self.columns.balance.join_words_in(line),
                                 top: line.top,
-                                height: line.height,
+                                max_next_top: max_next_top(line),
                             });
                         }
                     }
@@ -515,9 +521,15 @@ mod table {
         pub receipt: Option<String>,
         pub balance: Option<String>,
 
-        // Spatial position of the line on the page.
+        /// Spatial position of the line on the page.
         pub top: i32,
-        pub height: i32,
+        /// Lowest position of the next line, unless there are blank lines
+        /// before it.
+        pub max_next_top: i32,
+    }
+
+    fn max_next_top(line: &Line) -> i32 {
+        line.top + line.height * 2
     }
 
     impl fmt::Display for TransactionLine {
-- 
2.43.0


From da3f307ec9e25f0897ed31634d5e736e428dbf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 16/17] fix: refuse a PDF statement whose conversion fails

The exit status of Graphics Magick and Tesseract was ignored, and what they
had written before failing was imported as if it were the whole statement.
---
 src/importers/nationwide_pdf.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/importers/nationwide_pdf.rs b/src/importers/nationwide_pdf.rs
index 8f37391..9727bcb 100644
--- a/src/importers/nationwide_pdf.rs
+++ b/src/importers/nationwide_pdf.rs
@@ -98,10 +98,13 @@ impl NationwidePdf {
                 png_fmt.as_os_str(),
             ];
 
-            Command::new(self.graphics_magic_binary.as_os_str())
+            let status = Command::new(self.graphics_magic_binary.as_os_str())
                 .args(gm_args)
                 .status()
                 .context("converting PDF into PNG files")?;
+            if !status.success() {
+                bail!("converting PDF into PNG files: {}", status);
+            }
         }
 
         let png_list_file_path = tmpdir.path().join("png-files.txt");
@@ -137,10 +140,13 @@ impl NationwidePdf {
                 // Configuration to use (i.e output format).
                 "tsv".as_ref(),
             ];
-            Command::new(self.tesseract_binary.as_os_str())
+            let status = Command::new(self.tesseract_binary.as_os_str())
                 .args(tess_args)
                 .status()
                 .context("performing OCR on PNG files")?;
+            if !status.success() {
+                bail!("performing OCR on PNG files: {}", status);
+            }
         }
 
         {
-- 
2.43.0


From 1587e21d4f57105e67b901fd485833f770f938d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 17/17] fix: name the same fingerprint of a candidate every
 time

A posting with several fingerprints was named, in the candidate tags of
the postings it may match, by whichever of them the unordered set of its
tags gave first. The same input gave different unmerged output on each
run.
---
 src/merge/posting.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/merge/posting.rs b/src/merge/posting.rs
index 48dad95..6d30b47 100644
--- a/src/merge/posting.rs
+++ b/src/merge/posting.rs
@@ -329,8 +329,9 @@ fn merge(dest: &mut PostingInternal, mut src: PostingInternal) {
 }
 
 fn primary_fingerprint(comment: &Comment) -> &str {
+    // The set of tags has no fixed order: name the same one every time.
     fingerprints_from_comment(comment)
-        .next()
+        .min()
         .expect("must always have a fingerprint tag")
 }
 
-- 
2.43.0

