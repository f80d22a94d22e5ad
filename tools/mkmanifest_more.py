RULES = ("TLC checks the Rules specification (interpreter, predicates with an explicit regular-expression semantics, actions, loader) "
         "exhaustively over small rule tables; the tables and seeded random tables are run through apply-rules and every recorded "
         "run is validated against the specification by TLC. Regular expressions from the subset of Regex.tla.")
MORE = {p: ("Rules.tla, Regex.tla", RULES) for p in ("C09", "C10", "C11", "C12")}
MORE["C13"] = ("Comment.tla", "TLC checks the comment reader and writer of the specification exhaustively over short strings of a small alphabet; "
               "those comments and seeded random ones go through apply-rules, merge and generate-fingerprints twice and TLC validates what came out. "
               "Characters from the alphabet of Comment.tla.")
MORE["C14"] = ("Journal.tla", "TLC enumerates journals item by item with every combination of optional parts; each is written as text in several layouts, "
               "formatted twice by the binary, and TLC compares the items before and after. Random longer journals besides. Numbers up to 28 digits.")
MORE["C15"] = ("FpGen.tla", "TLC checks the state machine of fingerprint generation exhaustively over small journals; those and random journals are run "
               "twice through the binary and then merged, and TLC validates each step.")
MORE["C25"] = ("Whole.tla, Journal.tla", "TLC checks the line-by-line reader of journals and what commands take and hand on exhaustively over short sequences of lines of every kind; those "
               "and seeded random journals go through merge, apply-rules, generate-fingerprints and fmt, and TLC validates outcome and output.")
FILES = ("TLC checks the file system specification (commands, options, faults, the order of writes) exhaustively over small configurations; each is "
         "laid out in a scratch directory, the binary is run there, and TLC validates the tree before and after. Faults are those of inputs, not of the disk.")
MORE["C16"] = ("Files.tla", FILES)
MORE["C23"] = ("Files.tla", FILES + " Repeated runs sample the hash orders of separate processes.")
MORE["C24"] = ("Files.tla", FILES)
IMPORT = ("TLC checks the importer specification (%s) exhaustively over small statements; those statements and seeded random ones, well-formed and damaged, "
          "go through the real import command (with stub conversion tools for PDF), and TLC computes from each input what must come out and compares. %s")
MORE["C17"] = ("Nationwide.tla, Fields.tla", IMPORT % ("Nationwide.tla", "Characters from the table of Fingerprint.tla."))
MORE["C18"] = ("PayPal.tla, Fields.tla", IMPORT % ("PayPal.tla", "Ten output timezones with the rules in force since 2007."))
MORE["C19"] = ("Fingerprint.tla, Nationwide.tla, PayPal.tla, Pdf.tla", IMPORT % ("Nationwide.tla, PayPal.tla, Pdf.tla", "The specification fixes the bytes that are hashed; SHA-1 itself is a table made by Python's hashlib. Zeros written as negative are not judged."))
MORE["C20"] = ("Pdf.tla", IMPORT % ("Pdf.tla", "From the OCR table on; the conversion tools are stubs."))
MORE["C21"] = ("Fields.tla, Nationwide.tla, PayPal.tla, Pdf.tla", IMPORT % ("Fields.tla and the importers", "TLC enumerates the texts of single fields over small alphabets; some texts outside the documented form may be refused or read in the one way the specification gives."))
MORE["C22"] = ("Pipeline.tla, Merge.tla", "TLC checks every short history of imports, rules, edits and merges of the abstract pipeline; those histories, made concrete for each importer, and longer "
               "seeded random ones are run through import, apply-rules, fmt, generate-fingerprints and merge, and TLC validates every merge. Statements overlap by whole days.")
