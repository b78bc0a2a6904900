#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "rust/src/api/booking/accumulator.rs"
P = []


def prop(id, title, statement, over, text, why, anchors, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, anchors=anchors,
                  technique=technique, note=note, na=na))


LEDGER = ("TLA+ specification Ledger.tla model checked with TLC on exhaustive small universes; those behaviours "
          "replayed into the real server and random ledgers' answers checked against it by TLC (LedgerTrace)")
LNOTE = ("Exhaustive over the small universes of themes.py; beyond those, conformance of the real server on the ledgers "
         "generated. Trusts TLC, the Java evaluators of decimals, and the Python abstraction of answers (model.py). "
         "Ledgers meeting known quirks of the booking library are not compared from there on, and counted.")

prop("C01", "Booked transactions balance",
     "Every transaction which booking accepts balances: in each currency, the weights of its booked postings (units at cost, else at price, else the units themselves) sum to zero within the tolerance in force, where a per-unit or total amount counts as written. A transaction whose postings do not balance is rejected with an error stating the residual of each currency.",
     ["inputs", "configurations"], "all transactions and tolerance options",
     "The two tests check the inferred tolerance of balance directives on one amount each; no test books a transaction.",
     [B, "rust/src/api/booking.rs", "rust/src/api/types/raw.rs"], LEDGER, LNOTE)
prop("C02", "What a posting leaves out is inferred, or reported",
     "Whatever a posting leaves out (units, currency, cost or price amounts or their currency, or the whole amount) is filled in with the only values which make the transaction balance, so that every posting of a booked transaction is complete. A transaction in which these cannot be determined is rejected with an error saying so.",
     ["inputs", "histories"], "all transactions with any combination of elided parts, and any holdings built up before",
     "No test elides anything; the combinations of elided parts across postings are too many to sample by hand.",
     [B, "rust/src/api/types/raw.rs", "rust/src/api/types/booked.rs"], LEDGER, LNOTE)
prop("C03", "Accounts are used only while open",
     "Transactions, pads and balance assertions are accepted only for accounts open at that point: an account which was never opened, or was closed before, yields an error on the posting or directive which uses it, naming as related the closing directive if any. An account may be opened once and closed once: opening an account which is open or was closed, and closing one which is not open, are errors and change nothing.",
     ["inputs", "histories"], "all sequences of open, close, transaction, pad and balance directives",
     "No test opens or closes an account; the property is about every history of an account.",
     [B], LEDGER, LNOTE)
prop("C04", "Accounts hold only the currencies they were opened with",
     "When an account was opened with a list of currencies, every posting, balance assertion and pad transfer in any other currency is rejected with an error on it which relates to the opening directive. Accounts opened without a list accept any currency.",
     ["inputs", "histories"], "all ledgers and currency lists, including currencies which are inferred and pads on either side",
     "No test opens an account with currencies.", [B], LEDGER, LNOTE)
prop("C05", "Balance assertions are checked against what was posted",
     "A balance assertion succeeds exactly if the units of the currency accumulated in the account and its sub-accounts, from all directives before it, differ from the asserted amount by no more than its tolerance: the explicit one, else twice the last decimal place given times the tolerance multiplier, else zero. A failed assertion is reported with the accumulated amount and the error, and from then on the account is taken to hold what was asserted.",
     ["inputs", "histories", "configurations"], "all ledgers, account hierarchies, precisions and tolerances",
     "The two tests try one amount within and one beyond an inferred tolerance.", [B], LEDGER, LNOTE)
prop("C06", "Pads fill exactly the gap to the next balance",
     "A pad is followed at once by a transaction of its date flagged as padding, which moves from the source account into the padded account exactly what the next balance assertion of that account lacks, and nothing else, so that the assertion holds. A pad is used at most once; one which is not needed, is superseded by a second pad of the account, or is never followed by a balance assertion is reported as unused.",
     ["inputs", "histories"], "all sequences of pads, balance assertions and postings over a hierarchy of accounts",
     "No test pads.", [B], LEDGER, LNOTE)
prop("C07", "Reductions are matched to lots by the account's booking method",
     "A posting at cost which reduces a holding is booked against the lots held which match its cost specification, chosen by the booking method of the account (strict: unambiguous or everything; strict-with-size: the oldest of exactly that size; FIFO, LIFO and HIFO: oldest, newest, dearest first; none: not matched), and appears as one posting for each lot at that lot's own cost, date and label. Lots never go below zero: a reduction which is ambiguous, matches nothing, or exceeds the matching lots is rejected with an error saying so.",
     ["inputs", "histories", "configurations"], "all histories of lots and reductions under every booking method",
     "No test buys or sells at cost.", [B, "rust/src/api/booking.rs"], LEDGER, LNOTE)
prop("C08", "Booked directives are the ones given",
     "Successful booking returns every directive given, in the order booked, each with its index, date, tags, links, metadata and all other content as given, and adds nothing but a padding transaction after each pad. Every posting of a transaction is there, in order and with its index, account, flag, tags, links and metadata, and each number, currency, date and label it gave is kept digit for digit, but for a price beside a cost, which is left out.",
     ["inputs"], "all ledgers of every kind of directive with any decoration",
     "No test looks at booked directives.", [B, "rust/src/api/types/booked.rs", "rust/src/api/types/raw.rs"], LEDGER, LNOTE)
prop("C09", "Booking reports exactly the faulty directives",
     "Booking either returns all directives booked, or nothing but a list of errors, one for each directive at fault, in the order they were met, then unused pads by date order. A rejected transaction, open or close leaves no trace in what follows, and no ledger, however wrong, leaves the request unanswered.",
     ["inputs", "histories"], "all ledgers with any number of faults",
     "No test has more than one error, or looks at what follows one.", [B, "rust/src/api/booking.rs", "rust/src/api/server.rs"], LEDGER, LNOTE)
prop("C10", "Booking errors point at what is wrong",
     "Every booking error identifies the directive at fault, or the posting within it when one posting is to blame, and the directives it relates to (where an account was opened or closed, or the second of two pads). For directives from a file it does so by the span of exactly that text in the sources, labelled by kind, with the enclosing transaction as context of a posting; for directives given as parameters, by their indices.",
     ["inputs"], "all ledgers with faults, from file or parameters",
     "No test looks at spans or indices of booking errors.", [B, "rust/src/api/booking/types.rs", "rust/src/api/server.rs", "rust/src/api/types/raw.rs"], LEDGER, LNOTE)
prop("C11", "Failed balances list the postings since the last assertion",
     "The error of a failed balance assertion gives the accumulated amount and how far it is off, and lists all booked postings in that currency to the account and its sub-accounts since the account's previous balance assertion, in order, one row each with date, amount, running total ending at the accumulated amount, and payee or narration. Sub-account names are shown when more than one account is involved.",
     ["inputs", "histories"], "all ledgers with failing balance assertions",
     "No test reads the annotation of an error.", [B], LEDGER, LNOTE)
prop("C12", "Booking honours the options of the beanfile",
     "The booking method, the inferred tolerance multiplier and the default inferred tolerances by currency (including the wildcard) set by options of the beanfile govern booking, whether the directives come from the file or from parameters. Without an option its default applies: strict booking, half of the last decimal place, and no tolerance where no decimals are given.",
     ["configurations", "inputs"], "all ledgers under every combination of these options",
     "The tests set no options through a beanfile.", ["rust/src/api/booking.rs", "rust/src/api/types/booking_type_conversions.rs", "rust/src/api/server.rs"], LEDGER, LNOTE)
prop("C13", "Booking the parsed directives equals booking the file",
     "Sending back the directives which the server parsed from a beanfile as the parameters of a book request gives the same outcome as booking the beanfile itself: the same booked directives, or the same errors on the same directives with the same reasons and annotations.",
     ["inputs"], "all beanfiles which parse",
     "No test serves directives or accepts them as parameters.", ["rust/src/api/server.rs", "rust/src/api/types/raw.rs", "rust/src/api/json_rpc.rs"], LEDGER, LNOTE)


LOADER = ("TLA+ specification Loader.tla model checked with TLC on all beanfiles of small universes of declarations; those "
          "files read by the real server and random files in all notations checked against it by TLC (LoaderTrace)")
LDNOTE = ("Exhaustive over the universes of check_loader.py to their depths; beyond those, conformance on the files generated. "
          "Trusts TLC, the Java evaluators of decimals, and the Python rendering and abstraction (loader.py). Where a file "
          "does not parse, only the first such place in it is required to be reported.")
LFILES = ["rust/src/api/server.rs", "rust/src/api/types/parser_type_conversions.rs", "rust/src/api/types/serializers.rs"]
prop("C14", "Parsed directives are the ones written",
     "The server returns each directive of the beanfile once, of its kind and with everything written in it: date, accounts, currencies, flags, payee and narration, strings, dates, labels, tags, links and metadata with their types, costs, prices and tolerances, each posting in order, and every number with the value and number of decimals written, also when written as an expression, with thousands separators, or in whatever spacing and comments. Its span, and that of each of its postings, resolves to exactly where it is written.",
     ["inputs"], "all beanfiles, of every kind of directive in every notation",
     "No test parses a beanfile.", LFILES, LOADER, LDNOTE)
prop("C15", "Included files and what is pushed come together in order",
     "The directives returned are those of the root file and of everything it includes, directly or by pattern, each file once, by date, on each date accounts opened first, then balances, and otherwise in the order read. A tag pushed applies to all directives from there until it is popped, across files, and so does metadata, of which the directive's own and else the latest pushed value counts.",
     ["inputs"], "all trees of included files with any sequence of directives, pushes and pops",
     "No test includes a file or pushes anything.", LFILES, LOADER, LDNOTE)
prop("C16", "Options are served as given",
     "The server returns exactly the options given in the beanfile and its includes, each with its value: the names of the account types, with their defaults, are always there, options which may be given several times have all their values, those which may not are errors when given twice, and an option which was not given is absent.",
     ["configurations", "inputs"], "all combinations of options over all files",
     "No test sets an option through a beanfile.", LFILES, LOADER, LDNOTE)
prop("C17", "Plugins are served as given",
     "The server returns the plugins of the beanfile and its includes in the order in which they are read, each as often as it is given, with its name and with its configuration string if it has one.",
     ["inputs", "configurations"], "all sequences of plugins over all files",
     "No test declares a plugin.", LFILES, LOADER, LDNOTE)
prop("C28", "Faults of the beanfile are all reported at their places",
     "A beanfile is either accepted, or rejected by an error for each fault in any of its files: text which does not parse, unknown, malformed or repeated options, pops without push and pushes without pop, and includes which fail or are repeated in another context. Each error has the span of the fault, a message and a reason, and the spans it relates to; it is the same whichever request asks. A beanfile which is accepted comes with a warning at each string of more lines than allowed.",
     ["inputs"], "all beanfiles with any number of faults in any file",
     "No test reads a faulty beanfile.", LFILES, LOADER, LDNOTE)


POD = ("TLA+ specification Pod.tla model checked with TLC on every session of small universes of requests; those sessions "
       "replayed into the real server and random sessions with it checked against the specification by TLC (PodTrace)")
PNOTE = ("Exhaustive over the universes of requests in check_pod.py to their depths; beyond those, conformance of recorded "
         "sessions. Trusts TLC and the Python abstraction of requests and replies (podcase.py).")
PFILES = ["rust/src/api/server.rs", "rust/src/api/json_rpc.rs"]

prop("C18", "Spans resolve to their place in the sources",
     "Resolving a span gives the file which contains it, the lines on which it begins and ends, counted from one, and its text without trailing whitespace. A span which makes no sense (no such source, out of range, backwards, or within a character) resolves to empty text at line one and never disturbs the server.",
     ["inputs"], "all spans over all sources, whatever characters these contain",
     "No test resolves a span.", PFILES, POD, PNOTE)
prop("C19", "Synthetic spans keep their fragments",
     "Each fragment created under a name gets a span of its own which from then on resolves to that name and fragment, at its lines among the fragments of that name, whatever is created later. Spans of real sources are not affected, and fragments of different names never share a source.",
     ["histories", "inputs"], "all sequences of creating and resolving spans", "No test creates synthetic spans.", PFILES, POD, PNOTE)
prop("C20", "Every request line gets one proper reply",
     "Every line sent to the server is answered by exactly one line, in order and without waiting for more input: a JSON-RPC 2.0 object with the id of the request and either a result of the type of its method or an error with code and message. A line which is not a proper request is answered with code -32700 and a null id, one of another protocol version with -32600, and the server carries on until the end of its input, when it exits with success.",
     ["inputs", "histories"], "all sequences of lines, well-formed or not", "No test runs the server.", PFILES, POD, PNOTE)
prop("C21", "Errors of the beanfile are told by their codes",
     "If the beanfile cannot be read, every proper request is answered with code 1 and a message naming the file. If it does not parse, requests which need its directives, options or plugins, and booking, are answered with code 2 and a report of each error, while all others work; booking errors have code 2 with spans for a beanfile and code 3 with indices for directives given as parameters.",
     ["inputs", "configurations"], "all methods over all kinds of beanfile",
     "No test serves a faulty or missing beanfile.", PFILES, POD, PNOTE)
prop("C22", "Answers do not depend on what was asked before",
     "Except for the synthetic spans created, the server keeps no state: the same request gets the same answer whatever requests came before it, in the same session or in another one with the same beanfile.",
     ["histories"], "all sequences of requests, within and across sessions", "No test makes two requests.", PFILES, POD, PNOTE)
prop("C23", "Reports are formatted with everything they say",
     "A formatted report shows its kind (error or warning), message and reason, and for its span, each context and each related span the label, the line number and that line of the source; an annotation follows it. Formatting several reports gives each as if formatted alone, in order, separated by an empty line, and formatting none gives an empty text.",
     ["inputs"], "all lists of reports over any sources", "No test formats a report.", PFILES, POD, PNOTE)
prop("C24", "Logging changes nothing but the log",
     "With LIMABEAN_POD_LOG set, every request and its reply are written to that file, in order, at the levels debug and trace, and the answers and exit of the server are the same as without it. Without it, nothing is logged.",
     ["configurations", "histories"], "all sessions under any setting of the log and its level",
     "No test enables logging.", ["rust/src/bin/limabean-pod/main.rs", "rust/src/api/server.rs"], POD, PNOTE)

TAB = ("TLA+ specification Tabulate.tla model checked with TLC on every cell made of a few leaves; those cells and random ones "
       "given to the real program and what it prints checked against the specification by TLC (TabulateTrace)")
TNOTE = ("Exhaustive over the cells of the themes in check_tabulate.py; beyond those, conformance on random cells. Trusts TLC and the "
         "widths of characters known to the generator. What the tabulator library gets wrong (known findings) is compared with that.")
prop("C25", "Cells are tabulated with their columns aligned",
     "limabean-pod tabulate prints the table of the cell it is given as JSON on its standard input, as lines ended by newlines, and exits with 0. Every text appears once, whole and unchanged, cells of a row from left to right with at least its gutter between and cells of a stack one below the other; in each column texts are aligned to the left, right or centre, and numbers by their anchor, as asked for, and all lines are of the same width. Any other input is refused with a reason on standard error, nothing on standard output, and exit status 1.",
     ["inputs"], "all cells, however nested, and all inputs which are no cells", "No test tabulates anything.",
     ["rust/src/bin/limabean-pod/main.rs", "rust/src/bin/limabean-pod/errors.rs"], TAB, TNOTE)
LAU = ("TLA+ specification Launcher.tla model checked with TLC on every combination of environment, arguments and programs of small universes; "
       "each replayed with the real launcher, and random ones with it, checked against the specification by TLC (LauncherTrace)")
LANOTE = ("Exhaustive over the combinations of the themes in check_launcher.py; beyond those, conformance on random ones. The launcher is built "
          "with and without an uberjar; java and clojure are stand-ins which record how they are run. Trusts TLC and these stand-ins.")
LAFILES = ["rust/src/bin/limabean/main.rs", "rust/src/bin/limabean/run.rs", "rust/src/bin/limabean/health.rs"]
prop("C26", "The launcher runs the runtime it is told to",
     "The launcher runs the local Clojure source if LIMABEAN_CLJ_LOCAL_ROOT is defined, else the uberjar given by LIMABEAN_UBERJAR, else the one given by LIMABEAN_UBERJAR when it was built, else the released application of its own version, and no other, whatever else is defined. Uberjars are run with java, the others with clojure with the dependencies in LIMABEAN_CLJ_DEPS added; these are ignored for uberjars, with a warning.",
     ["configurations"], "all combinations of variables, at build time and run time, and of programs available",
     "No test runs the launcher.", LAFILES, LAU, LANOTE)
prop("C27", "The launcher passes everything on",
     "The application is run exactly once, with all arguments of the launcher, unchanged and in order, and with its environment, directory and standard streams, and its end, by status or signal, is that of the launcher, which ends it if it is itself ended. --version among the arguments also prints the version of the launcher first, and -v or --verbose shows the command on standard error. If the runtime cannot be run, or if health, as first argument, finds it or the uberjar missing, this is told on standard error with exit status 1; otherwise health tells which version of java or clojure, and which uberjar, it found, and runs no application.",
     ["inputs", "configurations"], "all arguments, environments, inputs and ways in which the application ends",
     "No test runs the launcher.", LAFILES, LAU, LANOTE)

INTERP = ("The Clojure sources are run by the interpreter lib/clj.py, as no Clojure can be had here; it reproduces all expected outputs of test-cases "
          "(tools/goldens.py). ")
PLU = ("TLA+ specification Plugins.tla (the stages of loading, one directive at a time through a chain of plugins) model checked with TLC on small universes of plugin scripts; "
       "each replayed by the application's own code with real scripted plugins and the real server, and random ones checked against it by TLC (PluginsTrace)")
PNOTE = ("Exhaustive over the chains of plugins of the themes in check_plugins.py; beyond those, conformance on random chains and beanfiles. What the server "
         "answers is taken as given (C01-C24). " + INTERP + "Trusts TLC, that interpreter, and the scripted plugins.")
PLUF = ["clj/src/limabean/adapter/plugins.clj", "clj/src/limabean/adapter/loader.clj", "clj/src/limabean/adapter/synthetic_spans.clj", "clj/src/limabean/plugin.clj"]
prop("C29", "Plugins transform directives in the order declared",
     "When a beanfile is loaded, the raw transducers of its plugins transform the parsed directives, and the booked ones the booked directives, in the order in which the plugins are declared, each with its own configuration and the options; what they make of the directives is what is booked, and what results, in that order. A plugin which can't be resolved prevents all further processing; one which throws leaves the state reached until then. Each directive keeps where it was written, and one made or changed by plugins names these, in order, as its provenance, and gets a source of its own which shows it as it then was.",
     ["inputs", "histories"], "all sequences of plugins over all beanfiles", "Nothing is run by the tests of the baseline; the tests of the Clojure part run two plugins.",
     PLUF, PLU, PNOTE)
prop("C33", "What goes wrong in loading a beanfile is told in full",
     "Loading a beanfile succeeds, or tells what went wrong: every plugin which can't be resolved and why; the plugins whose transducers threw, and what; every error which plugins found in directives, at the text they made of it, and where it was written beside; every error of parsing and of booking, at its place in what the user wrote, naming the plugins that changed it. It tells nothing else, never fails itself, and no directives are then used.",
     ["inputs", "histories"], "all beanfiles with any faults and all plugins", "Nothing is run by the tests of the baseline.",
     PLUF + ["clj/src/limabean/adapter/error.clj"], PLU, PNOTE)
QUE = ("TLA+ specification Query.tla model checked with TLC on all small ledgers and queries of several universes; each replayed by the application's own code, "
       "and random ledgers and queries checked against it by TLC (QueryTrace)")
QNOTE = ("Exhaustive over the ledgers and queries of the themes in check_query.py; beyond those, conformance on random ones. " + INTERP + "Trusts TLC and that interpreter.")
prop("C30", "Inventories are the sums of their postings",
     "An inventory holds for each account and currency exactly the sum of the units posted there, positions of equal cost merged and others apart where the account's booking method keeps lots, and none of zero; balances are those of the accounts of assets and liabilities, income statements those of income and expenses, as the options name these. What is shown of them lists each account and position once, with its number in full.",
     ["inputs", "configurations"], "all booked ledgers, options and booking methods", "Nothing is run by the tests of the baseline; those of the Clojure part show four inventories.",
     ["clj/src/limabean.clj", "clj/src/limabean/core/inventory.clj", "clj/src/limabean/core/registry.clj", "clj/src/limabean/core/cell.clj"], QUE, QNOTE)
prop("C31", "Queries select exactly what their filters say",
     "A query with filters uses exactly the postings which satisfy all of them: dates compared with the bounds as given, accounts of the given names and their sub-accounts, and texts which match; what lacks the field in question is left out. A date which is none is refused.",
     ["inputs"], "all filters and ledgers", "Nothing is run by the tests of the baseline; those of the Clojure part sample a few dates and accounts.",
     ["clj/src/limabean/core/filters.clj", "clj/src/limabean.clj", "clj/src/limabean/core/xf.clj"], QUE, QNOTE)
prop("C32", "Rollups and journals add up",
     "A rollup has for each account of an inventory and each of its parents the sum of what is held there and below in the currency most used, and nothing else. A journal lists the postings in the order of the ledger with their dates, payees, narrations, flags and units, each with the balance, of each currency, of all listed up to and with it.",
     ["inputs"], "all inventories and postings", "Nothing is run by the tests of the baseline; those of the Clojure part show four of each.",
     ["clj/src/limabean/core/rollup.clj", "clj/src/limabean/core/journal.clj", "clj/src/limabean.clj", "clj/src/limabean/core/cell.clj"], QUE, QNOTE)
prop("C34", "Printed directives read back as they are",
     "The application prints directives, at its prompt, in goldens and in the files of LIMABEAN_DEBUG_DIR, as beancount text: one directive of it for each, in order, in one layout, which reads back as the same directives, with every date, number, text, currency, account, flag, tag, link and metadata; of a cost or price which is known both per unit and in total, per unit. With LIMABEAN_DEBUG_DIR each stage of loading which has directives is dumped to its own file, BASENAME.STAGE.beancount, and no other.",
     ["inputs"], "all directives which text can say, and all stages of loading all beanfiles", "Nothing is run by the tests of the baseline; texts of the test cases of the Clojure part are kept but not compared.",
     ["clj/src/limabean/core/format.clj", "clj/src/limabean/adapter/print.clj", "clj/src/limabean/adapter/debug.clj", "clj/src/limabean/adapter/loader.clj"],
     "TLA+ specification Format.tla of printing and reading directives model checked with TLC on every shape of directive and small documents; each printed and read again by the application's own code, "
     "and random directives and beanfiles checked against it by TLC (FormatTrace)",
     "Exhaustive over the shapes of FormatMC.tla; beyond those, conformance on random directives, with texts, names and numbers of many forms. " + INTERP + "Trusts TLC and that interpreter.")
prop("C35", "A run of the application does what its command line says",
     "The application answers --help and --version, and refuses a wrong command line telling every wrong option, with the right exit status and without loading anything; otherwise it loads the beanfile which --beanfile, or else LIMABEAN_BEANFILE, names, then every file of LIMABEAN_USER_CLJ in order, then evaluates the expression of --eval, or what is entered at the prompt. A user file which fails is told by name and keeps no other from being loaded, an exception of the expression is told and ends with status 1, one at the prompt is told, kept in *exception* and ends nothing, and errors in the beanfile are no failure of the run. What is loaded at the prompt replaces all of what was loaded before.",
     ["inputs"], "all command lines, environments, user files and sessions", "Nothing is run by the tests of the baseline; those of the Clojure part start no application.",
     ["clj/src/limabean/main.clj", "clj/src/limabean/app.clj", "clj/src/limabean/adapter/user_clj.clj", "clj/src/limabean/adapter/exception.clj", "clj/src/limabean/user.clj"],
     "TLA+ specification App.tla of runs of the application model checked with TLC on all short command lines and on sessions; each done by the application's own code from -main to its exit, "
     "and random runs checked against it by TLC (AppTrace)",
     "Exhaustive over the words of check_app.py to a depth; beyond those, conformance on random command lines, environments, user files and sessions. The prompt itself (rebel-readline) is stood in for. " + INTERP + "Trusts TLC and that interpreter.")
prop("C36", "auto_accounts opens accounts where they are first used",
     "With the plugin beancount.plugins.auto_accounts, every account used by a transaction which no open directive before it opens is opened just before it, at its date: once, in the order of names, and marked by the metadata auto. It opens nothing else, and all directives of the beanfile go through as they are and in order.",
     ["inputs"], "all beanfiles", "Nothing is run by the tests of the baseline; those of the Clojure part run it on one beanfile.",
     ["clj/src/beancount/plugins/auto_accounts.clj"],
     "TLA+ specification AutoAccounts.tla of the plugin model checked with TLC on all short sequences of directives; each loaded as a beanfile by the application's own code with the real plugin, "
     "and random beanfiles checked against it by TLC (AutoAccountsTrace)",
     "Exhaustive over the directives of check_auto.py to a depth; beyond those, conformance on random beanfiles. What the server reads of the beanfile is taken as given (C14). " + INTERP + "Trusts TLC and that interpreter.")

ACC = "rust/src/api/booking/accumulator.rs"
SRV = "rust/src/api/server.rs"
# what in the code is meant to make it hold
MECH = {
    "C01": [("booking library call and residual tolerance", ACC + ":book")],
    "C02": [("interpolation of elided values", ACC + ":book"), ("posting specs", "rust/src/api/booking/types.rs")],
    "C03": [("account map and validation", ACC + ":validate_account, open, close, pad, balance")],
    "C04": [("currency validation", ACC + ":validate_currency, validate_account_and_currency")],
    "C05": [("rollup and margin", ACC + ":balance, calculate_balance_margin, total_rollup_units_for_currency, adjust_account_to_match_balance")],
    "C06": [("pending pads", ACC + ":pad, balance, calculate_balance_pad_postings")],
    "C07": [("inventory and booking method of each account", ACC + ":book"), ("method names", "rust/src/api/booking.rs")],
    "C08": [("construction of booked directives", ACC + ":directive, transaction, book"), ("serialisation", "rust/src/api/types/serializers.rs")],
    "C09": [("collecting errors", ACC + ":collect"), ("replies", SRV + ":book")],
    "C10": [("indexed reports", ACC), ("resolving to spans", SRV + ":book, write_error_reports")],
    "C11": [("postings since the last balance", ACC + ":balance_report")],
    "C12": [("default booking and tolerance", "rust/src/api/booking.rs:book"), ("options", SRV + ":book")],
    "C13": [("raw directives from parser or JSON", "rust/src/api/types/parser_type_conversions.rs"), ("book with parameters", SRV + ":book")],
    "C14": [("parsed directives", "rust/src/api/types/parser_type_conversions.rs"), ("serialisation", "rust/src/api/types/serializers.rs")],
    "C15": [("parsed directives", "rust/src/api/types/parser_type_conversions.rs:parser.directives")],
    "C16": [("options", SRV + ":parser_options"), ("serialisation", "rust/src/api/types/serializers.rs")],
    "C17": [("plugins", SRV + ":parser_plugins")],
    "C28": [("parse errors and warnings", SRV + ":write_error_reports, parser_directives"), ("reports", "rust/src/api/types/parser_type_conversions.rs")],
    "C18": [("spans", SRV + ":parser_resolve_spans"), ("spans of directives", "rust/src/api/types/parser_type_conversions.rs")],
    "C19": [("synthetic spans", SRV + ":parser_create_synthetic_spans")],
    "C20": [("request loop", SRV + ":serve, dispatch"), ("requests and responses", "rust/src/api/json_rpc.rs")],
    "C21": [("healthy, parse error and failed servers", SRV + ":dispatch, write_error_reports, write_other_error")],
    "C22": [("dispatch", SRV + ":dispatch")],
    "C23": [("formatting", SRV + ":parser_format_report")],
    "C24": [("logging", "rust/src/bin/limabean-pod/main.rs")],
    "C25": [("tabulate", "rust/src/bin/limabean-pod/main.rs")],
    "C26": [("choice of runtime", "rust/src/bin/limabean/run.rs:Runtime::from_env, command")],
    "C29": [("resolving, running and tagging", "clj/src/limabean/adapter/plugins.clj"), ("stages", "clj/src/limabean/adapter/loader.clj"),
            ("sources of their own", "clj/src/limabean/adapter/synthetic_spans.clj")],
    "C30": [("accumulation", "clj/src/limabean/core/inventory.clj"), ("queries", "clj/src/limabean.clj")],
    "C31": [("filters", "clj/src/limabean/core/filters.clj")],
    "C32": [("rollup", "clj/src/limabean/core/rollup.clj"), ("journal", "clj/src/limabean/core/journal.clj"), ("cells", "clj/src/limabean/core/cell.clj")],
    "C33": [("reports", "clj/src/limabean/adapter/loader.clj:book-raw-directives, resolve-reports-from-raw"), ("telling", "clj/src/limabean/adapter/error.clj")],
    "C34": [("text", "clj/src/limabean/core/format.clj"), ("dumps", "clj/src/limabean/adapter/debug.clj, loader.clj:dump")],
    "C35": [("command line", "clj/src/limabean/main.clj:validate-args, -main"), ("running", "clj/src/limabean/app.clj"), ("user code", "clj/src/limabean/adapter/user_clj.clj")],
    "C36": [("plugin", "clj/src/beancount/plugins/auto_accounts.clj:raw-xf")],
    "C27": [("running the command", "rust/src/bin/limabean/run.rs:run, run_or_fail"), ("health", "rust/src/bin/limabean/health.rs")],
}


def anchors(p):
    m = MECH.get(p["id"], [])
    return {"files": p["anchors"], "mechanism": [{"name": n, "where": w} for n, w in m] or [{"name": p["title"], "where": p["anchors"][0]}],
            "observe_at": ["stdin and stdout of limabean-pod serve"] if p["id"] < "C25" or p["id"] == "C28" else
                          ["stdin, stdout and stderr of limabean-pod tabulate"] if p["id"] == "C25" else
                          ["what the launcher runs, its output and its exit status"] if p["id"] in ("C26", "C27") else
                          ["*beans* and *directives* after load-beanfile, standard error, requests to limabean-pod"] if p["id"] in ("C29", "C33") else
                          ["what is printed of directives, files in LIMABEAN_DEBUG_DIR"] if p["id"] == "C34" else
                          ["standard output, standard error and exit status of the application"] if p["id"] == "C35" else
                          ["directives before and after the raw plugins, in *beans*"] if p["id"] == "C36" else
                          ["values of the queries of the user namespace, and the cells shown"]}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors(p)}, ensure_ascii=False) + "\n")
    checks = [{"property": p["id"], "quick_cmd": "bin/check %s" % p["id"],
               "thorough_cmd": "bin/check %s thorough" % p["id"],
               "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
              for p in P if not p["na"]]
    m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "One check for each property: bin/check ID [quick|thorough]. Generated by tools/mkprops.py."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
