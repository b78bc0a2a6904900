ACC = "api/booking/accumulator.rs"
TYP = "api/booking/types.rs"
SRV = "api/server.rs"
PTC = "api/types/parser_type_conversions.rs"

bug("c01-compound-cost", "C01",
    [(TYP, """    fn total(&self) -> Option<Decimal> {
        self.total
    }

    fn date(&self)""", """    fn total(&self) -> Option<Decimal> {
        // the per-unit cost is all we need if we have it
        if self.per_unit.is_some() {
            None
        } else {
            self.total
        }
    }

    fn date(&self)""")],
    r'''
r = book("""
2020-01-01 open Assets:Stock
2020-01-01 open Assets:Cash
2020-01-02 * "compound cost"
  Assets:Stock  10 VTI {5 # 3 USD}
  Assets:Cash  -50 USD
""")
expect(r.get("error", {}).get("code"), 2)
''', "a posting with a compound cost, both per unit and total ({5 # 3 USD})",
    "a transaction which doesn't balance, since the total part of its compound cost is ignored, is booked")

bug("c02-total-price-without-currency", "C02",
    [(PTC, """            PPS::BareAmount(Total(expr)) => PriceSpec {
                per_unit: None,
                total: Some(expr.value()),
                cur: None,""", """            PPS::BareAmount(PerUnit(expr) | Total(expr)) => PriceSpec {
                per_unit: Some(expr.value()),
                total: None,
                cur: None,"""),
     (PTC, """            PPS::BareAmount(PerUnit(expr)) => PriceSpec {
                per_unit: Some(expr.value()),
                total: None,
                cur: None,
            },
""", "")],
    r'''
r = book("""
2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 * "price without currency"
  Assets:A  10 EUR @@ 12
  Assets:B  -12 USD
""")
assert "result" in r, r
''', "a posting with a total price whose currency is left out (@@ 12)",
    "the total price is taken as a price per unit, so what is inferred from it is wrong")

bug("c03-balance-of-closed", "C03",
    [(ACC, """        let account = self.get_mut_valid_account(balance.acc, element)?;
        account.validate_currency(balance.cur, element)?;
""", """        let account = match self.accounts.get_mut(balance.acc) {
            Some(account) => account,
            None => return Err(element.report("account not open")),
        };
        account.validate_currency(balance.cur, element)?;
""")],
    r'''
r = book("""
2020-01-01 open Assets:A
2020-01-02 close Assets:A
2020-01-03 balance Assets:A 0 USD
""")
expect([d["reason"] for d in r.get("error", {}).get("data", [])], ["account was closed"])
''', "a balance assertion of an account after it was closed",
    "balance assertions of closed accounts are accepted")

bug("c04-inferred-currency", "C04",
    [(ACC, """                        let posting_element = (element, posting_idx).into();
                        self.validate_account_and_currency(
                            posting.acc,
                            interpolated.currency,
                            posting_element,
                        )
                        .map_or_else(Some, |_| None)""",
      """                        let posting_element = (element, posting_idx).into();
                        match posting.cur {
                            Some(cur) => self.validate_account_and_currency(
                                posting.acc,
                                cur,
                                posting_element,
                            ),
                            None => self.validate_account(posting.acc, posting_element),
                        }
                        .map_or_else(Some, |_| None)"""),
     (ACC, ".filter_map(|(posting_idx, (interpolated, posting))| {\n                        let posting_element",
      ".filter_map(|(posting_idx, (_, posting))| {\n                        let posting_element")],
    r'''
r = book("""
2020-01-01 open Assets:A EUR
2020-01-01 open Assets:B
2020-01-02 * "inferred currency"
  Assets:A
  Assets:B  -12 USD
""")
expect([d["reason"] for d in r.get("error", {}).get("data", [])], ["currency incompatible with account"])
''', "a posting to an account with a currency list which leaves out its currency, so that a forbidden one is inferred",
    "a currency which was inferred is put into an account which was not opened for it")

bug("c05-closed-subaccount", "C05",
    [(ACC, "is_nonstrict_subaccount(base_account_name, candidate).then_some(account)",
      """(is_nonstrict_subaccount(base_account_name, candidate)
                    && self.open_accounts.contains_key(candidate))
                .then_some(account)""")],
    r'''
r = book("""
2020-01-01 open Assets:Bank
2020-01-01 open Assets:Bank:Old
2020-01-01 open Equity:E
2020-01-02 * "opening"
  Assets:Bank:Old  10 USD
  Equity:E
2020-01-03 close Assets:Bank:Old
2020-01-04 balance Assets:Bank 10 USD
""")
assert "result" in r, r
''', "a sub-account closed while it holds something, then a balance assertion of its parent",
    "what closed sub-accounts hold is no longer counted by balance assertions")

bug("c05-zero-tolerance", "C05",
    [(ACC, "let effective_tolerance = balance.tolerance.unwrap_or_else(|| {",
      "let effective_tolerance = balance.tolerance.filter(|tol| !tol.is_zero()).unwrap_or_else(|| {")],
    r'''
r = book("""
2020-01-01 open Assets:Bank
2020-01-01 open Equity:E
2020-01-02 * "opening"
  Assets:Bank  10.01 USD
  Equity:E
2020-01-04 balance Assets:Bank 10.00 ~ 0 USD
""")
expect(r.get("error", {}).get("code"), 2)
''', "a balance assertion with an explicit tolerance of zero and a difference within the inferred tolerance",
    "an explicit tolerance of zero is ignored")

bug("c06-pad-outlives-balance", "C06",
    [(ACC, "        let pad = account.pad.take();\n",
      """        let pad = if margin.is_some() {
            account.pad.take()
        } else {
            None
        };
""")],
    r'''
r = book("""
2020-01-01 open Assets:Bank
2020-01-01 open Equity:E
2020-01-02 pad Assets:Bank Equity:E
2020-01-03 balance Assets:Bank 0 USD
2020-01-04 balance Assets:Bank 10 EUR
""")
expect(len(r.get("error", {}).get("data", [])), 2)
''', "a pad, a balance assertion which holds without it, and a later one which doesn't",
    "a pad is used for a balance assertion after the next one instead of being reported unused")

bug("c07-strict-with-size", "C07",
    [(TYP, "raw::StrictWithSize => StrictWithSize,", "raw::Strict | raw::StrictWithSize => Strict,"),
     (TYP, "            raw::Strict => Strict,\n", "")],
    r'''
r = book("""
2020-01-01 open Assets:Stock "STRICT_WITH_SIZE"
2020-01-01 open Equity:E
2020-01-02 * "buy"
  Assets:Stock  10 VTI {5 USD}
  Equity:E
2020-01-03 * "buy"
  Assets:Stock  7 VTI {6 USD}
  Equity:E
2020-01-04 * "sell"
  Assets:Stock  -7 VTI {}
  Equity:E  42 USD
""")
assert "result" in r, r
''', "an account opened with STRICT_WITH_SIZE and an ambiguous reduction of the size of one lot",
    "an account opened with STRICT_WITH_SIZE is booked as STRICT")

bug("c07-label-without-date", "C07",
    [(TYP, """    fn date(&self) -> Option<Date> {
        self.date
    }""", """    fn date(&self) -> Option<Date> {
        // a label is sufficient to identify a lot
        if self.label.is_some() && self.per_unit.is_none() && self.total.is_none() {
            None
        } else {
            self.date
        }
    }""")],
    r'''
r = book("""
2020-01-01 open Assets:Stock
2020-01-01 open Equity:E
2020-01-02 * "buy"
  Assets:Stock  10 VTI {5 USD, "lot"}
  Equity:E
2020-01-04 * "sell"
  Assets:Stock  -7 VTI {2020-01-03, "lot"}
  Equity:E
""")
expect(r.get("error", {}).get("code"), 2)
''', "a reduction whose cost specification gives both date and label but no amount, with a date which doesn't match",
    "the date of a cost specification is ignored if it has a label, so that a reduction matches a lot of another date")

bug("c08-metadata-at-cost", "C08",
    [(ACC, """                                .map(|(cost_cur, cost)| booked::Posting {
                                    idx: Some(posting_idx),
                                    flag: posting.flag.clone(),
                                    acc: account,
                                    units: cost.units,
                                    cur: currency,
                                    cost: Some(cur_posting_cost_to_cost(cost_cur, cost)),
                                    price: None,
                                    tags: posting.tags.clone(),
                                    links: posting.links.clone(),
                                    metadata: posting.metadata.clone(),""",
      """                                .enumerate()
                                .map(|(i, (cost_cur, cost))| booked::Posting {
                                    idx: Some(posting_idx),
                                    flag: posting.flag.clone(),
                                    acc: account,
                                    units: cost.units,
                                    cur: currency,
                                    cost: Some(cur_posting_cost_to_cost(cost_cur, cost)),
                                    price: None,
                                    tags: posting.tags.clone(),
                                    links: posting.links.clone(),
                                    // no need to repeat the metadata
                                    metadata: posting.metadata.clone().filter(|_| i == 0),""")],
    r'''
r = book("""
2020-01-01 open Assets:Stock "FIFO"
2020-01-01 open Equity:E
2020-01-02 * "buy"
  Assets:Stock  10 VTI {5 USD}
  Equity:E
2020-01-03 * "buy"
  Assets:Stock  10 VTI {6 USD}
  Equity:E
2020-01-04 * "sell"
  Assets:Stock  -15 VTI {}
    key: "value"
  Equity:E
""")
ps = r["result"]["directives"][-1]["postings"]
expect([p.get("metadata") for p in ps], [{"key": {"string": "value"}}] * 2 + [None])
''', "a reduction with metadata which spans several lots",
    "metadata of a posting is lost from all but the first of the booked postings it becomes")

bug("c08-trimmed-payee", "C08",
    [(ACC, "payee: transaction.payee.as_ref().map(|payee| payee.as_ref()),",
      "payee: transaction\n                .payee\n                .as_ref()\n                .map(|payee| payee.trim())\n                .filter(|payee| !payee.is_empty()),")],
    r'''
r = book("""
2020-01-01 open Assets:A
2020-01-02 * " Payee " "narration"
  Assets:A  0 USD
""")
expect(r["result"]["directives"][-1]["payee"], " Payee ")
''', "a payee with spaces around it", "a booked transaction has another payee than the one given")

bug("c09-trace-of-rejected", "C09",
    [(ACC, """                // check all postings have valid accounts and currencies
                // returning the first error
""", """                for (account_name, updated_positions) in updated_inventory {
                    if let Some(account) = self.accounts.get_mut(account_name) {
                        account.positions = updated_positions;
                    }
                }

                // check all postings have valid accounts and currencies
                // returning the first error
"""), (ACC, """                for (account_name, updated_positions) in updated_inventory {
                    let account = self.get_mut_valid_account(account_name, element)?;

                    account.positions = updated_positions;
                }

                Ok(booked_postings)""", "                Ok(booked_postings)")],
    r'''
r = book("""
2020-01-01 open Assets:A
2020-01-02 * "rejected"
  Assets:A  10 USD
  Assets:Nowhere
2020-01-03 balance Assets:A 0 USD
""")
expect([d["reason"] for d in r["error"]["data"]], ["account not open"])
''', "a transaction rejected because of one account, then a balance assertion of another account in it",
    "a rejected transaction leaves its postings in accounts which are open")

bug("c10-second-pad", "C10",
    [(ACC, """            return Err(unused_pad
                .report("unused, second pad encountered")
                .related_to(element));""", """            return Err(element
                .report("unused, second pad encountered")
                .related_to(unused_pad));""")],
    r'''
r = book("""
2020-01-01 open Assets:A
2020-01-01 open Assets:B
2020-01-02 pad Assets:A Assets:B
2020-01-03 pad Assets:A Assets:B
""")
d = r["error"]["data"]
assert d[0]["span"][1] < d[0]["related"][0][1][1], d
''', "two pads of one account without a balance assertion between", "the error points at the second pad instead of the first, which is the one unused")

bug("c10-context-of-posting", "C10",
    [(PTC, """            txn.postings
                .get(posting_idx)
                .map(|posting| posting.span.unwrap())
                .unwrap(),""", """            txn.postings
                .iter()
                .filter(|posting| posting.units.is_some())
                .nth(posting_idx)
                .or(txn.postings.get(posting_idx))
                .map(|posting| posting.span.unwrap())
                .unwrap(),""")],
    r'''
bean = """
2020-01-01 open Assets:A
2020-01-02 * "faulty"
  Assets:A
  Assets:B  10 USD
  Assets:A  -12 USD
"""
r = book(bean)
_, a, b = r["error"]["data"][0]["span"]
assert bean[a:b].startswith("Assets:B"), bean[a:b]
''', "a posting at fault which comes after one without an amount", "the error points at a posting after the one at fault")

bug("c11-padding-not-listed", "C11",
    [(ACC, """            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                for pst in &txn.postings {""", """            if let booked::DirectiveVariant::Transaction(txn) = &dct.variant
                && txn.flag != PAD_FLAG
            {
                for pst in &txn.postings {""")],
    r'''
r = book("""
2020-01-01 open Assets:A
2020-01-01 open Assets:A:Sub
2020-01-01 open Equity:E
2020-01-02 pad Assets:A:Sub Equity:E
2020-01-03 balance Assets:A:Sub 10 USD
2020-01-04 balance Assets:A 20 USD
""")
d = r["error"]["data"]
assert "2020-01-02" in d[0].get("annotation", ""), d
expect(d[0]["reason"], "accumulated 10, error 10 USD")
''', "a failed balance of an account in which a sub-account was padded",
    "padding transactions are left out of the report of a failed balance")

bug("c11-description", "C11",
    [(ACC, "let description = txn.payee.or(txn.narration);", "let description = txn.narration.or(txn.payee);")],
    r'''
r = book("""
2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "payee" "narration"
  Assets:A  10 USD
  Equity:E
2020-01-04 balance Assets:A 20 USD
""")
d = r["error"]["data"]
assert "payee" in d[0]["annotation"], d
''', "a failed balance with a transaction which has both payee and narration", "the report lists narrations where it should list payees")

bug("c12-multiplier-clamped", "C12",
    [(ACC, """                    .inferred_tolerance_multiplier()
                    .unwrap_or(Decimal::new(5, 1));""", """                    .inferred_tolerance_multiplier()
                    .map(|multiplier| multiplier.min(Decimal::ONE))
                    .unwrap_or(Decimal::new(5, 1));""")],
    r'''
r = book("""
option "inferred_tolerance_multiplier" "1.5"
2020-01-01 open Assets:A
2020-01-01 open Equity:E
2020-01-02 * "payee" "narration"
  Assets:A  10.03 USD
  Equity:E
2020-01-04 balance Assets:A 10.00 USD
""")
assert "result" in r, r
''', "the option inferred_tolerance_multiplier above 1", "multipliers above 1 are not honoured by balance assertions")

bug("c13-posting-flag", "C13",
    [("api/types/raw.rs", """pub struct PostingSpec<'a> {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub(crate) span: Option<Span>,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub(crate) flag""", """pub struct PostingSpec<'a> {
    #[serde(skip_serializing_if = "Option::is_none")]
    pub(crate) span: Option<Span>,
    #[serde(skip)]
    pub(crate) flag""")],
    r'''
bean = """
2020-01-01 open Assets:A
2020-01-02 * "flags"
  ! Assets:A  10 USD
  Assets:A  -10 USD
"""
ds = directives(bean)
a, b = serve(bean, [req("book"), req("book", ds)])
expect(b["result"], a["result"])
''', "a posting with a flag of its own", "flags of postings are lost when directives go through the client")
