ACC = "api/booking/accumulator.rs"
SRV = "api/server.rs"
PTC = "api/types/parser_type_conversions.rs"

bug("c18-leading-space", "C18",
    [(PTC, "            content: value.content,\n", "            content: value.content.trim_start(),\n")],
    r'''
bean = "2020-01-01 open Assets:A\n"
r = serve(bean, [req("parser.resolve-spans", [[0, 10, 15]])])[0]
expect(r["result"][0]["content"], " open")
''', "a span which begins with whitespace", "the content of a span loses its leading whitespace")

bug("c19-trimmed-fragment", "C19",
    [(SRV, ".create_synthetic_span(s.name.as_ref(), s.content.as_ref())", ".create_synthetic_span(s.name.as_ref(), s.content.trim_end_matches('\\n'))")],
    r'''
c = lambda t: req("parser.create-synthetic-spans", [{"name": "syn", "content": t}])
out = serve("2020-01-01 open Assets:A\n", [c("one\n"), c("two")])
spans = [o["result"][0] for o in out]
r = serve("2020-01-01 open Assets:A\n", [c("one\n"), c("two"), req("parser.resolve-spans", spans)])[2]
expect([(x["start-line"], x["content"]) for x in r["result"]], [(1, "one"), (2, "two")])
''', "a fragment ending in a newline, and another one of the same name after it",
    "lines of later fragments of a synthetic source are wrong")

bug("c20-blank-lines", "C20",
    [(SRV, """                        tracing::debug!("<- {}", json);
                        self.dispatch(json, w);""", """                        tracing::debug!("<- {}", json);
                        if !json.is_empty() {
                            self.dispatch(json, w);
                        }""")],
    r'''
out = serve("2020-01-01 open Assets:A\n", [req("status"), "", req("status", id=2)], check=False)
expect([o["id"] for o in out], [1, None, 2])
''', "an empty line", "empty lines are not answered")

bug("c20-multi-line", "C20",
    [(SRV, """        loop {
            buf.clear();

            match""", """        loop {
            match"""),
     (SRV, """                        self.dispatch(json, w);
""", """                        // a request may span several lines
                        let incomplete = serde_json::from_str::<serde::de::IgnoredAny>(json)
                            .is_err_and(|e| e.is_eof() && !json.is_empty());
                        if !incomplete {
                            self.dispatch(json, w);
                            buf.clear();
                        }
""")],
    r'''
out = serve("2020-01-01 open Assets:A\n", ['{"jsonrpc":"2.0","id":1', req("status", id=2)], check=False)
expect([o["id"] for o in out], [None, 2])
''', "a line with truncated JSON", "a truncated request is not answered, and swallows the next one")

bug("c21-spans-of-params", "C21",
    [(SRV, "(Some(param_directives), _) => (param_directives, false),",
      "(Some(param_directives), _) => (\n                            param_directives,\n                            !param_directives.is_empty()\n                                && param_directives.iter().all(|d| d.span.is_some()),\n                        ),")],
    r'''
bean = "2020-01-01 open Assets:A\n2020-01-02 balance Assets:B 1 USD\n"
r = serve(bean, [req("book", directives(bean))])[0]
expect((r["error"]["code"], r["error"]["data"][0].get("idx")), (3, [1]))
''', "faulty directives given as parameters all of which have spans", "booking errors of directives given as parameters have code 2 and no indices")

bug("c22-separator", "C22",
    [(SRV, """    parsed: Result<Parsed<'a>, Vec<parser::Error>>,
}""", """    parsed: Result<Parsed<'a>, Vec<parser::Error>>,
    sep: bool,
}"""), (SRV, """            _parser: parser,
            parsed,
""", """            _parser: parser,
            parsed,
            sep: false,
"""), (SRV, """    fn parser_format_report<'r, K, W>(
        &self,""", """    fn parser_format_report<'r, K, W>(
        &mut self,"""), (SRV, """        let mut buf = Vec::new();
        let mut sep = false;

        for report in reports {
            if sep {""", """        let mut buf = Vec::new();

        for report in reports {
            if self.sep {"""), (SRV, "            sep = true;\n", "            self.sep = true;\n")],
    r'''
bean = "2020-01-01 open Assets:A\n"
r = req("parser.format-errors", [{"message": "m", "reason": "r", "span": [0, 0, 20]}])
a, b = serve(bean, [r, r])
expect(b["result"], a["result"])
''', "formatting reports twice in one session", "the second time the text begins with an empty line")

bug("c23-foreign-context", "C23",
    [(PTC, """        self.contexts
            .iter()
            .flatten()
            .map(|(label, span)| (label.as_ref(), span.into()))""",
      """        self.contexts
            .iter()
            .flatten()
            .filter(|(_, span)| span.source == self.span.source)
            .map(|(label, span)| (label.as_ref(), span.into()))""")],
    r'''
bean = 'include "other.beancount"\n2020-01-01 open Assets:A\n'
r = serve(bean, [req("parser.format-errors", [{"message": "m", "reason": "r", "span": [0, 26, 40], "contexts": [["label", [1, 0, 10]]]}])],
          files={"other.beancount": "2020-01-01 open Assets:B\n"})[0]
assert "label" in r["result"], r["result"]
''', "a report with a context in another source", "contexts in other sources are not shown")

bug("c24-truncated-log", "C24",
    [(SRV, """fn write_response<W>(response: &ResultResponse, w: &mut W) -> io::Result<()>
where
    W: Write,
{
    match serde_json::to_string(&response) {
        Ok(json) => {
            tracing::debug!("-> {}", &json);""", """fn write_response<W>(response: &ResultResponse, w: &mut W) -> io::Result<()>
where
    W: Write,
{
    match serde_json::to_string(&response) {
        Ok(json) => {
            tracing::debug!("-> {}", &json[..json.len().min(1000)]);""")],
    r'''
bean = "".join('2020-01-01 event "where" "caf\u00e9%s \u00e9\u00e9"\n' % ("x" * k) for k in range(40))
serve(bean, [req("parser.directives"), req("status")], env={"LIMABEAN_POD_LOG": "$DIR/log"})
import re
assert "x" * 30 in re.sub(r"^.*<- .*$", "", serve.log, flags=re.M), "reply not logged"
''', "logging a reply longer than 1000 bytes, or one with a character of several bytes across byte 1000",
    "replies are not logged in full, and the server panics when the cut is within a character")
