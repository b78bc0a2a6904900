POD_MAIN = "bin/limabean-pod/main.rs"
TAB = r'''
def tabulate(data):
    p = subprocess.run([BIN + "/limabean-pod", "tabulate"], input=data if isinstance(data, bytes) else data.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout.decode(), p.stderr.decode()
'''

bug("c25-first-line", "C25",
    [(POD_MAIN, "    io::stdin().read_to_string(&mut input)?;\n", "    // one cell, however it is laid out\n    while !input.trim_end().ends_with('}') && io::stdin().read_line(&mut input)? > 0 {}\n"),
     (POD_MAIN, "    io::{self, Read},\n", "    io,\n")],
    TAB + r'''
expect(tabulate('{"stack": [\n  {"aligned": ["a", "left"]}, {"aligned": ["b", "left"]\n}]}\n')[1], "a\nb\n")
expect(tabulate('{"stack": [{"aligned": ["a", "left"]}\n, {"aligned": ["b", "left"]}\n]}\n')[1], "a\nb\n")
''', "a cell which is spread over lines, one of which ends with a brace", "it is read up to there only and refused")

bug("c25-trailing-text", "C25",
    [(POD_MAIN, "    match Cell::from_json(&input) {\n", "    // the cell may be followed by anything on further lines\n    let cell = input\n        .lines()\n        .next()\n        .and_then(|line| Cell::from_json(line).ok().map(Ok))\n        .unwrap_or_else(|| Cell::from_json(&input));\n    match cell {\n")],
    TAB + r'''
x = '{"aligned": ["a", "left"]}'
expect(tabulate(x + "\n")[:2], (0, "a\n"))
c, out, err = tabulate(x + "\n" + x + "\n")
expect((c, out), (1, ""))
''', "input with two cells, each on its line", "the second is silently ignored")

bug("c25-trailing-spaces", "C25",
    [(POD_MAIN, """            println!("{}", &cell);
""", """            for line in cell.to_string().lines() {
                println!("{}", line.trim_end());
            }
""")],
    TAB + r'''
expect(tabulate('{"row": [[{"aligned": ["a", "left"]}, {"aligned": ["b  ", "left"]}], " "]}')[1], "a b  \n")
''', "a table whose last column is padded", "lines lose their trailing spaces, so they are not of the same width")

bug("c25-not-utf8", "C25",
    [(POD_MAIN, "    io::stdin().read_to_string(&mut input)?;\n", "    let mut bytes = Vec::new();\n    io::stdin().read_to_end(&mut bytes)?;\n    input.push_str(&String::from_utf8_lossy(&bytes));\n")],
    TAB + r'''
expect(tabulate(b'{"aligned": ["\xc3\xa9", "left"]}')[:2], (0, "\u00e9\n"))
expect(tabulate(b'{"aligned": ["\xe9", "left"]}')[:2], (1, ""))
''', "input which is not UTF-8", "it is printed with replacement characters instead of being refused")

bug("c25-empty-input", "C25",
    [(POD_MAIN, "    match Cell::from_json(&input) {\n", "    // nothing to tabulate\n    if input.trim().is_empty() {\n        return Ok(());\n    }\n\n    match Cell::from_json(&input) {\n")],
    TAB + r'''
expect(tabulate('{"empty": null}')[:2], (0, "\n"))
expect(tabulate("\n")[:2], (1, ""))
''', "input which is empty or blank", "it is accepted")

bug("c25-long-input", "C25",
    [(POD_MAIN, "    io::stdin().read_to_string(&mut input)?;\n", "    io::stdin()\n        .take(MAX_TABULATE_INPUT)\n        .read_to_string(&mut input)?;\n"),
     (POD_MAIN, "fn tabulate() -> Result<(), crate::Error> {\n", "const MAX_TABULATE_INPUT: u64 = 64 * 1024;\n\nfn tabulate() -> Result<(), crate::Error> {\n")],
    TAB + r'''
for n in (1000, 100000):
    expect(tabulate('{"aligned": ["%s", "left"]}' % ("x" * n))[1], "x" * n + "\n")
''', "a cell of more than 64 KiB", "it is cut off, and refused")
