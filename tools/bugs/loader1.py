ACC = "api/booking/accumulator.rs"
SRV = "api/server.rs"
PTC = "api/types/parser_type_conversions.rs"
SER = "api/types/serializers.rs"

bug("c14-price-decimals", "C14",
    [(PTC, "                per_unit: value.amount().number().value(),", "                per_unit: value.amount().number().value().normalize(),")],
    r'''
directives("2020-01-01 price EUR 1.50 USD\n")
expect(":1.50" in serve.raw.replace(" ", ""), True)
''', "a price directive whose number ends in zeros", "prices lose their trailing zeros")

bug("c14-total-price", "C14",
    [(PTC, """            PPS::BareAmount(Total(expr)) => PriceSpec {
                per_unit: None,
                total: Some(expr.value()),
                cur: None,
            },""", """            PPS::BareAmount(Total(expr)) if expr.value().is_sign_negative() => PriceSpec {
                per_unit: None,
                total: Some(-expr.value()),
                cur: None,
            },
            PPS::BareAmount(Total(expr)) => PriceSpec {
                per_unit: None,
                total: Some(expr.value()),
                cur: None,
            },""")],
    r'''
d = directives("2020-01-01 * \"n\"\n  Assets:A 2 EUR @@ -3\n  Assets:B USD\n")[0]
expect(d["postings"][0]["price-spec"], {"total": -3})
''', "a posting with a negative total price without currency", "its sign is lost")

bug("c14-null-metadata", "C14",
    [(PTC, """            )| (k.item().into(), v.item().into()),
        )
""", """            )| (k.item().into(), v.item().into()),
        )
        .filter(|(_, v)| !matches!(v, MetaValue::Null))
""")],
    r'''
d = directives("2020-01-01 open Assets:A\n  note:\n  other: 1\n")[0]
expect(sorted(d["metadata"]), ["note", "other"])
''', "metadata without a value", "keys without value are dropped")

bug("c14-custom-repeated", "C14",
    [(PTC, """            values: value.values().map(|v| v.item().into()).collect::<Vec<_>>(),
""", """            values: {
                let mut values: Vec<MetaValue> =
                    value.values().map(|v| v.item().into()).collect::<Vec<_>>();
                values.dedup_by(|a, b| {
                    matches!((a, b), (MetaValue::String(x), MetaValue::String(y)) if x == y)
                });
                values
            },
""")],
    r'''
d = directives('2020-01-01 custom "budget" "x" "x" 3\n')[0]
expect(len(d["values"]), 3)
''', "a custom directive with the same string twice in a row", "the repeated value is dropped")

bug("c15-order-of-files", "C15",
    [(SRV, """                        directives: directives
                            .iter()
                            .map(Into::<Directive>::into)
                            .collect::<Vec<_>>(),
""", """                        directives: {
                            let mut raw = directives
                                .iter()
                                .map(Into::<Directive>::into)
                                .collect::<Vec<_>>();
                            // keep directives of one date in the order of their sources
                            raw.sort_by_key(|d| {
                                let is_open = matches!(d.variant, crate::api::types::raw::DirectiveVariant::Open(_));
                                let is_balance =
                                    matches!(d.variant, crate::api::types::raw::DirectiveVariant::Balance(_));
                                (
                                    d.date,
                                    if is_open { 0 } else if is_balance { 1 } else { 2 },
                                    d.span.map(|s| s.source),
                                )
                            });
                            raw
                        },
""")],
    r'''
ds = serve('include "a.bean"\n2020-01-01 note Assets:A "root"\n', [req("parser.directives")],
           files={"a.bean": '2020-01-01 note Assets:A "a"\n'})[0]["result"]["directives"]
expect([d["comment"] for d in ds], ["a", "root"])
''', "directives of one date in an included file and after the include", "directives of one date are not in the order read")

bug("c15-foreign-tags", "C15",
    [(PTC, """            tags: from_tags(value.metadata().tags()),
            links: from_links(value.metadata().links()),
            metadata: from_key_values(value.metadata().key_values()),
        }
    }
}

impl<'a> From<&'_ parser::DirectiveVariant<'a>>""", """            tags: from_tags(
                value
                    .metadata()
                    .tags()
                    .filter(|tag| tag.span().source == value.span().source)
                    .collect::<Vec<_>>()
                    .into_iter(),
            ),
            links: from_links(value.metadata().links()),
            metadata: from_key_values(value.metadata().key_values()),
        }
    }
}

impl<'a> From<&'_ parser::DirectiveVariant<'a>>""")],
    r'''
ds = serve('pushtag #t\ninclude "a.bean"\npoptag #t\n', [req("parser.directives")],
           files={"a.bean": '2020-01-01 note Assets:A "a"\n'})[0]["result"]["directives"]
expect(ds[0].get("tags"), ["t"])
''', "a tag pushed in a file which includes another", "a pushed tag does not apply to included files")

bug("c16-zero-tolerance", "C16",
    [(PTC, "            if let Some(cur) = cur {\n                inferred", "            if tol.is_zero() && cur.is_none() {\n                continue;\n            }\n            if let Some(cur) = cur {\n                inferred")],
    r'''
o = serve('option "inferred_tolerance_default" "*:0.00"\n', [req("parser.options")])[0]["result"]
expect(o.get("inferred-tolerance-default-fallback"), 0.0)
''', "the default tolerance of zero for all currencies", "it is not served")

bug("c16-documents", "C16",
    [(PTC, "            .map(|path| path.to_string_lossy().into_owned())",
      "            .map(|path| {\n                let path = path.to_string_lossy();\n                path.rsplit_once(\"//\").map_or(path.as_ref(), |(_, p)| p).trim_start_matches('/').to_owned()\n            })")],
    r'''
o = serve('option "documents" "/abs/docs"\n', [req("parser.options")])[0]["result"]
expect(o["documents"], ["/abs/docs"])
''', "an absolute path of documents", "it becomes a relative one")

bug("c16-default-mode", "C16",
    [(PTC, "plugin_processing_mode: value.plugin_processing_mode().map(|x| x.item().into()),",
      "plugin_processing_mode: value\n                .plugin_processing_mode()\n                .map(|x| *x.item())\n                .filter(|x| *x != parser::PluginProcessingMode::Default)\n                .map(|x| x.into()),")],
    r'''
o = serve('option "plugin_processing_mode" "DEFAULT"\n', [req("parser.options")])[0]["result"]
expect(o.get("plugin-processing-mode"), "default")
''', "the default plugin processing mode given explicitly", "it is not served")

bug("c17-same-plugin-twice", "C17",
    [(SRV, """                let plugins = plugins
                    .iter()
                    .map(|plugin| plugin.into())
                    .collect::<Vec<_>>();
""", """                let mut plugins = plugins
                    .iter()
                    .map(|plugin| plugin.into())
                    .collect::<Vec<crate::api::types::Plugin>>();
                plugins.dedup_by(|a, b| a.name == b.name && a.config.is_none());
""")],
    r'''
p = serve('plugin "a" "x"\nplugin "a"\n', [req("parser.plugins")])[0]["result"]
expect([(x["name"], x["config"]) for x in p], [("a", "x"), ("a", None)])
''', "a plugin declared with a configuration and then without", "the second declaration is lost")

bug("c17-empty-config", "C17",
    [(PTC, "            config: value.config().as_ref().map(|config| *config.item()),",
      "            config: value\n                .config()\n                .as_ref()\n                .map(|config| *config.item())\n                .filter(|config| !config.is_empty()),")],
    r'''
p = serve('plugin "a" ""\n', [req("parser.plugins")])[0]["result"]
expect(p[0]["config"], "")
''', "a plugin with an empty configuration", "its configuration is lost")

bug("c28-related-elsewhere", "C28",
    [(PTC, """    let related = eow
        .related()
""", """    let related = eow
        .related()
        .filter(|(_, span)| span.source == eow.span().source)
""")],
    r'''
e = serve('option "title" "a"\ninclude "a.bean"\n', [req("parser.options")],
          files={"a.bean": 'option "title" "b"\n'})[0]["error"]["data"]
expect([len(x.get("related", [])) for x in e], [1])
''', "an option given in two files", "the error does not relate to the first one")

bug("c28-errors-of-a-line", "C28",
    [(PTC, """    errors_or_warnings
        .iter()
        .map(|eow| from_error_or_warning(eow, None))
        .collect::<Vec<_>>()
""", """    use parser::Report;

    let mut seen = HashSet::new();
    errors_or_warnings
        .iter()
        .filter(|eow| seen.insert((eow.message().to_string(), eow.reason().to_string(), eow.span().start)))
        .map(|eow| from_error_or_warning(eow, None))
        .collect::<Vec<_>>()
""")],
    r'''
e = serve('include "a.bean"\ninclude "b.bean"\n', [req("parser.options")],
          files={"a.bean": 'poptag #x\n', "b.bean": "poptag #x\n"})[0]["error"]["data"]
expect(len(e), 2)
''', "the same fault at the same offset of two files", "only one of them is reported")

