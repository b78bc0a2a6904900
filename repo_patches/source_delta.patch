From 36fccad06651403f1c2aa4bc254c31eaf19e462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:48 +0000
Subject: [PATCH 01/28] fix: echo request id in
 parser.plugins/directives/options replies when the beanfile has parse errors

---
 rust/src/api/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 5cacd71..824cdf6 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -215,7 +215,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -241,7 +241,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
@@ -259,7 +259,7 @@ impl<'a> HealthyServer<'a> {
             }
             Err(errors) => {
                 let reports = create_reports_from_parser_errors(errors);
-                write_error_reports(None, reports, w)
+                write_error_reports(id, reports, w)
             }
         }
     }
-- 
2.43.0


From 5f0e86f70cb8c497fe543d84999bd898019936ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 02/28] fix: accept and echo any JSON-RPC string or number as
 request id

---
 rust/src/api/json_rpc.rs | 7 +++----
 rust/src/api/server.rs   | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/rust/src/api/json_rpc.rs b/rust/src/api/json_rpc.rs
index 1b0dbfe..2f79c7c 100644
--- a/rust/src/api/json_rpc.rs
+++ b/rust/src/api/json_rpc.rs
@@ -145,12 +145,11 @@ where
     data: Option<T>,
 }
 
-#[derive(Serialize, Deserialize, Copy, Clone, Debug)]
+#[derive(Serialize, Deserialize, Clone, Debug)]
 #[serde(untagged)]
 pub(crate) enum Id<'a> {
-    String(&'a str),
-    Int(i32),
-    Float(f64),
+    String(Cow<'a, str>),
+    Number(serde_json::Number),
 }
 
 pub(crate) const JSONRPC_VERSION: &str = "2.0";
diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 824cdf6..e48644c 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -416,7 +416,7 @@ where
                 ))
             } else {
                 write_error::<Report, W>(
-                    response.id,
+                    response.id.clone(),
                     ERROR_INTERNAL,
                     Cow::Owned(e.to_string()),
                     None,
-- 
2.43.0


From 63784c4b47306f6a2f7bbe5ff01619a66a523899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 03/28] fix: a rejected reopen of a closed account must not
 reopen it

---
 rust/src/api/booking/accumulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 7158802..ba984b5 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -576,12 +576,12 @@ impl<'a, 't> Accumulator<'a, 't> {
                     .related_to(*open_entry.get()));
             }
             Vacant(open_entry) => {
-                open_entry.insert(element);
-
                 // cannot reopen a closed account
                 if let Some(closed) = self.closed_accounts.get(open.acc) {
                     return Err(element.report("account was closed").related_to(*closed));
                 } else {
+                    open_entry.insert(element);
+
                     let mut booking = open
                         .booking
                         .map(|booking| booking.into())
-- 
2.43.0


From 7b5df68e7968a4cb590c6b19733dd8559ef740fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:09 +0000
Subject: [PATCH 04/28] fix: reject a pad directive whose source account is not
 open, rather than panic at the balance

---
 rust/src/api/booking/accumulator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index ba984b5..fddd482 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -661,6 +661,7 @@ impl<'a, 't> Accumulator<'a, 't> {
         ),
         IndexedReport,
     > {
+        self.validate_account(pad.source, element)?;
         let account = self.get_mut_valid_account(pad.acc, element)?;
 
         let unused_pad = account.pad.take();
-- 
2.43.0


From c77ce9a2d4d014d4cc160651928293beb0a1e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 05/28] fix: check the pad source account accepts the padded
 currency

---
 rust/src/api/booking/accumulator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index fddd482..8d3e306 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -440,7 +440,7 @@ impl<'a, 't> Accumulator<'a, 't> {
                 margin: Some(margin),
             }));
         }
-        let (booked_pad_idx, _) = pad.unwrap();
+        let (booked_pad_idx, pad_idx) = pad.unwrap();
 
         adjust_account_to_match_balance(account, balance.cur, margin, Adjustment::Add);
 
@@ -455,6 +455,10 @@ impl<'a, 't> Accumulator<'a, 't> {
             );
         };
         let pad_source = pad.source;
+        self.accounts
+            .get(pad_source)
+            .unwrap()
+            .validate_currency(balance.cur, pad_idx)?;
 
         let booked::DirectiveVariant::Transaction(txn) =
             &mut booked_directives[booked_pad_idx + 1].variant
-- 
2.43.0


From e08ed2d7c8c3c67095fd290dfc3d50294e53cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 06/28] fix: accumulate only the asserted currency, from the
 actual starting total, in balance failure reports

---
 rust/src/api/booking/accumulator.rs | 32 +++++++++++++++--------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 8d3e306..6a4df1c 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -496,27 +496,29 @@ impl<'a, 't> Accumulator<'a, 't> {
         let mut diagnostics = Vec::default();
         let mut accounts = HashSet::<&str>::default();
 
-        let mut total = if balance_window.start < booked_directives.len()
-            && let booked::DirectiveVariant::Balance(bal) =
-                &booked_directives[balance_window.start].variant
-        {
-            if bal.raw.cur == cur {
-                // let bal_date = booked_directives[balance_window.start].date;
-                // diagnostics.push((bal_date, None, bal.raw.units));
-
-                bal.raw.units
-            } else {
-                Decimal::ZERO
-            }
-        } else {
-            Decimal::ZERO
+        let is_relevant = |pst: &booked::Posting<'a>| {
+            pst.cur == cur && is_nonstrict_subaccount(base_account_name, pst.acc)
         };
 
+        // the account has already been adjusted by the margin, so work back from there to the start of the window
+        let window_total = booked_directives[balance_window.clone()]
+            .iter()
+            .filter_map(|dct| match &dct.variant {
+                booked::DirectiveVariant::Transaction(txn) => Some(&txn.postings),
+                _ => None,
+            })
+            .flatten()
+            .filter(|pst| is_relevant(pst))
+            .map(|pst| pst.units)
+            .sum::<Decimal>();
+        let mut total =
+            self.total_rollup_units_for_currency(base_account_name, cur) - margin - window_total;
+
         // determine context for error by collating postings since last balance
         for dct in &booked_directives[balance_window.clone()] {
             if let booked::DirectiveVariant::Transaction(txn) = &dct.variant {
                 for pst in &txn.postings {
-                    if is_nonstrict_subaccount(base_account_name, pst.acc) {
+                    if is_relevant(pst) {
                         total += pst.units;
                         let description = txn.payee.or(txn.narration);
 
-- 
2.43.0


From 58a4d157d0ab39a7b4e6cf1b753face970e1c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:50 +0000
Subject: [PATCH 07/28] fix: report unused pads in directive order

---
 rust/src/api/booking/accumulator.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rust/src/api/booking/accumulator.rs b/rust/src/api/booking/accumulator.rs
index 6a4df1c..624d5dd 100644
--- a/rust/src/api/booking/accumulator.rs
+++ b/rust/src/api/booking/accumulator.rs
@@ -59,10 +59,14 @@ impl<'a, 't> Accumulator<'a, 't> {
         } = self;
 
         // check for unused pad directives
-        for account in accounts.values() {
-            if let Some((_, pad)) = &account.pad {
-                errors.push(pad.report("unused, no balance directive"))
-            }
+        let mut unused_pads = accounts
+            .values()
+            .filter_map(|account| account.pad.as_ref())
+            .collect::<Vec<_>>();
+        // report in directive order rather than arbitrary hash order
+        unused_pads.sort_by_key(|(_, pad)| pad.directive);
+        for (_, pad) in unused_pads {
+            errors.push(pad.report("unused, no balance directive"))
         }
 
         if errors.is_empty() {
-- 
2.43.0


From 759a79a3dde572d0e6643f9d8ebc66638b40a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:16 +0000
Subject: [PATCH 08/28] fix: return the parser's warnings with the parsed
 directives

---
 rust/src/api/server.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index e48644c..67c1b8a 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -225,7 +225,11 @@ impl<'a> HealthyServer<'a> {
         W: Write,
     {
         match &self.parsed {
-            Ok(Parsed { directives, .. }) => {
+            Ok(Parsed {
+                directives,
+                warnings,
+                ..
+            }) => {
                 let response = ResultResponse::new(
                     id,
                     ResultData::RawDirectives(RawDirectives {
@@ -233,7 +237,8 @@ impl<'a> HealthyServer<'a> {
                             .iter()
                             .map(Into::<Directive>::into)
                             .collect::<Vec<_>>(),
-                        warnings: None,
+                        warnings: (!warnings.is_empty())
+                            .then(|| create_reports_from_parser_errors(warnings)),
                     }),
                 );
 
-- 
2.43.0


From c62acee00e67fa2db75b0f5974a35b0e007826e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 09/28] fix: rows from postings print as data, not as the
 directive type

---
 clj/src/limabean/core/xf.clj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/xf.clj b/clj/src/limabean/core/xf.clj
index 79644d5..bbce0b3 100644
--- a/clj/src/limabean/core/xf.clj
+++ b/clj/src/limabean/core/xf.clj
@@ -10,5 +10,7 @@
   []
   (comp (filter #(= :txn (:dct %)))
         (mapcat #(map (fn [pst]
-                        (merge (select-keys % [:date :payee :narration]) pst))
+                        (merge {}
+                               (select-keys % [:date :payee :narration])
+                               pst))
                    (:postings %)))))
-- 
2.43.0


From e05e7d63a97057011166edd3184434fae0f3ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 10/28] fix: positions of equal cost merge whatever the scale
 of the cost

---
 clj/src/limabean/core/inventory.clj | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/inventory.clj b/clj/src/limabean/core/inventory.clj
index be17ac4..9e2b7a2 100644
--- a/clj/src/limabean/core/inventory.clj
+++ b/clj/src/limabean/core/inventory.clj
@@ -70,7 +70,9 @@
   [pos]
   (let [cost (:cost pos)]
     (if cost
-      [(:date cost) (:cur cost) (:per-unit cost) (:label cost) (:merge cost)]
+      ;; per-unit may be an integer or decimal, and must compare equal either way
+      [(:date cost) (:cur cost) (some-> (:per-unit cost)
+                                        bigdec) (:label cost) (:merge cost)]
       [])))
 
 (defn- update-or-set
-- 
2.43.0


From b007f0c3ca2d05cd33bda3e12db0b53dcdc7e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 11/28] fix: rollup of an empty inventory

---
 clj/src/limabean.clj | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean.clj b/clj/src/limabean.clj
index eb10097..86ff65a 100644
--- a/clj/src/limabean.clj
+++ b/clj/src/limabean.clj
@@ -31,7 +31,8 @@
   ```
   "
   [inv]
-  (let [primary-cur (first (apply max-key val (inventory/cur-freq inv)))]
+  (let [cur-freq (inventory/cur-freq inv)
+        primary-cur (when (seq cur-freq) (first (apply max-key val cur-freq)))]
     (rollup/build inv primary-cur)))
 
 (defn balances
-- 
2.43.0


From f2dd5a26db7ddc356ae39d87c1c2ef8b13eaa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 12/28] fix: show decimals plainly, never with an exponent, in
 tables

---
 clj/src/limabean/core/cell.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/cell.clj b/clj/src/limabean/core/cell.clj
index 959761f..0496813 100644
--- a/clj/src/limabean/core/cell.clj
+++ b/clj/src/limabean/core/cell.clj
@@ -71,7 +71,7 @@
 
 (defmethod cell ::number
   [x]
-  (let [s (str x)
+  (let [s (if (decimal? x) (.toPlainString ^BigDecimal x) (str x))
         dp (or (str/index-of s ".") (str/index-of s "/") (count s))]
     (anchored s (dec dp))))
 
-- 
2.43.0


From 3a3571c60c50dfdd0021e72c6ae2b3c937ad1093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 13/28] fix: show the source of a directive modified by a
 plugin in its errors

---
 clj/src/limabean/adapter/error.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 5af1bfb..3b3999a 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -25,7 +25,7 @@
                         (cond-> {:message (:plugin err),
                                  :reason (:message err),
                                  :span (or (:span-p dct) (:span dct))}
-                          (and (:span dct) (:span-p :dct))
+                          (and (:span dct) (:span-p dct))
                             (assoc :related [["source" (:span dct)]])))
                    (:err dct)))
          dct-errors)))
-- 
2.43.0


From 44412492bf2d0bf7ff1e1d5d8362f020b0ada8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 14/28] fix: dump the directives resulting from plugins

---
 clj/src/limabean/adapter/loader.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 2403984..c21660d 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -74,7 +74,7 @@
                                    (:pod m)))
                  dct-errors (filterv :err xf-directives)]
              (cond-> (assoc m (:xf-directives key) xf-directives)
-               (debug/dump-configured?) (dump (:directives key))
+               (debug/dump-configured?) (dump (:xf-directives key))
                (seq dct-errors) (assoc-in [:error (:plugins key) :dct-errors]
                                   dct-errors)))
            (catch Exception e
-- 
2.43.0


From 9078d2ae6ef877e89b466ebf08cb42f8ff6f25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 15/28] fix: tag the provenance of a directive as booked only
 once

---
 clj/src/limabean/adapter/plugins.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 7c32262..15127f2 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -77,7 +77,7 @@
             :provenance
             #(let [existing (or % [])]
                (cond-> existing
-                 (and phase (not (contains? existing phase))) (conj phase)
+                 (and phase (not (some #{phase} existing))) (conj phase)
                  true (conj provenance))))))
 
 (defn- compose-and-wrap-resolved-plugins
-- 
2.43.0


From 33e2daebbd9da2228f7a5b0d86f9bf05ab6bb47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 16/28] fix: report the errors of booking parsed directives

---
 clj/src/limabean/adapter/loader.clj | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index c21660d..da51759 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -170,10 +170,16 @@
                     :booked-directives (type/directives resolved-directives))
             (debug/dump-configured?) (dump :booked-directives)
             (seq warnings) (assoc :booked-warnings warnings)))
-        (let [indexed-reports (:indexed-reports err)
-              spanned-reports (resolve-reports-from-raw indexed-reports
-                                                        raw-directives)]
-          (assoc-in m [:error :booking] {:spanned-reports spanned-reports}))))
+        ;; parsed directives are reported by span, those from plugins by index
+        (let [{:keys [spanned-reports indexed-reports message]} err]
+          (assoc-in m
+            [:error :booking]
+            (if message
+              {:message message}
+              {:spanned-reports (or spanned-reports
+                                    (resolve-reports-from-raw
+                                      indexed-reports
+                                      raw-directives))})))))
     (catch Exception e
       (assoc-in m [:error :booking] {:exception (Throwable->map e)}))))
 
-- 
2.43.0


From bef861f29c6bf6781a6ef424295790f9a7221ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 17/28] fix: show the directive as context of errors in its
 postings

---
 clj/src/limabean/adapter/loader.clj | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index da51759..2f7d2ae 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -127,7 +127,7 @@
       (and (:provenance dct) (or (:span pst) (:span dct)))
         (update :description
                 #(str % ", modified by " (str/join " " (:provenance dct))))
-      pst (assoc :context ["txn" dct-span]))))
+      pst (assoc :contexts [[(dct-name dct) dct-span]]))))
 
 (defn- resolve-report-related
   "Return a function to resolve the related field in a report"
@@ -139,12 +139,12 @@
 (defn- resolve-report-from-raw
   "Resolve idx to span in indexed report"
   [report raw-directives]
-  (let [{:keys [description span context]} (resolve-report-idx (:idx report)
-                                                               raw-directives)]
+  (let [{:keys [description span contexts]} (resolve-report-idx (:idx report)
+                                                                raw-directives)]
     (cond-> (assoc (select-keys report [:reason :annotation])
               :message (str "invalid " description)
               :span span)
-      context (assoc :context context)
+      contexts (assoc :contexts contexts)
       (:related report) (assoc :related
                           (mapv (resolve-report-related raw-directives)
                             (:related report))))))
-- 
2.43.0


From 0eae3d9a6195584d387eb36eb228c43fc59189bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 18/28] fix: allow integer tolerance in the directive spec

---
 clj/src/limabean/spec.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/spec.clj b/clj/src/limabean/spec.clj
index 2645447..cb7a9b4 100644
--- a/clj/src/limabean/spec.clj
+++ b/clj/src/limabean/spec.clj
@@ -41,7 +41,7 @@
 (s/def ::narration string?)
 
 ;; balance fields
-(s/def ::tolerance decimal?)
+(s/def ::tolerance ::number)
 
 ;; open fields
 (s/def ::currencies (s/coll-of ::cur :kind set?))
-- 
2.43.0


From 5147233246f16151fb0e00a6ae4cb79943a16491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 19/28] fix: print the cause of an exception thrown by plugins

---
 clj/src/limabean/adapter/error.clj  | 2 +-
 clj/src/limabean/adapter/loader.clj | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/error.clj b/clj/src/limabean/adapter/error.clj
index 3b3999a..1f6969c 100644
--- a/clj/src/limabean/adapter/error.clj
+++ b/clj/src/limabean/adapter/error.clj
@@ -36,7 +36,7 @@
         spanned-reports' (or spanned-reports (dct-errors->reports dct-errors))]
     (when message (println message))
     (when spanned-reports' (println (pod/format-errors pod spanned-reports')))
-    (when exception (println (:message exception)))))
+    (when exception (println (:cause exception)))))
 
 (defn print-errors
   "Print errors if any."
diff --git a/clj/src/limabean/adapter/loader.clj b/clj/src/limabean/adapter/loader.clj
index 2f7d2ae..c2e95d1 100644
--- a/clj/src/limabean/adapter/loader.clj
+++ b/clj/src/limabean/adapter/loader.clj
@@ -86,7 +86,7 @@
                                 " plugin, all "
                                 kind-name
                                 " plugins ignored")),
-                :exception e}))))))
+                :exception (Throwable->map e)}))))))
 
 (defn- merge-span-and-provenance
   [booked raw]
-- 
2.43.0


From 213429c5f20a043fdd2e6af097b95c8c368fb3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 20/28] fix: give directives created with an error a source, so
 the error may be reported

---
 clj/src/limabean/adapter/plugins.clj | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/plugins.clj b/clj/src/limabean/adapter/plugins.clj
index 15127f2..18348d3 100644
--- a/clj/src/limabean/adapter/plugins.clj
+++ b/clj/src/limabean/adapter/plugins.clj
@@ -49,7 +49,9 @@
   (mapv (resolve-xfs-with-config options) plugins))
 
 (defn- tag-and-validate-unseen
-  "Transducer to tag non-error directives which haven't been seen before, and if spec is non-nil, validate"
+  "Transducer to tag directives which haven't been seen before, and if spec is non-nil, validate.
+
+  A directive marked with an error keeps its own source, and is tagged only if it has none."
   [known-directives tagf spec]
   (fn [rf]
     (fn
@@ -59,7 +61,7 @@
       ([result] (rf result))
       ;; step
       ([result d]
-       (if (and (not (:err d))
+       (if (and (not (and (:err d) (or (:span d) (:provenance d))))
                 (not (contains? @known-directives (System/identityHashCode d))))
          (let [tagged-d (tagf d)]
            (vreset! known-directives
-- 
2.43.0


From b80184c48f70e3d1b04b2467e051edb02163e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 21/28] fix: escape quotes and backslashes in strings of
 printed directives

---
 clj/src/limabean/core/format.clj | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index d4cee09..631116e 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -11,9 +11,9 @@
           :else "nil")))
 
 (defn- double-quote
-  "Double quote a string, otherwise nil"
+  "Double quote a string, escaping as required, otherwise nil"
   [s]
-  (and (string? s) (format "\"%s\"" s)))
+  (and (string? s) (format "\"%s\"" (str/escape s {\\ "\\\\", \" "\\\""}))))
 
 (defn- prefix
   "Prefix a string, otherwise nil"
-- 
2.43.0


From b5c846bdc76502946749d31374ddd2b21f5202ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 22/28] fix: print tolerance of balance before its currency

---
 clj/src/limabean/core/format.clj | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 631116e..cc72468 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -130,8 +130,10 @@
       :txn (print-txn-specific-header-fields dct)
       :price (let [price (:price dct)]
                (print "" (:cur dct) (str (:per-unit price)) (:cur price)))
-      :balance (do (print "" (:acc dct) (str (:units dct)) (:cur dct))
-                   (when-let [tol (:tolerance dct)] (print " ~" (str tol))))
+      :balance (do (print "" (:acc dct) (str (:units dct)))
+                   (when-let [tol (:tolerance dct)]
+                     (print " ~" (str tol)))
+                   (print "" (:cur dct)))
       :open (do (print "" (:acc dct))
                 (when-let [currencies (:currencies dct)]
                   (print "" (str/join "," (sort currencies))))
-- 
2.43.0


From 88fee7c2c62755c9a1076a72b55935f04815f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 23/28] fix: print total price as @@

---
 clj/src/limabean/core/format.clj | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index cc72468..ae1d64e 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -77,13 +77,14 @@
 (defn- price->str
   "Convert price or price-spec to string"
   [price]
-  (with-out-str (print "@")
-                ;; print at most one of per-unit and total, preferring
-                ;; per-unit
-                (if-let [per-unit (:per-unit price)]
-                  (print "" (str per-unit))
-                  (when-let [total (:total price)] (print " #" (str total))))
-                (when-let [cur (:cur price)] (print "" cur))))
+  (with-out-str
+    ;; print at most one of per-unit and total, preferring per-unit
+    (if-let [per-unit (:per-unit price)]
+      (print "@" (str per-unit))
+      (if-let [total (:total price)]
+        (print "@@" (str total))
+        (print "@")))
+    (when-let [cur (:cur price)] (print "" cur))))
 
 (defn- print-posting
   [pst]
-- 
2.43.0


From 3767a945385bee848c8161d527f8d833bcc8bffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:50 +0000
Subject: [PATCH 24/28] fix: print numbers of directives without exponent

---
 clj/src/limabean/core/format.clj | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index ae1d64e..5ad9b2d 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -15,6 +15,11 @@
   [s]
   (and (string? s) (format "\"%s\"" (str/escape s {\\ "\\\\", \" "\\\""}))))
 
+(defn- number->str
+  "Convert number to string, without any exponent"
+  [n]
+  (if (decimal? n) (.toPlainString ^BigDecimal n) (str n)))
+
 (defn- prefix
   "Prefix a string, otherwise nil"
   [s prefix]
@@ -40,11 +45,11 @@
   (cond (nil? v) ""
         (contains? v :acc) (get v :acc)
         (and (contains? v :units) (contains? v :cur))
-          (format "%s %s" (str (get v :units)) (get v :cur))
+          (format "%s %s" (number->str (get v :units)) (get v :cur))
         (contains? v :string) (double-quote (get v :string))
         (contains? v :bool) (str/upper-case (str (get v :bool)))
         (contains? v :cur) (get v :cur)
-        (contains? v :number) (str (get v :number))
+        (contains? v :number) (number->str (get v :number))
         (contains? v :tag) (prefix (get v :tag) "#")
         (contains? v :link) (prefix (get v :link) "^")
         (contains? v :date) (str (get v :date))))
@@ -66,8 +71,8 @@
           (with-out-str
             ;; print at most one of per-unit and total, preferring per-unit
             (if-let [per-unit (:per-unit cost)]
-              (print (str per-unit))
-              (when-let [total (:total cost)] (print "#" (str total))))
+              (print (number->str per-unit))
+              (when-let [total (:total cost)] (print "#" (number->str total))))
             (when-let [cur (:cur cost)] (print "" cur))
             (when-let [date (:date cost)] (print "," (str date)))
             (when-let [label (double-quote (:label cost))] (print "," label))
@@ -80,9 +85,9 @@
   (with-out-str
     ;; print at most one of per-unit and total, preferring per-unit
     (if-let [per-unit (:per-unit price)]
-      (print "@" (str per-unit))
+      (print "@" (number->str per-unit))
       (if-let [total (:total price)]
-        (print "@@" (str total))
+        (print "@@" (number->str total))
         (print "@")))
     (when-let [cur (:cur price)] (print "" cur))))
 
@@ -91,7 +96,7 @@
   (print " ")
   (when-let [flag (:flag pst)] (print "" flag))
   (print "" (:acc pst))
-  (when-let [units (:units pst)] (print "" (str units)))
+  (when-let [units (:units pst)] (print "" (number->str units)))
   (when-let [cur (:cur pst)] (print "" cur))
   (when-let [cost (or (:cost pst) (:cost-spec pst))]
     (print "" (cost->str cost)))
@@ -130,10 +135,10 @@
     (case (:dct dct)
       :txn (print-txn-specific-header-fields dct)
       :price (let [price (:price dct)]
-               (print "" (:cur dct) (str (:per-unit price)) (:cur price)))
-      :balance (do (print "" (:acc dct) (str (:units dct)))
+               (print "" (:cur dct) (number->str (:per-unit price)) (:cur price)))
+      :balance (do (print "" (:acc dct) (number->str (:units dct)))
                    (when-let [tol (:tolerance dct)]
-                     (print " ~" (str tol)))
+                     (print " ~" (number->str tol)))
                    (print "" (:cur dct)))
       :open (do (print "" (:acc dct))
                 (when-let [currencies (:currencies dct)]
-- 
2.43.0


From cbe68f8c45f31db547b68ce141bf6db89803fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 25/28] fix: print negative number after number in custom
 directive in parentheses

---
 clj/src/limabean/core/format.clj | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/clj/src/limabean/core/format.clj b/clj/src/limabean/core/format.clj
index 5ad9b2d..0c724b4 100644
--- a/clj/src/limabean/core/format.clj
+++ b/clj/src/limabean/core/format.clj
@@ -127,6 +127,19 @@
   (with-out-str (print-dct-common-header-fields txn)
                 (print-txn-specific-header-fields txn)))
 
+(defn- custom-values->strs
+  "Convert values of custom directive to strings.
+
+  Any negative after a number is enclosed in parentheses, otherwise it would be subtracted."
+  [values]
+  (map (fn [before v]
+         (let [s (meta-value->str v)]
+           (if (and (contains? before :number) (str/starts-with? s "-"))
+             (str/replace-first s #"^\S+" #(str "(" % ")"))
+             s)))
+    (cons nil values)
+    values))
+
 (defn directive->str
   "Convert directive to string"
   [dct]
@@ -154,7 +167,7 @@
         (print "" (double-quote (:type dct)) (double-quote (:description dct)))
       :query (print "" (double-quote (:name dct)) (double-quote (:content dct)))
       :custom (do (print "" (double-quote (:type dct)))
-                  (doseq [v (:values dct)] (print "" (meta-value->str v))))
+                  (doseq [s (custom-values->strs (:values dct))] (print "" s)))
       nil)
     (when-not (= (:dct dct) :custom)
       (print-tags-and-links-inline (:tags dct) (:links dct)))
-- 
2.43.0


From c40594d28c02e0afd28e31e93b606b5f64ef4fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:23 +0000
Subject: [PATCH 26/28] fix: pass a beanfile whose name starts with a dash to
 the pod

---
 clj/src/limabean/adapter/pod.clj | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 04623b9..03ebc9e 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -135,7 +135,7 @@
   "Run limabean-pod serve and remain attached"
   [beancount-path]
   (let [pod-process
-          (process/start {:err :inherit} "limabean-pod" "serve" beancount-path)
+          (process/start {:err :inherit} "limabean-pod" "serve" "--" beancount-path)
         pod {:process pod-process,
              :in (-> (process/stdin pod-process)
                      OutputStreamWriter.
-- 
2.43.0


From e14e678180f1b85356c5c3530666691fb14c8306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:06 +0000
Subject: [PATCH 27/28] fix: honour option booking_method in inventories

---
 clj/src/limabean/adapter/pod.clj   | 4 +++-
 clj/src/limabean/core/registry.clj | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/clj/src/limabean/adapter/pod.clj b/clj/src/limabean/adapter/pod.clj
index 03ebc9e..37bd4a4 100644
--- a/clj/src/limabean/adapter/pod.clj
+++ b/clj/src/limabean/adapter/pod.clj
@@ -38,7 +38,9 @@
       (cond-> x
         (and (map? x) (string? (:date x))) (update :date jt/local-date)
         (and (map? x) (contains? x :dct)) (update :dct keyword)
-        (and (map? x) (contains? x :booking)) (update :booking keyword)))
+        (and (map? x) (contains? x :booking)) (update :booking keyword)
+        (and (map? x) (contains? x :booking-method)) (update :booking-method
+                                                             keyword)))
     data))
 
 (defn- coerce-arrays
diff --git a/clj/src/limabean/core/registry.clj b/clj/src/limabean/core/registry.clj
index 4d9c67e..00242ec 100644
--- a/clj/src/limabean/core/registry.clj
+++ b/clj/src/limabean/core/registry.clj
@@ -6,7 +6,7 @@
 (defn build
   "Build the registry for given `directives` and `options`."
   [directives options]
-  (let [default-booking (get options :booking :strict)
+  (let [default-booking (get options :booking-method :strict)
         init (transient {:acc-booking (transient {}), :cur-freq (transient {})})
         result (reduce (fn [result dct]
                          (case (:dct dct)
-- 
2.43.0


From 80d073cef955e9b2e0d2edf6d504f7ebd49e08e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:58 +0000
Subject: [PATCH 28/28] fix: answer a line which is not UTF-8 as no request

---
 rust/src/api/server.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/src/api/server.rs b/rust/src/api/server.rs
index 67c1b8a..6dc0d72 100644
--- a/rust/src/api/server.rs
+++ b/rust/src/api/server.rs
@@ -105,6 +105,12 @@ impl<'a> Server<'a> {
                     }
                 }
 
+                Err(e) if e.kind() == io::ErrorKind::InvalidData => {
+                    // the line is not UTF-8, so no proper request
+                    tracing::debug!("<- {}", &e);
+                    write_other_error(None, ERROR_PARSE, Cow::Owned(e.to_string()), w).unwrap()
+                }
+
                 Err(e) => {
                     tracing::error!("<- {}", &e);
                     std::process::exit(1);
-- 
2.43.0

