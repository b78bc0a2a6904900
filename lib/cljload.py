"""Loading a beanfile by the application with scripted plugins, and what is observed of it."""
import datetime, json, os, re
from decimal import Decimal
import clj, cljcore, cljrun

K = clj.Keyword

# how a plugin follows its script, see Act in spec/Plugins.tla
PLUGIN = r'''(ns verif.%(ns)s
  (:require [limabean.plugin :refer [dct-error!]]))

(defn- event [d desc] {:dct :event, :date (:date d), :type "verif", :description desc})
(defn- txn [d desc]
  {:dct :txn, :date (:date d), :flag "*", :narration desc,
   :postings [{:acc "Assets:Verif", :units 1, :cur "VRF"} {:acc "Equity:Verif", :units -1, :cur "VRF"}]})
(defn- undated [made d] (if (:date d) made (dissoc made :date)))

(defn- act
  [action n d {:keys [rf result held options]}]
  (let [desc (str "%(short)s/" n)]
    (case action
      :keep (rf result d)
      :drop result
      :mark (rf result (assoc-in d [:metadata (keyword (str "verif-%(short)s-" n))] {:string desc}))
      :copy (rf result (into {} d))
      :before (rf (rf result (undated (event d desc) d)) d)
      :after (rf (rf result d) (undated (txn d desc) d))
      :twice (rf (rf result d) d)
      :err (rf result (dct-error! d desc))
      :newerr (rf (rf result d) (dct-error! (undated (event d desc) d) desc))
      :throw (throw (ex-info (str "thrown by " desc) {}))
      :bad (rf result (dissoc d :date))
      :hold (do (vswap! held conj d) result)
      :opt (rf (rf result (undated (event d (str desc " " (:name-assets options))) d)) d)
      :rev (rf result (if (< (count (:postings d)) 2) d (update d :postings #(vec (reverse %%)))))
      :pop (rf result (if (empty? (:postings d)) d (update d :postings #(vec (butlast %%))))))))

(defn- xf
  [{:keys [config options]}]
  (fn [rf]
    (let [n (volatile! 0)
          held (volatile! [])]
      (fn
        ([] (rf))
        ([result] (rf (reduce rf result @held)))
        ([result d]
         (vswap! n inc)
         (let [fits (fn [[at kind _]] (and (or (= at 0) (= at @n)) (or (= kind :any) (= kind (:dct d)))))
               [_ _ action] (first (filter fits config))]
           (act (or action :keep) @n d {:rf rf, :result result, :held held, :options options})))))))
'''
RAW = "\n(defn raw-xf [args] (xf args))\n"
BOOKED = "\n(defn booked-xf [args] (xf args))\n"
NAMES = [("r1", "r"), ("r2", "r"), ("b1", "b"), ("b2", "b"), ("w1", "w"), ("w2", "w"), ("under-the-score", "w"), ("none", ""), ("broken", "w"), ("thrower", "")]


def write_plugins(d):
    os.makedirs(os.path.join(d, "verif"), exist_ok=True)
    for name, kind in NAMES:
        t = PLUGIN % {"ns": name, "short": name} + (RAW if kind in "rw" and kind else "") + (BOOKED if kind in "bw" and kind else "")
        if name == "broken":
            t += "\n(throw (ex-info \"broken\" {}))\n"
        if name == "thrower":
            t += "\n(defn raw-xf [args] (throw (ex-info \"bad config\" {})))\n"
        with open(os.path.join(d, "verif", name.replace("-", "_") + ".clj"), "w") as f:
            f.write(t)


# ---------------------------------------------------------------- canonical values
def J(x):
    """a value of the application, or of JSON, in a form to compare"""
    t = type(x)
    if x is None or t in (bool, str):
        return x
    if t is K:
        return x.name
    if t in (int, Decimal):
        return {"number": str(Decimal(x))}
    if t is datetime.date:
        return x.isoformat()
    if t is dict:
        return {k: J(v) for k, v in x.items()}
    if t is list:
        return [J(v) for v in x]
    if isinstance(x, clj.PMap):
        return {(e.l[0].name if type(e.l[0]) is K else str(e.l[0])): J(e.l[1]) for e in clj.it(x)}
    if isinstance(x, clj.PSet):
        return sorted((J(v) for v in clj.it(x)), key=json.dumps)
    if t is clj.Vec or hasattr(x, "__iter__") or clj.it(x) is not None:
        return [J(v) for v in clj.it(x)]
    raise cljrun.Odd("value %r" % x)


def num(v):
    return int(v["number"]) if type(v) is dict else v


def loads(s):
    return json.loads(s, parse_float=Decimal)


def text(x):
    return json.dumps(x, sort_keys=True, ensure_ascii=False)


def sets(d):
    for k in ("tags", "links", "currencies"):
        if k in d:
            d[k] = sorted(d[k])
    return d


class Case:
    def __init__(self):
        self.ids, self.good = {}, set()

    def intern(self, kind, x):
        t = text(x)
        return self.ids.setdefault((kind, t), "%s%d" % (kind, len(self.ids) + 1))

    def span(self, s):
        """where a span is: of what a plugin made, the name of its source"""
        if s is None:
            return []
        r = self.where(s)
        return [r["file-name"]] if r else [self.intern("s", s)]

    def where(self, s):
        """what the server knows of the text of a plugin"""
        if num(s[0]) < self.sources:
            return None
        return self.ask("parser.resolve-spans", [[num(v) for v in s]])[0]

    def posting(self, p, booked):
        p = sets(dict(p))
        x = {k: p.pop(k, None) for k in ("span", "span-p", "idx")}
        base = "verif+" if p.get("acc") == "Assets:Verif" else "verif-" if p.get("acc") == "Equity:Verif" else self.intern("p", p)
        return {"base": base, "idx": [] if x["idx"] is None else [num(x["idx"])], "s": x["span"], "sp": x["span-p"]}

    def directive(self, d):
        """d is canonical"""
        d = sets(dict(d))
        x = {k: d.pop(k, None) for k in ("span", "span-p", "provenance", "err", "idx", "postings")}
        m = dict(d.get("metadata") or {})
        marks = sorted(m.pop(k)["string"] for k in list(m) if k.startswith("verif-"))
        d["metadata"] = m
        if not m:
            del d["metadata"]
        date = d.pop("date", None)
        kind = d.pop("dct")
        if kind == "event" and d == {"type": "verif", "description": d.get("description")}:
            base = "event " + d["description"]
        elif kind == "txn" and d == {"flag": "*", "narration": d.get("narration")} and re.match(r"[a-z0-9-]+/\d+$", d["narration"] or ""):
            base = "txn " + d["narration"]
        else:
            base = self.intern("t", [kind, d])
        return {"kind": kind, "date": date or "", "base": base, "marks": marks,
                "ps": [self.posting(p, False) for p in x["postings"] or []],
                "err": [{"plugin": e["plugin"], "message": e["message"]} for e in x["err"] or []],
                "s": x["span"], "sp": x["span-p"], "prov": [":booked" if p == "booked" else p for p in x["provenance"] or []], "idx": None if x["idx"] is None else num(x["idx"])}

    def placed(self, d, shown):
        """with its places; shown is what is printed of it, which the text of what plugins made has to be of"""
        def written(s, acc=None):
            if s is None:
                return []
            r = self.where(s)
            if r is None:
                return ["not a source of its own"]
            t = r["content"]
            # what is booked has the places of what it came from, and no longer its words
            k = text(s), acc
            good = k in self.good or of(t, shown, acc, whole=acc is None and d["kind"] != "txn")
            if good:
                self.good.add(k)
            return [r["file-name"] if good else "%s: %r" % (r["file-name"], t)]
        accs = [a.get("acc") for a in d.pop("raw-ps")]
        return {**{k: d[k] for k in ("kind", "date", "base", "marks", "err", "prov")}, "span": self.span(d["s"]), "spanp": written(d["sp"]),
                "ps": [{"base": p["base"], "span": self.span(p["s"]), "spanp": written(p["sp"], a or " ")} for p, a in zip(d["ps"], accs)]}

    def directives(self, v):
        """of the application"""
        if v is None:
            return []
        res = []
        for x in clj.it(v):
            c = J(x)
            d = self.directive(c)
            d["raw-ps"] = c.get("postings") or []
            res.append(self.placed(d, printed(x)))
        return [res]

    def report(self, r):
        r = J(r)
        pair = lambda x: {"what": x[0], "span": self.span(x[1])}
        return {"message": r.get("message") or "", "reason": [r["reason"]] if r.get("reason") else [], "annotation": [r["annotation"]] if r.get("annotation") else [],
                "span": self.span(r.get("span")), "contexts": [pair(x) for x in r.get("contexts") or []], "related": [pair(x) for x in r.get("related") or []]}

    # the server, behind the application's back
    def started(self, p):
        self.p, self.log = p, []
        p.stdin, p.stdout = Tap(p.stdin, self.log, "in"), Tap(p.stdout, self.log, "out")
        self.i, self.o = p.stdin.f, p.stdout.f

    def ask(self, method, params=None):
        m = {"jsonrpc": "2.0", "id": 1000001, "method": method}
        if params is not None:
            m["params"] = params
        self.i.write(json.dumps(m) + "\n")
        self.i.flush()
        return loads(self.o.readline()).get("result")

    def calls(self):
        res = []
        sent = "".join(t for w, t in self.log if w == "in").split("\n")
        got = [t for w, t in self.log if w == "out"]
        for a, b in zip(sent, got):
            a, b = loads(a), loads(b)
            res.append((a["method"], a.get("params"), b))
        return res


def of(t, shown, acc, whole):
    """whether t is of what is printed of a directive, wherever its tags and links are; of a posting if acc"""
    lines = lambda x: [sorted(l.split()) for l in x.split("\n") if l.strip()]
    a, b = lines(t), lines(shown)
    if not a or (acc is not None and acc not in t):
        return False
    rest = list(b)
    if acc is None:
        # the head of a transaction may be without its tags and links
        if not b or (a[0] != b[0] if whole else [w for w in a[0] if w not in b[0]]):
            return False
        a, rest = a[1:], rest[1:]
    for l in a:
        if l not in rest:
            return False
        rest.remove(l)
    return not (whole and rest)


class Tap:
    def __init__(self, f, log, way):
        self.f, self.log, self.way = f, log, way

    def write(self, s):
        self.log.append((self.way, s))
        return self.f.write(s)

    def readline(self):
        s = self.f.readline()
        self.log.append((self.way, s))
        return s

    def __getattr__(self, k):
        return getattr(self.f, k)


def printed(d):
    return clj.pr_str(cljrun.run("(fn [d] (first (type/directives [d])))")(d))


def load(c):
    """load a beanfile; what the server answers and what is observed"""
    x = Case()
    r = {"id": c["id"]}
    cljcore.STARTED = x.started
    fault = ""
    try:
        try:
            (_, said) = cljrun.capture(lambda: cljrun.run("(load-beanfile %s)" % cljrun.string(c["file"])), "ERR")
        except clj.Thrown as e:
            fault, said = "failed: %s %s" % (e.cls, (e.message or "")[:200]), ""
        cljcore.STARTED = None
        b = cljrun.run("*beans*")
        get = lambda k: clj.get(b, K(k)) if b is not None else None
        calls = x.calls()
        reply = lambda m: next((b for a, _, b in calls if a == m), {})
        r["env"], r["book"], r["obs"] = {}, [], {"fault": fault, "failed": get("error") is not None}
        x.sources = 10 ** 9
        # sources of its own are those made after all real ones; a real one is at least there for each file
        x.sources = c["files"]
        raws = (reply("parser.directives").get("result") or {}).get("directives", [])
        env_raws = []
        for d in raws:
            e = x.directive(J(d))
            env_raws.append({"oid": 0, "kind": e["kind"], "date": e["date"], "base": e["base"], "marks": [], "err": [], "span": x.span(e["s"]), "spanp": [],
                             "prov": [], "ok": True, "ps": [{"base": p["base"], "span": x.span(p["s"]), "spanp": []} for p in e["ps"]]})
        perr = reply("parser.plugins").get("error")
        r["env"] = {"parse": [[x.report(q) for q in perr["data"]]] if perr else [], "raws": env_raws, "name": "FILE",
                    "option": (reply("parser.options").get("result") or {}).get("name-assets", "")}
        o = r["obs"]
        sent = [(p, b) for m, p, b in calls if m == "book"]
        plain = lambda e: {k: e[k] for k in ("kind", "date", "base", "marks", "err")} | {"ps": [{"base": p["base"]} for p in e["ps"]]}
        o["sent"] = [[] if p is None else [[plain(x.directive(J(d))) for d in p]] for p, _ in sent]
        if sent:
            b_ = sent[-1][1]
            if "result" in b_:
                ds = []
                for d in b_["result"]["directives"]:
                    e = x.directive(J(d))
                    ds.append({"kind": e["kind"], "date": e["date"], "base": e["base"], "marks": e["marks"], "idx": e["idx"],
                               "ps": [{"base": p["base"], "idx": p["idx"]} for p in e["ps"]]})
                r["book"] = [{"ok": True, "dirs": ds, "reports": [], "spanned": [], "message": []}]
            elif b_["error"]["code"] == 3:
                one = lambda q: {"reason": [q["reason"]] if q.get("reason") else [], "annotation": [q["annotation"]] if q.get("annotation") else [],
                                 "idx": ix(q["idx"]), "related": [ix(i) for i in q.get("related") or []]}
                ix = lambda i: [i] if type(i) is int else [n for n in i if n is not None]
                r["book"] = [{"ok": False, "dirs": [], "reports": [one(q) for q in b_["error"]["data"]], "spanned": [], "message": []}]
            elif b_["error"]["code"] == 2:
                r["book"] = [{"ok": False, "dirs": [], "reports": [], "spanned": [x.report(q) for q in b_["error"]["data"]], "message": []}]
            else:
                r["book"] = [{"ok": False, "dirs": [], "reports": [], "spanned": [], "message": [b_["error"]["message"]]}]
        for k, n in (("raws", "raw-directives"), ("rawxf", "raw-xf-directives"), ("booked", "booked-directives"), ("bookedxf", "booked-xf-directives")):
            o[k] = x.directives(get(n))
        o["final"] = [] if o["failed"] else x.directives(cljrun.run("*directives*"))
        if o["failed"] and list(clj.it(cljrun.run("*directives*")) or []):
            o["final"] = x.directives(cljrun.run("*directives*"))
        asked = [(p, b) for m, p, b in calls if m == "parser.format-errors" and p]
        o["asked"] = [[x.report(q) for q in p] for p, _ in asked]
        for _, b_ in asked:
            if "result" in b_:
                said = said.replace(b_["result"], "REPORTS\n")
        said = said.replace(c["file"], "FILE")
        lines = [l for l in said.split("\n") if l.strip()]
        for i, l in enumerate(lines):
            if l.startswith("Spec assertion failed"):
                lines = lines[:i] + ["Spec assertion failed"]
                break
        o["said"] = [re.sub(r"^(ERROR in plugin \S+ - Error resolving config).*", r"\1", l) for l in lines]
    finally:
        cljcore.STARTED = None
        b = cljrun.run("*beans*")
        if b is not None and clj.get(b, K("pod")) is not None:
            cljrun.run("limabean.adapter.pod/stop")(clj.get(b, K("pod")))
        cljrun.run("(alter-var-root #'limabean.user/*beans* (constantly nil))")
    return r
