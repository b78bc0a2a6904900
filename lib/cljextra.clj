;; functions of Clojure which are not built into clj.py, by namespace
(in-ns clojure.core)
(defn pos-int? [x] (and (int? x) (pos? x)))
(defn neg-int? [x] (and (int? x) (neg? x)))
(defn nat-int? [x] (and (int? x) (not (neg? x))))
(defn ratio? [x] false)
(defn reversible? [x] (vector? x))
(defn sorted? [x] false)
(defn nnext [x] (next (next x)))
(defn nthnext [c n] (loop [n n s (seq c)] (if (and s (pos? n)) (recur (dec n) (next s)) s)))
(defn nthrest [c n] (loop [n n s c] (if (and (seq s) (pos? n)) (recur (dec n) (rest s)) s)))
(defn take-nth [n c] (lazy-seq (when-let [s (seq c)] (cons (first s) (take-nth n (drop n s))))))
(defn distinct? [& xs] (= (count xs) (count (set xs))))
(defn cycle [c] (lazy-seq (when-let [s (seq c)] (concat s (cycle s)))))
(defn tree-seq [branch? children root]
  (let [walk (fn walk [node] (lazy-seq (cons node (when (branch? node) (mapcat walk (children node))))))]
    (walk root)))
(defn partition-all
  ([n] (fn [rf]
         (let [buf (volatile! [])]
           (fn
             ([] (rf))
             ([result] (let [b @buf result (if (empty? b) result (do (vreset! buf []) (unreduced (rf result b))))] (rf result)))
             ([result x] (vswap! buf conj x)
              (if (= n (count @buf)) (let [b @buf] (vreset! buf []) (rf result b)) result))))))
  ([n c] (partition-all n n c))
  ([n step c] (lazy-seq (when-let [s (seq c)] (cons (doall (take n s)) (partition-all n step (nthrest s step)))))))
(defn ensure-reduced [x] (if (reduced? x) x (reduced x)))
(defn halt-when
  ([pred] (halt-when pred nil))
  ([pred retf]
   (fn [rf]
     (fn
       ([] (rf))
       ([result] (if (and (map? result) (contains? result ::halt)) (::halt result) (rf result)))
       ([result x] (if (pred x) (reduced {::halt (if retf (retf (rf result) x) x)}) (rf result x)))))))
(defn swap-vals! [a f & args] (let [o @a] [o (apply swap! a f args)]))
(defn reset-vals! [a v] (let [o @a] (reset! a v) [o v]))
(defn compare-and-set! [a o n] (if (= @a o) (do (reset! a n) true) false))
(defn prn-str [& xs] (str (apply pr-str xs) "\n"))
(defn printf [f & xs] (print (apply format f xs)))
(defn trampoline
  ([f] (let [r (f)] (if (fn? r) (recur r) r)))
  ([f & args] (trampoline (fn [] (apply f args)))))
(defn replace
  ([m] (map (fn [x] (if (contains? m x) (get m x) x))))
  ([m c] (if (vector? c) (mapv (fn [x] (if (contains? m x) (get m x) x)) c) (map (fn [x] (if (contains? m x) (get m x) x)) c))))
(defn parse-long [s] (when (re-matches #"[+-]?\d+" s) (parse-long* s)))
(defn resolve [s] (ns-resolve *ns* s))
(defn requiring-resolve [s] (or (resolve s) (do (require (symbol (namespace s))) (resolve s))))
(defn bigint [x] (long x))
(defn biginteger [x] (long x))
(defn partitionv [& a] (map vec (apply partition a)))
(defn splitv-at [n c] [(vec (take n c)) (drop n c)])
(defn bounded-count [n c] (if (counted? c) (count c) (count (take n c))))
(defn bound-fn* [f] f)
(defn comparator [pred] (fn [x y] (cond (pred x y) -1 (pred y x) 1 :else 0)))
(defn random-sample [& _] (throw (ex-info "random" {})))
(defn tap> [_] true)
(defn isa? ([c p] (= c p)) ([_ c p] (= c p)))
(defmacro with-redefs [bs & body]
  (let [pairs (partition 2 bs) olds (map (fn [_] (gensym "old")) pairs)]
    (list* 'let (vec (mapcat (fn [o [n _]] [o n]) olds pairs))
           [(list 'try (cons 'do (concat (map (fn [[n v]] (list 'alter-var-root (list 'var n) (list 'constantly v))) pairs) body))
                  (list 'finally (cons 'do (map (fn [o [n _]] (list 'alter-var-root (list 'var n) (list 'constantly o))) olds pairs))))])))
(defmacro locking [x & body] (cons 'do body))
(defmacro io! [& body] (cons 'do body))
(defmacro time [x] x)
(defmacro .. ([x f] (list '. x f)) ([x f & more] (list* '.. (list '. x f) more)))
(defmacro memfn [n & args] (list 'fn (vec (cons 'target args)) (list* '. 'target n args)))
(defmacro bound-fn [& body] (cons 'fn body))
(defmacro letfn [fs & body]
  (let [cells (map (fn [_] (gensym "cell")) fs)]
    (list* 'let (vec (mapcat (fn [c f] [c '(volatile! nil) (first f) (list 'fn '[& args__] (list 'apply (list 'deref c) 'args__))]) cells fs))
           (concat (map (fn [c f] (list 'vreset! c (cons 'fn f))) cells fs) body))))
(in-ns clojure.set)
(defn map-invert [m] (into {} (map (fn [[k v]] [v k])) m))
(defn select [pred s] (set (filter pred s)))
(defn project [rel ks] (set (map (fn [m] (select-keys m ks)) rel)))
(defn rename [rel kmap] (set (map (fn [m] (rename-keys m kmap)) rel)))
(defn index [rel ks] (group-by (fn [m] (select-keys m ks)) rel))
(in-ns clojure.walk)
(defn walk [inner outer form]
  (cond (list? form) (outer (apply list (map inner form)))
        (map-entry? form) (outer [(inner (key form)) (inner (val form))])
        (seq? form) (outer (doall (map inner form)))
        (coll? form) (outer (into (empty form) (map inner form)))
        :else (outer form)))
(defn prewalk [f form] (walk (fn [x] (prewalk f x)) identity (f form)))
(defn keywordize-keys [m] (postwalk (fn [x] (if (map? x) (into {} (map (fn [[k v]] [(if (string? k) (keyword k) k) v])) x) x)) m))
(defn stringify-keys [m] (postwalk (fn [x] (if (map? x) (into {} (map (fn [[k v]] [(if (keyword? k) (name k) k) v])) x) x)) m))
(defn postwalk-replace [smap form] (postwalk (fn [x] (if (contains? smap x) (get smap x) x)) form))
(defn prewalk-replace [smap form] (prewalk (fn [x] (if (contains? smap x) (get smap x) x)) form))
(in-ns clojure.string)
(defn escape [s cmap] (apply str (map (fn [c] (get cmap c c)) s)))
(defn re-quote-replacement [s] (str s))
