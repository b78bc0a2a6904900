#!/usr/bin/env python3
"""Runs the examples of cljtest.txt through the interpreter of lib/clj.py: EXPR => PRINTED,
or EXPR ==> EXPR OF % => PRINTED, as Clojure would print them."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import clj, cljcore, cljrun
cljrun.boot()
bad = n = 0
for l in open(os.path.join(HERE, "cljtest.txt"), encoding="utf8"):
    if not l.strip():
        continue
    e, _, want = l.rstrip("\n").rpartition(" => ")
    e, _, after = e.partition(" ==> ")
    if after:
        e = "(let [it__ %s] %s)" % (e, after.replace("%", "it__"))
    n += 1
    try:
        got = clj.pr_str(cljrun.run(e))
    except BaseException as x:
        got = "%s %s" % (type(x).__name__, x)
    if got != want:
        bad += 1
        print("%s\n  is   %s\n  not  %s" % (e, got, want))
print(n, "examples,", bad, "wrong")
sys.exit(bad > 0)
