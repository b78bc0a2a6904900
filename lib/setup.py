import sys
from common import *

build()
with Scratch("setup") as s:
    r = tlc(spec_dir(s), "DecCheck", timeout=600)
    if not r.ok:
        print(r.out[-3000:])
        sys.exit(1)
    print("decimals agree: %d states" % r.distinct)
