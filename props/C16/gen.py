"""writes sets.inc: the list of node sets (driver and harness)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from names import *
out = []
for nm, a in (("SETS2", E2), ("CORNERS2", C2), ("SETS3", S3 + L3), ("CORNERS3", C3)):
    out.append("#define %s(X) \\\n%s" % (nm, " \\\n".join("    X(%s)" % n for n in a)))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sets.inc"), "w").write("\n".join(out) + "\n")
