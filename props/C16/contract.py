import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import *
from names import *


class Mesh:
    def __init__(self, S, k):
        self.S, self.k = S, k
        self.nd = 3 if k == "h" else 2
        self.n = [S.size("nel" + "xyz"[i], 1) for i in range(self.nd)]
        self.m = S.call(k + "_make", *(self.n + [S.real("h")]))

    def node(self, ix):
        """number of the grid point (C15)"""
        r = ZERO
        for i in reversed(range(self.nd)):
            r = add(mul(r, add(self.n[i], ONE)), t_(ix[i]))
        return r


def nodeset(S, k, names):
    M = Mesh(S, k)
    for name in names:
        fix, open_ = parts(name)
        # the free directions: all grid points (from 0 to n), or without the end points (from 1 to n - 1)
        free = [i for i in range(M.nd) if i not in fix]
        lo = 1 if open_ else 0
        cnt = {i: sub(M.n[i], ONE) if open_ else add(M.n[i], ONE) for i in free}
        size = ONE
        for i in free:
            size = mul(size, cnt[i])
        s = S.call("%s_%s" % (k, name), M.m)
        S.shape("nodes%s: number of nodes" % name, s, (size,))
        j = {i: S.int("j%s!%s" % ("xyz"[i], name), 0) for i in free}
        with S.scope(*[lt(j[i], cnt[i]) for i in free]):
            pos = ZERO
            for i in reversed(free):
                pos = add(mul(pos, cnt[i]), j[i])
            S.eq("nodes%s: nodes, in ascending order" % name, s[pos], M.node([add(j[i], num(lo)) if i in free else (M.n[i] if fix[i] else ZERO) for i in range(M.nd)]))


def corners(S, k, names):
    M = Mesh(S, k)
    for name in names:
        fix, _ = parts(name[:-6])
        S.eq("nodes%s" % name, S.call("%s_%s" % (k, name), M.m), M.node([M.n[i] if fix[i] else ZERO for i in range(M.nd)]))
    S.eq("nodesOrigin", S.call(k + "_Origin", M.m), 0)


for k in "qt":
    contract("%s edges" % k)(lambda S, k=k: nodeset(S, k, E2))
    contract("%s corners" % k)(lambda S, k=k: corners(S, k, C2))
for n in range(0, len(S3), 3):
    contract("h faces %s" % " ".join(S3[n:n + 3]))(lambda S, n=n: nodeset(S, "h", S3[n:n + 3]))
for n in range(0, len(L3), 8):
    contract("h edges %s" % " ".join(L3[n:n + 8]))(lambda S, n=n: nodeset(S, "h", L3[n:n + 8]))
contract("h corners")(lambda S: corners(S, "h", C3))
