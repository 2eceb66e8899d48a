from spec import *

# the parts of the far boundary in the order of the rows: {axis: side}, the remaining directions are free (open)
PARTS = {
    2: [{0: 1, 1: 0}, {0: 1, 1: 1}, {0: 0, 1: 1}, {1: 1}, {0: 1}],
    3: [dict(zip((0, 1, 2), c)) for c in ((1, 0, 0), (1, 0, 1), (0, 0, 1), (0, 1, 0), (1, 1, 0), (1, 1, 1), (0, 1, 1))]
    + [{1: a, 2: b} for a, b in ((0, 1), (1, 1), (1, 0))]
    + [{0: a, 1: b} for a, b in ((1, 0), (1, 1), (0, 1))]
    + [{0: a, 2: b} for a, b in ((1, 0), (1, 1), (0, 1))]
    + [{2: 1}, {0: 1}, {1: 1}],
}


class Mesh:
    def __init__(self, S, k):
        self.S, self.k = S, k
        self.nd = 3 if k == "h" else 2
        self.n = [S.size("nel" + "xyz"[i], 1) for i in range(self.nd)]
        self.m = S.call(k + "_make", *(self.n + [S.real("h")]))
        self.nnode = ONE
        for n in self.n:
            self.nnode = mul(self.nnode, add(n, ONE))

    def node(self, ix):
        """number of the grid point (C15)"""
        r = ZERO
        for i in reversed(range(self.nd)):
            r = add(mul(r, add(self.n[i], ONE)), t_(ix[i]))
        return r

    def image(self, ix):
        return [ite(eq(x, n), ZERO, x) for x, n in zip(ix, self.n)]

    def far(self, ix):
        return lor(*[eq(x, n) for x, n in zip(ix, self.n)])

    def ongrid(self, ix):
        return land(*[land(ge(x, ZERO), le(x, n)) for x, n in zip(ix, self.n)])

    def segments(self):
        """[(first row, number of rows, {free axis: number of grid points}, {axis: side})], number of rows"""
        out, base = [], ZERO
        for fix in PARTS[self.nd]:
            cnt = {i: sub(self.n[i], ONE) for i in range(self.nd) if i not in fix}
            size = ONE
            for c in cnt.values():
                size = mul(size, c)
            out.append((base, size, cnt, fix))
            base = add(base, size)
        return out, base

    def row(self, ix):
        """row of the grid point on the far boundary"""
        r = num(-1)
        for base, size, cnt, fix in self.segments()[0]:
            pos = ZERO
            for i in reversed(sorted(cnt)):
                pos = add(mul(pos, cnt[i]), sub(ix[i], ONE))
            r = ite(land(*[eq(ix[i], self.n[i] if fix[i] else ZERO) if i in fix else land(gt(ix[i], ZERO), lt(ix[i], self.n[i])) for i in range(self.nd)]), add(base, pos), r)
        return r


def pairs(S, k):
    M = Mesh(S, k)
    P = S.call(k + "_periodic", M.m)
    segs, total = M.segments()
    S.shape("number of pairs", P, (total, num(2)))
    S.eq("origin", S.call(k + "_origin", M.m), 0)
    # as many rows as nodes on the far boundary
    near = ONE
    for n in M.n:
        near = mul(near, n)
    S.eq("one pair per node of the far boundary", total, sub(M.nnode, near))
    for l, (base, size, cnt, fix) in enumerate(segs):
        nm = ", ".join("%s = %s" % ("xyz"[i], "n" if fix[i] else "0") for i in sorted(fix))
        j = {i: S.int("j%s!%d" % ("xyz"[i], l), 1) for i in cnt}
        with S.scope(*[le(j[i], cnt[i]) for i in cnt]):
            pos = ZERO
            for i in reversed(sorted(cnt)):
                pos = add(mul(pos, cnt[i]), sub(j[i], ONE))
            ix = [j[i] if i in cnt else (M.n[i] if fix[i] else ZERO) for i in range(M.nd)]
            row = add(base, pos)
            S.eq("%s: dependent node" % nm, P[row, 1], M.node(ix))
            S.eq("%s: image, displaced by whole periods" % nm, P[row, 0], M.node(M.image(ix)))
            S.eq("%s: row of the node" % nm, M.row(ix), row)
    # every node of the far boundary has a row, no two have the same
    ix = [S.index("i" + "xyz"[i], add(M.n[i], ONE)) for i in range(M.nd)]
    with S.scope(M.far(ix)):
        S.holds("every node of the far boundary has a pair", land(ge(M.row(ix), ZERO), lt(M.row(ix), total)))


for k in "qth":
    contract("%s pairs" % k)(lambda S, k=k: pairs(S, k))


def Horner(M, ix, i0):
    r = ZERO
    for i in reversed(range(len(ix))):
        r = add(mul(r, add(M.n[i0 + i], ONE)), ix[i])
    return r


def dofs(S, k):
    M = Mesh(S, k)
    segs, total = M.segments()
    nd = M.nd
    # the contract of nodesPeriodic, as proved above: row r ties the node D[r], at the grid point G(r) on the far boundary, to
    # its image; every node of the far boundary has a row
    D, I = ArrSym("dependent", 1, "I"), ArrSym("independent", 1, "I")
    L = S.size("pairs", 0)
    G = lambda r: [app("grid" + "xyz"[i], "I", r) for i in range(nd)]
    row = lambda v: app("row!", "I", v)
    inr = lambda r: land(ge(r, ZERO), lt(r, L))
    CTX.arrfacts.setdefault(D, []).append(lambda ix: imp(inr(ix[0]), land(M.ongrid(G(ix[0])), M.far(G(ix[0])), eq(read(D, *ix), M.node(G(ix[0]))), eq(row(read(D, *ix)), ix[0]), ge(read(D, *ix), ZERO), lt(read(D, *ix), M.nnode))))
    CTX.arrfacts.setdefault(I, []).append(lambda ix: imp(inr(ix[0]), land(eq(read(I, *ix), M.node(M.image(G(ix[0])))), ge(read(I, *ix), ZERO), lt(read(I, *ix), M.nnode))))
    CTX.inverse[D] = (row, L)
    CTX.invname["row!"] = (D, L)
    P = Arr((L, num(2)), "I", NFn(lambda q: ite(eq(q[1], ZERO), read(I, q[0]), read(D, q[0]))))
    calls = []

    def periodic(it, f, this, args):
        calls.append(1)
        return P

    for base in ("2d", "3d"):
        S.it.contracts["GooseFEM::Mesh::RegularBase%s::nodesPeriodic_impl" % base] = periodic
    d = S.call(k + "_dofs", M.m)
    S.holds("uses the periodic pairs", TRUE if calls else FALSE)
    S.shape("shape", d, (M.nnode, num(nd)))
    U = libmod._sd[next(iter(libmod._sd))]

    k_ = S.index("k", U.L)
    w = tuple(U.wit(k_))
    S.holds("a DOF with each number", land(S.inrange(w, (M.nnode, num(nd))), eq(d[w], k_)), [U.R.read(k_)])

    # the entries of the table before it is renumbered are not negative
    with S.scope():
        q = (S.index("p", M.nnode), S.index("c", num(nd)))
        S.unfold(U.a, q)
        if S.holds("DOFs before renumbering", ge(U.a.read(*q), ZERO)):
            CTX.arrfacts.setdefault(U.a.node.A, []).append(lambda ix: imp(S.inrange(ix, U.a.shape), ge(read(U.a.node.A, *ix), ZERO)))
    use = S.digits()

    def decode(a, b):
        """two grid points with the same number are the same"""
        for i in range(nd - 1):
            up = lambda ix: Horner(M, ix[i + 1:], i + 1)
            use(a[i], up(a), b[i], up(b), add(M.n[i], ONE))

    def point(nm):
        return [S.index(nm + "xyz"[i], add(M.n[i], ONE)) for i in range(nd)]

    def before(ix, j):
        """the DOFs of a grid point before they are renumbered: those of its image"""
        return eq(U.a.read(M.node(ix), num(j)), add(scale(nd, M.node(M.image(ix))), num(j)))

    with S.scope():
        ix = point("g")
        n = M.node(ix)
        r = row(n)
        # by the contract of nodesPeriodic
        S.assume(imp(M.far(ix), land(inr(r), eq(read(D, r), n))))
        decode(ix, G(r))
        S.lemma("number of the grid point", land(ge(n, ZERO), lt(n, M.nnode)))
        S.lemma("rows are on the far boundary", imp(land(inr(r), eq(read(D, r), n)), M.far(ix)), [read(D, r)])
        S.lemma("the row of a node is about that node", imp(land(inr(r), eq(read(D, r), n)), land(*[eq(a, b) for a, b in zip(ix, G(r))])), [read(D, r)])
        m = M.node(M.image(ix))
        for j in range(nd):
            S.unfold(U.a, (n, num(j)))
            S.lemma("DOF before renumbering (%d)" % j, before(ix, j))
    a, b = point("a"), point("b")
    na, nb = M.node(a), M.node(b)
    for ix in (a, b):
        S.lemma("number of the grid point", land(ge(M.node(ix), ZERO), lt(M.node(ix), M.nnode)))
        S.assume(*[before(ix, j) for j in range(nd)])
    decode(M.image(a), M.image(b))
    i = S.index("i", num(nd))
    same = land(*[eq(x, y) for x, y in zip(M.image(a), M.image(b))])
    S.holds("numbers from zero", land(ge(d[na, i], ZERO), lt(d[na, i], U.L)))
    for i in range(nd):
        for j in range(nd):
            if i == j:
                S.holds("tied nodes have the same DOFs (%d)" % i, imp(same, eq(d[na, i], d[nb, j])))
                S.holds("other nodes have other DOFs (%d)" % i, imp(eq(d[na, i], d[nb, j]), same))
            elif i < j:
                S.holds("different DOFs per direction (%d, %d)" % (i, j), ne(d[na, i], d[nb, j]))


for k in "qth":
    contract("%s periodic DOFs" % k)(lambda S, k=k: dofs(S, k))
