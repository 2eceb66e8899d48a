from spec import *
BUDGET = 300
BOUNDED = "the selections of elements (elementgrid_ravel, elementgrid_around_ravel, elementgrid_leftright) and the rebuilding of a mesh from its coordinates and connectivity are decided by the bounded evaluation only"
EXPLANATION = "The constructor is proved to establish the class invariant (structure of the layers) for every size, by a contract of its coarsening loop over ghost sequences; connectivity, coordinates, corners and orientation of every element, rolling, node sets and element sets are proved for every object that satisfies that invariant."


def invariant(X):
    """class invariant of the mesh with 2 m + 1 layers of elements and 2 m + 2 rows of nodes: clauses about layer i (or row i of
    nodes).  X: m, nel, ref, nd, hx, hy, el, st, h, Lx, nelx (entries as functions of the layer).
    (name, array whose entry i the clause is about, recurrence?, clause)"""
    m = X.m
    L = add(mul(num(2), m), ONE)
    layer = lambda i: land(ge(i, ZERO), lt(i, L))
    row = lambda i: land(ge(i, ZERO), le(i, L))
    f = lambda i: ite(eq(X.ref(i), ZERO), num(3), ONE)
    return [
        ("layers are refined or not", "ref", False, lambda i: imp(layer(i), lor(eq(X.ref(i), ZERO), eq(X.ref(i), num(-1))))),
        ("the middle layer is not refined", "ref", False, lambda i: imp(eq(i, m), eq(X.ref(i), num(-1)))),
        ("layers are not empty", "nel", False, lambda i: imp(layer(i), ge(X.nel(i), ONE))),
        ("elements fill the layer", "nel", False, lambda i: imp(layer(i), eq(mul(X.nel(i), X.hx(i)), X.nelx))),
        ("elements are equally wide and high", "hx", False, lambda i: imp(land(layer(i), eq(X.ref(i), num(-1))), eq(X.hx(i), X.hy(i)))),
        ("refined elements have two by three parts", "hx", False, lambda i: imp(land(layer(i), eq(X.ref(i), ZERO)), land(eq(mul(num(2), X.hx(i)), mul(num(3), X.hy(i))), eq(mod(X.hx(i), num(3)), ZERO), eq(mod(X.hy(i), num(2)), ZERO)))),
        ("element sizes are positive", "hx", False, lambda i: imp(layer(i), land(ge(X.hx(i), ONE), ge(X.hy(i), ONE)))),
        ("the middle layer is the finest", "hx", False, lambda i: imp(eq(i, m), eq(X.hx(i), ONE))),
        ("number of nodes of a row up to the middle", "nd", False, lambda i: imp(land(ge(i, ZERO), le(i, m)), eq(X.nd(i), add(X.nel(i), ONE)))),
        ("number of nodes of a row above the middle", "nd", False, lambda i: imp(land(gt(i, m), le(i, L)), eq(X.nd(i), add(X.nel(sub(i, ONE)), ONE)))),
        ("refinement below the middle", "nel", True, lambda i: imp(land(ge(i, ZERO), lt(i, m)), eq(X.nel(add(i, ONE)), mul(f(i), X.nel(i))))),
        ("refinement above the middle", "nel", True, lambda i: imp(land(gt(i, m), lt(i, L)), eq(X.nel(sub(i, ONE)), mul(f(i), X.nel(i))))),
        ("element sizes below the middle", "hx", True, lambda i: imp(land(ge(i, ZERO), lt(i, m)), eq(X.hx(i), mul(f(i), X.hx(add(i, ONE)))))),
        ("element sizes above the middle", "hx", True, lambda i: imp(land(gt(i, m), lt(i, L)), eq(X.hx(i), mul(f(i), X.hx(sub(i, ONE)))))),
        ("symmetry", "hx", True, lambda i: imp(layer(i), land(eq(X.hx(sub(sub(L, ONE), i)), X.hx(i)), eq(X.hy(sub(sub(L, ONE), i)), X.hy(i)), eq(X.ref(sub(sub(L, ONE), i)), X.ref(i))))),
    ]


def elements(X, i):
    """number of elements of layer i"""
    return mul(ite(eq(X.ref(i), ZERO), num(4), ONE), X.nel(i))


def nodes(X, i):
    """number of nodes of row i, and of the intermediate row of layer i"""
    return add(X.nd(i), ite(eq(X.ref(i), ZERO), mul(num(2), X.nel(i)), ZERO))


class Layers:
    """any object that satisfies the class invariant"""

    def __init__(self, S):
        self.r = S.call("state")
        self.m = m = S.size("m", 0)
        self.L = L = add(mul(num(2), m), ONE)
        self.nelx = S.size("nx")
        self.h = h = S.real("h")
        self.Lx = mul(h, self.nelx)
        a = {n: S.arr(nm, "I", (N,), rng) for n, nm, N, rng in (("nel", "nelx", L, (1, None)), ("ref", "refine", L, (-1, 1)), ("nd", "nnd", add(L, ONE), (2, None)), ("hx", "nhx", L, (1, None)), ("hy", "nhy", L, (1, None)))}
        X = self.X = lambda: None
        X.m, X.nelx = m, self.nelx
        for n, v in a.items():
            setattr(self, n, v)
            setattr(X, n, lambda i, v=v: v[i])
        S.assume(eq(a["ref"][m], num(-1)))
        S.assume(eq(a["hx"][m], ONE))
        S.assume(eq(a["nel"][m], self.nelx))
        for _, n, once, c in invariant(X):
            f = lambda ix, c=c: c(ix[0])
            CTX.arrfacts.setdefault(a[n].arr.node.A, []).append(f)
            if once:
                CTX.once.add(f)
                # the same clause, found from the neighbour
                for d in (ONE, num(-1)):
                    g = lambda ix, c=c, d=d: c(add(ix[0], d))
                    if n == "nel":
                        CTX.arrfacts[a[n].arr.node.A].append(g)
                        CTX.once.add(g)
        self.el = el = S.sequence("startElem", L, 0, lambda i: elements(X, i))
        self.st = st = S.sequence("startNode", L, 0, lambda i: nodes(X, i))
        nd = self.nd
        self.Y = S.sequence("Y", L, 0, lambda q: mul(h, self.hy[q]), "R", False)
        S.ghost(lambda k: el[k], lambda k: st[k], lambda k: add(st[k], nd[k]), lambda k: self.Y[k])
        for n, v in (("m_layer_nelx", "nel"), ("m_nhy", "hy"), ("m_nhx", "hx"), ("m_refine", "ref"), ("m_nnd", "nd"), ("m_startNode", "st")):
            S.put(self.r, n, getattr(self, v).arr)
        S.put(self.r, "m_startElem", Arr((L,), "I", el.arr.node))
        for n, v in (("m_h", h), ("m_Lx", self.Lx), ("m_nelem", el[L]), ("m_nnode", add(st[L], nd[L])), ("m_nne", 4), ("m_ndim", 2)):
            S.put(self.r, n, v)
        # last node of row r of nodes
        self.last = lambda q: add(st[q], sub(nd[q], ONE))


def state(S):
    M = Layers(S)
    return M.r, M.m, M.L, M.nel, M.st, M.el, M.ref, M.last


class Coarsening:
    """the layers from the middle outwards: multiplier P(j), distance NT(j), and refinement R(j), for j = 0, 1, ..."""

    def __init__(self, S, nelx, nely, nfine):
        self.nmin = nmin = div(add(nely, mod(nely, num(2))), num(2))
        f0 = ite(eq(mod(nfine, num(2)), ZERO), add(div(nfine, num(2)), ONE), div(add(nfine, ONE), num(2)))
        self.a = a = ite(gt(f0, nmin), nmin, f0)
        P, NT, R = (ArrSym(n, 1, "I") for n in ("P", "NT", "R"))
        self.P = lambda j: read(P, j)
        self.NT = lambda j: read(NT, j)
        self.R = lambda j: read(R, j)
        c = lambda j: land(ge(j, a), le(mul(num(3), self.P(j)), self.NT(j)), eq(mod(nelx, mul(num(3), self.P(j))), ZERO), lt(add(self.NT(j), self.P(j)), nmin))
        self.c = c
        self.hx = lambda j: ite(eq(self.R(j), ZERO), mul(num(3), self.P(j)), self.P(j))
        self.hy = lambda j: ite(eq(self.R(j), ZERO), mul(num(2), self.P(j)), self.P(j))
        d = lambda x: imp(ge(x, ZERO), land(eq(self.R(x), ite(c(x), ZERO, num(-1))), eq(self.P(add(x, ONE)), self.hx(x)), eq(self.NT(add(x, ONE)), add(self.NT(x), self.hy(x)))))
        b = lambda x: imp(gt(x, ZERO), land(eq(self.P(x), self.hx(sub(x, ONE))), eq(self.NT(x), add(self.NT(sub(x, ONE)), self.hy(sub(x, ONE))))))
        CTX.assume(eq(self.P(ZERO), ONE), eq(self.NT(ZERO), ZERO))
        for A_ in (P, NT, R):
            for f in (d, b):
                g = lambda ix, f=f: f(ix[0])
                CTX.arrfacts.setdefault(A_, []).append(g)
                CTX.once.add(g)
        facts = []
        for n, p in (("before the coarsening", lambda k: imp(le(k, a), land(eq(self.P(k), ONE), eq(self.NT(k), k)))),
                     ("the multiplier is positive", lambda k: ge(self.P(k), ONE)),
                     ("the multiplier divides the number of elements", lambda k: eq(mod(nelx, self.P(k)), ZERO))):
            E = S.size("E" + str(len(facts)), 0)     # any upper bound
            f = S.induction(n, ZERO, E, p)
            CTX.arrfacts.setdefault(P, []).append(lambda ix, p=p: imp(ge(ix[0], ZERO), p(ix[0])))
        # number of elements per layer: exact divisions
        N = ArrSym("N", 1, "I")
        self.N = lambda j: read(N, j)
        self.nelx = nelx
        j = fresh("j")
        dig = S.digits()
        with S.scope(ge(j, ZERO)):
            q = div(nelx, self.hx(j))
            dig(mod(nelx, self.hx(j)), q, ZERO, q, self.hx(j))
            S.lemma("elements fill the layer", land(eq(mod(nelx, self.hx(j)), ZERO), ge(self.hx(j), ONE), eq(mul(q, self.hx(j)), nelx)))
            S.lemma("layers are not empty", ge(q, ONE))
            p = self.P(j)
            with S.scope(eq(self.R(j), ZERO)):
                dig(mod(nelx, p), div(nelx, p), ZERO, mul(num(3), q), p)
                S.lemma("three times as many elements", eq(div(nelx, p), mul(num(3), q)))
            S.lemma("elements of the finer layer", eq(div(nelx, p), ite(eq(self.R(j), ZERO), mul(num(3), q), q)))
            with S.scope(ge(j, ONE)):
                S.lemma("elements of the next layer", eq(div(nelx, self.hx(sub(j, ONE))), ite(eq(self.R(j), ZERO), mul(num(3), q), q)))
            self.layer = lambda x: [eq(subst(q, {j: x}), self.N(x)), ge(self.N(x), ONE), eq(div(nelx, self.P(x)), ite(eq(self.R(x), ZERO), mul(num(3), self.N(x)), self.N(x))),
                                    imp(gt(x, ZERO), eq(self.N(sub(x, ONE)), ite(eq(self.R(x), ZERO), mul(num(3), self.N(x)), self.N(x))))]
        g = lambda ix: imp(ge(ix[0], ZERO), land(*self.layer(ix[0])))
        CTX.arrfacts.setdefault(N, []).append(g)
        CTX.once.add(g)
        CTX.arrfacts.setdefault(R, []).append(g)
        CTX.once.add(g)


@contract("construction")
def _(S):
    nelx, nely, nfine = S.size("nelx"), S.size("nely"), S.size("nfine", 0)
    C = Coarsening(S, nelx, nely, nfine)
    a = C.a
    # number of layers in half of the mesh: the first k >= a with k >= nely or NT(k) >= nmin
    E = S.size("E", 1)
    more = lambda k: land(lt(k, nely), lt(C.NT(k), C.nmin))
    S.assume(ge(E, a), lnot(more(E)), imp(gt(E, a), le(E, nely)))
    facts = lambda k: land(imp(land(ge(k, a), lt(k, E)), more(k)), imp(land(ge(add(k, ONE), a), lt(add(k, ONE), E)), more(add(k, ONE))))
    one = lambda f, e: lambda k: S.lam((nely,), "I", lambda j: ite(lt(j[0], k), f(j[0]), e(k)))
    u = S.loop("layers", a, E, {
        "nhx": (one(C.hx, C.P),) * 2, "nhy": (one(C.hy, C.P),) * 2, "refine": (one(C.R, lambda k: num(-1)),) * 2,
        "ntot": (C.NT,) * 2, "nely": (lambda k: nely, lambda k: k), "iy": (lambda k: k,) * 2},
        lambda k: land(ge(k, a), le(k, E), lor(eq(k, a), lt(k, E))), facts)
    h = S.real("h")
    m = sub(E, ONE)
    L = add(mul(num(2), m), ONE)
    # the layers, from the bottom to the top
    half = lambda f: lambda i: f(ite(le(i, m), sub(m, i), sub(i, m)))
    X = lambda: None
    X.m, X.nelx, X.ref, X.hx, X.hy = m, nelx, half(C.R), half(C.hx), half(C.hy)
    X.nel = half(C.N)
    X.nd = lambda i: add(X.nel(ite(le(i, m), i, sub(i, ONE))), ONE)
    el = S.sequence("startElem", L, 0, lambda i: elements(X, i))
    st = S.sequence("startNode", L, 0, lambda i: nodes(X, i))
    S.ghost(lambda k: el[k], lambda k: st[k])
    r = S.call("make", nelx, nely, h, nfine)
    i = S.int("i", 0)
    for nm, f, N in (("nhx", X.hx, L), ("nhy", X.hy, L), ("refine", X.ref, L), ("layer_nelx", X.nel, L), ("nnd", X.nd, add(L, ONE)), ("startElem", lambda i: el[i], L), ("startNode", lambda i: st[i], add(L, ONE))):
        v = getattr(r, "m_" + nm)
        S.shape("%s: number of entries" % nm, v, (N,))
        with S.scope(lt(i, N)):
            S.eq("%s: entries" % nm, v[i], f(i))
    S.eq("number of elements", r.m_nelem, el[L])
    S.eq("number of nodes", r.m_nnode, add(st[L], X.nd(L)))
    S.eq("length", r.m_Lx, mul(h, nelx))
    S.eq("element size", r.m_h, h)
    S.eq("nodes per element", r.m_nne, num(4))
    S.eq("dimensions", r.m_ndim, num(2))
    for n, _, _, c in invariant(X):
        S.holds("invariant: " + n, c(i))


# parts of a layer (x: number of the part): condition, refined, nodes of the elements, corners of the elements.
# nodes: (row, a, b) is node a x + b of the bottom row (B), the intermediate row (D), or the top row (T);
# corners: multiples of the unit (the height and width of the part if there is one element; otherwise a third of the width),
# from the lower left corner of the part
def tab(s):
    r = []
    for e in s.split("|"):
        r.append([(w[0], int(w[1]), int(w[2])) for w in e.split()])
    return r


PARTS = [
    ("layer without refinement", lambda i, m: TRUE, False, tab("B10 B11 T11 T10"), [[(0, 0), (1, 0), (1, 1), (0, 1)]]),
    ("layer with refinement below the middle", lambda i, m: lt(i, m), True,
     tab("B10 B11 D21 D20|B11 T33 T32 D21|D20 D21 T32 T31|B10 D20 T31 T30"),
     [[(0, 0), (3, 0), (2, 1), (1, 1)], [(3, 0), (3, 2), (2, 2), (2, 1)], [(1, 1), (2, 1), (2, 2), (1, 2)], [(0, 0), (1, 1), (1, 2), (0, 2)]]),
    ("layer with refinement above the middle", lambda i, m: gt(i, m), True,
     tab("B30 B31 D20 T10|B31 B32 D21 D20|B32 B33 T11 D21|D20 D21 T11 T10"),
     [[(0, 0), (1, 0), (1, 1), (0, 2)], [(1, 0), (2, 0), (2, 1), (1, 1)], [(2, 0), (3, 0), (3, 2), (2, 1)], [(1, 1), (2, 1), (3, 2), (0, 2)]]),
]


@contract("connectivity")
def _(S):
    M = Layers(S)
    c = S.call("conn", M.r)
    S.shape("conn: shape", c, (M.el[M.L], 4))
    i = S.index("i", M.L)
    x = S.index("x", M.nel[i])
    row = {"B": M.st[i], "D": add(M.st[i], M.nd[i]), "T": M.st[add(i, ONE)]}
    for nm, cond, refined, els, _ in PARTS:
        with S.scope(cond(i, M.m), eq(M.ref[i], num(0 if refined else -1))):
            for e, vs in enumerate(els):
                for n, (r, a, b) in enumerate(vs):
                    S.eq("%s: element %d, node %d" % (nm, e, n), c[add(M.el[i], mul(num(len(els)), x), num(e)), n], add(row[r], mul(num(a), x), num(b)))


def row_x(M, q, x, l):
    """position of node x of row q, next to layer l"""
    return mul(M.h, mul(x, M.hx[l]))


def mid_x(M, i, x, j):
    """position of node 2 x + j of the intermediate row of layer i"""
    return mul(M.h, add(mul(x, M.hx[i]), mul(num(j + 1), div(M.hx[i], num(3)))))


def mid_y(M, i):
    return add(M.Y[i], mul(M.h, div(M.hy[i], num(2))))


@contract("coordinates")
def _(S):
    M = Layers(S)
    c = S.call("coor", M.r)
    S.shape("coor: shape", c, (add(M.st[M.L], M.nd[M.L]), 2))
    q = S.index("q", add(M.L, ONE))
    for nm, cond, l in (("below the middle", lt(q, M.m), q), ("of the middle", eq(q, M.m), M.m), ("above the middle", gt(q, M.m), sub(q, ONE))):
        with S.scope(cond):
            x = S.index("x", add(M.nel[l], ONE))
            S.eq("rows %s: x" % nm, c[add(M.st[q], x), 0], row_x(M, q, x, l))
            S.eq("rows %s: y" % nm, c[add(M.st[q], x), 1], M.Y[q])
    i = S.index("i", M.L)
    x = S.index("x", M.nel[i])
    for nm, cond in (("below", lt(i, M.m)), ("above", gt(i, M.m))):
        with S.scope(cond, eq(M.ref[i], ZERO)):
            for j in (0, 1):
                n = add(M.st[i], M.nd[i], mul(num(2), x), num(j))
                S.eq("intermediate nodes %s the middle (%d): x" % (nm, j), c[n, 0], mid_x(M, i, x, j))
                S.eq("intermediate nodes %s the middle (%d): y" % (nm, j), c[n, 1], mid_y(M, i))


@contract("elements")
def _(S):
    """corners of the elements, by the contracts of coor and conn"""
    M = Layers(S)
    i = S.index("i", M.L)
    x = S.index("x", M.nel[i])
    for nm, cond, refined, els, pts in PARTS:
        for side, sc, bot, top in (("below", lt(i, M.m), i, add(i, ONE)), ("middle", eq(i, M.m), i, i), ("above", gt(i, M.m), sub(i, ONE), i)):
            with S.scope(cond(i, M.m), sc, eq(M.ref[i], num(0 if refined else -1))):
                if refined and side not in nm:
                    continue
                u = div(M.hx[i], num(3)) if refined else M.hx[i]
                if refined:
                    S.lemma("three by two units", land(eq(M.hx[i], mul(num(3), u)), eq(M.hy[i], mul(num(2), u))))
                S.lemma("unit", ge(u, ONE))
                for e, (nodes_, corners) in enumerate(zip(els, pts)):
                    for n, ((r, a, b), (cx, cy)) in enumerate(zip(nodes_, corners)):
                        what = "%s (%s): element %d, node %d" % (nm, side, e, n)
                        k = add(mul(num(a), x), num(b))
                        X, Y = {"B": lambda: (row_x(M, i, k, bot), M.Y[i]), "T": lambda: (row_x(M, add(i, ONE), k, top), M.Y[add(i, ONE)]),
                                "D": lambda: (mid_x(M, i, x, b), mid_y(M, i))}[r]()
                        row = {"B": bot, "T": top}.get(r)
                        S.holds(what + ": a node of the row", land(ge(k, ZERO), le(k, M.nel[row])) if row is not None else TRUE)
                        S.eq(what + ": x", X, mul(M.h, add(mul(x, M.hx[i]), mul(num(cx), u))))
                        S.eq(what + ": y", Y, add(M.Y[i], mul(M.h, mul(num(cy), u))))
                        p, q = corners[n - 1], corners[(n + 1) % 4]
                        S.holds(what + ": counter-clockwise, convex", gt0(num((cx - p[0]) * (q[1] - cy) - (cy - p[1]) * (q[0] - cx))))


@contract("rolling")
def _(S):
    M = Layers(S)
    n = S.size("n", 0)
    e = S.call("roll", M.r, n)
    S.shape("roll: one entry per element", e, (M.el[M.L],))
    i = S.index("i", M.L)
    for nm, cond, f in (("without", eq(M.ref[i], num(-1)), ONE), ("with", eq(M.ref[i], ZERO), num(4))):
        with S.scope(cond):
            N = mul(f, M.nel[i])
            x = S.index("x", N)
            s = mod(mul(mul(n, div(M.nel[i], M.nel[ZERO], CTX.decide)), f), N, CTX.decide)
            S.eq("layer %s refinement: displaced by whole coarse elements" % nm, e[add(M.el[i], x)], add(M.el[i], x, ite(lt(x, s), sub(N, s), neg(s))))


@contract("sizes")
def _(S):
    M = Layers(S)
    j = fresh("j")
    upto = lambda k: land(ge(j, ZERO), lt(j, k))
    total = lambda k: sum_((j,), upto(k), M.hy[j])
    with S.scope(ge(j, ZERO), lt(j, M.L)):
        S.lemma("the middle layer has most elements", ge(M.nelx, M.nel[j]))
    CTX.arrfacts[M.nel.arr.node.A].append(lambda ix: imp(land(ge(ix[0], ZERO), lt(ix[0], M.L)), ge(M.nelx, M.nel[ix[0]])))
    S.eq("nelx", S.call("nelx", M.r), M.nelx)
    S.eq("nely", S.call("nely", M.r), total(M.L))
    # Y(k) = h (sum of the heights of the layers below row k), by induction on k
    k = S.int("k", 0)
    S.eq("height of the first row of nodes", M.Y[ZERO], mul(M.h, total(ZERO)))
    with S.scope(lt(k, M.L)):
        S.holds("layers below the next row of nodes", iff(upto(add(k, ONE)), lor(upto(k), eq(j, k))))
        with S.scope(eq(M.Y[k], mul(M.h, total(k)))):
            S.eq("height of the next row of nodes", M.Y[add(k, ONE)], mul(M.h, sum_((j,), lor(upto(k), eq(j, k)), M.hy[j])))


@contract("element sets of the layers")
def _(S):
    r, m, L, nel, st, el, ref, last = state(S)
    l = S.index("l", L)
    e = S.call("layer", r, l)
    n = ite(eq(ref[l], num(-1)), nel[l], mul(num(4), nel[l]))
    S.shape("elementsLayer: number of elements", e, (n,))
    k = S.int("k", 0)
    with S.scope(lt(k, n)):
        S.eq("elementsLayer", e[k], add(el[l], k))
    e = S.call("middle", r)
    S.shape("elementsMiddleLayer: number of elements", e, (nel[m],))
    with S.scope(lt(k, nel[m])):
        S.eq("elementsMiddleLayer", e[k], add(el[m], k))


@contract("node sets")
def _(S):
    r, m, L, nel, st, el, ref, last = state(S)
    k = S.int("k", 0)
    for nm, q in (("Bottom", ZERO), ("Top", L)):
        for o, kind in ((0, "Edge"), (1, "OpenEdge")):
            s = S.call(nm + kind, r)
            n = sub(sub(last(q), st[q]), num(-1 if o == 0 else 1))
            S.shape("nodes%s%s: number of nodes" % (nm, kind), s, (n,))
            with S.scope(lt(k, n)):
                S.eq("nodes%s%s: nodes of the row, in order" % (nm, kind), s[k], add(st[q], add(k, num(o))))
        S.eq("nodes%sLeftCorner" % nm, S.call(nm + "LeftCorner", r), st[q])
        S.eq("nodes%sRightCorner" % nm, S.call(nm + "RightCorner", r), last(q))
    S.eq("nodesOrigin", S.call("Origin", r), st[ZERO])
    for nm, f in (("Left", lambda q: st[q]), ("Right", last)):
        for o, kind in ((0, "Edge"), (1, "OpenEdge")):
            s = S.call(nm + kind, r)
            n = add(L, num(1 if o == 0 else -1))
            S.shape("nodes%s%s: number of nodes" % (nm, kind), s, (n,))
            with S.scope(lt(k, n)):
                S.eq("nodes%s%s: one node of each row" % (nm, kind), s[k], f(add(k, num(o))))
