import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "C16"))
from spec import *
from names import *
BUDGET = 300
EXPLANATION = "The constructor establishes the class invariant (layers, refinement, symmetry, sizes, first node and element of each layer) for every number of elements and thickness of the fine layer; coordinates, connectivity, elements (orientation, and filling of the layers), node sets, and sizes are proved for every object that satisfies the invariant."


def invariant(X):
    """class invariant of the mesh with 2 m + 1 layers of elements and 2 m + 2 rows of nodes: clauses about layer i (or row i of
    nodes).  X: m, x, z (elements of the layer), ref, nd, hx, hy, hz (entries as functions of the layer), nelx, nelz.
    (name, array whose entry i the clause is about, recurrence?, clause)"""
    m = X.m
    L = add(mul(num(2), m), ONE)
    layer = lambda i: land(ge(i, ZERO), lt(i, L))
    fx = lambda i: ite(eq(X.ref(i), ZERO), num(3), ONE)
    fz = lambda i: ite(eq(X.ref(i), num(2)), num(3), ONE)
    r = [
        ("layers are refined in one direction or not", "ref", False, lambda i: imp(layer(i), lor(eq(X.ref(i), ZERO), eq(X.ref(i), num(-1)), eq(X.ref(i), num(2))))),
        ("the middle layer is not refined", "ref", False, lambda i: imp(eq(i, m), eq(X.ref(i), num(-1)))),
        ("layers are not empty", "x", False, lambda i: imp(layer(i), ge(X.x(i), ONE))),
        ("layers are not empty in z", "z", False, lambda i: imp(layer(i), ge(X.z(i), ONE))),
        ("elements fill the layer in x", "x", False, lambda i: imp(layer(i), eq(mul(X.x(i), X.hx(i)), X.nelx))),
        ("elements fill the layer in z", "z", False, lambda i: imp(layer(i), eq(mul(X.z(i), X.hz(i)), X.nelz))),
        ("refined elements in x have three by two parts", "hx", False, lambda i: imp(land(layer(i), eq(X.ref(i), ZERO)), land(eq(mod(X.hx(i), num(3)), ZERO), eq(mod(X.hy(i), num(2)), ZERO)))),
        ("refined elements in z have three by two parts", "hz", False, lambda i: imp(land(layer(i), eq(X.ref(i), num(2))), land(eq(mod(X.hz(i), num(3)), ZERO), eq(mod(X.hy(i), num(2)), ZERO)))),
        ("element sizes are positive", "hx", False, lambda i: imp(layer(i), land(ge(X.hx(i), ONE), ge(X.hy(i), ONE), ge(X.hz(i), ONE)))),
        ("the middle layer is the finest", "hx", False, lambda i: imp(eq(i, m), land(eq(X.hx(i), ONE), eq(X.hy(i), ONE), eq(X.hz(i), ONE)))),
        ("number of nodes of a row up to the middle", "nd", False, lambda i: imp(land(ge(i, ZERO), le(i, m)), eq(X.nd(i), mul(add(X.x(i), ONE), add(X.z(i), ONE))))),
        ("number of nodes of a row above the middle", "nd", False, lambda i: imp(land(gt(i, m), le(i, L)), eq(X.nd(i), mul(add(X.x(sub(i, ONE)), ONE), add(X.z(sub(i, ONE)), ONE))))),
    ]
    for d, n, h, f in (("x", X.x, X.hx, fx), ("z", X.z, X.hz, fz)):
        r += [("refinement in %s below the middle" % d, d, True, lambda i, n=n, f=f: imp(land(ge(i, ZERO), lt(i, m)), eq(n(add(i, ONE)), mul(f(i), n(i))))),
              ("refinement in %s above the middle" % d, d, True, lambda i, n=n, f=f: imp(land(gt(i, m), lt(i, L)), eq(n(sub(i, ONE)), mul(f(i), n(i))))),
              ("element sizes in %s below the middle" % d, "h" + d, True, lambda i, h=h, f=f: imp(land(ge(i, ZERO), lt(i, m)), eq(h(i), mul(f(i), h(add(i, ONE)))))),
              ("element sizes in %s above the middle" % d, "h" + d, True, lambda i, h=h, f=f: imp(land(gt(i, m), lt(i, L)), eq(h(i), mul(f(i), h(sub(i, ONE))))))]
    o = lambda i: sub(sub(L, ONE), i)
    for n, a in (("x", X.x), ("z", X.z), ("hx", X.hx), ("hy", X.hy), ("hz", X.hz), ("ref", X.ref)):
        r.append(("symmetry: " + n, n, True, lambda i, a=a: imp(layer(i), eq(a(o(i)), a(i)))))
    r.append(("symmetry: nd", "nd", True, lambda i: imp(land(ge(i, ZERO), le(i, L)), eq(X.nd(sub(L, i)), X.nd(i)))))
    return r


def elements(X, i):
    """number of elements of layer i"""
    return mul(mul(ite(eq(X.ref(i), num(-1)), ONE, num(4)), X.x(i)), X.z(i))


def nodes(X, i):
    """number of nodes of row i, and of the intermediate row of layer i"""
    return add(X.nd(i), ite(eq(X.ref(i), ZERO), mul(mul(num(2), X.x(i)), add(X.z(i), ONE)), ite(eq(X.ref(i), num(2)), mul(mul(num(2), X.z(i)), add(X.x(i), ONE)), ZERO)))

class Coarsening:
    """the layers from the middle outwards, for j = 0, 1, ...: multipliers PX(j), PY(j), PZ(j) before the layer, distance NT(j),
    refinement R(j), and whether the layer is the second of a pair that is refined first in x and then in z (W(j))"""

    def __init__(self, S, nelx, nely, nelz, nfine):
        self.nmin = nmin = div(add(nely, mod(nely, num(2))), num(2))
        f0 = ite(eq(mod(nfine, num(2)), ZERO), add(div(nfine, num(2)), ONE), div(add(nfine, ONE), num(2)))
        self.a = a = ite(gt(f0, nmin), nmin, f0)
        syms = {n: ArrSym(n, 1, "I") for n in ("PX", "PY", "PZ", "NT", "R", "W")}
        for n, A_ in syms.items():
            setattr(self, n, lambda j, A_=A_: read(A_, j))
        PX, PY, PZ, NT, R, W = (getattr(self, n) for n in syms)
        fits = lambda j, n, P: land(le(mul(num(3), PY(j)), NT(j)), eq(mod(n, mul(num(3), P(j))), ZERO), lt(add(NT(j), PY(j)), nmin))
        cx = lambda j: land(ge(j, a), eq(W(j), ZERO), fits(j, nelx, PX))
        cz = lambda j: land(ge(j, a), eq(W(j), ZERO), fits(j, nelz, PZ))
        self.cx, self.cz = cx, cz
        self.pair = z2 = lambda j: land(cx(j), lt(add(j, ONE), nely), lt(add(NT(j), mul(num(4), PY(j))), nmin), eq(mod(nelz, mul(num(3), PZ(j))), ZERO))
        self.hx = lambda j: ite(eq(R(j), ZERO), mul(num(3), PX(j)), PX(j))
        self.hz = lambda j: ite(eq(R(j), num(2)), mul(num(3), PZ(j)), PZ(j))
        self.hy = lambda j: ite(eq(W(j), ONE), mul(num(2), PY(sub(j, ONE))), ite(eq(R(j), num(-1)), PY(j), mul(num(2), PY(j))))
        nxt = lambda x: land(eq(PX(add(x, ONE)), self.hx(x)), eq(PZ(add(x, ONE)), self.hz(x)), eq(NT(add(x, ONE)), add(NT(x), self.hy(x))),
                             eq(PY(add(x, ONE)), ite(lor(eq(W(x), ONE), eq(R(x), num(-1))), PY(x), mul(num(3), PY(x)))), eq(W(add(x, ONE)), ite(z2(x), ONE, ZERO)))
        d = lambda x: imp(ge(x, ZERO), land(eq(R(x), ite(eq(W(x), ONE), num(2), ite(cx(x), ZERO, ite(cz(x), num(2), num(-1))))), lor(eq(W(x), ZERO), eq(W(x), ONE)), nxt(x)))
        b = lambda x: imp(gt(x, ZERO), nxt(sub(x, ONE)))
        CTX.assume(eq(PX(ZERO), ONE), eq(PY(ZERO), ONE), eq(PZ(ZERO), ONE), eq(NT(ZERO), ZERO), eq(W(ZERO), ZERO))
        for A_ in syms.values():
            for f in (d, b):
                g = lambda ix, f=f: f(ix[0])
                CTX.arrfacts.setdefault(A_, []).append(g)
                CTX.once.add(g)
        for n, p, vs in (("before the coarsening", lambda k: imp(le(k, a), land(*[eq(P(k), ONE) for P in (PX, PY, PZ)], eq(NT(k), k), eq(W(k), ZERO))), "PX PY PZ NT W"),
                         ("the multipliers are positive", lambda k: land(*[ge(P(k), ONE) for P in (PX, PY, PZ)]), "PX PY PZ"),
                         ("the second of a pair", lambda k: imp(eq(W(k), ONE), land(ge(k, ONE), lt(k, nely), lt(NT(k), nmin), eq(W(sub(k, ONE)), ZERO), eq(R(sub(k, ONE)), ZERO), eq(PY(k), mul(num(3), PY(sub(k, ONE)))), eq(mod(nelz, mul(num(3), PZ(k))), ZERO))), "W"),
                         ("the multiplier divides the number of elements in x", lambda k: eq(mod(nelx, PX(k)), ZERO), "PX"),
                         ("the multiplier divides the number of elements in z", lambda k: eq(mod(nelz, PZ(k)), ZERO), "PZ")):
            E = S.size("E" + n.replace(" ", "_"), 0)     # any upper bound
            S.induction(n, ZERO, E, p)
            for v in vs.split():
                CTX.arrfacts[syms[v]].append(lambda ix, p=p: imp(ge(ix[0], ZERO), p(ix[0])))
        # number of elements per layer: exact divisions
        for nm, nel, h, P, kind in (("x", nelx, self.hx, PX, ZERO), ("z", nelz, self.hz, PZ, num(2))):
            N = ArrSym("N" + nm, 1, "I")
            n_ = lambda j, N=N: read(N, j)
            setattr(self, "N" + nm, n_)
            j = fresh("j")
            dig = S.digits()
            with S.scope(ge(j, ZERO)):
                q = div(nel, h(j))
                dig(mod(nel, h(j)), q, ZERO, q, h(j))
                S.lemma("elements fill the layer in " + nm, land(eq(mod(nel, h(j)), ZERO), ge(h(j), ONE), eq(mul(q, h(j)), nel)))
                S.lemma("layers are not empty in " + nm, ge(q, ONE))
                p = P(j)
                with S.scope(eq(self.R(j), kind)):
                    dig(mod(nel, p), div(nel, p), ZERO, mul(num(3), q), p)
                    S.lemma("three times as many elements in " + nm, eq(div(nel, p), mul(num(3), q)))
                S.lemma("elements of the finer layer in " + nm, eq(div(nel, p), ite(eq(self.R(j), kind), mul(num(3), q), q)))
                with S.scope(ge(j, ONE)):
                    S.lemma("elements of the next layer in " + nm, eq(div(nel, h(sub(j, ONE))), ite(eq(self.R(j), kind), mul(num(3), q), q)))

            def layer(x, q=q, j=j, n_=n_, nel=nel, P=P, kind=kind):
                three = ite(eq(self.R(x), kind), mul(num(3), n_(x)), n_(x))
                return [eq(subst(q, {j: x}), n_(x)), ge(n_(x), ONE), eq(div(nel, P(x)), three), imp(gt(x, ZERO), eq(n_(sub(x, ONE)), three))]
            g = lambda ix, layer=layer: imp(ge(ix[0], ZERO), land(*layer(ix[0])))
            CTX.arrfacts.setdefault(N, []).append(g)
            CTX.once.add(g)
            CTX.arrfacts[syms["R"]].append(g)


def constructor(S, verify):
    nelx, nely, nelz, nfine = S.size("nelx"), S.size("nely"), S.size("nelz"), S.size("nfine", 0)
    C = Coarsening(S, nelx, nely, nelz, nfine)
    a = C.a
    # number of layers in half of the mesh: the first k >= a with k >= nely or NT(k) >= nmin
    E = S.size("E", 1)
    more = lambda k: land(lt(k, nely), lt(C.NT(k), C.nmin))
    S.assume(ge(E, a), lnot(more(E)), imp(gt(E, a), le(E, nely)))
    facts = lambda k: land(*[imp(land(ge(x, a), lt(x, E)), more(x)) for x in (k, add(k, ONE), add(k, num(2)))])
    one = lambda f, e: lambda k: S.lam((nely,), "I", lambda j: ite(lt(j[0], k), f(j[0]), e(k)))
    S.loop("layers", a, E, {
        "nhx": (one(C.hx, C.PX),) * 2, "nhy": (one(C.hy, C.PY),) * 2, "nhz": (one(C.hz, C.PZ),) * 2, "refine": (one(C.R, lambda k: num(-1)),) * 2,
        "ntot": (C.NT,) * 2, "nely": (lambda k: nely, lambda k: k), "iy": (lambda k: k,) * 2},
        lambda k: land(ge(k, a), le(k, E), lor(eq(k, a), lt(k, E)), eq(C.W(k), ZERO)), facts,
        [(C.pair, lambda k: add(k, num(2)))] + [(c, lambda k: add(k, ONE)) for c in (
            lambda k: land(C.cx(k), lnot(C.pair(k))), lambda k: land(lnot(C.cx(k)), C.cz(k)), lambda k: land(lnot(C.cx(k)), lnot(C.cz(k))))], verify)
    return nelx, nely, nelz, nfine, C, E


for n, part in (("first layer", "first"), ("pair of layers", 0), ("layer refined in x", 1), ("layer refined in z", 2), ("layer without refinement", 3)):
    @contract("construction: " + n)
    def _(S, part=part):
        nelx, nely, nelz, nfine, C, E = constructor(S, [part])
        try:
            S.call("make", nelx, nely, nelz, S.real("h"), nfine)
        except Verified:
            return
        raise Unsup("loop over the layers")


@contract("construction")
def _(S):
    nelx, nely, nelz, nfine, C, E = constructor(S, [])
    h = S.real("h")
    m = sub(E, ONE)
    L = add(mul(num(2), m), ONE)
    # the layers, from the bottom to the top
    half = lambda f: lambda i: f(ite(le(i, m), sub(m, i), sub(i, m)))
    X = lambda: None
    X.m, X.nelx, X.nelz, X.ref, X.hx, X.hy, X.hz, X.x, X.z = (m, nelx, nelz) + tuple(half(f) for f in (C.R, C.hx, C.hy, C.hz, C.Nx, C.Nz))
    X.nd = lambda i: mul(*[add(n(ite(le(i, m), i, sub(i, ONE))), ONE) for n in (X.x, X.z)])
    el = S.sequence("startElem", L, 0, lambda i: elements(X, i))
    # nodes of the row below the layer and of the intermediate row; the same as in "nodes" (shown below)
    own = lambda i: ite(lt(i, m), num(3), num(5))
    step = lambda i: ite(eq(X.ref(i), ZERO), mul(add(mul(own(i), X.x(i)), ONE), add(X.z(i), ONE)), ite(eq(X.ref(i), num(2)), mul(add(X.x(i), ONE), add(mul(own(i), X.z(i)), ONE)), mul(add(X.x(i), ONE), add(X.z(i), ONE))))
    st = S.sequence("startNode", L, 0, step)
    S.ghost(lambda k: el[k], lambda k: st[k])
    arrays = (("nhx", X.hx, L), ("nhy", X.hy, L), ("nhz", X.hz, L), ("refine", X.ref, L), ("layer_nelx", X.x, L), ("layer_nelz", X.z, L), ("nnd", X.nd, add(L, ONE)),
                     ("startElem", lambda i: el[i], L), ("startNode", lambda i: st[i], add(L, ONE)))
    for nm, f, N in arrays[:-2]:
        S.content("m_" + nm, N, f)
    i = S.index("layer", L)
    for nm, sc in (("below", lt(i, m)), ("of", eq(i, m)), ("above", gt(i, m))):
        for kind in (-1, 0, 2):
            with S.scope(sc, eq(X.ref(i), num(kind))):
                if nm == "above":
                    for n, f, k in (("x", X.x, 0), ("z", X.z, 2)):
                        S.lemma("%s above the middle (%d)" % (n, kind), eq(f(sub(i, ONE)), mul(num(3 if k == kind else 1), f(i))))
                S.eq("number of nodes of a layer %s the middle (%d)" % (nm, kind), step(i), nodes(X, i))
    r = S.call("make", nelx, nely, nelz, h, nfine)
    i = S.int("i", 0)
    for nm, f, N in arrays:
        v = getattr(r, "m_" + nm)
        S.shape("%s: number of entries" % nm, v, (N,))
        if nm == "startNode":
            S.eq("startNode: first entry", v[ZERO], ZERO)
            for side, sc in (("below", lt(i, m)), ("of", eq(i, m)), ("above", land(gt(i, m), lt(i, L)))):
                for kind in (-1, 0, 2):
                    with S.scope(sc, eq(X.ref(i), num(kind))):
                        S.lemma("next row %s the middle (%d)" % (side, kind), eq(st[add(i, ONE)], add(st[i], step(i))))
                        S.eq("startNode: entries %s the middle (%d)" % (side, kind), v[add(i, ONE)], st[add(i, ONE)])
            continue
        with S.scope(lt(i, N)):
            S.eq("%s: entries" % nm, v[i], f(i))
    S.eq("number of elements", r.m_nelem, el[L])
    S.eq("number of nodes", r.m_nnode, add(st[L], X.nd(L)))
    S.eq("length in x", r.m_Lx, mul(h, nelx))
    S.eq("length in z", r.m_Lz, mul(h, nelz))
    S.eq("element size", r.m_h, h)
    S.eq("nodes per element", r.m_nne, num(8))
    S.eq("dimensions", r.m_ndim, num(3))
    for n, _, _, c in invariant(X):
        S.holds("invariant: " + n, c(i))



class State:
    """any object that satisfies the class invariant; row r of nodes: node (i, k) is start(r) + i + k (X + 1), for X x Z elements
    in the layer that the row belongs to"""

    def __init__(self, S, use=lambda name: True):
        self.S = S
        self.r = S.object("GooseFEM::Mesh::Hex8::FineLayer")
        self.m = m = S.size("m", 0)
        self.L = L = add(mul(num(2), m), ONE)
        self.nelx, self.nelz, self.h = S.size("nelx"), S.size("nelz"), S.real("h")
        a = {n: S.arr(nm, "I", (N,), rng) for n, nm, N, rng in (("x", "X", L, (1, None)), ("z", "Z", L, (1, None)), ("ref", "refine", L, (-1, 3)), ("nd", "nnd", add(L, ONE), (4, None)),
                                                               ("hx", "nhx", L, (1, None)), ("hy", "nhy", L, (1, None)), ("hz", "nhz", L, (1, None)))}
        X = self.C = lambda: None
        X.m, X.nelx, X.nelz = m, self.nelx, self.nelz
        for n, v in a.items():
            setattr(X, n, lambda i, v=v: v[i])
        self.X, self.Z, self.ref, self.nd, self.hx, self.hy, self.hz = (a[n] for n in ("x", "z", "ref", "nd", "hx", "hy", "hz"))
        S.assume(*[eq(a[n][m], v) for n, v in (("ref", num(-1)), ("hx", ONE), ("hy", ONE), ("hz", ONE), ("x", self.nelx), ("z", self.nelz))])
        for nm, n, once, c in invariant(X):
            if not use(nm):
                continue
            f = lambda ix, c=c: c(ix[0])
            CTX.arrfacts.setdefault(a[n].arr.node.A, []).append(f)
            if once:
                CTX.once.add(f)
                # the same clause, found from the neighbour
                for d in (ONE, num(-1)):
                    g = lambda ix, c=c, d=d: c(add(ix[0], d))
                    if n in "xz":
                        CTX.arrfacts[a[n].arr.node.A].append(g)
                        CTX.once.add(g)
        self.el = el = S.sequence("startElem", L, 0, lambda i: elements(X, i))
        self.st = st = S.sequence("startNode", L, 0, lambda i: nodes(X, i))
        self.Y = S.sequence("Y", L, 0, lambda q: mul(self.h, self.hy[q]), "R", False)
        S.ghost(lambda k: el[k], lambda k: st[k], lambda k: add(st[k], self.nd[k]), lambda k: self.Y[k])
        for n, v in (("m_layer_nelx", self.X), ("m_layer_nelz", self.Z), ("m_startNode", st), ("m_nhx", self.hx), ("m_nhy", self.hy), ("m_nhz", self.hz), ("m_refine", self.ref), ("m_nnd", self.nd)):
            S.put(self.r, n, v.arr)
        S.put(self.r, "m_startElem", Arr((L,), "I", el.arr.node))
        for n, v in (("m_h", self.h), ("m_Lx", mul(self.h, self.nelx)), ("m_Lz", mul(self.h, self.nelz)), ("m_nelem", el[L]), ("m_nnode", add(st[L], self.nd[L])), ("m_nne", 8), ("m_ndim", 3)):
            S.put(self.r, n, v)

    def nx(self, q):
        return self.X[ite(le(q, self.m), q, sub(q, ONE))]

    def nz(self, q):
        return self.Z[ite(le(q, self.m), q, sub(q, ONE))]

    def node(self, q, i, k):
        return add(self.st[q], add(i, mul(k, add(self.nx(q), ONE))))


@contract("middle layer")
def _(S):
    M = State(S, lambda name: "empty" in name)
    m = M.m
    e = S.call("middle", M.r)
    n = mul(M.X[m], M.Z[m])
    S.shape("elementsMiddleLayer: number of elements", e, (n,))
    x, z = S.index("x", M.X[m]), S.index("z", M.Z[m])
    p = add(x, mul(z, M.X[m]))
    S.lemma("position in the list", land(ge(p, ZERO), lt(p, n)))
    S.eq("elementsMiddleLayer", e[p], add(M.el[m], p))


def corner(S, names):
    M = State(S)
    for name in names:
        f, _ = parts(name[:-6])
        q = M.L if f[1] else ZERO
        S.eq("nodes" + name, S.call(name, M.r), M.node(q, M.nx(q) if f[0] else ZERO, M.nz(q) if f[2] else ZERO))
    S.eq("nodesOrigin", S.call("Origin", M.r), M.st[ZERO])


def edge(S, names):
    M = State(S)
    for name in names:
        f, op = parts(name)
        s = S.call(name, M.r)
        free = [j for j in range(3) if j not in f][0]
        q = None if free == 1 else (M.L if f[1] else ZERO)
        n = M.L if free == 1 else M.nx(q) if free == 0 else M.nz(q)
        S.shape("nodes%s: number of nodes" % name, s, (add(n, num(-1 if op else 1)),))
        k = S.int("k!" + name, 0)
        with S.scope(lt(k, add(n, num(-1 if op else 1)))):
            p = add(k, num(1 if op else 0))
            r = p if free == 1 else q
            for c in (le(r, M.m), gt(r, M.m)):
                with S.scope(c):
                    v = M.node(r, p if free == 0 else M.nx(r) if f[0] else ZERO, p if free == 2 else M.nz(r) if f[2] else ZERO)
                    S.eq("nodes%s: nodes in ascending order" % name, s[k], v)


def face(S, names):
    M = State(S)
    for name in names:
        f, op = parts(name)
        s = S.call(name, M.r)
        q = M.L if f[1] else ZERO
        d = -1 if op else 1
        nx, nz = add(M.nx(q), num(d)), add(M.nz(q), num(d))
        S.shape("nodes%s: number of nodes" % name, s, (mul(nx, nz),))
        i, k = S.int("i!" + name, 0), S.int("k!" + name, 0)
        with S.scope(lt(i, nx), lt(k, nz)):
            o = ONE if op else ZERO
            S.eq("nodes%s: every node" % name, s[add(mul(i, nz), k)], M.node(q, add(i, o), add(k, o)))


def side(S, name):
    """face that spans all layers: rows of nodes 0 ... 2 m + 1, row r next to layer l, that has the intermediate nodes of the layer too"""
    M = State(S, lambda n: "refinement" not in n and "size" not in n and "parts" not in n)
    f, op = parts(name)
    kind = 0 if 2 in f else 2
    # number of elements along the row
    N, fixed = (M.X, M.Z) if kind == 0 else (M.Z, M.X)
    far = f[2 - kind]
    L1 = add(M.L, ONE)
    o, d = (ONE, num(-1)) if op else (ZERO, ONE)
    layer = lambda r: ite(le(r, M.m), r, sub(r, ONE))
    own = lambda r, l: ite(land(gt(r, ZERO), lt(r, M.L)), sub(N[l], ONE), ZERO) if op else add(N[l], ONE)
    refined = lambda l: ite(eq(M.ref[l], num(kind)), mul(num(2), N[l]), ZERO)
    pos = S.sequence("position", L1, 0, lambda r: add(own(r, layer(r)), refined(layer(r))))
    S.ghost(lambda k: pos[k], lambda k: pos[add(k, ONE)])
    s = S.call(name, M.r)
    S.shape("nodes%s: number of nodes" % name, s, (pos[L1],))
    r, k = S.index("r", L1), S.int("k", 0)
    node = lambda first, n, k, w: add(first, k, mul(n, w) if far else ZERO) if kind == 0 else add(first, mul(k, w), n if far else ZERO)
    for nm, sc, l in (("up to", le(r, M.m), r), ("above", gt(r, M.m), sub(r, ONE))):
        with S.scope(sc):
            for k0 in (-1, 0, 2):
                with S.scope(eq(M.ref[l], num(k0))):
                    S.lemma("rows %s the middle: intermediate nodes (%d)" % (nm, k0), land(eq(refined(l), mul(num(2), N[l]) if k0 == kind else ZERO), eq(pos[add(r, ONE)], add(pos[r], own(r, l), mul(num(2), N[l]) if k0 == kind else ZERO))))
                    with S.scope(lt(k, own(r, l)), *([gt(r, ZERO), lt(r, M.L)] if op else [])):
                        p = add(pos[r], k, ZERO if nm == "up to" else refined(l))
                        S.eq("nodes%s: rows %s the middle (%d)" % (name, nm, k0), s[p], node(M.st[r], fixed[l], add(k, o), add(M.X[l], ONE)))
                    if k0 == kind:
                        with S.scope(lt(k, mul(num(2), N[l]))):
                            p = add(pos[r], k, own(r, l) if nm == "up to" else ZERO)
                            S.eq("nodes%s: intermediate nodes of rows %s the middle" % (name, nm), s[p], node(add(M.st[l], M.nd[l]), fixed[l], k, mul(num(2), M.X[l]) if kind == 0 else add(M.X[l], ONE)))


@contract("sizes")
def _(S):
    M = State(S, lambda n: "elements fill" in n or "empty" in n or "positive" in n)
    j = fresh("j")
    upto = lambda k: land(ge(j, ZERO), lt(j, k))
    total = lambda k: sum_((j,), upto(k), M.hy[j])
    with S.scope(ge(j, ZERO), lt(j, M.L)):
        for n, N, h, nel in (("x", M.X, M.hx, M.nelx), ("z", M.Z, M.hz, M.nelz)):
            S.lemma("the middle layer has most elements in " + n, ge(nel, N[j]))
    for n, N, nel in (("x", M.X, M.nelx), ("z", M.Z, M.nelz)):
        CTX.arrfacts[N.arr.node.A].append(lambda ix, N=N, nel=nel: imp(land(ge(ix[0], ZERO), lt(ix[0], M.L)), ge(nel, N[ix[0]])))
    S.eq("nelx", S.call("nelx", M.r), M.nelx)
    S.eq("nelz", S.call("nelz", M.r), M.nelz)
    S.eq("nely", S.call("nely", M.r), total(M.L))
    # Y(k) = h (sum of the heights of the layers below row k), by induction on k
    k = S.int("k", 0)
    S.eq("height of the first row of nodes", M.Y[ZERO], mul(M.h, total(ZERO)))
    with S.scope(lt(k, M.L)):
        S.holds("layers below the next row of nodes", iff(upto(add(k, ONE)), lor(upto(k), eq(j, k))))
        with S.scope(eq(M.Y[k], mul(M.h, total(k)))):
            S.eq("height of the next row of nodes", M.Y[add(k, ONE)], mul(M.h, sum_((j,), lor(upto(k), eq(j, k)), M.hy[j])))
    S.eq("nelem", S.call("nelem", M.r), M.el[M.L])
    S.eq("nnode", S.call("nnode", M.r), add(M.st[M.L], M.nd[M.L]))
    S.eq("nne", S.call("nne", M.r), num(8))
    S.eq("ndim", S.call("ndim", M.r), num(3))


contract("corners")(lambda S: corner(S, C3))
for n in range(0, len(L3), 8):
    contract("edges %s" % " ".join(L3[n:n + 8]))(lambda S, n=n: edge(S, L3[n:n + 8]))
contract("bottom and top faces")(lambda S: face(S, ["Bottom", "Top", "BottomFace", "TopFace"]))

for n in ("Front", "Back", "Left", "Right", "FrontFace", "BackFace", "LeftFace", "RightFace"):
    contract("nodes" + n)(lambda S, n=n: side(S, n))


# parts of a layer (number of the part): condition, refinement, nodes of the elements.
# nodes: (row, a, b, c, d) is node (a x + b, c z + d) of the bottom row (B), the intermediate row (D), or the top row (T)
def tab(s):
    return [[(w[0],) + tuple(int(v) for v in w[1:]) for w in e.split()] for e in s.split("|")]


def prism(es):
    """the elements of the two-dimensional mesh in the (x, y)-plane, extruded in z"""
    return [[(r, a, b, 1, k) for k in (0, 1) for r, a, b in e] for e in es]


PARTS = [
    ("layer without refinement", lambda i, m: TRUE, -1, prism(tab("B10 B11 T11 T10"))),
    ("layer with refinement in x below the middle", lambda i, m: lt(i, m), 0, prism(tab("B10 B11 D21 D20|B11 T33 T32 D21|D20 D21 T32 T31|B10 D20 T31 T30"))),
    ("layer with refinement in x above the middle", lambda i, m: gt(i, m), 0, prism(tab("B30 B31 D20 T10|B31 B32 D21 D20|B32 B33 T11 D21|D20 D21 T11 T10"))),
    ("layer with refinement in z below the middle", lambda i, m: lt(i, m), 2,
     tab("B1010 B1011 B1111 B1110 D1020 D1021 D1121 D1120|D1021 D1121 T1132 T1032 B1011 B1111 T1133 T1033|"
         "D1020 D1120 T1131 T1031 D1021 D1121 T1132 T1032|B1010 B1110 T1130 T1030 D1020 D1120 T1131 T1031")),
    ("layer with refinement in z above the middle", lambda i, m: gt(i, m), 2,
     tab("B1030 B1130 T1110 T1010 B1031 B1131 D1120 D1020|B1031 B1131 D1120 D1020 B1032 B1132 D1121 D1021|"
         "B1032 B1132 D1121 D1021 B1033 B1133 T1111 T1011|D1020 D1120 T1110 T1010 D1021 D1121 T1111 T1011")),
]


def rows(M, i, kind):
    """first node, and number of nodes in x, of the rows next to layer i"""
    return {"B": (M.st[i], add(M.nx(i), ONE)), "T": (M.st[add(i, ONE)], add(M.nx(add(i, ONE)), ONE)),
            "D": (add(M.st[i], M.nd[i]), mul(num(2), M.X[i]) if kind == 0 else add(M.X[i], ONE))}


for P in PARTS:
    @contract("connectivity: " + P[0])
    def _(S, P=P):
        nm, cond, kind, els = P
        M = State(S)
        c = S.call("conn", M.r)
        S.shape("conn: shape", c, (M.el[M.L], 8))
        i = S.index("i", M.L)
        x, z = S.index("x", M.X[i]), S.index("z", M.Z[i])
        for side, sc in (("below", lt(i, M.m)), ("of", eq(i, M.m)), ("above", gt(i, M.m))):
            if kind >= 0 and side not in nm:
                continue
            with S.scope(sc, eq(M.ref[i], num(kind))):
                R = rows(M, i, kind)
                for e, vs in enumerate(els):
                    for n, (r, a, b, cz, d) in enumerate(vs):
                        S.eq("%s %s the middle: element %d, node %d" % (nm, side, e, n), c[add(M.el[i], mul(num(len(els)), add(x, mul(z, M.X[i]))), num(e)), n],
                             add(R[r][0], mul(num(a), x), num(b), mul(add(mul(num(cz), z), num(d)), R[r][1])))


def row(M, q, i, k, l):
    """position of node (i, k) of row q, next to layer l"""
    return mul(M.h, mul(i, M.hx[l])), M.Y[q], mul(M.h, mul(k, M.hz[l]))


def mid(M, i, x, z, j, kind):
    """position of node (2 x + j, z) or (x, 2 z + j) of the intermediate row of layer i"""
    third = lambda s, n: mul(M.h, add(mul(n, s), mul(num(j + 1), div(s, num(3)))))
    return (third(M.hx[i], x) if kind == 0 else mul(M.h, mul(x, M.hx[i])), add(M.Y[i], mul(M.h, div(M.hy[i], num(2)))),
            third(M.hz[i], z) if kind == 2 else mul(M.h, mul(z, M.hz[i])))


@contract("coordinates: rows of nodes")
def _(S):
    M = State(S)
    c = S.call("coor", M.r)
    S.shape("coor: shape", c, (add(M.st[M.L], M.nd[M.L]), 3))
    l = S.index("l", M.L)
    # the row below layer l of elements, or above it
    for nm, cond, q, l, kinds in (("below the middle", lt(l, M.m), l, l, (None,)), ("of the middle", TRUE, M.m, M.m, (None,)), ("above the middle", ge(l, M.m), add(l, ONE), l, (-1, 0, 2))):
        for kind in kinds:
            with S.scope(cond, *([] if kind is None else [eq(M.ref[l], num(kind))])):
                if kind is not None:
                    nm = "above the middle (%d)" % kind
                    S.lemma("rows %s: first node" % nm, eq(M.st[q], add(M.st[l], M.nd[l], mul(num(2), mul(M.X[l], add(M.Z[l], ONE))) if kind == 0 else mul(num(2), mul(M.Z[l], add(M.X[l], ONE))) if kind == 2 else ZERO)))
                i, k = S.index("i", add(M.X[l], ONE)), S.index("k", add(M.Z[l], ONE))
                n = add(M.st[q], i, mul(k, add(M.X[l], ONE)))
                for d, v in enumerate(row(M, q, i, k, l)):
                    S.eq("rows %s: %s" % (nm, "xyz"[d]), c[n, d], v)


for kind in (0, 2):
    @contract("coordinates: intermediate nodes in " + "x z"[kind])
    def _(S, kind=kind):
        M = State(S)
        c = S.call("coor", M.r)
        i = S.index("i", M.L)
        for nm, cond in (("below", lt(i, M.m)), ("above", gt(i, M.m))):
            with S.scope(cond, eq(M.ref[i], num(kind))):
                x, z = S.index("x", M.X[i] if kind == 0 else add(M.X[i], ONE)), S.index("z", M.Z[i] if kind == 2 else add(M.Z[i], ONE))
                S.lemma("nodes of the row %s the middle" % nm, eq(M.nd[i if nm == "below" else add(i, ONE)], mul(add(M.X[i], ONE), add(M.Z[i], ONE))))
                for j in (0, 1):
                    n = add(mul(num(2), x), num(j), mul(z, mul(num(2), M.X[i]))) if kind == 0 else add(x, mul(add(mul(num(2), z), num(j)), add(M.X[i], ONE)))
                    for d, v in enumerate(mid(M, i, x, z, j, kind)):
                        S.eq("intermediate nodes %s the middle (%d): %s" % (nm, j, "xyz"[d]), c[add(M.st[i], M.nd[i], n), d], v)


def corner_of(node, kind):
    """position in the part, in units of a third (of the refined direction), half (in y), and whole (otherwise)"""
    r, a, b, c, d = node
    third = lambda f, n: 1 + n if r == "D" else n if f == 3 else 3 * n
    y = {"B": 0, "D": 1, "T": 2}[r]
    return (b, y // 2, d) if kind < 0 else (third(a, b), y, d) if kind == 0 else (b, y, third(c, d))


def det(u, v, w):
    return u[0] * (v[1] * w[2] - v[2] * w[1]) - u[1] * (v[0] * w[2] - v[2] * w[0]) + u[2] * (v[0] * w[1] - v[1] * w[0])


@contract("elements")
def _(S):
    """corners of the elements, by the contracts of coor and conn"""
    M = State(S)
    i = S.index("i", M.L)
    x, z = S.index("x", M.X[i]), S.index("z", M.Z[i])
    for nm, cond, kind, els in PARTS:
        for side, sc, bot, top in (("below", lt(i, M.m), i, add(i, ONE)), ("middle", eq(i, M.m), i, i), ("above", gt(i, M.m), sub(i, ONE), i)):
            if kind >= 0 and side not in nm:
                continue
            with S.scope(cond(i, M.m), sc, eq(M.ref[i], num(kind))):
                ux = div(M.hx[i], num(3)) if kind == 0 else M.hx[i]
                uy = div(M.hy[i], num(2)) if kind >= 0 else M.hy[i]
                uz = div(M.hz[i], num(3)) if kind == 2 else M.hz[i]
                S.lemma("%s (%s): units" % (nm, side), land(ge(ux, ONE), ge(uy, ONE), ge(uz, ONE), *([eq(M.hy[i], mul(num(2), uy))] + ([eq(M.hx[i], mul(num(3), ux))] if kind == 0 else [eq(M.hz[i], mul(num(3), uz))]) if kind >= 0 else [])))
                volume = 0
                for e, vs in enumerate(els):
                    P = [corner_of(v, kind) for v in vs]
                    for n, (r, a, b, cz, d) in enumerate(vs):
                        what = "%s (%s): element %d, node %d" % (nm, side, e, n)
                        p, q = add(mul(num(a), x), num(b)), add(mul(num(cz), z), num(d))
                        l = {"B": bot, "T": top}.get(r)
                        if l is not None:
                            S.holds(what + ": a node of the row", land(ge(p, ZERO), le(p, M.X[l]), ge(q, ZERO), le(q, M.Z[l])))
                            pos = row(M, add(i, ONE) if r == "T" else i, p, q, l)
                        else:
                            pos = mid(M, i, x if kind == 0 else p, z if kind == 2 else q, b if kind == 0 else d, kind)
                        for v, s, o in ((0, M.hx[i], (x, ux)), (2, M.hz[i], (z, uz))):
                            S.eq("%s: %s" % (what, "xyz"[v]), pos[v], mul(M.h, add(mul(o[0], s), mul(num(P[n][v]), o[1]))))
                        S.eq(what + ": y", pos[1], add(M.Y[i], mul(M.h, mul(num(P[n][1]), uy))))
                        o, t = (n // 4) * 4, lambda m: [P[m][v] - P[n][v] for v in range(3)]
                        up = t(n + 4) if n < 4 else [-v for v in t(n - 4)]
                        S.holds(what + ": positively oriented", gt0(num(det(t(o + (n + 1) % 4), t(o + (n + 3) % 4), up))))
                    # prisms: area of the quadrilateral, times the length
                    ring = [v[1:] for v in P if v[0] == 0] if kind == 2 else [v[:2] for v in P if v[2] == 0]
                    mean = [sum(v[m] for v in ring) / len(ring) for m in (0, 1)]
                    ring.sort(key=lambda v: math.atan2(v[1] - mean[1], v[0] - mean[0]))
                    volume += sum(ring[m - 1][0] * ring[m][1] - ring[m][0] * ring[m - 1][1] for m in range(len(ring)))
                S.holds("%s (%s): the elements fill the part" % (nm, side), eq(num(volume), num(2 if kind < 0 else 12)))
