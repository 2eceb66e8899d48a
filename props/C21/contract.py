from spec import *
BUDGET = 300
TRUSTED = ["Stitch: Mesh::overlapping returns the pairs of nodes at the same position, each node in at most one pair (conforming interface); the function itself is decided by the bounded evaluation only"]
BOUNDED = "Mesh::overlapping (list that grows in a loop) and the refusal of positions that differ are decided by the bounded evaluation only."
EXPLANATION = "Stitch and Vstack for any number of meshes, by the invariant of the class: one added mesh to an arbitrary state. Combined sets for two and three meshes."
TOL = (num(Fraction(1, 100000)), num(Fraction(1, 100000000)))


def pair(S, d, touching=True, allow0=True):
    """two meshes and lists of distinct overlapping nodes at the same position"""
    Na, Nb, Ea, Eb, n, o = S.size("nnd_a", 1), S.size("nnd_b", 1), S.size("nel_a", 1), S.size("nel_b", 1), S.size("nne", 1), S.size("nover", 0)
    xa, xb = S.arr("coor_a", "R", (Na, d)), S.arr("coor_b", "R", (Nb, d))
    ea, eb = S.arr("conn_a", "I", (Ea, n), (0, Na)), S.arr("conn_b", "I", (Eb, n), (0, Nb))
    oa = S.arr("over_a", "I", (o,), (0, Na))
    A_ = oa.arr.node.A
    f = (lambda ix, v: imp(S.inrange(ix, (o,)), land(*[eq(xa[read(A_, ix[0]), j], xb[v, j]) for j in range(d)]))) if touching else None
    ob = S.arr("over_b", "I", (o,), (0, Nb), fact=f)
    S.distinct(oa, "inv_a")
    S.inv_b = S.distinct(ob, "inv_b")
    S.it.lib.on_named = lambda a, A_: iota(S, a, A_)
    return Na, Nb, Ea, Eb, n, o, xa, xb, ea, eb, oa, ob


def iota(S, a, A_):
    k = sym("iota!%d" % next_id(), "I")
    m = CTX.push(ge(k, ZERO), lt(k, a.shape[0]))
    ok = a.nd == 1 and prover.prove_eq(a.read(k), k)[0] == "proved"
    CTX.pop(m)
    if ok:
        CTX.inverse[A_] = (lambda v: v, a.shape[0])
        CTX.arrfacts.setdefault(A_, []).append(lambda ix: imp(libmod.inr(ix, a.shape), eq(read(A_, *ix), ix[0])))
        S.iota = (A_, a.shape[0])


def mention(S, *vs):
    """the list of all nodes holds node v at entry v (instances of the definition of the array given a name)"""
    A_, n = S.iota
    for v in vs:
        S.lemma("the list of nodes holds node v", eq(CTX.defs[A_].read(v), v))
        CTX.assume(imp(S.inrange((v,), (n,)), eq(read(A_, v), v)))


def same_element(S, nm, x, c, e_new, x0, c0, e_old, m, d):
    for j in range(d):
        S.eq("%s (%d)" % (nm, j), x[c[e_new, m], j], x0[c0[e_old, m], j])


for d in (1, 2, 3):
    @contract("ManualStitch %dd" % d)
    def _(S, d=d):
        Na, Nb, Ea, Eb, n, o, xa, xb, ea, eb, oa, ob = pair(S, d)
        t = S.call("make", xa, ea, oa, xb, eb, ob)
        x, c, mb = S.call("coor", t), S.call("conn", t), S.call("nodemap", t, ONE)
        N = add(Na, Nb, neg(o))
        i, e, g, m = S.index("i", Na), S.index("ea", Ea), S.index("eb", Eb), S.index("m", n)
        b, q = S.index("b", Nb), S.index("q", Nb)
        mention(S, b, q, eb[g, m])
        S.shape("coor: shape", x, (N, d))
        S.shape("conn: shape", c, (add(Ea, Eb), n))
        S.shape("nodemap: shape", mb, (Nb,))
        for j in range(d):
            S.eq("nodes of the first mesh keep number and position (%d)" % j, x[i, j], xa[i, j])
        S.eq("elements of the first mesh", c[e, m], ea[e, m])
        S.eq("elements of the second mesh", c[add(Ea, g), m], mb[eb[g, m]])
        k = sym("k")
        with S.scope(S.inrange((k,), (o,))):
            S.eq("overlapping nodes become one node", mb[ob[k]], oa[k])
        S.holds("node map: in range", land(ge(mb[b], ZERO), lt(mb[b], N)))
        S.holds("node map: distinct nodes remain distinct", imp(eq(mb[b], mb[q]), eq(b, q)))
        S.holds("node map: other nodes are new", imp(lt(mb[b], Na), land(ge(S.inv_b(b), ZERO), lt(S.inv_b(b), o), eq(ob[S.inv_b(b)], b))))
        for j in range(d):
            S.eq("node map: position (%d)" % j, x[mb[b], j], xb[b, j])
        same_element(S, "position of the nodes of the first mesh's elements", x, c, e, xa, ea, e, m, d)
        same_element(S, "position of the nodes of the second mesh's elements", x, c, add(Ea, g), xb, eb, g, m, d)


    @contract("ManualStitch %dd, no check of the positions" % d)
    def _(S, d=d):
        Na, Nb, Ea, Eb, n, o, xa, xb, ea, eb, oa, ob = pair(S, d, False)
        t = S.call("make_tol", xa, ea, oa, xb, eb, ob, False, S.real("rtol"), S.real("atol"))
        x, c, mb = S.call("coor", t), S.call("conn", t), S.call("nodemap", t, ONE)
        N = add(Na, Nb, neg(o))
        i, e, g, m, b = S.index("i", Na), S.index("ea", Ea), S.index("eb", Eb), S.index("m", n), S.index("b", Nb)
        mention(S, b)
        S.shape("coor: shape", x, (N, d))
        S.shape("conn: shape", c, (add(Ea, Eb), n))
        for j in range(d):
            S.eq("nodes of the first mesh keep number and position (%d)" % j, x[i, j], xa[i, j])
            S.eq("node map: position of the other nodes (%d)" % j, ite(ge(mb[b], Na), x[mb[b], j], xb[b, j]), xb[b, j])
        S.eq("elements of the first mesh", c[e, m], ea[e, m])
        S.eq("elements of the second mesh", c[add(Ea, g), m], mb[eb[g, m]])

    @contract("ManualStitch %dd: maps and sets" % d)
    def _(S, d=d):
        Na, Nb, Ea, Eb, n, o, xa, xb, ea, eb, oa, ob = pair(S, d)
        t = S.call("make", xa, ea, oa, xb, eb, ob)
        N, E = add(Na, Nb, neg(o)), add(Ea, Eb)
        for nm, v in (("nmesh", num(2)), ("nelem", E), ("nnode", N), ("nne", n), ("ndim", num(d))):
            S.eq(nm, S.call(nm, t), v)
        q = S.call("dofs", t)
        S.shape("dofs: shape", q, (N, d))
        i = S.index("i", N)
        for j in range(d):
            S.eq("dofs (%d)" % j, q[i, j], add(mul(i, num(d)), num(j)))
        mb = S.call("nodemap", t, ONE)
        maps(S, t, "", [lambda v: v, lambda v: mb[v]], [lambda v: v, lambda v: add(v, Ea)], [Na, Nb], [Ea, Eb])


def maps(S, t, pre, node, elem, N, E, full=True):
    for k in range(len(node)):
        i, e = S.index("%snd%d" % (pre, k), N[k]), S.index("%sel%d" % (pre, k), E[k])
        for nm, nel in (("nodemap", "elemmap"),) + ((("nodemaps", "elemmaps"),) if full else ()):
            a, b = S.call(pre + nm, t, num(k)), S.call(pre + nel, t, num(k))
            S.shape("%s: shape, mesh %d" % (nm, k), a, (N[k],))
            S.shape("%s: shape, mesh %d" % (nel, k), b, (E[k],))
            S.eq("%s: mesh %d" % (nm, k), a[i], node[k](i))
            S.eq("%s: mesh %d" % (nel, k), b[e], elem[k](e))
        ns, es = S.size("%snset%d" % (pre, k), 1), S.size("%seset%d" % (pre, k), 1)
        p, q = S.arr("%snodes%d" % (pre, k), "I", (ns,), (0, N[k])), S.arr("%selems%d" % (pre, k), "I", (es,), (0, E[k]))
        a, b = S.call(pre + "nodeset", t, p, num(k)), S.call(pre + "elemset", t, q, num(k))
        S.shape("nodeset: shape, mesh %d" % k, a, (ns,))
        S.shape("elemset: shape, mesh %d" % k, b, (es,))
        i, e = S.index("%sni%d" % (pre, k), ns), S.index("%sei%d" % (pre, k), es)
        S.eq("nodeset: mesh %d" % k, a[i], node[k](p[i]))
        S.eq("elemset: mesh %d" % k, b[e], elem[k](q[e]))


# Stitch: any number of meshes, by the invariant of the class
class State:
    """arbitrary state that satisfies the invariant: `nm` meshes, of which mesh k has nn(k) nodes with numbers map(k, .) and
    the elements off(k), .., off(k) + ne(k) - 1"""

    def __init__(self, S, t, d, vs=False):
        self.S = S
        self.nm, self.N, self.E, self.n = S.size("nmesh", 1), S.size("nnode", 1), S.size("nelem", 1), S.size("nne", 1)
        self.x, self.c = S.arr("coor", "R", (self.N, d)), S.arr("conn", "I", (self.E, self.n), (0, self.N))
        self.ne = S.arr("nel", "I", (self.nm,), (1, None))
        self.nn = S.arr("nnd", "I", (self.nm,), (1, None))
        nm = self.nm
        self.off = S.arr("el_offset", "I", (nm,), (0, None))
        NE, OFF = self.ne.arr.node.A, self.off.arr.node.A
        CTX.assume(eq(read(OFF, ZERO), ZERO), eq(self.E, add(read(OFF, sub(nm, ONE)), read(NE, sub(nm, ONE)))))
        k = sym("$k")
        S.forall_fact((k,), imp(land(ge(k, ONE), lt(k, nm)), eq(read(OFF, k), add(read(OFF, sub(k, ONE)), read(NE, sub(k, ONE))))), [[read(OFF, k)]])
        M = ArrSym("map", 2, "I")
        CTX.arrfacts.setdefault(M, []).append(lambda ix: imp(land(ge(ix[0], ZERO), lt(ix[0], nm), ge(ix[1], ZERO), lt(ix[1], self.nn[ix[0]])), land(ge(read(M, *ix), ZERO), lt(read(M, *ix), self.N))))
        self.map = lambda k, i: read(M, k, i)
        self.gen = lambda k: Arr((self.nn[k],), "I", NFn(lambda q: read(M, k, q[0])))
        S.put(t, "m_coor", self.x.arr)
        S.put(t, "m_conn", self.c.arr)
        S.put(t, "m_map", I.SVec(nm, self.gen))
        S.put(t, "m_nel", self.ne.arr)
        S.put(t, "m_el_offset", self.off.arr)


def assumed_overlapping(S, st, oa, ob):
    """contract of `overlapping`: the pairs of nodes of both meshes at the same position"""
    def h(it, f, this, args):
        st["calls"] = [it.load(a) for a in args[:2]]
        return Arr((num(2), oa.shape[0]), "I", NFn(lambda q: ite(eq(q[0], ZERO), oa[q[1]], ob[q[1]])))

    S.it.contracts["GooseFEM::Mesh::overlapping"] = h


def prefix_kept(S, t, st, d, K0):
    """state after a mesh was added: everything of the meshes that were there is as before"""
    x, c = S.call("st_coor", t), S.call("st_conn", t)
    i, e, m, k = S.index("i", st.N), S.index("e", st.E), S.index("m", st.n), S.index("k", st.nm)
    for j in range(d):
        S.eq("existing nodes keep number and position (%d)" % j, x[i, j], st.x[i, j])
    S.eq("existing elements", c[e, m], st.c[e, m])
    a, b = S.call("st_nodemap", t, k), S.call("st_elemmap", t, k)
    S.shape("nodemap of an existing mesh: shape", a, (st.nn[k],))
    S.shape("elemmap of an existing mesh: shape", b, (st.ne[k],))
    p, q = S.index("p", st.nn[k]), S.index("q", st.ne[k])
    S.eq("nodemap of an existing mesh", a[p], st.map(k, p))
    S.eq("elemmap of an existing mesh", b[q], add(st.off[k], q))
    return x, c


def added(S, t, st, d, Nb, Eb, o, xb, eb, oa, ob, inv_b, pos, x, c):
    """the added mesh; pos(i, j): position at which node i was added"""
    N, E = add(st.N, Nb, neg(o)), add(st.E, Eb)
    g, m, b, q, k = S.index("g", Eb), sym("m"), S.index("b", Nb), S.index("qb", Nb), sym("ko")
    S.eq("nmesh", S.call("st_nmesh", t), add(st.nm, ONE))
    S.eq("nnode", S.call("st_nnode", t), N)
    S.eq("nelem", S.call("st_nelem", t), E)
    S.eq("nne", S.call("st_nne", t), st.n)
    S.eq("ndim", S.call("st_ndim", t), num(d))
    S.shape("coor: shape", x, (N, d))
    S.shape("conn: shape", c, (E, st.n))
    mention(S, b, q, eb[g, m])
    mb, el = S.call("st_nodemap", t, st.nm), S.call("st_elemmap", t, st.nm)
    S.shape("nodemap: shape", mb, (Nb,))
    S.shape("elemmap: shape", el, (Eb,))
    S.eq("elemmap", el[g], add(st.E, g))
    with S.scope(S.inrange((k,), (o,))):
        S.eq("overlapping nodes become one node", mb[ob[k]], oa[k])
    S.holds("nodemap: in range", land(ge(mb[b], ZERO), lt(mb[b], N)))
    S.holds("nodemap: distinct nodes remain distinct", imp(eq(mb[b], mb[q]), eq(b, q)))
    S.holds("nodemap: other nodes are new", imp(lt(mb[b], st.N), land(ge(inv_b(b), ZERO), lt(inv_b(b), o), eq(ob[inv_b(b)], b))))
    S.eq("elements of the added mesh", c[el[g], m], mb[eb[g, m]])
    for j in range(d):
        S.eq("position of the added nodes (%d)" % j, x[mb[b], j], pos(b, j))
        S.eq("position of the nodes of the added elements (%d)" % j, x[c[el[g], m], j], pos(eb[g, m], j))
    # sets of one mesh, and the invariant of the list of elements
    ns = S.size("nset", 1)
    a, b_ = S.arr("nodes", "I", (ns,), (0, Nb)), S.arr("elems", "I", (ns,), (0, Eb))
    A_, B_ = S.call("st_nodeset", t, a, st.nm), S.call("st_elemset", t, b_, st.nm)
    h = S.index("h", ns)
    S.shape("nodeset: shape", A_, (ns,))
    S.shape("elemset: shape", B_, (ns,))
    S.eq("nodeset", A_[h], mb[a[h]])
    S.eq("elemset", B_[h], el[b_[h]])
    off, ne = A(S.get(t, "m_el_offset")), A(S.get(t, "m_nel"))
    S.eq("invariant: the last mesh has the last elements", add(off[st.nm], ne[st.nm]), E)
    S.eq("invariant: consecutive elements", off[st.nm], add(off[sub(st.nm, ONE)], ne[sub(st.nm, ONE)]))
    r = S.call("st_dofs", t)
    i = S.index("id", N)
    S.shape("dofs: shape", r, (N, d))
    for j in range(d):
        S.eq("dofs (%d)" % j, r[i, j], add(mul(i, num(d)), num(j)))


for d in (1, 2, 3):
    @contract("Stitch %dd: first mesh" % d)
    def _(S, d=d):
        N, E, n = S.size("N", 1), S.size("E", 1), S.size("n", 1)
        xb, eb = S.arr("x", "R", (N, d)), S.arr("e", "I", (E, n), (0, N))
        bot, top = S.arr("bot", "I", (S.size("nbot", 0),), (0, N)), S.arr("top", "I", (S.size("ntop", 0),), (0, N))
        for nm, t in (("Stitch", S.call("st_make")), ("Vstack", S.call("vs_make", S.bool("check")))):
            if nm == "Stitch":
                S.call("st_push", t, xb, eb)
            else:
                S.call("vs_push", t, xb, eb, bot, top)
                for m, v in (("bot", bot), ("top", top)):
                    w = S.get(t, "m_nodes_" + m)
                    S.holds("%s: one list of %s nodes" % (nm, m), TRUE if len(w.items) == 1 else FALSE)
                    w = A(S.it.load(w.items[0]))
                    S.shape("%s: list of %s nodes, shape" % (nm, m), w, v.shape)
                    k = sym("k_" + m)
                    with S.scope(S.inrange((k,), v.shape)):
                        S.eq("%s: list of %s nodes" % (nm, m), w[k], v[k])
            x, c, a, b = S.call("st_coor", t), S.call("st_conn", t), S.call("st_nodemap", t, ZERO), S.call("st_elemmap", t, ZERO)
            S.shape("%s: coor, shape" % nm, x, (N, d))
            S.shape("%s: conn, shape" % nm, c, (E, n))
            S.shape("%s: nodemap, shape" % nm, a, (N,))
            S.shape("%s: elemmap, shape" % nm, b, (E,))
            i, e, m = S.index("i" + nm, N), S.index("e" + nm, E), S.index("m" + nm, n)
            for j in range(d):
                S.eq("%s: coor (%d)" % (nm, j), x[i, j], xb[i, j])
            S.eq("%s: conn" % nm, c[e, m], eb[e, m])
            S.eq("%s: nodemap" % nm, a[i], i)
            S.eq("%s: elemmap" % nm, b[e], e)
            S.eq("%s: nmesh" % nm, S.call("st_nmesh", t), ONE)
            S.eq("%s: invariant, elements" % nm, A(S.get(t, "m_nel"))[ZERO], E)
            S.eq("%s: invariant, first element" % nm, A(S.get(t, "m_el_offset"))[ZERO], ZERO)

    @contract("Stitch %dd: add a mesh to any number of meshes" % d)
    def _(S, d=d):
        t = S.call("st_make")
        st = State(S, t, d)
        Nb, Eb, o = S.size("nnd_b", 1), S.size("nel_b", 1), S.size("nover", 0)
        xb, eb = S.arr("coor_b", "R", (Nb, d)), S.arr("conn_b", "I", (Eb, st.n), (0, Nb))
        oa = S.arr("over_a", "I", (o,), (0, st.N))
        OA = oa.arr.node.A
        ob = S.arr("over_b", "I", (o,), (0, Nb), fact=lambda ix, v: imp(S.inrange(ix, (o,)), land(*[eq(st.x[read(OA, ix[0]), j], xb[v, j]) for j in range(d)])))
        S.distinct(oa, "inv_a")
        inv_b = S.distinct(ob, "inv_b")
        calls = {}
        assumed_overlapping(S, calls, oa, ob)
        S.it.lib.on_named = lambda a, A_: known(S, a, A_, ob)
        S.call("st_push", t, xb, eb)
        i = S.index("ic", add(st.N, Nb))
        ok = len(calls.get("calls", ())) == 2
        S.holds("overlapping nodes of the meshes", TRUE if ok else FALSE)
        if ok:
            p, q = A(calls["calls"][0]), A(calls["calls"][1])
            for j in range(d):
                with S.scope(lt(i, st.N)):
                    S.eq("overlapping nodes of the existing mesh (%d)" % j, p[i, j], st.x[i, j])
                with S.scope(lt(i, Nb)):
                    S.eq("overlapping nodes of the added mesh (%d)" % j, q[i, j], xb[i, j])
        x, c = prefix_kept(S, t, st, d, None)
        added(S, t, st, d, Nb, Eb, o, xb, eb, oa, ob, inv_b, lambda b, j: xb[b, j], x, c)


def known(S, a, A_, ob):
    """a computed array that was given a name: all nodes, or the list of overlapping nodes"""
    iota(S, a, A_)
    k = sym("same!%d" % next_id(), "I")
    m = CTX.push(ge(k, ZERO), lt(k, a.shape[0]))
    ok = a.nd == 1 and prover.prove_eq(a.shape[0], ob.shape[0])[0] == "proved" and prover.prove_eq(a.read(k), ob[k])[0] == "proved"
    CTX.pop(m)
    if ok:
        CTX.inverse[A_] = CTX.inverse[ob.arr.node.A]
        CTX.arrfacts.setdefault(A_, []).append(lambda ix: imp(libmod.inr(ix, a.shape), eq(read(A_, *ix), ob[ix[0]])))
        CTX.arrfacts.setdefault(ob.arr.node.A, []).append(lambda ix: imp(libmod.inr(ix, a.shape), eq(read(A_, *ix), ob[ix[0]])))


for d in (2, 3):
    @contract("Vstack %dd: add a mesh to any number of meshes" % d)
    def _(S, d=d):
        check = S.bool("check")
        t = S.call("vs_make", check)
        st = State(S, t, d)
        Nb, Eb, o, o2 = S.size("nnd_b", 1), S.size("nel_b", 1), S.size("nover", 0), S.size("ntop", 0)
        xb, eb = S.arr("coor_b", "R", (Nb, d)), S.arr("conn_b", "I", (Eb, st.n), (0, Nb))
        height = S.amax(S.lam((st.N,), "R", lambda q: st.x[q[0], 1]))
        pos = lambda b, j: add(xb[b, j], height if j == 1 else ZERO)
        oa = S.arr("top_a", "I", (o,), (0, st.N))
        OA = oa.arr.node.A
        ob = S.arr("bot_b", "I", (o,), (0, Nb), fact=lambda ix, v: imp(S.inrange(ix, (o,)), land(*[eq(st.x[read(OA, ix[0]), j], pos(v, j)) for j in range(d)])))
        top = S.arr("top_b", "I", (o2,), (0, Nb))
        S.distinct(oa, "inv_a")
        inv_b = S.distinct(ob, "inv_b")
        LB = ArrSym("nodes_bot", 2, "I")
        lb = S.arr("len_bot", "I", (st.nm,), (0, None))
        LT = ArrSym("nodes_top", 2, "I")
        lt_ = S.arr("len_top", "I", (st.nm,), (0, None))
        S.put(t, "m_nodes_bot", I.SVec(st.nm, lambda k: Arr((lb[k],), "I", NFn(lambda q: read(LB, k, q[0])))))
        S.put(t, "m_nodes_top", I.SVec(st.nm, lambda k: oa.arr if prover.prove_eq(k, sub(st.nm, ONE))[0] == "proved" else Arr((lt_[k],), "I", NFn(lambda q: read(LT, k, q[0])))))
        S.it.lib.on_named = lambda a, A_: known(S, a, A_, ob)
        S.call("vs_push", t, xb, eb, ob, top)
        x, c = prefix_kept(S, t, st, d, None)
        added(S, t, st, d, Nb, Eb, o, xb, eb, oa, ob, inv_b, pos, x, c)
        mb = S.call("st_nodemap", t, st.nm)
        for m, v in (("bot", ob), ("top", top)):
            w = S.get(t, "m_nodes_" + m)
            S.holds("one more list of %s nodes" % m, TRUE if len(w.items) == 1 else FALSE)
            w = A(S.it.load(w.items[0]))
            S.shape("list of %s nodes: shape" % m, w, v.shape)
            k = sym("k_" + m)
            with S.scope(S.inrange((k,), v.shape)):
                S.eq("list of %s nodes" % m, w[k], mb[v[k]])
        b = S.index("bb", Nb)
        i = S.index("ib", st.N)
        mention(S, b)
        with S.scope(ge(xb[b, 1], ZERO)):
            S.holds("the added mesh is on top", ge(x[mb[b], 1], st.x[i, 1]))


for K in (1, 2, 3):
    @contract("Stitch: sets of %d meshes" % K)
    def _(S, K=K):
        t = S.call("st_make")
        N, E, n = S.size("N", 1), S.size("E", 1), S.size("n", 1)
        nn, ne = [S.size("nnd%d" % k, 1) for k in range(K)], [S.size("nel%d" % k, 1) for k in range(K)]
        mp = [S.arr("map%d" % k, "I", (nn[k],), (0, N)) for k in range(K)]
        CTX.assume(eq(E, add(*ne)))
        off = [add(ZERO, *ne[:k]) for k in range(K)]
        S.put(t, "m_coor", S.arr("coor", "R", (N, 2)).arr)
        S.put(t, "m_conn", S.arr("conn", "I", (E, n), (0, N)).arr)
        S.put(t, "m_map", I.Vec([S.it.new(a.arr) for a in mp]))
        S.put(t, "m_nel", vec(ne, "I"))
        S.put(t, "m_el_offset", vec(off, "I"))
        maps(S, t, "st_", [lambda v, a=a: a[v] for a in mp], [lambda v, o=o: add(v, o) for o in off], nn, ne)
        if K == 1:
            return
        ns, es = [S.size("ns%d" % k, 0) for k in range(K)], [S.size("es%d" % k, 0) for k in range(K)]
        P = [S.arr("P%d" % k, "I", (ns[k],), (0, nn[k])) for k in range(K)]
        Q = [S.arr("Q%d" % k, "I", (es[k],), (0, ne[k])) for k in range(K)]
        b = S.call("st_elemset%d" % K, t, *Q)
        S.shape("elemset: shape", b, (add(*es),))
        for k in range(K):
            i = sym("q%d" % k)
            with S.scope(S.inrange((i,), (es[k],))):
                S.eq("elemset: elements of mesh %d" % k, b[add(i, *es[:k])], add(Q[k][i], off[k]))
        a = S.call("st_nodeset%d" % K, t, *P)
        U = libmod._sd[next(iter(libmod._sd))]
        i, j = sym("u"), sym("v")
        with S.scope(land(ge(i, ZERO), lt(i, j), lt(j, a.shape[0]))):
            S.holds("nodeset: sorted, without duplicates", lt(a[i], a[j]))
        for k in range(K):
            i = sym("p%d" % k)
            with S.scope(S.inrange((i,), (ns[k],))):
                v = mp[k][P[k][i]]
                w = U.pos(v)
                S.lemma("nodeset: list of mesh %d" % k, eq(S.unfold(U.a, (add(i, *ns[:k]),)), v))
                S.holds("nodeset: holds the nodes of mesh %d" % k, land(ge(w, ZERO), lt(w, a.shape[0]), eq(a[w], v)), [U_list(U)[add(i, *ns[:k])]])
        i = sym("z")
        with S.scope(S.inrange((i,), a.shape)):
            w = U.wit(i)[0]
            S.unfold(U.a, (w,))
            lo, alt = ZERO, []
            for k in range(K):
                g = land(ge(w, lo), lt(w, add(lo, ns[k])))
                alt.append(land(g, eq(a[i], mp[k][P[k][sub(w, lo)]])))
                lo = add(lo, ns[k])
            S.holds("nodeset: no other nodes", lor(*alt), [U.a.read(w)])


def U_list(U):
    return A(U.a)
