from spec import *
BUDGET = 300


def setup(S, d, iip):
    """nodes, DOFs, ties: the DOFs of the dependent nodes are distinct, not prescribed and not used as independent or control DOF"""
    N, n = S.size("nnode", 1), S.size("nties", 0)
    ty = S.arr("tyings", "I", (n, 2), (0, N))
    TY = ty.arr.node.A
    place = lambda v: app("dependent_place", "I", v)
    cls = lambda v: app("class", "I", v)

    def f(ix, v):
        x = ix[0]
        if x.op != "read" or x.a[0] is not TY:
            return TRUE
        i, side = x.a[1], x.a[2]
        g = land(S.inrange((i, ix[1]), (n, d)))
        return land(imp(land(g, eq(side, ONE)), land(eq(place(v), add(mul(i, num(d)), ix[1])), eq(cls(v), ONE))), imp(land(g, eq(side, ZERO)), ne(cls(v), ONE)))

    dofs = S.arr("dofs", "I", (N, d), (0, None), fact=f)
    D = dofs.arr.node.A
    src = [ArrSym("control_node!", 2, "I"), ArrSym("control_dim!", 2, "I")]
    control = S.arr("control", "I", (d, d), (0, None), fact=lambda ix, v: imp(S.inrange(ix, (d, d)), land(S.inrange([read(s, *ix) for s in src], (N, d)), eq(v, dofs[read(src[0], *ix), read(src[1], *ix)]), ne(cls(v), ONE))))
    coor = S.arr("coor", "R", (N, d))
    if iip:
        P = S.size("nnp", 0)
        ps = [ArrSym("p_node!", 1, "I"), ArrSym("p_dim!", 1, "I")]
        p = S.arr("iip", "I", (P,), (0, None), fact=lambda ix, v: imp(S.inrange(ix, (P,)), land(S.inrange([read(s, *ix) for s in ps], (N, d)), eq(v, dofs[read(ps[0], *ix), read(ps[1], *ix)]), eq(cls(v), num(2)))))
        S.distinct(p)
    else:
        P, p = ZERO, None

    # the list of dependent DOFs has distinct entries (precondition), wherever the code gives it a name
    def injective(a, A_):
        k = S.index("k!%d" % next_id(), mul(n, num(d)))
        if a.nd == 1 and prover.prove_eq(a.shape[0], mul(n, num(d)))[0] == "proved":
            w = dofs[ty[div(k, num(d)), ONE], mod(k, num(d))]
            if prover.prove_eq(a.read(k), w)[0] == "proved":
                CTX.inverse[A_] = (place, a.shape[0])
                CTX.invname["dependent_place"] = (A_, a.shape[0])
                CTX.arrfacts.setdefault(A_, []).append(lambda ix: imp(S.inrange(ix, a.shape), land(eq(read(A_, *ix), dofs[ty[div(ix[0], num(d)), ONE], mod(ix[0], num(d))]), eq(place(read(A_, *ix)), ix[0]), eq(cls(read(A_, *ix)), ONE))))

    S.it.lib.on_named = injective
    t = S.call("make", coor, dofs, control, ty, p) if iip else S.call("make_default", coor, dofs, control, ty)
    return N, n, P, ty, dofs, control, coor, p, cls, t


def dependent(S, dofs, ty, n, d, v):
    """v is not a dependent DOF"""
    i = fresh("i")
    return forall((i,), imp(S.inrange((i,), (n,)), land(*[ne(dofs[ty[i, ONE], j], v) for j in range(d)])))


for d in (1, 2, 3):
    for iip in (True, False):
        what = "%dd%s" % (d, ", prescribed" if iip else "")

        @contract("Periodic %s: partition" % what)
        def _(S, d=d, iip=iip):
            N, n, P, ty, dofs, control, coor, p, cls, t = setup(S, d, iip)
            nnd, nni, nnu, nnp = [S.call(x, t) for x in ("nnd", "nni", "nnu", "nnp")]
            r, c = S.call("dofs", t), S.call("control", t)
            S.eq("number of dependent DOFs", nnd, mul(n, num(d)))
            S.eq("number of prescribed DOFs", nnp, P)
            S.shape("shape of the DOFs", r, (N, d))
            S.shape("shape of the control DOFs", c, (d, d))
            for nm, lo, cnt in (("iid", nni, nnd), ("iii", ZERO, nni), ("iiu", ZERO, nnu), ("iip", nnu, nnp)):
                a = S.call(nm, t)
                S.shape("%s: size" % nm, a, (cnt,))
                if nm == "iip" and not iip:
                    continue
                k = S.index("k_" + nm, cnt)
                S.eq("%s: consecutive" % nm, a[k], add(lo, k))
            tt = S.call("nodal_tyings", t)
            i = S.index("i", n)
            for s in (0, 1):
                S.eq("nodal ties (%d)" % s, tt[i, s], ty[i, s])
            for j in range(d):
                S.eq("dependent DOFs, in the order of the ties (%d)" % j, r[ty[i, ONE], j], add(nni, mul(i, num(d)), num(j)))
                S.holds("independent DOFs of a tie (%d)" % j, land(ge(r[ty[i, ZERO], j], ZERO), lt(r[ty[i, ZERO], j], nni)))
            m = S.index("m", N)
            for j in range(d):
                v = dofs[m, j]
                with S.scope(ne(cls(v), ONE)):
                    S.holds("not dependent (%d)" % j, lt(r[m, j], nni))
                    S.holds("not dependent, not prescribed (%d)" % j, imp(ne(cls(v), num(2)), lt(r[m, j], nnu)))
                if iip:
                    k = S.index("k%d" % j, P)
                    with S.scope(eq(v, p[k])):
                        S.eq("prescribed DOFs, in the given order (%d)" % j, r[m, j], add(nnu, k))
                S.holds("within the partition (%d)" % j, land(ge(r[m, j], ZERO), lt(r[m, j], add(nni, nnd))))
                q = S.index("q%d" % j, N)
                for l in range(d):
                    w = dofs[q, l]
                    S.holds("equal DOFs stay equal (%d, %d)" % (j, l), imp(eq(v, w), eq(r[m, j], r[q, l])))
                    with S.scope(*[land(ne(cls(x), ONE), ne(cls(x), num(2))) for x in (v, w)]):
                        S.holds("the unknown DOFs keep their order (%d, %d)" % (j, l), imp(lt(v, w), lt(r[m, j], r[q, l])))
                    for a in range(d):
                        S.holds("same numbers for the control DOFs (%d, %d, %d)" % (j, l, a), imp(eq(control[l, a], v), eq(c[l, a], r[m, j])))
            S.eq("independent: unknown and prescribed", nni, add(nnu, nnp))

        @contract("Periodic %s: tying matrices" % what)
        def _(S, d=d, iip=iip):
            N, n, P, ty, dofs, control, coor, p, cls, t = setup(S, d, iip)
            nnd, nni, nnu, nnp = [S.call(x, t) for x in ("nnd", "nni", "nnu", "nnp")]
            r, c = S.call("dofs", t), S.call("control", t)
            Cdi, Cdu, Cdp = [S.call(x, t) for x in ("Cdi", "Cdu", "Cdp")]
            S.shape("shape of Cdi", Cdi, (nnd, nni))
            S.shape("shape of Cdu", Cdu, (nnd, nnu))
            S.shape("shape of Cdp", Cdp, (nnd, nnp))
            i = S.index("i", n)
            k, u, q = S.index("c", nni), S.index("u", nnu), S.index("p", nnp) if iip else None
            for j in range(d):
                row = add(mul(i, num(d)), num(j))
                for nm, M, col, full in (("Cdi", Cdi, k, k), ("Cdu", Cdu, u, u), ("Cdp", Cdp, q, q and add(nnu, q))):
                    if q is None and nm == "Cdp":
                        continue
                    e = ite(eq(r[ty[i, ZERO], j], full), ONE, ZERO)
                    for l in range(d):
                        e = add(e, ite(eq(c[j, l], full), sub(coor[ty[i, ONE], l], coor[ty[i, ZERO], l]), ZERO))
                    S.eq("%s: independent counterpart and control DOFs (%d)" % (nm, j), M[row, col], e)


for d in (1, 2, 3):
    @contract("Control %dd" % d)
    def _(S, d=d):
        N = S.size("nnode", 1)
        coor, dofs = S.arr("coor", "R", (N, d)), S.arr("dofs", "I", (N, d), (0, None))
        t = S.call("make_control", coor, dofs)
        x, r, cd, cn = [S.call("control_" + s, t) for s in ("coor", "dofs", "controlDofs", "controlNodes")]
        S.shape("shape of the coordinates", x, (add(N, num(d)), d))
        S.shape("shape of the DOFs", r, (add(N, num(d)), d))
        S.shape("shape of the control DOFs", cd, (d, d))
        S.shape("number of control nodes", cn, (d,))
        m = S.index("m", N)
        first = add(S.amax(dofs), ONE)
        for j in range(d):
            S.eq("coordinates as they were (%d)" % j, x[m, j], coor[m, j])
            S.eq("DOFs as they were (%d)" % j, r[m, j], dofs[m, j])
            S.eq("control nodes (%d)" % j, cn[j], add(N, num(j)))
            for l in range(d):
                S.eq("new consecutive DOFs (%d, %d)" % (j, l), cd[j, l], add(first, num(j * d + l)))
                S.eq("DOFs of the control nodes (%d, %d)" % (j, l), r[add(N, num(j)), l], cd[j, l])
                S.eq("coordinates of the control nodes (%d, %d)" % (j, l), x[add(N, num(j)), l], ZERO)
