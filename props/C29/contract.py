from spec import *

EXPLANATION = "Integers are mathematical; the tolerance of isDiagonal is the machine precision (a real number)."


def pos(ix, shape):
    """flat position of an entry"""
    k = ZERO
    for i, n in zip(ix, shape):
        k = add(mul(k, n), i)
    return k


for nd in (1, 2):
    def table(S, nd=nd):
        n = [S.size("n%d" % i, 1) for i in range(nd)]
        return n, S.arr("a", "I", n, (0, None))

    @contract("is_unique: true for distinct values (%d-d)" % nd)
    def _(S, nd=nd, table=table):
        n, a = table(S)
        # distinct: the position is a function of the value
        inv = [lambda v, i=i: app("at%d" % i, "I", v) for i in range(nd)]
        CTX.arrfacts.setdefault(a.arr.node.A, []).append(lambda ix: imp(S.inrange(ix, n), land(*[eq(inv[i](a[ix]), ix[i]) for i in range(nd)])))
        r = S.call("unique%d" % nd, a)
        F, = [Arr((mul(*n),), "I", NSym(x)) for x in CTX.defs] if nd == 2 else [a.arr]
        d = sym("repeated!0")
        for k in (app("perm!0", "I", x) for x in (d, add(d, ONE))):
            if nd == 2:
                S.unfold(F, (k,))
                S.lemma("position of an entry", eq(k, add(mul(n[1], div(k, n[1])), mod(k, n[1]))))
                with S.scope(land(ge(k, ZERO), lt(k, mul(*n)))):
                    S.holds("row of an entry", land(ge(div(k, n[1]), ZERO), lt(div(k, n[1]), n[0])))
                CTX.assume(imp(land(ge(k, ZERO), lt(k, mul(*n))), land(ge(div(k, n[1]), ZERO), lt(div(k, n[1]), n[0]))))
        S.holds("true", r)

    @contract("is_unique: false for a repeated value (%d-d)" % nd)
    def _(S, nd=nd, table=table):
        n, a = table(S)
        p, q = [[S.index("%s%d" % (x, i), n[i]) for i in range(nd)] for x in "pq"]
        S.assume(lor(*[ne(x, y) for x, y in zip(p, q)]), eq(a[tuple(p)], a[tuple(q)]))
        r = S.call("unique%d" % nd, a)
        if nd == 2:
            F, = [Arr((mul(*n),), "I", NSym(x)) for x in CTX.defs]
            for x in (p, q):
                S.lemma("position of an entry", land(ge(pos(x, n), ZERO), lt(pos(x, n), mul(*n))))
                S.unfold(F, (pos(x, n),))
            use = S.digits()
            use(p[1], p[0], q[1], q[0], n[1])
        S.holds("false", lnot(r))


for nd in (1, 2):
    @contract("isSequential (%d-d)" % nd)
    def _(S, nd=nd):
        n = [S.size("n%d" % i, 1) for i in range(nd)]
        a = S.arr("a", "I", n, (0, None))
        r = S.call("sequential%d" % nd, a)
        m = S.amax(a)
        ix = [fresh("i") for _ in range(nd)]
        with S.scope(r):
            w = S.index("w", add(m, ONE))
            S.instance(w)
            S.holds("true: every number up to the maximum occurs", exists(ix, land(S.inrange(ix, n), eq(a[tuple(ix)], w))))
        with S.scope(lnot(r)):
            w, = S.witness()
            S.holds("false: a number up to the maximum", land(ge(w, ZERO), le(w, m)))
            p = [S.index("p%d" % i, n[i]) for i in range(nd)]
            if nd == 2:
                S.lemma("position of an entry", land(ge(pos(p, n), ZERO), lt(pos(p, n), mul(*n))))
            S.instance(pos(p, n))
            S.holds("false: does not occur", ne(a[tuple(p)], w))


@contract("isDiagonal")
def _(S):
    nelem, n = S.size("nelem", 0), S.size("n")
    a = S.arr("a", "R", (nelem, n, n))
    r = S.call("diagonal", a)
    eps = num(Fraction(1, 2 ** 52))
    big = lambda e, i, j: lor(gt(a[e, i, j], eps), lt(a[e, i, j], neg(eps)))
    e, i, j = ix = [fresh(x) for x in "eij"]
    off = land(S.inrange(ix, (nelem, n, n)), ne(i, j))
    with S.scope(r):
        S.holds("true: no off-diagonal entries", forall(ix, imp(off, lnot(big(*ix)))))
    with S.scope(lnot(r)):
        S.holds("false: an off-diagonal entry", exists(ix, land(off, big(*ix))))
