from spec import *


def table(S, d, name="a"):
    sh = [S.size("%s_n%d" % (name, i), 1) for i in range(d)]
    return S.arr(name, "I", sh, (0, None)), sh


def at(S, sh, name):
    return tuple(S.index("%s%d" % (name, i), n) for i, n in enumerate(sh))


def renumbered(S, a, sh, r):
    """r: consecutive numbers from zero, equal kept equal, order preserved"""
    U = S.setdiff(a)
    S.shape("shape", r, sh)
    p, q = at(S, sh, "p"), at(S, sh, "q")
    S.holds("numbers from zero to the number of different DOFs", land(ge(r[p], ZERO), lt(r[p], U.L)))
    S.holds("equal DOFs stay equal", imp(eq(a[p], a[q]), eq(r[p], r[q])))
    S.holds("the order is preserved", imp(lt(a[p], a[q]), lt(r[p], r[q])))
    k = S.index("k", U.L)
    w = tuple(U.wit(k))
    S.holds("a DOF with each number", land(S.inrange(w, sh), eq(r[w], k)), [U.R.read(k)])


for d in (1, 2, 3):
    @contract("renumber %dd" % d)
    def _(S, d=d):
        a, sh = table(S, d)
        renumbered(S, a, sh, S.call("renumber%d" % d, a))

    @contract("Renumber %dd: same table" % d)
    def _(S, d=d):
        a, sh = table(S, d)
        R = S.call("renum%d" % d, a)
        renumbered(S, a, sh, S.call("renum_apply%d" % d, R, a))

    for e in (1, 2, 3):
        @contract("Renumber %dd: other table %dd" % (d, e))
        def _(S, d=d, e=e):
            a, sh = table(S, d)
            R = S.call("renum%d" % d, a)
            U = S.setdiff(a)
            x = S.call("renum_index", R)
            S.shape("size of the index", x, (add(S.amax(a), ONE),))
            k = S.index("k", U.L)
            S.eq("index of each DOF", x[U.R.read(k)], k)
            p = at(S, sh, "p")
            S.eq("the index is the relabeling", x[a[p]], S.call("renum_apply%d" % d, R, a)[p])
            # another table with DOFs of the first one
            sb = [S.size("b_n%d" % i, 1) for i in range(e)]
            src = [ArrSym("src%d!" % i, e, "I") for i in range(d)]
            b = S.arr("b", "I", sb, (0, None), fact=lambda ix, v: imp(S.inrange(ix, sb), land(S.inrange([read(s, *ix) for s in src], sh), eq(v, a[tuple(read(s, *ix) for s in src)]))))
            r = S.call("renum_apply%d" % e, R, b)
            S.shape("shape of the other table", r, sb)
            q = at(S, sb, "q")
            S.eq("same relabeling of the other table", r[q], x[b[q]])
            S.holds("and so the same numbers", imp(eq(b[q], a[p]), eq(r[q], x[a[p]])))


for n in (1, 2, 3):
    for empty in range(-1, n if n > 1 else 0):
        @contract("Reorder %d lists%s" % (n, "" if empty < 0 else ", number %d empty" % empty))
        def _(S, n=n, empty=empty):
            N = [ZERO if i == empty else S.size("n%d" % i, 1) for i in range(n)]
            L = [S.arr("abc"[i], "I", (N[i],), (0, None)) for i in range(n)]
            for l in L:
                S.distinct(l)
            # the lists are disjoint
            for i in range(n):
                own = lambda v: app("list", "I", v)
                CTX.arrfacts.setdefault(L[i].arr.node.A, []).append(lambda ix, i=i: imp(S.inrange(ix, L[i].shape), eq(own(read(L[i].arr.node.A, *ix)), num(i))))
            R = S.call("reorder%d" % n, *L)
            x = S.call("reorder_index", R)
            base = ZERO
            for i in range(n):
                if i != empty:
                    k = S.index("k%d" % i, N[i])
                    S.holds("list %d: within the index" % i, lt(L[i][k], x.shape[0]))
                    S.eq("list %d: consecutive numbers" % i, x[L[i][k]], add(base, k))
                    r = S.call("reorder_apply1", R, L[i])
                    S.shape("list %d: shape" % i, r, (N[i],))
                    S.eq("list %d: applied" % i, r[k], add(base, k))
                base = add(base, N[i])
            for d in (2, 3):
                sb = [S.size("t%d_n%d" % (d, i), 1) for i in range(d)]
                t = S.arr("t%d" % d, "I", sb, (0, x.shape[0]))
                r = S.call("reorder_apply%d" % d, R, t)
                S.shape("shape of a table", r, sb)
                q = at(S, sb, "q%d" % d)
                S.eq("same relabeling of a table (%dd)" % d, r[q], x[t[q]])


@contract("dofs")
def _(S):
    n, d = S.size("nnode", 0), S.size("ndim")
    r = S.call("dofs", n, d)
    S.shape("shape", r, (n, d))
    i, j = S.index("i", n), S.index("j", d)
    S.eq("numbered per node", r[i, j], add(mul(i, d), j))
