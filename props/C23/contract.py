from spec import *
BOUNDED = "elem2node with a DOF-table (union of the lists of tied nodes) is decided by the bounded evaluation only."


def table(S, name="conn"):
    E, n = S.size("nelem", 1, 2**64), S.size("nne", 1)
    return S.arr(name, "I", (E, n), (0, None)), E, n


def count(S, a, E, n, v, row=None):
    """number of entries of the table (of the row) equal to v"""
    if row is None:
        return Sum(S, (E, n), lambda e, m: (eq(a[e, m], v), ONE))
    return Sum(S, (n,), lambda m: (eq(a[row, m], v), ONE))


@contract("coordination")
def _(S):
    a, E, n = table(S)
    r = S.call("coordination", a)
    S.shape("one entry per node", r, (add(S.amax(a), ONE),))
    v = S.index("node", add(S.amax(a), ONE))
    S.eq("number of references to the node", r[v], count(S, a, E, n, v))


for f, arg, what in (("elem2node", True, "sorted"), ("elem2node", False, "not sorted"), ("elem2node_default", None, "default"),
                     ("node2dof", True, "sorted"), ("node2dof", False, "not sorted"), ("node2dof_default", None, "default")):
    @contract("%s (%s)" % (f.replace("_default", ""), what))
    def _(S, f=f, arg=arg):
        a, E, n = table(S)
        r = S.call(f, a) if arg is None else S.call(f, a, arg)
        S.shape("one list per number", r, (add(S.amax(a), ONE),))
        v = S.index("v", add(S.amax(a), ONE))
        e = S.index("e", E)
        S.eq("how often a row is listed", r.count(v, e), count(S, a, E, n, v, e))
        o = S.int("o", 0)
        S.assume(ge(o, E))
        S.eq("nothing else is listed", r.count(v, o), ZERO)
        if arg is not False:
            S.holds("ascending order", r.sorted(v))


@contract("nodaltyings")
def _(S):
    N, d = S.size("nnode", 1, 2**64 - 1), S.size("ndim", 1)
    a = S.arr("dofs", "I", (N, d), (0, None))
    r = S.call("nodaltyings", a)
    S.shape("one list per node", r, (N,))
    m, v = S.index("m", N), S.index("v", N)
    S.eq("nodes with the first DOF of the node", r.count(m, v), count(S, a, N, d, a[m, 0], v))
    o = S.int("o", 0)
    S.assume(ge(o, N))
    S.eq("nothing else is listed", r.count(m, o), ZERO)
    S.holds("ascending order", r.sorted(m))


for f in ("elemmap2nodemap", "elemmap2nodemap_default"):
    @contract(f)
    def _(S, f=f):
        N, E = S.size("nnode", 1), S.size("nelem", 1)
        coor = S.arr("coor", "R", (N, 2))
        conn = S.arr("conn", "I", (E, 4), (0, N))
        P = S.arr("nodemap", "I", (N,), (0, N))
        # the elements are mapped by the map of the nodes
        emap = S.arr("elemmap", "I", (E,), (0, E), fact=lambda ix, v: imp(S.inrange(ix, (E,)), land(*[eq(conn[v, i], P[conn[ix[0], i]]) for i in range(4)])))
        r = S.call(f, emap, coor, conn)
        S.shape("one entry per node", r, (N,))
        n = S.index("n", N)
        S.holds("map of the node, or N if it is not used", lor(eq(r[n], P[n]), eq(r[n], N)))
        e = S.index("e", E)
        for i in range(4):
            S.eq("map of the nodes of an element (%d)" % i, r[conn[e, i]], P[conn[e, i]])
        with S.scope(forall((e,), imp(S.inrange((e,), (E,)), land(*[ne(conn[e, i], n) for i in range(4)])))):
            S.eq("a node that is not used is not mapped", r[n], N)
