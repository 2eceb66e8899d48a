from spec import *

# order of the corners of the reference cell
CORNER = {"q": ((0, 0), (1, 0), (1, 1), (0, 1)), "h": tuple((x, y, z) for z in (0, 1) for x, y in ((0, 0), (1, 0), (1, 1), (0, 1)))}
# two triangles per cell, both counter-clockwise
TRI = (((0, 0), (1, 0), (0, 1)), ((1, 0), (1, 1), (0, 1)))
NODES = {"q": 4, "t": 3, "h": 8}
TYPE = {"q": 1, "t": 3, "h": 2}


class Mesh:
    def __init__(self, S, k, default=False):
        self.S, self.k = S, k
        self.nd = 3 if k == "h" else 2
        self.n = [S.size("nel" + "xyz"[i], 1) for i in range(self.nd)]
        self.h = num(1) if default else S.real("h")
        self.m = S.call(k + ("_default" if default else "_make"), *(self.n + ([] if default else [self.h])))
        self.c = [S.index("i" + "xyz"[i], self.n[i]) for i in range(self.nd)]      # a cell
        self.v = [S.index("v" + "xyz"[i], add(self.n[i], ONE)) for i in range(self.nd)]  # a grid point

    def node(self, ix):
        r = ZERO
        for i in reversed(range(self.nd)):
            r = add(mul(r, add(self.n[i], ONE)), ix[i])
        return r

    def cell(self, ix):
        r = ZERO
        for i in reversed(range(self.nd)):
            r = add(mul(r, self.n[i]), ix[i])
        return r

    def nnode(self):
        r = ONE
        for n in self.n:
            r = mul(r, add(n, ONE))
        return r

    def nelem(self):
        r = num(2 if self.k == "t" else 1)
        for n in self.n:
            r = mul(r, n)
        return r


def sizes(S, k, default):
    M = Mesh(S, k, default)
    get = lambda f: S.call(k + "_" + f, M.m)
    S.eq("nelem", get("nelem"), M.nelem())
    S.eq("nnode", get("nnode"), M.nnode())
    S.eq("nne", get("nne"), NODES[k])
    S.eq("ndim", get("ndim"), M.nd)
    for i in range(M.nd):
        S.eq("nel" + "xyz"[i], get("nel" + "xyz"[i]), M.n[i])
    S.eq("h", get("h"), M.h)
    for t in range(5):
        S.holds("element type %d" % t, iff(S.call(k + "_type", M.m, t), TRUE if t == TYPE[k] else FALSE))
    d = get("dofs")
    S.shape("shape of the DOFs", d, (M.nnode(), M.nd))
    n = S.index("n", M.nnode())
    for i in range(M.nd):
        S.eq("DOF %d" % i, d[n, i], add(scale(M.nd, n), num(i)))


def coor(S, k, default):
    M = Mesh(S, k, default)
    x = S.call(k + "_coor", M.m)
    S.shape("shape of the coordinates", x, (M.nnode(), M.nd))
    for i in range(M.nd):
        S.eq("position %s" % "xyz"[i], x[M.node(M.v), i], mul(M.h, M.v[i]))


def conn(S, k):
    M = Mesh(S, k)
    c = S.call(k + "_conn", M.m)
    S.shape("shape of the connectivity", c, (M.nelem(), NODES[k]))
    at = lambda o: M.node([add(a, num(b)) for a, b in zip(M.c, o)])
    if k == "t":
        for j in range(2):
            for m in range(3):
                S.eq("triangle %d, node %d" % (j, m), c[add(scale(2, M.cell(M.c)), num(j)), m], at(TRI[j][m]))
    else:
        for m in range(NODES[k]):
            S.eq("node %d" % m, c[M.cell(M.c), m], at(CORNER[k][m]))


def cells(S, k):
    """every element is its own cell: the positions of its nodes"""
    M = Mesh(S, k)
    x, c = S.call(k + "_coor", M.m), S.call(k + "_conn", M.m)
    for j in range(2 if k == "t" else 1):
        for m in range(NODES[k]):
            n = c[add(scale(2, M.cell(M.c)), num(j)) if k == "t" else M.cell(M.c), m]
            o = TRI[j][m] if k == "t" else CORNER[k][m]
            for i in range(M.nd):
                S.eq("element %d, node %d, %s" % (j, m, "xyz"[i]), x[n, i], mul(M.h, add(M.c[i], num(o[i]))))


for k in "qth":
    for default in (False, True):
        sfx = " (default size)" * default
        contract("%s sizes%s" % (k, sfx))(lambda S, k=k, d=default: sizes(S, k, d))
        contract("%s coor%s" % (k, sfx))(lambda S, k=k, d=default: coor(S, k, d))
    contract("%s cells" % k)(lambda S, k=k: cells(S, k))
    contract("%s conn" % k)(lambda S, k=k: conn(S, k))


@contract("element grid")
def _(S):
    M = Mesh(S, "q")
    g = S.call("q_grid", M.m)
    S.shape("shape of the element grid", g, (M.n[1], M.n[0]))
    S.eq("element of a cell", g[M.c[1], M.c[0]], M.cell(M.c))


@contract("dofs")
def _(S):
    n, d = S.size("nnode"), S.size("ndim")
    r = S.call("dofs", n, d)
    S.shape("shape", r, (n, d))
    i, j = S.index("i", n), S.index("j", d)
    S.eq("numbered per node", r[i, j], add(mul(i, d), j))
