from spec import *

EXPLANATION = ("Unbounded in the history: the invariant on the private state (version of the matrix data, version that is factorised, changed-flag) is "
               "established by the constructors, preserved by assemble/set/add, and from any state that satisfies it every solve returns the solution "
               "of the current system and restores the invariant. The sequences are in addition executed without reference to private members.")


class Env:
    def __init__(self, S):
        self.S = S
        self.nelem, self.nne, self.nnode, self.ndim = S.size("nelem"), S.size("nne"), S.size("nnode"), S.size("ndim")
        self.conn = S.arr("conn", "I", (self.nelem, self.nne), rng=(0, self.nnode))
        k = mul(self.nne, self.ndim)
        self.em = lambda name: S.arr(name, "R", (self.nelem, k, k))
        self.dofs = None

    def tab(self, ndof=None):
        S = self.S
        self.dofs = S.arr("dofs", "I", (self.nnode, self.ndim), rng=(0, ndof))
        if ndof is None:
            self.ndof = add(S.amax(self.dofs), ONE)
        else:
            self.ndof = ndof
            S.assume(eq(S.amax(self.dofs), sub(ndof, ONE)))


def mulrow(S, D, n, r, X):
    return Sum(S, (n,), lambda k: mul(D(r, k), X(k)))


class Plain(Env):
    pre = "m_"
    blocks = ("data",)
    mods = ("assemble", "set", "add")

    def __init__(self, S):
        super().__init__(S)
        self.tab()
        self.n = self.ndof

    def make(self):
        return self.S.call("m_make", self.conn, self.dofs)

    def solver(self):
        return self.S.call("m_solver")

    def solve(self, s, A, name, how=0):
        S = self.S
        b = S.arr("b_%s" % name, "R", (self.ndof,))
        if how == 0:
            r = S.call("m_Solve_dof", s, A, b)
        else:
            c = S.it.new(S.arr("x_%s" % name, "R", (self.ndof,)).arr, "x")
            S.call("m_solve_dof", s, A, b, c)
            r = S.wrap(S.it.load(c))
        row = S.index("row_%s" % name, self.ndof)
        B = self.content(A)["data"]
        S.solved("%s: solution of the current system" % name, sub(mulrow(S, lambda i, j: B[i, j], self.ndof, row, lambda k: r[k]), b[row]), row)

    def havoc(self, A):
        """any matrix content"""
        self.S.havoc(A)

    def content(self, A):
        return {k: self.S.call(self.pre + k, A) for k in self.blocks}

    def modify(self, A, op, name):
        S = self.S
        if op == "assemble":
            S.call(self.pre + "assemble", A, self.em("em_" + name))
        else:
            nr, nc = S.size("nr_" + name), S.size("nc_" + name)
            rows, cols = S.arr("rows_" + name, "I", (nr,), rng=(0, self.ndof)), S.arr("cols_" + name, "I", (nc,), rng=(0, self.ndof))
            S.call(self.pre + op, A, rows, cols, S.arr("m_" + name, "R", (nr, nc)))


class Part(Plain):
    pre = "p_"
    blocks = ("uu", "up", "pu", "pp")

    def __init__(self, S):
        Env.__init__(self, S)
        self.tab()
        self.np = S.size("np", 0)
        self.iip = S.arr("iip", "I", (self.np,), rng=(0, self.ndof))
        S.distinct(self.iip)
        self.sd = S.setdiff(self.dofs, self.iip)
        self.n = self.nu = self.sd.L

    def make(self):
        return self.S.call("p_make", self.conn, self.dofs, self.iip)

    def solver(self):
        return self.S.call("p_solver")

    def solve(self, s, A, name, how=0):
        S = self.S
        bu, xp = S.arr("bu_%s" % name, "R", (self.nu,)), S.arr("xp_%s" % name, "R", (self.np,))
        r = S.run("p_Solve_u" if how == 0 else "p_solve_u", how != 0, (s, A, bu, xp), (self.nu,))
        row = S.index("row_%s" % name, self.nu)
        B = self.content(A)
        f = add(mulrow(S, lambda i, j: B["uu"][i, j], self.nu, row, lambda k: r[k]), mulrow(S, lambda i, j: B["up"][i, j], self.np, row, lambda k: xp[k]))
        S.solved("%s: solution of the current system" % name, sub(f, bu[row]), row)


class Tied(Plain):
    pre = "t_"
    blocks = tuple(a + b for a in "upd" for b in "upd")
    mods = ("assemble",)

    def __init__(self, S):
        Env.__init__(self, S)
        self.nu, self.np, self.nd = S.size("nu", 0), S.size("np", 0), S.size("nd", 0)
        self.ni = add(self.nu, self.np)
        self.tab(add(self.ni, self.nd))
        self.Cdu, self.Cdp = S.sparse("Cdu", self.nd, self.nu), S.sparse("Cdp", self.nd, self.np)
        self.n = self.nu
        self.len = {"u": self.nu, "p": self.np, "d": self.nd}

    def havoc(self, A):
        # (not the tying matrices)
        S = self.S
        for k in self.blocks:
            v = S.get(A, "m_A" + k)
            X = ArrSym("any_%s!%d" % (k, next_id()), 2, "R")
            S.put(A, "m_A" + k, Sp(v.rows, v.cols, lambda a, b, X=X: read(X, a, b)))

    def make(self):
        return self.S.call("t_make", self.conn, self.dofs, self.Cdu, self.Cdp)

    def solver(self):
        return self.S.call("t_solver")

    def solve(self, s, A, name, how=0):
        S = self.S
        B = self.content(A)
        b = {"u": S.arr("bu_" + name, "R", (self.nu,)), "d": S.arr("bd_" + name, "R", (self.nd,))}
        xp = S.arr("xp_" + name, "R", (self.np,))
        u = S.index("row_" + name, self.nu)
        r = S.call("t_Solve_u", s, A, b["u"], b["d"], xp)
        tied = lambda d: add(Sum(S, (self.nu,), lambda k: mul(self.Cdu[d, k], r[k])), Sum(S, (self.np,), lambda k: mul(self.Cdp[d, k], xp[k])))
        X = lambda a, k: r[k] if a == "u" else xp[k] if a == "p" else tied(k)

        def force(a, i):
            t = neg(b[a][i])
            for c in "upd":
                t = add(t, Sum(S, (self.len[c],), lambda k: mul(B[a + c][i, k], X(c, k))))
            return t

        S.solved("%s: solution of the current system" % name, add(force("u", u), Sum(S, (self.nd,), lambda d: mul(self.Cdu[d, u], force("d", d)))), u)


KINDS = (("MatrixSolver", Plain), ("MatrixPartitionedSolver", Part), ("MatrixPartitionedTyingsSolver", Tied))


def unchanged(S, p, A, old, name):
    new = p.content(A)
    for k in old:
        r, c = S.index("r_%s_%s" % (name, k), old[k].shape[0]), S.index("c_%s_%s" % (name, k), old[k].shape[1])
        S.eq("%s: matrix unchanged by solve (%s)" % (name, k), new[k][r, c], old[k][r, c])


def sequences(kind, cls):
    @contract("%s: sequence on two matrices" % kind)
    def _(S):
        p = cls(S)
        A, B, s = p.make(), p.make(), p.solver()
        p.modify(A, "assemble", "a0")
        p.havoc(A)
        p.modify(B, "assemble", "b0")
        p.havoc(B)
        p.solve(s, A, "first A")
        p.solve(s, B, "then B")
        p.solve(s, A, "A again")
        p.solve(s, A, "A once more", 1)

    @contract("%s: sequence with two solvers" % kind)
    def _(S):
        p = cls(S)
        A, s, t = p.make(), p.solver(), p.solver()
        p.modify(A, "assemble", "a0")
        p.havoc(A)
        p.solve(s, A, "solver 1")
        p.solve(t, A, "solver 2")
        p.modify(A, p.mods[-1], "a1")
        p.solve(s, A, "changed, solver 1")
        p.solve(t, A, "changed, solver 2")
        p.modify(A, p.mods[0], "a2")
        p.solve(t, A, "changed again, solver 2")
        p.solve(s, A, "changed again, solver 1")

    for op in cls.mods:
        @contract("%s: %s after solve" % (kind, op))
        def _(S, op=op):
            p = cls(S)
            A, s = p.make(), p.solver()
            p.modify(A, "assemble", "a0")
            p.solve(s, A, "before", 1)
            p.modify(A, op, "a1")
            p.havoc(A)
            p.solve(s, A, "after")
            p.modify(A, op, "a2")
            p.solve(s, A, "after again")


def invariant(kind, cls):
    @contract("%s: invariant established" % kind)
    def _(S):
        p = cls(S)
        A, s = p.make(), p.solver()
        S.holds("new matrix is marked as changed", S.get(A, "m_changed"))
        S.eq("new matrix has no version", S.get(A, "m_version"), 0)
        S.eq("new solver has no factorisation", S.get(s, "m_version"), 0)

    for op in cls.mods:
        @contract("%s: invariant preserved by %s" % (kind, op))
        def _(S, op=op):
            p = cls(S)
            A = p.make()
            p.havoc(A)
            S.put(A, "m_changed", S.bool("changed"))
            v = S.int("vA", 0)
            S.put(A, "m_version", v)
            c0 = S.counters()
            p.modify(A, op, "m")
            S.holds("marked as changed", S.get(A, "m_changed"))
            S.eq("version kept", S.get(A, "m_version"), v)
            for a, b in zip(c0, S.counters()):
                S.holds("counter does not decrease", ge(b, a))

    for case in ("changed", "factorisation is current", "factorisation of other data"):
        @contract("%s: solve from any state, %s" % (kind, case))
        def _(S, case=case):
            p = cls(S)
            A, s = p.make(), p.solver()
            if cls is Tied:
                # state without pending changes: condensed blocks as left by a solve with any other solver
                p.havoc(A)
                if case != "changed":
                    S.put(A, "m_changed", True)
                    p.solve(p.solver(), A, "other solver")
                F = S.get(A, "m_ACuu")
            else:
                p.havoc(A)
                F = p.content(A)[cls.blocks[0]].arr
            (g,) = S.counters()
            vA, vS = S.int("vA", 0), S.int("vS", 0)
            S.assume(le(vA, g), le(vS, g))
            S.put(A, "m_changed", case == "changed")
            if case != "changed":
                S.assume(ge(vA, ONE))
                S.assume(eq(vA, vS) if "current" in case else ne(vA, vS))
            S.put(A, "m_version", vA)
            S.put(s, "m_version", vS)
            # content that was factorised: that of version vS (of other data: anything)
            junk = S.sparse("junk", p.n, p.n).arr
            S.put(s, "m_solver", Obj("fact", F if "current" in case else junk))
            old = p.content(A)
            p.solve(s, A, case)
            unchanged(S, p, A, old, case)
            S.holds("no pending changes", lnot(S.get(A, "m_changed")))
            S.eq("version of the solver is that of the matrix", S.get(s, "m_version"), S.get(A, "m_version"))
            (h,) = S.counters()
            v = S.get(A, "m_version")
            S.holds("counter does not decrease", ge(h, g))
            S.holds("version known to the counter", land(ge(v, ONE), le(v, h)))
            S.holds("version is new if the data changed", gt(v, g) if case == "changed" else eq(v, vA))
            f = S.get(s, "m_solver")
            r, c = S.index("fr", p.n), S.index("fc", p.n)
            cur = S.get(A, "m_ACuu") if cls is Tied else p.content(A)[cls.blocks[0]].arr
            S.eq("factorised content is the current matrix", f.d[0].fn(r, c), cur.fn(r, c))


for k, c in KINDS:
    sequences(k, c)
    invariant(k, c)


class Diag(Env):
    def __init__(self, S):
        super().__init__(S)
        self.tab()


@contract("MatrixDiagonal: modify and solve")
def _(S):
    p = Diag(S)
    sh = (p.nnode, p.ndim)
    for op in ("assemble", "set"):
        A = S.call("d_make", p.conn, p.dofs)
        S.call("d_set", A, S.arr("first", "R", (p.ndof,)))
        for k, fn, shape in ((0, "d_Solve_dof", (p.ndof,)), (1, "d_Solve_node", sh), (2, "d_solve_dof", (p.ndof,)), (3, "d_solve_node", sh)):
            b0 = S.arr("b0_%d" % k, "R", shape)
            S.run(fn, "_s" in fn, (A, b0), shape)
            S.call("d_" + op, A, p.em("em%d" % k) if op == "assemble" else S.arr("a%d" % k, "R", (p.ndof,)))
            D = S.call("d_data", A)
            d = S.index("d", p.ndof)
            b = S.arr("b%d" % k, "R", shape)
            for rep in (1, 2):
                x = S.run(fn, "_s" in fn, (A, b), shape)
                if k % 2 == 0:
                    with S.scope(ne(D[d], ZERO)):
                        S.eq("%s after %s, %d" % (fn, op, rep), mul(x[d], D[d]), b[d])
                else:
                    n, i = S.index("n", p.nnode), S.index("i", p.ndim)
                    with S.scope(ne(D[p.dofs[n, i]], ZERO)):
                        S.eq("%s after %s, %d" % (fn, op, rep), mul(x[n, i], D[p.dofs[n, i]]), b[n, i])
            S.eq("unchanged by %s after %s" % (fn, op), S.call("d_data", A)[d], D[d])


@contract("MatrixDiagonalPartitioned: modify and solve")
def _(S):
    p = Diag(S)
    sh = (p.nnode, p.ndim)
    np = S.size("np", 0)
    iip = S.arr("iip", "I", (np,), rng=(0, p.ndof))
    S.distinct(iip)
    sd = S.setdiff(p.dofs, iip)
    nu = sd.L
    for op in ("assemble", "set"):
        A = S.call("q_make", p.conn, p.dofs, iip)
        S.call("q_set", A, S.arr("first", "R", (p.ndof,)))
        for k, fn in enumerate(("q_Solve_u", "q_solve_u", "q_solve_dof")):
            u = S.index("u", nu)
            args = lambda n: (S.arr("b%s_%d" % (n, k), "R", (nu,)), S.arr("x%s_%d" % (n, k), "R", (np,))) if k < 2 else (S.arr("b%s_%d" % (n, k), "R", (p.ndof,)),)
            shape = (nu,) if k < 2 else (p.ndof,)
            S.run(fn, k > 0, (A, *args("p")), shape)
            S.call("q_" + op, A, p.em("em%d" % k) if op == "assemble" else S.arr("a%d" % k, "R", (p.ndof,)))
            D = S.call("q_uu", A)
            a = args("n")
            for rep in (1, 2):
                x = S.run(fn, k > 0, (A, *a), shape)
                at = u if k < 2 else sd.R.read(u)
                with S.scope(ne(D[u], ZERO)):
                    S.eq("%s after %s, %d" % (fn, op, rep), mul(x[at], D[u]), a[0][at])
            S.eq("unchanged by %s after %s" % (fn, op), S.call("q_uu", A)[u], D[u])


def all_used(S, p, lists):
    d = fresh("d")
    a, b = app("wit_m", "I", d), app("wit_i", "I", d)
    used = imp(land(ge(d, ZERO), lt(d, p.ndof)), land(S.inrange((a, b), (p.nnode, p.ndim)), eq(p.dofs[a, b], d)))
    S.forall_fact((d,), used, ["*"])
    for l, n in lists:
        S.forall_fact((d,), imp(land(ge(d, ZERO), lt(d, n)), subst(used, {d: l(d)})), ["*"])


def nodal(S, p, name, y):
    sh = (p.nnode, p.ndim)
    return S.arr(name, "R", sh, fact=lambda q, v: imp(S.inrange(q, sh), eq(v, y[p.dofs[q[0], q[1]]])))


def output(S, fn, inplace, args, x):
    if not inplace:
        return S.call(fn, *args)
    c = S.it.new(x.arr, "x")
    S.call(fn, *args, c)
    return S.wrap(S.it.load(c))


@contract("MatrixSolver: nodal interface")
def _(S):
    p = Plain(S)
    all_used(S, p, ())
    y = S.arr("y", "R", (p.ndof,))
    b = nodal(S, p, "b", y)
    n, i = S.index("n", p.nnode), S.index("i", p.ndim)
    row = S.index("row", p.ndof)
    for inplace in (False, True):
        A, s = p.make(), p.solver()
        p.havoc(A)
        x = output(S, "m_solve_node" if inplace else "m_Solve_node", inplace, (s, A, b), S.arr("x0", "R", (p.nnode, p.ndim)))
        S.shape("shape, in-place=%s" % inplace, x, (p.nnode, p.ndim))
        U = S.solution()
        B = p.content(A)["data"]
        S.eq("nodal values of one DOF-vector, in-place=%s" % inplace, x[n, i], U(p.dofs[n, i]))
        S.solved("solution, in-place=%s" % inplace, sub(mulrow(S, lambda r, c: B[r, c], p.ndof, row, U), y[row]), row)


@contract("MatrixPartitionedSolver: DOF interface")
def _(S):
    p = Part(S)
    b, x0 = S.arr("b", "R", (p.ndof,)), S.arr("x0", "R", (p.ndof,))
    u, q = S.index("u", p.nu), S.index("q", p.np)
    iiu = A(p.sd.R)
    for inplace in (False, True):
        M, s = p.make(), p.solver()
        p.havoc(M)
        x = output(S, "p_solve_dof" if inplace else "p_Solve_dof", inplace, (s, M, b) if inplace else (s, M, b, x0), x0)
        S.shape("shape, in-place=%s" % inplace, x, (p.ndof,))
        B = p.content(M)
        S.eq("prescribed untouched, in-place=%s" % inplace, x[p.iip[q]], x0[p.iip[q]])
        f = add(mulrow(S, lambda r, c: B["uu"][r, c], p.nu, u, lambda k: x[iiu[k]]), mulrow(S, lambda r, c: B["up"][r, c], p.np, u, lambda k: x0[p.iip[k]]))
        S.solved("solution, in-place=%s" % inplace, sub(f, b[iiu[u]]), u)


@contract("MatrixPartitionedSolver: nodal interface")
def _(S):
    p = Part(S)
    iiu = A(p.sd.R)
    all_used(S, p, ((lambda k: iiu[k], p.nu), (lambda k: p.iip[k], p.np)))
    yb, yx = S.arr("yb", "R", (p.ndof,)), S.arr("yx", "R", (p.ndof,))
    b, x0 = nodal(S, p, "b", yb), nodal(S, p, "x0", yx)
    n, i = S.index("n", p.nnode), S.index("i", p.ndim)
    u, q, k = S.index("u", p.nu), S.index("q", p.np), S.index("k", p.nu)
    for inplace in (False, True):
        M, s = p.make(), p.solver()
        p.havoc(M)
        x = output(S, "p_solve_node" if inplace else "p_Solve_node", inplace, (s, M, b) if inplace else (s, M, b, x0), x0)
        S.shape("shape, in-place=%s" % inplace, x, (p.nnode, p.ndim))
        B = p.content(M)
        U = S.solution()
        with S.scope(eq(p.dofs[n, i], p.iip[q])):
            S.eq("prescribed untouched, in-place=%s" % inplace, x[n, i], x0[n, i])
        with S.scope(eq(p.dofs[n, i], iiu[k])):
            S.eq("unknown values, in-place=%s" % inplace, x[n, i], U(k))
        f = add(mulrow(S, lambda r, c: B["uu"][r, c], p.nu, u, U), mulrow(S, lambda r, c: B["up"][r, c], p.np, u, lambda k: yx[p.iip[k]]))
        S.solved("solution, in-place=%s" % inplace, sub(f, yb[iiu[u]]), u)
