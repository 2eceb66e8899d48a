from spec import *

INF = app("INF", "R")
nan = lambda x: app("nan", "B", x)


def state(S, n, k):
    """a list in which k residuals have been inserted since the reset: h[0], ..., h[k - 1] (arbitrary, also not-a-number)"""
    L = S.call("make", n)
    h = ArrSym("h", 1, "R")
    at = lambda i: ite(lt(i, ZERO), INF, read(h, i))
    S.put(L, "m_res", Arr((n,), "R", NFn(lambda q: at(add(sub(k, n), q[0])))))
    return L, at


def content(S, L, n, at, k, what):
    d = S.call("data", L)
    S.shape("length" + what, d, (n,))
    j = S.index("j", n)
    S.eq("residuals" + what, d[(j,)], at(add(sub(k, n), j)))
    g = S.call("get", L)
    S.shape("length (get)" + what, g, (n,))
    S.eq("residuals (get)" + what, g[(j,)], d[(j,)])


none = lambda i: INF


@contract("constructor")
def _(S):
    n = S.size("n")
    content(S, S.call("make", n), n, none, ZERO, "")


@contract("default constructor")
def _(S):
    content(S, S.call("make_default"), ONE, none, ZERO, "")


@contract("reset")
def _(S):
    n, k = S.size("n"), S.size("k", 0)
    L, at = state(S, n, k)
    S.call("reset", L)
    content(S, L, n, none, ZERO, "")


@contract("reset with another length")
def _(S):
    n, k, m = S.size("n"), S.size("k", 0), S.size("m")
    L, at = state(S, n, k)
    S.call("reset_n", L, m)
    content(S, L, m, none, ZERO, "")


@contract("roll_insert: the window moves")
def _(S):
    n, k = S.size("n"), S.size("k", 0)
    L, at = state(S, n, k)
    r = S.real("res")
    S.call("roll_insert", L, r)
    content(S, L, n, lambda i: ite(eq(i, k), r, at(i)), add(k, ONE), "")


@contract("queries")
def _(S):
    S.it.lib.ieee = True
    n, k = S.size("n"), S.size("k", 0)
    L, at = state(S, n, k)
    a = lambda j: at(add(sub(k, n), j))
    tol = S.real("tol")
    S.assume(lnot(nan(INF)))
    desc, less = S.call("descending", L), S.call("all_less", L, tol)
    less_at = lambda j: land(lnot(nan(a(j))), lnot(nan(tol)), lt(a(j), tol))
    desc_at = lambda j: lnot(land(lnot(nan(a(j))), lnot(nan(a(add(j, ONE)))), lt(a(j), a(add(j, ONE)))))
    for name, r, f, m in (("all residuals are smaller than the tolerance", less, less_at, n), ("no residual is larger than its predecessor", desc, desc_at, sub(n, ONE))):
        u = fresh("u")
        with S.scope(r):
            j = S.int("j", 0)
            with S.scope(lt(j, m)):
                S.holds("only if " + name, f(j))
        with S.scope(forall((u,), imp(land(ge(u, ZERO), lt(u, m)), f(u)))):
            S.holds("if " + name, r)
    content(S, L, n, at, k, " (not changed by the queries)")
