"""Contract layer: symbolic inputs with preconditions, calls of driver functions, postconditions."""
import math
import time
import traceback
from fractions import Fraction
import terms
from terms import *
import arrays
from arrays import *
import ctx as ctxmod
from ctx import CTX
import interp as I
from interp import Interp, Rec, Vec, Sp, Obj, Cell, LV
import lib as libmod
import loops
import prover
from loops import next_id

CONTRACTS = []


class Verified(Exception):
    """the loop is verified: the remainder of the function is left to another contract"""


def contract(name, fns=(), tier="quick"):
    def deco(f):
        CONTRACTS.append((name, f, tuple(fns), tier))
        return f

    return deco


def t_(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return num(x)


def reset():
    CTX.__init__()
    loops.CTX_extra.clear()
    loops._sk.clear()
    loops._stored.clear()
    libmod._ext.clear()
    libmod._solves.clear()
    libmod._sd.clear()
    libmod._sort.clear()
    libmod.CTX_FACTS.clear()


class A:
    """array wrapper with python indexing"""

    def __init__(self, arr):
        self.arr = arr

    def __getitem__(self, q):
        if not isinstance(q, tuple):
            q = (q,)
        return self.arr.read(*[t_(x) for x in q])

    @property
    def shape(self):
        return self.arr.shape


class A2(A):
    """sparse matrix as a function of row and column"""

    def __init__(self, sp, S=None):
        self.arr, self.S = sp, S

    def __getitem__(self, q):
        return self.arr.fn(*[t_(x) for x in q])

    @property
    def shape(self):
        return (self.arr.rows, self.arr.cols)


class Session:
    def __init__(self, data, name, known=None):
        reset()
        self.it = Interp(data, libmod.Lib())
        self.name = name
        CTX.loopstack = self.it.loopstack
        self.goals = []
        self.t0 = time.time()
        self.pre_done = False
        self.ns = "gfv::"
        self.mute = False         # calls only: no goals
        self.consistent = False   # nodal and element vectors that are consistent with the DOFs
        self.maps = {}

    # --- inputs
    def size(self, name, lo=1, hi=None):
        s = sym(name, "I")
        CTX.assume(ge(s, num(lo)))
        if hi is not None:
            CTX.assume(le(s, t_(hi)))
        return s

    def real(self, name):
        return sym(name, "R")

    def pi(self):
        """the double nearest to pi"""
        return num(Fraction(repr(math.pi)))

    def int(self, name, lo=None, hi=None):
        s = sym(name, "I")
        if lo is not None:
            CTX.assume(ge(s, t_(lo)))
        if hi is not None:
            CTX.assume(lt(s, t_(hi)))
        return s

    def bool(self, name):
        return sym(name, "B")

    def index(self, name, n):
        return self.int(name, 0, n)

    def arr(self, name, dt, shape, rng=None, fact=None, once=False):
        """symbolic array; rng=(lo, hi): entries within lo <= a < hi for in-range indices"""
        if self.consistent and dt == "R" and "dofs" in self.maps:
            v = self.vector(name, tuple(t_(s) for s in shape))
            if v is not None:
                return v
        S = ArrSym(name, len(shape), dt)
        a = Arr([t_(s) for s in shape], dt, NSym(S))
        if name in ("dofs", "conn") and dt == "I":
            self.maps[name] = A(a)
        if rng is not None:
            lo, hi = t_(rng[0]), (None if rng[1] is None else t_(rng[1]))

            def f(ix, S=S, a=a):
                g = land(*[land(ge(x, ZERO), lt(x, s)) for x, s in zip(ix, a.shape)])
                v = read(S, *ix)
                return imp(g, land(ge(v, lo), lt(v, hi) if hi is not None else TRUE))

            CTX.arrfacts.setdefault(S, []).append(f)
        if fact is not None:
            f2 = lambda ix, S=S: fact(ix, read(S, *ix))
            CTX.arrfacts.setdefault(S, []).append(f2)
            if once:
                CTX.once.add(f2)
        return A(a)

    def sequence(self, name, n, first, inc, dt="I", mono=True):
        """array of n + 1 entries defined by a recurrence: a[0] = first, a[k + 1] = a[k] + inc(k)"""
        S = ArrSym(name, 1, dt)
        n = t_(n)

        def f(ix):
            x, = ix
            up = imp(land(ge(x, ZERO), lt(x, n)), eq(read(S, add(x, ONE)), add(read(S, x), inc(x))))
            y = sub(x, ONE)
            dn = imp(land(gt(x, ZERO), le(x, n)), eq(read(S, x), add(read(S, y), inc(y))))
            return land(up, dn)

        if mono:
            # a sum of non-negative terms does not decrease
            k = fresh("k")
            with self.scope(ge(k, ZERO), lt(k, n)):
                ok = self.mute or self.holds("%s does not decrease" % name, ge(t_(inc(k)), ZERO))
            if not ok:
                raise Unsup("sequence %s" % name)
            CTX.mono[S] = (ZERO, n, inc)
        CTX.once.add(f)
        CTX.assume(eq(read(S, ZERO), t_(first)))
        CTX.arrfacts.setdefault(S, []).append(f)
        return A(Arr((add(n, ONE),), dt, NSym(S)))

    def loop(self, name, start, exit, vars, inv, facts=lambda k: TRUE, cases=((lambda k: TRUE, lambda k: add(k, ONE)),), verify=None):
        """contract of the next loop without condition.  vars: name of a local -> (value at the start of iteration k, value
        after the loop); inv(k): facts about k that hold at the start of every iteration; start: first k; exit: k after the loop;
        facts(k): instances of definitions; cases: (condition, number of the next iteration); verify: the parts to verify ("first", or number
        of the case), after which the exception Verified is thrown (the other parts are verified by other contracts)"""
        it = self.it
        used = []

        def h(it, s):
            if used or s["k"] not in ("for", "while") or s.get("inc") is not None:
                return None
            if s["k"] == "for" and s["c"] is not None or s["k"] == "while" and it.rv(s["c"]) is not TRUE:
                return None
            used.append(1)
            if s.get("init"):
                it.exec(s["init"])
            cells = {}
            for n in vars:
                c = [x for x in it.env.values() if isinstance(x, Cell) and x.name == n]
                if len(c) != 1:
                    raise Unsup("loop contract: variable " + n)
                cells[n] = c[0]
            pre = it.st

            def agree(what, st, i, k):
                for n, c in cells.items():
                    v, f = st[c], vars[n][i](k)
                    if isinstance(v, Arr):
                        q = fresh("q")
                        with self.scope(ge(q, ZERO), lt(q, v.shape[0])):
                            r = prover.prove_eq(v.read(q), f.arr.read(q), (), 10000) if eq(v.shape[0], f.shape[0]) is TRUE else ("unknown", "shape", None)
                    else:
                        r = prover.prove_eq(v, f, (), 10000)
                    yield "%s: %s: %s" % (name, what, n), r

            def need(rs):
                """auxiliary obligations: not refuted, as another invariant may do"""
                for n, r in rs:
                    self._record(n, r if r[0] == "proved" else ("unknown",) + r[1:], 0)
                    if r[0] != "proved":
                        raise Unsup("loop contract: " + n)

            k = fresh("k")
            todo = []
            if verify is None or "first" in verify:
                entry = list(agree("entry", pre, 0, start))
                if any(r[0] != "proved" for _, r in entry):
                    todo += [("first ", start, pre, c) for c in enumerate(cases)]
                else:
                    need(entry)
                if len(cases) > 1:
                    need([("%s: cases" % name, prover.prove(lor(*[c[0](k) for c in cases]), (), 10000))])
            todo += [("", k, None, c) for c in enumerate(cases) if verify is None or c[0] in verify]
            for nm, k, st, (n, (cond, nxt)) in todo:
                nm += "(%d) " % n if len(cases) > 1 else ""
                with self.scope(inv(k), facts(k), cond(k), TRUE if st else ge(k, start)):
                    if st is None:
                        st = dict(pre)
                        for n, c in cells.items():
                            v = vars[n][0](k)
                            st[c] = v.arr if isinstance(v, A) else v
                    it.st = dict(st)
                    cn, ab = it.exec(s["b"])
                    cn, brk, rest = loops.merge_normal(it, cn, ab)
                    if rest:
                        raise Unsup("loop contract: exit")
                    for c, s2 in [(cn, it.st)] + [(x[0], x[3]) for x in brk]:
                        for x in pre:
                            if x not in cells.values() and s2.get(x) is not pre[x] and not loops.same_val(s2.get(x), pre[x]):
                                raise Unsup("loop contract: %s is modified" % x.name)
                    if cn is not FALSE:
                        with self.scope(cn):
                            need(agree(nm + "next iteration", it.st, 0, nxt(k)))
                            need([("%s: %snext iteration: invariant" % (name, nm), prover.prove(inv(nxt(k)), (), 10000))])
                    for x in brk:
                        with self.scope(x[0]):
                            need(agree(nm + "exit", x[3], 1, exit))
            if verify:
                raise Verified()
            it.st = dict(pre)
            for n, c in cells.items():
                v = vars[n][1](exit)
                it.st[c] = v.arr if isinstance(v, A) else v
            return TRUE, []

        it.loopinv.append(h)
        return used

    def content(self, name, N, f):
        """content of a member array of N entries, at the start of the first loop for which it can be proved: used from there on"""
        seen, done = set(), []

        def h(it, s):
            if not done and not it.loopstack:
                for c, v in list(it.st.items()):
                    if getattr(c, "name", None) != name or not isinstance(v, Arr) or v.nd != 1 or v.node in seen or eq(v.shape[0], N) is not TRUE and CTX.decide(eq(v.shape[0], N)) is not True:
                        continue
                    seen.add(v.node)
                    q = fresh("q")
                    with self.scope(ge(q, ZERO), lt(q, N)):
                        x = v.read(q)
                        if atoms(x, lambda y: y.op == "read" and y.a[0].name.startswith("empty")) and CTX.decide(eq(x, f(q))) is not True:
                            continue
                        r = prover.prove_eq(x, f(q), (), 2000)
                    if r[0] == "proved":
                        self._record("%s: content" % name, r, 0)
                        done.append(c)
                        it.st = dict(it.st)
                        it.st[c] = v.with_node(NFn(lambda ix: f(ix[0])))
            return None

        self.it.loopinv.append(h)

    def induction(self, name, lo, hi, p):
        """p(k) for all lo <= k <= hi; returns the fact as a function of k"""
        k = fresh("k")
        ok = self.holds("%s: first" % name, p(t_(lo)))
        with self.scope(ge(k, t_(lo)), lt(k, t_(hi)), p(k)):
            ok = self.holds("%s: next" % name, p(add(k, ONE))) and ok
        if not ok and not self.mute:
            raise Unsup("induction: " + name)
        return lambda x: imp(land(ge(x, t_(lo)), le(x, t_(hi))), p(x))

    def ghost(self, *fns):
        CTX.ghosts += fns

    def first(self, *entries):
        """candidate positions of the first entry of a list of booleans that is true"""
        CTX.firsts += [t_(x) for x in entries]

    def vector(self, name, shape):
        """nodal or element vector with one value per DOF"""
        d, c = self.maps["dofs"], self.maps.get("conn")
        u = ArrSym(name + "!dof", 1, "R")
        if len(shape) == 2 and shape[0] is d.shape[0] and shape[1] is d.shape[1]:
            return A(Arr(shape, "R", NFn(lambda q: read(u, d[q[0], q[1]]))))
        if c is not None and len(shape) == 3 and shape[0] is c.shape[0] and shape[1] is c.shape[1] and shape[2] is d.shape[1]:
            return A(Arr(shape, "R", NFn(lambda q: read(u, d[c[q[0], q[1]], q[2]]))))
        return None

    def sparse(self, name, rows, cols):
        S = ArrSym(name, 2, "R")
        return A2(Sp(t_(rows), t_(cols), lambda r, c: read(S, r, c)), S)

    def lam(self, shape, dt, fn):
        """array with the given content"""
        return A(Arr([t_(s) for s in shape], dt, NFn(lambda q: t_(fn(q)))))

    def assume(self, *c):
        CTX.assume(*[t_(x) for x in c])

    def forall_fact(self, vs, body, pats=()):
        CTX.quant.append((tuple(vs), body, list(pats)))

    # --- calls
    def call(self, fname, *args):
        it = self.it
        fs = it.byname.get(self.ns + fname)
        if not fs:
            raise Unsup("driver function %s not exported" % fname)
        a = []
        for x in args:
            if isinstance(x, A):
                x = x.arr
            elif isinstance(x, R):
                x = x.rec
            elif isinstance(x, (int, Fraction)) or isinstance(x, bool):
                x = t_(x)
            a.append(x)
        r = it.call_fn(fs[0], None, a)
        return self.wrap(r)

    def havoc(self, r, types=(Sp,), zero_only=False):
        """arbitrary content for all (sparse) matrices that an object holds; zero_only: only those that have no content yet"""
        n = 0
        for c in r.rec.cells.values():
            v = self.it.load(c)
            if isinstance(v, Sp) and Sp in types:
                if zero_only and v.fn(sym("$r0"), sym("$c0")) is not ZERO:
                    continue
                X = ArrSym("any!%d" % next_id(), 2, "R")
                self.it.st[c] = Sp(v.rows, v.cols, lambda a, b, X=X: read(X, a, b))
                n += 1
            elif isinstance(v, Arr) and Arr in types and v.dt == "R":
                X = ArrSym("any!%d" % next_id(), len(v.shape), "R")
                self.it.st[c] = Arr(v.shape, "R", NSym(X))
                n += 1
        return n

    def evolve(self, r, step, limit=4):
        """state of an object after any number of calls: everything that `step` may change is replaced by arbitrary
        content, until `step` changes nothing else (an inductive invariant: the rest is as constructed)"""
        dyn = {}

        def leaves(x, path=(), out=None):
            out = {} if out is None else out
            for n, c in x.cells.items():
                v = self.it.load(c)
                if isinstance(v, Rec):
                    leaves(v, path + (n,), out)
                else:
                    out[path + (n,)] = c
            return out

        for n in range(limit):
            for key, c in dyn.items():
                v = self.it.load(c)
                i = next_id()
                if isinstance(v, Arr):
                    X = ArrSym("any!%d" % i, len(v.shape), v.dt)
                    if v.dt != "R":
                        raise Unsup("evolving array of integers")
                    self.it.st[c] = Arr(v.shape, "R", NSym(X))
                elif isinstance(v, T):
                    self.it.st[c] = sym("any!%d" % i, "B" if isbool(v) else "I" if is_int(v) else "R")
                else:
                    raise Unsup("evolving state")
            before = {key: self.it.load(c) for key, c in leaves(r.rec).items()}
            sh = {key: v.shape for key, v in before.items() if isinstance(v, Arr)}
            step(n)
            now = leaves(r.rec)
            if set(now) != set(before):
                raise Unsup("evolving state")
            new = {}
            for key, c in now.items():
                v = self.it.load(c)
                if v is not before[key]:
                    if isinstance(v, Arr) and any(prover.prove_eq(a, b)[0] != "proved" for a, b in zip(v.shape, sh[key])):
                        raise Unsup("evolving shape")
                    new[key] = c
            if not set(new) - set(dyn):
                return
            dyn.update(new)
        raise Unsup("no invariant")

    def object(self, cls):
        """object of a class with arbitrary content (to be restricted by `put`)"""
        for rid, r in enumerate(self.it.R) if isinstance(self.it.R, list) else self.it.R.items():
            if r and (r.get("q") or r.get("n")) == cls:
                return R(self, self.it.new_rec(rid))
        raise Unsup("class " + cls)

    def field(self, r, name):
        """cell of a private member"""
        hit = [c for c in r.rec.cells.values() if c.name == name]
        if not hit:
            raise Unsup("member " + name)
        return hit[-1]

    def get(self, r, name):
        return self.it.load(self.field(r, name))

    def put(self, r, name, v):
        self.it.st[self.field(r, name)] = t_(v) if isinstance(v, (int, bool)) else v

    def counters(self):
        """values of the static counters"""
        return [self.it.load(c) for c in self.it.statics.values()]

    def solution(self):
        """the vector that the direct solver returned in the last call"""
        X, A, b = list(libmod._solves.values())[-1] if libmod._last[0] is None else libmod._solves[libmod._last[0]]
        return lambda k: read(X, t_(k))

    def solved(self, name, res, row, timeout=10000):
        """res == 0 by the contract of the direct solver (sum_c A(row, c) X(c) == b(row))"""
        if self.mute:
            return False
        t0 = time.time()
        best = None
        used = {x.a[0] for x in atoms(t_(res), lambda x: x.op == "read")}
        for X, A, b in list(libmod._solves.values()):
            if X not in used:
                continue
            k = fresh("k")
            fact = sub(sum_((k,), land(ge(k, ZERO), lt(k, A.cols)), mul(A.fn(t_(row), k), read(X, k))), b.read(t_(row)))
            best = prover.prove_eq(t_(res), fact, (), timeout)
            if best[0] == "proved":
                return self._record(name, ("proved", best[1] + " + solver contract", None), time.time() - t0)
        if best is None:
            best = prover.prove_eq(t_(res), ZERO, (), timeout)
        return self._record(name, best, time.time() - t0)

    def modular_inv(self):
        """calls of detail::tensor<nd>::inv are replaced by its contract: returns det(A) and writes the inverse of A
        (det and inverse: functions of the entries of A; their definition is the postcondition of inv, proved separately)"""
        def h(it, f, this, args):
            a, o = it.load(args[0]), args[1]
            nd = cint(a.shape[0])
            if nd not in (2, 3) or len(a.shape) != 2 or args[0] is o or "tensor<%d" % nd not in f["q"] or not isinstance(o, LV):
                return NotImplemented
            J = [a.read(num(i), num(j)) for i in range(nd) for j in range(nd)]
            n = NUpd(NFn(lambda q: ZERO), (None, None), {(num(i), num(j)): ("set", app("inv%d%d%d" % (nd, i, j), "R", *J)) for i in range(nd) for j in range(nd)})
            it.store(o, Arr((num(nd), num(nd)), "R", n))
            return app("det%d" % nd, "R", *J)

        self.it.contracts["GooseFEM::detail::tensor::inv"] = h

    def det(self, J):
        return app("det%d" % len(J), "R", *[x for r in J for x in r])

    def solve_inv(self, J, i, j):
        """sum_k inv(J)(i, k) J(k, j) - delta(i, j): zero if det(J) != 0, by the contract of detail::tensor::inv"""
        n = len(J)
        f = [x for r in J for x in r]
        return sub(rsum(mul(app("inv%d%d%d" % (n, i, k), "R", *f), J[k][j]) for k in range(n)), num(1 if i == j else 0))

    def wrap(self, r):
        if isinstance(r, LV):
            r = self.it.load(r)
        if isinstance(r, Obj) and r.kind == "reduce":
            r = r.d[0]
        if isinstance(r, Obj) and r.kind in ("tuple", "pair"):
            return [self.wrap(x) for x in r.d]
        if isinstance(r, Arr):
            return A(r)
        if isinstance(r, Sp):
            return A2(r)
        if isinstance(r, Vec):
            return [self.wrap(c) for c in r.items]
        if isinstance(r, Rec):
            return R(self, r)
        if isinstance(r, I.Rows):
            return RowsW(self.it.st[r.cnt], self.it.st[r.srt])
        return r

    def run(self, fname, inplace, args, shape, out_dt="R"):
        """call the allocating variant, or the in-place variant on an output with arbitrary content"""
        if not inplace:
            return self.call(fname, *args)
        o = self.arr("out", out_dt, shape)
        c = self.it.new(o.arr, "out")
        self.call(fname, *(list(args) + [c]))
        return self.wrap(self.it.load(c))

    def inrange(self, q, shape):
        return land(*[land(ge(x, ZERO), lt(x, t_(s))) for x, s in zip(q, shape)])

    def setdiff(self, a, b=None):
        return libmod.setdiff(a.arr, b.arr if b is not None else None)

    def distinct(self, a, name="inv"):
        """precondition: the entries of the 1-d array are distinct (an inverse function exists); returns the inverse"""
        n = next_id()
        inv = lambda v: app("%s!%d" % (name, n), "I", v)
        S = a.arr.node.A
        CTX.arrfacts.setdefault(S, []).append(lambda ix: imp(libmod.inr(ix, a.shape), eq(inv(read(S, *ix)), ix[0])))
        CTX.inverse[S] = (inv, a.shape[0])
        CTX.invname["%s!%d" % (name, n)] = (S, a.shape[0])
        return inv

    def unfold(self, a, ix):
        """content of a computed array that was given a name, from its definition (assumes the definition at that index)"""
        d = CTX.defs[a.node.A].read(*ix)
        CTX.assume(imp(libmod.inr(ix, a.shape), eq(a.read(*ix), d)))
        return d

    def witness(self):
        """symbols for the last existential among the assumptions"""
        for f in reversed(CTX.facts):
            if f.op == "exists":
                ren = {v: sym("w!%d" % next_id(), v.a[1]) for v in f.a[0]}
                CTX.assume(subst(f.a[1], ren))
                return [ren[v] for v in f.a[0]]
        raise Unsup("no existential")

    def instance(self, *ts):
        """instances of the universal assumptions"""
        for f in list(CTX.facts):
            if f.op == "forall" and len(f.a[0]) == len(ts):
                CTX.assume(subst(f.a[1], dict(zip(f.a[0], map(t_, ts)))))

    def amax(self, a):
        return libmod.extreme(a.arr, True)

    # --- goals
    def _record(self, name, res, t):
        if self.mute:
            return False
        st, back, detail = res
        self.goals.append({"goal": name, "status": st, "backend": back, "detail": detail, "time": round(t, 3)})
        return st == "proved"

    def eq(self, name, a, b, hints=(), timeout=10000, rewrite=None):
        if self.mute:
            return False
        t0 = time.time()
        res = prover.prove_eq(t_(a), t_(b), hints, timeout, rewrite)
        return self._record(name, res, time.time() - t0)

    def holds(self, name, c, hints=(), timeout=10000):
        if self.mute:
            return False
        t0 = time.time()
        res = prover.prove(t_(c), hints, timeout)
        return self._record(name, res, time.time() - t0)

    def lemma(self, name, c, hints=(), timeout=10000):
        """a proved fact, available for the next goals"""
        if self.mute:
            return False
        if self.holds(name, c, hints, timeout):
            CTX.assume(t_(c))
            return True
        return False

    def digits(self):
        """lemma: a number a1 + m a2 with 0 <= a1 < m has one decomposition.  Returns the instances of the proved lemma"""
        a1, a2, b1, b2, m = vs = [fresh("dig") for _ in range(5)]
        rng = land(ge(a1, ZERO), lt(a1, m), ge(b1, ZERO), lt(b1, m))
        same = eq(add(a1, mul(m, a2)), add(b1, mul(m, b2)))
        ok = True
        for x, y, X, Y in ((a1, b1, a2, b2), (b1, a1, b2, a2)):
            # X < Y: m (Y - X) >= m
            d = fresh("dig")
            ok = self.holds("lemma: product", imp(land(ge(d, ONE), gt(m, ZERO)), ge(mul(m, sub(d, ONE)), ZERO))) and ok
            n = CTX.push(rng, same, lt(X, Y), ge(mul(m, sub(sub(Y, X), ONE)), ZERO))
            try:
                ok = self.holds("lemma: digits of a number", FALSE) and ok
            finally:
                CTX.pop(n)
        body = imp(land(rng, same), land(eq(a1, b1), eq(a2, b2)))

        def use(x1, x2, y1, y2, mm):
            if ok:
                CTX.assume(subst(body, dict(zip(vs, map(t_, (x1, x2, y1, y2, mm))))))

        return use

    def shape(self, name, a, shape):
        sh = a.shape
        if len(sh) != len(shape):
            return self._record(name, ("sat", "shape", "rank %d instead of %d" % (len(sh), len(shape))), 0)
        return self.holds(name, land(*[eq(x, t_(y)) for x, y in zip(sh, shape)]))

    def scope(self, *conds):
        return Scope(conds)

    def bounds(self):
        """element accesses within bounds"""
        it = self.it
        done = {}
        bad = []
        for ln, fs, c in it.bnd:
            key = (ln, c, fs)
            if key in done:
                continue
            keep = CTX.facts
            CTX.facts = list(fs)
            try:
                st, back, d = prover.prove(c, (), 3000)
            finally:
                CTX.facts = keep
            done[key] = st
            if st == "proved":
                it.bnd_ok.add((ln, c))
            else:
                bad.append([str(ln), st, show(c, 200) + " | " + str(d)[:300]])
        return {"discharged": len(it.bnd_ok), "open": bad}

    def exceptions(self):
        """no exception is thrown for inputs that satisfy the precondition"""
        t0 = time.time()
        res = ("proved", "normal form", None)
        keep = CTX.facts
        for c, q, fs in self.it.throws:
            CTX.facts = list(fs)
            try:
                r = prover.prove(lnot(c), (), 5000)
            finally:
                CTX.facts = keep
            if r[0] != "proved":
                res = (r[0], r[1], "exception of %s if %s | %s" % (q, show(c, 300), r[2]))
                break
            res = r
        self._record("no exception is thrown", res, time.time() - t0)

    def independent(self, name):
        """the iterations of all parallel loops that were executed are independent"""
        t0 = time.time()
        res, bad = ("proved", "normal form", None), None
        keep = CTX.facts
        for what, hyp, claim, fs in self.it.races:
            CTX.facts = list(fs)
            n = CTX.push(*hyp)
            try:
                r = prover.prove(claim, (), 10000)
            finally:
                CTX.pop(n)
                CTX.facts = keep
            if r[0] != "proved":
                if bad is None or r[0] == "sat" != bad[0]:
                    bad = (r[0], r[1], "%s | %s" % (what, r[2]))
            elif res[1] == "normal form":
                res = r
        self.goals.append({"goal": name, "status": (bad or res)[0], "backend": (bad or res)[1], "detail": (bad or res)[2], "time": round(time.time() - t0, 3)})

    # vacuity
    def vacuity(self):
        return CTX.satisfiable()


class RowsW:
    """list of lists: number of lists, occurrences of a value in a list, is the list in ascending order"""

    def __init__(self, cnt, srt):
        self.cnt, self.srt = cnt, srt
        self.shape = (srt.shape[0],)

    def count(self, i, v):
        return self.cnt.read(t_(i), t_(v))

    def sorted(self, i):
        return self.srt.read(t_(i))


class Scope:
    def __init__(self, conds):
        self.c = conds

    def __enter__(self):
        self.mark = fresh("scope", "B")
        CTX.facts.append(self.mark)
        CTX.push(*[t_(x) for x in self.c])

    def __exit__(self, *a):
        # everything assumed inside
        for i in reversed(range(len(CTX.facts))):
            if CTX.facts[i] is self.mark:
                del CTX.facts[i:]
                return
        raise Unsup("scope")


class R:
    """record wrapper: field access by name"""

    def __init__(self, S, rec):
        self.S, self.rec = S, rec

    def __getattr__(self, n):
        hit = [c for c in self.rec.cells.values() if c.name == n]
        if not hit:
            raise AttributeError(n)
        return self.S.wrap(self.S.it.load(hit[-1]))


def Sum(S, ranges, f):
    """Sum over fresh binders in [0, n) of f(binders)"""
    bs = tuple(fresh("j") for _ in ranges)
    g = land(*[land(ge(b, ZERO), lt(b, t_(n))) for b, n in zip(bs, ranges)])
    r = f(*bs)
    if isinstance(r, tuple):
        c, v = r
    else:
        c, v = TRUE, r
    return sum_(bs, land(g, c), v)


def rsum(it):
    r = ZERO
    for x in it:
        r = add(r, t_(x))
    return r


def run_contract(data, c, maxtime=None):
    name, f, fns, tier = c
    out = {"contract": name, "goals": [], "error": None}
    t0 = time.time()
    S = None
    try:
        S = Session(data, name)
        f(S)
    except Unsup as ex:
        out["error"] = "unsupported: %s (at %s)" % (ex, S.it.line if S else "?")
    except RecursionError as ex:
        out["error"] = "recursion limit"
        out["trace"] = traceback.format_exc()[-6000:]
    except Exception as ex:
        out["error"] = "engine: %s" % "".join(traceback.format_exception_only(type(ex), ex)).strip()
        out["trace"] = traceback.format_exc()[-3000:]
    if S:
        try:
            if not S.mute:
                S.exceptions()
        except Exception as ex:
            S._record("no exception is thrown", ("unknown", "engine", repr(ex)), 0)
        out["goals"] = S.goals
        it = S.it
        out["functions"] = sorted({"%s (%s)" % (it.F[i]["q"], it.F[i]["loc"]) for i in it.used})
        out["lib"] = sorted(it.libused)
        out["loops"] = [list(x) for x in it.obl]
        out["throws"] = [show(x[0], 120) for x in it.throws]
        out["taint"] = list(CTX.taint)
        out["assumptions"] = sorted(CTX.assumptions)
        out["smt_calls"] = CTX.stats.calls
        out["smt_time"] = round(CTX.stats.time, 3)
        try:
            if not S.mute:
                out["bounds"] = S.bounds()
        except Exception as ex:
            out["bounds"] = {"discharged": len(it.bnd_ok), "open": [["?", "engine", repr(ex)]]}
        if not out["error"]:
            out["vacuity"] = S.vacuity()
    out["time"] = round(time.time() - t0, 3)
    return out
