"""Symbolic array contents.

An array value is (shape, dtype, node); node.read(idx) gives the content term at an index.  Loops over symbolic ranges are
summarised by NLoop nodes (see loops.py for the side conditions that are discharged before such a node is built).
"""
from terms import *
from ctx import CTX


class Unsup(Exception):
    pass


def idx_cmp(i, j):
    """True/False/None: are the two index terms equal"""
    if i is j:
        return True
    d = sub(i, j)
    c = const(d)
    if c is not None:
        return c == 0
    return None


def idx_eq(i, j):
    """bool term, simplified using the context"""
    r = idx_cmp(i, j)
    if r is not None:
        return TRUE if r else FALSE
    e = eq(i, j)
    d = CTX.decide(e)
    if d is not None:
        return TRUE if d else FALSE
    return e


def tup_eq(a, b):
    # cheap disequalities first
    for x, y in zip(a, b):
        if idx_cmp(x, y) is False:
            return FALSE
    r = []
    for x, y in zip(a, b):
        e = idx_eq(x, y)
        if e is FALSE:
            return FALSE
        r.append(e)
    return land(*r)


class Leaf:
    """one (family of) element writes: for all binders satisfying guard: A[idx] (kind) val"""
    __slots__ = ("vs", "guard", "idx", "kind", "val")

    def __init__(self, vs, guard, idx, kind, val):
        self.vs, self.guard, self.idx, self.kind, self.val = tuple(vs), guard, tuple(idx), kind, val

    def map(self, f, fb=None):
        return Leaf(self.vs, f(self.guard), [f(x) for x in self.idx], self.kind, f(self.val))


class Node:
    prev = None

    def chain(self, stop):
        """nodes from self (newest) down to but excluding stop"""
        out = []
        n = self
        while n is not stop:
            if n is None:
                raise Unsup("array history")
            out.append(n)
            n = n.prev
        return out

    def leaves(self, stop):
        out = []
        for n in reversed(self.chain(stop)):
            out += n.own_leaves()
        return out


class NSym(Node):
    def __init__(self, A):
        self.A = A

    def read(self, q):
        return read(self.A, *q)

    def own_leaves(self):
        raise Unsup("leaves of base array")


class NFn(Node):
    def __init__(self, fn, note=""):
        self.fn = fn
        self.memo = {}

    def read(self, q):
        key = (tuple(q), tuple(CTX.facts) if False else None)
        r = self.fn(tuple(q))
        return r

    def own_leaves(self):
        raise Unsup("leaves of computed array")


def sigof(q):
    return tuple(None if x.op == "num" else x for x in q)


class NUpd(Node):
    """overlay of element writes sharing the same symbolic components"""

    def __init__(self, prev, sig, ents):
        self.prev, self.sig, self.ents = prev, sig, ents

    def read(self, q):
        q = tuple(q)
        if sigof(q) == self.sig:
            e = self.ents.get(q)
            if e is None:
                return self.prev.read(q)
            kind, v = e
            return v if kind == "set" else add(self.prev.read(q), v)
        # possibly aliasing
        r = None
        hits = []
        for k, (kind, v) in self.ents.items():
            c = tup_eq(q, k)
            if c is FALSE:
                continue
            hits.append((c, kind, v))
            if c is TRUE:
                break
        if hits and hits[-1][0] is TRUE:
            _, kind, v = hits.pop()
            r = v if kind == "set" else add(self.prev.read(q), v)
            base = None
        else:
            r = base = self.prev.read(q)
        if not hits:
            return r
        p = base if base is not None else self.prev.read(q)
        for c, kind, v in hits:
            r = ite(c, v if kind == "set" else add(p, v), r)
        return r

    def own_leaves(self):
        return [Leaf((), TRUE, k, kind, v) for k, (kind, v) in self.ents.items()]


class NIte(Node):
    def __init__(self, c, a, b, common):
        self.c, self.x, self.y, self.prev = c, a, b, common

    def read(self, q):
        d = CTX.decide(self.c) if self.c.op not in ("true", "false") else self.c is TRUE
        if d is True:
            return self.x.read(q)
        if d is False:
            return self.y.read(q)
        n = CTX.push(self.c)
        try:
            a = self.x.read(q)
        finally:
            CTX.pop(n)
        nc = lnot(self.c)
        n = CTX.push(nc)
        try:
            b = self.y.read(q)
        finally:
            CTX.pop(n)
        return ite(self.c, a, b)

    def own_leaves(self):
        out = []
        for n, c in ((self.x, self.c), (self.y, lnot(self.c))):
            for l in n.leaves(self.prev):
                out.append(Leaf(l.vs, land(l.guard, c), l.idx, l.kind, l.val))
        return out


class NRegion(Node):
    """assignment to a rectangular region: spec per axis ('i', term) | ('r', start, n)"""

    def __init__(self, prev, spec, val, kind="set"):
        self.prev, self.spec, self.val, self.kind = prev, spec, val, kind

    def read(self, q):
        c = []
        sub_ = []
        for s, x in zip(self.spec, q):
            if s[0] == "i":
                e = idx_eq(x, s[1])
                if e is FALSE:
                    return self.prev.read(q)
                c.append(e)
            else:
                st, n, inc = s[1], s[2], s[3]
                o = sub(x, st)
                if inc == 1:
                    g = [ge(o, ZERO), lt(o, n)]
                    j = o
                else:
                    j = div(o, num(inc), CTX.decide)
                    g = [ge(o, ZERO), lt(j, n), eq(mul(num(inc), j), o)]
                for z in g:
                    d = CTX.decide(z)
                    if d is False:
                        return self.prev.read(q)
                    if d is None:
                        c.append(z)
                sub_.append(j)
        c = land(*c)
        if self.kind == "set":
            if c is TRUE:
                return self.val(tuple(sub_))
            return ite(c, self.val(tuple(sub_)), self.prev.read(q))
        p = self.prev.read(q)
        return ite(c, add(p, self.val(tuple(sub_))), p)

    def own_leaves(self):
        vs, g, idx, bs = [], [], [], []
        for s in self.spec:
            if s[0] == "i":
                idx.append(s[1])
            else:
                n = cint(s[2])
                b = fresh("r")
                vs.append(b)
                bs.append(b)
                g += [ge(b, ZERO), lt(b, s[2])]
                idx.append(add(s[1], mul(num(s[3]), b)))
        return [Leaf(vs, land(*g), idx, self.kind, self.val(tuple(bs)))]


def upd(node, q, kind, v):
    """write one element"""
    q = tuple(q)
    sig = sigof(q)
    if kind == "set":
        # A[q] = A[q] + rest  ->  add
        pass
    if isinstance(node, NUpd) and node.sig == sig and not getattr(node, "frozen", False):
        ents = dict(node.ents) if len(node.ents) < 1 else node.ents
        # persistent: copy-on-write of small dictionaries
        ents = dict(node.ents)
        old = ents.pop(q, None)
        if kind == "set":
            ents[q] = ("set", v)
        else:
            if old is None:
                ents[q] = ("add", v)
            else:
                ents[q] = (old[0], add(old[1], v))
        return NUpd(node.prev, sig, ents)
    return NUpd(node, sig, {q: (kind, v)})


class Arr:
    """immutable array value"""
    __slots__ = ("shape", "dt", "node", "tag")

    def __init__(self, shape, dt, node, tag=None):
        self.shape, self.dt, self.node, self.tag = tuple(shape), dt, node, tag

    def read(self, *q):
        return self.node.read(tuple(q))

    @property
    def nd(self):
        return len(self.shape)

    def with_node(self, n):
        return Arr(self.shape, self.dt, n, self.tag)

    def size(self):
        r = ONE
        for s in self.shape:
            r = mul(r, s)
        return r

    def cshape(self):
        return tuple(cint(s) for s in self.shape)

    def elems(self):
        """all index tuples for a concrete shape"""
        cs = self.cshape()
        if None in cs:
            raise Unsup("symbolic shape")
        return [tuple(num(x) for x in ix) for ix in itertools.product(*[range(c) for c in cs])]


def new_arr(name, shape, dt):
    A = ArrSym("%s!%d" % (name, next(_fresh)), len(shape), dt)
    return Arr(shape, dt, NSym(A))


from terms import _fresh


def const_arr(shape, dt, v):
    return Arr(shape, dt, NFn(lambda q: v))


def vec(vals, dt="I"):
    """1-d array with concrete length from a list of terms"""
    node = NFn(lambda q: ZERO)
    n = NUpd(node, (None,), {(num(i),): ("set", v) for i, v in enumerate(vals)})
    return Arr((num(len(vals)),), dt, n)


def veclist(a):
    n = cint(a.shape[0])
    if n is None:
        raise Unsup("vector of symbolic length")
    return [a.read(num(i)) for i in range(n)]


def flat_index(shape, q):
    r = ZERO
    for s, x in zip(shape, q):
        r = add(mul(r, s), x)
    return r


def unflat(shape, f):
    """multi-index of a flat (row-major) index"""
    q = []
    rest = f
    for d in range(len(shape) - 1, 0, -1):
        q.append(mod(rest, shape[d], CTX.decide))
        rest = div(rest, shape[d], CTX.decide)
    q.append(rest)
    return tuple(reversed(q))


def common_node(a, b):
    seen = set()
    n = a
    while n is not None:
        seen.add(id(n))
        n = n.prev
    n = b
    while n is not None:
        if id(n) in seen:
            return n
        n = n.prev
    return None


def merge_arr(c, a, b):
    if a is b:
        return a
    if len(a.shape) != len(b.shape):
        raise Unsup("merge of arrays of different rank")
    shape = tuple(x if x is y else ite(c, x, y) for x, y in zip(a.shape, b.shape))
    if a.node is b.node:
        return Arr(shape, a.dt, a.node)
    return Arr(shape, a.dt, NIte(c, a.node, b.node, common_node(a.node, b.node)))


# ------------------------------------------------------------------ triplet bags (std::vector<Eigen::Triplet>)
class Bag:
    """multiset of triplets: sum(r, c) is the accumulated value at (r, c)"""
    prev = None

    def chain(self, stop):
        out = []
        n = self
        while n is not stop:
            if n is None:
                raise Unsup("triplet history")
            out.append(n)
            n = n.prev
        return out

    def leaves(self, stop=None):
        out = []
        for n in reversed(self.chain(stop)):
            out += n.own_leaves()
        return out


class BEmpty(Bag):
    def own_leaves(self):
        return []


class BSym(Bag):
    def own_leaves(self):
        raise Unsup("unknown triplets")


class BPush(Bag):
    def __init__(self, prev, r, c, v):
        self.prev, self.t = prev, (r, c, v)

    def own_leaves(self):
        r, c, v = self.t
        return [Leaf((), TRUE, (r, c), "add", v)]


class BIte(Bag):
    def __init__(self, c, a, b, common):
        self.c, self.x, self.y, self.prev = c, a, b, common

    def own_leaves(self):
        out = []
        for n, c in ((self.x, self.c), (self.y, lnot(self.c))):
            for l in n.leaves(self.prev):
                out.append(Leaf(l.vs, land(l.guard, c), l.idx, "add", l.val))
        return out


class BLoop(Bag):
    def __init__(self, prev, lv):
        self.prev, self.lv = prev, lv

    def own_leaves(self):
        return self.lv


def bag_sum(leaves, q):
    r = ZERO
    for l in leaves:
        c = tup_eq_raw(q, l.idx)
        if c is FALSE:
            continue
        ren = {v: fresh("t") for v in l.vs}
        r = add(r, sum_(tuple(ren.values()), subst(land(l.guard, c), ren), subst(l.val, ren)))
    return r


def tup_eq_raw(a, b):
    return land(*[eq(x, y) for x, y in zip(a, b)])


# ------------------------------------------------------------------ loop summaries
def quotient(x, W):
    """x div W; if its digits are known from the form of x and the facts: without division"""
    kk = div(x, W, CTX.decide)
    if kk.op != "div":
        return kk
    W_ = P(W)
    for lead in sorted((m for m in W_ if sum(e for _, e in m) == 1), key=lambda m: m[0][0].id):
        v, q = lead[0][0], {}
        for m, c in P(x).items():
            d = dict(m)
            if d.get(v) == 1 and Fraction(c, W_[lead]).denominator == 1:
                del d[v]
                q[tuple(y for y in m if y[0] is not v)] = Fraction(c, W_[lead])
        if q:
            kk2 = fromP(q)
            r = sub(x, mul(kk2, W))
            if CTX.decide(land(ge(r, ZERO), lt(r, W)), timeout=2000) is True:
                return kk2
    return kk


class NLoop(Node):
    """summary of a loop's effect on one array.  mode 'own': iteration k writes only where own(q) == k;
    mode 'add': all writes are additive; mode 'sk': overlapping assignments (value of *a* matching write)"""

    def __init__(self, prev, k, rng, body, H, mode, info, lv, fix):
        self.prev, self.k, self.rng, self.body, self.H = prev, k, rng, body, H
        self.mode, self.info, self.lv, self.fix = mode, info, lv, fix
        self.memo = {}

    def own_leaves(self):
        out = []
        for l in self.lv:
            out.append(Leaf((self.k,) + l.vs, land(self.rng, l.guard), l.idx, l.kind, l.val))
        return out

    def read(self, q):
        q = tuple(q)
        key = (q, tuple(CTX.facts))
        r = self.memo.get(key)
        if r is None:
            r = self._read(q)
            self.memo[key] = r
        return r

    def _read(self, q):
        prev = self.prev
        k = self.k
        if self.mode == "own":
            c, W, off = self.info
            x = sub(q[c], off)
            if W is ONE:
                kk = x
                qc = add(k, off)
                extra = {}
            elif cint(W) == -1:
                kk = neg(x)
                qc = sub(off, k)
                extra = {}
            else:
                kk = quotient(x, W)
                rr = sub(x, mul(kk, W))
                rs = fresh("o")
                extra = {rs: rr}
                qc = add(mul(k, W), off, rs)
            rng = subst(self.rng, {k: kk})
            if W is not ONE and cint(W) != -1:
                rng = land(rng, ge(x, ZERO))
            d = decide_conj(rng)
            if d is False:
                return prev.read(q)
            # the other components of q may mention k-free terms only
            q2 = q[:c] + (qc,) + q[c + 1:]
            n = CTX.push(self.rng)
            if extra:
                n += CTX.push(land(ge(rs, ZERO), lt(rs, W)))
            try:
                t = self.fix(self.body.read(q2))
            finally:
                CTX.pop(n)
            t = self._noH(t, prev)
            m = {k: kk}
            m.update(extra)
            t = subst(t, m)
            if d is True:
                return t
            return ite(rng, t, prev.read(q))
        if self.mode == "ownseq":
            c, g, B, a, N = self.info
            p = q[c]
            arrs = {x for x in fv(g(k)) if isinstance(x, ArrSym)}
            cand = []
            for r in atoms(p, lambda x: x.op == "read" and len(x.a) == 2 and x.a[0] in arrs):
                for x in (r.a[1], sub(r.a[1], ONE), add(r.a[1], ONE)):
                    if x not in cand:
                        cand.append(x)
            outside = lambda: CTX.decide(lt(p, g(a)), timeout=2000) is True or CTX.decide(ge(p, g(N)), timeout=2000) is True or CTX.decide(le(N, a)) is True
            cond = TRUE
            for x in cand:
                rng = subst(self.rng, {k: x})
                d = decide_conj(rng)
                if d is False:
                    continue
                n = CTX.push(rng)
                try:
                    inside = decide_conj(land(ge(p, g(x)), lt(p, g(add(x, ONE))))) is True
                finally:
                    CTX.pop(n)
                if inside and d is None:
                    n = CTX.push(lnot(rng))
                    try:
                        inside = all(alt(outside, y) for y in disj(lnot(rng)))
                    finally:
                        CTX.pop(n)
                    cond = rng
                if inside:
                    kk = x
                    break
            else:
                if outside():
                    return prev.read(q)
                raise Unsup("layer of index %s" % show(p))
            rs = fresh("o")
            q2 = q[:c] + (add(B, rs),) + q[c + 1:]
            n = CTX.push(self.rng, ge(rs, ZERO), lt(rs, sub(g(add(k, ONE)), g(k))), eq(k, kk), eq(rs, sub(p, g(kk))), eq(B, g(k)))
            try:
                t = self.fix(self.body.read(q2), {k: kk, rs: sub(p, g(kk))})
            finally:
                CTX.pop(n)
            t = self._noH(t, prev)
            return t if cond is TRUE else ite(cond, t, prev.read(q))
        if self.mode == "owninv":
            c, S, off = self.info
            inv, length = CTX.inverse[S]
            x = sub(q[c], off)
            if x.op == "read" and x.a[0] is S and decide_conj(land(ge(x.a[1], ZERO), lt(x.a[1], length))) is True:
                kk = x.a[1]
                rng = subst(self.rng, {k: kk})
            else:
                kk = inv(x)
                rng = land(ge(kk, ZERO), lt(kk, length), eq(read(S, kk), x), subst(self.rng, {k: kk}))
            d = decide_conj(rng)
            if d is False:
                return prev.read(q)
            q2 = q[:c] + (add(read(S, k), off),) + q[c + 1:]
            n = CTX.push(self.rng)
            try:
                t = self.body.read(q2)
            finally:
                CTX.pop(n)
            t = self._noH(self.fix(t), prev)
            t = subst(t, {k: kk})
            if d is True:
                return t
            return ite(rng, t, prev.read(q))
        if self.mode == "ownflat":
            shape, W, off, comps, rests = self.info
            f = flat_index(shape, q)
            size = flat_index(shape, [sub(x, ONE) for x in shape])
            kk = sub(f, off) if W is ONE else sub(off, f)
            rng = subst(self.rng, {k: kk})
            n = CTX.push(ge(f, ZERO), le(f, size))
            try:
                d = decide_conj(rng)
            finally:
                CTX.pop(n)
            if d is False:
                return prev.read(q)
            n = CTX.push(self.rng)
            try:
                t = self.body.read(comps)
            finally:
                CTX.pop(n)
            t = self._noH(self.fix(t), prev)
            memo = {}
            for c, x in zip(comps, q):
                if c.op in ("div", "mod"):
                    memo[c] = x
            for j, r in enumerate(rests):
                if r.op in ("div", "mod"):
                    memo[r] = flat_index(shape[:j + 1], q[:j + 1])
            t = subst(t, {k: kk}, None, memo)
            if d is True:
                return t
            return ite(rng, t, prev.read(q))
        if self.mode == "add":
            r = prev.read(q)
            return add(r, bag_sum(self.own_leaves(), q))
        if self.mode == "sk":
            name, params = self.info
            args = tuple(q) + params
            E = app("E" + name, "B", *args)
            d = CTX.decide(E)
            if d is False:
                return prev.read(q)
            # value: leaf values at the skolem point
            lv = self.own_leaves()
            v = None
            for i, l in reversed(list(enumerate(lv))):
                sk = {b: app("s%s_%d_%d" % (name, i, j), "I", *args) for j, b in enumerate(l.vs)}
                t = subst(l.val, sk)
                if v is None:
                    v = t
                else:
                    v = ite(eq(app("w" + name, "I", *args), num(i)), t, v)
            if d is True:
                return v
            return ite(E, v, prev.read(q))
        raise Unsup("loop mode")

    def _noH(self, t, prev):
        if self.H in fv(t):
            return subst(t, {}, {self.H: lambda idx: prev.read(idx)})
        return t


def alt(f, c):
    n = CTX.push(c)
    try:
        return f()
    finally:
        CTX.pop(n)


def disj(c):
    return [y for x in c.a for y in disj(x)] if c.op == "or" else [c]


def decide_conj(c):
    """decide a conjunction literal by literal"""
    r = True
    for x in conj(c):
        d = CTX.decide(x)
        if d is False:
            return False
        if d is None:
            r = None
    return r


class NHavoc(Node):
    pass
