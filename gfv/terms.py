"""Hash-consed terms: mathematical integers, reals and booleans.

Numeric terms are kept in polynomial normal form over atoms (symbols, array reads, finite sums, ite, div/mod, applications).
"""
from fractions import Fraction
import itertools

_tab = {}
_cnt = itertools.count(1)


class ArrSym:
    __slots__ = ("name", "nd", "dt", "id")

    def __init__(self, name, nd, dt):
        self.name, self.nd, self.dt, self.id = name, nd, dt, next(_cnt)

    def __repr__(self):
        return self.name


class T:
    __slots__ = ("op", "a", "id", "_fv", "_int", "_d", "_n")

    def __repr__(self):
        return show(self)


def mk(op, a):
    key = (op, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id = op, a, next(_cnt)
        t._fv = None
        t._int = None
        t._d = None
        t._n = None
        _tab[key] = t
    return t


# T instances hash by identity (default object hash) which is right since they are hash-consed
TRUE = mk("true", ())
FALSE = mk("false", ())


def num(v):
    return mk("num", (Fraction(v),))


ZERO = num(0)
ONE = num(1)
_fresh = itertools.count(1)


def sym(name, sort="I"):
    return mk("sym", (name, sort))


def fresh(base, sort="I"):
    r = mk("sym", ("%s!%d" % (base, next(_fresh)), sort))
    FRESH.add(r)
    return r


FRESH = set()


def isbool(t):
    return t.op in ("true", "false", "and", "or", "not", "ge0", "gt0", "eq0", "bapp", "exists", "forall", "bite") or (
        t.op == "sym" and t.a[1] == "B") or (t.op == "read" and t.a[0].dt == "B")


def isnum(t):
    return t.op == "num"


def const(t):
    """concrete value of a numeric term or None"""
    return t.a[0] if t.op == "num" else None


def cint(t):
    if t.op == "num" and t.a[0].denominator == 1:
        return int(t.a[0])
    return None


def is_int(t):
    if t._int is None:
        op = t.op
        if op == "num":
            r = t.a[0].denominator == 1
        elif op == "sym":
            r = t.a[1] == "I"
        elif op == "poly":
            r = all(c.denominator == 1 and all(e > 0 and is_int(x) for x, e in m) for m, c in t.a)
        elif op == "read":
            r = t.a[0].dt == "I"
        elif op in ("div", "mod"):
            r = True
        elif op == "ite":
            r = is_int(t.a[1]) and is_int(t.a[2])
        elif op == "sum":
            r = is_int(t.a[2])
        elif op == "app":
            r = t.a[1] == "I"
        else:
            r = False
        t._int = r
    return t._int


EMPTY = frozenset()


def fv(t):
    """free symbols (T of op sym) and array symbols"""
    if t._fv is None:
        op = t.op
        if op == "sym":
            r = frozenset([t])
        elif op in ("num", "true", "false"):
            r = EMPTY
        elif op == "poly":
            s = set()
            for m, c in t.a:
                for x, e in m:
                    s |= fv(x)
            r = frozenset(s)
        elif op == "read":
            s = {t.a[0]}
            for x in t.a[1:]:
                s |= fv(x)
            r = frozenset(s)
        elif op == "sum":
            s = set(fv(t.a[2]))
            for g in t.a[1]:
                s |= fv(g)
            r = frozenset(s - set(t.a[0]))
        elif op in ("exists", "forall"):
            r = frozenset(fv(t.a[1]) - set(t.a[0]))
        elif op in ("app", "bapp"):
            s = set()
            for x in t.a[2:]:
                s |= fv(x)
            r = frozenset(s)
        else:
            s = set()
            for x in t.a:
                s |= fv(x)
            r = frozenset(s)
        t._fv = r
    return t._fv


# ---------------------------------------------------------------- polynomials
def P(t):
    """dict monomial -> coefficient"""
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a)
    return {((t, 1),): Fraction(1)}


def fromP(d):
    items = [(m, c) for m, c in d.items() if c]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    return mk("poly", tuple(items))


def add(*ts):
    if len(ts) == 2:
        a, b = ts
        if a is ZERO:
            return b
        if b is ZERO:
            return a
    d = {}
    for t in ts:
        if t.op == "num":
            d[()] = d.get((), 0) + t.a[0]
        elif t.op == "poly":
            for m, c in t.a:
                d[m] = d.get(m, 0) + c
        else:
            m = ((t, 1),)
            d[m] = d.get(m, 0) + 1
    return fromP(d)


def scale(c, t):
    if c == 1:
        return t
    if c == 0:
        return ZERO
    if t.op == "num":
        return num(c * t.a[0])
    if t.op == "poly":
        if len(t.a) == 1:
            return fromP({t.a[0][0]: c * t.a[0][1]})
        return mk("poly", tuple((m, c * k) for m, k in t.a))
    return mk("poly", ((((t, 1),), Fraction(c)),))


def neg(t):
    return scale(Fraction(-1), t)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for x, e in m2:
        e2 = d.get(x, 0) + e
        if e2:
            d[x] = e2
        else:
            del d[x]
    # sqrt(c)^2 = c
    return tuple(sorted(d.items(), key=lambda xe: xe[0].id))


def mul(a, b):
    if a.op == "num":
        return scale(a.a[0], b)
    if b.op == "num":
        return scale(b.a[0], a)
    if a is not b and (a.op in ("ite", "poly", "sum") or b.op in ("ite", "poly", "sum")):
        pass
    d = {}
    pa, pb = P(a), P(b)
    extra = []
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mmul(m1, m2)
            c = c1 * c2
            s = _sqrt_red(m)
            if s is not None:
                extra.append(scale(c, s))
                continue
            d[m] = d.get(m, 0) + c
    r = fromP(d)
    if extra:
        r = add(r, *extra)
    return r


def _sqrt_red(m):
    """reduce sqrt(p)^2 -> p"""
    for x, e in m:
        if x.op == "app" and x.a[0] == "sqrt" and (e >= 2 or e <= -2):
            rest = tuple((y, f) for y, f in m if y is not x)
            k = int(e / 2) if e > 0 else -int(-e / 2)
            e2 = e - 2 * k
            r = fromP({rest: Fraction(1)})
            if e2:
                r = mul(r, fromP({((x, e2),): Fraction(1)}))
            base = x.a[2]
            if k > 0:
                for _ in range(k):
                    r = mul(r, base)
            else:
                for _ in range(-k):
                    r = mul(r, inv(base))
            return r
    return None


def inv(t):
    if t.op == "num":
        if t.a[0] == 0:
            return app("inv0", "R")
        return num(Fraction(1) / t.a[0])
    if t.op == "poly":
        if len(t.a) == 1:
            m, c = t.a[0]
            return fromP({tuple((x, -e) for x, e in m): Fraction(1) / c})
        # normalise the leading coefficient to 1
        c = t.a[0][1]
        q = scale(Fraction(1) / c, t)
        w = mk("patom", (q,))
        return fromP({((w, -1),): Fraction(1) / c})
    return fromP({((t, -1),): Fraction(1)})


def div_real(a, b):
    return mul(a, inv(b))


def app(name, sort, *args):
    if name == "sqrt" and args[0].op == "num":
        v = args[0].a[0]
        if v >= 0:
            import math
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n * n == v.numerator and d * d == v.denominator:
                return num(Fraction(n, d))
            if v.denominator != 1:
                # sqrt(p/q) = sqrt(p*q)/q
                return scale(Fraction(1, v.denominator), app("sqrt", "R", num(v.numerator * v.denominator)))
            k, f = int(v), 1
            p = 2
            while p * p <= k:
                while k % (p * p) == 0:
                    k //= p * p
                    f *= p
                p += 1
            if f > 1:
                return scale(Fraction(f), app("sqrt", "R", num(k)))
    if sort == "B":
        return mk("bapp", (name, sort) + tuple(args))
    return mk("app", (name, sort) + tuple(args))


def power(a, n):
    if n < 0:
        return inv(power(a, -n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def polydiv(p, w):
    """p = w*q + r by (multivariate) long division on a fixed leading monomial of w"""
    cw = const(w)
    if cw is not None and cw != 0:
        # integer coefficients only
        q, r = {}, {}
        for m, c in P(p).items():
            if m == ():
                continue
            k = Fraction(c) / cw
            if k.denominator == 1:
                q[m] = k
            else:
                r[m] = c
        c0 = P(p).get((), Fraction(0))
        if c0.denominator == 1:
            k = c0.numerator // cw.numerator if cw.denominator == 1 else 0
            if k:
                q[()] = Fraction(k)
            if c0 - k * cw:
                r[()] = c0 - k * cw
        else:
            r[()] = c0
        return fromP(q), fromP(r)
    pw = P(w)
    # leading monomial: highest total degree, then largest id order
    lm = max(pw, key=lambda m: (sum(e for _, e in m), tuple((x.id, e) for x, e in m)))
    lc = pw[lm]
    q = ZERO
    r = p
    for _ in range(50):
        pr = P(r)
        hit = None
        for m, c in pr.items():
            d = dict(m)
            ok = True
            for x, e in lm:
                if d.get(x, 0) < e:
                    ok = False
                    break
            if ok and (Fraction(c) / lc).denominator == 1:
                hit = (m, c)
                break
        if hit is None:
            break
        m, c = hit
        mm = mmul(m, tuple((x, -e) for x, e in lm))
        f = fromP({mm: Fraction(c) / lc})
        q = add(q, f)
        r = sub(r, mul(f, w))
        if len(P(r)) > 60:
            break
    return q, r


def div(a, b, decide=None):
    """natural-number division"""
    ca, cb = cint(a), cint(b)
    if cb == 1:
        return a
    if ca is not None and cb not in (None, 0):
        return num(ca // cb)
    if cb == 0:
        return mk("div", (a, b))
    q, r = polydiv(a, b)
    if q is not ZERO:
        if r is ZERO:
            return q
        if decide and decide(ge(r, ZERO)) is True and decide(lt(r, b)) is True:
            return q
        if decide and decide(lt(r, ZERO)) is True and decide(ge(add(r, b), ZERO)) is True:
            return sub(q, ONE)
        if decide and decide(ge(r, b)) is True and decide(lt(r, scale(Fraction(2), b))) is True:
            return add(q, ONE)
    elif decide and decide(ge(a, ZERO)) is True and decide(lt(a, b)) is True:
        return ZERO
    return mk("div", (a, b))


def mod(a, b, decide=None):
    d = div(a, b, decide)
    if d.op == "div" and d.a == (a, b):
        ca, cb = cint(a), cint(b)
        return mk("mod", (a, b))
    return sub(a, mul(d, b))


# ---------------------------------------------------------------- booleans
def lnot(t):
    r = t._n
    if r is None:
        r = t._n = _lnot(t)
    return r


def _lnot(t):
    op = t.op
    if op == "true":
        return FALSE
    if op == "false":
        return TRUE
    if op == "not":
        return t.a[0]
    if op == "ge0":
        p = t.a[0]
        if is_int(p):
            return ge0(sub(neg(p), ONE))
        return gt0(neg(p))
    if op == "gt0":
        return ge0(neg(t.a[0]))
    if op == "and":
        return lor(*[lnot(x) for x in t.a])
    if op == "or":
        return land(*[lnot(x) for x in t.a])
    if op == "forall":
        return exists(t.a[0], lnot(t.a[1]))
    if op == "exists":
        return forall(t.a[0], lnot(t.a[1]))
    return mk("not", (t,))


def _flat(op, ts):
    s = {}
    for t in ts:
        if t.op == op:
            for x in t.a:
                s[x] = 1
        else:
            s[t] = 1
    return s


def land(*ts):
    s = _flat("and", ts)
    s.pop(TRUE, None)
    if FALSE in s:
        return FALSE
    for t in s:
        if lnot_cheap(t) in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda x: x.id)))


def lor(*ts):
    s = _flat("or", ts)
    s.pop(FALSE, None)
    if TRUE in s:
        return TRUE
    for t in s:
        if lnot_cheap(t) in s:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s))
    return mk("or", tuple(sorted(s, key=lambda x: x.id)))


def lnot_cheap(t):
    if t.op in ("and", "or", "exists", "forall"):
        return None
    return lnot(t)


def imp(a, b):
    return lor(lnot(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return lnot(b)
    if b is FALSE:
        return lnot(a)
    return land(imp(a, b), imp(b, a))


def ge0(p):
    c = const(p)
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if is_int(p) and p.op == "poly":
        # divide by gcd, floor the constant
        import math
        g = 0
        for m, k in p.a:
            if m:
                g = math.gcd(g, abs(k.numerator))
        if g > 1:
            d = {m: Fraction(k) / g for m, k in p.a if m}
            c0 = P(p).get((), Fraction(0))
            f = Fraction(c0.numerator // g)
            if f:
                d[()] = f
            p = fromP(d)
    return mk("ge0", (p,))


def gt0(p):
    c = const(p)
    if c is not None:
        return TRUE if c > 0 else FALSE
    if is_int(p):
        return ge0(sub(p, ONE))
    return mk("gt0", (p,))


def ge(a, b):
    return ge0(sub(a, b))


def gt(a, b):
    return gt0(sub(a, b))


def le(a, b):
    return ge(b, a)


def lt(a, b):
    return gt(b, a)


def eq(a, b):
    if a is b:
        return TRUE
    if isbool(a) or isbool(b):
        return iff(a, b)
    p = sub(a, b)
    c = const(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    if p.op == "poly":
        k = p.a[0][1]
        if is_int(p):
            import math
            g = 0
            for m, kk in p.a:
                g = math.gcd(g, abs(kk.numerator)) if m else g
            c0 = P(p).get((), Fraction(0))
            if g > 1 and c0 % g != 0:
                return FALSE
            gg = 0
            for m, kk in p.a:
                gg = math.gcd(gg, abs(kk.numerator))
            s = 1 if k > 0 else -1
            p = scale(Fraction(s, gg), p)
        else:
            p = scale(Fraction(1) / k, p)
    if p.op == "sum" and const(p.a[2]) is not None:
        # a count vanishes exactly if there is nothing to count
        return forall(p.a[0], lnot(land(*p.a[1])))
    return mk("eq0", (p,))


def ne(a, b):
    return lnot(eq(a, b))


def forall(vs, body):
    vs = tuple(v for v in vs if v in fv(body))
    if not vs or body.op in ("true", "false"):
        return body
    return mk("forall", (vs, body))


def exists(vs, body):
    vs = tuple(v for v in vs if v in fv(body))
    if not vs or body.op in ("true", "false"):
        return body
    if body.op == "or":
        return lor(*[exists(vs, x) for x in body.a])
    # one-point rule
    r = one_point(vs, conj(body))
    if r is not None:
        vs2, s, rest = r
        return exists(vs2, land(*rest))
    return mk("exists", (vs, body))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isbool(a) or isbool(b):
        return lor(land(c, a), land(lnot(c), b))
    if c.op in ("not",) :
        return ite(c.a[0], b, a)
    # collapse nested same condition
    if a.op == "ite" and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == "ite" and b.a[0] is c:
        return ite(c, a, b.a[2])
    if c.op == "eq0":
        pass
    return mk("ite", (c, a, b))


def read(A, *idx):
    return mk("read", (A,) + tuple(idx))


def conj(c):
    if c is TRUE:
        return []
    return list(c.a) if c.op == "and" else [c]


def solve_for(v, p):
    """p == 0, linear in v with coefficient +-1 and no other occurrence of v: return the term for v"""
    d = P(p)
    co = d.get(((v, 1),))
    if co is None or (co not in (1, -1)):
        return None
    rest = dict(d)
    del rest[((v, 1),)]
    r = fromP(rest)
    if v in fv(r):
        return None
    return scale(Fraction(-1) / co, r)


def one_point(vs, lits):
    for g in lits:
        if g.op == "eq0":
            f = fv(g)
            for v in vs:
                if v in f:
                    s = solve_for(v, g.a[0])
                    if s is not None:
                        m = {v: s}
                        rest = [subst(x, m) for x in lits if x is not g]
                        return tuple(x for x in vs if x is not v), m, rest
    return None


def sum_(vs, guard, body):
    """sum over integer binders vs satisfying guard (a bool term) of body; returns a numeric term"""
    if body is ZERO or guard is FALSE:
        return ZERO
    if guard.op == "or":
        # disjoint split
        out, seen = [], TRUE
        for g in guard.a:
            out.append(sum_(vs, land(g, seen), body))
            seen = land(seen, lnot(g))
        return add(*out)
    lits = conj(guard)
    vs = tuple(vs)
    # one-point rule
    r = one_point(vs, lits)
    if r is not None:
        vs2, m, rest = r
        return sum_(vs2, land(*rest), subst(body, m))
    if not vs:
        return ite(guard, body, ZERO)
    # free guards out
    vset = set(vs)
    out = [g for g in lits if not (fv(g) & vset)]
    if out:
        lits = [g for g in lits if fv(g) & vset]
        return ite(land(*out), sum_(vs, land(*lits), body), ZERO)
    g = land(*lits)
    res = []
    for m, c in P(body).items():
        # ite factor -> split
        f = None
        for x, e in m:
            if x.op == "ite" and e == 1 and (fv(x.a[0]) & vset):
                f = x
                break
        if f is not None:
            rest = fromP({tuple((y, k) for y, k in m if y is not f): c})
            res.append(sum_(vs, land(g, f.a[0]), mul(rest, f.a[1])))
            if f.a[2] is not ZERO:
                res.append(sum_(vs, land(g, lnot(f.a[0])), mul(rest, f.a[2])))
            continue
        # inner sum factor -> flatten
        f = None
        for x, e in m:
            if x.op == "sum" and e == 1 and (fv(x) & vset):
                f = x
                break
        if f is not None:
            rest = fromP({tuple((y, k) for y, k in m if y is not f): c})
            iv, ig, ib = f.a
            ren = {v: fresh("b") for v in iv}
            res.append(sum_(vs + tuple(ren[v] for v in iv), land(g, *[subst(x, ren) for x in ig]), mul(rest, subst(ib, ren))))
            continue
        ins = tuple((x, e) for x, e in m if fv(x) & vset)
        outm = tuple((x, e) for x, e in m if not (fv(x) & vset))
        res.append(mul(fromP({outm: c}), _mksum(vs, g, fromP({ins: Fraction(1)}))))
    return add(*res)


def _mksum(vs, g, body):
    lits = conj(g)
    # depth-based canonical binders
    d = depth(body)
    for x in lits:
        d = max(d, depth(x))
    used = [v for v in vs if v in fv(body) or any(v in fv(x) for x in lits)]
    if len(used) < len(vs):
        return app("infsum", "R", body)
    # order of binders: by first appearance in a structural walk of guards+body would be better; keep given order
    ren = {v: sym("$%d_%d" % (d, i), "I") for i, v in enumerate(vs)}
    lits = sorted([subst(x, ren) for x in lits], key=lambda x: x.id)
    return mk("sum", (tuple(ren[v] for v in vs), tuple(lits), subst(body, ren)))


def depth(t):
    if t._d is None:
        op = t.op
        if op in ("num", "sym", "true", "false"):
            r = 0
        elif op == "poly":
            r = max((depth(x) for m, c in t.a for x, e in m), default=0)
        elif op == "sum":
            r = 1 + max([depth(t.a[2])] + [depth(g) for g in t.a[1]])
        elif op in ("exists", "forall"):
            r = depth(t.a[1])
        else:
            r = max((depth(x) for x in t.a if isinstance(x, T)), default=0)
        t._d = r
    return t._d


# ---------------------------------------------------------------- substitution
def subst(t, m, am=None, memo=None):
    """m: sym -> term; am: ArrSym -> fn(idx tuple)->term"""
    if memo is None:
        memo = {}
    keys = set(m)
    if am:
        keys |= set(am)
    return _subst(t, m, am, memo, keys)


def _subst(t, m, am, memo, keys):
    f = fv(t)
    if not (f & keys if len(f) < len(keys) else keys & f):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    S = lambda x: _subst(x, m, am, memo, keys)
    if op == "sym":
        r = m.get(t, t)
    elif op == "poly":
        simple = True
        parts = []
        for mo, c in t.a:
            cur = None
            for x, e in mo:
                y = S(x)
                pe = y if e == 1 else power(y, e)
                cur = pe if cur is None else mul(cur, pe)
            parts.append(scale(c, cur) if cur is not None else num(c))
        r = add(*parts)
    elif op == "read":
        idx = tuple(S(x) for x in t.a[1:])
        r = am[t.a[0]](idx) if am and t.a[0] in am else read(t.a[0], *idx)
    elif op == "div":
        r = div(S(t.a[0]), S(t.a[1]))
    elif op == "mod":
        r = mod(S(t.a[0]), S(t.a[1]))
    elif op == "ite":
        c = S(t.a[0])
        if c is TRUE:
            r = S(t.a[1])
        elif c is FALSE:
            r = S(t.a[2])
        else:
            r = ite(c, S(t.a[1]), S(t.a[2]))
    elif op == "sum":
        vs = t.a[0]
        # canonical binder names could be captured: rename to fresh
        ren = {v: fresh("b") for v in vs}
        g = [subst(x, ren) for x in t.a[1]]
        b = subst(t.a[2], ren)
        r = sum_(tuple(ren[v] for v in vs), land(*[S(x) for x in g]), S(b))
    elif op in ("app", "bapp"):
        r = app(t.a[0], t.a[1], *[S(x) for x in t.a[2:]])
    elif op == "patom":
        r = S(t.a[0])
    elif op == "and":
        r = land(*[S(x) for x in t.a])
    elif op == "or":
        r = lor(*[S(x) for x in t.a])
    elif op == "not":
        r = lnot(S(t.a[0]))
    elif op == "ge0":
        r = ge0(S(t.a[0]))
    elif op == "gt0":
        r = gt0(S(t.a[0]))
    elif op == "eq0":
        r = eq(S(t.a[0]), ZERO)
    elif op in ("exists", "forall"):
        ren = {v: fresh("q", v.a[1]) for v in t.a[0]}
        b = S(subst(t.a[1], ren))
        r = (exists if op == "exists" else forall)(tuple(ren[v] for v in t.a[0]), b)
    else:
        raise Exception("subst " + op)
    memo[t] = r
    return r


# ---------------------------------------------------------------- walking
def atoms(t, pred, out=None, seen=None):
    if out is None:
        out, seen = [], set()
    if t in seen:
        return out
    seen.add(t)
    if pred(t):
        out.append(t)
    for x in children(t):
        atoms(x, pred, out, seen)
    return out


def children(t):
    op = t.op
    if op in ("num", "sym", "true", "false"):
        return ()
    if op == "poly":
        return [x for m, c in t.a for x, e in m]
    if op == "sum":
        return list(t.a[1]) + [t.a[2]]
    if op in ("exists", "forall"):
        return [t.a[1]]
    return [x for x in t.a if isinstance(x, T)]


def show(t, lim=400):
    s = _show(t)
    return s if len(s) <= lim else s[:lim] + "..."


def _show(t):
    op = t.op
    if op == "num":
        return str(t.a[0])
    if op == "sym":
        return t.a[0]
    if op == "poly":
        parts = []
        for m, c in t.a[:12]:
            s = "*".join(_show(x) + ("" if e == 1 else "^%d" % e) for x, e in m)
            if not m:
                s = str(c)
            elif c == -1:
                s = "-" + s
            elif c != 1:
                s = str(c) + "*" + s
            parts.append(s)
        return "(" + " + ".join(parts) + (" + ..." if len(t.a) > 12 else "") + ")"
    if op == "read":
        return "%s[%s]" % (t.a[0].name, ",".join(_show(x) for x in t.a[1:]))
    if op == "sum":
        return "Sum{%s | %s}(%s)" % (",".join(_show(v) for v in t.a[0]), " & ".join(_show(g) for g in t.a[1]), _show(t.a[2]))
    if op in ("app", "bapp"):
        return "%s(%s)" % (t.a[0], ",".join(_show(x) for x in t.a[2:]))
    if op in ("exists", "forall"):
        return "%s %s. %s" % (op, ",".join(_show(v) for v in t.a[0]), _show(t.a[1]))
    if op == "ge0":
        return _show(t.a[0]) + ">=0"
    if op == "gt0":
        return _show(t.a[0]) + ">0"
    if op == "eq0":
        return _show(t.a[0]) + "==0"
    return "%s(%s)" % (op, ", ".join(_show(x) for x in t.a))
