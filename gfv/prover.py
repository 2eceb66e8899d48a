"""Discharging goals: normal form, sum matching, SMT."""
import itertools
import time
from terms import *
from terms import _subst
from arrays import *
import ctx as C
from ctx import CTX
import loops


def simplify(t, memo=None):
    """rebuild a term, deciding conditions in the current context"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    S = lambda x: simplify(x, memo)
    if op in ("num", "sym", "true", "false"):
        r = t
    elif op == "poly":
        parts = []
        ch = False
        for m, c in t.a:
            cur = None
            for x, e in m:
                y = S(x)
                if y is not x:
                    ch = True
                p = y if e == 1 else power(y, e)
                cur = p if cur is None else mul(cur, p)
            parts.append(scale(c, cur) if cur is not None else num(c))
        r = add(*parts) if ch else t
    elif op == "read":
        r = read(t.a[0], *[S(x) for x in t.a[1:]])
    elif op == "div":
        r = div(S(t.a[0]), S(t.a[1]), CTX.decide)
    elif op == "mod":
        r = mod(S(t.a[0]), S(t.a[1]), CTX.decide)
    elif op == "ite":
        c = t.a[0]
        d = CTX.decide(c)
        if d is None and CTX.quant and c.op == "bapp" and C.r0_is_E(c.a[0]) and CTX.prove_smt(c, 3000, loops.CTX_extra, False)[0] == "proved":
            d = True
        if d is True:
            r = S(t.a[1])
        elif d is False:
            r = S(t.a[2])
        else:
            if c.op == "bapp" and c.a[0] in loops._stored and (t.a[2] is ZERO or S(t.a[2]) is ZERO):
                # entries of a sparse matrix that are not stored are zero: ite(stored(r, c), A(r, c), 0) = A(r, c)
                v = S(t.a[1])
                w = S(loops._stored[c.a[0]](*c.a[2:]))
                if v is w or match_all_sums(sub(v, w)) is ZERO:
                    memo[t] = v
                    return v
            c2 = simplify_b(c, memo)
            n = CTX.push(c)
            try:
                a = simplify(t.a[1], None)
            finally:
                CTX.pop(n)
            nc = lnot(c)
            n = CTX.push(nc)
            try:
                b = simplify(t.a[2], None)
            finally:
                CTX.pop(n)
            r = ite(c2, a, b)
    elif op == "sum":
        vs = t.a[0]
        ren = {v: fresh("b") for v in vs}
        lits = [subst(g, ren) for g in t.a[1]]
        body = subst(t.a[2], ren)
        nv = tuple(ren[v] for v in vs)
        # drop implied guards
        keep = list(lits)
        for g in sorted(lits, key=lambda g: -len(fv(g))):
            if len(keep) <= 1:
                break
            if is_range(g, nv):
                continue
            others = [x for x in keep if x is not g]
            n = CTX.push(*others)
            try:
                d = CTX.decide(g)
                if d is None and CTX.quant and atoms(g, lambda x: x.op == "bapp"):
                    # (implied existentials are kept: their witnesses are needed to compare the bodies)
                    if CTX.prove_smt(lnot(g), 3000, loops.CTX_extra, None)[0] == "proved":
                        d = False
            finally:
                CTX.pop(n)
            if d is True:
                keep = others
            elif d is False:
                memo[t] = ZERO
                return ZERO
        n = CTX.push(*keep)
        try:
            if len(keep) > 0 and CTX.inconsistent():
                b2 = ZERO
            else:
                b2 = simplify(body, None)
        finally:
            CTX.pop(n)
        r = split_flat(sum_(nv, land(*keep), b2))
    elif op in ("app", "bapp"):
        r = app(t.a[0], t.a[1], *[S(x) if not isbool(x) else simplify_b(x, memo) for x in t.a[2:]])
        if r.op == "app" and r.a[0] in CTX.invname:
            # inverse of an array of distinct entries
            A, n = CTX.invname[r.a[0]]
            x = r.a[2]
            if x.op == "read" and x.a[0] is A and CTX.decide(ge(x.a[1], ZERO)) is True and CTX.decide(lt(x.a[1], n)) is True:
                r = x.a[1]
    elif op == "patom":
        r = S(t.a[0])
    elif isbool(t):
        r = simplify_b(t, memo)
    else:
        r = t
    memo[t] = r
    return r


def split_flat(t):
    """sum over a flat index v in [0, A B) that only occurs in v / B and v % B: sum over [0, A) x [0, B)"""
    if t.op == "poly":
        out = []
        ch = False
        for m, c in t.a:
            cur = num(c)
            for x, e in m:
                y = split_flat(x) if x.op == "sum" else x
                ch = ch or y is not x
                cur = mul(cur, y if e == 1 else power(y, e))
            out.append(cur)
        return add(*out) if ch else t
    if t.op != "sum":
        return t
    vs, lits, body = open_sum(t)
    if body is ONE and len(vs) == 1 and len(lits) == 2 and ge0(vs[0]) in lits:
        # number of terms
        N = [add(g.a[0], vs[0], ONE) for g in lits if g.op == "ge0" and P(g.a[0]).get(((vs[0], 1),)) == -1]
        if len(N) == 1 and vs[0] not in fv(N[0]) and CTX.decide(ge(N[0], ZERO)) is True:
            return N[0]
    for v in vs:
        up = [sub(add(g.a[0], v), num(-1)) for g in lits if g.op == "ge0" and P(g.a[0]).get(((v, 1),)) == -1 and not atoms(g, lambda x: x.op in ("div", "mod"))]
        up = [N for N in up if v not in fv(N)]
        if ge0(v) not in lits or len(up) != 1:
            continue
        N = up[0]
        rest = [g for g in lits if g is not ge0(v) and g is not ge0(sub(sub(N, v), ONE))]
        use = [x for y in rest + [body] for x in atoms(y, lambda x: x.op in ("div", "mod") and x.a[0] is v)]
        Bs = {x.a[1] for x in use}
        if len(Bs) != 1:
            continue
        B = Bs.pop()
        if v in fv(B) or len(P(B)) != 1:
            continue
        A = mul(N, power(B, -1))
        if any(e < 0 for m in P(A) for _, e in m) or CTX.decide(ge(B, ZERO)) is not True:
            continue
        i, j = fresh("b"), fresh("b")
        memo = {x: (i if x.op == "div" else j) for x in use}
        left = fresh("left")
        new = [subst(g, {v: left}, None, dict(memo)) for g in rest]
        b2 = subst(body, {v: left}, None, dict(memo))
        if any(left in fv(x) for x in new + [b2]):
            continue
        g = land(*new, ge(i, ZERO), lt(i, A), ge(j, ZERO), lt(j, B))
        return split_flat(sum_(tuple(x for x in vs if x is not v) + (i, j), g, b2))
    return t


def is_range(g, vs):
    if g.op != "ge0":
        return False
    f = [v for v in fv(g) if isinstance(v, T) and v in vs]
    return len(f) == 1 and len(atoms(g, lambda x: x.op == "read")) == 0


def simplify_b(t, memo):
    op = t.op
    d = CTX.decide(t) if op not in ("forall", "exists") else None
    if d is True:
        return TRUE
    if d is False:
        return FALSE
    if op == "ge0":
        return ge0(simplify(t.a[0], memo))
    if op == "gt0":
        return gt0(simplify(t.a[0], memo))
    if op == "eq0":
        return eq(simplify(t.a[0], memo), ZERO)
    if op == "and":
        return land(*[simplify_b(x, memo) for x in t.a])
    if op == "or":
        return lor(*[simplify_b(x, memo) for x in t.a])
    if op == "not":
        return lnot(simplify_b(t.a[0], memo))
    if op == "bapp":
        return app(t.a[0], "B", *[simplify(x, memo) if not isbool(x) else simplify_b(x, memo) for x in t.a[2:]])
    if op == "read":
        return read(t.a[0], *[simplify(x, memo) for x in t.a[1:]])
    return t


def open_sum(s):
    ren = {v: fresh("b") for v in s.a[0]}
    return tuple(ren[v] for v in s.a[0]), [subst(g, ren) for g in s.a[1]], subst(s.a[2], ren)


def match_sums(s1, s2):
    """is the sum s1 equal to s2 (bijection = permutation of binders)"""
    if s1 is s2:
        return True
    n = len(s1.a[0])
    if n != len(s2.a[0]) or n > 6:
        return False
    vs, g1, b1 = open_sum(s1)
    G1 = set(g1)
    perms = list(itertools.permutations(range(n)))
    cands = []
    for p in perms:
        ren = {s2.a[0][i]: vs[p[i]] for i in range(n)}
        b2 = subst(s2.a[2], ren)
        g2 = [subst(g, ren) for g in s2.a[1]]
        if b1 is b2 and set(g2) == G1:
            return True
        cands.append((0 if b1 is b2 else 1, len(G1 ^ set(g2)), len(cands), b2, g2))
    cands.sort(key=lambda c: c[:3])
    for bad, _, _, b2, g2 in cands[:3]:
        # guard equivalence and body equality under the guard
        ok = True
        for ga, gb in ((g1, g2), (g2, g1)):
            m = CTX.push(*ga)
            try:
                for x in gb:
                    if x in ga:
                        continue
                    if CTX.decide(x, timeout=2000) is not True and not (
                            CTX.quant and atoms(x, lambda y: y.op == "bapp") and CTX.prove_smt(x, 3000, loops.CTX_extra, False)[0] == "proved"):
                        ok = False
                        break
                if ok and ga is g1 and b1 is not b2:
                    m += CTX.push(*[x for x in gb if x not in ga])
                    d = common_factor(sub(b1, b2))
                    if d is not ZERO and CTX.decide(eq(d, ZERO), timeout=2000) is not True:
                        ok = bool(CTX.quant) and CTX.prove_smt(eq(d, ZERO), 4000, loops.CTX_extra, False)[0] == "proved"
            finally:
                CTX.pop(m)
            if not ok:
                break
        if ok:
            return True
    return False


def common_factor(d):
    """divide out the atoms common to all monomials (the result vanishes => d vanishes)"""
    ms = [dict(m) for m in P(d)]
    if not ms:
        return d
    common = {x: e for x, e in ms[0].items() if e > 0 and all(m.get(x, 0) == e for m in ms)}
    if not common:
        return d
    return fromP({tuple((x, e) for x, e in m if x not in common): c for m, c in P(d).items()})


def match_all_sums(d):
    """cancel matching sums in the polynomial d"""
    for _ in range(200):
        sums = []
        for m, c in P(d).items():
            for x, e in m:
                if x.op == "sum" and x not in sums:
                    sums.append(x)
        done = True
        for i in range(len(sums)):
            for j in range(i + 1, len(sums)):
                if match_sums(sums[i], sums[j]):
                    d = subst_atom(d, sums[j], sums[i])
                    done = False
                    break
            if not done:
                break
        if done:
            return d
    return d


def subst_atom(t, old, new):
    parts = []
    for m, c in P(t).items():
        cur = num(c)
        for x, e in m:
            y = new if x is old else x
            cur = mul(cur, y if e == 1 else power(y, e))
        parts.append(cur)
    return add(*parts) if parts else ZERO


def clear_denominators(d):
    """multiply by the atoms occurring with negative exponent"""
    for _ in range(20):
        worst = {}
        for m, c in P(d).items():
            for x, e in m:
                if e < 0:
                    worst[x] = min(worst.get(x, 0), e)
        if not worst:
            return d
        x, e = next(iter(worst.items()))
        base = x.a[0] if x.op == "patom" else x
        parts = []
        for m, c in P(d).items():
            k = dict(m).get(x, 0)
            rest = fromP({tuple((y, f) for y, f in m if y is not x): c})
            parts.append(mul(rest, power(base, k - e)))
        d = add(*parts)
    return d


def equalities(d):
    """polynomials that are zero by the facts about the terms in d"""
    out = {}

    def take(f):
        if f.op == "and":
            for x in f.a:
                take(x)
        elif f.op == "or":
            e = [x for x in f.a if any(y.op == "eq0" for y in (x.a if x.op == "and" else (x,)))]
            if len(e) == 1 and CTX.decide(lor(*[x for x in f.a if x is not e[0]])) is False:
                take(e[0])
        elif f.op == "eq0" and (fv(f) & fv(d)):
            out[f.a[0]] = None

    for f in list(CTX.facts) + CTX.instances([d], rounds=2):
        take(f)
    return list(out)


def replace(t, old, new):
    """replace a subterm"""
    return _subst(t, {}, None, {old: new}, set(fv(old)))


class Late(Exception):
    pass


def choices(t, until=None):
    """resolve the choices that the facts decide"""
    for _ in range(20):
        for x in atoms(t, lambda x: x.op == "ite"):
            if until and time.time() > until:
                raise Late()
            if any(y.op in ("sum", "forall", "exists") for y in atoms(x.a[0], lambda y: True)):
                continue
            v = CTX.decide(x.a[0])
            if v is not None:
                t = replace(t, x, x.a[1 if v else 2])
                break
        else:
            return t
    return t


def reduce_monomial(t, m, new):
    """replace the product m (dict) in every term of t"""
    parts = []
    for n, c in P(t).items():
        k = dict(n)
        if all(k.get(x, 0) >= e for x, e in m.items()):
            parts.append(mul(fromP({tuple((x, e - m.get(x, 0)) for x, e in n if e != m.get(x, 0)): c}), new))
        else:
            parts.append(fromP({n: c}))
    return add(*parts) if parts else ZERO


def by_facts(d, until=None):
    """rewrite a polynomial with the equalities among the facts"""
    done = set()
    for _ in range(10):
        d = choices(d, until)
        for x in {x for m, c in P(d).items() for x, e in m}:
            if x.op == "div":
                q = quotient(x.a[0], x.a[1])
                if q is not x:
                    d = subst_atom(d, x, q)
        d = clear_denominators(simplify(d))
        if d is ZERO:
            return d
        for p0 in equalities(d):
            if p0 in done:
                continue
            p = choices(p0, until)
            ms = P(p)
            here = set(atoms(d, lambda x: x.op in ("read", "div")))
            lin = [m for m, c in ms.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("read", "div") and abs(c) == 1 and m[0][0] in here]
            lin = [m for m in lin if not any(m[0][0] is y for n in ms if n is not m for x, e in n for y in atoms(x, lambda y: y is m[0][0]))]
            big = [m for m in ms if sum(e for _, e in m) > 1 and all(e > 0 for _, e in m)]
            if lin:
                m = max(lin, key=lambda m: (m[0][0].op == "div", m[0][0].id))
                d = replace(d, m[0][0], mul(num(-1 / Fraction(ms[m])), sub(p, fromP({m: ms[m]}))))
                done.add(p0)
                break
            if len(big) == 1:
                m = big[0]
                rest = mul(num(-1 / Fraction(ms[m])), sub(p, fromP({m: ms[m]})))
                d2 = reduce_monomial(d, dict(m), rest)
                if d2 is not d:
                    d = d2
                    done.add(p0)
                    break
        else:
            return d
        if d is ZERO:
            return d
    return d


def zero(d, depth=6, seconds=10):
    """is the polynomial zero by the equalities among the facts, distinguishing cases"""
    try:
        return zero_until(d, depth, time.time() + seconds)
    except Late:
        return False


def zero_until(d, depth, until):
    d = by_facts(d, until)
    if d is ZERO:
        return True
    c = [x.a[0] for x in atoms(d, lambda x: x.op == "ite")]
    c = [x for x in c if not any(y.op == "ite" for y in atoms(x, lambda y: True))]
    if not c or not depth:
        return False
    for x in (c[0], lnot(c[0])):
        n = CTX.push(x)
        try:
            if not CTX.inconsistent() and not zero_until(d, depth - 1, until):
                return False
        finally:
            CTX.pop(n)
    return True


def opaque(t):
    """does the goal depend on something that the engine does not describe (then it cannot be refuted)"""
    return bool(atoms(t, lambda x: x.op in ("app", "bapp") and x.a[0].startswith(("opaque_", "hv_", "hvf_"))))


def prove_eq(a, b, hints=(), timeout=10000, rewrite=None):
    """returns (status, backend, detail)"""
    if isbool(a) or isbool(b):
        return prove(iff(a, b), hints, timeout)
    d = sub(a, b)
    if rewrite:
        d = rewrite(d)
    if d is ZERO:
        return "proved", "normal form", None
    d = simplify(d)
    if rewrite:
        d = rewrite(d)
    if d is ZERO:
        return "proved", "normal form", None
    if any(x.op == "sum" for m, c in P(d).items() for x, e in m):
        d = match_all_sums(d)
        if d is ZERO:
            return "proved", "sum matching", None
    d2 = clear_denominators(d)
    if rewrite:
        d2 = rewrite(d2)
    if d2 is ZERO:
        return "proved", "normal form", None
    if not hints and not loops.CTX_extra and CTX.decide(eq(d2, ZERO)) is True:
        return "proved", "z3", None
    if zero(d2):
        return "proved", "normal form", None
    st, info = CTX.prove_smt(eq(d2, ZERO), timeout, list(hints) + loops.CTX_extra)
    if st == "proved":
        return "proved", "z3", None
    if st == "sat" and opaque(d2):
        st = "unknown"
    return st, "z3", "residue: %s | %s" % (show(d2, 600), info)


def prove(goal, hints=(), timeout=10000):
    if goal is TRUE:
        return "proved", "normal form", None
    if goal.op == "and":
        back = set()
        for g in goal.a:
            r = prove(g, hints, timeout)
            if r[0] != "proved":
                return r
            back.add(r[1])
        return "proved", "+".join(sorted(back)), None
    if goal.op == "forall":
        ren = {v: fresh("u", v.a[1]) for v in goal.a[0]}
        return prove(subst(goal.a[1], ren), hints, timeout)
    if goal.op == "or":
        # assume the negation of the side literals
        lits = list(goal.a)
        main = [x for x in lits if x.op in ("eq0", "forall", "and", "exists")]
        if len(main) == 1:
            side = [lnot(x) for x in lits if x is not main[0]]
            n = CTX.push(*side)
            try:
                if CTX.inconsistent():
                    return "proved", "z3", None
                if main[0].op == "eq0":
                    r = prove_eq(main[0].a[0], ZERO, hints, timeout)
                else:
                    r = prove(main[0], hints, timeout)
            finally:
                CTX.pop(n)
            if r[0] == "proved":
                return r
    if goal.op == "eq0":
        return prove_eq(goal.a[0], ZERO, hints, timeout)
    d = CTX.decide(goal)
    if d is True:
        return "proved", "z3", None
    g2 = simplify_b(goal, {})
    if g2 is TRUE:
        return "proved", "z3", None
    st, info = CTX.prove_smt(g2, timeout, list(hints) + loops.CTX_extra)
    if st == "proved":
        return "proved", "z3", None
    if st == "sat" and opaque(g2):
        st = "unknown"
    return st, "z3", "goal: %s | %s" % (show(g2, 600), info)
