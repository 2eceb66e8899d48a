"""Loops: concrete trip counts are executed iteration by iteration; symbolic ranges are replaced by an inductive summary
whose side conditions (ownership / non-interference / additivity) are discharged first."""
from terms import *
from arrays import *
from ctx import CTX
import interp as I
from interp import Cell, Rec, Vec, Obj, Sp, Ptr

MAXITER = 20000


class Havoc(Exception):
    pass


def split_kinds(abn):
    brk = [x for x in abn if x[1] == "break"]
    cont = [x for x in abn if x[1] == "continue"]
    rest = [x for x in abn if x[1] not in ("break", "continue")]
    return brk, cont, rest


def merge_normal(it, cn, abn):
    """merge 'continue' outcomes into the normal outcome: returns (cond, remaining abnormal)"""
    brk, cont, rest = split_kinds(abn)
    cond = cn
    st = it.st
    for c, _, _, s in cont:
        if cond is FALSE:
            cond, st = c, s
        else:
            st = it.merge_states(c, s, st)
            cond = lor(cond, c)
    it.st = st
    return cond, brk, rest


def run_for(it, s):
    omp, it.ompnext = it.ompnext, None
    if s.get("init"):
        it.exec(s["init"])
        if s["init"]["k"] == "decl" and len(s["init"]["vars"]) == 1 and s["init"]["vars"][0]["t"].endswith("InnerIterator"):
            return sparse_for(it, s, it.load(it.env[s["init"]["vars"][0]["id"]]))
    incs = flat_comma(s["inc"])
    if s["c"] is None and len(incs) == 1 and not omp:
        r = break_for(it, s, incs[0])
        if r is not None:
            return r
    for n, e in enumerate(incs):
        lv = loop_var(it, e)
        if lv is not None and probe(it, s, lv) == "symbolic":
            return symbolic_for(it, s, lv, e, incs[:n] + incs[n + 1:], omp)
    if omp:
        raise Unsup("parallel loop with a fixed number of iterations")
    return concrete_loop(it, s["c"], s["inc"], s["b"])


def sparse_for(it, s, o):
    """for (InnerIterator it(A, k); it; ++it): every stored entry of column k exactly once, in order of the rows"""
    rc = o.d[2]
    body = {"k": "if", "c": {"k": "term", "v": lambda: stored(o.d[0], it.load(rc), o.d[1])}, "a": s["b"], "b": {"k": "block", "s": []}}
    return summarise(it, s["ln"], rc, ZERO, o.d[0].rows, 1, lambda: it.exec(body), None)


_stored = {}


def stored(A, r, c):
    """is the entry stored?  entries that are not stored are zero"""
    a, b = sym("$r0", "I"), sym("$c0", "I")
    key = (A.rows, A.cols, A.fn(a, b))
    if key not in _stored:
        _stored[key] = nm = "stored!%d" % len(_stored)
        _stored[nm] = A.fn
        CTX.appfacts[nm] = [lambda x: lor(app(nm, "B", *x), eq(A.fn(*x), ZERO))]
    return app(_stored[key], "B", r, c)


def run_while(it, s):
    return concrete_loop(it, s["c"], None, s["b"], do=s["k"] == "do")


def flat_comma(e):
    if e is None:
        return []
    if e["k"] == "bin" and e["op"] == ",":
        return flat_comma(e["l"]) + flat_comma(e["r"])
    if e["k"] == "cast" and e["c"] in ("ToVoid",):
        return flat_comma(e["e"])
    return [e]


def offset(v):
    return v.off if isinstance(v, Ptr) else v


def wrap(v0, t):
    return Ptr(v0.b, t) if isinstance(v0, Ptr) else t


def loop_var(it, e):
    """cell of the loop variable (modified by the increment)"""
    if e["k"] == "un" and e["op"] in ("++", "--"):
        x = e["e"]
    elif e["k"] == "asg" and e["op"] in ("+=", "-=", "="):
        x = e["l"]
    elif e["k"] == "call" and e.get("op") in ("++", "--", "+="):
        x = e.get("o") or e["a"][0]
    else:
        return None
    try:
        l = it.ev(x)
    except Unsup:
        return None
    return l if isinstance(l, Cell) else None


def probe(it, s, lv):
    """does the loop condition depend on symbolic bounds"""
    p0 = it.st[lv]
    v0 = offset(p0)
    if not isinstance(v0, T) or isinstance(p0, Ptr) and p0.idx is not None:
        return "concrete"
    k = fresh("k")
    st0 = it.st
    it.st = dict(st0)
    it.st[lv] = wrap(p0, k)
    try:
        c = it.rv(s["c"]) if s["c"] else TRUE
    finally:
        it.st = st0
    if fv(c) <= {k} and fv(v0) == EMPTY:
        return "concrete"
    # same trip count known? e.g. i from x to x+2
    if c.op in ("ge0",):
        # substitute start value: constant remaining iterations
        r = subst(c, {k: v0})
        if not fv(r):
            # the bound is relative to the start value
            return "concrete"
    return "symbolic"


def concrete_loop(it, cond, inc, body, do=False):
    acc = TRUE
    exits = []   # (cond, state)
    abn = []
    pushed = 0
    n = 0
    try:
        while True:
            if not (do and n == 0):
                c = it.rv(cond) if cond else TRUE
                if not isinstance(c, T):
                    raise Unsup("loop condition")
                if not isbool(c):
                    c = ne(c, ZERO)
                d = CTX.decide(c)
                if d is False:
                    exits.append((acc, it.st))
                    break
                if d is None:
                    if n > 64:
                        raise Unsup("loop with undecided condition")
                    exits.append((land(acc, lnot(c)), dict(it.st)))
                    acc = land(acc, c)
                    pushed += CTX.push(c)
            n += 1
            if n > MAXITER:
                raise Unsup("loop bound")
            cn, ab = it.exec(body)
            cn, brk, rest = merge_normal(it, cn, ab)
            for c, kd, v, st in rest:
                abn.append((land(acc, c), kd, v, st))
            for c, _, _, st in brk:
                exits.append((land(acc, c), st))
            if cn is FALSE:
                break
            if cn is not TRUE:
                acc = land(acc, cn)
                pushed += CTX.push(cn)
                if CTX.inconsistent() :
                    break
            if inc:
                it.ev(inc)
    finally:
        CTX.pop(pushed)
    exits = [x for x in exits if x[0] is not FALSE]
    if not exits:
        return FALSE, abn
    c, st = exits[-1]
    cond = c
    for c2, st2 in reversed(exits[:-1]):
        st = it.merge_states(c2, st2, st)
        cond = lor(cond, c2)
    it.st = st
    if not abn:
        cond = TRUE
    return cond, abn


def run_rfor(it, s):
    r = it.ev(s["range"])
    v = it.load(r)
    vid, vt = s["v"]["id"], s["v"]["t"]
    lv = r if isinstance(r, I.LV) else it.new(v)
    if isinstance(v, Vec):
        n = num(len(v.items))
    elif isinstance(v, I.Rows):
        n = it.st[v.srt].shape[0]
    elif isinstance(v, Arr):
        n = v.shape[0] if v.nd == 1 else v.size()
        if v.nd != 1:
            lv = I.LFlat(lv)
    else:
        raise Unsup("range-for over %s" % type(v).__name__)
    kc = it.new(ZERO, "k")

    def bind():
        k = it.load(kc)
        if isinstance(v, Vec):
            i = cint(k)
            it.env[vid] = v.items[i] if vt.startswith("&") else it.new(it.copy(it.load(v.items[i])))
        elif isinstance(v, I.Rows):
            e = I.LRow(v, k)
            it.env[vid] = e if vt.startswith("&") else it.new(it.load(e))
        else:
            e = I.LElem(lv, (k,))
            it.env[vid] = e if vt.startswith("&") else it.new(it.load(e), s["v"]["n"])

    cn = cint(n)
    if cn is not None:
        abn = []
        acc = TRUE
        exits = []
        pushed = 0
        try:
            for i in range(cn):
                it.st[kc] = num(i)
                bind()
                c, ab = it.exec(s["b"])
                c, brk, rest = merge_normal(it, c, ab)
                abn += [(land(acc, x[0]),) + x[1:] for x in rest]
                exits += [(land(acc, x[0]), x[3]) for x in brk]
                acc = land(acc, c)
                if acc is FALSE:
                    break
                if c is not TRUE:
                    pushed += CTX.push(c)
        finally:
            CTX.pop(pushed)
        if acc is not FALSE:
            exits.append((acc, it.st))
        if not exits:
            return FALSE, abn
        c, st = exits[-1]
        cond = c
        for c2, st2 in reversed(exits[:-1]):
            st = it.merge_states(c2, st2, st)
            cond = lor(cond, c2)
        it.st = st
        return (cond if abn else TRUE), abn
    return summarise(it, s["ln"], kc, num(0), n, 1, lambda: (bind(), it.exec(s["b"]))[1], None)


# ---------------------------------------------------------------------------------------------------------------------
def symbolic_for(it, s, lv, inc, others=(), omp=None):
    p0 = it.st[lv]
    a = offset(p0)
    # step
    k = fresh("k")
    st0 = it.st
    it.st = dict(st0)
    it.st[lv] = wrap(p0, k)
    it.ev(inc)
    step = cint(sub(offset(it.st[lv]), k))
    it.st[lv] = wrap(p0, k)
    c = it.rv(s["c"])
    it.st = st0
    if step is None or step == 0:
        raise Unsup("loop increment")
    N = bound(c, k, step)
    if N is None:
        raise Unsup("loop condition form %s" % show(c))
    return summarise(it, s["ln"], lv, a, N, step, lambda: it.exec(s["b"]), lambda: [it.ev(x) for x in others], p0, omp)


def break_for(it, s, inc):
    """for (i = a;; ++i) with a break that is reached for i == K only: the iterations before K, followed by a part of one"""
    lv = loop_var(it, inc)
    if lv is None or not isinstance(it.st[lv], T):
        return None
    a = it.st[lv]
    k = fresh("k")
    st0 = it.st
    marks = len(it.throws), len(it.obl), len(it.bnd), len(CTX.taint), len(CTX.facts), len(it.races)
    Ks = []
    it.st = dict(st0)
    it.st[lv] = k
    it.loopstack.append(k)
    n = CTX.push(ge(k, a))
    try:
        it.ev(inc)
        step = cint(sub(it.st[lv], k))
        it.st = dict(st0)
        it.st[lv] = k
        cn, ab = it.exec(s["b"])
        for c, kd, _, _ in ab:
            for x in conj(c):
                K = None
                if x.op == "eq0" and k in fv(x):
                    K = solve_for(k, x.a[0])
                elif x.op == "ge0" and P(x.a[0]).get(((k, 1),)) == 1:
                    K = neg(sub(x.a[0], k))
                if kd == "break" and K is not None and k not in fv(K) and K not in Ks:
                    Ks.append(K)
    except Unsup:
        step = None
    finally:
        CTX.pop(n)
        it.loopstack.pop()
        it.st = st0
        for l, m in zip((it.throws, it.obl, it.bnd, CTX.taint, CTX.facts, it.races), marks):
            del l[m:]
    if step != 1 or len(Ks) != 1 or CTX.decide(ge(Ks[0], a)) is not True:
        return None
    if cint(Ks[0]) is not None and cint(a) is not None:
        return None
    K = Ks[0]
    cond, abn = summarise(it, s["ln"], lv, a, K, 1, lambda: it.exec(s["b"]), None)
    if cond is not TRUE or abn:
        raise Unsup("loop without condition")
    cn, ab = it.exec(s["b"])
    brk, cont, rest = split_kinds(ab)
    if cn is not FALSE or cont or rest or not brk:
        raise Unsup("loop without condition")
    cond, _, _, st = brk[-1]
    for c, _, _, s2 in reversed(brk[:-1]):
        st = it.merge_states(c, s2, st)
    it.st = st
    return TRUE, []


def bound(c, k, step):
    """exclusive upper bound N (step>0): c <=> k < N ; step<0: c <=> k > N"""
    if c.op == "ge0":
        co = P(c.a[0]).get(((k, 1),))
        if co == -1 and step > 0:
            return add(c.a[0], k, ONE)      # N-1-k >= 0
        if co == 1 and step < 0:
            return sub(sub(k, c.a[0]), ONE)  # k - N - 1 >= 0
    if c.op == "not" and c.a[0].op == "eq0" and abs(step) == 1:
        t = solve_for(k, c.a[0].a[0])
        if t is not None:
            return t
    return None


def assigned_guess(it, body):
    return ()


def summarise(it, ln, lv, a, N, step, body, inc, p0=None, omp=None):
    """for (lv = a; lv < N; lv += step) body"""
    k = fresh("k")
    if step == 1:
        rng = land(ge(k, a), lt(k, N))
        iters = sub(N, a)
        kidx = sub(k, a)           # number of completed iterations
    elif step > 1:
        # use the iteration count as binder
        rng = land(ge(k, ZERO), lt(add(a, mul(num(step), k)), N))
        iters = div(add(sub(N, a), num(step - 1)), num(step), CTX.decide)
        kidx = k
    elif step == -1:
        rng = land(le(k, a), gt(k, N))
        iters = sub(a, N)
        kidx = sub(a, k)
    else:
        raise Unsup("loop step")
    kval = k if abs(step) == 1 else add(a, mul(num(step), k))
    neg_it = CTX.decide(ge(iters, ZERO))
    if neg_it is False:
        iters = ZERO
    if CTX.decide(gt(iters, ZERO)) is False:
        it.st[lv] = wrap(p0, a)
        return TRUE, []
    if neg_it is None:
        iters = ite(ge(iters, ZERO), iters, ZERO)
    st_pre = dict(it.st)
    M = {}            # cell -> placeholder value
    ph = {}           # cell -> (kind, H)
    npush = CTX.push(rng)
    it.loopstack.append(k)
    nthrow = len(it.throws)
    nobl = len(it.obl)
    nbnd = len(it.bnd)
    try:
        for rnd in range(12):
            st = dict(st_pre)
            for c, v in M.items():
                st[c] = v
            lval = wrap(p0, kval)
            st[lv] = lval
            it.st = dict(st)
            del it.throws[nthrow:]
            del it.obl[nobl:]
            del it.bnd[nbnd:]
            cn, abn = body()
            cn, brk, rest = merge_normal(it, cn, abn)
            if inc is not None and cn is not FALSE:
                inc()
            thr = [x for x in rest if x[1] == "throw"]
            rest = [x for x in rest if x[1] != "throw"]
            for x in thr:
                it.throws.append((x[0], "loop", tuple(CTX.facts)))
            post = it.st
            new = [c for c in st_pre if c is not lv and post.get(c) is not st[c] and not same_val(post.get(c), st[c])]
            for x in brk + rest:
                s2 = x[3]
                new += [c for c in st_pre if c is not lv and c not in new and s2.get(c) is not st[c] and not same_val(s2.get(c), st[c])]
            if post.get(lv) is not lval:
                raise Unsup("loop variable modified in the body")
            new = [c for c in new if c not in M]
            if not new:
                break
            for c in new:
                M[c] = placeholder(it, st_pre[c], c)
                ph[c] = M[c]
        else:
            raise Unsup("loop frame")
        if brk or rest:
            return early_exit(it, ln, lv, k, a, N, step, rng, kval, st_pre, M, cn, brk, rest, post, iters, kidx)
        # (without other outcomes every path through the body ends normally)
        it.st = post
        out = effects(it, ln, k, rng, a, N, step, iters, kidx, st_pre, M, post, nbnd, omp)
    finally:
        CTX.pop(npush)
        it.loopstack.pop()
    st = dict(st_pre)
    for c, v in out.items():
        st[c] = v() if callable(v) else v
    st[lv] = wrap(p0, add(a, mul(num(step), iters)))
    it.st = st
    return TRUE, []


def same_val(a, b):
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a.node is b.node and a.shape == b.shape
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.b is b.b and a.off is b.off and a.idx is b.idx
    return a is b


def placeholder(it, v, c):
    if isinstance(v, T):
        return fresh("H_" + c.name, "B" if isbool(v) else ("I" if is_int(v) else "R"))
    if isinstance(v, Arr):
        A = ArrSym("H_%s!%d" % (c.name, next(I._fresh) if hasattr(I, "_fresh") else next_id()), v.nd, v.dt)
        return Arr(v.shape, v.dt, NSym(A))
    if isinstance(v, Bag):
        return BSym()
    if isinstance(v, Ptr) and v.idx is None and v.off is not None:
        return Ptr(v.b, fresh("H_" + c.name, "I"))
    raise Unsup("loop modifies a %s (%s)" % (type(v).__name__, c.name))


def next_id():
    from terms import _fresh
    return next(_fresh)


def hv(it, base, sort, extra=()):
    """havoc value depending on all enclosing loop indices"""
    return app("%s!%d" % (base, next_id()), sort, *(list(it.loopstack) + list(extra)))


def effects(it, ln, k, rng, a, N, step, iters, kidx, st_pre, M, post, nbnd=0, omp=None):
    ptrs = {c: M[c] for c in M if isinstance(M[c], Ptr)}
    if ptrs:
        M, post, st_pre = dict(M), dict(post), dict(st_pre)
        for c in ptrs:
            if not isinstance(post[c], Ptr) or post[c].b is not ptrs[c].b or post[c].idx is not None:
                raise Unsup("iterator replaced in loop")
            M[c], post[c], st_pre[c] = M[c].off, post[c].off, st_pre[c].off
    scal = [c for c in M if isinstance(M[c], T)]
    arrs = [c for c in M if isinstance(M[c], Arr)]
    bags = [c for c in M if isinstance(M[c], Bag)]
    H2cell = {M[c].node.A: c for c in arrs}
    Hs = {M[c]: c for c in scal}
    allH = set(H2cell) | set(Hs)
    smap = {}       # H sym -> closed form at iteration k
    final = {}
    pend = list(scal)
    one = ONE if step == 1 else num(1)
    gmap = []       # (H, ghost sequence that it equals)

    def shift(t, to):
        return subst(t, {k: to})

    progress = True
    while pend and progress:
        progress = False
        for c in list(pend):
            H = M[c]
            v = post[c]
            s0 = st_pre[c]
            if not isinstance(v, T):
                raise Unsup("scalar replaced by object in loop")
            v = subst(v, smap)
            if isbool(H):
                if not (fv(v) & allH):
                    # last value
                    res = last_value(it, v, s0, k, a, step, iters, kidx)
                    smap[H], final[c] = res
                    pend.remove(c)
                    progress = True
                elif not ((fv(v) - {H}) & allH):
                    # monotone flag: v = H or f(k) / H and f(k)
                    t1 = subst(v, {H: TRUE})
                    f0 = subst(v, {H: FALSE})
                    if t1 is TRUE:
                        j = fresh("j")
                        r = lambda up: lor(s0, exists((j,), land(iter_rng(j, a, k, step, up), shift(f0, j))))
                        smap[H] = r(k)
                        final[c] = lor(s0, exists((j,), land(subst(rng, {k: j}), shift(f0, j))))
                        pend.remove(c)
                        progress = True
                    elif f0 is FALSE:
                        j = fresh("j")
                        smap[H] = land(s0, forall((j,), imp(iter_rng(j, a, k, step, k), shift(t1, j))))
                        final[c] = land(s0, forall((j,), imp(subst(rng, {k: j}), shift(t1, j))))
                        pend.remove(c)
                        progress = True
                continue
            delta = sub(v, H)
            g = ghost_value(v, H, s0, k, a, step) if (fv(delta) & (allH | {k})) and not ((fv(v) - {H}) & set(Hs)) else None
            if g is not None:
                smap[H] = g(k)
                final[c] = g(add(a, iters))
                gmap.append((H, g))
                pend.remove(c)
                progress = True
            elif not (fv(delta) & allH):
                if k not in fv(delta):
                    smap[H] = add(s0, mul(kidx, delta))
                    final[c] = add(s0, mul(iters, delta))
                else:
                    j = fresh("j")
                    smap[H] = add(s0, sum_((j,), iter_rng(j, a, k, step, k), shift(delta, j)))
                    final[c] = add(s0, sum_((j,), subst(rng, {k: j}), shift(delta, j)))
                pend.remove(c)
                progress = True
            elif not (fv(v) & allH):
                smap[H], final[c] = last_value(it, v, s0, k, a, step, iters, kidx)
                pend.remove(c)
                progress = True
    for c in pend:
        H = M[c]
        CTX.taint.append("scalar %s at %s not summarised" % (c.name, ln))
        sort = "B" if isbool(H) else ("I" if is_int(H) else "R")
        smap[H] = hv(it, "hv_" + c.name, sort)
        final[c] = hvf(it, "hvf_" + c.name, sort, k)

    # arrays -----------------------------------------------------------------------------------------------
    info = {}
    for c in arrs:
        A = M[c].node.A
        pv = post[c]
        try:
            if not isinstance(pv, Arr):
                raise Unsup("array replaced in loop")
            lv = [l.map(lambda t: subst(t, smap)) for l in pv.node.leaves(M[c].node)]
            info[c] = lv
        except Unsup as ex:
            info[c] = None
            if isinstance(pv, Arr) and isinstance(M[c], Arr):
                info[c] = ("whole", pv)
    prevs = {c: st_pre[c] for c in arrs}

    blv = {}
    for c in bags:
        blv[c] = [l.map(lambda t: subst(t, smap)) for l in post[c].leaves(M[c])]

    if omp:
        races(it, omp, k, rng, scal, arrs, bags, M, post, info, H2cell)

    # reads of placeholders must not see writes of earlier iterations
    def check_reads(leaves, own_cell):
        for l in leaves:
            n = CTX.push(l.guard)
            try:
                for t in [l.guard, l.val] + list(l.idx):
                    for r in atoms(t, lambda x: x.op == "read" and x.a[0] in H2cell):
                        c2 = H2cell[r.a[0]]
                        lv2 = info[c2]
                        if lv2 is None or isinstance(lv2, tuple):
                            return False, r
                        idx = r.a[1:]
                        for l2 in lv2:
                            k2 = fresh("k")
                            ren = {v: fresh("w") for v in l2.vs}
                            ren[k] = k2
                            g2 = subst(land(l2.guard, rng), ren)
                            before = lt(k2, k) if step >= 1 else gt(k2, k)
                            # bound variables of sums in r are unconstrained: fine (sound over-approximation)
                            same = tup_eq_raw(idx, [subst(x, ren) for x in l2.idx])
                            if same is FALSE:
                                continue
                            m = CTX.push(g2, before)
                            try:
                                if CTX.decide(lnot(same), timeout=1500) is not True:
                                    return False, r
                            finally:
                                CTX.pop(m)
            finally:
                CTX.pop(n)
        return True, None

    amap = {A: (lambda idx, c=c: prevs[c].node.read(idx)) for A, c in H2cell.items()}

    def fix(t, m=None):
        t = subst(t, smap)
        if m:
            t = subst(t, m)
        f = fv(t)
        am = {A: fn for A, fn in amap.items() if A in f}
        if am:
            t = subst(chosen(t, am), {}, am)
        return t

    if len(it.bnd) > nbnd:
        it.bnd[nbnd:] = [(l, tuple(fix(f) for f in fs), fix(c)) for l, fs, c in it.bnd[nbnd:]]
    out = {}
    # scalars whose closed form mentions array placeholders are not reliable: verify
    for c in scal:
        t = final[c]
        if fv(t) & set(H2cell):
            ok, r = check_reads([Leaf((), rng, (), "set", t)], None)
            if not ok:
                CTX.taint.append("scalar %s at %s depends on modified array" % (c.name, ln))
                t = hvf(it, "hvf_" + c.name, "R", k)
            else:
                t = subst(t, {}, {A: fn for A, fn in amap.items()})
        final[c] = t
    for c in scal:
        out[c] = Ptr(ptrs[c].b, final[c]) if c in ptrs else final[c]

    for c in arrs:
        lv = info[c]
        if isinstance(lv, tuple):
            out[c] = whole_last(it, ln, lv[1], st_pre[c], k, a, N, step, iters, fix, allH, smap, c)
            continue
        out[c] = array_effect(it, ln, c, lv, st_pre[c], M[c], post[c], k, rng, step, fix, check_reads, amap, allH, gmap, a, N)

    for c in bags:
        ok, r = check_reads(blv[c], None)
        if not ok:
            raise Unsup("triplets depend on array modified in the loop")
        lv = [Leaf((k,) + l.vs, land(rng, fix(l.guard)), [fix(x) for x in l.idx], "add", fix(l.val)) for l in blv[c]]
        out[c] = BLoop(st_pre[c], lv)
    return out


def chosen(t, am):
    """without the choices between reads of these arrays that the facts decide"""
    if t.op != "ite" or not any(A in fv(t) for A in am):
        return t
    d = CTX.decide(t.a[0])
    if d is not None:
        return chosen(t.a[1 if d else 2], am)
    return ite(t.a[0], chosen(t.a[1], am), chosen(t.a[2], am))


def ghost_value(v, H, s0, k, a, step):
    """ghost sequence that a scalar equals at the start of every iteration"""
    if step != 1:
        return None
    keep = CTX.facts
    start = []
    for g in CTX.ghosts:
        if is_int(g(k)) != is_int(H):
            continue
        CTX.facts = [f for f in keep if k not in fv(f)]
        try:
            if CTX.decide(eq(g(a), s0), timeout=2000) is True:
                start.append((g, eq(subst(v, {H: g(k)}), g(add(k, ONE)))))
        finally:
            CTX.facts = keep
    for g, e in start:
        if CTX.decide(e, timeout=3000) is True:
            return g
    import prover
    for g, e in start:
        if e.op == "eq0" and prover.zero(e.a[0]):
            return g
    return None


def races(it, omp, k, rng, scal, arrs, bags, M, post, info, H2cell):
    """obligations of a parallel loop: (description, hypotheses, claim, facts)"""
    ln, shared = omp
    facts = tuple(CTX.facts)

    def rec(what, hyp, claim):
        it.races.append(("%s: %s" % (ln, what), hyp, claim, facts))

    def values(v, H):
        if v.op == "ite":
            return values(v.a[1], H) | values(v.a[2], H)
        return set() if v is H else {v}

    it.nraces = getattr(it, "nraces", 0) + 1
    for c in bags:
        if c in shared:
            rec("%s is extended by all iterations" % c.name, (), FALSE)
    for c in scal:
        if c not in shared:
            continue
        vs = values(post[c], M[c])
        local = {k} | {M[x] for x in scal} | set(H2cell)
        if len(vs) > 1 or any(fv(v) & local for v in vs):
            rec("%s is modified by all iterations" % c.name, (), FALSE)

    def other(l):
        """the write in another iteration"""
        k2 = fresh("k")
        ren = {v: fresh("w") for v in l.vs}
        ren[k] = k2
        return land(subst(rng, ren), subst(l.guard, ren), ne(k, k2)), [subst(x, ren) for x in l.idx], subst(l.val, ren)

    for c in arrs:
        lv = info[c]
        if lv is None or isinstance(lv, tuple):
            if c in shared:
                rec("%s is replaced by all iterations" % c.name, (), FALSE)
            continue
        if c in shared and not any(owner(lv, comp, k, rng) for comp in range(len(M[c].shape))) and flat_owner(lv, M[c].shape, k, rng) is None \
                and not any(inv_owner(lv, comp, k, rng) for comp in range(len(M[c].shape))):
            for n, l in enumerate(lv):
                for l2 in lv[n:]:
                    h, idx, val = other(l2)
                    same = tup_eq_raw(tuple(l.idx), idx)
                    if same is FALSE:
                        continue
                    if l.kind == "set" and l2.kind == "set":
                        rec("%s: iterations write different values" % c.name, (l.guard, h, same), eq(l.val, val) if not isbool(l.val) else lor(land(l.val, val), land(lnot(l.val), lnot(val))))
                    else:
                        rec("%s: iterations update the same entry" % c.name, (l.guard, h), lnot(same))
        # reads of entries that other iterations write
        for l in lv:
            for t in [l.guard, l.val] + list(l.idx):
                for r in atoms(t, lambda x: x.op == "read" and x.a[0] in H2cell):
                    c2 = H2cell[r.a[0]]
                    lv2 = info[c2]
                    if lv2 is None or isinstance(lv2, tuple):
                        rec("%s is read and replaced" % c2.name, (), FALSE)
                        continue
                    for l2 in lv2:
                        h, idx, _ = other(l2)
                        same = tup_eq_raw(r.a[1:], idx)
                        if same is not FALSE:
                            rec("%s: an iteration reads what another one writes" % c2.name, (l.guard, h), lnot(same))


def hvf(it, base, sort, k):
    """havoc value after the loop: depends on the enclosing loops only"""
    args = [x for x in it.loopstack if x is not k]
    return app("%s!%d" % (base, next_id()), sort, *args)


def iter_rng(j, a, k, step, up):
    if step == 1:
        return land(ge(j, a), lt(j, up))
    if step == -1:
        return land(le(j, a), gt(j, up))
    return land(ge(j, ZERO), lt(j, up))


def last_value(it, v, s0, k, a, step, iters, kidx):
    """scalar assigned in every iteration independent of its previous value"""
    first = a if abs(step) == 1 else ZERO
    prevk = sub(k, ONE) if step > 0 else add(k, ONE)
    lastk = sub(add(first, iters), ONE) if step > 0 else add(sub(first, iters), ONE)
    cur = ite(eq(kidx, ZERO), s0, subst(v, {k: prevk}))
    d = CTX.decide(gt(iters, ZERO))
    fin = subst(v, {k: lastk})
    if d is not True:
        fin = ite(gt(iters, ZERO), fin, s0)
    return cur, fin


def whole_last(it, ln, pv, pre, k, a, N, step, iters, fix, allH, smap, c):
    """an array completely reassigned in every iteration"""
    probe_q = tuple(fresh("q") for _ in pv.shape)
    t = fix(pv.node.read(probe_q))
    if fv(t) & allH or any(fv(x) & allH for x in pv.shape):
        raise Unsup("array %s at %s not summarised" % (c.name, ln))
    first = a if abs(step) == 1 else ZERO
    lastk = sub(add(first, iters), ONE) if step > 0 else add(sub(first, iters), ONE)
    m = {k: lastk}
    new = Arr([subst(fix(x), m) for x in pv.shape], pv.dt, NFn(lambda q: subst(fix(pv.node.read(q)), m)))
    if CTX.decide(gt(iters, ZERO)) is True:
        return new
    return merge_arr(gt(iters, ZERO), new, pre)


def array_effect(it, ln, c, lv, pre, Hval, post, k, rng, step, fix, check_reads, amap, allH, gmap=(), a=None, N=None):
    H = Hval.node.A
    if lv is None:
        raise Unsup("array %s at %s not summarised" % (c.name, ln))
    if not lv:
        return pre
    if tuple(post.shape) != tuple(Hval.shape):
        raise Unsup("array %s changes shape in a loop" % c.name)
    ok, r = check_reads(lv, c)
    if not ok:
        r2 = recurrence(it, ln, c, lv, pre, H, k, rng, step, fix, a, N)
        if r2 is not None:
            return r2
        raise Unsup("loop-carried dependence of %s at %s (%s)" % (c.name, ln, show(r)))
    flv = [l.map(fix) for l in lv]
    nd = len(pre.shape)
    name = "%s %s" % (ln, c.name)
    # ownership
    for comp in range(nd):
        o = owner(flv, comp, k, rng)
        if o is not None:
            it.obl.append(("loop %s: iteration k writes only its own entries (component %d)" % (name, comp), "own"))
            return pre.with_node(NLoop(pre.node, k, rng, post.node, H, "own", (comp,) + o, flv, fix))
    o = flat_owner(flv, pre.shape, k, rng)
    if o is not None:
        it.obl.append(("loop %s: iteration k writes only its own entry (flat index)" % name, "own"))
        return pre.with_node(NLoop(pre.node, k, rng, post.node, H, "ownflat", o, flv, fix))
    if CTX.ghosts and step == 1:
        for comp in range(nd):
            o = seq_owner(flv, comp, k, rng, gmap)
            if o is not None:
                it.obl.append(("loop %s: iteration k writes only the entries between two terms of a sequence (component %d)" % (name, comp), "own"))
                return pre.with_node(NLoop(pre.node, k, rng, post.node, H, "ownseq", (comp,) + o + (a, N), flv, fix))
    for comp in range(nd):
        o = inv_owner(flv, comp, k, rng)
        if o is not None:
            it.obl.append(("loop %s: iteration k writes only its own entry (component %d, through an array of distinct entries)" % (name, comp), "own"))
            return pre.with_node(NLoop(pre.node, k, rng, post.node, H, "owninv", (comp,) + o, flv, fix))
    if all(l.kind == "add" for l in flv):
        it.obl.append(("loop %s: all writes are additive and independent of the accumulated array" % name, "add"))
        return pre.with_node(NLoop(pre.node, k, rng, post.node, H, "add", None, flv, fix))
    if all(l.kind == "set" for l in flv):
        node = NLoop(pre.node, k, rng, post.node, H, "sk", None, flv, fix)
        node.info = skolem(node.own_leaves())
        it.obl.append(("loop %s: overlapping writes: value of one of the matching writes" % name, "sk"))
        return pre.with_node(node)
    raise Unsup("array %s at %s: mixed overlapping writes" % (c.name, ln))


def flat_owner(lv, shape, k, rng):
    """all writes at the multi-index of the flat index p = +-k + off"""
    if len(shape) < 2:
        return None
    p = None
    for l in lv:
        x = l.idx[-1]
        if x.op == "mod" and x.a[1] is shape[-1]:
            c = x.a[0]
        elif const(shape[-1]) == 1 and x is ZERO and l.idx[-2].op in ("mod", "div"):
            c = l.idx[-2].a[0]
        else:
            return None
        if p is None:
            p = c
        if p is not c or tuple(l.idx) != tuple(unflat(shape, p)) or set(l.vs) & fv(p):
            return None
    W = sub(subst(p, {k: add(k, ONE)}), p)
    if W is not ONE and cint(W) != -1:
        return None
    off = sub(p, mul(W, k))
    if k in fv(off):
        return None
    rests = [p]
    for d in range(len(shape) - 1, 0, -1):
        rests.append(div(rests[-1], shape[d], CTX.decide))
    rests.reverse()
    return tuple(shape), W, off, tuple(unflat(shape, p)), rests


def owner(lv, comp, k, rng):
    """(W, off): iteration k writes only component values in [W*k+off, W*k+off+W)"""
    W = None
    offs = []
    for l in lv:
        p = l.idx[comp]
        if k not in fv(p):
            return None
        k1 = fresh("k")
        w = sub(subst(p, {k: add(k, ONE)}), p)
        if k in fv(w) or (set(l.vs) & fv(w)) or w is ZERO:
            return None
        if W is None:
            W = w
        elif W is not w:
            return None
        off = sub(p, mul(w, k))
        if k in fv(off):
            return None
        offs.append((off, l))
    if (W is ONE or cint(W) == -1) and all(o is offs[0][0] for o, _ in offs) and not (set(offs[0][1].vs) & fv(offs[0][0])):
        return (W, offs[0][0])
    # interval
    cands = []
    for o, l in offs:
        base = o
        for v in l.vs:
            if v in fv(base):
                base = subst(base, {v: ZERO})
        if base not in cands:
            cands.append(base)
        # inner loops that do not start at zero
        base = o
        for v in l.vs:
            if v in fv(base):
                low = [neg(sub(x.a[0], v)) for x in conj(l.guard) if x.op == "ge0" and v not in fv(sub(x.a[0], v))]
                base = subst(base, {v: low[0] if low else ZERO})
        if base not in cands and not (set(l.vs) & fv(base)):
            cands.append(base)
    for base in cands:
        good = True
        for o, l in offs:
            n = CTX.push(land(rng, l.guard))
            try:
                d = sub(o, base)
                if CTX.decide(ge(d, ZERO), timeout=1500) is not True or CTX.decide(lt(d, W), timeout=1500) is not True:
                    good = False
                    break
            finally:
                CTX.pop(n)
        if good:
            return (W, base)
    return None


def seq_owner(lv, comp, k, rng, gmap):
    """(g, B): iteration k writes only component values in [g(k), g(k + 1)); B equals g(k)"""
    f = set()
    for l in lv:
        f |= fv(l.idx[comp])
    for B, g in list(gmap) + [(None, g) for g in CTX.ghosts]:
        lo, hi = g(k), g(add(k, ONE))
        if not is_int(lo) or not ({x for x in fv(lo) if isinstance(x, ArrSym)} & f):
            continue
        n = CTX.push(rng)
        try:
            if CTX.decide(le(lo, hi), timeout=1500) is not True:
                continue
        finally:
            CTX.pop(n)
        for l in lv:
            n = CTX.push(land(rng, l.guard))
            try:
                p = l.idx[comp]
                if CTX.decide(ge(p, lo), timeout=2000) is not True or CTX.decide(lt(p, hi), timeout=2000) is not True:
                    break
            finally:
                CTX.pop(n)
        else:
            return g, (lo if B is None else B)
    return None


def inv_owner(lv, comp, k, rng):
    """(S, off): iteration k writes only component value S[k] + off, S an array of distinct entries (with known inverse)"""
    p = None
    for l in lv:
        if p is None:
            p = l.idx[comp]
        if l.idx[comp] is not p or (set(l.vs) & fv(p)):
            return None
    if p is None:
        return None
    c = [r for r in atoms(p, lambda x: x.op == "read" and len(x.a) == 2 and x.a[1] is k and x.a[0] in CTX.inverse)]
    if len(c) != 1:
        return None
    S = c[0].a[0]
    off = sub(p, c[0])
    if k in fv(off):
        return None
    n = CTX.push(rng)
    try:
        if CTX.decide(ge(k, ZERO)) is not True or CTX.decide(lt(k, CTX.inverse[S][1])) is not True:
            return None
    finally:
        CTX.pop(n)
    return S, off


def skolem(leaves):
    """register the axioms of an overlapping write; returns (name, params)"""
    params = set()
    for l in leaves:
        f = set()
        for t in [l.guard, l.val] + list(l.idx):
            f |= {x for x in fv(t) if isinstance(x, T) and x.a[1] == "I"}
        # symbols that were never a binder are constants
        params |= {x for x in f - set(l.vs) if x in FRESH}
    params = tuple(sorted(params, key=lambda x: x.id))
    # canonical name by structure
    keyl = []
    for l in leaves:
        ren = {v: sym("$k%d" % i) for i, v in enumerate(l.vs)}
        keyl.append((subst(l.guard, ren), tuple(subst(x, ren) for x in l.idx), subst(l.val, ren)))
    key = tuple(keyl)
    if key in _sk:
        return _sk[key], params
    name = "sk%d" % (len(_sk) + 1)
    _sk[key] = name
    nd = len(leaves[0].idx)

    def split(args):
        return args[:nd], dict(zip(params, args[nd:]))

    def factE(args):
        q, pm = split(args)
        alts = []
        for i, l in enumerate(leaves):
            sk = dict(pm)
            for j, b in enumerate(l.vs):
                sk[b] = app("s%s_%d_%d" % (name, i, j), "I", *args)
            h = land(subst(l.guard, sk), tup_eq_raw(q, [subst(x, sk) for x in l.idx]))
            if len(leaves) > 1:
                h = land(h, eq(app("w" + name, "I", *args), num(i)))
            alts.append(h)
        return imp(app("E" + name, "B", *args), lor(*alts))

    CTX.appfacts["E" + name] = [factE]
    for i, l in enumerate(leaves):
        for j in range(len(l.vs)):
            CTX.appfacts["s%s_%d_%d" % (name, i, j)] = [factE]
    for l in leaves:
        E = app("E" + name, "B", *(list(l.idx) + list(params)))
        vs = tuple(l.vs) + params
        CTX.quant.append((vs, imp(l.guard, E), [E]))
    SKLEAVES["E" + name] = (leaves, nd, params)
    return name, params


_sk = {}
SKLEAVES = {}


def recurrence(it, ln, c, lv, pre, H, k, rng, step, fix, a, N):
    """A[k + off] = f(A[k + off - 1]): terms of a sequence"""
    if len(lv) != 1 or len(pre.shape) != 1 or lv[0].kind != "set" or lv[0].vs or lv[0].guard is not TRUE or step != 1:
        return None
    p = fix(lv[0].idx[0])
    if k in fv(sub(p, k)):
        return None
    before = lambda t: sub(p, ONE)
    v = lv[0].val
    rd = atoms(v, lambda x: x.op == "read" and x.a[0] is H)
    for r in rd:
        if sub(p, ONE) is not r.a[1]:
            return None
    first = subst(p, {k: a})
    prev = sub(first, ONE)
    keep = CTX.facts
    for g in CTX.ghosts:
        if is_int(g(k)) != (pre.dt == "I"):
            continue
        CTX.facts = [f for f in keep if k not in fv(f)]
        try:
            if CTX.decide(eq(g(prev), pre.read(prev)), timeout=2000) is not True:
                continue
        finally:
            CTX.facts = keep
        w = fix(subst(v, {}, {H: lambda idx: g(idx[0])}))
        n = CTX.push(rng)
        try:
            ok = CTX.decide(eq(w, g(p)), timeout=3000) is True
        finally:
            CTX.pop(n)
        if ok:
            it.obl.append(("loop %s %s: entries are the terms of a sequence" % (ln, c.name), "own"))
            n = sub(N, a)
            if CTX.decide(ge(n, ZERO)) is not True:
                n = ite(ge(n, ZERO), n, ZERO)
            return pre.with_node(NRegion(pre.node, (("r", first, n, 1),), lambda j: g(add(first, j[0]))))
    return None


def scatter(it, cell, base, k, rng, leaf):
    """A[idx(k)] (kind) val(k) for all k in rng, as one vectorised statement"""
    H = ArrSym("H!%d" % next_id(), base.nd, base.dt)
    body = NUpd(NSym(H), sigof(leaf.idx), {tuple(leaf.idx): (leaf.kind, leaf.val)})
    n = CTX.push(rng)
    try:
        lv = [leaf]
        o = None
        for comp in range(base.nd):
            o = owner(lv, comp, k, rng)
            if o is not None:
                node = NLoop(base.node, k, rng, body, H, "own", (comp,) + o, lv, lambda t, m=None: subst(t, m) if m else t)
                break
        else:
            o = None
            for comp in range(base.nd):
                o = inv_owner(lv, comp, k, rng)
                if o is not None:
                    break
            if o is not None:
                node = NLoop(base.node, k, rng, body, H, "owninv", (comp,) + o, lv, lambda t, m=None: subst(t, m) if m else t)
            elif leaf.kind == "add":
                node = NLoop(base.node, k, rng, body, H, "add", None, lv, lambda t, m=None: subst(t, m) if m else t)
            else:
                node = NLoop(base.node, k, rng, body, H, "sk", None, lv, lambda t, m=None: subst(t, m) if m else t)
                node.info = skolem(node.own_leaves())
    finally:
        CTX.pop(n)
    it.st[cell] = base.with_node(node)


def early_exit(it, ln, lv, k, a, N, step, rng, kval, st_pre, M, cn, brk, rest, post, iters, kidx):
    """search loops: nothing but the loop variable is modified before the exit"""
    if M:
        # allow only cells that are modified on the exit paths
        for c in M:
            if not same_val(post.get(c), M[c]):
                raise Unsup("early exit from a loop with effects at %s" % ln)
    if step != 1:
        raise Unsup("early exit with step")
    B = FALSE
    for x in brk + rest:
        B = lor(B, x[0])
    # undo placeholders
    m = {}
    am = {}
    for c, v in M.items():
        if isinstance(v, T):
            m[v] = st_pre[c]
        elif isinstance(v, Arr):
            am[v.node.A] = lambda idx, c=c: st_pre[c].node.read(idx)
        else:
            raise Unsup("early exit with effects")
    B = subst(B, m, am) if (m or am) else B
    E = exists((k,), land(rng, B))
    ks = hv_k(it, k)
    first = land(subst(rng, {k: ks}), subst(B, {k: ks}))
    j = fresh("j")
    fact = land(first, forall((j,), imp(land(ge(j, a), lt(j, ks)), lnot(subst(B, {k: j})))))
    outs = []
    facts_needed = imp(E, fact)
    it.exitfacts = getattr(it, "exitfacts", [])
    it.exitfacts.append(facts_needed)

    def fixv(t):
        t = subst(t, m, am) if (m or am) else t
        return subst(t, {k: ks})

    def fixval(v):
        if v is None or isinstance(v, Obj):
            return v
        if isinstance(v, T):
            return fixv(v)
        if isinstance(v, Arr):
            return Arr([fixv(x) for x in v.shape], v.dt, NFn(lambda q, v=v: fixv(v.node.read(q))))
        raise Unsup("early exit value")

    base = dict(st_pre)
    base[lv] = wrap(st_pre[lv], subst(kval, {k: ks}))
    alln = []
    for c, kd, v, s2 in brk + rest:
        st = dict(base)
        for cell in M:
            st[cell] = fixval(s2[cell])
        alln.append((land(E, fixv(c)), kd, fixval(v), st))
    # expose the defining facts of the exit index to the prover
    CTX_extra.append(facts_needed)
    st_n = dict(st_pre)
    st_n[lv] = wrap(st_pre[lv], add(a, iters))
    cond_n = lnot(E)
    it.st = st_n
    if brk:
        cond = cond_n
        for c, kd, v, s2 in alln:
            if kd == "break":
                st_n = it.merge_states(c, s2, st_n)
                cond = lor(cond, c)
        it.st = st_n
        return cond, [x for x in alln if x[1] != "break"]
    # single constant return value: no need for the exit index
    if len({id(x[2]) for x in alln}) == 1 and isinstance(alln[0][2], T) and alln[0][2].op in ("true", "false", "num"):
        x = alln[0]
        return cond_n, [(E, x[1], x[2], x[3])]
    return cond_n, alln


CTX_extra = []


def hv_k(it, k):
    return app("kx!%d" % next_id(), "I", *[x for x in it.loopstack if x is not k])
