"""Assumption context and the bridge to the SMT solver (z3)."""
import time
import z3
from terms import *

import os
z3.set_param("smt.random_seed", 1)


class Stats:
    def __init__(self):
        self.calls = 0
        self.time = 0.0


def sqrt_facts(args):
    a, = args
    r = app("sqrt", "R", a)
    return land(lor(lt(a, ZERO), ge(r, ZERO)), lor(le(a, ZERO), gt(r, ZERO)), lor(ne(a, ZERO), eq(r, ZERO)))


class Ctx:
    def __init__(self):
        self.facts = []          # stack of bool terms
        self.arrfacts = {}       # ArrSym -> [fn(idx)->bool term]
        self.appfacts = {"sqrt": [sqrt_facts]}       # app name -> [fn(args)->bool term]
        self.quant = []          # quantified bool terms (forall) with z3 patterns: (vars, body, [pattern terms])
        self.inverse = {}        # ArrSym -> (inverse function, length) of 1-d arrays with distinct entries
        self.invname = {}        # name of the inverse function -> (ArrSym, length)
        self.cache = {}
        self.defs = {}           # ArrSym -> computed array with that content
        self.ver = ()
        self.stats = Stats()
        self.assumptions = set()
        self.once = set()        # facts (recurrences) that are instantiated for the given terms only
        self.mono = {}           # ArrSym -> (lo, hi): non-decreasing on lo .. hi
        self.firsts = []         # candidate positions of the first entry of a list of booleans that is true
        self.ghosts = []         # functions of the iteration: candidate values of scalars and bounds of the entries written
        self.timeout = 400
        self.decided = 0
        self.memo = {}           # facts about a read, by the function
        self.z = (Z3(), Z3(True))
        self.taint = []          # reasons for which results may be imprecise

    def note(self, s):
        self.assumptions.add(s)

    def push(self, *fs):
        n = 0
        for f in fs:
            for x in conj(f):
                self.facts.append(x)
                n += 1
        return n

    def pop(self, n):
        if n:
            del self.facts[-n:]

    def assume(self, *fs):
        self.push(*fs)

    # -- instantiation of array facts for all reads in the given terms
    def instances(self, terms, rounds=3, limit=400, skip=()):
        out, seenr = [], set(skip)
        frontier = terms = list(terms)
        for _ in range(rounds):
            new = []
            reads = []
            for t in frontier:
                reads += atoms(t, lambda x: x.op in ("read", "app", "bapp"))
            for r in reads:
                if r in seenr:
                    continue
                seenr.add(r)
                if any(isinstance(v, T) and v.a[0].startswith("$") for v in fv(r)):
                    continue
                if r.op == "read":
                    for fn in self.arrfacts.get(r.a[0], ()):
                        if frontier is terms or fn not in self.once:
                            new += self.fact(fn, r, 1)
                else:
                    for fn in self.appfacts.get(r.a[0], ()):
                        new += self.fact(fn, r, 2)
            if not new:
                break
            out += new
            frontier = new
            if len(out) > limit:
                break
        return out

    def quantified(self, f):
        r = self.memo.get(("quantified", f))
        if r is None:
            r = self.memo[("quantified", f)] = f.op in ("forall", "exists") or any(self.quantified(x) for x in children(f))
        return r

    def translator(self, *fs):
        """translation that is kept, unless there are quantifiers"""
        if self.quant or any(self.quantified(f) for f in fs):
            return Z3()
        return self.z[0]

    def fact(self, fn, r, n):
        f = self.memo.get((fn, r))
        if f is None:
            d = self.decided
            f = conj(fn(r.a[n:]))
            # does it depend on the current facts?
            if d == self.decided:
                self.memo[(fn, r)] = f
        return f

    def pairs(self, terms, limit=12):
        """monotonicity facts for all pairs of reads of the same non-decreasing sequence"""
        if not self.mono:
            return []
        bound, by = set(), {}
        for t in terms:
            for q in atoms(t, lambda x: x.op in ("forall", "exists", "sum")):
                bound |= set(q.a[0])
        for t in terms:
            for r in atoms(t, lambda x: x.op == "read" and x.a[0] in self.mono):
                if not fv(r) & bound:
                    by.setdefault(r.a[0], {})[r] = None
        out = []
        for A, rs in by.items():
            lo, hi, inc = self.mono[A]
            rs = list(rs)[:limit]
            for x in rs:
                for y in rs:
                    i, j = x.a[1], y.a[1]
                    if x is not y:
                        f = self.memo.get((x, y))
                        if f is None:
                            f = () if (const(sub(i, j)) or -1) > 0 else (imp(land(le(lo, i), le(i, j), le(j, hi)), le(x, y)), imp(land(le(lo, i), lt(i, j), le(j, hi)), le(add(x, inc(i)), y)))
                            self.memo[(x, y)] = f
                        out += f
        out = [x for x in out if x is not TRUE]
        return out + self.instances(out, rounds=1)

    def decide(self, c, timeout=None):
        """True / False / None: is the condition valid / unsatisfiable under the current facts"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        self.decided += 1
        key = (c, tuple(self.facts))
        if key in self.cache:
            return self.cache[key]
        r = None
        nc = lnot(c)
        fs = set(self.facts)
        if c in fs:
            r = True
        elif nc in fs:
            r = False
        else:
            r = self._smt(c, nc, timeout or self.timeout)
        self.cache[key] = r
        return r

    def inconsistent(self, timeout=1000):
        """are the current facts contradictory"""
        key = ("inc", tuple(self.facts))
        if key not in self.cache:
            s = z3.Solver()
            s.set("timeout", timeout)
            z = self.translator(*self.facts)
            for f in self.facts + self.instances(self.facts, rounds=2):
                post(s, z.b(f))
            t0 = time.time()
            self.cache[key] = s.check() == z3.unsat
            self.stats.time += time.time() - t0
            self.stats.calls += 1
        return self.cache[key]

    def _relevant(self, terms):
        """cone of influence of the facts"""
        syms = set()
        for t in terms:
            syms |= fv(t)
        rest = list(self.facts)
        out = []
        changed = True
        while changed and rest:
            changed = False
            keep = []
            for f in rest:
                if fv(f) & syms or not fv(f):
                    out.append(f)
                    new = fv(f) - syms
                    if new:
                        syms |= new
                        changed = True
                    else:
                        changed = changed
                else:
                    keep.append(f)
            if len(keep) == len(rest):
                break
            rest = keep
        return out

    def _smt(self, c, nc, timeout):
        t0 = time.time()
        self.stats.calls += 1
        inst = self.instances([c])
        rel = self._relevant([c] + inst)
        rel = rel + inst + self.instances(rel, rounds=1)
        rel += self.pairs(rel + [c])
        for x, r in ((nc, True), (c, False)):
            if linear_unsat(rel + [x], min(timeout, 1000)):
                self.stats.time += time.time() - t0
                return r
        s = z3.Solver()
        s.set("timeout", timeout)
        z = self.translator(c, *rel)
        for f in rel:
            post(s, z.b(f))
        try:
            s.push()
            post(s, z.b(nc))
            r = s.check()
            if r == z3.unsat:
                return True
            s.pop()
            post(s, z.b(c))
            if s.check() == z3.unsat:
                return False
        finally:
            self.stats.time += time.time() - t0
        return None

    def quant_instances(self, base, inst, rounds=2, limit=300):
        """instances of the quantified facts at the ground terms (syntactic matching), with the array facts they need:
        the list after every round"""
        inst = list(dict.fromkeys(inst))
        done = set()
        if any(p == ["*"] for _, _, p in self.quant):
            rounds += 1
        for rnd in range(rounds):
            star = any(p == ["*"] for _, _, p in self.quant) and rnd == 0
            bound = set()
            for t in base + inst:
                for q in atoms(t, lambda x: x.op in ("forall", "exists", "sum")):
                    bound |= set(q.a[0])
            ground = {}
            for t in base + inst:
                for r in atoms(t, lambda x: x.op in ("read", "app", "bapp")):
                    f = fv(r)
                    if f & bound or any(isinstance(v, T) and v.a[0].startswith("$") for v in f):
                        continue
                    ground.setdefault((r.op, r.a[0]), {})[r] = None
            new = []
            concl = set()
            bargs = []
            for n, (vs, body, pats) in enumerate(self.quant):
                if pats == ["*"]:
                    # instantiate at the argument of every (one-argument) existential
                    if not bargs:
                        bargs = list({r.a[2]: None for (o, _), rs in ground.items() if o == "bapp" and r0_is_E(_) for r in rs if len(r.a) == 3 and not isbool(r.a[2])})
                    for x in bargs[:50]:
                        if (n, (x,)) not in done:
                            done.add((n, (x,)))
                            new.append(subst(body, {vs[0]: x}))
                    continue
                if star:
                    continue
                for g in auto_pattern(vs, body, pats, True):
                    binds = [{}]
                    for p in g:
                        nb = []
                        for b in binds:
                            for r in ground.get((p.op, p.a[0]), ()):
                                b2 = match(p, r, set(vs), b)
                                if b2 is not None:
                                    nb.append(b2)
                            if len(nb) > limit:
                                break
                        binds = nb
                    for b in binds[:limit]:
                        key = (n, tuple(b.get(v) for v in vs))
                        if key in done:
                            continue
                        done.add(key)
                        new.append(subst(body, b))
                        if len(pats) == 1 and isinstance(pats[0], T) and pats[0].op == "bapp":
                            concl.add(subst(pats[0], b))
            if not new and not star:
                break
            # existentials that are the conclusion of an instance have a witness already: no skolem instance for them
            for t in inst + base:
                concl -= set(atoms(t, lambda x: x.op == "bapp"))
            new += self.instances(new, limit=2000, skip=concl)
            inst = list(dict.fromkeys(inst + new))
            if not star:
                yield inst
            if len(inst) > 4000:
                break

    # -- full goal
    def prove_smt(self, goal, timeout=10000, extra=(), full=True):
        t0 = time.time()
        self.stats.calls += 1
        s = z3.Solver()
        s.set("timeout", timeout)
        z = self.translator(*[x for x in [goal] + list(extra) + self.facts if isbool(x)])
        base = [goal] + list(extra) + self.facts
        inst = self.instances(base, limit=3000)
        inst += self.pairs(base + inst, 16)
        for f in list(self.facts) + [x for x in extra if isbool(x)]:
            post(s, z.b(f))
        if linear_unsat(list(self.facts) + [x for x in extra if isbool(x)] + inst + [lnot(goal)], min(timeout, 2000)):
            self.stats.time += time.time() - t0
            return "proved", None
        if self.ground_unsat(list(self.facts) + [x for x in extra if isbool(x)] + [lnot(goal)], timeout):
            self.stats.time += time.time() - t0
            return "proved", None
        # first with the instances only, then with the quantified facts
        if self.quant:
            for inst in self.quant_instances(base, inst, 2 if full is not None else 1):
                s.push()
                s.set("timeout", min(timeout, 3000 if full is not None else 300))
                for f in inst:
                    post(s, z.b(f))
                post(s, z.b(lnot(goal)))
                r = s.check()
                s.pop()
                if r == z3.unsat:
                    self.stats.time += time.time() - t0
                    return "proved", None
            if not full:
                self.stats.time += time.time() - t0
                return "unknown", None
            s.set("timeout", timeout)
        for f in inst:
            post(s, z.b(f))
        for vs, body, pats in self.quant:
            s.add(z.quant(vs, body, pats))
        post(s, z.b(lnot(goal)))
        r = s.check()
        self.stats.time += time.time() - t0
        if r == z3.unsat:
            return "proved", None
        if r == z3.sat:
            try:
                return "sat", str(s.model())[:2000]
            except Exception:
                return "sat", None
        return "unknown", str(s.reason_unknown())

    def prenex(self, f, scope, vs):
        """a quantifier-free formula that the formula implies, its universal variables (in vs) renamed"""
        if not self.quantified(f):
            return f
        if f.op in ("and", "or"):
            return (land if f.op == "and" else lor)(*[self.prenex(x, scope, vs) for x in f.a])
        if f.op == "forall" or f.op == "exists" and not scope:
            new = {v: fresh(v.a[0].split("!")[0], v.a[1]) for v in f.a[0]}
            if f.op == "forall":
                vs += new.values()
                scope = scope + list(new.values())
            return self.prenex(subst(f.a[1], new), scope, vs)
        return TRUE

    def ground_unsat(self, fs, timeout):
        """are the formulas contradictory, by instances of the quantified ones"""
        if not any(self.quantified(f) for f in fs):
            return False
        ground, keep = [], self.quant
        self.quant = list(keep)
        try:
            todo = list(fs)
            while todo:
                f = todo.pop(0)
                if f.op == "and":
                    todo[:0] = f.a
                    continue
                vs = []
                f = self.prenex(f, [], vs)
                if vs:
                    self.quant.append((vs, f, []))
                else:
                    ground += conj(f)
            inst = self.instances(ground, limit=3000)
            inst += self.pairs(ground + inst, 16)
            for inst in self.quant_instances(ground, inst, 3):
                if linear_unsat(ground + inst, min(timeout, 2000)):
                    return True
                s = z3.Solver()
                s.set("timeout", min(timeout, 3000))
                for f in ground + inst:
                    post(s, self.z[0].b(f))
                if s.check() == z3.unsat:
                    return True
        finally:
            self.quant = keep
        return False

    def satisfiable(self, timeout=5000):
        """vacuity: are the facts consistent?"""
        s = z3.Solver()
        s.set("timeout", timeout)
        z = self.translator(*self.facts)
        inst = self.instances(self.facts, limit=500)
        for f in list(self.facts) + inst:
            post(s, z.b(f))
        return str(s.check())


def r0_is_E(name):
    """is this predicate the existential of an overlapping write"""
    return name.startswith("Esk")


def match(p, t, vs, b):
    if p in vs:
        o = b.get(p)
        if o is None:
            b = dict(b)
            b[p] = t
            return b
        return b if o is t else None
    if p is t:
        return b
    if p.op != t.op or p.op not in ("read", "app", "bapp") or len(p.a) != len(t.a) or p.a[0] != t.a[0]:
        return None
    for x, y in zip(p.a[(1 if p.op == "read" else 2):], t.a[(1 if p.op == "read" else 2):]):
        b = match(x, y, vs, b)
        if b is None:
            return None
    return b


def patternable(t):
    return t.op in ("sym", "num") or t.op in ("read", "app", "bapp") and all(patternable(x) for x in t.a[(1 if t.op == "read" else 2):])


def auto_pattern(vs, body, pats, both=False):
    """usable z3 patterns: the given ones when they contain no interpreted symbol, otherwise a cover by reads"""
    out = []
    for p in pats:
        if p == "*":
            return []
        g = list(p) if isinstance(p, (list, tuple)) else [p]
        cov = set()
        for x in g:
            cov |= fv(x)
        if all(patternable(x) and x.op != "sym" for x in g) and set(vs) <= cov:
            out.append(g)
    if out and not both:
        return out
    c = [x for x in atoms(body, lambda x: x.op in ("read", "app", "bapp")) if patternable(x) and fv(x) & set(vs)]
    c.sort(key=lambda x: (-len(fv(x) & set(vs)), x.id))
    left = set(vs)
    g = []
    for x in c:
        if fv(x) & left:
            g.append(x)
            left -= fv(x)
    return out + ([g] if not left and g else [])


class Quantified(Exception):
    pass


def products(fs, limit=400):
    """tautologies v >= 0, e >= 0: v e >= 0 (and v = 0 or e = 0: v e = 0), of which the products occur in the formulas"""
    monos = set()
    lits = {}
    seen, out = set(), []
    for f in fs:
        for t in atoms(f, lambda x: x.op in ("poly", "ge0", "gt0", "eq0"), out, seen):
            pass
    for t in out:
        if t.op == "poly":
            for m, c in t.a:
                m = tuple((x, e) for x, e in m if not (x.op == "ite" and x.a[1].op == "num" and x.a[2].op == "num"))
                if sum(e for x, e in m) > 1 and all(e > 0 for x, e in m):
                    monos.add(m)
        elif t.op != "poly":
            lits[t] = None
    if not monos and not any(x.a[1].op != "num" for f in fs for x in atoms(f, lambda x: x.op in ("div", "mod"))):
        return None
    by = {}
    for l in lits:
        for m in P(l.a[0]):
            if m:
                by.setdefault(m, []).append(l)
    res = {}
    for m in monos:
        for v, _ in m:
            if not is_int(v):
                continue
            r = CTX.memo.get((m, v))
            if r is None:
                r = P(div_real(fromP({m: Fraction(1)}), v))
                r = CTX.memo[(m, v)] = next(iter(r)) if len(r) == 1 else ()
            if not r:
                continue
            for l in by.get(r, []) + [ge(fromP({r: Fraction(1)}), ZERO)]:
                f = CTX.memo.get((v, l))
                if f is None:
                    f = CTX.memo[(v, l)] = product(v, l)
                if f and all(q in monos for q in f[1]):
                    res[f[0]] = None
                    if len(res) > limit:
                        return list(res)
    return list(res)


def product(v, l):
    if l.op not in ("ge0", "gt0", "eq0"):
        return ()
    e = l.a[0]
    if l.op == "gt0" and is_int(e):
        e = sub(e, ONE)
    p = mul(v, e)
    f = imp(land(ge(v, ZERO), ge(e, ZERO)), ge(p, ZERO)) if l.op != "eq0" else imp(eq(e, ZERO), eq(p, ZERO))
    return f, [q for q in P(p) if sum(x for _, x in q) > 1]


def post(s, f):
    """add a formula to a solver"""
    z3.Z3_solver_assert(s.ctx.ref(), s.solver, f.as_ast())


def linear_unsat(fs, timeout):
    """are the formulas contradictory, with every product an unknown; None: there are no products"""
    z = CTX.z[1]
    try:
        more = products(fs)
        if more is None:
            return None
        zs = [z.b(f) for f in fs + more]
    except Quantified:
        return None
    s = z3.Solver()
    s.set("timeout", timeout)
    for f in zs:
        post(s, f)
    return s.check() == z3.unsat


class Z3:
    """translation to z3; linear: products of unknowns are fresh unknowns (weaker facts; not below quantifiers)"""

    def __init__(self, linear=False):
        self.memo = {}
        self.fns = {}
        self.linear = linear
        self.products = 0

    def product(self, key, real):
        c = self.fns.get(key)
        if c is None:
            self.products += 1
            c = self.fns[key] = (z3.Real if real else z3.Int)("product#%d" % self.products)
        return c

    def split(self, m, real):
        """product, with the choices between numbers taken out"""
        for x, e in m:
            if x.op == "ite" and e == 1 and x.a[1].op == "num" and x.a[2].op == "num":
                rest = tuple(y for y in m if y[0] is not x)
                if len(rest) == 1 and rest[0][1] == 1:
                    r = self.n(rest[0][0])
                    r = z3.ToReal(r) if real and z3.is_int(r) else r
                else:
                    r = self.split(rest, real)
                v = [z3.RealVal(str(y.a[0])) if real else z3.IntVal(int(y.a[0])) for y in x.a[1:]]
                return z3.If(self.b(x.a[0]), v[0] * r, v[1] * r)
        return self.product(("product", m), real)

    def fn(self, key, name, args, sort):
        f = self.fns.get(key)
        if f is None:
            f = z3.Function(name, *(list(args) + [sort]))
            self.fns[key] = f
        return f

    def sortof(self, s):
        return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]

    def n(self, t):
        """numeric term"""
        r = self.memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "num":
            v = t.a[0]
            r = z3.IntVal(int(v)) if v.denominator == 1 else z3.RealVal(str(v))
        elif op == "sym":
            r = z3.Int(t.a[0]) if t.a[1] == "I" else z3.Real(t.a[0])
        elif op == "poly":
            real = not is_int(t)
            parts = []
            for m, c in t.a:
                fac = []
                if c != 1 or not m:
                    fac.append(z3.RealVal(str(c)) if real else z3.IntVal(int(c)))
                for x, e in m:
                    y = self.n(x)
                    if real and z3.is_int(y):
                        y = z3.ToReal(y)
                    if e < 0:
                        y = 1 / y
                        e = -e
                    for _ in range(e):
                        fac.append(y)
                if self.linear and (len(m) > 1 or m and m[0][1] != 1):
                    y = self.split(m, real)
                    fac = fac[:1] + [y] if c != 1 else [y]
                p = fac[0]
                for f in fac[1:]:
                    p = p * f
                parts.append(p)
            r = z3.Sum(parts) if len(parts) > 1 else parts[0]
        elif op == "read":
            idx = [self.n(x) for x in t.a[1:]]
            idx = [z3.ToInt(x) if z3.is_real(x) else x for x in idx]
            f = self.fn(t.a[0], "%s#%d" % (t.a[0].name, t.a[0].id), [z3.IntSort()] * len(idx), self.sortof(t.a[0].dt))
            r = f(*idx)
        elif op == "div":
            if self.linear and t.a[1].op != "num":
                r = self.memo[t] = self.product(t, False)
                return r
            a, b = self.n(t.a[0]), self.n(t.a[1])
            r = a / b
        elif op == "mod":
            if self.linear and t.a[1].op != "num":
                r = self.memo[t] = self.product(t, False)
                return r
            a, b = self.n(t.a[0]), self.n(t.a[1])
            r = a % b
        elif op == "ite":
            a, b = self.n(t.a[1]), self.n(t.a[2])
            if z3.is_real(a) != z3.is_real(b):
                a = z3.ToReal(a) if z3.is_int(a) else a
                b = z3.ToReal(b) if z3.is_int(b) else b
            r = z3.If(self.b(t.a[0]), a, b)
        elif op == "app":
            args = [self.n(x) if not isbool(x) else self.b(x) for x in t.a[2:]]
            f = self.fn(("app", t.a[0], tuple(str(x.sort()) for x in args), t.a[1]), t.a[0], [x.sort() for x in args], self.sortof(t.a[1]))
            r = f(*args) if args else (z3.Int(t.a[0]) if t.a[1] == "I" else z3.Real(t.a[0]))
        elif op == "patom":
            r = self.n(t.a[0])
        elif op == "sum":
            # uninterpreted constant depending on its free symbols only
            r = (z3.Int if is_int(t) else z3.Real)("sum#%d" % t.id)
        else:
            raise Exception("z3 " + op)
        self.memo[t] = r
        return r

    def b(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        op = t.op
        if op == "true":
            r = z3.BoolVal(True)
        elif op == "false":
            r = z3.BoolVal(False)
        elif op == "sym":
            r = z3.Bool(t.a[0])
        elif op == "read":
            idx = [self.n(x) for x in t.a[1:]]
            f = self.fn(t.a[0], "%s#%d" % (t.a[0].name, t.a[0].id), [z3.IntSort()] * len(idx), z3.BoolSort())
            r = f(*idx)
        elif op == "and":
            r = z3.And(*[self.b(x) for x in t.a])
        elif op == "or":
            r = z3.Or(*[self.b(x) for x in t.a])
        elif op == "not":
            r = z3.Not(self.b(t.a[0]))
        elif op == "ge0":
            r = self.n(t.a[0]) >= 0
        elif op == "gt0":
            r = self.n(t.a[0]) > 0
        elif op == "eq0":
            r = self.n(t.a[0]) == 0
        elif op == "bapp":
            args = [self.n(x) if not isbool(x) else self.b(x) for x in t.a[2:]]
            f = self.fn(("app", t.a[0], tuple(str(x.sort()) for x in args), "B"), t.a[0], [x.sort() for x in args], z3.BoolSort())
            r = f(*args) if args else z3.Bool(t.a[0])
        elif op in ("forall", "exists"):
            if self.linear:
                raise Quantified()
            vs = [self.n(v) for v in t.a[0]]
            body = self.b(t.a[1])
            r = (z3.ForAll if op == "forall" else z3.Exists)(vs, body)
        else:
            raise Exception("z3 bool " + op)
        self.memo[t] = r
        return r

    def quant(self, vs, body, pats):
        zv = [self.n(v) for v in vs]
        pats = auto_pattern(vs, body, pats)
        if pats:
            ps = []
            for p in pats:
                if isinstance(p, (list, tuple)):
                    ps.append(z3.MultiPattern(*[self.b(x) if isbool(x) else self.n(x) for x in p]))
                else:
                    ps.append(z3.MultiPattern(self.b(p) if isbool(p) else self.n(p)))
            return z3.ForAll(zv, self.b(body), patterns=ps)
        return z3.ForAll(zv, self.b(body))


CTX = Ctx()
