"""Symbolic interpreter for the exported (instantiated) GooseFEM functions."""
import itertools
import json
from fractions import Fraction
from terms import *
from arrays import *
from ctx import CTX

import sys
sys.setrecursionlimit(20000)


class Cell:
    __slots__ = ("name",)

    def __init__(self, name=""):
        self.name = name


class Rec:
    """record object: field id -> Cell (structure immutable, contents in the state)"""
    __slots__ = ("rid", "cells")

    def __init__(self, rid, cells):
        self.rid, self.cells = rid, cells


class Vec:
    """std::vector / list of non-scalar values, concrete length"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)


class Obj:
    __slots__ = ("kind", "d")

    def __init__(self, kind, *d):
        self.kind, self.d = kind, d


class LElem:
    __slots__ = ("b", "idx")

    def __init__(self, b, idx):
        self.b, self.idx = b, tuple(idx)


class LView:
    """view on an array lvalue (or value).  spec per base axis: ('i', t) | ('r', start, n, step) | ('k', [terms]);
    out: list mapping result axis -> base axis or None (newaxis)"""
    __slots__ = ("b", "spec", "out")

    def __init__(self, b, spec, out):
        self.b, self.spec, self.out = b, spec, out


class LAdapt:
    __slots__ = ("p", "shape")

    def __init__(self, p, shape):
        self.p, self.shape = p, tuple(shape)


class LFlat:
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class Ptr:
    """pointer/iterator: lvalue of an array + flat offset; or pointer to an arbitrary lvalue (arr None)"""
    __slots__ = ("b", "off", "idx")

    def __init__(self, b, off, idx=None):
        self.b, self.off, self.idx = b, off, idx


class Sp:
    """sparse/dense 2-d Eigen matrix as a function"""
    __slots__ = ("rows", "cols", "fn")

    def __init__(self, rows, cols, fn):
        self.rows, self.cols, self.fn = rows, cols, fn


class Rows:
    """std::vector<std::vector<integer>> of symbolic length: per row the number of occurrences of every value (cell `cnt`,
    rows x values) and whether the row is in ascending order (cell `srt`)"""
    __slots__ = ("cnt", "srt")

    def __init__(self, cnt, srt):
        self.cnt, self.srt = cnt, srt


class SVec:
    """std::vector of arrays of symbolic length: n0 entries given by gen(index) (not modified), then `items`"""
    __slots__ = ("n0", "gen", "items")

    def __init__(self, n0, gen, items=()):
        self.n0, self.gen, self.items = n0, gen, tuple(items)

    def at(self, i):
        j = cint(sub(i, self.n0))
        if j is not None and 0 <= j < len(self.items):
            return self.items[j]
        if CTX.decide(land(ge(i, ZERO), lt(i, self.n0))) is True:
            return self.gen(i)
        raise Unsup("entry of a list of arrays")


class LRow:
    """one row as an lvalue"""
    __slots__ = ("rows", "i")

    def __init__(self, rows, i):
        self.rows, self.i = rows, i


class RowVal:
    """value of one row"""
    __slots__ = ("cnt", "srt")

    def __init__(self, cnt, srt):
        self.cnt, self.srt = cnt, srt

    def size(self):
        j = fresh("v")
        return sum_((j,), land(ge(j, ZERO), lt(j, self.cnt.shape[0])), self.cnt.read(j))


ROWVALS = num(2 ** 64)

def alt2(x, base, l):
    """lvalue x with its base replaced"""
    if x is base:
        return l
    if isinstance(x, LElem):
        return LElem(alt2(x.b, base, l), x.idx)
    if isinstance(x, LView):
        return LView(alt2(x.b, base, l), x.spec, x.out)
    return LFlat(alt2(x.b, base, l))


class LCond:
    """c ? a : b as an lvalue"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


LV = (Cell, LElem, LCond, LView, LAdapt, LFlat, LRow)


def strip_t(q):
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if c == "<" and not q.startswith("operator<", max(0, i - 8)):
            d += 1
        elif c == ">" and d > 0:
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return "".join(out)


DT = {"f64": "R", "f32": "R", "b": "B"}


def scalar_type(t):
    return t in ("f64", "f32", "b") or (t[0] in "iu" and t[1:].isdigit()) or t.startswith("enum:")


def dt_of(t):
    if t in ("f64", "f32"):
        return "R"
    if t == "b":
        return "B"
    return "I"


def arr_type(t):
    """(ndim or None, dtype, fixed shape or None) for array-like class types; None otherwise"""
    for p in ("xt::xtensor_container<", "xt::xarray_container<", "xt::xfixed_container<", "std::array<", "std::vector<", "xt::uvector<", "xt::svector<", "Eigen::Matrix<", "std::initializer_list<", "xt::const_array<"):
        if t.startswith(p):
            break
    else:
        return None
    import re
    inner = t[len(p):]
    if p.startswith("xt::xt"):
        m = re.match(r"xt::uvector<(\w+),[^>]*>,(\d+),", inner)
        if not m:
            return None
        return int(m.group(2)), dt_of(m.group(1)), None
    if p.startswith("xt::xa"):
        m = re.match(r"xt::uvector<(\w+)", inner)
        return None, dt_of(m.group(1)), None
    if p.startswith("xt::xf"):
        m = re.match(r"(\w+),xt::fixed_shape<([\d,]*)>", inner)
        if not m:
            return None
        sh = [int(x) for x in m.group(2).split(",") if x]
        return len(sh), dt_of(m.group(1)), sh
    if p in ("std::array<", "xt::const_array<"):
        m = re.match(r"(\w+),(\d+)>", inner)
        if not m or not scalar_type(m.group(1)):
            return None
        return 1, dt_of(m.group(1)), [int(m.group(2))]
    if p in ("std::vector<", "xt::uvector<", "xt::svector<", "std::initializer_list<"):
        m = re.match(r"(\w+)[,>]", inner)
        if not m or not scalar_type(m.group(1)):
            return None
        return 1, dt_of(m.group(1)), None
    if p == "Eigen::Matrix<":
        m = re.match(r"(\w+),(-?\d+),(-?\d+)", inner)
        if m.group(3) == "1":
            return 1, dt_of(m.group(1)), None
        return None
    return None


def find_statics(fns):
    """static local variables of (atomic) integer type: id -> (name, initial value)"""
    out = {}

    def const(i):
        while isinstance(i, dict):
            if i["k"] == "int":
                return int(i["v"])
            if i["k"] == "ctor" and len(i.get("a", ())) == 1:
                i = i["a"][0]
            elif i["k"] == "cast":
                i = i["e"]
            elif i["k"] == "ilist" and len(i.get("a", ())) == 1:
                i = i["a"][0]
            else:
                return None
        return None

    def walk(x):
        if isinstance(x, dict):
            if x.get("static") and "i" in x and (x["t"].startswith("std::atomic") or scalar_type(x["t"])):
                v = const(x["i"])
                if v is not None:
                    out[x["id"]] = (x["n"], v)
            if x.get("k") == "gvar" and not x.get("const", 1) and "i" in x and (x["t"].startswith("std::atomic") or scalar_type(x["t"])):
                v = const(x["i"])
                if v is not None:
                    out[x["id"]] = (x["q"].split("::")[-1], v)
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)

    walk([f.get("body") for f in fns])
    return out


class Interp:
    def __init__(self, data, lib, contracts=None):
        self.F = {f["id"]: f for f in data["functions"]}
        self.R = {r["id"]: r for r in data["records"]}
        self.byname = {}
        for f in data["functions"]:
            self.byname.setdefault(f["q"], []).append(f)
        self.lib = lib
        self.contracts = contracts or {}
        self.st = {}
        self.env = None
        self.this = None
        self.used = {}
        self.libused = {}
        self.loopstack = []
        self.obl = []
        self.bnd = []
        self.bnd_ok = set()
        self.depth = 0
        self.gcache = {}
        self.throws = []
        self.line = "?"
        self.steps = 0
        self.omp = []
        self.ompshared = None
        self.ompnext = None
        self.races = []
        self.loopinv = []
        # static and global integers: any value that is at least the initial value
        self.statics = {}
        if "_statics" not in data:
            data["_statics"] = find_statics(data["functions"])
        for vid, (name, init) in sorted(data["_statics"].items()):
            c = Cell(name)
            v = sym("static_%s!%s" % (name, vid), "I")
            self.statics[vid] = c
            self.st[c] = v
            if init is not None:
                CTX.assume(ge(v, num(init)))

    # ------------------------------------------------------------- memory
    def new(self, v, name=""):
        c = Cell(name)
        self.st[c] = v
        return c

    def load(self, x):
        if isinstance(x, Cell):
            v = self.st.get(x)
            if v is None:
                raise Unsup("uninitialised cell " + x.name)
            return v
        if isinstance(x, LElem):
            b = self.load(x.b)
            if isinstance(b, Arr):
                self.inbounds(b.shape, x.idx)
                return b.read(*x.idx)
            if isinstance(b, Sp):
                return b.fn(*x.idx)
            if isinstance(b, Vec):
                i = cint(x.idx[0])
                if i is None:
                    raise Unsup("symbolic index in vector of objects")
                return self.load(b.items[i])
            raise Unsup("element of %s" % type(b).__name__)
        if isinstance(x, LCond):
            n = CTX.push(x.c)
            try:
                a = self.load(x.a)
            finally:
                CTX.pop(n)
            n = CTX.push(lnot(x.c))
            try:
                b = self.load(x.b)
            finally:
                CTX.pop(n)
            return self.merge_vals(x.c, a, b)
        if isinstance(x, LView):
            return self.view_val(x)
        if isinstance(x, LAdapt):
            return self.adapt_val(x)
        if isinstance(x, LRow):
            c, o = self.st[x.rows.cnt], self.st[x.rows.srt]
            self.inbounds(o.shape, (x.i,))
            return RowVal(Arr((ROWVALS,), "I", NFn(lambda q, c=c, i=x.i: c.node.read((i,) + tuple(q)))), o.read(x.i))
        if isinstance(x, LFlat):
            a = self.load(x.b)
            if len(a.shape) == 1:
                return a
            return Arr((a.size(),), a.dt, NFn(lambda q, a=a: a.read(*unflat(a.shape, q[0]))))
        return x

    def inbounds(self, shape, idx):
        """obligation: the element access is within the bounds of the array"""
        if len(shape) != len(idx):
            return
        for n, i in zip(shape, idx):
            c = land(ge(i, ZERO), lt(i, n))
            if c is TRUE:
                continue
            key = (self.line, c)
            if CTX.decide(c) is True:
                self.bnd_ok.add(key)
            else:
                self.bnd.append((self.line, tuple(CTX.facts), c))

    def require(self, c):
        """obligation: precondition of a library function"""
        if c is TRUE:
            return
        key = (self.line, c)
        if CTX.decide(c) is True:
            self.bnd_ok.add(key)
        else:
            self.bnd.append((self.line, tuple(CTX.facts), c))

    def view_map(self, spec, out, q):
        """index of view -> index of base"""
        idx = []
        pos = {ba: i for i, ba in enumerate(out) if ba is not None}
        for ba, s in enumerate(spec):
            if s[0] == "i":
                idx.append(s[1])
            elif s[0] == "r":
                j = q[pos[ba]]
                idx.append(add(s[1], mul(num(s[3]), j)))
            else:
                j = q[pos[ba]]
                k = cint(j)
                if s[0] == "k":
                    if k is not None:
                        idx.append(s[1][k])
                    else:
                        r = s[1][-1]
                        for i in range(len(s[1]) - 2, -1, -1):
                            r = ite(eq(j, num(i)), s[1][i], r)
                        idx.append(r)
                else:  # 'K': index array
                    idx.append(s[1].read(j))
        return tuple(idx)

    def view_shape(self, v, base):
        sh = []
        for ba in v.out:
            if ba is None:
                sh.append(ONE)
            else:
                s = v.spec[ba]
                sh.append(s[2] if s[0] == "r" else num(len(s[1])) if s[0] == "k" else s[1].shape[0])
        return tuple(sh)

    def view_val(self, v):
        base = self.load(v.b)
        sh = self.view_shape(v, base)
        return Arr(sh, base.dt, NFn(lambda q: base.node.read(self.view_map(v.spec, v.out, q))))

    def adapt_idx(self, x, base, q):
        """element q of an adapted pointer -> index into the base array"""
        p = x.p
        nb, na = len(base.shape), len(x.shape)
        idx0 = p.idx
        if idx0 is not None and na <= nb and all(i is ZERO for i in idx0[nb - na:]):
            if all(a is b for a, b in zip(base.shape[nb - na + 1:], x.shape[1:])) and (na == nb or base.shape[nb - na] is x.shape[0] or CTX.decide(ge(base.shape[nb - na], x.shape[0])) is True):
                return tuple(idx0[: nb - na]) + tuple(q)
        off = p.off if idx0 is None else flat_index(base.shape, idx0)
        return unflat(base.shape, add(off, flat_index(x.shape, q)))

    def adapt_val(self, x):
        base = self.load(x.p.b)
        return Arr(x.shape, base.dt, NFn(lambda q: base.node.read(self.adapt_idx(x, base, q))))

    def elem(self, lv, idx):
        """lvalue for element idx of an array lvalue/value; negative/short indices are resolved by the caller"""
        if isinstance(lv, LV):
            return LElem(lv, idx)
        return LElem(self.new(lv), idx)

    def root(self, lv, idx):
        """element idx of array lvalue lv -> (cell, index in that cell's array)"""
        while True:
            if isinstance(lv, Cell):
                return lv, idx
            if isinstance(lv, LView):
                idx = self.view_map(lv.spec, lv.out, idx)
                lv = lv.b
            elif isinstance(lv, LAdapt):
                base = self.load(lv.p.b)
                idx = self.adapt_idx(lv, base, idx)
                lv = lv.p.b
            elif isinstance(lv, LFlat):
                a = self.load(lv.b)
                idx = unflat(a.shape, idx[0]) if len(a.shape) != 1 else idx
                lv = lv.b
            elif isinstance(lv, LElem):
                b = self.load(lv.b)
                if isinstance(b, Vec):
                    i = cint(lv.idx[0])
                    if i is None:
                        raise Unsup("symbolic index in vector of objects")
                    lv = b.items[i]
                else:
                    raise Unsup("root of element")
            else:
                raise Unsup("write to a temporary")

    def store(self, lv, v, kind="set"):
        base = lv
        while isinstance(base, (LElem, LView, LFlat)):
            base = base.b
        if isinstance(base, LCond):
            # one of two alternatives
            st0 = self.st
            res = []
            for c, l in ((base.c, base.a), (lnot(base.c), base.b)):
                self.st = dict(st0)
                n = CTX.push(c)
                try:
                    self.store(alt2(lv, base, l), v, kind)
                finally:
                    CTX.pop(n)
                res.append(self.st)
            self.st = self.merge_states(base.c, res[0], res[1])
            return
        if isinstance(lv, Cell):
            if kind == "add":
                v = add(self.load(lv), v)
            self.st[lv] = v
            return
        if isinstance(lv, LElem):
            b = self.load(lv.b)
            if isinstance(b, Vec):
                i = cint(lv.idx[0])
                if i is None:
                    raise Unsup("symbolic index in vector of objects")
                self.st[b.items[i]] = v
                return
            if isinstance(b, Sp):
                raise Unsup("write to sparse matrix element")
            if not isinstance(lv.b, Cell):
                sh = self.load(lv.b)
                if isinstance(sh, Arr):
                    self.inbounds(sh.shape, lv.idx)
            cell, idx = self.root(lv.b, lv.idx)
            a = self.st[cell]
            if isinstance(a, Arr) and isinstance(lv.b, Cell):
                self.inbounds(a.shape, idx)
            if isinstance(a, Sp):
                raise Unsup("write to sparse matrix element")
            if kind == "set" and isinstance(v, T) and v.op in ("poly",) and a.dt != "B":
                # A[idx] = A[idx] + rest
                try:
                    old = a.node.read(idx) if any(c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "read" for m, c in v.a) else v
                except Unsup:
                    old = v
                if old.op == "read" and P(v).get(((old, 1),)) == 1:
                    rest = sub(v, old)
                    if old not in atoms(rest, lambda z: z is old):
                        v, kind = rest, "add"
            self.st[cell] = a.with_node(upd(a.node, idx, kind, v))
            return
        if isinstance(lv, (LView, LAdapt, LFlat)):
            self.assign_array(lv, v, kind)
            return
        if isinstance(lv, LRow) and isinstance(v, RowVal):
            c, o = self.st[lv.rows.cnt], self.st[lv.rows.srt]
            self.inbounds(o.shape, (lv.i,))
            self.st[lv.rows.cnt] = c.with_node(NRegion(c.node, [("i", lv.i), ("r", ZERO, ROWVALS, 1)], v.cnt.node.read))
            self.store(LElem(lv.rows.srt, (lv.i,)), v.srt)
            return
        raise Unsup("store to %s" % type(lv).__name__)

    def assign_array(self, lv, v, kind="set"):
        """whole-array assignment through an lvalue; v: Arr or scalar term (broadcast)"""
        if isinstance(lv, Cell):
            a = self.load(lv)
            if isinstance(v, T):
                if kind == "set":
                    self.st[lv] = a.with_node(NFn(lambda q, v=v: v))
                else:
                    cs = a.cshape()
                    self.st[lv] = a.with_node(NFn(lambda q, a=a, v=v: add(a.node.read(q), v)))
                return
            if kind == "set":
                self.st[lv] = v
            else:
                v = self.bcast(v, a.shape)
                self.st[lv] = a.with_node(NFn(lambda q, a=a, v=v: add(a.node.read(q), v.node.read(q))))
            return
        a = self.load(lv)
        if isinstance(v, T):
            vf = lambda q: v
        else:
            v = self.bcast(v, a.shape)
            vf = v.node.read
        cs = a.cshape()
        if None not in cs:
            n = 1
            for c in cs:
                n *= c
            if n <= 2000:
                vals = [(q, vf(q)) for q in a.elems()]
                for q, t in vals:
                    self.store(LElem(lv, q), t, kind)
                return
        # region
        if isinstance(lv, LView) and isinstance(lv.b, Cell) and all(s[0] in "ir" for s in lv.spec) and lv.out == [i for i, s in enumerate(lv.spec) if s[0] == "r"]:
            base = self.load(lv.b)
            self.st[lv.b] = base.with_node(NRegion(base.node, lv.spec, vf, kind))
            return
        if isinstance(lv, LAdapt) and isinstance(lv.p.b, Cell) and len(lv.shape) == 1:
            base = self.load(lv.p.b)
            off = self.ptr_off(lv.p)
            if base.nd == 1:
                if kind == "set" and off is ZERO and lv.shape[0] is base.shape[0]:
                    self.st[lv.p.b] = base.with_node(NFn(vf))
                else:
                    self.st[lv.p.b] = base.with_node(NRegion(base.node, [("r", off, lv.shape[0], 1)], vf, kind))
                return
            if off is ZERO and lv.shape[0] is base.size():
                self.st[lv.p.b] = base.with_node(NFn(lambda q, base=base: vf((flat_index(base.shape, q),)) if kind == "set" else add(base.node.read(q), vf((flat_index(base.shape, q),)))))
                return
        if isinstance(lv, LFlat) and isinstance(lv.b, Cell):
            base = self.load(lv.b)
            self.st[lv.b] = base.with_node(NFn(lambda q, base=base: vf((flat_index(base.shape, q),)) if kind == "set" else add(base.node.read(q), vf((flat_index(base.shape, q),)))))
            return
        if isinstance(lv, LView) and [x[0] for x in lv.spec].count("K") == 1 and all(x[0] in "iK" for x in lv.spec) and lv.out == [i for i, x in enumerate(lv.spec) if x[0] != "i"] and isinstance(lv.b, Cell):
            # scatter through an index array
            base = self.load(lv.b)
            k = fresh("k")
            idx, q = [], []
            for x in lv.spec:
                if x[0] == "i":
                    idx.append(x[1])
                elif x[0] == "K":
                    idx.append(x[1].read(k))
                    q.append(k)
                    rng = land(ge(k, ZERO), lt(k, x[1].shape[0]))
            from loops import scatter
            scatter(self, lv.b, base, k, rng, Leaf((), TRUE, tuple(idx), kind, vf(tuple(q))))
            return
        if isinstance(lv, LView) and isinstance(lv.b, Cell) and any(x[0] == "k" for x in lv.spec) and all(x[0] in "irk" for x in lv.spec) and lv.out == [i for i, x in enumerate(lv.spec) if x[0] != "i"]:
            # lists of indices: one region per combination
            ks = [i for i, x in enumerate(lv.spec) if x[0] == "k"]
            for c in itertools.product(*[range(len(lv.spec[i][1])) for i in ks]):
                pos = dict(zip(ks, c))
                spec = [("i", x[1][pos[i]]) if i in pos else x for i, x in enumerate(lv.spec)]

                def val(q, pos=pos):
                    q = iter(q)
                    return vf(tuple(num(pos[i]) if i in pos else next(q) for i in lv.out))

                base = self.load(lv.b)
                self.st[lv.b] = base.with_node(NRegion(base.node, spec, val, kind))
            return
        raise Unsup("assignment to a symbolic region")

    def bcast(self, v, shape):
        """broadcast array value to a shape of the same or larger rank"""
        if len(v.shape) == len(shape) and all(x is y for x, y in zip(v.shape, shape)):
            return v
        off = len(shape) - len(v.shape)
        if off < 0:
            raise Unsup("broadcast to lower rank")
        one = [cint(s) == 1 and cint(shape[off + i]) != 1 for i, s in enumerate(v.shape)]
        for i, s in enumerate(v.shape):
            if not one[i] and s is not shape[off + i]:
                if CTX.decide(eq(s, shape[off + i])) is not True:
                    if cint(s) is not None and cint(shape[off + i]) is not None:
                        raise Unsup("shape mismatch")
                    CTX.note("shapes of operands of element-wise expressions agree")

        def f(q):
            return v.node.read(tuple(ZERO if one[i] else q[off + i] for i in range(len(v.shape))))

        return Arr(shape, v.dt, NFn(f))

    # ------------------------------------------------------------- objects
    def default(self, t, name=""):
        """default-initialised object of type t"""
        if t.startswith("R") and t[1:].isdigit():
            return self.new_rec(int(t[1:]))
        if scalar_type(t):
            return fresh("undef_" + name, dt_of(t))
        a = arr_type(t)
        if a is not None:
            nd, dt, sh = a
            if sh is not None:
                return new_arr("undef_" + name, [num(x) for x in sh], dt)
            if t.startswith("std::vector<"):
                return vec([], dt)
            if nd is None:
                return new_arr("undef_" + name, [ZERO], dt)
            return new_arr("undef_" + name, [ZERO] * nd, dt)
        if t.startswith("xt::fixed_shape<"):
            return vec([num(int(x)) for x in t[16:].rstrip(">").split(",") if x.strip()], "I")
        if t.startswith("std::vector<Eigen::Triplet"):
            return BEmpty()
        if t.startswith("std::vector<"):
            return Vec([])
        if t.startswith("Eigen::SparseMatrix"):
            u = fresh("undefsp")
            return Sp(ZERO, ZERO, lambda r, c, u=u: app("undefsp", "R", u, r, c))
        if t.startswith("Eigen::"):
            return Obj("eigen", t)
        if t.startswith("*"):
            return Obj("undefptr")
        if t.startswith("std::string") or t.startswith("std::basic_string"):
            return Obj("str")
        return Obj("undef", t)

    def new_rec(self, rid):
        cells = {}
        self.rec_fields(rid, cells)
        return Rec(rid, cells)

    def rec_fields(self, rid, cells):
        r = self.R[rid]
        for b in r.get("bases", ()):
            if b.startswith("R"):
                self.rec_fields(int(b[1:]), cells)
        for f in r.get("fields", ()):
            c = Cell(f["n"])
            cells[f["id"]] = c
            self.st[c] = self.default(f["t"], f["n"])

    def copy(self, v):
        if isinstance(v, Rec):
            cells = {}
            for k, c in v.cells.items():
                n = Cell(c.name)
                self.st[n] = self.copy(self.st[c])
                cells[k] = n
            return Rec(v.rid, cells)
        if isinstance(v, Vec):
            return Vec([self.new(self.copy(self.st[c])) for c in v.items])
        if isinstance(v, SVec):
            return SVec(v.n0, v.gen, [self.new(self.copy(self.st[c])) for c in v.items])
        if isinstance(v, Rows):
            return Rows(self.new(self.st[v.cnt], v.cnt.name), self.new(self.st[v.srt], v.srt.name))
        return v

    def field(self, obj, name):
        """contract helper: value of a field by name (most derived first)"""
        obj = self.load(obj)
        hit = [c for c in obj.cells.values() if c.name == name]
        return self.load(hit[-1])

    # ------------------------------------------------------------- calls
    def call_fn(self, f, this, args, targs=None):
        """args: list of lvalues/values"""
        q = f["q"]
        self.used[f["id"]] = self.used.get(f["id"], 0) + 1
        h = self.contracts.get(strip_t(q))
        if h is not None:
            r = h(self, f, this, args)
            if r is not NotImplemented:
                return r
        if self.depth > 60:
            raise Unsup("recursion")
        env = {}
        params = f["params"]
        for p, a in zip(params, args):
            if p["t"].startswith("&"):
                env[p["id"]] = a if isinstance(a, LV) else self.new(a, p["n"])
            else:
                env[p["id"]] = self.new(self.copy(self.load(a)), p["n"])
        if len(args) < len(params):
            raise Unsup("missing arguments in call of %s" % q)
        return self.run_body(f, env, this)

    def run_body(self, f, env, this):
        oe, ot, ol = self.env, self.this, self.line
        self.env, self.this = env, this
        self.depth += 1
        try:
            if "kctor" in f:
                self.ctor_inits(f, this)
            cn, abn = self.exec(f["body"])
            ret = f["ret"]
            outs = []
            for c, kind, v, st in abn:
                if kind == "throw":
                    self.throws.append((c, f["q"], tuple(CTX.facts)))
                    continue
                outs.append((c, v, st))
            if cn is not FALSE:
                outs.append((cn, None, self.st))
            if not outs:
                raise Unsup("function %s always throws" % f["q"])
            c, v, st = outs[-1]
            for c2, v2, st2 in reversed(outs[:-1]):
                st = self.merge_states(c2, st2, st)
                self.st = st
                v = self.merge_vals(c2, v2, v) if v is not None or v2 is not None else None
            self.st = st
            return v
        finally:
            self.env, self.this, self.line = oe, ot, ol
            self.depth -= 1

    def ctor_inits(self, f, this):
        for i in f.get("inits", ()):
            if "fld" in i:
                cell = this.cells[i["fld"]]
                e = i["i"]
                if e is None:
                    continue
                v = self.ev(e)
                v = self.copy(self.load(v)) if not (e["k"] == "lambda") else v
                self.st[cell] = self.conv(v, i["t"])
            elif "base" in i or "deleg" in i:
                e = i["i"]
                if e is None:
                    continue
                self.construct_into(e, this)

    def construct_into(self, e, this):
        """run a constructor expression on an existing record (base or delegating initialisation)"""
        if e["k"] == "ctor" and "f" in e:
            args = [self.ev(a) for a in e["a"]]
            self.call_fn(self.F[e["f"]], this, args)
        elif e["k"] == "ctor":
            if e["a"]:
                src = self.load(self.ev(e["a"][0]))
                if isinstance(src, Rec):
                    for k in this.cells:
                        if k in src.cells:
                            self.st[this.cells[k]] = self.copy(self.st[src.cells[k]])
        elif e["k"] == "inhctor":
            raise Unsup("inherited constructor")
        elif e["k"] in ("zero", "ilist"):
            pass
        else:
            raise Unsup("base initialiser " + e["k"])

    def conv(self, v, t):
        """value conversion for assignments between array kinds (shape adaption)"""
        return v

    # ------------------------------------------------------------- states
    def merge_vals(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, LV) or isinstance(b, LV):
            raise Unsup("merge of references")
        if isinstance(a, T) and isinstance(b, T):
            return ite(c, a, b)
        if isinstance(a, Arr) and isinstance(b, Arr):
            return merge_arr(c, a, b)
        if isinstance(a, RowVal) and isinstance(b, RowVal):
            return RowVal(merge_arr(c, a.cnt, b.cnt), ite(c, a.srt, b.srt))
        if isinstance(a, Bag) and isinstance(b, Bag):
            com = self.common_bag(a, b)
            return BIte(c, a, b, com)
        if isinstance(a, Sp) and isinstance(b, Sp):
            return Sp(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), lambda r, k: ite(c, a.fn(r, k), b.fn(r, k)))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.rid == b.rid:
            cells = {}
            for k in a.cells:
                ca, cb = a.cells[k], b.cells[k]
                if ca is cb:
                    cells[k] = ca
                else:
                    cells[k] = self.new(self.merge_vals(c, self.st[ca], self.st[cb]), ca.name)
            return Rec(a.rid, cells)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and a.kind == "fact":
            A, B = a.d[0], b.d[0]
            return Obj("fact", self.merge_vals(c, A, B))
        if isinstance(a, Obj) and isinstance(b, Obj) and {a.kind, b.kind} == {"fact", "eigen"}:
            # a factorisation on one path only: content of the other path is arbitrary
            X = ArrSym("nofact!%d" % sys.modules["loops"].next_id(), 2, "R")
            f = a if a.kind == "fact" else b
            n = Sp(f.d[0].rows, f.d[0].cols, lambda r, k: read(X, r, k))
            return Obj("fact", self.merge_vals(c, *((f.d[0], n) if a is f else (n, f.d[0]))))
        raise Unsup("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def common_bag(self, a, b):
        seen = set()
        n = a
        while n is not None:
            seen.add(id(n))
            n = n.prev
        n = b
        while n is not None:
            if id(n) in seen:
                return n
            n = n.prev
        return None

    def merge_states(self, c, s1, s2):
        if s1 is s2:
            return s1
        out = {}
        keep = self.st
        # records merged below may allocate
        self.st = out
        for k in s2:
            v2 = s2[k]
            if k in s1:
                v1 = s1[k]
                if v1 is v2:
                    out[k] = v1
                else:
                    try:
                        out[k] = self.merge_vals_in(c, v1, v2, s1, s2)
                    except Unsup as ex:
                        out[k] = Obj("unmergeable", str(ex))
            else:
                out[k] = v2
        for k in s1:
            if k not in s2:
                out[k] = s1[k]
        self.st = keep
        return out

    def merge_vals_in(self, c, v1, v2, s1, s2):
        if isinstance(v1, Rec) and isinstance(v2, Rec) and v1.rid == v2.rid:
            cells = {}
            for k in v1.cells:
                ca, cb = v1.cells[k], v2.cells[k]
                if ca is cb:
                    cells[k] = ca
                else:
                    n = Cell(ca.name)
                    self.st[n] = self.merge_vals_in(c, s1[ca], s2[cb], s1, s2)
                    cells[k] = n
            return Rec(v1.rid, cells)
        return self.merge_vals(c, v1, v2)

    # ------------------------------------------------------------- statements
    def exec(self, s):
        if s is None:
            return TRUE, []
        k = s["k"]
        if "ln" in s:
            self.line = s["ln"]
        self.steps += 1
        if k == "block":
            return self.exec_block(s["s"])
        if k == "expr":
            e = s["e"]
            if e["k"] == "throw":
                return FALSE, [(TRUE, "throw", None, None)]
            self.ev(e)
            return TRUE, []
        if k == "decl":
            for v in s["vars"]:
                self.decl(v)
            return TRUE, []
        if k == "if":
            return self.exec_if(s)
        if k == "for":
            return self.exec_for(s)
        if k == "rfor":
            return self.exec_rfor(s)
        if k in ("while", "do"):
            return self.exec_while(s)
        if k == "return":
            v = None
            if s["e"] is not None:
                v = self.ev(s["e"])
                if not self.ret_is_ref(s):
                    v = self.load(v)
            return FALSE, [(TRUE, "return", v, self.st)]
        if k in ("break", "continue"):
            return FALSE, [(TRUE, k, None, self.st)]
        if k == "nop":
            return TRUE, []
        if k == "omp":
            return self.exec_omp(s)
        if k == "try":
            return self.exec(s["s"])
        raise Unsup("statement %s" % s.get("c", k))

    def exec_omp(self, s):
        """parallel region / work-sharing loop: executed in order; the independence of the iterations is recorded as an obligation"""
        d, ln = s["d"], s["ln"]
        self.omp.append((ln, d))
        if s.get("clauses"):
            raise Unsup("clauses %s of %s" % (s["clauses"], d))
        if d in ("OMPParallelForDirective", "OMPForDirective"):
            if d == "OMPForDirective" and self.ompshared is None:
                raise Unsup("omp for outside of a parallel region")
            self.ompnext = (ln, self.ompshared if d == "OMPForDirective" else frozenset(self.st))
            try:
                return self.exec(s["s"])
            finally:
                if self.ompnext is not None:
                    self.ompnext = None
                    raise Unsup("omp loop form")
        if d == "OMPParallelDirective":
            if self.ompshared is not None:
                raise Unsup("nested parallel regions")
            b = s["s"]
            while b["k"] == "block" and len(b["s"]) == 1 and b["s"][0]["k"] == "block":
                b = b["s"][0]
            # every thread: its own variables, and loops of which the iterations are distributed
            if b["k"] != "block" or not all(x["k"] == "decl" or (x["k"] == "omp" and x["d"] == "OMPForDirective") for x in b["s"]):
                raise Unsup("parallel region with other statements")
            self.ompshared = frozenset(self.st)
            try:
                return self.exec(b)
            finally:
                self.ompshared = None
        raise Unsup(d)

    def ret_is_ref(self, s):
        e = s["e"]
        # class-type returns by value come with a ctor node, scalars with LValueToRValue; otherwise it is a reference
        return e["k"] not in ("cast", "ctor", "bin", "int", "bool") or (e["k"] == "cast" and e["c"] != "LValueToRValue")

    def exec_block(self, ss):
        acc = TRUE
        abn = []
        pushed = 0
        try:
            for s in ss:
                cn, ab = self.exec(s)
                for c, kind, v, st in ab:
                    c2 = land(acc, c)
                    if c2 is not FALSE:
                        abn.append((c2, kind, v, st))
                acc = land(acc, cn)
                if cn is FALSE or acc is FALSE:
                    return FALSE, abn
                if cn is not TRUE:
                    pushed += CTX.push(cn)
            return acc, abn
        finally:
            CTX.pop(pushed)

    def decl(self, v):
        t = v["t"]
        if v.get("static"):
            if v["id"] not in self.statics:
                raise Unsup("static variable " + v["n"])
            CTX.assumptions.add("static counters: never decremented below their initial value outside of the calls of the contract")
            self.env[v["id"]] = self.statics[v["id"]]
            return
        if v.get("bind"):
            val = self.load(self.ev(v["i"]))
            if isinstance(val, Arr):
                items = veclist(val)
            elif isinstance(val, Obj) and val.kind == "tuple":
                items = val.d
            else:
                raise Unsup("structured binding")
            for b, x in zip(v["bind"], items):
                self.env[b["id"]] = self.new(x, b["n"])
            return
        if "i" not in v:
            self.env[v["id"]] = self.new(self.default(t, v["n"]), v["n"])
            return
        x = self.ev(v["i"])
        if t.startswith("&"):
            self.env[v["id"]] = x if isinstance(x, LV) else self.new(x, v["n"])
            return
        a = arr_type(t)
        if a is None and isinstance(x, (LView, LAdapt, LFlat)):
            # auto v = xt::view(...): holds a reference
            self.env[v["id"]] = x
            return
        val = self.copy(self.load(x))
        if a is not None and isinstance(val, Arr):
            val = self.materialise(val, a)
        self.env[v["id"]] = self.new(val, v["n"])

    def materialise(self, val, a):
        return val

    def exec_if(self, s):
        if s.get("init"):
            self.exec(s["init"])
        c = self.load(self.ev(s["c"]))
        if not isbool(c):
            c = ne(c, ZERO)
        d = CTX.decide(c)
        if d is True:
            return self.exec(s["a"])
        if d is False:
            return self.exec(s["b"])
        st0 = self.st
        # throwing branch: assume not taken, record
        self.st = dict(st0)
        n = CTX.push(c)
        try:
            cnA, abA = self.exec(s["a"])
        finally:
            CTX.pop(n)
        stA = self.st
        self.st = dict(st0)
        nc = lnot(c)
        n = CTX.push(nc)
        try:
            cnB, abB = self.exec(s["b"])
        finally:
            CTX.pop(n)
        stB = self.st
        abn = [(land(c, x[0]),) + x[1:] for x in abA] + [(land(nc, x[0]),) + x[1:] for x in abB]
        condA, condB = land(c, cnA), land(nc, cnB)
        if cnA is FALSE and cnB is FALSE:
            return FALSE, abn
        if cnA is FALSE:
            self.st = stB
            return condB, abn
        if cnB is FALSE:
            self.st = stA
            return condA, abn
        self.st = self.merge_states(c, stA, stB)
        return lor(condA, condB), abn

    # loops are in loops.py
    def exec_for(self, s):
        from loops import run_for
        for h in self.loopinv:
            r = h(self, s)
            if r is not None:
                return r
        return run_for(self, s)

    def exec_rfor(self, s):
        from loops import run_rfor
        return run_rfor(self, s)

    def exec_while(self, s):
        from loops import run_while
        for h in self.loopinv:
            r = h(self, s)
            if r is not None:
                return r
        return run_while(self, s)

    # ------------------------------------------------------------- expressions
    def ev(self, e):
        return getattr(self, "e_" + e["k"])(e)

    def rv(self, e):
        return self.load(self.ev(e))

    def e_term(self, e):
        return e["v"]()

    def e_int(self, e):
        return num(int(e["v"]))

    def e_bool(self, e):
        return TRUE if e["v"] else FALSE

    def e_flt(self, e):
        return num(Fraction(repr(float(e["v"]))))

    def e_str(self, e):
        return Obj("str")

    def e_null(self, e):
        return Obj("null")

    def e_var(self, e):
        try:
            return self.env[e["id"]]
        except KeyError:
            raise Unsup("unknown variable " + e["n"])

    def e_gvar(self, e):
        if e["q"] in ("xt::placeholders::_", ) or e["q"].endswith("::_"):
            return Obj("ph")
        if e["id"] in self.statics:
            CTX.assumptions.add("static counters: never decremented below their initial value outside of the calls of the contract")
            return self.statics[e["id"]]
        if not e.get("const", 1) and "i" in e:
            raise Unsup("mutable global " + e["q"])
        if "i" in e:
            key = e["id"]
            if key not in self.gcache:
                self.gcache[key] = self.load(self.ev(e["i"]))
            return self.gcache[key]
        return self.lib.gvar(self, e)

    def e_this(self, e):
        return self.this

    def e_fld(self, e):
        o = self.ev(e["o"])
        o = self.deref_obj(o)
        if isinstance(o, Rec):
            return o.cells[e["id"]]
        if isinstance(o, Obj) and o.kind == "pair":
            return o.d[0 if e["n"] == "first" else 1]
        raise Unsup("field of %s" % type(o).__name__)

    def deref_obj(self, o):
        if isinstance(o, Ptr):
            o = o.b
        if isinstance(o, Rec):
            return o
        return self.load(o)

    def e_fref(self, e):
        return Obj("fn", e)

    def e_cast(self, e):
        c = e["c"]
        x = self.ev(e["e"])
        if c == "LValueToRValue":
            return self.load(x)
        if c in ("IntegralCast", "FloatingCast", "IntegralToFloating"):
            v = self.load(x)
            if isinstance(v, T) and isbool(v):
                return ite(v, ONE, ZERO)
            return v
        if c == "FloatingToIntegral":
            v = self.load(x)
            if is_int(v):
                return v
            raise Unsup("float to int conversion")
        if c in ("IntegralToBoolean", "FloatingToBoolean"):
            return ne(self.load(x), ZERO)
        if c == "ArrayToPointerDecay":
            return Ptr(x, ZERO)
        if c in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BitCast", "UserDefinedConversion", "Dependent"):
            return x
        if c == "NullToPointer":
            return Obj("null")
        if c == "ToVoid":
            return x
        raise Unsup("cast " + c)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.rv(e["l"])
            n = CTX.push(a if op == "&&" else lnot(a))
            try:
                b = self.rv(e["r"])
            finally:
                CTX.pop(n)
            return land(a, b) if op == "&&" else lor(a, b)
        if op == ",":
            self.ev(e["l"])
            return self.ev(e["r"])
        a, b = self.rv(e["l"]), self.rv(e["r"])
        return self.binop(op, a, b, e["t"])

    def binop(self, op, a, b, t="f64"):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_op(op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return self.lib.arr_binop(self, op, a, b)
        if not (isinstance(a, T) and isinstance(b, T)):
            raise Unsup("operator %s on %s,%s" % (op, type(a).__name__, type(b).__name__))
        if op in ("+", "-", "*", "/", "%"):
            if isbool(a):
                a = ite(a, ONE, ZERO)
            if isbool(b):
                b = ite(b, ONE, ZERO)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return self.lib.mulx(a, b)
        if op == "/":
            if t in ("f64", "f32") or (not is_int(a)) or (not is_int(b)):
                return div_real(a, b)
            if cint(b) == 0:
                raise Unsup("division by zero")
            return div(a, b, CTX.decide)
        if op == "%":
            return mod(a, b, CTX.decide)
        if op == "==":
            return eq(a, b)
        if op == "!=":
            return ne(a, b)
        cmp = self.lib.cmp
        return cmp(op, a, b)

    def ptr_op(self, op, a, b):
        if op == "+":
            if not isinstance(a, Ptr):
                a, b = b, a
            return self.ptr_add(a, b)
        if op == "-":
            if isinstance(b, Ptr):
                return sub(self.ptr_off(a), self.ptr_off(b))
            return self.ptr_add(a, neg(b))
        if op in ("==", "!=", "<"):
            x, y = self.ptr_off(a), self.ptr_off(b)
            return eq(x, y) if op == "==" else ne(x, y) if op == "!=" else lt(x, y)
        raise Unsup("pointer operator " + op)

    def ptr_off(self, p):
        if p.idx is not None:
            return flat_index(self.load(p.b).shape, p.idx)
        return p.off

    def ptr_add(self, p, n):
        return Ptr(p.b, add(self.ptr_off(p), n))

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.off is None and p.idx is None:
                return p.b
            a = self.load(p.b)
            if isinstance(a, Arr):
                idx = p.idx if p.idx is not None else (unflat(a.shape, p.off) if len(a.shape) != 1 else (p.off,))
                return LElem(p.b, idx)
            if isinstance(a, Vec):
                return LElem(p.b, (p.off,))
            return p.b
        if isinstance(p, (Rec,)):
            return p
        return p

    def e_asg(self, e):
        op = e["op"]
        r = self.rv(e["r"])
        l = self.ev(e["l"])
        if op == "=":
            if not isinstance(l, LV):
                raise Unsup("assignment to rvalue")
            self.store(l, r)
            return l
        self.compound(l, op[:-1], r, e["t"])
        return l

    def compound(self, l, op, r, t="f64"):
        if op in ("+", "-") and isinstance(l, LElem) and isinstance(r, T) and not isbool(r):
            b = self.load(l.b)
            if isinstance(b, Arr) and b.dt != "B":
                self.store(l, r if op == "+" else neg(r), "add")
                return
        v = self.load(l)
        self.store(l, self.binop(op, v, r, t))

    def e_un(self, e):
        op = e["op"]
        if op in ("++", "--"):
            l = self.ev(e["e"])
            v = self.load(l)
            if isinstance(v, Ptr):
                self.st[l] = self.ptr_add(v, ONE if op == "++" else num(-1))
            elif isinstance(l, LElem):
                self.store(l, ONE if op == "++" else num(-1), "add")
            else:
                self.store(l, add(v, ONE if op == "++" else num(-1)))
            return v if e["post"] else l
        if op == "&":
            x = self.ev(e["e"])
            return self.addr(x)
        if op == "*":
            x = self.ev(e["e"])
            if isinstance(x, Cell):
                x = self.load(x)
            return self.deref(x)
        x = self.rv(e["e"])
        if op == "-":
            return self.lib.arr_unop(self, neg, x) if isinstance(x, Arr) else neg(x)
        if op == "!":
            return lnot(x)
        if op == "+":
            return x
        raise Unsup("unary " + op)

    def addr(self, x):
        if isinstance(x, LElem):
            b = self.load(x.b)
            if isinstance(b, Arr):
                return Ptr(x.b, None, x.idx)
        if isinstance(x, (Cell, Rec)):
            return Ptr(x, None)
        raise Unsup("address of")

    def e_cond(self, e):
        c = self.rv(e["c"])
        d = CTX.decide(c)
        if d is True:
            return self.ev(e["a"])
        if d is False:
            return self.ev(e["b"])
        st0 = self.st
        self.st = dict(st0)
        n = CTX.push(c)
        la = lb = None
        try:
            la = self.ev(e["a"]) if e["a"]["k"] != "throw" else None
            a = self.load(la)
        finally:
            CTX.pop(n)
        sa = self.st
        self.st = dict(st0)
        n = CTX.push(lnot(c))
        try:
            lb = self.ev(e["b"]) if e["b"]["k"] != "throw" else None
            b = self.load(lb)
        finally:
            CTX.pop(n)
        self.st = self.merge_states(c, sa, self.st)
        if isinstance(la, LV) and isinstance(lb, LV) and isinstance(a, (T, Arr)) and isinstance(b, (T, Arr)):
            return LCond(c, la, lb)
        if a is None:
            return b
        if b is None:
            return a
        return self.merge_vals(c, a, b)

    def e_sub(self, e):
        b = self.ev(e["b"])
        i = self.rv(e["i"])
        if isinstance(b, Ptr):
            return self.deref(self.ptr_add(b, i))
        return LElem(b, (i,))

    def e_throw(self, e):
        raise Unsup("throw in expression")

    def e_unsup(self, e):
        raise Unsup("expression %s at %s" % (e["c"], e["ln"]))

    def e_zero(self, e):
        t = e["t"]
        if t == "b":
            return FALSE
        if scalar_type(t):
            return ZERO
        a = arr_type(t)
        if a is not None and a[2] is not None:
            return const_arr([num(x) for x in a[2]], a[1], ZERO)
        return self.default(t)

    def e_ilist(self, e):
        t = e["t"]
        a = arr_type(t)
        vals = [self.ev(x) for x in e["a"]]
        if t.startswith("R") and t[1:].isdigit():
            r = self.new_rec(int(t[1:]))
            flds = self.R[r.rid]["fields"]
            for f, v in zip(flds, vals):
                self.st[r.cells[f["id"]]] = self.copy(self.load(v))
            return r
        if scalar_type(t):
            return self.load(vals[0]) if vals else self.e_zero(e)
        lv = [self.load(v) for v in vals]
        if a is not None and len(lv) == 1 and isinstance(lv[0], Arr):
            # std::array aggregate { {..} }
            v = lv[0]
            if a[2] is not None:
                n = a[2][0]
                items = veclist(v)
                items += [ZERO] * (n - len(items))
                return vec(items[:n], a[1])
            return v
        if a is not None and a[2] is not None and len(a[2]) == 1:
            lv += [ZERO if a[1] != "B" else FALSE] * (a[2][0] - len(lv))
            return vec(lv, a[1])
        if t.startswith("["):
            if lv and not isinstance(lv[0], T):
                return Vec([self.new(self.copy(v)) for v in lv])
            n = int(t[1:t.index("]")])
            dt = dt_of(t[t.index("]") + 1:]) if scalar_type(t[t.index("]") + 1:]) else "I"
            lv += [ZERO] * (n - len(lv))
            return vec(lv, dt)
        if all(isinstance(v, T) for v in lv):
            dt = "B" if lv and isbool(lv[0]) else ("R" if any(not is_int(v) for v in lv) else "I")
            if "f64" in t:
                dt = "R"
            return vec(lv, dt)
        return Vec([self.new(self.copy(v)) for v in lv])

    def e_lambda(self, e):
        caps = {}
        for c in e["caps"]:
            if "id" in c:
                lv = self.ev(c["i"]) if c["ref"] else self.new(self.copy(self.load(self.ev(c["i"]))), c["n"])
                caps[c["id"]] = lv
        return Obj("lambda", e["fs"], caps, self.this, self.env)

    def call_lambda(self, lam, args):
        fs, caps, this, env0 = lam.d
        f = self.F[fs[0]]
        env = dict(caps)
        for k, v in env0.items():
            env.setdefault(k, v)
        for p, a in zip(f["params"], args):
            if p["t"].startswith("&"):
                env[p["id"]] = a if isinstance(a, LV) else self.new(a, p["n"])
            else:
                env[p["id"]] = self.new(self.copy(self.load(a)), p["n"])
        self.used[f["id"]] = 1
        return self.run_body(f, env, this)

    def e_ctor(self, e):
        t = e["t"]
        if t.startswith("R") and t[1:].isdigit():
            if "f" in e and not (e.get("copy") and self.F[e["f"]].get("implicit")):
                r = self.new_rec(int(t[1:]))
                args = [self.ev(a) for a in e["a"]]
                self.call_fn(self.F[e["f"]], r, args)
                return r
            if e.get("copy"):
                return self.copy(self.load(self.ev(e["a"][0])))
            if not e["a"]:
                return self.new_rec(int(t[1:]))
            raise Unsup("constructor of record")
        return self.lib.ctor(self, e)

    def e_inhctor(self, e):
        raise Unsup("inherited constructor")

    def e_call(self, e):
        ln = e.get("ln")
        if "f" in e:
            f = self.F[e["f"]]
            this = None
            if "o" in e:
                o = self.ev(e["o"])
                if isinstance(o, Cell) and isinstance(self.st.get(o), Obj) and self.st[o].kind == "lambda":
                    o = self.st[o]
                if isinstance(o, Obj) and o.kind == "lambda":
                    return self.call_lambda(o, [self.ev(a) for a in e["a"]])
                this = self.deref_obj(o)
                if f.get("implicit") and f["n"] == "operator=":
                    src = self.copy(self.load(self.ev(e["a"][0])))
                    for k in this.cells:
                        self.st[this.cells[k]] = self.st[src.cells[k]]
                    return o
            args = [self.ev(a) for a in e["a"]]
            return self.call_fn(f, this, args)
        return self.lib.call(self, e)
