"""Trusted contracts of the library functions (xtensor, Eigen, std) used by GooseFEM."""
from fractions import Fraction
from terms import *
from arrays import *
from ctx import CTX
import interp as I
from interp import Cell, Rec, Vec, Obj, LElem, LView, LAdapt, LFlat, Ptr, Sp, LV, Rows, SVec, LRow, RowVal, strip_t, arr_type, dt_of, scalar_type
import loops


class Lib:
    on_named = None     # precondition on computed arrays (contracts): called with every computed array that is given a name

    def __init__(self):
        self.ieee = False      # compare doubles with IEEE (NaN aware) predicates

    # ------------------------------------------------------------ scalars
    def mulx(self, a, b):
        return mul(a, b)

    def cmp(self, op, a, b):
        if self.ieee and not (is_int(a) and is_int(b)):
            nan = lambda x: FALSE if x.op != "read" and const(x) is not None else app("nan", "B", x)
            return land(lnot(nan(a)), lnot(nan(b)), {"<": lt, "<=": le, ">": gt, ">=": ge}[op](a, b))
        if op == "<":
            return lt(a, b)
        if op == "<=":
            return le(a, b)
        if op == ">":
            return gt(a, b)
        if op == ">=":
            return ge(a, b)
        raise Unsup("operator " + op)

    # ------------------------------------------------------------ element-wise
    def bshape(self, arrs):
        nd = max(a.nd for a in arrs)
        sh = []
        for d in range(nd):
            s = None
            for a in arrs:
                k = d - (nd - a.nd)
                if k < 0:
                    continue
                x = a.shape[k]
                if s is None or cint(s) == 1:
                    s = x
            sh.append(s)
        return tuple(sh)

    def elementwise(self, it, f, args, dt):
        arrs = [a for a in args if isinstance(a, Arr)]
        if not arrs:
            return f(*args)
        sh = self.bshape(arrs)
        bs = [it.bcast(a, sh) if isinstance(a, Arr) else a for a in args]
        return Arr(sh, dt, NFn(lambda q: f(*[b.node.read(q) if isinstance(b, Arr) else b for b in bs])))

    def arr_binop(self, it, op, a, b):
        f = lambda x, y: it.binop(op, x, y, "x")
        dts = [v.dt if isinstance(v, Arr) else ("B" if isbool(v) else "I" if is_int(v) else "R") for v in (a, b)]
        if op in ("<", "<=", ">", ">=", "==", "!=", "&&", "||"):
            dt = "B"
        else:
            dt = "R" if "R" in dts else "I"
        if op == "&&":
            f = lambda x, y: land(x, y)
        if op == "||":
            f = lambda x, y: lor(x, y)
        if op in ("==", "!=") and isinstance(a, Arr) and isinstance(b, Arr):
            # whole-array comparison
            if a.nd != b.nd:
                return FALSE if op == "==" else TRUE
            c = [eq(x, y) for x, y in zip(a.shape, b.shape)]
            cs = a.cshape()
            if None not in cs:
                c += [eq(a.node.read(q), b.node.read(q)) for q in a.elems()]
            else:
                q = tuple(fresh("q") for _ in a.shape)
                g = land(*[land(ge(x, ZERO), lt(x, s)) for x, s in zip(q, a.shape)])
                c.append(forall(q, imp(g, eq(a.node.read(q), b.node.read(q)))))
            r = land(*c)
            return r if op == "==" else lnot(r)
        return self.elementwise(it, f, [a, b], dt)

    def arr_unop(self, it, f, a):
        return Arr(a.shape, a.dt, NFn(lambda q: f(a.node.read(q))))

    # ------------------------------------------------------------ globals
    def gvar(self, it, e):
        q = e["q"]
        if q.endswith("xt::placeholders::_") or q.endswith("::_"):
            return Obj("ph")
        if q.endswith("missing"):
            return Obj("missing")
        return Obj("g", q)

    # ------------------------------------------------------------ dispatch
    def call(self, it, e):
        q = strip_t(e["x"])
        xn = e["xn"]
        it.libused[q] = it.libused.get(q, 0) + 1
        op = e.get("op")
        if "o" in e:
            o = it.ev(e["o"])
            return self.method(it, e, q, xn, o)
        fn = getattr(self, "f_" + q.replace("::", "_"), None)
        if fn is None:
            fn = getattr(self, "f_" + xn, None)
        if fn is not None:
            return fn(it, e, [it.ev(a) for a in e["a"]])
        if op is not None:
            return self.operator(it, e, op, [it.ev(a) for a in e["a"]])
        raise Unsup("library function " + q)

    def operator(self, it, e, op, args):
        if op in ("==", "!=") and len(args) == 2:
            a, b = it.load(args[0]), it.load(args[1])
            if isinstance(a, Arr) or isinstance(b, Arr):
                return self.arr_binop(it, op, a, b)
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return it.ptr_op(op, a, b)
            if isinstance(a, Obj) and a.kind == "str":
                raise Unsup("string comparison")
            return it.binop(op, a, b)
        if len(args) == 2 and op in ("+", "-", "*", "/", "%", "<", "<=", ">", ">=", "&&", "||"):
            a, b = it.load(args[0]), it.load(args[1])
            if isinstance(a, Sp) or isinstance(b, Sp):
                return self.sp_op(it, op, a, b)
            return it.binop(op, a, b)
        if len(args) == 1 and op == "-":
            a = it.load(args[0])
            return self.arr_unop(it, neg, a) if isinstance(a, Arr) else neg(a)
        if len(args) == 1 and op == "!":
            a = it.load(args[0])
            return self.arr_unop(it, lnot, a) if isinstance(a, Arr) else lnot(a)
        if op == "<<":
            return args[0]
        if op in ("++", "--") and len(args) >= 1:
            v = it.load(args[0])
            it.st[args[0]] = it.ptr_add(v, ONE if op == "++" else num(-1))
            return args[0]
        raise Unsup("operator %s (%s)" % (op, e.get("x")))

    # ------------------------------------------------------------ methods
    def method(self, it, e, q, xn, o):
        m = getattr(self, "m_" + xn.replace("operator()", "paren").replace("operator[]", "bracket").replace("operator=", "assign"), None)
        if xn.startswith("operator") and m is None:
            op = xn[len("operator"):]
            return self.method_op(it, e, op, o)
        if xn.startswith("~"):
            return None
        if m is None:
            raise Unsup("library method " + q)
        return m(it, e, o, [it.ev(a) for a in e["a"]])

    def method_op(self, it, e, op, o):
        args = [it.ev(a) for a in e["a"]]
        if op in ("+=", "-=", "*=", "/="):
            v = it.load(o)
            r = it.load(args[0])
            if isinstance(v, Ptr):
                it.st[o] = it.ptr_add(v, r if op == "+=" else neg(r))
                return o
            if isinstance(v, Obj) and v.kind == "noalias":
                o = v.d[0]
                v = it.load(o)
            if isinstance(v, Arr):
                if op in ("+=", "-="):
                    if isinstance(r, Arr) and op == "-=":
                        r = self.arr_unop(it, neg, r)
                    elif op == "-=":
                        r = neg(r)
                    it.assign_array(o, r, "add")
                else:
                    nv = self.arr_binop(it, op[0], v, r)
                    it.assign_array(o, Arr(v.shape, v.dt, nv.node))
                return o
            if isinstance(v, Sp):
                it.st[o] = self.sp_op(it, op[0], v, r)
                return o
            if isinstance(v, T):
                it.compound(o, op[:-1], r)
                return o
        if op in ("+", "-", "*", "/"):
            v = it.load(o)
            if not args:
                if isinstance(v, Ptr):
                    return it.deref(v)
                if op == "-":
                    return neg(v) if isinstance(v, T) else self.arr_unop(it, neg, v)
                raise Unsup("unary " + op)
            r = it.load(args[0])
            if isinstance(v, Sp) or isinstance(r, Sp):
                return self.sp_op(it, op, v, r)
            return it.binop(op, v, r)
        if op in ("++", "--"):
            v = it.load(o)
            if isinstance(v, Ptr):
                it.st[o] = it.ptr_add(v, ONE if op == "++" else num(-1))
                return v if args else o
            if isinstance(v, T) and isinstance(o, I.Cell):
                it.st[o] = add(v, ONE if op == "++" else num(-1))
                return v if args else it.st[o]
        if op in ("==", "!=", "<"):
            return it.binop(op, it.load(o), it.load(args[0]))
        if op == "*":
            return it.deref(it.load(o))
        if op == "->":
            return it.load(o)
        raise Unsup("method operator%s of %s" % (op, e.get("cls")))

    def arr(self, it, x):
        v = it.load(x)
        if isinstance(v, T):
            return Arr((), "R", NFn(lambda q: v))
        if isinstance(v, Obj) and v.kind == "noalias":
            v = it.load(v.d[0])
        if not isinstance(v, Arr):
            raise Unsup("expected an array, got %s" % (v.kind if isinstance(v, Obj) else type(v).__name__))
        return v

    def m_paren(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Obj) and v.kind == "lambda":
            return it.call_lambda(v, args)
        if isinstance(v, Sp):
            return v.fn(*[it.load(a) for a in args])
        if isinstance(v, T) and not args:
            return v
        if isinstance(v, Obj) and v.kind == "reduce":
            return v.d[0]
        if not isinstance(v, Arr):
            raise Unsup("call operator of %s" % (v.kind if isinstance(v, Obj) else type(v).__name__))
        idx = [it.load(a) for a in args]
        if any(isinstance(i, Obj) for i in idx):
            raise Unsup("xt::missing index")
        # xtensor: fewer arguments -> leading zeros; more arguments -> leading ones dropped
        while len(idx) < v.nd:
            idx.insert(0, ZERO)
        if len(idx) > v.nd:
            idx = idx[len(idx) - v.nd:]
        if isinstance(o, LV):
            return LElem(o, idx)
        return v.read(*idx)

    def m_bracket(self, it, e, o, args):
        v = it.load(o)
        i = it.load(args[0])
        if isinstance(i, Arr):
            idx = veclist(i)
        else:
            idx = [i]
        if isinstance(v, Ptr):
            return it.deref(it.ptr_add(v, i))
        if isinstance(v, Vec):
            k = cint(i)
            if k is None:
                raise Unsup("symbolic index in vector of objects")
            if k >= len(v.items):
                raise Unsup("index out of range")
            return v.items[k]
        if isinstance(v, SVec):
            return v.at(i)
        if isinstance(v, Rows):
            return LRow(v, i)
        if isinstance(v, RowVal):
            raise Unsup("element of a list in a list")
        if isinstance(v, Arr):
            while len(idx) < v.nd:
                idx.insert(0, ZERO)
            return LElem(o, idx) if isinstance(o, LV) else v.read(*idx)
        raise Unsup("operator[] of %s" % type(v).__name__)

    m_at = m_paren
    m_unchecked = m_paren

    def m_flat(self, it, e, o, args):
        v = self.arr(it, o)
        return LElem(LFlat(o), (it.load(args[0]),))

    def m_shape(self, it, e, o, args):
        v = self.arr(it, o)
        if args:
            d = cint(it.load(args[0]))
            if d is None:
                raise Unsup("symbolic dimension")
            return v.shape[d]
        return vec(list(v.shape), "I")

    def m_strides(self, it, e, o, args):
        """strides of an array: one symbol per dimension (used by strided_view); the value is not specified"""
        v = self.arr(it, o)
        return vec([sym("stride!%d" % i, "I") for i in range(v.nd)], "I")

    def m_dimension(self, it, e, o, args):
        return num(self.arr(it, o).nd)

    def m_size(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Vec):
            return num(len(v.items))
        if isinstance(v, SVec):
            return add(v.n0, num(len(v.items)))
        if isinstance(v, Rows):
            return it.st[v.srt].shape[0]
        if isinstance(v, RowVal):
            return v.size()
        if isinstance(v, Arr):
            return v.size()
        if isinstance(v, Sp):
            return mul(v.rows, v.cols)
        raise Unsup("size")

    def m_empty(self, it, e, o, args):
        return eq(self.m_size(it, e, o, args), ZERO)

    def m_rows(self, it, e, o, args):
        v = it.load(o)
        return v.rows if isinstance(v, Sp) else v.shape[0]

    def m_cols(self, it, e, o, args):
        v = it.load(o)
        return v.cols if isinstance(v, Sp) else ONE

    def m_fill(self, it, e, o, args):
        it.assign_array(o, it.load(args[0]))

    def m_setZero(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Sp):
            it.st[o] = Sp(v.rows, v.cols, lambda r, c: ZERO)
        else:
            it.assign_array(o, ZERO)
        return o

    def m_data(self, it, e, o, args):
        v = it.load(o)
        return Ptr(o if isinstance(o, LV) else it.new(v), ZERO)

    def m_begin(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Bag):
            return Obj("bag", v)
        return Ptr(o if isinstance(o, LV) else it.new(v), ZERO)

    m_cbegin = m_begin

    def m_end(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Bag):
            return Obj("bagend")
        b = o if isinstance(o, LV) else it.new(v)
        if isinstance(v, RowVal):
            return Ptr(b, ROWEND)
        return Ptr(b, num(len(v.items)) if isinstance(v, Vec) else v.size())

    m_cend = m_end

    def m_front(self, it, e, o, args):
        return it.deref(self.m_begin(it, e, o, args))

    def m_back(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, SVec):
            return v.at(sub(self.m_size(it, e, o, args), ONE))
        return it.deref(it.ptr_add(self.m_end(it, e, o, args), num(-1)))

    def m_assign(self, it, e, o, args):
        r = it.load(args[0])
        v = None
        if isinstance(o, Obj) and o.kind == "noalias":
            o = o.d[0]
        if isinstance(o, Cell):
            v = it.st.get(o)
            if isinstance(v, Obj) and v.kind == "noalias":
                o = v.d[0]
                v = it.load(o)
        if isinstance(r, Obj) and r.kind == "reduce":
            r = r.d[0]
        if isinstance(o, Cell):
            cur = it.st.get(o)
            if isinstance(r, T) and isinstance(cur, Arr):
                it.assign_array(o, r)
                return o
            if isinstance(r, Arr) and isinstance(cur, Arr) and cur.tag == "map":
                it.assign_array(cur.node_target, r)
                return o
            it.st[o] = it.copy(r)
            return o
        if isinstance(o, LRow):
            it.store(o, r)
            return o
        if isinstance(o, LV):
            it.assign_array(o, r)
            return o
        raise Unsup("assignment to %s" % type(o).__name__)

    def m_push_back(self, it, e, o, args):
        v = it.load(o)
        x = it.load(args[0])
        if isinstance(v, Bag):
            if not (isinstance(x, Obj) and x.kind == "triplet"):
                raise Unsup("push_back of unknown triplet")
            it.st[o] = BPush(v, *x.d)
            return
        if isinstance(v, Vec):
            it.store_vec(o, Vec(list(v.items) + [it.new(it.copy(x))])) if hasattr(it, "store_vec") else it.st.__setitem__(o, Vec(list(v.items) + [it.new(it.copy(x))]))
            return
        if isinstance(v, SVec):
            it.st[o] = SVec(v.n0, v.gen, list(v.items) + [it.new(it.copy(x))])
            return
        if isinstance(o, LRow):
            # one more occurrence of the value; the order of the row is not known
            it.store(LElem(o.rows.cnt, (o.i, x)), ONE, "add")
            it.store(LElem(o.rows.srt, (o.i,)), app("opaque_order!%d" % loops.next_id(), "B", o.i, x))
            return
        if isinstance(v, Arr) and v.nd == 1:
            n = v.shape[0]
            it.st[o] = Arr((add(n, ONE),), v.dt, upd(v.node, (n,), "set", x))
            return
        raise Unsup("push_back")

    def m_emplace_back(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Bag) and len(args) == 3:
            it.st[o] = BPush(v, *[it.load(a) for a in args])
            return
        return self.m_push_back(it, e, o, args)

    def m_reserve(self, it, e, o, args):
        return None

    m_makeCompressed = m_reserve
    m_shrink_to_fit = m_reserve

    def m_clear(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Bag):
            it.st[o] = BEmpty()
        elif isinstance(v, Vec):
            it.st[o] = Vec([])
        else:
            it.st[o] = vec([], v.dt)

    def m_resize(self, it, e, o, args):
        v = it.load(o)
        a = [it.load(x) for x in args]
        if isinstance(v, Sp):
            it.st[o] = Sp(a[0], a[1], lambda r, c: ZERO)
            return
        if isinstance(v, Vec):
            n = cint(a[0])
            if n is None:
                raise Unsup("vector of symbolic length")
            items = list(v.items)[:n]
            while len(items) < n:
                raise Unsup("resize of a vector of objects")
            it.st[o] = Vec(items)
            return
        if isinstance(v, Arr):
            if isinstance(a[0], Arr):
                sh = veclist(a[0])
            else:
                sh = a
            if "std::vector" in e.get("cls", ""):
                fill = a[1] if len(a) > 1 else (FALSE if v.dt == "B" else ZERO)
                it.st[o] = Arr((a[0],), v.dt, NFn(lambda q: ite(lt(q[0], v.shape[0]), v.node.read(q), fill)) if v.shape[0] is not ZERO else NFn(lambda q: fill))
                return
            it.st[o] = new_arr("resized", sh, v.dt)
            return
        raise Unsup("resize")

    def reshaped(self, it, v, args):
        a = [it.load(x) for x in args]
        if len(a) and isinstance(a[0], Arr):
            a = veclist(a[0])
        elif len(a) and isinstance(a[0], Vec):
            a = [it.load(c) for c in a[0].items]
        n = mulall(v.shape)
        unk = [i for i, x in enumerate(a) if cint(x) == -1]
        if len(unk) > 1:
            raise Unsup("reshape")
        if unk:
            a[unk[0]] = ONE
            a[unk[0]] = div(n, mulall(a), CTX.decide)
        it.require(eq(mulall(a), n))
        rd = flat_reader(v)
        return Arr(tuple(a), v.dt, NFn(lambda q, sh=tuple(a): rd(flat_index(sh, q))))

    def m_reshape(self, it, e, o, args):
        r = self.reshaped(it, self.arr(it, o), args)
        if isinstance(o, Cell):
            it.st[o] = r
            return o
        if isinstance(o, LV):
            raise Unsup("reshape of a view")
        return r

    def f_xt_reshape_view(self, it, e, args):
        return self.reshaped(it, self.arr(it, args[0]), args[1:])

    def m_periodic(self, it, e, o, args):
        v = self.arr(it, o)
        idx = [it.load(a) for a in args]
        while len(idx) < v.nd:
            idx.insert(0, ZERO)
        out = []
        for i, s in zip(idx, v.shape):
            if CTX.decide(ge(i, ZERO)) is True and CTX.decide(lt(i, s)) is True:
                out.append(i)
            elif CTX.decide(lt(i, ZERO)) is True:
                out.append(add(i, s))
            else:
                out.append(ite(lt(i, ZERO), add(i, s), i))
        return LElem(o, out) if isinstance(o, LV) else v.read(*out)

    def m_noalias(self, it, e, o, args):
        return Obj("noalias", o)

    # Eigen sparse
    def m_setFromTriplets(self, it, e, o, args):
        b = args[0] if isinstance(args[0], Obj) else it.load(args[0])
        if not (isinstance(b, Obj) and b.kind == "bag"):
            raise Unsup("setFromTriplets")
        m = it.load(o)
        lv = b.d[0].leaves(None)
        it.st[o] = Sp(m.rows, m.cols, lambda r, c: bag_sum(lv, (r, c)))

    def sp_op(self, it, op, a, b):
        if op == "*":
            if isinstance(a, Sp) and isinstance(b, Arr):
                def f(q):
                    j = fresh("j")
                    return sum_((j,), land(ge(j, ZERO), lt(j, a.cols)), mul(a.fn(q[0], j), b.read(j)))
                return Arr((a.rows,), "R", NFn(f))
            if isinstance(a, Sp) and isinstance(b, Sp):
                def g(r, c):
                    j = fresh("j")
                    return sum_((j,), land(ge(j, ZERO), lt(j, a.cols)), mul(a.fn(r, j), b.fn(j, c)))
                return Sp(a.rows, b.cols, g)
            if isinstance(a, T) and isinstance(b, Sp):
                return Sp(b.rows, b.cols, lambda r, c: mul(a, b.fn(r, c)))
            if isinstance(a, Sp) and isinstance(b, T):
                return Sp(a.rows, a.cols, lambda r, c: mul(b, a.fn(r, c)))
        if op in ("+", "-") and isinstance(a, Sp) and isinstance(b, Sp):
            s = 1 if op == "+" else -1
            return Sp(a.rows, a.cols, lambda r, c: add(a.fn(r, c), scale(Fraction(s), b.fn(r, c))))
        raise Unsup("sparse operator " + op)

    def m_value(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Obj) and v.kind == "spit":
            return v.d[0].fn(it.load(v.d[2]), v.d[1])
        raise Unsup("value")

    def f_Eigen_DenseBase_Zero(self, it, e, args):
        a = [it.load(x) for x in args]
        if len(a) == 2 and cint(a[1]) == 1 or len(a) == 1:
            return Arr((a[0],), "R", NFn(lambda q: ZERO))
        return Sp(a[0], a[1], lambda r, c: ZERO)

    def m_outerSize(self, it, e, o, args):
        return it.load(o).cols

    def m_row(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Obj) and v.kind == "spit":
            return it.load(v.d[2])
        raise Unsup("row")

    def m_col(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Obj) and v.kind == "spit":
            return v.d[1]
        raise Unsup("col")

    def m_transpose(self, it, e, o, args):
        v = it.load(o)
        if isinstance(v, Sp):
            return Sp(v.cols, v.rows, lambda r, c: v.fn(c, r))
        raise Unsup("transpose")

    def m_coeffRef(self, it, e, o, args):
        raise Unsup("coeffRef")

    def m_coeff(self, it, e, o, args):
        v = it.load(o)
        return v.fn(*[it.load(a) for a in args]) if isinstance(v, Sp) else v.read(*[it.load(a) for a in args])

    # atomics (sequential semantics)
    def m_fetch_add(self, it, e, o, args):
        v = it.load(o)
        if not (isinstance(v, T) and isinstance(o, I.Cell)):
            raise Unsup("fetch_add")
        it.st[o] = add(v, it.load(args[0]))
        return v

    def m_load(self, it, e, o, args):
        v = it.load(o)
        if not isinstance(v, T):
            raise Unsup("load")
        return v

    def m_store(self, it, e, o, args):
        if not (isinstance(it.load(o), T) and isinstance(o, I.Cell)):
            raise Unsup("store")
        it.st[o] = it.load(args[0])

    # direct solvers
    def m_compute(self, it, e, o, args):
        A = it.load(args[0])
        if not isinstance(A, Sp):
            raise Unsup("factorisation of a non-matrix")
        it.st[o] = Obj("fact", A)
        return o

    def m_factorize(self, it, e, o, args):
        return self.m_compute(it, e, o, args)

    def m_analyzePattern(self, it, e, o, args):
        return None

    def m_info(self, it, e, o, args):
        return ZERO

    def m_solve(self, it, e, o, args):
        f = it.load(o)
        b = it.load(args[0])
        if not (isinstance(f, Obj) and f.kind == "fact"):
            raise Unsup("solve without factorisation")
        return solve_arr(f.d[0], b)

    def m_array(self, it, e, o, args):
        return o

    m_matrix = m_array
    m_eval = m_array
    m_derived = m_array
    m_derived_cast = m_array

    def m_sum(self, it, e, o, args):
        return reduce_all(it.load(o), "sum")

    # ------------------------------------------------------------ constructors
    def ctor(self, it, e):
        t = e["t"]
        q = strip_t(e.get("x", ""))
        it.libused[q] = it.libused.get(q, 0) + 1
        args = [it.ev(a) for a in e["a"]]
        if t.startswith("Eigen::Triplet"):
            if len(args) == 1:
                return it.load(args[0])
            vals = [it.load(a) for a in args]
            if len(vals) == 2:
                vals.append(ZERO)
            return Obj("triplet", *vals)
        if t.startswith("Eigen::Map") or t == "Eigen::Map":
            p = it.load(args[0]) if not isinstance(args[0], Ptr) else args[0]
            n = it.load(args[1])
            return self.make_map(it, p, [it.load(a) for a in args[1:] if isinstance(it.load(a), T)])
        if e.get("copy") and len(args) == 1:
            v = it.load(args[0])
            if isinstance(v, (Ptr,)):
                return v
            return it.copy(v)
        a = arr_type(t)
        if t.startswith("std::tuple") or t.startswith("std::pair") or t.startswith("std::__pair"):
            if len(args) == 2:
                return Obj("pair", *[it.new(it.copy(it.load(x))) for x in args])
            if len(args) == 1:
                return it.load(args[0])
            return Obj("tuple", *[it.load(x) for x in args])
        if a is not None:
            return self.ctor_array(it, e, t, a, args)
        if t.startswith("std::vector<Eigen::Triplet"):
            if args:
                n = it.load(args[0])
                if isinstance(n, Bag):
                    return n
                if n is not ZERO:
                    raise Unsup("vector of default triplets")
            return BEmpty()
        if t.startswith("std::vector<"):
            return self.ctor_vec(it, e, t, args)
        if t.endswith("InnerIterator"):
            return Obj("spit", it.load(args[0]), it.load(args[1]), it.new(ZERO, "row"))
        if t.startswith("Eigen::SparseMatrix"):
            if len(args) == 2:
                r, c = it.load(args[0]), it.load(args[1])
                return Sp(r, c, lambda i, j: ZERO)
            if len(args) == 1:
                v = it.load(args[0])
                if isinstance(v, Sp):
                    return v
            return it.default(t)
        if t.startswith("Eigen::Matrix<"):
            # dense 2d
            if len(args) == 2:
                return Sp(it.load(args[0]), it.load(args[1]), lambda i, j: ZERO)
            if len(args) == 1:
                return it.load(args[0])
            return it.default(t)
        if t.startswith("Eigen::"):
            if len(args) == 1:
                return it.load(args[0])
            return it.default(t)
        if len(args) == 1:
            v = args[0]
            return v
        if not args:
            return it.default(t)
        raise Unsup("constructor of " + t)

    def make_map(self, it, p, dims):
        return LAdapt(p, tuple(dims[:1]) if len(dims) == 1 or True else tuple(dims))

    def ctor_vec(self, it, e, t, args):
        if not args:
            return Vec([])
        v = it.load(args[0])
        if isinstance(v, Vec):
            return it.copy(v)
        if isinstance(v, T):
            n = cint(v)
            if n is None and t.startswith("std::vector<std::vector<u") and (len(args) == 1 or isinstance(it.load(args[1]), Obj)):
                return Rows(it.new(Arr((v, I.ROWVALS), "I", NFn(lambda q: ZERO)), "rows"), it.new(Arr((v,), "B", NFn(lambda q: TRUE)), "order"))
            if n is None:
                raise Unsup("vector of symbolic length")
            if len(args) > 1:
                x = it.load(args[1])
                if not isinstance(x, Obj) or x.kind not in ("undef",):
                    return Vec([it.new(it.copy(x)) for _ in range(n)])
            inner = t[len("std::vector<"):]
            inner = inner[: inner.rfind(",")] if "," in inner else inner[:-1]
            return Vec([it.new(it.default(inner, "vec")) for _ in range(n)])
        raise Unsup("constructor of " + t)

    def ctor_array(self, it, e, t, a, args):
        nd, dt, sh = a
        vals = [it.load(x) for x in args]
        vals = [v for v in vals if not (isinstance(v, Obj) and v.kind in ("undef", "g"))]
        x = e.get("x", "")
        if t.startswith("std::vector<"):
            if not vals:
                return vec([], dt)
            if isinstance(vals[0], Arr):
                return vals[0]
            if isinstance(vals[0], Ptr):
                p, r = vals[0], vals[1]
                n = sub(it.ptr_off(r), it.ptr_off(p))
                src = it.load(p.b)
                o = it.ptr_off(p)
                fl = flat_reader(src)
                return Arr((n,), dt, NFn(lambda q: fl(add(o, q[0]))))
            n = vals[0]
            fill = vals[1] if len(vals) > 1 else (FALSE if dt == "B" else ZERO)
            return Arr((n,), dt, NFn(lambda q: fill))
        if t.startswith("Eigen::Matrix<"):
            if not vals:
                return new_arr("undef", [ZERO], dt)
            if isinstance(vals[0], Arr):
                return vals[0]
            return new_arr("undef", [vals[0]], dt)
        if not vals:
            if sh is not None:
                return new_arr("undef", [num(s) for s in sh], dt)
            return new_arr("undef", [ZERO] * (nd or 1), dt)
        v = vals[0]
        if isinstance(v, Obj) and v.kind == "reduce":
            v = v.d[0]
        if isinstance(v, T) and nd is not None and t.startswith("xt::xtensor"):
            # xtensor(shape...) is not a scalar constructor: nested initialiser of rank 1
            if e.get("il") or e.get("list"):
                return vec(vals, dt)
            return Arr([ONE] * nd, dt, NFn(lambda q: v))
        if isinstance(v, Vec):
            return nested(it, v, dt)
        if isinstance(v, Arr):
            if t.startswith("std::array") or t.startswith("std::init"):
                return v
            if "xtensor_container" in x or "xarray_container" in x or "xfixed" in x or True:
                # shape argument?
                if self.is_shape_ctor(e, v, nd):
                    shp = veclist(v)
                    if len(vals) > 1 and isinstance(vals[1], T):
                        c = vals[1]
                        return Arr(shp, dt, NFn(lambda q: c))
                    return new_arr("undef", shp, dt)
                if nd is not None and v.nd < nd:
                    raise Unsup("rank change")
                return Arr(v.shape, dt, v.node)
        raise Unsup("constructor of %s" % t)

    def is_shape_ctor(self, e, v, nd):
        a0 = e["a"][0]
        # look at the declared type of the argument expression
        t = expr_type(a0)
        if t is None:
            return False
        return t.startswith(("std::array", "&std::array", "xt::svector", "&xt::svector", "xt::const_array")) and not e.get("il")

    # ------------------------------------------------------------ free functions
    def shape_arg(self, it, x):
        v = it.load(x)
        if isinstance(v, Arr):
            return veclist(v)
        raise Unsup("shape argument")

    def ety(self, e):
        ta = e.get("ta") or ["f64"]
        for t in ta:
            if scalar_type(t):
                return dt_of(t)
        return "R"

    def f_xt_empty(self, it, e, args):
        return new_arr("empty", self.shape_arg(it, args[0]), self.ety(e))

    def f_xt_zeros(self, it, e, args):
        dt = self.ety(e)
        return const_arr(self.shape_arg(it, args[0]), dt, FALSE if dt == "B" else ZERO)

    def f_xt_ones(self, it, e, args):
        dt = self.ety(e)
        return const_arr(self.shape_arg(it, args[0]), dt, TRUE if dt == "B" else ONE)

    def f_xt_empty_like(self, it, e, args):
        v = self.arr(it, args[0])
        return new_arr("empty", v.shape, v.dt)

    def f_xt_zeros_like(self, it, e, args):
        v = self.arr(it, args[0])
        return const_arr(v.shape, v.dt, FALSE if v.dt == "B" else ZERO)

    def f_xt_ones_like(self, it, e, args):
        v = self.arr(it, args[0])
        return const_arr(v.shape, v.dt, TRUE if v.dt == "B" else ONE)

    def f_xt_full_like(self, it, e, args):
        v = self.arr(it, args[0])
        return const_arr(v.shape, v.dt, it.load(args[1]))

    def f_xt_arange(self, it, e, args):
        a = [it.load(x) for x in args]
        if len(a) == 1:
            s, n, st = ZERO, a[0], ONE
        elif len(a) == 2:
            s, n, st = a[0], a[1], ONE
        else:
            s, n, st = a
        if cint(st) is None or cint(st) <= 0:
            raise Unsup("arange step")
        ln = sub(n, s)
        if st is not ONE:
            ln = div(add(ln, sub(st, ONE)), st, CTX.decide)
        if CTX.decide(ge(ln, ZERO)) is not True:
            ln = ite(ge(ln, ZERO), ln, ZERO)
        return Arr((ln,), self.ety(e) if e.get("ta") else "I", NFn(lambda q: add(s, mul(st, q[0]))))

    def f_xt_linspace(self, it, e, args):
        a = [it.load(x) for x in args]
        s, t, n = a[0], a[1], a[2]
        return Arr((n,), "R", NFn(lambda q: add(s, mul(q[0], div_real(sub(t, s), sub(n, ONE))))))

    def f_xt_eye(self, it, e, args):
        n = it.load(args[0])
        return Arr((n, n), "R", NFn(lambda q: ite(eq(q[0], q[1]), ONE, ZERO)))

    # views
    def f_xt_range(self, it, e, args):
        return Obj("range", *[it.load(a) for a in args])

    def f_xt_all(self, it, e, args):
        if not args:
            return Obj("all")
        return reduce_all(self.arr(it, args[0]), "and")

    def f_xt_newaxis(self, it, e, args):
        return Obj("newaxis")

    def f_xt_ellipsis(self, it, e, args):
        return Obj("ellipsis")

    def f_xt_keep(self, it, e, args):
        v = [it.load(a) for a in args]
        return Obj("keep", v)

    def f_xt_drop(self, it, e, args):
        return Obj("drop", [it.load(a) for a in args])

    def f_xt_view(self, it, e, args):
        lv = args[0]
        base = it.load(lv)
        if isinstance(base, Obj) and base.kind == "reduce":
            base = base.d[0]
        if not isinstance(base, Arr):
            raise Unsup("view of %s" % type(base).__name__)
        if not isinstance(lv, LV):
            lv = it.new(base)
        return self.mkview(it, lv, base, [it.load(a) for a in args[1:]])

    def mkview(self, it, lv, base, sl):
        nnew = sum(1 for s in sl if isinstance(s, Obj) and s.kind == "newaxis")
        el = [i for i, s in enumerate(sl) if isinstance(s, Obj) and s.kind == "ellipsis"]
        if el:
            i = el[0]
            fill = base.nd - (len(sl) - 1 - nnew)
            sl = sl[:i] + [Obj("all")] * fill + sl[i + 1:]
        while len(sl) - nnew < base.nd:
            sl.append(Obj("all"))
        spec, out = [], []
        ax = 0
        for s in sl:
            if isinstance(s, Obj) and s.kind == "newaxis":
                out.append(None)
                continue
            n = base.shape[ax]
            if isinstance(s, T):
                i = s
                if CTX.decide(ge(i, ZERO)) is False:
                    i = add(i, n)
                spec.append(("i", i))
            elif isinstance(s, Obj) and s.kind == "all":
                spec.append(("r", ZERO, n, 1))
                out.append(ax)
            elif isinstance(s, Obj) and s.kind == "range":
                spec.append(self.range_spec(s.d, n))
                out.append(ax)
            elif isinstance(s, Obj) and s.kind == "keep":
                v = s.d[0]
                if len(v) == 1 and isinstance(v[0], Arr):
                    if cint(v[0].shape[0]) is not None:
                        spec.append(("k", veclist(v[0])))
                    else:
                        spec.append(("K", v[0]))
                else:
                    spec.append(("k", v))
                out.append(ax)
            else:
                raise Unsup("view slice %s" % (s.kind if isinstance(s, Obj) else type(s).__name__))
            ax += 1
        return LView(lv, spec, out)

    def range_spec(self, d, n):
        d = list(d)
        if len(d) == 1:
            d = [Obj("ph"), d[0]]
        isph = lambda x: isinstance(x, Obj)
        step = 1
        if len(d) == 3:
            step = cint(d[2]) if not isph(d[2]) else 1
            if step is None or step <= 0:
                raise Unsup("range step")

        def norm(x):
            if CTX.decide(ge(x, ZERO)) is False:
                return add(x, n)
            if CTX.decide(le(x, n)) is True:
                return x
            if CTX.decide(gt(x, n)) is True:
                return n
            CTX.note("xt::range bounds lie inside the array")
            return x

        s = ZERO if isph(d[0]) else norm(d[0])
        t = n if isph(d[1]) else norm(d[1])
        ln = sub(t, s)
        if step != 1:
            ln = div(add(ln, num(step - 1)), num(step), CTX.decide)
        if CTX.decide(ge(ln, ZERO)) is not True:
            ln = ite(ge(ln, ZERO), ln, ZERO)
        return ("r", s, ln, step)

    def f_xt_strided_view(self, it, e, args):
        lv = args[0]
        base = it.load(lv)
        sl = it.load(args[1])
        if not isinstance(lv, LV):
            lv = it.new(base)
        if len(args) >= 3:
            # strided_view(array, shape, strides, offset, layout): the strides are those of the dimensions of the array, or zero
            sh, st = veclist(sl), veclist(it.load(args[2]))
            if len(args) > 3 and it.load(args[3]) is not ZERO:
                raise Unsup("offset of a strided view")
            if len(sh) != len(st):
                raise Unsup("strided view")
            at = [[] for _ in range(base.nd)]
            for d, s in enumerate(st):
                if s is ZERO:
                    continue
                if s.op != "sym" or not s.a[0].startswith("stride!") or int(s.a[0][7:]) >= base.nd:
                    raise Unsup("stride")
                at[int(s.a[0][7:])].append(d)
            for i in range(base.nd):
                # the view stays within the array
                if len(at[i]) > 1 or at[i] and CTX.decide(le(sh[at[i][0]], base.shape[i])) is not True:
                    raise Unsup("strided view beyond a dimension")
            rd = base.node.read
            return Arr(tuple(sh), base.dt, NFn(lambda q: rd(tuple(q[a[0]] if a else ZERO for a in at))))
        if isinstance(sl, Vec):
            items = [it.load(c) for c in sl.items]
        elif isinstance(sl, Arr):
            items = veclist(sl)
        else:
            raise Unsup("strided_view")
        return self.mkview(it, lv, base, items)

    def f_xt_row(self, it, e, args):
        base = it.load(args[0])
        return LView(args[0] if isinstance(args[0], LV) else it.new(base), [("i", it.load(args[1])), ("r", ZERO, base.shape[1], 1)], [1])

    def f_xt_col(self, it, e, args):
        base = it.load(args[0])
        return LView(args[0] if isinstance(args[0], LV) else it.new(base), [("r", ZERO, base.shape[0], 1), ("i", it.load(args[1]))], [0])

    def f_xt_index_view(self, it, e, args):
        raise Unsup("index_view")

    def f_xt_adapt(self, it, e, args):
        p = args[0]
        pv = it.load(p) if isinstance(p, Cell) else p
        if isinstance(pv, Ptr):
            sh = it.load(args[-1])
            if not isinstance(sh, Arr):
                raise Unsup("adapt shape")
            return LAdapt(pv, veclist(sh))
        v = it.load(p)
        if isinstance(v, Arr):
            if len(args) == 1:
                return p
            sh = self.shape_arg(it, args[1])
            if len(sh) == v.nd:
                return p
            return LAdapt(Ptr(p if isinstance(p, LV) else it.new(v), ZERO), sh)
        raise Unsup("adapt")

    def f_xt_noalias(self, it, e, args):
        return Obj("noalias", args[0])

    def f_xt_eval(self, it, e, args):
        return it.load(args[0])

    def f_xt_flatten(self, it, e, args):
        return it.load(LFlat(args[0] if isinstance(args[0], LV) else it.new(it.load(args[0]))))

    f_xt_ravel = f_xt_flatten

    def f_xt_transpose(self, it, e, args):
        v = self.arr(it, args[0])
        return Arr(tuple(reversed(v.shape)), v.dt, NFn(lambda q: v.node.read(tuple(reversed(q)))))

    def f_xt_cast(self, it, e, args):
        return it.load(args[0])

    # element-wise
    def f_xt_pow(self, it, e, args):
        a, b = it.load(args[0]), it.load(args[1])
        n = cint(b) if isinstance(b, T) else None
        f = (lambda x: power(x, n)) if n is not None else (lambda x: app("pow", "R", x, b))
        if isinstance(a, Arr):
            return Arr(a.shape, a.dt, NFn(lambda q: f(a.node.read(q))))
        if n is None and isinstance(b, T) and b.op == "num" and b.a[0] == Fraction(1, 2):
            return app("sqrt", "R", a)
        return f(a)

    f_std_pow = f_xt_pow
    f_pow = f_xt_pow

    def f_std_sqrt(self, it, e, args):
        a = it.load(args[0])
        if isinstance(a, Arr):
            return Arr(a.shape, "R", NFn(lambda q: app("sqrt", "R", a.node.read(q))))
        return app("sqrt", "R", a)

    f_xt_sqrt = f_std_sqrt
    f_sqrt = f_std_sqrt

    def f_std_abs(self, it, e, args):
        a = it.load(args[0])
        f = lambda x: ite(ge(x, ZERO), x, neg(x))
        return Arr(a.shape, a.dt, NFn(lambda q: f(a.node.read(q)))) if isinstance(a, Arr) else f(a)

    f_xt_abs = f_std_abs
    f_xt_fabs = f_std_abs
    f_std_fabs = f_std_abs
    f_abs = f_std_abs
    f_fabs = f_std_abs

    def f_xt_isnan(self, it, e, args):
        a = it.load(args[0])
        f = lambda x: app("isnan", "B", x) if self.ieee else FALSE
        return Arr(a.shape, "B", NFn(lambda q: f(a.node.read(q)))) if isinstance(a, Arr) else f(a)

    f_std_isnan = f_xt_isnan

    def f_std_min(self, it, e, args):
        v = [it.load(a) for a in args]
        if CTX.decide(ge(v[0], v[1])) is True:
            return v[1]
        return ite(le(v[0], v[1]), v[0], v[1])

    def f_std_max(self, it, e, args):
        v = [it.load(a) for a in args]
        if CTX.decide(le(v[0], v[1])) is True:
            return v[1]
        return ite(ge(v[0], v[1]), v[0], v[1])

    def f_std_forward(self, it, e, args):
        return args[0]

    f_std_move = f_std_forward

    def f_from_shape(self, it, e, args):
        d = arr_type(e["t"])
        return new_arr("empty", self.shape_arg(it, args[0]), d[1])

    def f_xt_amax(self, it, e, args):
        v = self.arr(it, args[0])
        m = monotone_max(v)
        if m is None:
            v = self.named(it, args[0])
        ax = [it.load(a) for a in args[1:]]
        ax = [a for a in ax if isinstance(a, (T, Arr))]
        if ax:
            raise Unsup("amax over an axis")
        return Obj("reduce", extreme(v, True) if m is None else m)

    def f_xt_amin(self, it, e, args):
        v = self.arr(it, args[0])
        ax = [it.load(a) for a in args[1:]]
        ax = [a for a in ax if isinstance(a, (T, Arr))]
        if ax:
            raise Unsup("amin over an axis")
        return Obj("reduce", extreme(v, False))

    def axes(self, it, args, nd):
        for a in args:
            v = it.load(a)
            if isinstance(v, T):
                return [cint(v) % nd]
            if isinstance(v, Arr):
                return [cint(x) % nd for x in veclist(v)]
        return None

    def f_xt_sum(self, it, e, args):
        v = self.arr(it, args[0])
        ax = self.axes(it, args[1:], v.nd)
        if ax is None:
            return Obj("reduce", reduce_all(v, "sum"))
        keep = [i for i in range(v.nd) if i not in ax]

        def f(q):
            pos = dict(zip(keep, q))
            cs = [cint(v.shape[a]) for a in ax]
            if None not in cs:
                r = ZERO
                for ix in itertools.product(*[range(c) for c in cs]):
                    p = dict(zip(ax, [num(i) for i in ix]))
                    p.update(pos)
                    r = add(r, v.node.read(tuple(p[i] for i in range(v.nd))))
                return r
            bs = {a: fresh("j") for a in ax}
            g = land(*[land(ge(b, ZERO), lt(b, v.shape[a])) for a, b in bs.items()])
            p = dict(bs)
            p.update(pos)
            return sum_(tuple(bs.values()), g, v.node.read(tuple(p[i] for i in range(v.nd))))

        return Arr(tuple(v.shape[i] for i in keep), v.dt if v.dt != "B" else "I", NFn(f))

    def f_xt_average(self, it, e, args):
        v = self.arr(it, args[0])
        rest = [it.load(a) for a in args[1:]]
        w = None
        ax = None
        for r in rest:
            if isinstance(r, Arr) and (r.nd > 1 or not all(cint(s) is not None for s in r.shape) or r.dt == "R"):
                w = r
            elif isinstance(r, Arr):
                ax = [cint(x) % v.nd for x in veclist(r)]
            elif isinstance(r, T):
                ax = [cint(r) % v.nd]
        if ax is None:
            ax = list(range(v.nd))
        keep = [i for i in range(v.nd) if i not in ax]
        if w is not None and w.nd != v.nd:
            raise Unsup("average weights")

        def f(q):
            pos = dict(zip(keep, q))
            cs = [cint(v.shape[a]) for a in ax]
            if None in cs:
                bs = {a: fresh("j") for a in ax}
                g = land(*[land(ge(b, ZERO), lt(b, v.shape[a])) for a, b in bs.items()])
                p = dict(bs)
                p.update(pos)
                ix = tuple(p[i] for i in range(v.nd))
                wt = w.node.read(ix) if w is not None else ONE
                return div_real(sum_(tuple(bs.values()), g, mul(wt, v.node.read(ix))), sum_(tuple(bs.values()), g, wt) if w is not None else mulall([v.shape[a] for a in ax]))
            n, d = ZERO, ZERO
            for ix in itertools.product(*[range(c) for c in cs]):
                p = dict(zip(ax, [num(i) for i in ix]))
                p.update(pos)
                ix = tuple(p[i] for i in range(v.nd))
                wt = w.node.read(ix) if w is not None else ONE
                n = add(n, mul(wt, v.node.read(ix)))
                d = add(d, wt)
            return div_real(n, d)

        return Arr(tuple(v.shape[i] for i in keep), "R", NFn(f))

    def f_xt_mean(self, it, e, args):
        return self.f_xt_average(it, e, args)

    def f_xt_any(self, it, e, args):
        return reduce_all(self.arr(it, args[0]), "or")

    def f_xt_allclose(self, it, e, args):
        a, b = it.load(args[0]), it.load(args[1])
        r = self.arr_binop(it, "==", a, b) if isinstance(b, Arr) else reduce_all(self.arr_binop(it, "==", a, b), "and")
        CTX.note("xt::allclose is treated as equality")
        return r if isinstance(r, T) else reduce_all(r, "and")

    def f_xt_has_shape(self, it, e, args):
        v = self.arr(it, args[0])
        sh = self.shape_arg(it, args[1])
        if len(sh) != v.nd:
            return FALSE
        return land(*[eq(a, b) for a, b in zip(v.shape, sh)])

    def f_xt_same_shape(self, it, e, args):
        a, b = self.shape_arg(it, args[0]), self.shape_arg(it, args[1])
        return land(*[eq(x, y) for x, y in zip(a, b)]) if len(a) == len(b) else FALSE

    def f_xt_where(self, it, e, args):
        if len(args) == 3:
            v = [it.load(a) for a in args]
            return self.elementwise(it, lambda c, x, y: ite(c, x, y), v, v[1].dt if isinstance(v[1], Arr) else "R")
        raise Unsup("xt::where")

    def f_xt_equal(self, it, e, args):
        a, b = it.load(args[0]), it.load(args[1])
        return self.elementwise(it, lambda x, y: eq(x, y), [a, b], "B")

    def f_xt_not_equal(self, it, e, args):
        a, b = it.load(args[0]), it.load(args[1])
        return self.elementwise(it, lambda x, y: ne(x, y), [a, b], "B")

    def f_xt_concatenate(self, it, e, args):
        tup = it.load(args[0])
        ax = cint(it.load(args[1])) if len(args) > 1 else 0
        if not isinstance(tup, Obj) or tup.kind != "tuple":
            raise Unsup("concatenate")
        parts = list(tup.d)
        tot = ZERO
        starts = []
        for p in parts:
            starts.append(tot)
            tot = add(tot, p.shape[ax])
        sh = list(parts[0].shape)
        sh[ax] = tot

        def f(q):
            r = None
            for p, s in reversed(list(zip(parts, starts))):
                qq = list(q)
                qq[ax] = sub(q[ax], s)
                v = p.node.read(tuple(qq))
                if r is None:
                    r = v
                else:
                    c = lt(q[ax], add(s, p.shape[ax]))
                    d = CTX.decide(c)
                    r = v if d is True else r if d is False else ite(c, v, r)
            return r

        return Arr(sh, parts[0].dt, NFn(f))

    def f_xt_xtuple(self, it, e, args):
        return Obj("tuple", *[self.arr(it, a) for a in args])

    f_std_make_tuple = f_xt_xtuple

    def f_std_make_pair(self, it, e, args):
        return Obj("pair", *[it.new(it.copy(it.load(x))) for x in args])

    def f_xt_setdiff1d(self, it, e, args):
        a, b = self.named(it, args[0]), self.named(it, args[1])
        return setdiff(a, b).R

    def f_xt_unique(self, it, e, args):
        return unique(self.named(it, args[0])).R

    def named(self, it, lv):
        """array with symbolic content; the content of a computed array is given a name (the definition is a fact)"""
        a = self.arr(it, lv)
        if not isinstance(a.node, NSym) and isinstance(lv, (Cell, Arr)):
            if a.dt != "I":
                return a
            S = ArrSym("named!%d" % loops.next_id(), a.nd, a.dt)
            CTX.defs[S] = a
            b = a.with_node(NSym(S))
            if isinstance(lv, Cell):
                it.st[lv] = b
            if self.on_named:
                self.on_named(a, S)
            return b
        return a

    def f_xt_sort(self, it, e, args):
        return sorted_(self.named(it, args[0]))

    def f_xt_argmax(self, it, e, args):
        """first entry of a list of booleans that is true: one of the candidates of the contract, for which it is proved"""
        v = self.arr(it, args[0])
        if v.nd != 1 or v.dt != "B":
            raise Unsup("argmax of numbers")
        k = fresh("k")
        for c in CTX.firsts:
            if CTX.decide(land(ge(c, ZERO), lt(c, v.shape[0]), v.read(c))) is not True:
                continue
            n = CTX.push(land(ge(k, ZERO), lt(k, c)))
            try:
                if CTX.decide(lnot(v.read(k))) is True:
                    return Obj("reduce", c)
            finally:
                CTX.pop(n)
        raise Unsup("argmax: not one of the entries of the contract")

    def f_xt_cumsum(self, it, e, args):
        v = self.arr(it, args[0])
        if v.nd != 1:
            raise Unsup("cumsum")
        # sequence of the contract with the same steps: its next entry, by induction on the index
        k = fresh("k")
        for g in CTX.ghosts if v.dt == "I" else ():
            if not is_int(g(k)) or CTX.decide(eq(g(ZERO), ZERO)) is not True:
                continue
            n = CTX.push(land(ge(k, ZERO), lt(k, v.shape[0])))
            try:
                if CTX.decide(eq(g(add(k, ONE)), add(g(k), v.read(k)))) is True:
                    return Arr(v.shape, v.dt, NFn(lambda q, g=g: g(add(q[0], ONE))))
            finally:
                CTX.pop(n)

        def f(q):
            c = cint(q[0])
            if c is not None:
                return add(*[v.read(num(i)) for i in range(c + 1)]) if c >= 0 else ZERO
            j = fresh("j")
            return sum_((j,), land(ge(j, ZERO), le(j, q[0])), v.read(j))

        return Arr(v.shape, v.dt, NFn(f))

    def f_xt_roll(self, it, e, args):
        v = self.arr(it, args[0])
        n = v.shape[0]
        if v.nd != 1 or len(args) != 2 or CTX.decide(ge(n, ONE)) is not True:
            raise Unsup("roll")
        s = mod(it.load(args[1]), n, CTX.decide)
        return Arr(v.shape, v.dt, NFn(lambda q: v.read(add(q[0], ite(lt(q[0], s), sub(n, s), neg(s))))))

    # std algorithms on ranges
    def rng(self, it, p, r):
        p, r = it.load(p), it.load(r)
        if not isinstance(p, Ptr) or not isinstance(r, Ptr):
            raise Unsup("iterator range")
        return p, sub(it.ptr_off(r), it.ptr_off(p))

    def f_std_copy(self, it, e, args):
        p, n = self.rng(it, args[0], args[1])
        d = it.load(args[2])
        src = it.load(p.b)
        dst = it.load(d.b)
        fs = flat_reader(src)
        po, do = it.ptr_off(p), it.ptr_off(d)
        if isinstance(d.b, Cell) and po is ZERO and do is ZERO and src.nd == dst.nd and (all(x is y for x, y in zip(src.shape, dst.shape)) or CTX.decide(land(*[eq(x, y) for x, y in zip(src.shape, dst.shape)]))):
            it.st[d.b] = Arr(dst.shape, dst.dt, src.node)
            return d
        if dst.nd == 1 and isinstance(d.b, Cell):
            it.st[d.b] = dst.with_node(NRegion(dst.node, [("r", do, n, 1)], lambda q: fs(add(po, q[0]))))
            return it.ptr_add(d, n)
        cn = cint(n)
        if cn is not None and cn < 200:
            for i in range(cn):
                it.store(it.deref(it.ptr_add(d, num(i))), fs(add(po, num(i))))
            return it.ptr_add(d, n)
        raise Unsup("std::copy")

    def f_std_fill(self, it, e, args):
        p, n = self.rng(it, args[0], args[1])
        v = it.load(args[2])
        a = it.load(p.b)
        if it.ptr_off(p) is ZERO and n is a.size():
            it.assign_array(p.b, v)
            return
        if a.nd == 1 and isinstance(p.b, Cell):
            it.st[p.b] = a.with_node(NRegion(a.node, [("r", it.ptr_off(p), n, 1)], lambda q: v))
            return
        cn = cint(n)
        if cn is not None and cn < 500:
            for i in range(cn):
                it.store(it.deref(it.ptr_add(p, num(i))), v)
            return
        raise Unsup("std::fill")

    def f_std_iota(self, it, e, args):
        p, n = self.rng(it, args[0], args[1])
        v = it.load(args[2])
        a = it.load(p.b)
        if a.nd == 1 and isinstance(p.b, Cell):
            o = it.ptr_off(p)
            it.st[p.b] = a.with_node(NRegion(a.node, [("r", o, n, 1)], lambda q: add(v, q[0])))
            return
        raise Unsup("std::iota")

    def f_std_equal(self, it, e, args):
        p, n = self.rng(it, args[0], args[1])
        d = it.load(args[2])
        fa, fb = flat_reader(it.load(p.b)), flat_reader(it.load(d.b))
        po, do = it.ptr_off(p), it.ptr_off(d)
        cn = cint(n)
        if cn is not None:
            return land(*[eq(fa(add(po, num(i))), fb(add(do, num(i)))) for i in range(cn)])
        j = fresh("j")
        return forall((j,), imp(land(ge(j, ZERO), lt(j, n)), eq(fa(add(po, j)), fb(add(do, j)))))

    def quant_pred(self, it, args, kind):
        p, n = self.rng(it, args[0], args[1])
        lam = it.load(args[2])
        fs = flat_reader(it.load(p.b))
        po = it.ptr_off(p)
        cn = cint(n)
        if cn is not None:
            c = [it.load(it.call_lambda(lam, [fs(add(po, num(i)))])) for i in range(cn)]
            return land(*c) if kind == "all" else lor(*c)
        j = fresh("j")
        g = land(ge(j, ZERO), lt(j, n))
        m = CTX.push(g)
        try:
            c = it.load(it.call_lambda(lam, [fs(add(po, j))]))
        finally:
            CTX.pop(m)
        return forall((j,), imp(g, c)) if kind == "all" else exists((j,), land(g, c))

    def f_std_any_of(self, it, e, args):
        return self.quant_pred(it, args, "any")

    def f_std_all_of(self, it, e, args):
        return self.quant_pred(it, args, "all")

    def f_std_none_of(self, it, e, args):
        return lnot(self.quant_pred(it, args, "any"))

    def f_std_is_sorted(self, it, e, args):
        p, n = self.rng(it, args[0], args[1])
        fs = flat_reader(it.load(p.b))
        po = it.ptr_off(p)
        op = "<"
        if len(args) > 2:
            c = it.load(args[2])
            k = getattr(c, "kind", None) or (c.name if isinstance(c, Rec) else str(c))
            t = strip_t(e["a"][2].get("t", "")) if isinstance(e.get("a"), list) else ""
            op = ">" if "greater" in str(e) else ("<" if "std::less" in str(e) else None)
            if op is None:
                raise Unsup("comparison of is_sorted")
        cmpf = lambda x, y: lnot(self.cmp(op, y, x))
        j = fresh("j")
        return forall((j,), imp(land(ge(j, ZERO), lt(add(j, ONE), n)), cmpf(fs(add(po, j)), fs(add(po, add(j, ONE))))))

    def f_std_sort(self, it, e, args):
        """ascending order of a list in a list: the same values"""
        p, r = it.load(args[0]), it.load(args[1])
        if len(args) != 2 or not isinstance(p, Ptr) or not isinstance(r, Ptr) or p.b is not r.b and not (isinstance(p.b, LRow) and isinstance(r.b, LRow) and p.b.rows is r.b.rows and p.b.i is r.b.i):
            raise Unsup("std::sort")
        v = it.load(p.b)
        if not isinstance(v, RowVal) or p.off is not ZERO or r.off is not ROWEND:
            raise Unsup("std::sort")
        it.store(p.b, RowVal(v.cnt, TRUE))

    def f_std_rotate(self, it, e, args):
        p, n = self.rng(it, args[0], args[2])
        m = it.load(args[1])
        sh = sub(it.ptr_off(m), it.ptr_off(p))
        a = it.load(p.b)
        po = it.ptr_off(p)
        if not (a.nd == 1 and isinstance(p.b, Cell) and po is ZERO):
            raise Unsup("std::rotate")
        fs = flat_reader(a)

        def f(q):
            j = add(q[0], sh)
            c = lt(j, n)
            d = CTX.decide(c)
            if d is True:
                return fs(j)
            if d is False:
                return fs(sub(j, n))
            return ite(c, fs(j), fs(sub(j, n)))

        it.st[p.b] = a.with_node(NRegion(a.node, [("r", ZERO, n, 1)], f))
        return it.ptr_add(p, sub(n, sh))

    f_std__V2_rotate = f_std_rotate

    def f_std_swap(self, it, e, args):
        a, b = it.load(args[0]), it.load(args[1])
        it.store(args[0], b)
        it.store(args[1], a)

    def f_std_get(self, it, e, args):
        v = it.load(args[0])
        i = int((e.get("ta") or ["0"])[0])
        x = v.d[i]
        return x

    def f_std_begin(self, it, e, args):
        return self.m_begin(it, e, args[0], [])

    def f_std_end(self, it, e, args):
        return self.m_end(it, e, args[0], [])

    f_begin = f_std_begin
    f_end = f_std_end

    def f_std_accumulate(self, it, e, args):
        p, n = self.rng(it, args[0], args[1])
        v = it.load(args[2])
        fs = flat_reader(it.load(p.b))
        po = it.ptr_off(p)
        cn = cint(n)
        if cn is not None:
            return add(v, *[fs(add(po, num(i))) for i in range(cn)])
        j = fresh("j")
        return add(v, sum_((j,), land(ge(j, ZERO), lt(j, n)), fs(add(po, j))))

    def f_std_distance(self, it, e, args):
        return self.rng(it, args[0], args[1])[1]

    def f_std_numeric_limits_quiet_NaN(self, it, e, args):
        return app("NaN", "R")

    def f_std_numeric_limits_epsilon(self, it, e, args):
        return num(Fraction(1, 2 ** 52))

    def f_std_numeric_limits_infinity(self, it, e, args):
        return app("INF", "R")

    def f_xt_numeric_constants(self, it, e, args):
        raise Unsup("numeric constants")


ROWEND = sym("rowend", "I")


def mulall(ts):
    r = ONE
    for t in ts:
        r = mul(r, t)
    return r


def expr_type(e):
    k = e["k"]
    if k in ("cast", "call", "ctor", "ilist", "fld", "zero", "gvar"):
        return e.get("t")
    return None


def flat_reader(a):
    if a.nd == 1:
        return lambda i: a.read(i)
    return lambda i: a.node.read(unflat(a.shape, i))


def nested(it, v, dt):
    """nested initialiser lists of scalars -> array"""
    items = [it.load(c) for c in v.items]
    if not items:
        return vec([], dt)
    sub_ = [nested(it, x, dt) if isinstance(x, Vec) else x for x in items]
    if isinstance(sub_[0], T):
        return vec(sub_, dt)
    sh = (num(len(sub_)),) + sub_[0].shape

    ents = {}
    for i, s in enumerate(sub_):
        for q in s.elems():
            ents[(num(i),) + q] = ("set", s.node.read(q))
    return Arr(sh, dt, NUpd(NFn(lambda q: ZERO), (None,) * len(sh), ents))


def reduce_all(v, op):
    if isinstance(v, T):
        return v
    cs = v.cshape()
    if None not in cs:
        n = 1
        for c in cs:
            n *= c
        if n <= 4096:
            vals = [v.node.read(q) for q in v.elems()]
            if op == "sum":
                return add(*vals) if vals else ZERO
            return (land if op == "and" else lor)(*vals)
    qs = tuple(fresh("j") for _ in v.shape)
    g = land(*[land(ge(x, ZERO), lt(x, s)) for x, s in zip(qs, v.shape)])
    n = CTX.push(g)
    try:
        t = v.node.read(qs)
    finally:
        CTX.pop(n)
    if op == "sum":
        return sum_(qs, g, t)
    if op == "and":
        return forall(qs, imp(g, t))
    return exists(qs, land(g, t))


_ext = {}


def monotone_max(v):
    """maximum of an array of which the content is a non-decreasing polynomial of the indices (and the array is not empty)"""
    if isinstance(v.node, NSym) or not v.shape or any(CTX.decide(gt(s, ZERO)) is not True for s in v.shape):
        return None
    qs = tuple(sym("$x%d" % i) for i in range(v.nd))
    n = CTX.push(*[land(ge(x, ZERO), lt(x, s)) for x, s in zip(qs, v.shape)])
    try:
        t = v.node.read(qs)
        if atoms(t, lambda x: x.op not in ("poly", "num", "sym")) or not is_int(t):
            return None
        for x in qs:
            if CTX.decide(ge(subst(t, {x: add(x, ONE)}), t)) is not True:
                return None
    finally:
        CTX.pop(n)
    return subst(t, {x: sub(s, ONE) for x, s in zip(qs, v.shape)})


def extreme(v, mx):
    """max/min of an array: a symbol bounded by (and attained among) the entries"""
    cs = v.cshape()
    if None not in cs:
        n = 1
        for c in cs:
            n *= c
        if 0 < n <= 64:
            vals = [v.node.read(q) for q in v.elems()]
            r = vals[0]
            for x in vals[1:]:
                r = ite(ge(r, x) if mx else le(r, x), r, x)
            return r
    qs = tuple(sym("$x%d" % i) for i in range(v.nd))
    g = land(*[land(ge(x, ZERO), lt(x, s)) for x, s in zip(qs, v.shape)])
    n = CTX.push(g)
    try:
        t = v.node.read(qs)
    finally:
        CTX.pop(n)
    if (fv(t) | fv(g)) & set(getattr(CTX, "loopstack", ())):
        raise Unsup("amax/amin of loop-dependent data")
    key = (mx, t, v.shape)
    if key in _ext:
        return _ext[key]
    name = "%s!%d" % ("amax" if mx else "amin", len(_ext))
    m = sym(name, "I" if is_int(t) else "R")
    _ext[key] = m
    wit = [sym("%s_at%d" % (name, i)) for i in range(v.nd)]
    nonempty = land(*[gt(s, ZERO) for s in v.shape])
    sb = dict(zip(qs, wit))
    CTX_FACTS.append(imp(nonempty, land(subst(g, sb), eq(m, subst(t, sb)))))
    CTX.facts.insert(0, CTX_FACTS[-1])
    CTX.quant.append((qs, imp(g, ge(m, t) if mx else le(m, t)), [t] if t.op == "read" else []))
    if t.op == "read":
        A = t.a[0]
        idx = t.a[1:]
        if idx == qs:
            CTX.arrfacts.setdefault(A, []).append(lambda ix, m=m, qs=qs, g=g, A=A: imp(subst(g, dict(zip(qs, ix))), ge(m, read(A, *ix)) if mx else le(m, read(A, *ix))))
    return m


CTX_FACTS = []


def solve_arr(A, b):
    """direct solver contract: the returned x satisfies A x = b (A as stored at factorisation).

    x is an uninterpreted function of the matrix entries and right-hand side, named by their canonical content"""
    r, c = sym("$r0"), sym("$c0")
    key = (A.rows, A.cols, A.fn(r, c), b.read(r))
    if key not in _solves:
        _solves[key] = (ArrSym("solve!%d" % len(_solves), 1, "R"), A, b)
    X = _solves[key][0]
    _last[0] = key
    return Arr((A.cols,), "R", NSym(X))


_solves = {}
_last = [None]


class SetDiff:
    """sorted distinct values of a that are not in b (b None: all values of a).

    contract: R strictly increasing, R[k] is an entry of a and not of b, every entry of a is in R or in b.  pos/jb are the
    inverse functions, isU(v) <=> v is in R."""

    def __init__(self, a, b, n):
        self.a, self.b = a, b
        self.L = sym("sdlen!%d" % n, "I")
        self.S = ArrSym("setdiff!%d" % n, 1, "I")
        self.R = Arr((self.L,), "I", NSym(self.S))
        nm = lambda s: "sd_%s!%d" % (s, n)
        self.pos = lambda v: app(nm("pos"), "I", v)
        self.jb = lambda v: [app(nm("jb%d" % i), "I", v) for i in range(b.nd)] if b is not None else []
        self.isU = lambda v: app(nm("isU"), "B", v) if b is not None else TRUE
        self.wit = lambda k: [app(nm("wit%d" % i), "I", k) for i in range(a.nd)]
        self.nm = nm


def inr(ix, shape):
    return land(*[land(ge(x, ZERO), lt(x, s)) for x, s in zip(ix, shape)])


def setdiff(a, b):
    if not isinstance(a.node, NSym) or (b is not None and not isinstance(b.node, NSym)):
        raise Unsup("setdiff1d/unique of computed arrays")
    key = (a.node.A, a.shape, b.node.A if b is not None else None, b.shape if b is not None else None)
    if key in _sd:
        return _sd[key]
    sd = SetDiff(a, b, len(_sd))
    _sd[key] = sd
    AF = CTX.arrfacts
    CTX.facts.insert(0, ge(sd.L, ZERO))
    CTX.facts.insert(0, le(sd.L, a.size()))
    if b is None:
        CTX.facts.insert(0, imp(land(*[gt(x, ZERO) for x in a.shape]), gt(sd.L, ZERO)))

    def nm_wit(x):
        return x.a[2] if x.op == "app" and x.a[0] == sd.nm("wit0") else None

    def fR(ix):
        k = ix[0]
        v = read(sd.S, k)
        w = sd.wit(k)
        return imp(inr(ix, sd.R.shape), land(inr(w, a.shape), eq(v, a.read(*w)), eq(sd.pos(v), k), sd.isU(v)))

    AF.setdefault(sd.S, []).append(fR)
    CTX.inverse[sd.S] = (sd.pos, sd.L)
    CTX.invname[sd.nm("pos")] = (sd.S, sd.L)

    def fa(ix):
        w = nm_wit(ix[0])
        if w is not None and all(x is y for x, y in zip(ix, sd.wit(w))):
            return TRUE  # (implied by the facts on R)
        v = a.read(*ix)
        p = sd.pos(v)
        u = land(ge(p, ZERO), lt(p, sd.L), eq(read(sd.S, p), v))
        if b is None:
            return imp(inr(ix, a.shape), u)
        j = sd.jb(v)
        nu = land(inr(j, b.shape), eq(b.read(*j), v))
        c = sd.isU(v)
        return imp(inr(ix, a.shape), land(imp(c, u), imp(lnot(c), nu)))

    AF.setdefault(a.node.A, []).append(fa)
    if b is not None:
        AF.setdefault(b.node.A, []).append(lambda ix: imp(inr(ix, b.shape), lnot(sd.isU(b.read(*ix)))))
    x, y = sym("$s0"), sym("$s1")
    CTX.quant.append(((x, y), imp(land(ge(x, ZERO), lt(x, y), lt(y, sd.L)), lt(read(sd.S, x), read(sd.S, y))), [[read(sd.S, x), read(sd.S, y)]]))
    if b is not None and a.nd == 1 and b.nd == 1 and a.node.A in CTX.inverse:
        # number of entries: len(a) - len(b) if a and b have distinct entries and b is a subset of a
        if CTX.decide(le(b.shape[0], ZERO)) is True:
            CTX.facts.insert(0, eq(sd.L, a.shape[0]))
        elif b.node.A in CTX.inverse:
            k = sym("n0!%d" % loops.next_id(), "I")
            inva, na = CTX.inverse[a.node.A]
            p = inva(b.read(k))
            n = CTX.push(ge(k, ZERO), lt(k, b.shape[0]))
            try:
                ok = CTX.prove_smt(land(ge(p, ZERO), lt(p, na), eq(a.read(p), b.read(k))), 3000, (), False)[0] == "proved"
            finally:
                CTX.pop(n)
            if ok:
                CTX.facts.insert(0, eq(sd.L, sub(a.shape[0], b.shape[0])))
    return sd


_sd = {}


def unique(a):
    return setdiff(a, None)


def sorted_(a):
    """xt::sort: the entries of a in non-decreasing order (a permutation with its inverse)"""
    if a.nd != 1 or not isinstance(a.node, NSym):
        raise Unsup("sort of computed arrays")
    A = a.node.A
    key = (A, a.shape)
    if key in _sort:
        return _sort[key]
    n = len(_sort)
    N = a.shape[0]
    S = ArrSym("sorted!%d" % n, 1, a.dt)
    perm = lambda k: app("perm!%d" % n, "I", k)
    rank = lambda k: app("rank!%d" % n, "I", k)
    AF = CTX.arrfacts

    def is_(x, nm):
        return x.op == "app" and x.a[0] == "%s!%d" % (nm, n)

    def fs(ix):
        k = ix[0]
        if is_(k, "rank"):
            return TRUE
        p = perm(k)
        return imp(inr(ix, (N,)), land(inr((p,), (N,)), eq(read(S, k), a.read(p)), eq(rank(p), k)))

    def fa(ix):
        k = ix[0]
        if is_(k, "perm"):
            return TRUE
        p = rank(k)
        return imp(inr(ix, (N,)), land(inr((p,), (N,)), eq(read(S, p), a.read(k)), eq(perm(p), k)))

    AF.setdefault(S, []).append(fs)
    AF.setdefault(A, []).append(fa)
    x, y = sym("$s0"), sym("$s1")
    CTX.quant.append(((x, y), imp(land(ge(x, ZERO), lt(x, y), lt(y, N)), le(read(S, x), read(S, y))), [[read(S, x), read(S, y)]]))
    if a.dt == "I":
        # the sorted distinct values: sorted without its repeated values, i.e. the same if there are none
        u = unique(a)
        d = sym("repeated!%d" % n)
        CTX.facts.insert(0, lor(land(ge(d, ZERO), lt(add(d, ONE), N), eq(read(S, d), read(S, add(d, ONE)))), eq(u.L, N)))
        AF.setdefault(S, []).append(lambda ix: imp(land(inr(ix, (N,)), eq(u.L, N)), eq(read(S, ix[0]), read(u.S, ix[0]))))
        AF.setdefault(u.S, []).append(lambda ix: imp(land(inr(ix, (N,)), eq(u.L, N)), eq(read(S, ix[0]), read(u.S, ix[0]))))
    r = Arr((N,), a.dt, NSym(S))
    _sort[key] = r
    return r


_sort = {}
