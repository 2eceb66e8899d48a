#include <harness.h>
using namespace gfvh;
using GooseFEM::Mesh::Quad4::FineLayer;

/// sorted nodes at which a condition holds
template <class F>
static std::vector<size_t> where(size_t n, F f)
{
    std::vector<size_t> r;
    for (size_t i = 0; i < n; ++i)
        if (f(i))
            r.push_back(i);
    return r;
}

/// as set, without repetition
static void set_eq(Case& c, const std::string& at, const U1& got, std::vector<size_t> e)
{
    std::vector<size_t> g(got.begin(), got.end());
    std::sort(g.begin(), g.end());
    std::sort(e.begin(), e.end());
    c.expect(at, g == e, "returned " + arr(got) + " expected " + arr(xt::adapt(e, std::array<size_t, 1>{e.size()})));
}

struct Box {
    long x0, x1, y0, y1;
};

static long mod(long a, long n)
{
    return ((a % n) + n) % n;
}

static void body(Case& c)
{
    static const size_t widths[] = {1, 2, 3, 4, 5, 6, 8, 9, 12, 18, 27, 36, 54, 81, 108};
    size_t X = widths[c.i(0, c.coin() ? 9 : 14)], Y = c.coin(4) ? c.i(30, 70) : c.i(1, 25), nf = c.coin() ? 1 : c.i(0, 8);
    double h = c.coin() ? 1.0 : c.coin() ? 0.1 : c.real(0.01, 4.0);
    c.input("nelx", X);
    c.input("nely", Y);
    c.input("h", h);
    c.input("nfine", nf);
    FineLayer mesh(X, Y, h, nf);
    D2 coor = mesh.coor();
    U2 conn = mesh.conn();
    size_t N = mesh.nnode(), E = mesh.nelem(), W = mesh.nelx(), H = mesh.nely();
    U1 nhx = mesh.elemrow_nhx(), nhy = mesh.elemrow_nhy(), nel = mesh.elemrow_nelem();
    auto type = mesh.elemrow_type();
    size_t L = nhx.size();
    c.eq("h", mesh.h(), h);
    c.eq("ndim", mesh.ndim(), (size_t)2);
    c.eq("nne", mesh.nne(), (size_t)4);
    c.eq("nelx", W, X);
    c.shape("coor", coor, std::vector<size_t>{N, 2});
    c.shape("conn", conn, std::vector<size_t>{E, 4});
    // height: approximately as asked for, at least (symmetric about a middle layer)
    size_t odd = 2 * ((Y + 1) / 2) - 1;
    c.expect("height", H >= odd && H % 2 == 1, str(H));
    // integer positions
    std::vector<std::array<long, 2>> x(N);
    std::map<std::array<long, 2>, size_t> at;
    for (size_t i = 0; i < N; ++i) {
        for (size_t j = 0; j < 2; ++j) {
            x[i][j] = std::lround(coor(i, j) / h);
            c.close("position on the grid", coor(i, j), x[i][j] * h, 1e-9, h * (1 + std::abs(x[i][j])));
        }
        c.expect("nodes at different positions", at.emplace(x[i], i).second, "node " + str(i));
        c.expect("nodes in the domain", x[i][0] >= 0 && x[i][0] <= (long)W && x[i][1] >= 0 && x[i][1] <= (long)H);
    }
    // conforming, positively oriented, tiling
    std::vector<bool> used(N, false);
    std::map<std::pair<size_t, size_t>, int> edges;
    long area2 = 0;
    std::vector<Box> box(E);
    for (size_t e = 0; e < E; ++e) {
        long a = 0;
        Box b{1L << 40, -1, 1L << 40, -1};
        for (size_t k = 0; k < 4; ++k) {
            size_t n = conn(e, k), m = conn(e, (k + 1) % 4), l = conn(e, (k + 2) % 4);
            c.expect("node numbers", n < N && m < N && l < N);
            used[n] = true;
            a += x[n][0] * x[m][1] - x[m][0] * x[n][1];
            long turn = (x[m][0] - x[n][0]) * (x[l][1] - x[m][1]) - (x[m][1] - x[n][1]) * (x[l][0] - x[m][0]);
            c.expect("convex and positively oriented", turn > 0, "element " + str(e));
            c.expect("edge used once in each direction", edges[{n, m}]++ == 0, "element " + str(e));
            b.x0 = std::min(b.x0, x[n][0]);
            b.x1 = std::max(b.x1, x[n][0]);
            b.y0 = std::min(b.y0, x[n][1]);
            b.y1 = std::max(b.y1, x[n][1]);
        }
        c.expect("area", a > 0);
        area2 += a;
        box[e] = b;
    }
    for (size_t i = 0; i < N; ++i)
        c.expect("no unused node", used[i], "node " + str(i));
    c.eq("the elements fill the domain", area2, (long)(2 * W * H));
    for (auto& [k, v] : edges) {
        auto &p = x[k.first], &q = x[k.second];
        bool bnd = (p[0] == q[0] && (p[0] == 0 || p[0] == (long)W)) || (p[1] == q[1] && (p[1] == 0 || p[1] == (long)H));
        c.eq("conforming: edge " + str(k.first) + "-" + str(k.second), edges.count({k.second, k.first}), (size_t)(bnd ? 0 : 1));
    }
    // symmetric about mid-height
    std::set<std::set<std::array<long, 2>>> poly;
    for (size_t e = 0; e < E; ++e) {
        std::set<std::array<long, 2>> s;
        for (size_t k = 0; k < 4; ++k)
            s.insert(x[conn(e, k)]);
        poly.insert(s);
    }
    for (auto& s : poly) {
        std::set<std::array<long, 2>> r;
        for (auto p : s)
            r.insert({p[0], (long)H - p[1]});
        c.expect("symmetric", poly.count(r) == 1);
    }
    // layers
    c.expect("layer information: sizes", L % 2 == 1 && nhy.size() == L && nel.size() == L && type.size() == L);
    size_t off = 0;
    long y = 0;
    std::vector<long> y0(L), y1(L);
    std::vector<U1> layer(L);
    for (size_t l = 0; l < L; ++l) {
        c.expect("layer type", type(l) == -1 || type(l) == 0);
        bool ref = type(l) == 0;
        layer[l] = mesh.elementsLayer(l);
        c.eq("elements per layer: number of blocks", nel(l) * nhx(l), W);
        c.eq("elements per layer", layer[l].size(), nel(l) * (ref ? 4 : 1));
        y0[l] = y;
        y1[l] = y + nhy(l);
        for (size_t k = 0; k < layer[l].size(); ++k) {
            size_t e = layer[l](k);
            c.eq("elements per layer: numbers", e, off + k);
            size_t b = ref ? k / 4 : k;
            Box q = box[e];
            c.expect("element inside its layer", q.y0 >= y0[l] && q.y1 <= y1[l] && q.x0 >= (long)(b * nhx(l)) && q.x1 <= (long)((b + 1) * nhx(l)), "element " + str(e));
            if (!ref)
                c.expect("element size", q.y0 == y0[l] && q.y1 == y1[l] && q.x0 == (long)(b * nhx(l)) && q.x1 == (long)((b + 1) * nhx(l)), "element " + str(e));
        }
        off += layer[l].size();
        y = y1[l];
    }
    c.eq("all elements are in a layer", off, E);
    c.eq("height of the layers", y, (long)H);
    size_t mid = (L - 1) / 2;
    c.expect("middle layer: finest elements", nhx(mid) == 1 && nhy(mid) == 1 && type(mid) == -1 && nel(mid) == W);
    c.same("elements of the middle layer", mesh.elementsMiddleLayer(), layer[mid]);
    for (size_t l = 0; l < L; ++l) {
        c.expect("layers: symmetric", nhx(l) == nhx(L - 1 - l) && nhy(l) == nhy(L - 1 - l) && type(l) == type(L - 1 - l));
        c.expect("layers: finer towards the middle", l >= mid || nhx(l) >= nhx(l + 1));
    }
    // minimal number of fine layers (in the limits of the height)
    size_t half = std::min(nf % 2 == 0 ? nf / 2 + 1 : (nf + 1) / 2, (Y + 1) / 2);
    for (size_t l = 0; l < half; ++l)
        c.expect("number of fine layers", l <= mid && nhx(mid + l) == 1 && nhy(mid + l) == 1 && type(mid + l) == -1);
    // boundary
    auto edge = [&](size_t j, long v, bool open) {
        long n = j ? (long)W : (long)H;
        return where(N, [&](size_t i) { return x[i][j] == v && (!open || (x[i][1 - j] > 0 && x[i][1 - j] < n)); });
    };
    set_eq(c, "nodesBottomEdge", mesh.nodesBottomEdge(), edge(1, 0, false));
    set_eq(c, "nodesTopEdge", mesh.nodesTopEdge(), edge(1, H, false));
    set_eq(c, "nodesLeftEdge", mesh.nodesLeftEdge(), edge(0, 0, false));
    set_eq(c, "nodesRightEdge", mesh.nodesRightEdge(), edge(0, W, false));
    set_eq(c, "nodesBottomOpenEdge", mesh.nodesBottomOpenEdge(), edge(1, 0, true));
    set_eq(c, "nodesTopOpenEdge", mesh.nodesTopOpenEdge(), edge(1, H, true));
    set_eq(c, "nodesLeftOpenEdge", mesh.nodesLeftOpenEdge(), edge(0, 0, true));
    set_eq(c, "nodesRightOpenEdge", mesh.nodesRightOpenEdge(), edge(0, W, true));
    auto corner = [&](const char* nm, size_t n, long px, long py) { c.expect(nm, n < N && x[n][0] == px && x[n][1] == py); };
    corner("nodesBottomLeftCorner", mesh.nodesBottomLeftCorner(), 0, 0);
    corner("nodesBottomRightCorner", mesh.nodesBottomRightCorner(), W, 0);
    corner("nodesTopLeftCorner", mesh.nodesTopLeftCorner(), 0, H);
    corner("nodesTopRightCorner", mesh.nodesTopRightCorner(), W, H);
    corner("nodesOrigin", mesh.nodesOrigin(), 0, 0);
    U1 l = mesh.nodesLeftEdge(), r = mesh.nodesRightEdge(), bt = mesh.nodesBottomEdge(), tp = mesh.nodesTopEdge();
    for (size_t i = 0; i < l.size(); ++i)
        c.expect("left and right edge in the same order", x[l(i)][1] == x[r(i)][1] && (i == 0 || x[l(i)][1] > x[l(i - 1)][1]));
    for (size_t i = 0; i < bt.size(); ++i)
        c.expect("bottom and top edge in the same order", x[bt(i)][0] == x[tp(i)][0] && (i == 0 || x[bt(i)][0] > x[bt(i - 1)][0]));

    // roll: shift by whole coarse elements
    long step = nhx(0);
    c.eq("coarsest element", (long)xt::amax(nhx)(), step);
    for (size_t n : {c.i(0, nel(0)), c.i(0, 2 * nel(0))}) {
        U1 map = mesh.roll(n);
        c.eq("roll: size", map.size(), E);
        std::vector<bool> hit(E, false);
        for (size_t e = 0; e < E; ++e) {
            c.expect("roll: element numbers", map(e) < E && !hit[map(e)]);
            hit[map(e)] = true;
            for (size_t k = 0; k < 4; ++k) {
                auto p = x[conn(map(e), k)], q = x[conn(e, k)];
                c.expect("roll: shift", p[1] == q[1] && mod(p[0] + n * step - q[0], W) == 0, "element " + str(e) + " is at " + str(map(e)));
            }
        }
    }
    // selection by rows and columns: the elements of the layers on the rows, the columns rounded to whole elements of the coarsest of the first and the last layer
    {
        size_t r0 = c.i(0, H - 1), r1 = c.i(r0 + 1, H), c0 = c.i(0, W - 1), c1 = c.i(c0 + 1, W);
        if (c.coin()) {
            r0 = mid < L ? (size_t)y0[mid] : r0;
            r1 = r0 + 1;
        }
        bool ar = c.coin(4), ac = c.coin(4);
        std::vector<size_t> rows{r0, r1}, cols{c0, c1};
        if (ar) {
            rows = {};
            r0 = 0;
            r1 = H;
        }
        if (ac) {
            cols = {};
            c0 = 0;
            c1 = W;
        }
        if (c.coin(6))
            cols = {c0, c0}, c1 = c0;
        c.input("rows", str(r0) + " " + str(r1));
        c.input("columns", str(c0) + " " + str(c1));
        std::vector<size_t> e;
        size_t lo = 0, hi = 0;
        while (y1[lo] <= (long)r0)
            lo++;
        while (y1[hi] < (long)r1)
            hi++;
        long hx = std::max(nhx(lo), nhx(hi)), xl = c0 - c0 % hx, xu = c1 - c1 % hx;
        for (size_t k = lo; k <= hi && c0 < c1; ++k)
            for (size_t q : layer[k])
                if (box[q].x0 >= xl && box[q].x1 <= xu)
                    e.push_back(q);
        U1 s = mesh.elementgrid_ravel(rows, cols);
        c.expect("elementgrid_ravel", std::vector<size_t>(s.begin(), s.end()) == e, "returned " + arr(s) + " expected " + arr(xt::adapt(e, std::array<size_t, 1>{e.size()})));
    }
    // selection around an element of the middle layer
    for (int rep = 0; rep < 3; ++rep) {
        size_t k = c.i(0, W - 1), e = layer[mid](k);
        size_t size = c.coin(3) ? c.i(0, W + 3) : c.i(0, 4);
        c.input("element", e);
        c.input("size", size);
        U1 s = mesh.elementgrid_around_ravel(e, size);
        long Y0 = y0[mid];
        std::vector<size_t> ex, sel;
        long dx = 1; // columns: rounded to whole elements of the coarsest layer
        for (size_t q = 0; q < L; ++q) {
            if (y1[q] <= Y0 - (long)size || y0[q] > Y0 + (long)size)
                continue;
            sel.push_back(q);
            dx = std::max(dx, (long)nhx(q));
        }
        std::set<long> cols2;
        for (long d = -(long)size; d <= (long)size; ++d)
            cols2.insert(mod((long)k + d, W) / dx);
        for (size_t q : sel)
            for (size_t el : layer[q])
                if (cols2.count(box[el].x0 / dx))
                    ex.push_back(el);
        if (2 * size >= H) {
            c.expect("elementgrid_around_ravel: all", s.size() == E);
        }
        else {
            set_eq(c, "elementgrid_around_ravel", s, ex);
        }
        size_t a = c.i(0, c.coin() ? 3 : W), b = c.i(0, c.coin() ? 3 : W);
        c.input("left", a);
        c.input("right", b);
        U1 t = mesh.elementgrid_leftright(e, a, b);
        std::set<size_t> lr;
        for (long d = -(long)a; d <= (long)b; ++d)
            lr.insert(layer[mid](mod((long)k + d, W)));
        set_eq(c, "elementgrid_leftright", t, std::vector<size_t>(lr.begin(), lr.end()));
    }
    // rebuild
    {
        FineLayer copy(coor, conn);
        c.same("rebuild: conn", copy.conn(), conn);
        c.allclose("rebuild: coor", copy.coor(), coor);
        c.same("rebuild: elements of the middle layer", copy.elementsMiddleLayer(), mesh.elementsMiddleLayer());
        c.same("rebuild: layers", copy.elemrow_nhx(), nhx);
        c.same("rebuild: layers", copy.elemrow_nhy(), nhy);
        c.same("rebuild: layers", copy.elemrow_nelem(), nel);
    }
    c.nontrivial = nhx(0) > 1;
}

GFVH_MAIN(body, "fine-layer meshes up to 108 x 70 elements, element sizes 0.01..4, 0..8 fine layers, selections and rolls")
